package main

// JSON text of our own: a parser with spans, whitespace-free form, and a
// generator of adversarial texts. Nothing here uses the code under test.

import (
	"errors"
	"math/rand"
	"strconv"
	"strings"
)

// cst is a value in a text: kind, span [s,e), names (raw, with spans), children.
type cst struct {
	t    byte // o a s n b z
	s, e int
	name []string
	ns   []int // start of the name's text (behind the quote)
	c    []*cst
}

var errText = errors.New("not well formed")

func isSpace(b byte) bool { return b == ' ' || b == '\t' || b == '\n' || b == '\r' }

type tparser struct {
	d []byte
	i int
}

func (p *tparser) ws() {
	for p.i < len(p.d) && isSpace(p.d[p.i]) {
		p.i++
	}
}

func (p *tparser) str() (int, int, error) {
	// at a quote; returns span of the content
	if p.i >= len(p.d) || p.d[p.i] != '"' {
		return 0, 0, errText
	}
	p.i++
	s := p.i
	for p.i < len(p.d) {
		switch p.d[p.i] {
		case '\\':
			p.i += 2
		case '"':
			e := p.i
			p.i++
			return s, e, nil
		default:
			p.i++
		}
	}
	return 0, 0, errText
}

func (p *tparser) value(depth int) (*cst, error) {
	p.ws()
	if p.i >= len(p.d) {
		return nil, errText
	}
	v := &cst{s: p.i}
	switch p.d[p.i] {
	case '"':
		v.t = 's'
		if _, _, err := p.str(); err != nil {
			return nil, err
		}
	case '{':
		v.t = 'o'
		p.i++
		p.ws()
		if p.i < len(p.d) && p.d[p.i] == '}' {
			p.i++
			break
		}
		for {
			p.ws()
			s, e, err := p.str()
			if err != nil {
				return nil, err
			}
			v.name = append(v.name, string(p.d[s:e]))
			v.ns = append(v.ns, s)
			p.ws()
			if p.i >= len(p.d) || p.d[p.i] != ':' {
				return nil, errText
			}
			p.i++
			c, err := p.value(depth + 1)
			if err != nil {
				return nil, err
			}
			v.c = append(v.c, c)
			p.ws()
			if p.i >= len(p.d) {
				return nil, errText
			}
			if p.d[p.i] == ',' {
				p.i++
				continue
			}
			if p.d[p.i] == '}' {
				p.i++
				break
			}
			return nil, errText
		}
	case '[':
		v.t = 'a'
		p.i++
		p.ws()
		if p.i < len(p.d) && p.d[p.i] == ']' {
			p.i++
			break
		}
		for {
			c, err := p.value(depth + 1)
			if err != nil {
				return nil, err
			}
			v.c = append(v.c, c)
			p.ws()
			if p.i >= len(p.d) {
				return nil, errText
			}
			if p.d[p.i] == ',' {
				p.i++
				continue
			}
			if p.d[p.i] == ']' {
				p.i++
				break
			}
			return nil, errText
		}
	default:
		for p.i < len(p.d) && !isSpace(p.d[p.i]) && !strings.ContainsRune(",]}:[{\"", rune(p.d[p.i])) {
			p.i++
		}
		v.t = bareKind(string(p.d[v.s:p.i]))
		if v.t == 0 {
			return nil, errText
		}
	}
	v.e = p.i
	return v, nil
}

func bareKind(x string) byte {
	switch x {
	case "true", "false":
		return 'b'
	case "null":
		return 'z'
	}
	if isNumber(x) {
		return 'n'
	}
	return 0
}

func isNumber(x string) bool {
	i := 0
	digits := func() bool {
		s := i
		for i < len(x) && x[i] >= '0' && x[i] <= '9' {
			i++
		}
		return i > s
	}
	if i < len(x) && x[i] == '-' {
		i++
	}
	s := i
	if !digits() || (x[s] == '0' && i-s > 1) {
		return false
	}
	if i < len(x) && x[i] == '.' {
		i++
		if !digits() {
			return false
		}
	}
	if i < len(x) && (x[i] == 'e' || x[i] == 'E') {
		i++
		if i < len(x) && (x[i] == '+' || x[i] == '-') {
			i++
		}
		if !digits() {
			return false
		}
	}
	return i == len(x)
}

func parseText(d []byte) (*cst, error) {
	p := &tparser{d: d}
	v, err := p.value(0)
	if err != nil {
		return nil, err
	}
	p.ws()
	if p.i != len(d) {
		return nil, errText
	}
	return v, nil
}

func (v *cst) scalar() bool { return v.t != 'o' && v.t != 'a' }

func (v *cst) child(x string) int {
	switch v.t {
	case 'o':
		for i, n := range v.name {
			if n == x {
				return i
			}
		}
	case 'a':
		n, err := strconv.Atoi(x)
		if err == nil && n >= 0 && n < len(v.c) {
			return n
		}
	}
	return -1
}

func (v *cst) at(path []string) *cst {
	for _, x := range path {
		i := v.child(x)
		if i < 0 {
			return nil
		}
		v = v.c[i]
	}
	return v
}

// inner is the text a getter gives for v
func (v *cst) inner(d []byte) []byte {
	if v.t == 's' {
		return d[v.s+1 : v.e-1]
	}
	return d[v.s:v.e]
}

func canon(d []byte) string {
	o := make([]byte, 0, len(d))
	q := false
	for i := 0; i < len(d); i++ {
		b := d[i]
		if q {
			o = append(o, b)
			if b == '\\' && i+1 < len(d) {
				i++
				o = append(o, d[i])
			} else if b == '"' {
				q = false
			}
			continue
		}
		if isSpace(b) {
			continue
		}
		if b == '"' {
			q = true
		}
		o = append(o, b)
	}
	return string(o)
}

// ---------------------------------------------------------------- generation

var strPool = []string{
	``, `a`, `b`, `x`, ` `, `  x  `, `\\`, `\"`, `\\\\`, `\\\"`, `\\\\\"`, `x\\`, `\\x`, `\"x`, `x\"`, `\"\"`,
	`{`, `}`, `[`, `]`, `,`, `:`, `{}`, `[]`, `[1]`, `{\"a\":1}`, `\":\"`, `\",\"`, `],[`, `},{`, `a,b`, `a:b`,
	`a]`, `[a`, `{a`, `a}`, `]}`, `[{`, `, `, ` ,`, ` : `, `true`, `false`, `null`, `0`, `1`, `-1`, `12`, `1.5`, `1e3`,
	`\u0022`, `\u005c`, `\/`, `\n\t\r`, `/`, `//`, `'`, "`", `é`, `日本`, `😀`, `\\\\\\\\`, `\\\\\\\"`, `a\\\"b`, `\\\",\\\"`,
	`Lorem ipsum dolor sit amet`, `http://x.y/z?a=1&b=[2]`, `<a href=\"x\">`, `0x1F`, `+1`, `01`, `NaN`, `Infinity`, `1_0`,
	`key`, `name`, `a.b`, `a b`, `error_code: 07`, `' not found error_code: 08`, `"`[:0] + `end\\`,
}

var numPool = []string{
	"0", "1", "2", "7", "10", "12", "42", "-1", "-0", "-12", "1.5", "-2.75", "0.1", "1e3", "1E+2", "2e-3", "-1.5E-7",
	"9223372036854775807", "-9223372036854775808", "123456789012", "3.141592653589793", "1e308", "100000000000000000000", "0.0", "5e-324",
}

// names that are never an index
var namePool = []string{
	"a", "b", "c", "x", "key", "name", "id", "type", "long name with spaces", `q\"q`, `\"`, `\\`, `x\\`, `\\\"`, `a\\\\`,
	`{`, `}`, `[`, `]`, `:`, `,`, `{a`, `a:b`, `a,b`, `[0]`, `]}`, `{}`, ` `, ` a`, `a `, `é`, `日本`, `1x`, `x1`, `1.5`, `0x1`, ` 1`,
	`a.b`, `true`, `null`, `\u0061`, `A`, `aa`, `ab`, `ba`, `aaa`, `_`, `-`, `--1`, `1-`, `a/b`, `@type`, `$ref`, `'`, `error_code: 08`, `a 20`,
	`thisIsAMuchLongerMemberNameThanTheOthersInThisPoolSoThatItSpansManyBytes`,
}

func pick(r *rand.Rand, s []string) string { return s[r.Intn(len(s))] }

// large: texts of any size; off where TLC has to read them
var large bool

func randStr(r *rand.Rand) string {
	if large && r.Intn(250) == 0 {
		n := 130 + r.Intn(400)
		if r.Intn(40) == 0 {
			n = 66000
		}
		x := pick(r, strPool[1:])
		return strings.Repeat(x, 1+n/len(x))
	}
	switch r.Intn(12) {
	case 0:
		return pick(r, strPool) + pick(r, strPool)
	case 1:
		return strings.Repeat(pick(r, strPool[5:]), 1+r.Intn(20))
	case 2:
		return strings.Repeat(`\\`, r.Intn(6)) + strings.Repeat(`\"`, r.Intn(3))
	case 3:
		n := r.Intn(8)
		b := make([]byte, 0, 2*n)
		al := `ab{}[],: 01xyz`
		for i := 0; i < n; i++ {
			k := r.Intn(len(al) + 4)
			if k < len(al) {
				b = append(b, al[k])
			} else if k&1 == 0 {
				b = append(b, '\\', '\\')
			} else {
				b = append(b, '\\', '"')
			}
		}
		return string(b)
	}
	return pick(r, strPool)
}

func randName(r *rand.Rand) string {
	if r.Intn(6) == 0 {
		return pick(r, namePool) + pick(r, namePool)
	}
	return pick(r, namePool)
}

// sizes around the limits code tends to have
var edges = []int{2, 3, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 40, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257}

// relative: a name much like n, but another one; none is an index
func relative(r *rand.Rand, n string) string {
	if n == "" {
		return pick(r, namePool)
	}
	runes := []rune(n)
	safe := !strings.ContainsAny(n, `\\"`)
	for {
		x := n
		switch k := r.Intn(9); {
		case k == 0: // longer
			x = n + []string{"a", " ", `\\`, `\"`, "0", "_", n}[r.Intn(7)]
		case k == 1:
			x = []string{"a", " ", `\"`, "_", "0x"}[r.Intn(5)] + n
		case k == 2 && safe && len(runes) > 1: // shorter
			x = string(runes[:len(runes)-1])
		case k == 3 && safe && len(runes) > 1: // the same letters
			i, j := r.Intn(len(runes)), r.Intn(len(runes))
			y := append([]rune(nil), runes...)
			y[i], y[j] = y[j], y[i]
			x = string(y)
		case k == 4:
			x = strings.ToUpper(n)
			if !safe {
				x = n + "A"
			}
		case k == 5:
			x = n + n[:0] + "\u00e9"
		case safe: // one letter differs: in the middle, at the end, at the start
			y := append([]rune(nil), runes...)
			i := []int{0, len(y) - 1, len(y) / 2, r.Intn(len(y))}[r.Intn(4)]
			y[i] = []rune("abzAQ_\u00e8")[r.Intn(7)]
			x = string(y)
		default:
			x = "a" + n
		}
		if _, err := strconv.Atoi(x); err != nil && x != n && x != "" {
			return x
		}
	}
}

// what names may get joined with
var joints = []string{",", ".", "/", " ", "|", ":", "", ";", `\"`, `\",\"`, "_", "-", "\\\\", "->"}

// relatedNames: two names that are hard to tell apart
func relatedNames(r *rand.Rand) (string, string) {
	a := randName(r)
	if r.Intn(2) == 0 {
		n := edges[r.Intn(len(edges))]
		b := make([]byte, n)
		for i := range b {
			b[i] = "abcdefgh_-. "[r.Intn(12)]
		}
		b[0] = "abcxyz"[r.Intn(6)]
		a = string(b)
	}
	if a == "" {
		a = "a"
	}
	b := relative(r, a)
	if r.Intn(5) == 0 { // a path written as one name
		a = pick(r, namePool)
		b = a + pick(r, joints) + []string{a, "0", "1"}[r.Intn(3)]
		if _, err := strconv.Atoi(b); err == nil {
			b = relative(r, a)
		}
	}
	if r.Intn(2) == 0 {
		a, b = b, a
	}
	return a, b
}

// deepValue: a value nested deeper than 127
func deepValue(r *rand.Rand) string {
	n := []int{128, 130, 200, 257, 300}[r.Intn(5)]
	var pre, post strings.Builder
	k := r.Intn(3)
	for i := 0; i < n; i++ {
		if k == 0 || (k == 2 && r.Intn(2) == 0) {
			pre.WriteString("[")
			post.WriteByte(']')
		} else {
			pre.WriteString(`{"a":`)
			post.WriteByte('}')
		}
	}
	p := []byte(post.String())
	for i, j := 0, len(p)-1; i < j; i, j = i+1, j-1 {
		p[i], p[j] = p[j], p[i]
	}
	return pre.String() + []string{"1", `"x"`, `"}]"`, "[]", "{}"}[r.Intn(5)] + string(p)
}

func randNum(r *rand.Rand) string {
	if r.Intn(3) == 0 {
		return strconv.Itoa(r.Intn(2000) - 1000)
	}
	return pick(r, numPool)
}

// layout: how much insignificant space there is
type layout int

const (
	compact layout = iota
	pretty
	wild
	spaced
	long
)

func (l layout) gap(r *rand.Rand) string {
	switch l {
	case compact:
		return ""
	case pretty:
		if r.Intn(2) == 0 {
			return "\n\t"
		}
		return " "
	case spaced:
		return " "
	}
	if l == long {
		if r.Intn(3) > 0 {
			return []string{"", " ", "\n"}[r.Intn(3)]
		}
		n := edges[r.Intn(len(edges))]
		return []string{"\n", "", "\r\n"}[r.Intn(3)] + strings.Repeat(string(" \t \n\r"[r.Intn(5)]), n)
	}
	switch r.Intn(8) {
	case 0, 1, 2:
		return ""
	case 3:
		return " "
	case 4:
		return "\t"
	case 5:
		return "\r\n"
	case 6:
		return "\n"
	}
	n := 1 + r.Intn(4)
	b := make([]byte, n)
	for i := range b {
		b[i] = " \t\n\r"[r.Intn(4)]
	}
	return string(b)
}

func randLayout(r *rand.Rand) layout {
	if r.Intn(14) == 0 {
		return long
	}
	return layout(r.Intn(4))
}

func randScalar(r *rand.Rand) string {
	switch r.Intn(7) {
	case 0, 1:
		return randNum(r)
	case 2:
		return []string{"true", "false", "null"}[r.Intn(3)]
	}
	return `"` + randStr(r) + `"`
}

// randValue: any JSON value as text, about size nodes
func randValue(r *rand.Rand, size int, l layout) string {
	if large && r.Intn(250) == 0 {
		return deepValue(r)
	}
	if size <= 1 {
		switch r.Intn(8) {
		case 0:
			return "[" + l.gap(r) + "]"
		case 1:
			return "{" + l.gap(r) + "}"
		}
		return randScalar(r)
	}
	var sb strings.Builder
	obj := r.Intn(2) == 0
	n := 1 + r.Intn(size)
	if n > 14 {
		n = 14
	}
	used := map[string]bool{}
	last := ""
	if obj {
		sb.WriteByte('{')
	} else {
		sb.WriteByte('[')
	}
	first := true
	for i := 0; i < n; i++ {
		var name string
		if obj {
			name = randName(r)
			if r.Intn(8) == 0 {
				name = strconv.Itoa(r.Intn(12))
			}
			if last != "" && r.Intn(6) == 0 {
				name = relative(r, last)
			}
			if used[name] {
				continue
			}
			used[name] = true
			last = name
		}
		if !first {
			sb.WriteByte(',')
		}
		first = false
		sb.WriteString(l.gap(r))
		if obj {
			sb.WriteString(`"` + name + `"` + l.gap(r) + ":" + l.gap(r))
		}
		sb.WriteString(randValue(r, (size-1)/n+r.Intn(2), l))
		sb.WriteString(l.gap(r))
	}
	if obj {
		sb.WriteByte('}')
	} else {
		sb.WriteByte(']')
	}
	return sb.String()
}

// randContainer: like randValue, but surely an object or array
func randContainer(r *rand.Rand, size int, l layout) string {
	for {
		v := randValue(r, size, l)
		if v[0] == '{' || v[0] == '[' {
			return v
		}
	}
}
