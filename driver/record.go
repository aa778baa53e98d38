package main

// Recording of real behaviour: random sessions on random documents, written
// as events for Trace.tla. Nothing here judges a result.

import (
	"bufio"
	"encoding/json"
	"errors"
	"fmt"
	"io/ioutil"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"

	"github.com/ecoshub/jin"
)

type ev map[string]interface{}

func ib(b []byte) []int {
	o := make([]int, len(b))
	for i, x := range b {
		o[i] = int(x)
	}
	return o
}

func is(s string) []int { return ib([]byte(s)) }

func iss(s []string) [][]int {
	o := make([][]int, len(s))
	for i, x := range s {
		o[i] = is(x)
	}
	return o
}

func bit(b bool) int {
	if b {
		return 1
	}
	return 0
}

func bits(f float64) string { return fmt.Sprintf("%016x", math.Float64bits(f)) }

// recorder writes the events of one shard
type recorder struct {
	r       *rand.Rand
	w       *worker
	out     *bufio.Writer
	n, max  int
	canary  int
	ops     map[string]int
	dir     string
	current []ev // of the current session, for messages
	doc     []byte
	tree    *cst
	frames  bool // record what calls were given, before and after
	focus   string
	api     string
	jo      *jin.JO
	ps      *jin.Parser
	kept    []keptRes
	shared  bool // the document is one all shards read
	busy    bool // other calls go on in between
	other   []byte
	otherJO *jin.JO
	otherPs *jin.Parser
}

type keptRes struct {
	name string
	b    []byte
	copy string
}

func (rc *recorder) full() bool { return rc.n >= rc.max }

func (rc *recorder) emit(e ev) {
	if _, ok := e["z"]; !ok {
		if rc.r.Intn(25) == 0 {
			if c := rc.corrupt(e); c != nil {
				c["z"] = 1
				rc.write(c)
				rc.canary++
			}
		}
		e["z"] = 0
	}
	rc.write(e)
	rc.ops[e["o"].(string)]++
}

func (rc *recorder) write(e ev) {
	b, err := json.Marshal(e)
	if err != nil {
		panic(err)
	}
	rc.out.Write(b)
	rc.out.WriteByte('\n')
	rc.n++
}

// corrupt: a copy of e that no right implementation produces
func (rc *recorder) corrupt(e ev) ev {
	c := ev{}
	for k, v := range e {
		c[k] = v
	}
	code, hasCode := e["c"].(int)
	bytesR, hasBytes := e["r"].([]int)
	o := e["o"].(string)
	if o == "New" || o == "NewScheme" || o == "Damaged" || o == "Length" || strings.HasPrefix(o, "Scheme") || o == "Kept" {
		return nil
	}
	if strings.HasSuffix(o, "Array") && o != "IterateArray" && o != "IsArray" && o != "MakeArray" {
		return nil
	}
	switch rc.r.Intn(3) {
	case 0:
		if hasCode {
			if code == codeOK {
				c["c"] = 40
			} else {
				c["c"] = codePanic
			}
			return c
		}
	case 1:
		if hasBytes && (!hasCode || code == codeOK) && e["nil"] != 1 && o != "GetInt" {
			c["r"] = append(append([]int{}, bytesR...), 'x')
			return c
		}
	case 2:
		if hasBytes && (!hasCode || code == codeOK) && len(bytesR) > 0 && e["nil"] != 1 && o != "GetInt" {
			c["r"] = append([]int{}, bytesR[:len(bytesR)-1]...)
			// a document may end with space
			if !isSpace(byte(bytesR[len(bytesR)-1])) {
				return c
			}
		}
	}
	return nil
}

// ---------------------------------------------------------------- documents

func (rc *recorder) randDoc() string {
	r := rc.r
	l := randLayout(r)
	size := 2 + r.Intn(20)
	switch r.Intn(12) {
	case 0:
		size = 60 + r.Intn(80)
	case 1, 2:
		size = 1
	}
	d := rc.docBody(size, l)
	if r.Intn(4) == 0 {
		d = wild.gap(r) + d + wild.gap(r)
	}
	return d
}

func (rc *recorder) docBody(size int, l layout) string {
	r := rc.r
	switch r.Intn(10) {
	case 0: // deep
		w := newWrapper(r, 2+r.Intn(14), l, nil)
		return strings.Trim(w.pre+randContainer(r, 4, l)+w.post, " \t\r\n")
	case 1: // wide array
		n := 8 + r.Intn(18)
		xs := make([]string, n)
		for i := range xs {
			xs[i] = l.gap(r) + randValue(r, 1+r.Intn(3), l) + l.gap(r)
		}
		return "[" + strings.Join(xs, ",") + "]"
	case 2: // array of similar objects
		n := 1 + r.Intn(4)
		xs := make([]string, n)
		a, b := randName(r), randName(r)+"_"
		for i := range xs {
			xs[i] = l.gap(r) + `{"` + a + `":` + l.gap(r) + randValue(r, 1+r.Intn(3), l) + `,` + l.gap(r) + `"` + b + `":` + randValue(r, 1+r.Intn(3), l) + l.gap(r) + "}"
		}
		return "[" + strings.Join(xs, ",") + "]"
	case 3: // same names at every level
		for {
			if d := rc.sameNames(3, l); d[0] == '{' || d[0] == '[' {
				return d
			}
		}
	case 4: // typed arrays
		xs := []string{}
		for _, n := range []string{"i", "f", "b", "s", "m", "e"} {
			xs = append(xs, l.gap(r)+`"`+n+`"`+l.gap(r)+":"+l.gap(r)+rc.typedArray(n, l))
		}
		return "{" + strings.Join(xs, ",") + "}"
	case 5: // typed scalars
		xs := []string{}
		for i := 0; i < 3+r.Intn(5); i++ {
			xs = append(xs, l.gap(r)+`"k`+strconv.Itoa(i)+`"`+l.gap(r)+":"+l.gap(r)+rc.typedScalar())
		}
		return "{" + strings.Join(xs, ",") + l.gap(r) + "}"
	}
	return randContainer(r, size, l)
}

func (rc *recorder) sameNames(depth int, l layout) string {
	r := rc.r
	names := []string{"a", "b", "aa", "0", `a\"`}
	if depth == 0 || r.Intn(5) == 0 {
		return randValue(r, 1+r.Intn(2), l)
	}
	if r.Intn(3) == 0 {
		xs := []string{}
		for i := 0; i < 1+r.Intn(3); i++ {
			xs = append(xs, l.gap(r)+rc.sameNames(depth-1, l)+l.gap(r))
		}
		return "[" + strings.Join(xs, ",") + "]"
	}
	xs := []string{}
	for _, i := range r.Perm(len(names))[:1+r.Intn(4)] {
		xs = append(xs, l.gap(r)+`"`+names[i]+`"`+l.gap(r)+":"+l.gap(r)+rc.sameNames(depth-1, l)+l.gap(r))
	}
	d := "{" + strings.Join(xs, ",") + "}"
	return d
}

var intPool = []string{"0", "1", "-1", "7", "42", "2147483647", "-2147483648", "4294967295", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "-9223372036854775809", "123456789012345678", "-0", "99999999999999999999"}

func (rc *recorder) typedScalar() string {
	r := rc.r
	switch r.Intn(9) {
	case 0, 1:
		return pick(r, intPool)
	case 2:
		return `"` + pick(r, intPool) + `"`
	case 3:
		return randNum(r)
	case 4:
		return []string{"true", "false", "null", `"true"`, `"false"`, `"null"`, `"True"`, `"0"`, `"1"`, `""`, `" "`}[r.Intn(11)]
	case 5:
		return `"` + randNum(r) + `"`
	case 6:
		return `"` + []string{"+1", "01", "1_0", "0x10", "1e5", "NaN", "Inf", "1.", ".5", " 1", "1 ", "--1", "1-", "t", "TRUE", "truee"}[r.Intn(16)] + `"`
	}
	return randScalar(r)
}

func (rc *recorder) typedArray(kind string, l layout) string {
	r := rc.r
	n := r.Intn(6)
	if r.Intn(8) == 0 {
		n = 15 + r.Intn(6)
	}
	xs := make([]string, n)
	for i := range xs {
		var x string
		k := kind
		if k == "m" {
			k = []string{"i", "f", "b", "s", "e"}[r.Intn(5)]
		} else if r.Intn(25) == 0 {
			k = "e"
		}
		switch k {
		case "i":
			x = strconv.Itoa(r.Intn(4000) - 2000)
			if r.Intn(6) == 0 {
				x = pick(r, intPool)
			}
		case "f":
			x = randNum(r)
		case "b":
			x = []string{"true", "false"}[r.Intn(2)]
		case "s":
			x = `"` + randStr(r) + `"`
		default:
			x = randValue(r, 1+r.Intn(3), l)
		}
		xs[i] = l.gap(r) + x + l.gap(r)
	}
	if n == 0 {
		return "[" + l.gap(r) + "]"
	}
	return "[" + strings.Join(xs, ",") + "]"
}

// ---------------------------------------------------------------- paths

// allPaths: paths of every value below the root, with the value
func allPaths(v *cst, at []string, f func(p []string, v *cst)) {
	f(at, v)
	for i, c := range v.c {
		x := strconv.Itoa(i)
		if v.t == 'o' {
			x = v.name[i]
		}
		allPaths(c, append(at[:len(at):len(at)], x), f)
	}
}

type pv struct {
	p []string
	v *cst
}

func (rc *recorder) paths(keep func(pv) bool) []pv {
	var out []pv
	if rc.tree == nil {
		return nil
	}
	allPaths(rc.tree, nil, func(p []string, v *cst) {
		x := pv{p, v}
		if keep == nil || keep(x) {
			out = append(out, x)
		}
	})
	return out
}

func (rc *recorder) pickPath(keep func(pv) bool) (pv, bool) {
	ps := rc.paths(keep)
	if len(ps) == 0 {
		return pv{}, false
	}
	return ps[rc.r.Intn(len(ps))], true
}

// missPath: a path that addresses nothing
func (rc *recorder) missPath() []string {
	r := rc.r
	for try := 0; try < 20; try++ {
		b, ok := rc.pickPath(nil)
		if !ok {
			return []string{"nothing"}
		}
		p := append([]string{}, b.p...)
		switch k := r.Intn(8); {
		case k < 3 && b.v.t == 'o': // a name used elsewhere
			var names []string
			allPaths(rc.tree, nil, func(_ []string, v *cst) { names = append(names, v.name...) })
			if len(names) > 0 && r.Intn(4) > 0 {
				p = append(p, pick(r, names))
			} else {
				p = append(p, randName(r))
			}
		case k == 3 && b.v.t == 'o' && len(b.v.name) > 0: // nearly a name
			n := b.v.name[r.Intn(len(b.v.name))]
			switch r.Intn(5) {
			case 0:
				n += " "
			case 1:
				n += "x"
			case 2:
				if len(n) > 0 {
					n = n[:len(n)-1]
				}
			case 3:
				n = strings.ToUpper(n)
			case 4:
				n = `"` + n
			}
			p = append(p, n)
		case b.v.t == 'a': // off the ends, or no index
			switch r.Intn(6) {
			case 0, 1:
				p = append(p, strconv.Itoa(len(b.v.c)))
			case 2:
				p = append(p, strconv.Itoa(len(b.v.c)+1+r.Intn(12)))
			case 3:
				p = append(p, "-"+strconv.Itoa(1+r.Intn(3)))
			case 4:
				p = append(p, randName(r))
			case 5:
				p = append(p, "99999999")
			}
		case b.v.scalar(): // on through a scalar
			p = append(p, []string{"0", "1", "a", randName(r)}[r.Intn(4)])
			if r.Intn(3) == 0 {
				p = append(p, "a")
			}
		default:
			p = append(p, strconv.Itoa(r.Intn(3)))
		}
		if r.Intn(10) == 0 {
			p = append(p, []string{"0", "a"}[r.Intn(2)])
		}
		if rc.tree.at(p) == nil && domainPath(p) {
			return p
		}
	}
	return []string{"nothing", "here"}
}

// domainPath: indices are written canonically, or are no numbers at all
func domainPath(p []string) bool {
	for _, x := range p {
		if n, err := strconv.Atoi(x); err == nil && strconv.Itoa(n) != x {
			return false
		}
	}
	return true
}

// ---------------------------------------------------------------- calls

// spare: a copy of p with room behind it, filled with a mark
func spare(p []string) ([]string, []string) {
	q := make([]string, len(p)+3)
	copy(q, p)
	for i := len(p); i < len(q); i++ {
		q[i] = "spare"
	}
	return q[:len(p)], q
}

func spareBytes(b []byte) ([]byte, []byte) {
	n := 8
	if len(b)%3 == 1 {
		n = 64 << (len(b) % 7)
	}
	q := make([]byte, len(b)+n)
	copy(q, b)
	for i := len(b); i < len(q); i++ {
		q[i] = 0xEE
	}
	return q[:len(b)], q
}

// begin a session
func (rc *recorder) session(api string, doc string) {
	rc.api = api
	rc.doc = []byte(doc)
	rc.kept = nil
	t, err := parseText(rc.doc)
	if err != nil {
		panic("driver made a bad document: " + doc)
	}
	rc.tree = t
	e := ev{"o": "New", "a": api, "d": is(doc)}
	c := codeOK
	got := rc.doc
	switch api {
	case "J":
		rc.jo = jin.New(clone(rc.doc))
		how := rc.r.Intn(12)
		if how == 0 {
			f := filepath.Join(rc.dir, fmt.Sprintf("in%d.json", rc.w.calls))
			ioutil.WriteFile(f, rc.doc, 0600)
			var err error
			if rc.r.Intn(2) == 0 {
				rc.jo, err = jin.ReadFile(f)
			} else {
				rc.jo, err = jin.ReadJSONFile(f)
			}
			os.Remove(f)
			if err != nil {
				c = codeUnknown
				rc.jo = jin.New(clone(rc.doc))
			}
		} else if doc == "{}" && how < 6 {
			rc.jo = jin.NewJSON()
		}
		got = clone(rc.jo.JSON())
	case "P":
		p := rc.w.call("Parse", func() {
			var err error
			rc.ps, err = jin.Parse(clone(rc.doc))
			c = codeOf(err)
			if err == nil {
				got = clone(rc.ps.JSON())
			}
		})
		if p != "" {
			c = codePanic
		}
		if c != codeOK {
			rc.ps = nil
		}
	}
	e["c"] = c
	e["r"] = ib(got)
	rc.emit(e)
	if c != codeOK {
		rc.tree = nil
	}
}

var errSentinel = errors.New("sentinel")

// floatInfo: what strconv reads in a text
func floatInfo(t string) ev {
	f, err := strconv.ParseFloat(t, 64)
	b := ""
	if err == nil {
		b = bits(f)
	}
	return ev{"text": is(t), "isfloat": bit(err == nil), "bits": b}
}

// do makes one call through f, guarded; e gets c and r of the call
func (rc *recorder) do(e ev, f func()) {
	if rc.busy && rc.r.Intn(3) == 0 {
		rc.noise()
	}
	p := rc.w.call(fmt.Sprintf("%v on %q", e["o"], rc.doc), f)
	if p != "" {
		e["c"] = codePanic
		e["panic"] = p
		if _, ok := e["r"]; !ok {
			e["r"] = []int{}
		}
	}
	rc.emit(e)
}

// read makes the read op at p
func (rc *recorder) read(op string, p []string) {
	r := rc.r
	e := ev{"o": op, "p": iss(p), "c": codeOK}
	I := rc.api == "I"
	P := rc.api == "P"
	path, whole := spare(p)
	doc, wholeDoc := rc.doc, []byte(nil)
	if I && !rc.shared {
		doc, wholeDoc = spareBytes(rc.doc)
	}
	text := func() string { // the addressed text, by our own parser
		if rc.tree == nil {
			return ""
		}
		if len(p) == 0 {
			return string(rc.doc)
		}
		v := rc.tree.at(p)
		if v == nil {
			return ""
		}
		return string(v.inner(rc.doc))
	}
	elems := func() []string {
		if v := rc.tree.at(p); v != nil && v.t == 'a' {
			o := []string{}
			for _, c := range v.c {
				o = append(o, string(c.inner(rc.doc)))
			}
			return o
		}
		return []string{}
	}
	var err error
	fin := func() { e["c"] = codeOf(err) }
	defer func() {
		if rc.frames {
			rc.keptEvent(op, p, whole, wholeDoc)
		}
	}()
	rc.do(e, func() {
		switch op {
		case "Get":
			var b []byte
			if I {
				b, err = jin.Get(doc, path...)
			} else if P {
				b, err = rc.ps.Get(path...)
			} else {
				b, err = rc.jo.Get(path...)
			}
			e["r"] = ib(b)
			fin()
			if err == nil && rc.frames {
				rc.kept = append(rc.kept, keptRes{"Get", b, string(b)})
			}
		case "GetString":
			var b string
			if I {
				b, err = jin.GetString(doc, path...)
			} else if P {
				b, err = rc.ps.GetString(path...)
			} else {
				b, err = rc.jo.GetString(path...)
			}
			e["r"] = is(b)
			fin()
		case "GetInt":
			var n int
			if I {
				n, err = jin.GetInt(doc, path...)
			} else if P {
				n, err = rc.ps.GetInt(path...)
			} else {
				n, err = rc.jo.GetInt(path...)
			}
			e["r"] = is(strconv.Itoa(n))
			fin()
		case "GetFloat":
			var f float64
			if I {
				f, err = jin.GetFloat(doc, path...)
			} else if P {
				f, err = rc.ps.GetFloat(path...)
			} else {
				f, err = rc.jo.GetFloat(path...)
			}
			e["b"] = bits(f)
			e["x"] = floatInfo(text())
			fin()
		case "GetBool":
			var f bool
			if I {
				f, err = jin.GetBool(doc, path...)
			} else if P {
				f, err = rc.ps.GetBool(path...)
			} else {
				f, err = rc.jo.GetBool(path...)
			}
			e["n"] = bit(f)
			fin()
		case "GetStringArray":
			var s []string
			if I {
				s, err = jin.GetStringArray(doc, path...)
			} else if P {
				s, err = rc.ps.GetStringArray(path...)
			} else {
				s, err = rc.jo.GetStringArray(path...)
			}
			e["r"] = iss(s)
			fin()
		case "GetIntArray":
			var s []int
			if I {
				s, err = jin.GetIntArray(doc, path...)
			} else if P {
				s, err = rc.ps.GetIntArray(path...)
			} else {
				s, err = rc.jo.GetIntArray(path...)
			}
			t := [][]int{}
			for _, x := range s {
				t = append(t, is(strconv.Itoa(x)))
			}
			e["r"] = t
			fin()
		case "GetFloatArray":
			var s []float64
			if I {
				s, err = jin.GetFloatArray(doc, path...)
			} else if P {
				s, err = rc.ps.GetFloatArray(path...)
			} else {
				s, err = rc.jo.GetFloatArray(path...)
			}
			t := []string{}
			for _, x := range s {
				t = append(t, bits(x))
			}
			e["b"] = t
			xs := []ev{}
			for _, x := range elems() {
				xs = append(xs, floatInfo(x))
			}
			e["x"] = xs
			fin()
		case "GetBoolArray":
			var s []bool
			if I {
				s, err = jin.GetBoolArray(doc, path...)
			} else if P {
				s, err = rc.ps.GetBoolArray(path...)
			} else {
				s, err = rc.jo.GetBoolArray(path...)
			}
			t := []int{}
			for _, x := range s {
				t = append(t, bit(x))
			}
			e["r"] = t
			fin()
		case "GetType":
			var s string
			if I {
				s, err = jin.GetType(doc, path...)
			} else {
				s, err = rc.jo.GetType(path...)
			}
			e["s"] = s
			fin()
		case "IsObject", "IsArray", "IsValue", "IsEmpty":
			var b bool
			switch {
			case I && op == "IsObject":
				b, err = jin.IsObject(doc, path...)
			case I && op == "IsArray":
				b, err = jin.IsArray(doc, path...)
			case I && op == "IsValue":
				b, err = jin.IsValue(doc, path...)
			case I && op == "IsEmpty":
				b, err = jin.IsEmpty(doc, path...)
			case op == "IsObject":
				b, err = rc.jo.IsObject(path...)
			case op == "IsArray":
				b, err = rc.jo.IsArray(path...)
			case op == "IsValue":
				b, err = rc.jo.IsValue(path...)
			case op == "IsEmpty":
				b, err = rc.jo.IsEmpty(path...)
			}
			e["n"] = bit(b)
			fin()
		case "Length":
			n := 0
			n, err = jin.Length(doc, path...)
			e["n"] = n
			fin()
		case "GetKeys", "GetValues":
			var s []string
			switch {
			case I && op == "GetKeys":
				s, err = jin.GetKeys(doc, path...)
			case I:
				s, err = jin.GetValues(doc, path...)
			case op == "GetKeys":
				s, err = rc.jo.GetKeys(path...)
			default:
				s, err = rc.jo.GetValues(path...)
			}
			e["r"] = iss(s)
			fin()
		case "GetKeysValues":
			var s, t []string
			if I {
				s, t, err = jin.GetKeysValues(doc, path...)
			} else {
				s, t, err = rc.jo.GetKeysValues(path...)
			}
			e["r"], e["v"] = iss(s), iss(t)
			fin()
		case "GetMap":
			var m map[string]string
			if I {
				m, err = jin.GetMap(doc, path...)
			} else {
				m, err = rc.jo.GetMap(path...)
			}
			e["r"] = pairs(m)
			fin()
		case "GetAll", "GetAllMap":
			ks := rc.someKeys(p)
			e["ks"] = iss(ks)
			gk, _ := spare(ks)
			if op == "GetAll" {
				var s []string
				if I {
					s, err = jin.GetAll(doc, gk, path...)
				} else {
					s, err = rc.jo.GetAll(gk, path...)
				}
				e["r"] = iss(s)
			} else {
				var m map[string]string
				if I {
					m, err = jin.GetAllMap(doc, gk, path...)
				} else {
					m, err = rc.jo.GetAllMap(gk, path...)
				}
				e["r"] = pairs(m)
			}
			fin()
		case "ParseArray":
			e["r"] = iss(jin.ParseArray(text()))
		case "IterateArray", "IterateKeyValue", "Walk":
			rc.iterate(op, e, doc, path)
		case "Flatten":
			e["r"] = ib(jin.Flatten(doc))
		case "Indent":
			e["r"] = ib(jin.Indent(doc))
		case "FlattenIndent":
			e["r"] = ib(jin.Flatten(jin.Indent(doc)))
		case "IndentIndent":
			e["r"] = ib(jin.Indent(jin.Indent(doc)))
		case "JSON":
			if P {
				e["r"] = ib(rc.ps.JSON())
			} else {
				e["r"] = ib(rc.jo.JSON())
			}
		case "String":
			e["r"] = is(rc.jo.String())
		case "GetNew":
			b := rc.ps.GetNew(path...)
			e["n"] = bit(b != nil)
			e["r"] = ib(b)
		case "Tree":
			e["r"] = treeLines(rc.ps.Tree())
		case "TreeFull":
			e["r"] = treeLines(rc.ps.TreeFull())
		default:
			panic("op " + op)
		}
	})
	_ = r
}

func pairs(m map[string]string) []ev {
	o := []ev{}
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		o = append(o, ev{"k": is(k), "v": is(m[k])})
	}
	return o
}

func (rc *recorder) someKeys(p []string) []string {
	ks := []string{}
	v := rc.tree.at(p)
	if v == nil {
		return []string{"a"}
	}
	for i := range v.c {
		if rc.r.Intn(3) > 0 {
			if v.t == 'o' {
				ks = append(ks, v.name[i])
			} else {
				ks = append(ks, strconv.Itoa(i))
			}
		}
	}
	rc.r.Shuffle(len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
	if rc.r.Intn(6) == 0 {
		ks = append(ks, randName(rc.r))
	}
	return ks
}

// treeLines: depth and the text behind the marker of each line
func treeLines(s string) []ev {
	o := []ev{}
	for _, l := range strings.Split(s, "\n") {
		if l == "" {
			continue
		}
		n := 0
		for strings.HasPrefix(l, "\t") {
			l = l[1:]
			n++
		}
		if n == 0 {
			l = strings.TrimPrefix(l, string(rune(9472))+" ")
		} else {
			l = strings.TrimPrefix(l, string(rune(9492))+"  ")
		}
		o = append(o, ev{"n": n, "l": is(l)})
	}
	return o
}

// iterate with a callback that ends the iteration at call n (0: never)
func (rc *recorder) iterate(op string, e ev, doc []byte, path []string) {
	r := rc.r
	n := 0
	how := "go"
	if r.Intn(3) > 0 {
		n = 1 + r.Intn(5)
		how = []string{"stop", "err", "err"}[r.Intn(3)]
	}
	e["n"], e["f"] = n, how
	count := 0
	// what the callback decides
	dec := func() (bool, error) {
		count++
		if rc.busy && r.Intn(2) == 0 {
			rc.noise()
		}
		if n > 0 && count >= n {
			if how == "err" {
				return r.Intn(2) == 0, errSentinel
			}
			return false, nil
		}
		return true, nil
	}
	var err error
	switch op {
	case "IterateArray":
		got := [][]int{}
		cb := func(b []byte) (bool, error) { got = append(got, ib(b)); return dec() }
		if rc.api == "I" {
			err = jin.IterateArray(doc, cb, path...)
		} else {
			err = rc.jo.IterateArray(cb, path...)
		}
		e["r"] = got
	case "IterateKeyValue":
		got := []ev{}
		cb := func(k, b []byte) (bool, error) {
			got = append(got, ev{"k": ib(k), "v": ib(b)})
			return dec()
		}
		if rc.api == "I" {
			err = jin.IterateKeyValue(doc, cb, path...)
		} else {
			err = rc.jo.IterateKeyValue(cb, path...)
		}
		e["r"] = got
	case "Walk":
		got := []ev{}
		cb := func(k string, v []byte, p []string) (bool, error) {
			got = append(got, ev{"k": is(k), "v": ib(v), "p": iss(p)})
			return dec()
		}
		if rc.api == "I" {
			err = jin.Walk(doc, cb)
		} else {
			err = rc.jo.Walk(cb)
		}
		e["r"] = got
	}
	e["e"] = bit(err == errSentinel)
	e["c"] = codeOf(err)
}

// keptEvent: what the call was given, and what is there now
func (rc *recorder) keptEvent(op string, p, whole []string, wholeDoc []byte) {
	before, after := [][]int{}, [][]int{}
	add := func(b, a []int) { before, after = append(before, b), append(after, a) }
	for i, x := range whole {
		w := "spare"
		if i < len(p) {
			w = p[i]
		}
		add(is(w), is(x))
	}
	if wholeDoc != nil {
		w := make([]byte, len(wholeDoc))
		for i := range w {
			w[i] = 0xEE
		}
		copy(w, rc.doc)
		add(ib(w), ib(wholeDoc))
	}
	for _, k := range rc.kept {
		add(is(k.copy), ib(k.b))
	}
	if len(rc.kept) > 6 {
		rc.kept = rc.kept[len(rc.kept)-6:]
	}
	rc.emit(ev{"o": "Kept", "s": op, "before": before, "after": after})
}

// ---------------------------------------------------------------- edits

// arg is the value of an edit
type arg struct {
	form string
	text string // text written (raw, bool, ints), or the string given
	f    float64
	i    int64
	u    uint64
	b    bool
}

func randFloat(r *rand.Rand) float64 {
	switch r.Intn(8) {
	case 0:
		return float64(r.Intn(2000) - 1000)
	case 1:
		return float64(r.Intn(2000)-1000) / 8
	case 2:
		return r.NormFloat64()
	case 3:
		return []float64{0, 1, -1, 0.1, -0.5, 1e21, 1e20, 1e-7, 123456.789, math.Pi, math.MaxInt64, 1 << 53, -1e15}[r.Intn(13)]
	case 4:
		return math.Ldexp(r.Float64(), r.Intn(200)-100)
	case 5:
		return float64(float32(r.NormFloat64()))
	case 6:
		return math.Copysign(0, -1)
	}
	return r.ExpFloat64() * 1e6
}

func randInt64(r *rand.Rand) int64 {
	switch r.Intn(5) {
	case 0:
		return int64(r.Intn(20) - 10)
	case 1:
		return []int64{0, 1, -1, math.MaxInt64, math.MinInt64, math.MaxInt32, math.MinInt32, math.MaxInt32 + 1, math.MinInt32 - 1, math.MaxUint32, 1 << 53}[r.Intn(11)]
	case 2:
		return int64(r.Uint64())
	case 3:
		return int64(int32(r.Uint32()))
	}
	return int64(r.Intn(100000))
}

// randGivenString: a string for a String form; what it writes is well formed
func randGivenString(r *rand.Rand) string {
	for {
		var x string
		switch r.Intn(14) {
		case 0:
			x = ""
		case 1:
			x = randNum(r)
		case 2:
			x = []string{"true", "false", "null", "True", "TRUE", "Null", "nil", "undefined", "tru", "nulll", " true", "true "}[r.Intn(12)]
		case 3:
			x = []string{"+1", "01", "1.", ".5", "0x1F", "1_000", "NaN", "Inf", "-Inf", "infinity", "1e", "--1", "-", "1 ", " 1", "0b1", "0o7", "00", "-01", "1.5.2", "1,5", "١"}[r.Intn(22)]
		case 4:
			x = `"` + randStr(r) + `"`
		case 5:
			x = randContainer(r, 1+r.Intn(5), randLayout(r))
		case 6:
			x = pick(r, strPool) + pick(r, namePool)
		case 7:
			x = []string{"[", "]", "{", "}", "[a", "a]", "{a", "a}", "]a[", "}{", "[}", "{]", ",", ":", "a:b", "a,b", "[1", "1]"}[r.Intn(18)]
		default:
			x = randStr(r)
		}
		if _, err := strconv.ParseFloat(x, 64); isNumber(x) && err != nil {
			continue // a JSON number, but no float64: left open
		}
		w := specFormat(x)
		if _, err := parseText([]byte(w)); err == nil && !isSpaceEnds(w) {
			if _, err := parseText([]byte(quoteAlways(x))); err == nil {
				return x
			}
		}
	}
}

func isSpaceEnds(w string) bool { return len(w) > 0 && (isSpace(w[0]) || isSpace(w[len(w)-1])) }

// only to keep the generated strings within the domain; Trace.tla judges
func specFormat(x string) string {
	if x == "" {
		return `""`
	}
	if bareKind(x) != 0 {
		return x
	}
	a, b := x[0], x[len(x)-1]
	if (a == '"' && b == '"') || (a == '[' && b == ']') || (a == '{' && b == '}') {
		return x
	}
	return `"` + x + `"`
}

func quoteAlways(x string) string {
	if len(x) >= 2 && x[0] == '"' && x[len(x)-1] == '"' {
		return x
	}
	return `"` + x + `"`
}

func (rc *recorder) randArg(op string, typed int) arg {
	r := rc.r
	if r.Intn(100) >= typed {
		l := randLayout(r)
		n := 1
		if r.Intn(3) == 0 {
			n = 2 + r.Intn(6)
		}
		return arg{form: "raw", text: randValue(r, n, l)}
	}
	forms := []string{"string", "string", "int", "float", "bool"}
	if rc.api == "I" && (op == "AddKeyValue" || op == "Add" || op == "Insert") {
		forms = append(forms, "int32", "int64", "uint", "uint32", "uint64")
	}
	a := arg{form: pick(r, forms)}
	switch a.form {
	case "string":
		a.text = randGivenString(r)
	case "float":
		a.f = randFloat(r)
	case "bool":
		a.b = r.Intn(2) == 0
		a.text = strconv.FormatBool(a.b)
	case "int", "int64":
		a.i = randInt64(r)
		a.text = strconv.FormatInt(a.i, 10)
	case "int32":
		a.i = int64(int32(randInt64(r)))
		a.text = strconv.FormatInt(a.i, 10)
	case "uint", "uint64":
		a.u = uint64(randInt64(r))
		a.text = strconv.FormatUint(a.u, 10)
	case "uint32":
		a.u = uint64(uint32(randInt64(r)))
		a.text = strconv.FormatUint(a.u, 10)
	}
	return a
}

// plain is the raw text for a typed value, to predict nothing but where it goes
func (a arg) bytes() []byte { return []byte(a.text) }

// edit makes one edit through the session's interface
func (rc *recorder) edit(op string, p []string, key string, idx int, a arg) {
	e := ev{"o": op, "p": iss(p), "k": is(key), "n": idx, "f": a.form, "w": is(a.text)}
	path, whole := spare(p)
	val, wholeVal := spareBytes(a.bytes())
	doc, wholeDoc := rc.doc, []byte(nil)
	if rc.api == "I" {
		doc, wholeDoc = spareBytes(rc.doc)
	}
	var out []byte
	var err error
	panicked := rc.w.call(fmt.Sprintf("%s path=%q key=%q idx=%d %s on %q", op, p, key, idx, a.text, rc.doc), func() {
		switch rc.api {
		case "I":
			out, err = typedI(doc, op, path, key, idx, a, val)
		case "J":
			err = typedJ(rc.jo, op, path, key, idx, a, val)
			out = rc.jo.JSON()
		case "P":
			err = typedP(rc.ps, op, path, key, idx, a, val)
			out = rc.ps.JSON()
		}
	})
	e["c"] = codeOf(err)
	if panicked != "" {
		e["c"] = codePanic
		e["panic"] = panicked
		out = rc.doc
	}
	e["r"] = ib(out)
	if a.form == "float" {
		// the text now at the place of the value, and what it reads back as
		t := ""
		if nt, er := parseText(out); er == nil && e["c"] == codeOK {
			q := p
			switch op {
			case "AddKeyValue", "Store":
				q = append(append([]string{}, p...), key)
			case "Add":
				if v := nt.at(p); v != nil {
					q = append(append([]string{}, p...), strconv.Itoa(len(v.c)-1))
				}
			case "Insert":
				q = append(append([]string{}, p...), strconv.Itoa(idx))
			}
			if v := nt.at(q); v != nil {
				t = string(out[v.s:v.e])
			}
		}
		if t == "" {
			t = "0"
		}
		e["x"] = floatArg(t, a.f)
	}
	rc.emit(e)
	if rc.frames {
		if rc.api == "I" && e["c"] == codeOK {
			rc.kept = append(rc.kept, keptRes{op, out, string(out)})
		}
		rc.keptEdit(op, p, whole, wholeDoc, a, wholeVal)
	}
	// go on from what the code reports
	if panicked == "" {
		rc.doc = clone(out)
		t, er := parseText(rc.doc)
		if er != nil {
			rc.tree = nil
		} else {
			rc.tree = t
		}
	} else {
		rc.tree = nil
	}
}

func floatArg(t string, given float64) ev {
	f, err := strconv.ParseFloat(t, 64)
	rb := "not a float"
	if err == nil {
		rb = bits(f)
	}
	return ev{"text": is(t), "readback": rb, "given": bits(given)}
}

func (rc *recorder) keptEdit(op string, p, whole []string, wholeDoc []byte, a arg, wholeVal []byte) {
	w := make([]byte, len(wholeVal))
	for i := range w {
		w[i] = 0xEE
	}
	copy(w, a.text)
	rc.kept = append(rc.kept, keptRes{"value", wholeVal, string(w)})
	rc.keptEvent(op, p, whole, wholeDoc)
}

// randEdit makes one random edit of kind op
func (rc *recorder) randEdit(op string, typed int) {
	r := rc.r
	var p []string
	key := ""
	idx := 0
	isObj := func(x pv) bool { return x.v.t == 'o' }
	isArr := func(x pv) bool { return x.v.t == 'a' }
	miss := r.Intn(8) == 0
	any := r.Intn(10) == 0
	inner := func(x pv) bool { return len(x.p) > 0 }
	newKey := func() string {
		if r.Intn(4) == 0 && rc.tree != nil { // a name used somewhere
			var names []string
			allPaths(rc.tree, nil, func(_ []string, v *cst) { names = append(names, v.name...) })
			for try := 0; try < 4 && len(names) > 0; try++ {
				if k := pick(r, names); k != "" && domainPath([]string{k}) {
					return k
				}
			}
		}
		if r.Intn(8) == 0 {
			return strconv.Itoa(r.Intn(6))
		}
		return randName(r)
	}
	var x pv
	ok := true
	switch op {
	case "Set", "Delete":
		x, ok = rc.pickPath(inner)
	case "SetKey":
		x, ok = rc.pickPath(func(y pv) bool {
			return len(y.p) > 0 && rc.tree.at(y.p[:len(y.p)-1]).t == 'o'
		})
		key = newKey()
		if ok && r.Intn(8) == 0 {
			key = x.p[len(x.p)-1]
		}
	case "AddKeyValue", "Store":
		x, ok = rc.pickPath(isObj)
		key = newKey()
		if ok && len(x.v.name) > 0 {
			chance := 6
			if op == "Store" {
				chance = 2
			}
			if r.Intn(chance) == 0 {
				key = pick(r, x.v.name)
			}
		}
	case "Add", "Insert":
		x, ok = rc.pickPath(isArr)
		if ok {
			idx = r.Intn(len(x.v.c) + 1)
			if r.Intn(3) == 0 && len(x.v.c) > 0 {
				idx = len(x.v.c) - 1
			}
			if r.Intn(14) == 0 {
				idx = []int{-1, len(x.v.c), len(x.v.c) + 3}[r.Intn(3)]
			}
		}
	}
	if any {
		x, ok = rc.pickPath(nil)
	}
	if miss || !ok {
		p = rc.missPath()
	} else {
		p = x.p
	}
	if op != "Set" && op != "Delete" && op != "Add" && op != "Insert" && (key == "" || !domainPath([]string{key})) {
		key = "k"
	}
	if op == "Store" && !domainPath(append(append([]string{}, p...), key)) {
		key = "k"
	}
	a := arg{form: "raw", text: "null"}
	if op != "SetKey" && op != "Delete" {
		a = rc.randArg(op, typed)
	}
	rc.edit(op, p, key, idx, a)
}

// ---------------------------------------------------------------- builders

func (rc *recorder) builder() {
	r := rc.r
	n := r.Intn(6)
	if r.Intn(8) == 0 {
		n = 10 + r.Intn(12)
	}
	kind := pick(r, []string{"MakeArray", "MakeArrayString", "MakeArrayInt", "MakeArrayBool", "MakeArrayFloat", "MakeArrayBytes", "MakeJson", "MakeJsonString", "MakeJsonWithMap", "MakeEmptyArray", "MakeEmptyJson"})
	e := ev{"o": "MakeArray"}
	ws := []ev{}
	keys := []string{}
	used := map[string]bool{}
	key := func() string {
		for {
			k := randName(r)
			if r.Intn(12) == 0 {
				k = ""
			}
			if !used[k] {
				used[k] = true
				return k
			}
		}
	}
	var out []byte
	floats := [][2]interface{}{} // index, value
	rc.doc = []byte(kind)
	p := rc.w.call(kind, func() {
		switch kind {
		case "MakeEmptyArray":
			out = jin.MakeEmptyArray()
		case "MakeEmptyJson":
			e["o"] = "MakeJson"
			out = jin.MakeEmptyJson()
		case "MakeArrayString":
			xs := []string{}
			for i := 0; i < n; i++ {
				x := randGivenString(r)
				xs = append(xs, x)
				ws = append(ws, ev{"f": "string", "w": is(x)})
			}
			out = jin.MakeArrayString(xs)
		case "MakeArrayInt":
			xs := []int{}
			for i := 0; i < n; i++ {
				x := int(randInt64(r))
				xs = append(xs, x)
				ws = append(ws, ev{"f": "int", "w": is(strconv.Itoa(x))})
			}
			out = jin.MakeArrayInt(xs)
		case "MakeArrayBool":
			xs := []bool{}
			for i := 0; i < n; i++ {
				x := r.Intn(2) == 0
				xs = append(xs, x)
				ws = append(ws, ev{"f": "bool", "w": is(strconv.FormatBool(x))})
			}
			out = jin.MakeArrayBool(xs)
		case "MakeArrayFloat":
			xs := []float64{}
			for i := 0; i < n; i++ {
				x := randFloat(r)
				xs = append(xs, x)
				floats = append(floats, [2]interface{}{i, x})
				ws = append(ws, ev{"f": "float", "plain": 1})
			}
			out = jin.MakeArrayFloat(xs)
		case "MakeArrayBytes":
			xs := [][]byte{}
			for i := 0; i < n; i++ {
				x := randValue(r, 1+r.Intn(4), randLayout(r))
				xs = append(xs, []byte(x))
				ws = append(ws, ev{"f": "raw", "w": is(x)})
			}
			out = jin.MakeArrayBytes(xs...)
		case "MakeArray", "MakeJson":
			e["o"] = kind
			xs := []interface{}{}
			for i := 0; i < n; i++ {
				x, w := rc.anyArg(&floats, i)
				xs = append(xs, x)
				ws = append(ws, w)
				keys = append(keys, key())
			}
			if kind == "MakeArray" {
				out = jin.MakeArray(xs...)
			} else {
				if r.Intn(10) == 0 && n > 0 {
					keys = keys[:n-1]
				}
				out = jin.MakeJson(keys, xs)
			}
		case "MakeJsonString", "MakeJsonWithMap":
			e["o"] = "MakeJson"
			xs := []string{}
			m := map[string]string{}
			for i := 0; i < n; i++ {
				x := randGivenString(r)
				xs = append(xs, x)
				k := key()
				keys = append(keys, k)
				m[k] = x
				ws = append(ws, ev{"f": "string", "w": is(x)})
			}
			if kind == "MakeJsonString" {
				if r.Intn(10) == 0 && n > 0 {
					keys = keys[:n-1]
				}
				out = jin.MakeJsonString(keys, xs)
			} else {
				e["o"] = kind
				out = jin.MakeJsonWithMap(m)
			}
		}
	})
	rc.finishBuild(e, ws, keys, floats, out, p)
}

// anyArg: a value for an interface{} parameter
func (rc *recorder) anyArg(floats *[][2]interface{}, i int) (interface{}, ev) {
	r := rc.r
	switch r.Intn(9) {
	case 0:
		x := int(randInt64(r))
		return x, ev{"f": "int", "w": is(strconv.Itoa(x))}
	case 1:
		x := r.Intn(2) == 0
		return x, ev{"f": "bool", "w": is(strconv.FormatBool(x))}
	case 2:
		x := randFloat(r)
		*floats = append(*floats, [2]interface{}{i, x})
		return x, ev{"f": "float", "plain": 0}
	case 3:
		x := uint64(randInt64(r))
		return x, ev{"f": "int", "w": is(strconv.FormatUint(x, 10))}
	case 4:
		x := int32(randInt64(r))
		return x, ev{"f": "int", "w": is(strconv.FormatInt(int64(x), 10))}
	case 5:
		x := uint8(randInt64(r))
		return x, ev{"f": "int", "w": is(strconv.FormatInt(int64(x), 10))}
	}
	x := randGivenString(r)
	return x, ev{"f": "string", "w": is(x)}
}

func (rc *recorder) finishBuild(e ev, ws []ev, keys []string, floats [][2]interface{}, out []byte, p string) {
	t, err := parseText(out)
	for _, f := range floats {
		i := f[0].(int)
		text := "0"
		if err == nil && i < len(t.c) {
			text = string(out[t.c[i].s:t.c[i].e])
		}
		ws[i]["x"] = floatArg(text, f[1].(float64))
	}
	e["ws"], e["ks"], e["r"], e["nil"] = ws, iss(keys), ib(out), bit(out == nil)
	if p != "" {
		e["nil"], e["r"] = 2, []int{}
		e["panic"] = p
	}
	rc.emit(e)
}

// ---------------------------------------------------------------- schemes

func (rc *recorder) schemeSession(steps int) {
	r := rc.r
	pool := []string{}
	for len(pool) < 5 {
		k := randName(r)
		dup := k == "" || !domainPath([]string{k})
		for _, x := range pool {
			dup = dup || x == k
		}
		if !dup {
			pool = append(pool, k)
		}
	}
	nk := r.Intn(4)
	ks, whole := spare(pool[:nk])
	rc.doc = []byte(fmt.Sprintf("scheme %q", ks))
	s := jin.MakeScheme(ks...)
	// another one from the same slice: independent
	other := jin.MakeScheme(ks...)
	otherKeys := append([]string{}, ks...)
	rc.emit(ev{"o": "NewScheme", "ks": iss(ks)})
	var kept [][]string
	var keptCopy []string
	for n := 0; n < steps; n++ {
		k := pick(r, pool)
		e := ev{}
		p := rc.w.call("scheme", func() {
			switch r.Intn(14) {
			case 0, 1:
				e = ev{"o": "SchemeAdd", "k": is(k), "n": bit(s.Add(k))}
			case 2, 3:
				e = ev{"o": "SchemeRemove", "k": is(k), "n": bit(s.Remove(k))}
			case 4:
				s.Save()
				e = ev{"o": "SchemeSave"}
			case 5:
				s.Restore()
				e = ev{"o": "SchemeRestore"}
			case 6, 7, 8:
				floats := [][2]interface{}{}
				ws := []ev{}
				m := len(s.GetCurrentKeys())
				if r.Intn(10) == 0 {
					m = r.Intn(5)
				}
				var out []byte
				if r.Intn(2) == 0 {
					xs := []string{}
					for i := 0; i < m; i++ {
						x := randGivenString(r)
						xs = append(xs, x)
						ws = append(ws, ev{"f": "string", "w": is(x)})
					}
					out = s.MakeJsonString(xs...)
				} else {
					xs := []interface{}{}
					for i := 0; i < m; i++ {
						x, w := rc.anyArg(&floats, i)
						xs = append(xs, x)
						ws = append(ws, w)
					}
					out = s.MakeJson(xs...)
				}
				t, err := parseText(out)
				for _, f := range floats {
					i := f[0].(int)
					text := "0"
					if err == nil && i < len(t.c) {
						text = string(out[t.c[i].s:t.c[i].e])
					}
					ws[i]["x"] = floatArg(text, f[1].(float64))
				}
				e = ev{"o": "SchemeMake", "ws": ws, "r": ib(out), "nil": bit(out == nil)}
			default:
				doc := rc.schemeDoc(s.GetCurrentKeys(), pool)
				e = ev{"d": is(doc), "c": codeOK, "r": []int{}, "n": 0}
				switch r.Intn(4) {
				case 0:
					out, err := s.MutateJson([]byte(doc))
					e["o"], e["r"], e["c"] = "SchemeMutate", ib(out), codeOf(err)
				case 1:
					out, err := s.MutateJsonAbs([]byte(doc))
					e["o"], e["r"], e["c"] = "SchemeMutateAbs", ib(out), codeOf(err)
				case 2:
					e["o"], e["n"] = "SchemeCheck", bit(s.Check([]byte(doc)))
				case 3:
					e["o"], e["n"] = "SchemeCheckAbs", bit(s.CheckAbs([]byte(doc)))
				}
			}
		})
		if p != "" {
			rc.emit(ev{"o": "Damaged", "s": "Scheme", "c": codePanic, "d": []int{}, "panic": p})
			return
		}
		rc.emit(e)
		// the key lists after every step; lists handed out earlier stay
		if r.Intn(3) > 0 {
			cur, orig := s.GetCurrentKeys(), s.GetOriginalKeys()
			rc.emit(ev{"o": "SchemeKeys", "r": iss(cur), "v": iss(orig)})
			kept = append(kept, cur, orig)
			keptCopy = append(keptCopy, strings.Join(cur, "\x00"), strings.Join(orig, "\x00"))
		}
		// the other scheme lives on its own
		if r.Intn(4) == 0 {
			k2 := pick(r, pool)
			other.Add(k2)
			has := false
			for _, x := range otherKeys {
				has = has || x == k2
			}
			if !has {
				otherKeys = append(otherKeys, k2)
			}
		}
	}
	before, after := [][]int{}, [][]int{}
	for i := range kept {
		before, after = append(before, is(keptCopy[i])), append(after, is(strings.Join(kept[i], "\x00")))
	}
	before, after = append(before, is(strings.Join(otherKeys, "\x00"))), append(after, is(strings.Join(other.GetCurrentKeys(), "\x00")))
	for i, x := range whole {
		w := "spare"
		if i < nk {
			w = pool[i]
		}
		before, after = append(before, is(w)), append(after, is(x))
	}
	rc.emit(ev{"o": "Kept", "s": "Scheme", "before": before, "after": after})
}

// schemeDoc: a document that has many of the keys
func (rc *recorder) schemeDoc(keys, pool []string) string {
	r := rc.r
	l := randLayout(r)
	if r.Intn(12) == 0 {
		return randContainer(r, 3, l)
	}
	xs := []string{}
	used := map[string]bool{}
	add := func(k string) {
		if used[k] {
			return
		}
		used[k] = true
		xs = append(xs, l.gap(r)+`"`+k+`"`+l.gap(r)+":"+l.gap(r)+randValue(r, 1+r.Intn(3), l)+l.gap(r))
	}
	for _, k := range keys {
		if r.Intn(8) > 0 {
			add(k)
		}
	}
	if r.Intn(2) == 0 {
		add(pick(r, pool))
	}
	r.Shuffle(len(xs), func(i, j int) { xs[i], xs[j] = xs[j], xs[i] })
	if len(xs) == 0 {
		return "{" + l.gap(r) + "}"
	}
	return "{" + strings.Join(xs, ",") + "}"
}

// ---------------------------------------------------------------- focus

var allEdits = []string{"Set", "SetKey", "AddKeyValue", "Add", "Insert", "Delete", "Store"}
var parserEdits = []string{"Set", "SetKey", "AddKeyValue", "Add", "Insert", "Delete"}

var getOps = []string{"Get", "GetString"}
var typedOps = []string{"GetString", "GetInt", "GetFloat", "GetBool", "GetStringArray", "GetIntArray", "GetFloatArray", "GetBoolArray"}
var typeOps = []string{"GetType", "IsObject", "IsArray", "IsValue", "IsEmpty"}
var enumOps = []string{"Length", "GetKeys", "GetValues", "GetKeysValues", "GetMap", "GetAll", "GetAllMap", "ParseArray"}
var joEnumOps = []string{"GetKeys", "GetValues", "GetKeysValues", "GetMap", "GetAll", "GetAllMap"}
var iterOps = []string{"IterateArray", "IterateKeyValue"}

func cat(xs ...[]string) []string {
	var o []string
	for _, x := range xs {
		o = append(o, x...)
	}
	return o
}

// opsFor: reads an interface has
func opsFor(api string) []string {
	switch api {
	case "I":
		return cat(getOps, typedOps, typeOps, enumOps, iterOps, []string{"Walk", "Flatten", "Indent"})
	case "J":
		return cat(getOps, typedOps, typeOps, joEnumOps, iterOps, []string{"Walk", "JSON", "String"})
	}
	return cat(getOps, typedOps, []string{"GetNew", "GetNew", "Tree", "JSON"})
}

func container(x pv) bool { return !x.v.scalar() }

// readAt: op at a fitting path most of the time
func (rc *recorder) readAt(op string, missPct int) {
	r := rc.r
	if op != "ParseArray" && r.Intn(100) < missPct {
		rc.read(op, rc.missPath())
		return
	}
	var keep func(pv) bool
	fit := r.Intn(10) > 0
	switch op {
	case "GetKeys", "GetValues", "GetKeysValues", "IterateKeyValue":
		if fit {
			keep = func(x pv) bool { return x.v.t == 'o' }
		}
	case "ParseArray":
		keep = func(x pv) bool { return x.v.t == 'a' && len(x.p) > 0 }
	case "IterateArray", "GetStringArray", "GetIntArray", "GetFloatArray", "GetBoolArray":
		if fit {
			keep = func(x pv) bool { return x.v.t == 'a' }
		}
	case "GetMap", "GetAll", "GetAllMap", "IsEmpty":
		if fit {
			keep = container
		}
	case "Length":
		keep = container
	case "GetInt", "GetFloat", "GetBool":
		if fit {
			keep = func(x pv) bool { return x.v.scalar() }
		}
	}
	x, ok := rc.pickPath(keep)
	if !ok {
		x, ok = rc.pickPath(nil)
		if op == "ParseArray" || op == "Length" {
			return
		}
	}
	if !ok {
		return
	}
	rc.read(op, x.p)
}

// one session of the given focus
func (rc *recorder) one(id string) {
	r := rc.r
	reads := func(api string, ops []string, n, missPct int) {
		rc.session(api, rc.randDoc())
		for i := 0; i < n && rc.tree != nil; i++ {
			rc.readAt(pick(r, ops), missPct)
		}
	}
	edits := func(api string, main []string, pct, n, typed, readPct int) {
		doc := rc.randDoc()
		if r.Intn(8) == 0 {
			doc = "{}"
		}
		rc.session(api, doc)
		all := allEdits
		if api == "P" {
			all = parserEdits
		}
		for i := 0; i < n && rc.tree != nil; i++ {
			if len(rc.doc) > 3000 {
				break
			}
			op := pick(r, all)
			if r.Intn(100) < pct {
				op = pick(r, main)
			}
			rc.randEdit(op, typed)
			if rc.tree != nil && r.Intn(100) < readPct {
				rc.readAt(pick(r, opsFor(api)), 20)
			}
		}
	}
	ij := []string{"I", "I", "J"}
	switch id {
	case "C01":
		reads(pick(r, ij), getOps, 12, 0)
	case "C02":
		api := pick(r, ij)
		reads(api, cat(getOps, getOps, opsForPath(api)), 12, 100)
	case "C03", "C04", "C05", "C06", "C07", "C08":
		main := map[string][]string{"C03": {"Set"}, "C04": {"SetKey"}, "C05": {"AddKeyValue"}, "C06": {"Add", "Insert"}, "C07": {"Delete"}, "C08": {"Store"}}[id]
		edits(pick(r, ij), main, 75, 8, 20, 10)
	case "C09":
		rc.frames = true
		api := pick(r, []string{"I", "I", "I", "J", "P"})
		edits(api, allEdits[:1], 0, 8, 40, 60)
		rc.frames = false
	case "C10":
		edits("I", allEdits[:1], 0, 25, 35, 35)
	case "C11":
		edits("J", allEdits[:1], 0, 12, 50, 70)
	case "C12":
		if r.Intn(6) == 0 {
			doc := canon([]byte(rc.randDoc()))
			rc.session("P", doc)
			if rc.tree != nil {
				rc.read("TreeFull", nil)
			}
		} else {
			reads("P", cat(opsFor("P"), []string{"Get", "GetNew", "Tree"}), 14, 25)
		}
	case "C13":
		edits("P", parserEdits[:1], 0, 20, 35, 60)
	case "C14":
		reads(pick(r, ij), iterOps, 12, 8)
	case "C15":
		api := pick(r, ij)
		if api == "J" {
			reads(api, joEnumOps, 12, 8)
		} else {
			reads(api, enumOps, 14, 8)
		}
	case "C16":
		reads(pick(r, ij), typeOps, 14, 10)
	case "C17":
		reads(pick(r, []string{"I", "J", "P"}), typedOps, 14, 4)
	case "C18":
		edits(pick(r, []string{"I", "I", "J", "P"}), allEdits[:1], 0, 10, 95, 15)
	case "C19":
		rc.session("I", rc.randDoc())
		for _, op := range []string{"Flatten", "Indent", "FlattenIndent", "IndentIndent"} {
			if r.Intn(2) == 0 {
				rc.read(op, nil)
			}
		}
	case "C20":
		rc.builder()
	case "C21":
		rc.schemeSession(6 + r.Intn(14))
	case "C22":
		rc.session(pick(r, ij), rc.randDoc())
		for i := 0; i < 3; i++ {
			rc.read("Walk", nil)
		}
	case "C23":
		rc.damagedSession()
	case "C24":
		rc.busy = true
		switch k := r.Intn(8); {
		case k < 3: // a document all read
			x := sharedPool[r.Intn(len(sharedPool))]
			rc.session("I", string(x.doc))
			rc.doc, rc.shared = x.doc, true
			for i := 0; i < 10; i++ {
				rc.readAt(pick(r, cat(opsFor("I"), iterOps)), 15)
			}
			rc.shared = false
		case k < 5: // a Parser all read
			x := sharedPool[r.Intn(len(sharedPool))]
			rc.session("P", string(x.doc))
			rc.ps = x.ps
			for i := 0; i < 10 && rc.tree != nil; i++ {
				rc.readAt(pick(r, cat(opsFor("P"), []string{"Get", "GetNew", "Tree"})), 15)
			}
		case k == 5:
			rc.builder()
		default:
			edits(pick(r, []string{"I", "J", "P"}), allEdits[:1], 0, 8, 30, 60)
		}
		rc.busy = false
	case "C25":
		if r.Intn(3) == 0 {
			edits(pick(r, []string{"I", "J", "P"}), allEdits[:1], 0, 10, 40, 40)
		} else {
			api := pick(r, []string{"I", "J", "P"})
			ops := cat(opsForPath(api), typedOps)
			if api == "P" {
				ops = cat(opsFor(api), []string{"Get"})
			}
			reads(api, ops, 12, 80)
		}
	default:
		panic("no sessions for " + id)
	}
}

// opsForPath: reads that take a path
// what all shards read at once
type sharedDoc struct {
	doc, whole, was []byte
	ps              *jin.Parser
}

var sharedPool []*sharedDoc

func shareDocs(seed int64) {
	rc := &recorder{r: rand.New(rand.NewSource(seed * 31)), w: newWorker()}
	for len(sharedPool) < 8 {
		x := &sharedDoc{}
		x.doc, x.whole = spareBytes([]byte(rc.randDoc()))
		x.was = clone(x.whole)
		var err error
		if p := rc.w.call("Parse", func() { x.ps, err = jin.Parse(clone(x.doc)) }); p != "" || err != nil {
			rep.add(report{checkID, "Parse of a well formed document", string(x.doc), fmt.Sprint(p, err), "a Parser"})
			finish()
		}
		sharedPool = append(sharedPool, x)
	}
}

// noise: calls that have nothing to do with the session; of documents in one
// buffer, and of a JO and a Parser
func (rc *recorder) noise() {
	r := rc.r
	if rc.other == nil || r.Intn(6) == 0 {
		d := rc.randDoc()
		if rc.tree != nil && r.Intn(3) == 0 { // nearly the session's
			d = strings.Replace(string(rc.doc), "1", "2", -1)
			if _, err := parseText([]byte(d)); err != nil {
				d = string(rc.doc)
			}
		}
		rc.other = append(rc.other[:0], d...)
		rc.w.call("noise", func() {
			rc.otherJO = jin.New([]byte(d))
			rc.otherPs, _ = jin.Parse([]byte(d))
		})
	}
	t, err := parseText(rc.other)
	if err != nil {
		return
	}
	var ps []pv
	allPaths(t, nil, func(p []string, v *cst) { ps = append(ps, pv{p, v}) })
	if rc.tree != nil && r.Intn(3) == 0 { // a path the session uses
		ps = nil
		allPaths(rc.tree, nil, func(p []string, v *cst) { ps = append(ps, pv{p, v}) })
	}
	x := ps[r.Intn(len(ps))]
	ed := edit{op: pick(r, parserEdits), path: x.p, key: "nk", val: []byte(`{"in":[1]}`)}
	k := r.Intn(10)
	rc.w.call("noise", func() {
		switch k {
		case 0:
			editI(rc.other, ed)
		case 1:
			editJ(rc.otherJO, ed)
		case 2:
			if rc.otherPs != nil && len(rc.otherPs.JSON()) < 5000 {
				editP(rc.otherPs, ed)
			}
		case 3:
			if rc.otherPs != nil {
				rc.otherPs.Get(x.p...)
				rc.otherPs.GetNew(x.p...)
			}
		case 4:
			jin.MakeJsonString([]string{"a", "b"}, []string{"x", "y"})
			jin.MakeArray(1, "x", true)
		case 5:
			jin.Walk(rc.other, func(string, []byte, []string) (bool, error) { return r.Intn(3) > 0, nil })
		case 6:
			jin.Indent(jin.Flatten(rc.other))
		case 7:
			jin.GetKeysValues(rc.other, x.p...)
			jin.IterateKeyValue(rc.other, func(k, v []byte) (bool, error) { return true, nil }, x.p...)
			jin.IterateArray(rc.other, func(v []byte) (bool, error) { return true, nil }, x.p...)
		case 8:
			s := jin.MakeScheme("a", "b", "c")
			s.Add("d")
			s.MakeJsonString("1", "2", "3", "4")
			s.MutateJson(rc.other)
		default:
			jin.Get(rc.other, x.p...)
			jin.GetType(rc.other, x.p...)
			jin.GetMap(rc.other, x.p...)
		}
	})
	if rc.otherJO != nil && len(rc.otherJO.JSON()) > 5000 {
		rc.otherJO = jin.New([]byte(`{"a":[1]}`))
	}
}

func opsForPath(api string) []string {
	if api == "J" {
		return cat(typedOps, typeOps, joEnumOps, iterOps)
	}
	o := []string{}
	for _, x := range cat(typedOps, typeOps, enumOps, iterOps) {
		if x != "ParseArray" {
			o = append(o, x)
		}
	}
	return o
}

func record(id string, seed int64, events, shards int, dir string) {
	var wg sync.WaitGroup
	tot := map[string]int{}
	var mu sync.Mutex
	var n, can, calls int64
	if id == "C24" {
		shareDocs(seed)
	}
	for s := 0; s < shards; s++ {
		wg.Add(1)
		go func(s int) {
			defer wg.Done()
			defer func() {
				if x := recover(); x != nil {
					strayed(x, fmt.Sprintf("recording %d for %s", s, id))
					finish()
				}
			}()
			f, err := os.Create(filepath.Join(dir, fmt.Sprintf("t%d.ndjson", s)))
			if err != nil {
				panic(err)
			}
			h := int64(0)
			for _, c := range id {
				h = h*31 + int64(c)
			}
			sub := filepath.Join(dir, fmt.Sprintf("s%d", s))
			os.MkdirAll(sub, 0700)
			rc := &recorder{r: rand.New(rand.NewSource(seed*7919 + int64(s)*104729 + h)), w: newWorker(), out: bufio.NewWriterSize(f, 1<<20), max: events / shards, ops: map[string]int{}, dir: sub}
			for !rc.full() {
				rc.one(id)
			}
			rc.out.Flush()
			f.Close()
			mu.Lock()
			for k, v := range rc.ops {
				tot[k] += v
			}
			n += int64(rc.n)
			can += int64(rc.canary)
			calls += rc.w.calls
			mu.Unlock()
		}(s)
	}
	wg.Wait()
	for _, x := range sharedPool {
		if string(x.whole) != string(x.was) {
			rep.add(report{checkID, "a shared document changed", string(x.was), string(x.whole), "as it was"})
		}
	}
	note("ops", tot)
	note("events", n)
	note("canaries", can)
	bump("calls", calls)
}
