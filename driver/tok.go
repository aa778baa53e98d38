package main

// Token documents as the specification emits them, and their concretizations.

import (
	"fmt"
	"math/rand"
	"strconv"
	"strings"
)

// tnode is a token document: kinds o a s n b z x; label of a leaf
type tnode struct {
	t     byte
	label byte
	name  []byte
	c     []*tnode
}

type tokReader struct {
	b []byte
	i int
}

func (r *tokReader) value() *tnode {
	v := &tnode{t: r.b[r.i]}
	switch v.t {
	case '{':
		v.t = 'o'
		r.i++
		for r.b[r.i] != '}' {
			if r.b[r.i] == ',' {
				r.i++
			}
			v.name = append(v.name, r.b[r.i])
			if r.b[r.i+1] != ':' {
				panic(fmt.Sprintf("bad token text %q", r.b))
			}
			r.i += 2
			v.c = append(v.c, r.value())
		}
		r.i++
	case '[':
		v.t = 'a'
		r.i++
		for r.b[r.i] != ']' {
			if r.b[r.i] == ',' {
				r.i++
			}
			v.c = append(v.c, r.value())
		}
		r.i++
	case 's', 'n', 'b', 'z', 'x':
		v.label = r.b[r.i+1]
		r.i += 2
	default:
		panic(fmt.Sprintf("bad token text %q", r.b))
	}
	return v
}

func readTok(b []byte) *tnode {
	r := &tokReader{b: b}
	v := r.value()
	if r.i != len(b) {
		panic(fmt.Sprintf("bad token text %q", b))
	}
	return v
}

// bare is the token text without labels: the specification's state
func (v *tnode) bare(sb *strings.Builder) {
	switch v.t {
	case 'o':
		sb.WriteByte('{')
		for i, c := range v.c {
			if i > 0 {
				sb.WriteByte(',')
			}
			sb.WriteByte(v.name[i])
			sb.WriteByte(':')
			c.bare(sb)
		}
		sb.WriteByte('}')
	case 'a':
		sb.WriteByte('[')
		for i, c := range v.c {
			if i > 0 {
				sb.WriteByte(',')
			}
			c.bare(sb)
		}
		sb.WriteByte(']')
	default:
		sb.WriteByte(v.t)
	}
}

func (v *tnode) key() string {
	var sb strings.Builder
	v.bare(&sb)
	return sb.String()
}

func (v *tnode) leaves(f func(*tnode)) {
	if v.t != 'o' && v.t != 'a' {
		f(v)
		return
	}
	for _, c := range v.c {
		c.leaves(f)
	}
}

// conc maps tokens to bytes
type conc struct {
	name map[byte]string
	leaf map[byte]string // by label: text of the value
}

func (c *conc) nameOf(b byte) string {
	if n, ok := c.name[b]; ok {
		return n
	}
	return string([]byte{b})
}

// pathOf: path tokens to strings
func (c *conc) pathOf(p []byte) []string {
	out := make([]string, len(p))
	for i, b := range p {
		out[i] = c.nameOf(b)
	}
	return out
}

func randLeaf(r *rand.Rand, t byte) string {
	switch t {
	case 's':
		return `"` + randStr(r) + `"`
	case 'n':
		return randNum(r)
	case 'b':
		return []string{"true", "false"}[r.Intn(2)]
	case 'z':
		return "null"
	}
	return randValue(r, 1+r.Intn(8), randLayout(r))
}

// newConc: names for a and b (never an index), texts for the labels in d.
// plain: as simple as can be; noEmpty: no empty name.
func newConc(r *rand.Rand, d *tnode, plain, noEmpty bool) *conc {
	c := &conc{name: map[byte]string{}, leaf: map[byte]string{}}
	if plain {
		c.name['a'], c.name['b'] = "a", "b"
	} else {
		for {
			c.name['a'], c.name['b'] = randName(r), randName(r)
			if r.Intn(3) == 0 {
				c.name['a'], c.name['b'] = relatedNames(r)
			}
			if !noEmpty && r.Intn(12) == 0 {
				c.name['a'] = ""
			}
			if c.name['a'] != c.name['b'] {
				break
			}
		}
	}
	used := map[string]bool{}
	d.leaves(func(l *tnode) { c.addLeaf(r, l, plain, used) })
	return c
}

func (c *conc) addLeaf(r *rand.Rand, l *tnode, plain bool, used map[string]bool) {
	if _, ok := c.leaf[l.label]; ok {
		return
	}
	for try := 0; ; try++ {
		var x string
		if plain {
			switch l.t {
			case 's':
				x = `"` + string([]byte{l.label}) + `"`
			case 'n':
				x = strconv.Itoa(int(l.label))
			default:
				x = randLeaf(r, l.t)
			}
		} else {
			x = randLeaf(r, l.t)
		}
		if !used[x] || try > 20 {
			used[x] = true
			c.leaf[l.label] = x
			return
		}
	}
}

// render: text of v
func (c *conc) render(r *rand.Rand, v *tnode, l layout, sb *strings.Builder) {
	switch v.t {
	case 'o', 'a':
		op, cl := byte('{'), byte('}')
		if v.t == 'a' {
			op, cl = '[', ']'
		}
		sb.WriteByte(op)
		if len(v.c) == 0 {
			sb.WriteString(l.gap(r))
		}
		for i, ch := range v.c {
			if i > 0 {
				sb.WriteByte(',')
			}
			sb.WriteString(l.gap(r))
			if v.t == 'o' {
				sb.WriteString(`"` + c.nameOf(v.name[i]) + `"` + l.gap(r) + ":" + l.gap(r))
			}
			c.render(r, ch, l, sb)
			sb.WriteString(l.gap(r))
		}
		sb.WriteByte(cl)
	default:
		sb.WriteString(c.leaf[v.label])
	}
}

// canonOf: canonical text of v
func (c *conc) canonOf(v *tnode) string {
	var sb strings.Builder
	c.render(nil, v, compact, &sb)
	return canon([]byte(sb.String()))
}

// wrapper: a context that holds a document at path
type wrapper struct {
	pre, post string
	path      []string
}

// newWrapper nests depth levels around a hole
func newWrapper(r *rand.Rand, depth int, l layout, names []string) *wrapper {
	w := &wrapper{}
	var pre, post strings.Builder
	posts := make([]string, 0, depth)
	pre.WriteString(l.gap(r))
	for k := 0; k < depth; k++ {
		if r.Intn(2) == 0 {
			n := r.Intn(4)
			if r.Intn(10) == 0 {
				n = 9 + r.Intn(14)
			}
			pre.WriteByte('[')
			if large && depth < 20 && r.Intn(60) == 0 { // many
				many := []int{127, 128, 129, 255, 256, 257, 1000}[r.Intn(7)]
				for i := n; i < many; i++ {
					pre.WriteString([]string{"1", `""`, "[]", "null", `"]"`}[r.Intn(5)] + ",")
				}
				n, many = many, n
				for i := 0; i < many; i++ {
					pre.WriteString(l.gap(r) + randValue(r, 1+r.Intn(4), l) + l.gap(r) + ",")
				}
				w.path = append(w.path, strconv.Itoa(n))
				pre.WriteString(l.gap(r))
				posts = append(posts, l.gap(r)+"]")
				continue
			}
			for i := 0; i < n; i++ {
				pre.WriteString(l.gap(r) + randValue(r, 1+r.Intn(4), l) + l.gap(r) + ",")
			}
			pre.WriteString(l.gap(r))
			w.path = append(w.path, strconv.Itoa(n))
			var pb strings.Builder
			pb.WriteString(l.gap(r))
			for i := r.Intn(3); i > 0; i-- {
				pb.WriteString("," + l.gap(r) + randValue(r, 1+r.Intn(4), l) + l.gap(r))
			}
			pb.WriteByte(']')
			posts = append(posts, pb.String())
		} else {
			used := map[string]bool{}
			fresh := func() string {
				for {
					x := randName(r)
					if len(names) > 0 && r.Intn(3) == 0 {
						x = pick(r, names)
						if r.Intn(4) == 0 {
							x = relative(r, x)
						}
					}
					if r.Intn(10) == 0 {
						x = strconv.Itoa(r.Intn(12))
					}
					if !used[x] {
						used[x] = true
						return x
					}
				}
			}
			member := func() string {
				return l.gap(r) + `"` + fresh() + `"` + l.gap(r) + ":" + l.gap(r)
			}
			pre.WriteByte('{')
			for i := r.Intn(3); i > 0; i-- {
				pre.WriteString(member() + randValue(r, 1+r.Intn(5), l) + l.gap(r) + ",")
			}
			x := fresh()
			pre.WriteString(l.gap(r) + `"` + x + `"` + l.gap(r) + ":" + l.gap(r))
			w.path = append(w.path, x)
			var pb strings.Builder
			pb.WriteString(l.gap(r))
			for i := r.Intn(3); i > 0; i-- {
				pb.WriteString("," + member() + randValue(r, 1+r.Intn(5), l) + l.gap(r))
			}
			pb.WriteByte('}')
			posts = append(posts, pb.String())
		}
	}
	for k := depth - 1; k >= 0; k-- {
		post.WriteString(posts[k])
	}
	post.WriteString(l.gap(r))
	w.pre, w.post = pre.String(), post.String()
	return w
}
