package main

// Replay of module Sizes: containers of any width, their reads, their edits,
// and histories across neighbouring sizes.

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"strconv"
	"strings"
	"sync"

	"github.com/ecoshub/jin"
)

type sizeEdit struct {
	O  string `json:"o"`
	I  int    `json:"i"`
	C  []int  `json:"c"`
	B  int    `json:"b"`
	D  int    `json:"d"`
	A  int    `json:"a"`
	RN int    `json:"rn"`
}

type sizeVec struct {
	T string `json:"t"`
	N int    `json:"n"`
	G []struct {
		I int   `json:"i"`
		C []int `json:"c"`
	} `json:"g"`
	E []sizeEdit `json:"e"`
	// positions of interest
	P []int `json:"p"`
}

// family: the children of a wide container, as many as one likes
type family struct {
	r      *rand.Rand
	obj    bool
	names  func(i int) string
	vals   func(i int) string
	next   int // the names and values handed out so far
	layout layout
}

func newFamily(r *rand.Rand, obj bool, n int, plain bool, kind int) *family {
	f := &family{r: r, obj: obj, layout: randLayout(r)}
	if f.layout == long && n > 140 {
		f.layout = wild
	}
	f.names = func(i int) string { return "k" + strconv.Itoa(i) }
	f.vals = func(i int) string { return strconv.Itoa(1000 + i) }
	if plain {
		f.layout = compact
		return f
	}
	base := pick(r, namePool)
	switch k := r.Intn(6); {
	case k == 0: // names of one length
		f.names = func(i int) string { return fmt.Sprintf("%s%05d", base, (i*7919)%100000) }
	case k == 1: // the difference is in front
		tail := strings.Repeat("n", edges[r.Intn(12)])
		f.names = func(i int) string { return "a" + strconv.Itoa(i) + base + tail }
	case k == 2 && n < 140: // each the start of the next
		f.names = func(i int) string { return "p" + strings.Repeat("q", i) }
	case k == 3: // indices
		f.names = func(i int) string { return strconv.Itoa(i) }
	case k == 4: // indices the other way round, or shifted
		f.names = func(i int) string { return strconv.Itoa(5000 - i) }
	}
	strs := []string{`\"`, `]`, `}`, `,`, `\\`, ` `, `{"`[:1], `[`, `:`, ``, `a`, `, `, `\\\"`}
	if kind < 0 {
		kind = r.Intn(8)
	}
	switch kind {
	case 0: // any scalars
		f.vals = func(i int) string {
			if r.Intn(40) == 0 {
				return randValue(r, 1+r.Intn(4), f.layout)
			}
			return randScalar(r)
		}
	case 1: // strings
		f.vals = func(i int) string { return `"` + pick(r, strs) + strconv.Itoa(i) + pick(r, strs) + `"` }
	case 2: // small containers
		f.vals = func(i int) string {
			x := strconv.Itoa(i)
			return []string{"[]", "{}", "[" + x + "]", `{"a":` + x + `}`, `["` + pick(r, strs) + `"]`, x, `[[` + x + `],"]"]`}[r.Intn(7)]
		}
	case 3:
		f.vals = func(i int) string { return []string{"true", "false"}[r.Intn(2)] }
	case 4:
		f.vals = func(i int) string { return strconv.FormatFloat(float64(i)/8, 'f', -1, 64) }
	case 5: // all the same
		x := randScalar(r)
		f.vals = func(i int) string { return x }
	case 6: // the index of another
		f.vals = func(i int) string { return strconv.Itoa((i + 1) % (n + 1)) }
	}
	return f
}

func (f *family) fresh() (string, string) {
	f.next++
	return f.names(f.next - 1), f.vals(f.next - 1)
}

// wide is a container of many children within a context
type wide struct {
	pl    *placed
	obj   bool
	names []string
	vals  []string
}

func (x *wide) elem(i int) string {
	if x.obj {
		return x.names[i]
	}
	return strconv.Itoa(i)
}

// canonWith: the document without space, with these children
func (x *wide) canonWith(names, vals []string) string {
	var sb strings.Builder
	sb.WriteString(canon([]byte(x.pl.w.pre)))
	open, end := "[", "]"
	if x.obj {
		open, end = "{", "}"
	}
	sb.WriteString(open)
	for i := range vals {
		if i > 0 {
			sb.WriteByte(',')
		}
		if x.obj {
			sb.WriteString(`"` + names[i] + `":`)
		}
		sb.WriteString(canon([]byte(vals[i])))
	}
	sb.WriteString(end)
	sb.WriteString(canon([]byte(x.pl.w.post)))
	return sb.String()
}

func newWide(r *rand.Rand, f *family, n int, plain, alone bool) *wide {
	x := &wide{obj: f.obj, pl: &placed{}}
	l := f.layout
	x.pl.w = &wrapper{}
	if !plain {
		x.pl.w = &wrapper{pre: l.gap(r), post: l.gap(r)}
		if !alone && r.Intn(2) == 0 {
			x.pl.w = newWrapper(r, 1+r.Intn(2), l, nil)
		}
	}
	var sb strings.Builder
	sb.WriteString(x.pl.w.pre)
	open, end := "[", "]"
	if f.obj {
		open, end = "{", "}"
	}
	sb.WriteString(open)
	if n == 0 {
		sb.WriteString(l.gap(r))
	}
	for i := 0; i < n; i++ {
		name, val := f.fresh()
		x.names, x.vals = append(x.names, name), append(x.vals, val)
		if i > 0 {
			sb.WriteByte(',')
		}
		sb.WriteString(l.gap(r))
		if f.obj {
			sb.WriteString(`"` + name + `"` + l.gap(r) + ":" + l.gap(r))
		}
		sb.WriteString(val + l.gap(r))
	}
	sb.WriteString(end)
	sb.WriteString(x.pl.w.post)
	x.pl.text = []byte(sb.String())
	t, err := parseText(x.pl.text)
	if err != nil {
		panic(fmt.Sprintf("driver made a bad text %q", x.pl.text))
	}
	x.pl.tree = t
	return x
}

// at: the container's spot
func (x *wide) at() spot {
	v := x.pl.tree.at(x.pl.w.path)
	s := spot{path: x.pl.w.path, codes: []int{codeOK}, t: kindName(v.t), text: string(v.inner(x.pl.text))}
	if len(s.path) == 0 {
		s.text = string(x.pl.text)
	}
	for i, c := range v.c {
		s.names = append(s.names, x.elem(i))
		s.texts = append(s.texts, string(c.inner(x.pl.text)))
	}
	return s
}

func (x *wide) spots(v *sizeVec, f *family) []spot {
	var o []spot
	cont := x.pl.tree.at(x.pl.w.path)
	for _, g := range v.G {
		s := spot{codes: g.C}
		name := strconv.Itoa(g.I)
		if x.obj {
			if g.I < len(x.names) {
				name = x.names[g.I]
			} else {
				name = f.names(g.I)
			}
		}
		s.path = append(append([]string{}, x.pl.w.path...), name)
		if s.ok() {
			c := cont.c[g.I]
			s.t, s.text = kindName(c.t), string(c.inner(x.pl.text))
			for j, cc := range c.c {
				n := strconv.Itoa(j)
				if c.t == 'o' {
					n = c.name[j]
				}
				s.names = append(s.names, n)
				s.texts = append(s.texts, string(cc.inner(x.pl.text)))
			}
		}
		o = append(o, s)
	}
	return o
}

var opNames = map[string]string{"AddNew": "AddKeyValue", "StoreNew": "Store"}

// made: the edit e is, with its new name and value, and what is there after it
func (x *wide) made(e *sizeEdit, f *family, val string) (edit, []string, []string) {
	op := e.O
	if o := opNames[op]; o != "" {
		op = o
	}
	ed := edit{op: op, val: []byte(val), path: append([]string{}, x.pl.w.path...)}
	name := ""
	switch e.O {
	case "Set", "Delete", "SetKey":
		n := strconv.Itoa(e.I)
		if x.obj {
			if e.I < len(x.names) {
				n = x.names[e.I]
			} else {
				n = f.names(3000 + e.I)
			}
		}
		ed.path = append(ed.path, n)
		if e.O == "SetKey" {
			ed.key, _ = f.fresh()
			name = ed.key
		}
	case "Insert":
		ed.idx = e.I
	case "AddKeyValue", "Store":
		if e.I < len(x.names) {
			name = x.names[e.I]
		} else {
			name, _ = f.fresh()
		}
		ed.key = name
	case "AddNew", "StoreNew":
		name, _ = f.fresh()
		ed.key = name
	}
	if len(e.C) != 1 || e.C[0] != codeOK {
		return ed, nil, nil
	}
	put := func(l []string, y string) []string {
		o := append([]string{}, l[:e.B]...)
		if e.A == 1 {
			o = append(o, y)
		}
		return append(o, l[e.B+e.D:]...)
	}
	vals := put(x.vals, val)
	var names []string
	if x.obj {
		come := name
		if e.O == "Set" {
			come = x.names[e.I]
		}
		names = put(x.names, come)
		if e.RN == 1 {
			names[e.I] = name
		}
	}
	return ed, names, vals
}

func someValue(r *rand.Rand, l layout) string {
	if r.Intn(3) > 0 {
		return randScalar(r)
	}
	return randValue(r, 1+r.Intn(4), l)
}

// ends: where to end an iteration of n
func ends(v *sizeVec, n int) []int {
	o := []int{0, 1, 2, n - 1, n, n + 1}
	for _, p := range v.P {
		if p < n {
			o = append(o, p, p+1)
		}
	}
	var good []int
	had := map[int]bool{}
	for _, x := range o {
		if x >= 0 && !had[x] {
			had[x] = true
			good = append(good, x)
		}
	}
	return good
}

func replaySizes(file string, seed int64, reps, steps int, apis string) {
	all := map[string]map[int]*sizeVec{"a": {}, "o": {}}
	var mu sync.Mutex
	readLines(file, func(raw []byte) {
		v := &sizeVec{}
		if err := json.Unmarshal(raw, v); err != nil {
			panic(err)
		}
		mu.Lock()
		all[v.T][v.N] = v
		mu.Unlock()
	})
	parallel(file, seed, func(w *worker, r *rand.Rand, raw []byte) {
		v := &sizeVec{}
		if err := json.Unmarshal(raw, v); err != nil {
			panic(err)
		}
		w.see(v.T + " of " + sizeClass(v.N))
		for k := 0; k < reps; k++ {
			switch checkID {
			case "C10", "C11", "C13":
				for _, api := range []byte(apis) {
					wideHistory(w, r, all, v, api, steps, k == 0)
				}
			case "C03", "C04", "C05", "C06", "C07", "C08":
				wideEdits(w, r, v, k == 0)
			case "C21":
				wideScheme(w, r, v, k == 0)
			default:
				wideReads(w, r, v, k)
			}
		}
	})
}

func sizeClass(n int) string {
	switch {
	case n < 10:
		return "less than 10"
	case n < 100:
		return "10 to 99"
	case n < 256:
		return "100 to 255"
	}
	return "256 and more"
}

func wideReads(w *worker, r *rand.Rand, v *sizeVec, k int) {
	kind := -1
	if checkID == "C17" {
		kind = []int{1, 3, 4, 6, 7}[r.Intn(5)]
	}
	f := newFamily(r, v.T == "o", v.N, k == 0 && checkID != "C17", kind)
	x := newWide(r, f, v.N, k == 0, checkID == "C22")
	spots := x.spots(v, f)
	here := x.at()
	text := x.pl.text
	switch checkID {
	case "C01", "C02", "C16":
		checkSpots(w, checkID, text, append(spots, here))
	case "C12":
		checkSpots(w, checkID, text, append(spots, here))
		checkTree(w, text, treeOf(x.pl.tree))
	case "C09":
		if v.N > 140 && len(spots) > 6 {
			r.Shuffle(len(spots), func(i, j int) { spots[i], spots[j] = spots[j], spots[i] })
			spots = spots[:6]
		}
		checkFrames(w, text, append(spots, here))
	case "C14":
		for _, api := range []byte("IJ") {
			s := subjectOf(w, api, text, nil)
			for _, op := range iterOps {
				for _, at := range ends(v, v.N) {
					st := stopper{at: at, kind: r.Intn(3)}
					w.see(string(api) + " " + op + hitMiss(&here))
					a := s.one(w, op, here.path, nil, st)
					if m := verdict(op, api, len(text), &here, nil, nil, st, a); m != "" {
						s.complain(op, here.path, nil, st, a, m)
					}
				}
			}
		}
	case "C22":
		var ls []string
		leavesOf(x.pl.tree, text, nil, func(p []string, t string) {
			key := ""
			if len(p) > 0 {
				key = p[len(p)-1]
			}
			ls = append(ls, leafRepr(key, t, p))
		})
		c := canon(text)
		for _, api := range []byte("IJ") {
			s := subjectOf(w, api, text, nil)
			for _, at := range ends(v, len(ls)) {
				st := stopper{at: at, kind: r.Intn(3)}
				w.see(string(api) + " Walk hit")
				a := s.one(w, "Walk", nil, nil, st)
				if m := iterVerdict(ls, 1, st, a, c == "{}" || c == "[]"); m != "" {
					s.complain("Walk", nil, nil, st, a, m)
				}
			}
		}
	case "C15":
		checkParseArray(w, &here)
		for _, api := range []byte("IJ") {
			s := subjectOf(w, api, text, nil)
			one := func(op string, keys []string, codes []int) {
				w.see(string(api) + " " + op + hitMiss(&here))
				a := s.one(w, op, here.path, keys, stopper{})
				if m := verdict(op, api, len(text), &here, keys, codes, stopper{}, a); m != "" {
					s.complain(op, here.path, keys, stopper{}, a, m)
				}
			}
			for _, op := range readsOf("C15")[api] {
				if op != "GetAll" && op != "GetAllMap" {
					one(op, nil, nil)
					continue
				}
				one(op, nil, nil)
				one(op, here.names, nil)
				for _, g := range spots {
					name := g.path[len(g.path)-1]
					keys := []string{name}
					for i := r.Intn(4); i > 0 && len(here.names) > 0; i-- {
						keys = append(keys, here.names[r.Intn(len(here.names))])
					}
					r.Shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
					had := map[string]bool{}
					var uniq []string
					for _, y := range keys {
						if !had[y] {
							had[y] = true
							uniq = append(uniq, y)
						}
					}
					if g.ok() {
						one(op, uniq, nil)
					} else {
						one(op, uniq, g.codes)
					}
				}
			}
		}
	case "C17":
		wideTyped(w, x, &here)
	case "C19":
		flat := canon(text)
		for what, f := range map[string]func([]byte) []byte{"Flatten": jin.Flatten,
			"Flatten(Indent)": func(b []byte) []byte { return jin.Flatten(jin.Indent(b)) }} {
			var got []byte
			w.see(what)
			if p := w.call(what+" "+string(text), func() { got = f(clone(text)) }); p != "" || string(got) != flat {
				rep.add(report{checkID, what, string(text), p + string(got), flat})
			}
		}
		var ind []byte
		w.see("Indent")
		p := w.call("Indent "+string(text), func() { ind = jin.Indent(clone(text)) })
		if want := indented(x.pl.tree, text, 0); p != "" || string(ind) != want {
			rep.add(report{checkID, "Indent", string(text), p + string(ind), want})
		}
	default:
		panic("no sizes for " + checkID)
	}
}

// leavesOf: the scalars and empty containers Walk meets
func leavesOf(v *cst, d []byte, p []string, f func(p []string, t string)) {
	if v.scalar() {
		f(p, string(v.inner(d)))
		return
	}
	for i, c := range v.c {
		n := strconv.Itoa(i)
		if v.t == 'o' {
			n = v.name[i]
		}
		leavesOf(c, d, append(append([]string{}, p...), n), f)
	}
}

// wideTyped: the typed getters of the whole container, by all interfaces
func wideTyped(w *worker, x *wide, here *spot) {
	if here.t != "array" || len(here.path) == 0 {
		return
	}
	for _, api := range []byte("IJP") {
		s := subjectOf(w, api, x.pl.text, nil)
		if s == nil {
			return
		}
		for _, op := range []string{"GetStringArray", "GetIntArray", "GetFloatArray", "GetBoolArray"} {
			a := s.one(w, op, here.path, nil, stopper{})
			repr, code := "", 0
			var fs []string
			var is []int
			var bs []bool
			for _, t := range here.texts {
				switch op {
				case "GetIntArray":
					n, err := strconv.Atoi(t)
					if err != nil || strconv.Itoa(n) != t {
						code = jin.ErrCodeIntegerArrayParse
					}
					is = append(is, n)
				case "GetFloatArray":
					n, ok := floatOf(t)
					if !ok {
						code = jin.ErrCodeFloatArrayParse
					}
					fs = append(fs, bits(n))
				case "GetBoolArray":
					if t != "true" && t != "false" {
						code = jin.ErrCodeBoolArrayParse
					}
					bs = append(bs, t == "true")
				}
			}
			switch op {
			case "GetStringArray":
				repr = listRepr(here.texts)
			case "GetIntArray":
				repr = fmt.Sprint(is)
			case "GetFloatArray":
				repr = fmt.Sprint(fs)
			case "GetBoolArray":
				repr = fmt.Sprint(bs)
			}
			w.see(fmt.Sprint(string(api), " ", op, " ", code == 0))
			if code == 0 && (a.code != codeOK || a.repr != repr) {
				s.complain(op, here.path, nil, stopper{}, a, repr)
			}
			if code != 0 && !(a.code > 0 && a.code < codeSentinel) {
				s.complain(op, here.path, nil, stopper{}, a, fmt.Sprintf("an error, as code %d", code))
			}
		}
	}
}

func wideEdits(w *worker, r *rand.Rand, v *sizeVec, plain bool) {
	f := newFamily(r, v.T == "o", v.N, plain, -1)
	x := newWide(r, f, v.N, plain, false)
	ops := map[string]string{"C03": " Set ", "C04": " SetKey ", "C05": " AddKeyValue ", "C06": " Add Insert ", "C07": " Delete ", "C08": " Store "}[checkID]
	for i := range v.E {
		e := &v.E[i]
		val := someValue(r, f.layout)
		if r.Intn(3) == 0 && len(x.vals) > 0 {
			y := x.vals[r.Intn(len(x.vals))]
			if e.I < len(x.vals) {
				y = x.vals[e.I]
			}
			if t, err := parseText([]byte(y)); err == nil {
				if z := akin(r, t.t, y, string(t.inner([]byte(y)))); z != "" {
					if _, err := parseText([]byte(z)); err == nil {
						val = z
					}
				}
			}
		}
		ed, names, vals := x.made(e, f, val)
		if !strings.Contains(ops, " "+ed.op+" ") {
			continue
		}
		want := ""
		if vals != nil {
			want = x.canonWith(names, vals)
		}
		checkEdit(w, x.pl, e.C, want, ed)
	}
}

// wideHistory: edits one after the other, each from the vector of the size the
// container has by then
func wideHistory(w *worker, r *rand.Rand, all map[string]map[int]*sizeVec, v *sizeVec, api byte, steps int, plain bool) {
	f := newFamily(r, v.T == "o", v.N, plain, -1)
	x := newWide(r, f, v.N, plain, false)
	h := &history{w: w, r: r, api: api, wr: x.pl.w, text: x.pl.text}
	h.log = append(h.log, fmt.Sprintf("%c on %.300q", api, x.pl.text))
	switch api {
	case 'J':
		h.jo = jin.New(clone(x.pl.text))
	case 'P':
		var err error
		if p := w.call("Parse", func() { h.ps, err = jin.Parse(clone(x.pl.text)) }); p != "" || err != nil {
			h.complain("Parse", fmt.Sprint(p, err), "a Parser")
			return
		}
	}
	for n := 0; n < steps && !h.bad; n++ {
		v = all[v.T][len(x.vals)]
		if v == nil {
			break
		}
		e := &v.E[r.Intn(len(v.E))]
		val := someValue(r, compact)
		ed, names, vals := x.made(e, f, val)
		if api == 'P' && ed.op == "Store" {
			continue
		}
		h.log = append(h.log, ed.String())
		h.w.see(fmt.Sprintf("%c wide %s %v", api, ed.op, vals != nil))
		before, was := h.text, string(h.text)
		var out []byte
		var err error
		p := w.call(fmt.Sprint(h.log), func() {
			switch api {
			case 'I':
				out, err = editI(before, ed)
			case 'J':
				err = editJ(h.jo, ed)
				out = h.jo.JSON()
			case 'P':
				err = editP(h.ps, ed)
				out = h.ps.JSON()
			}
		})
		c := codeOf(err)
		codes := h.codesFor(&hEdge{op: ed.op, codes: e.C})
		switch {
		case p != "":
			h.complain("panic", p, "a result or an error")
		case string(before) != was:
			h.complain("the document given to "+ed.op, string(before), was)
		case !inCodes(c, codes):
			h.complain("outcome of "+ed.op, fmt.Sprintf("code %d, document %q", c, out), fmt.Sprintf("one of %v", codes))
		case c != codeOK && string(out) != was:
			h.complain("document after a failed "+ed.op, string(out), was)
		case c == codeOK:
			if want := x.canonWith(names, vals); canon(out) != want {
				h.complain("document after "+ed.op, string(out), want)
				break
			}
			if m := exactOK(x.pl, ed, out); m != "" {
				h.complain(ed.op+": "+m, string(out), "the edit only")
				break
			}
			h.kept = append(h.kept, keptRes{ed.op, out, string(out)})
			h.text = out
			if api != 'I' {
				h.text = clone(out)
			}
			x.names, x.vals = names, vals
			t, er := parseText(h.text)
			if er != nil {
				panic("lost: " + string(h.text))
			}
			x.pl = &placed{w: x.pl.w, text: h.text, tree: t}
		}
		for i := r.Intn(4); i > 0 && !h.bad; i-- {
			y := r.Intn(len(x.vals) + 2)
			if r.Intn(2) == 0 {
				y = e.I
			}
			name := "nothing like this"
			if y < len(x.vals) {
				name = x.elem(y)
			} else if !x.obj {
				name = strconv.Itoa(y)
			}
			h.peek(append(append([]string{}, x.pl.w.path...), name))
		}
	}
	if h.bad {
		return
	}
	if api == 'P' {
		var got string
		if p := w.call("Tree", func() { got = h.ps.Tree() }); p != "" {
			h.complain("Tree", p, "a text")
		} else if m := sameTree(got, treeOf(x.pl.tree)); m != "" {
			h.complain("Tree of "+string(h.text), got, m)
		}
	}
	if api != 'P' || r.Intn(4) == 0 {
		h.look()
	}
}

// wideScheme: a Scheme of as many keys
func wideScheme(w *worker, r *rand.Rand, v *sizeVec, plain bool) {
	if v.T != "o" {
		return
	}
	f := newFamily(r, true, v.N, plain, -1)
	x := newWide(r, f, v.N, plain, true)
	s := jin.MakeScheme(x.names...)
	log := fmt.Sprintf("%d keys %.200q", v.N, x.names)
	complain := func(what, got, want string) {
		rep.add(report{checkID, "wide Scheme: " + what, log, got, want})
	}
	schemeMake(w, r, s, x.names, complain)
	// the keys in another order
	order := r.Perm(v.N)
	keys := make([]string, v.N)
	vals := make([]string, v.N)
	for i, j := range order {
		keys[i], vals[i] = x.names[j], x.vals[j]
	}
	check := func(s *jin.Scheme, names, vals []string, all, same bool) {
		var out, abs []byte
		var e1, e2 error
		var c, ca bool
		p := w.call("a wide Scheme", func() {
			out, e1 = s.MutateJson(x.pl.text)
			abs, e2 = s.MutateJsonAbs(x.pl.text)
			c, ca = s.Check(x.pl.text), s.CheckAbs(x.pl.text)
		})
		w.see(fmt.Sprint("wide Scheme ", all, same))
		want := (&wide{obj: true, pl: &placed{w: &wrapper{}}}).canonWith(names, vals)
		switch {
		case p != "":
			complain("panic", p, "results")
		case e1 != nil || canon(out) != want:
			complain("MutateJson", fmt.Sprint(string(out), e1), want)
		case all && (e2 != nil || canon(abs) != want):
			complain("MutateJsonAbs", fmt.Sprint(string(abs), e2), want)
		case !all && e2 == nil:
			complain("MutateJsonAbs", string(abs), "an error")
		case c != all:
			complain("Check", fmt.Sprint(c), fmt.Sprint(all))
		case v.N > 0 && ca != same:
			complain("CheckAbs", fmt.Sprint(ca), fmt.Sprint(same))
		}
	}
	check(s, x.names, x.vals, true, true)
	if v.N > 1 {
		t := jin.MakeScheme(keys...)
		check(t, keys, vals, true, true)
		y := r.Intn(v.N)
		if !t.Remove(keys[y]) {
			complain("Remove", "false", "true")
		}
		check(t, append(append([]string{}, keys[:y]...), keys[y+1:]...), append(append([]string{}, vals[:y]...), vals[y+1:]...), true, false)
		t.Restore()
		name, _ := f.fresh()
		if !t.Add(name) || t.Add(keys[y]) {
			complain("Add", "true of an old key or false of a new one", "true, false")
		}
		check(t, append(append([]string{}, keys...), name), append(append([]string{}, vals...), `""`), false, false)
	}
}

// indented: IndentAt of JsonText
func indented(v *cst, d []byte, n int) string {
	if v.scalar() {
		return string(d[v.s:v.e])
	}
	open, end := "[", "]"
	if v.t == 'o' {
		open, end = "{", "}"
	}
	var sb strings.Builder
	sb.WriteString(open + "\n" + strings.Repeat("\t", n+1))
	for i, c := range v.c {
		if i > 0 {
			sb.WriteString(",\n" + strings.Repeat("\t", n+1))
		}
		if v.t == 'o' {
			sb.WriteString(`"` + v.name[i] + `": `)
		}
		sb.WriteString(indented(c, d, n+1))
	}
	sb.WriteString("\n" + strings.Repeat("\t", n) + end)
	return sb.String()
}
