package main

// Histories: walks through the state graph MCJin emits (family Step), made on
// a []byte with the interpreter functions, on a JO and on a Parser.

import (
	"fmt"
	"math/rand"
	"runtime"
	"strconv"
	"sync"
	"sync/atomic"

	"github.com/ecoshub/jin"
)

type hEdge struct {
	op    string
	p, k  []byte
	n     int
	w     *tnode
	codes []int
	r     *tnode
	to    int // state after it, -1: beyond the bounds
}

type hState struct {
	d     *tnode
	edges []hEdge
	fail  []int // edges that fail
	good  []int
}

type graph struct {
	states []*hState
	byKey  map[string]int
	edges  int
}

func loadGraph(file string) *graph {
	var lines [][]byte
	readLines(file, func(l []byte) { lines = append(lines, append([]byte(nil), l...)) })
	g := &graph{byKey: map[string]int{}, states: make([]*hState, len(lines))}
	var wg sync.WaitGroup
	var next int64 = -1
	for c := 0; c < runtime.NumCPU(); c++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= len(lines) {
					return
				}
				v := decode(lines[i])
				s := &hState{d: readTok(v.D.bytes())}
				for j := range v.S {
					e := &v.S[j]
					h := hEdge{op: e.O, p: e.P.bytes(), k: e.K.bytes(), n: e.N, codes: e.C, to: -1}
					if len(e.W) > 0 {
						h.w = readTok(e.W.bytes())
					}
					if len(e.R) > 0 {
						h.r = readTok(e.R.bytes())
					}
					s.edges = append(s.edges, h)
				}
				g.states[i] = s
			}
		}()
	}
	wg.Wait()
	for i, s := range g.states {
		g.byKey[s.d.key()] = i
	}
	for _, s := range g.states {
		for j := range s.edges {
			e := &s.edges[j]
			g.edges++
			if e.r == nil {
				s.fail = append(s.fail, j)
				continue
			}
			if t, ok := g.byKey[e.r.key()]; ok {
				e.to = t
			}
			s.good = append(s.good, j)
		}
	}
	return g
}

// history is one walk: the object under test and what it must be holding
type history struct {
	w     *worker
	r     *rand.Rand
	api   byte
	c     *conc
	wr    *wrapper
	text  []byte
	jo    *jin.JO
	ps    *jin.Parser
	state *hState
	leaf  []string // texts of the leaves of the abstract document, in order
	doc   *tnode   // labelled 0x80+i, i into leaf
	log   []string
	kept  []keptRes
	bad   bool
}

// relabel: leaves numbered from 0x80 in document order
func relabel(d *tnode) *tnode {
	n := byte(0x80)
	var cp func(v *tnode) *tnode
	cp = func(v *tnode) *tnode {
		o := &tnode{t: v.t, name: v.name}
		if v.t != 'o' && v.t != 'a' {
			o.label = n
			n++
		}
		for _, c := range v.c {
			o.c = append(o.c, cp(c))
		}
		return o
	}
	return cp(d)
}

func (h *history) setLeaves(d *tnode) {
	h.doc = relabel(d)
	i := 0
	h.doc.leaves(func(l *tnode) {
		h.c.leaf[l.label] = h.leaf[i]
		i++
	})
}

func newHistory(w *worker, r *rand.Rand, api byte, s *hState, plain bool) *history {
	k := 2
	if plain {
		k = 0
	}
	pl := place(r, s.d, k, true, true)
	// a Parser takes its time on a large document, above all on a deep one
	for most := map[byte]int{'P': 2000, 'I': 8000, 'J': 8000}[api]; len(pl.text) > most && r.Intn(150) > 0; {
		pl = place(r, s.d, k, true, true)
	}
	h := &history{w: w, r: r, api: api, c: pl.c, wr: pl.w, text: pl.text, state: s}
	s.d.leaves(func(l *tnode) { h.leaf = append(h.leaf, pl.c.leaf[l.label]) })
	h.setLeaves(s.d)
	h.log = append(h.log, fmt.Sprintf("%c on %q", api, pl.text))
	switch api {
	case 'J':
		h.jo = jin.New(clone(pl.text))
	case 'P':
		var err error
		if p := w.call("Parse "+string(pl.text), func() { h.ps, err = jin.Parse(clone(pl.text)) }); p != "" || err != nil {
			h.complain("Parse", fmt.Sprint(p, err), "a Parser")
		}
	}
	return h
}

func (h *history) complain(what, got, want string) {
	h.bad = true
	rep.add(report{checkID, string(h.api) + " history: " + what, h.log, got, want})
}

// form: how the value is written: raw or by the typed function it fits
func (h *history) form(op, text string) arg {
	if h.r.Intn(3) > 0 {
		return arg{form: "raw", text: text}
	}
	switch {
	case text == "true" || text == "false":
		return arg{form: "bool", b: text == "true", text: text}
	case text[0] == '"':
		in := text[1 : len(text)-1]
		if h.r.Intn(2) == 0 && specFormat(in) == text && !(h.api == 'P' && op == "Set" && quoteAlways(in) != text) {
			return arg{form: "string", text: in}
		}
		return arg{form: "string", text: text}
	case text[0] == '[' || text[0] == '{' || text == "null":
		if h.api == 'P' && op == "Set" {
			break
		}
		return arg{form: "string", text: text}
	default:
		if n, err := strconv.ParseInt(text, 10, 64); err == nil && strconv.FormatInt(n, 10) == text {
			return arg{form: "int", i: n, text: text}
		}
	}
	return arg{form: "raw", text: text}
}

// leafLike: a text for a new leaf of kind t; now and then one as long as, or
// the same as, what it takes the place of or stands next to
func (h *history) leafLike(t byte, op string, path []string, key string) string {
	if h.r.Intn(3) == 0 {
		tree, err := parseText(h.text)
		if err != nil {
			panic("lost: " + string(h.text))
		}
		for try := 0; try < 4; try++ {
			x := likeOld(h.r, h.text, tree, edit{op: op, path: path, key: key})
			if x == "" {
				break
			}
			if v, err := parseText([]byte(x)); t == 'x' || err == nil && v.t == t {
				h.w.see("value like the old one")
				return x
			}
		}
	}
	return randLeaf(h.r, t)
}

// peek reads one value of the document
func (h *history) peek(full []string) {
	tree, err := parseText(h.text)
	if err != nil {
		panic("lost: " + string(h.text))
	}
	x := spot{path: full, codes: anyCode}
	if v := tree.at(full); v != nil {
		x = spot{path: full, codes: []int{codeOK}, t: kindName(v.t), text: string(v.inner(h.text))}
		if len(full) == 0 {
			x.text = string(h.text)
		}
	}
	s := &subject{api: h.api, d: h.text, jo: h.jo, ps: h.ps}
	op := "Get"
	if h.api == 'P' && h.r.Intn(2) == 0 {
		op = "GetNew"
	}
	api := h.api
	if x.t == "" {
		api = 'I'
	}
	a := s.one(h.w, op, full, nil, stopper{})
	if m := verdict(op, api, len(h.text), &x, nil, nil, stopper{}, a); m != "" {
		h.complain(fmt.Sprintf("%s at %q of %q", op, full, h.text), fmt.Sprintf("code %d, %s", a.code, a.repr), m)
	}
}

// step makes the edge's edit and compares
func (h *history) step(e *hEdge) {
	if len(e.p) == 0 && len(h.wr.path) > 0 && (e.op == "Set" || e.op == "SetKey" || e.op == "Delete") {
		return
	}
	path := append(append([]string{}, h.wr.path...), h.c.pathOf(e.p)...)
	key := ""
	if len(e.k) > 0 {
		key = h.c.nameOf(e.k[0])
	}
	fresh := ""
	val := ""
	if e.w != nil {
		e.w.leaves(func(l *tnode) { fresh = h.leafLike(l.t, e.op, path, key) })
		h.c.leaf['v'] = fresh
		val = h.c.canonOf(e.w)
		if fresh != "" {
			val = fresh
		}
	}
	a := arg{form: "raw", text: val}
	if e.w != nil {
		a = h.form(e.op, val)
	}
	h.log = append(h.log, fmt.Sprintf("%s(%s) path=%q key=%q index=%d value=%q", e.op, a.form, path, key, e.n, val))
	if len(h.log) > 40 {
		h.log = append(h.log[:1:1], h.log[len(h.log)-30:]...)
	}
	before, beforeWas := h.text, string(h.text)
	pathWas := append([]string{}, path...)
	var out []byte
	var err error
	p := h.w.call(fmt.Sprint(h.log), func() {
		switch h.api {
		case 'I':
			out, err = typedI(before, e.op, path, key, e.n, a, []byte(a.text))
		case 'J':
			err = typedJ(h.jo, e.op, path, key, e.n, a, []byte(a.text))
			out = h.jo.JSON()
		case 'P':
			err = typedP(h.ps, e.op, path, key, e.n, a, []byte(a.text))
			out = h.ps.JSON()
		}
	})
	if p != "" {
		h.complain("panic", p, "a result or an error")
		return
	}
	if string(before) != beforeWas {
		h.complain("the document given to "+e.op, string(before), beforeWas)
		return
	}
	if !samePath(path, pathWas) {
		h.complain("path changed", fmt.Sprint(path), fmt.Sprint(pathWas))
		return
	}
	c := codeOf(err)
	h.w.see(string(h.api) + " " + e.op + okFail(c))
	if !inCodes(c, h.codesFor(e)) {
		h.complain("outcome of "+e.op, fmt.Sprintf("code %d, document %q", c, out), fmt.Sprintf("one of %v", e.codes))
		return
	}
	if c != codeOK {
		if string(out) != string(before) {
			h.complain("document after a failed "+e.op, string(out), string(before))
		}
		return
	}
	// the abstract document after it
	var leaf []string
	e.r.leaves(func(l *tnode) {
		if l.label == 'v' {
			leaf = append(leaf, fresh)
		} else {
			leaf = append(leaf, h.leaf[l.label-'1'])
		}
	})
	h.leaf = leaf
	h.setLeaves(e.r)
	want := canon([]byte(h.wr.pre)) + h.c.canonOf(h.doc) + canon([]byte(h.wr.post))
	if got := canon(out); got != want {
		h.complain("document after "+e.op, string(out), want)
		return
	}
	bt, er := parseText(before)
	if er != nil {
		panic("lost: " + string(before))
	}
	if m := exactOK(&placed{text: before, tree: bt}, edit{op: e.op, path: path, key: key, idx: e.n, val: []byte(val)}, out); m != "" {
		h.complain(e.op+": "+m, string(out), "the edit only")
		return
	}
	if h.api == 'I' {
		h.kept = append(h.kept, keptRes{e.op, out, string(out)})
		h.text = out
	} else {
		h.text = clone(out)
	}
}

// codesFor: a Parser does not tell the causes apart
func (h *history) codesFor(e *hEdge) []int {
	if h.api != 'P' || inCodes(codeOK, e.codes) {
		return e.codes
	}
	if e.op == "SetKey" {
		return anyCode
	}
	o := append([]int{8}, e.codes...)
	for _, c := range e.codes {
		if c == 8 || c == 7 || c == 3 || c == 2 {
			return append(o, 8, 7, 3, 2)
		}
	}
	return o
}

// look: reads at every path see exactly the document
func (h *history) look() {
	if h.bad {
		return
	}
	s := &subject{api: h.api, d: h.text, jo: h.jo, ps: h.ps}
	tree, err := parseText(h.text)
	if err != nil {
		panic("lost: " + string(h.text))
	}
	at := tree.at(h.wr.path)
	type place struct {
		p []string
		v *cst
	}
	var places []place
	allPaths(at, nil, func(p []string, v *cst) { places = append(places, place{p, v}) })
	h.r.Shuffle(len(places), func(i, j int) { places[i], places[j] = places[j], places[i] })
	each := func(p []string, v *cst) {
		if h.bad {
			return
		}
		full := append(append([]string{}, h.wr.path...), p...)
		x := spot{path: full, codes: []int{codeOK}, t: kindName(v.t), text: string(v.inner(h.text))}
		if len(full) == 0 {
			x.text = string(h.text)
		}
		ops := []string{"Get"}
		if h.api == 'P' {
			ops = []string{"Get", "GetNew"}
		}
		for _, op := range ops {
			a := s.one(h.w, op, full, nil, stopper{})
			if m := verdict(op, h.api, len(h.text), &x, nil, nil, stopper{}, a); m != "" {
				h.complain(fmt.Sprintf("%s at %q of %q", op, full, h.text), fmt.Sprintf("code %d, %s", a.code, a.repr), m)
				return
			}
		}
		if len(full) > 0 && h.r.Intn(3) == 0 {
			x := spot{path: append(full[:len(full):len(full)], "no such thing"), codes: anyCode}
			a := s.one(h.w, ops[len(ops)-1], x.path, nil, stopper{})
			if m := verdict(ops[len(ops)-1], 'I', len(h.text), &x, nil, nil, stopper{}, a); m != "" {
				h.complain(fmt.Sprintf("%s at %q of %q", ops[len(ops)-1], x.path, h.text), fmt.Sprintf("code %d, %s", a.code, a.repr), m)
			}
		}
		if checkID == "C09" && len(h.kept) < 60 {
			var b []byte
			var err error
			h.w.call("Get", func() {
				switch h.api {
				case 'I':
					b, err = jin.Get(h.text, full...)
				case 'J':
					b, err = h.jo.Get(full...)
				case 'P':
					if h.r.Intn(2) == 0 {
						b = h.ps.GetNew(full...)
					} else {
						b, err = h.ps.Get(full...)
					}
				}
			})
			if err == nil && b != nil {
				h.kept = append(h.kept, keptRes{fmt.Sprintf("Get at %q of %q", full, h.text), b, string(b)})
			}
		}
	}
	for _, x := range places {
		each(x.p, x.v)
	}
	if h.bad {
		return
	}
	switch h.api {
	case 'J':
		if string(h.jo.JSON()) != string(h.text) || h.jo.String() != string(h.text) {
			h.complain("JSON or String", h.jo.String(), string(h.text))
		}
	case 'P':
		if string(h.ps.JSON()) != string(h.text) {
			h.complain("JSON", string(h.ps.JSON()), string(h.text))
			return
		}
		lines := treeOf(tree)
		var got string
		if p := h.w.call("Tree", func() { got = h.ps.Tree() }); p != "" {
			h.complain("Tree", p, "a text")
			return
		}
		if m := sameTree(got, lines); m != "" {
			h.complain("Tree of "+string(h.text), got, m)
		}
	}
	for i := range h.kept {
		if k := &h.kept[i]; string(k.b) != k.copy {
			h.complain("earlier result of "+k.name, string(k.b), k.copy)
			return
		}
	}
}

// treeOf: the lines Tree has for a document
func treeOf(v *cst) []line {
	var lines []line
	var down func(v *cst, n int)
	down = func(v *cst, n int) {
		for i, c := range v.c {
			l := strconv.Itoa(i)
			if v.t == 'o' {
				l = v.name[i]
			}
			lines = append(lines, line{n, l})
			down(c, n+1)
		}
	}
	down(v, 0)
	return lines
}

func kindName(t byte) string {
	switch t {
	case 'o':
		return "object"
	case 'a':
		return "array"
	case 's':
		return "string"
	case 'n':
		return "number"
	case 'b':
		return "boolean"
	}
	return "null"
}

func sameTree(got string, want []line) string {
	ls := treeLines(got)
	ok := len(ls) == len(want)
	for i := 0; ok && i < len(ls); i++ {
		ok = ls[i]["n"].(int) == want[i].n && string(ints(ls[i]["l"].([]int)).bytes()) == want[i].l
	}
	if ok {
		return ""
	}
	return fmt.Sprint(want)
}

// replayWalks: every transition of the graph starts a walk of the given
// length; pairs: instead every two successive transitions
func replayWalks(file string, seed int64, apis string, steps int, pairs bool) {
	g := loadGraph(file)
	var wg sync.WaitGroup
	var next int64 = -1
	var walks, made, calls int64
	n := len(g.states)
	for c := 0; c < runtime.NumCPU(); c++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			w := newWorker()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n {
					break
				}
				s := g.states[i]
				r := rand.New(rand.NewSource(seed*1000003 + int64(i)))
				each := func(j int) {
					defer stray(s.d.key())
					for _, api := range []byte(apis) {
						if api == 'P' && s.edges[j].op == "Store" {
							continue
						}
						if pairs {
							if s.edges[j].to < 0 {
								continue
							}
							t := g.states[s.edges[j].to]
							for k := range t.edges {
								if api == 'P' && t.edges[k].op == "Store" {
									continue
								}
								h := newHistory(w, r, api, s, r.Intn(4) == 0)
								m := h.run(g, &s.edges[j], &t.edges[k], 0)
								atomic.AddInt64(&made, int64(m))
								atomic.AddInt64(&walks, 1)
							}
							continue
						}
						h := newHistory(w, r, api, s, j == 0)
						m := h.run(g, &s.edges[j], nil, steps)
						atomic.AddInt64(&made, int64(m))
						atomic.AddInt64(&walks, 1)
					}
				}
				for j := range s.edges {
					each(j)
				}
			}
			atomic.AddInt64(&calls, w.calls)
			tally(w)
		}()
	}
	wg.Wait()
	bump("lines", int64(n))
	bump("calls", calls)
	note("traces", walks)
	note("transitions_in_graph", g.edges)
	note("steps", made)
}

// run: the first edge, the second if given, then steps more at random
func (h *history) run(g *graph, first, second *hEdge, steps int) int {
	made := 0
	limit := 4000 + 2*len(h.text)
	edge := first
	for !h.bad && edge != nil {
		if len(h.text) > limit {
			break
		}
		var spot []string
		if h.r.Intn(2) == 0 {
			spot = append(append([]string{}, h.wr.path...), h.c.pathOf(edge.p)...)
			if len(edge.k) > 0 && edge.op != "SetKey" {
				spot = append(spot, h.c.nameOf(edge.k[0]))
			} else if edge.op == "Insert" {
				spot = append(spot, strconv.Itoa(edge.n))
			}
			h.peek(spot)
			if h.bad {
				break
			}
		}
		h.step(edge)
		made++
		if !h.bad && spot != nil { // once more what was read just before the edit
			h.peek(spot)
		}
		if !h.bad && (h.r.Intn(2) == 0 || edge == second || made == steps+1) {
			h.look()
		}
		if edge.r != nil && !(len(edge.p) == 0 && len(h.wr.path) > 0 && (edge.op == "Set" || edge.op == "SetKey" || edge.op == "Delete")) {
			if edge.to < 0 {
				break
			}
			h.state = g.states[edge.to]
		}
		edge = nil
		if second != nil && made == 1 {
			edge = second
		} else if made <= steps {
			s := h.state
			for try := 0; try < 8 && edge == nil; try++ {
				pool := s.good
				if h.r.Intn(5) == 0 {
					pool = s.fail
				}
				if len(pool) == 0 {
					continue
				}
				e := &s.edges[pool[h.r.Intn(len(pool))]]
				if (h.api == 'P' && e.op == "Store") || (e.r != nil && e.to < 0 && try < 7) {
					continue
				}
				edge = e
			}
		}
	}
	if !h.bad {
		h.look()
	}
	return made
}
