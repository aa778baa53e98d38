package main

// Replay of the vectors emitted by MCJin: single edits and reads on every
// small document, made on many concrete documents each.

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"

	"github.com/ecoshub/jin"
)

type ints []int

func (x ints) bytes() []byte {
	b := make([]byte, len(x))
	for i, v := range x {
		b[i] = byte(v)
	}
	return b
}

type vEdit struct {
	O string `json:"o"`
	P ints   `json:"p"`
	K ints   `json:"k"`
	N int    `json:"n"`
	W ints   `json:"w"`
	C []int  `json:"c"`
	R ints   `json:"r"`
}

type vRead struct {
	P ints   `json:"p"`
	C []int  `json:"c"`
	V ints   `json:"v"`
	T string `json:"t"`
}

type vLeaf struct {
	P ints `json:"p"`
	V ints `json:"v"`
}

type vector struct {
	D ints     `json:"d"`
	E []vEdit  `json:"e"`
	G []vRead  `json:"g"`
	S []vEdit  `json:"s"`
	L []vLeaf  `json:"l"`
	T [][2]int `json:"t"`
}

// readLines: TLC prints a string value: unquote, then decode
func readLines(file string, f func([]byte)) {
	fh, err := os.Open(file)
	if err != nil {
		panic(err)
	}
	defer fh.Close()
	rd := bufio.NewReaderSize(fh, 1<<20)
	for {
		line, err := rd.ReadBytes('\n')
		line = bytes.TrimSpace(line)
		if len(line) > 0 {
			if line[0] == '"' {
				var s string
				if e := json.Unmarshal(line, &s); e != nil {
					panic(e)
				}
				line = []byte(s)
			}
			f(line)
		}
		if err != nil {
			return
		}
	}
}

// parallel feeds lines to workers; each line gets its own seed
func parallel(file string, seed int64, f func(w *worker, r *rand.Rand, line []byte)) {
	type job struct {
		n    int64
		line []byte
	}
	ch := make(chan job, 256)
	var wg sync.WaitGroup
	var mu sync.Mutex
	var calls int64
	for i := 0; i < runtime.NumCPU(); i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			w := newWorker()
			for j := range ch {
				func() {
					defer stray(string(j.line))
					f(w, rand.New(rand.NewSource(seed*1000003+j.n)), j.line)
				}()
			}
			mu.Lock()
			calls += w.calls
			mu.Unlock()
			tally(w)
		}()
	}
	var n int64
	readLines(file, func(l []byte) {
		n++
		ch <- job{n, append([]byte(nil), l...)}
	})
	close(ch)
	wg.Wait()
	bump("lines", n)
	bump("calls", calls)
}

// stray: what the code under test did to memory that was not its own may make
// the driver itself stumble
func stray(about string) {
	if x := recover(); x != nil {
		strayed(x, about)
	}
}

func strayed(x interface{}, about string) {
	if len(about) > 2000 {
		about = about[:2000]
	}
	at := ""
	for _, l := range strings.Split(string(debug.Stack()), "\n") {
		if strings.Contains(l, ".go:") && !strings.Contains(l, "/runtime/") {
			at += " " + strings.TrimSpace(l)
		}
	}
	rep.add(report{checkID, "the driver lost track", about, fmt.Sprint(x, at), "memory of the driver as it left it"})
}

func decode(line []byte) *vector {
	v := &vector{}
	if err := json.Unmarshal(line, v); err != nil {
		panic(fmt.Sprintf("%v in %s", err, line))
	}
	return v
}

// placed is a concrete document: a token document within a context
type placed struct {
	c    *conc
	w    *wrapper
	text []byte
	tree *cst
}

func place(r *rand.Rand, d *tnode, k int, noEmpty, wrap bool) *placed {
	p := &placed{}
	l := randLayout(r)
	plain := k == 0
	if k == 0 {
		l = compact
	} else if k == 1 {
		l = wild
	}
	p.c = newConc(r, d, plain, noEmpty)
	depth := 0
	if wrap && k > 1 && r.Intn(2) == 0 {
		depth = 1 + r.Intn(4)
		if r.Intn(10) == 0 {
			depth = 5 + r.Intn(12)
		}
		if large && r.Intn(50) == 0 {
			depth = 120 + r.Intn(200)
		}
	}
	if depth == 0 {
		p.w = &wrapper{pre: l.gap(r), post: l.gap(r)}
	} else {
		p.w = newWrapper(r, depth, l, []string{p.c.name['a'], p.c.name['b']})
	}
	var sb strings.Builder
	sb.WriteString(p.w.pre)
	p.c.render(r, d, l, &sb)
	sb.WriteString(p.w.post)
	p.text = []byte(sb.String())
	t, err := parseText(p.text)
	if err != nil {
		panic(fmt.Sprintf("driver made a bad text %q", p.text))
	}
	p.tree = t
	return p
}

func (p *placed) path(toks []byte) []string {
	return append(append([]string{}, p.w.path...), p.c.pathOf(toks)...)
}

func (p *placed) canonOf(d *tnode) string {
	return canon([]byte(p.w.pre)) + p.c.canonOf(d) + canon([]byte(p.w.post))
}

func clone(b []byte) []byte { return append([]byte(nil), b...) }

// replayEdits: property checks of single edits; kinds: which operations
func replayEdits(file string, seed int64, reps int) {
	parallel(file, seed, func(w *worker, r *rand.Rand, line []byte) {
		v := decode(line)
		d := readTok(v.D.bytes())
		for k := 0; k < reps; k++ {
			noEmpty := true
			pl := place(r, d, k, noEmpty, true)
			for i := range v.E {
				e := &v.E[i]
				if len(e.P) == 0 && len(pl.w.path) > 0 && (e.O == "Set" || e.O == "SetKey" || e.O == "Delete") {
					continue // the whole document here, a part of it there
				}
				// the opaque new value: any text
				ed := edit{op: e.O, path: pl.path(e.P.bytes()), idx: e.N}
				if len(e.K) > 0 {
					ed.key = pl.c.nameOf(byte(e.K[0]))
				}
				x := randValue(r, 1+r.Intn(6), randLayout(r))
				if k > 0 && r.Intn(3) == 0 {
					if y := likeOld(r, pl.text, pl.tree, ed); y != "" {
						x = y
						w.see("value like the old one")
					}
				}
				if k == 0 {
					x = `"new"`
				}
				pl.c.leaf['v'] = x
				ed.val = []byte(x)
				want := ""
				if len(e.R) > 0 {
					want = pl.canonOf(readTok(e.R.bytes()))
				}
				checkEdit(w, pl, e.C, want, ed)
			}
		}
	})
}

// likeOld: a new value that has much in common with the one that is there, or
// with a neighbour; "" if there is none
func likeOld(r *rand.Rand, d []byte, tree *cst, ed edit) string {
	var old *cst
	switch ed.op {
	case "Set":
		old = tree.at(ed.path)
	case "Store":
		old = tree.at(append(ed.path[:len(ed.path):len(ed.path)], ed.key))
	}
	if old == nil {
		up := tree.at(ed.path)
		if up == nil || len(up.c) == 0 {
			return ""
		}
		old = up.c[r.Intn(len(up.c))]
	}
	text, inner := string(d[old.s:old.e]), string(old.inner(d))
	return akin(r, old.t, text, inner)
}

func akin(r *rand.Rand, t byte, text, inner string) string {
	switch r.Intn(6) {
	case 0:
		return text
	case 1: // the same characters without or with quotes
		if t == 's' && len(inner) > 0 {
			if v, err := parseText([]byte(inner)); err == nil && v.s == 0 && v.e == len(inner) {
				return inner
			}
		}
		if t == 'n' || t == 'b' || t == 'z' {
			return `"` + text + `"`
		}
	case 2: // another text of the same length
		return sameLength(r, t, text)
	case 3:
		return canon([]byte(text))
	case 4:
		return "[" + text + "]"
	case 5: // of the same length, with or without quotes
		n := len(inner)
		if n > 200 {
			break
		}
		if t != 's' && n > 2 {
			return `"` + strings.Repeat("x", n-2) + `"`
		}
		return strings.Repeat("7", n+2)
	}
	return sameLength(r, t, text)
}

func sameLength(r *rand.Rand, t byte, text string) string {
	switch t {
	case 's':
		b := []byte(text)
		for i := 1; i < len(b)-1; i++ {
			b[i] = "xyz0:,]}"[r.Intn(8)]
		}
		return string(b)
	case 'n', 'z':
		b := []byte(text)
		for i := range b {
			b[i] = byte('1' + r.Intn(9))
		}
		return string(b)
	case 'b':
		if text == "true" {
			return []string{"null", "1234", `"tr"`}[r.Intn(3)]
		}
		return []string{"12345", `"fal"`, "[[1]]"}[r.Intn(3)]
	}
	if n := len(text); n >= 2 {
		return `"` + strings.Repeat("y", n-2) + `"`
	}
	return ""
}

// checkEdit: codes the edit may end with; want: the document then, without space
func checkEdit(w *worker, pl *placed, codes []int, want string, ed edit) {
	for api := 0; api < 2; api++ {
		in := clone(pl.text)
		var out []byte
		var err error
		what := ed.op
		desc := fmt.Sprintf("%s doc=%q", ed, in)
		var p string
		if api == 0 {
			p = w.call(desc, func() { out, err = editI(in, ed) })
		} else {
			what = "JO." + what
			j := jin.New(in)
			p = w.call(desc, func() { err = editJ(j, ed) })
			out = j.JSON()
		}
		bad := func(msg, got, want string) {
			rep.add(report{checkID, what + ": " + msg, map[string]interface{}{"doc": string(pl.text), "edit": ed.String(), "api": what}, got, want})
		}
		if p != "" {
			bad("panic", p, "a result or an error")
			continue
		}
		c := codeOf(err)
		w.see(what + okFail(c))
		if !inCodes(c, codes) {
			bad("outcome", fmt.Sprintf("code %d, document %q", c, out), fmt.Sprintf("one of %v", codes))
			continue
		}
		if c != codeOK {
			if !bytes.Equal(out, pl.text) {
				bad("document after an error", string(out), string(pl.text))
			}
			continue
		}
		if got := canon(out); got != want {
			bad("document", string(out), want)
			continue
		}
		if m := exactOK(pl, ed, out); m != "" {
			bad(m, string(out), "the edit only")
		}
	}
}

func okFail(c int) string {
	if c == codeOK {
		return " ok"
	}
	return " fail"
}

// exactOK: byte level promises beyond the tree
func exactOK(pl *placed, ed edit, out []byte) string {
	switch ed.op {
	case "Set":
		t := pl.tree.at(ed.path)
		want := string(pl.text[:t.s]) + string(ed.val) + string(pl.text[t.e:])
		if string(out) != want {
			return "bytes outside the value changed"
		}
		return ""
	case "SetKey":
		up := pl.tree.at(ed.path[:len(ed.path)-1])
		i := up.child(ed.path[len(ed.path)-1])
		s := up.ns[i]
		want := string(pl.text[:s]) + ed.key + string(pl.text[s+len(up.name[i]):])
		if string(out) != want {
			return "bytes outside the name changed"
		}
		return ""
	}
	after, err := parseText(out)
	if err != nil {
		return "not well formed"
	}
	up := ed.path
	var from []int
	n := 0
	switch ed.op {
	case "Store":
		t := pl.tree.at(up)
		if i := t.child(ed.key); i >= 0 {
			v := t.c[i]
			if string(out) != string(pl.text[:v.s])+string(ed.val)+string(pl.text[v.e:]) {
				return "bytes outside the value changed"
			}
			return ""
		}
		n = len(t.c)
		for i := 0; i < n; i++ {
			from = append(from, i)
		}
		from = append(from, -1)
	case "AddKeyValue", "Add":
		n = len(pl.tree.at(up).c)
		for i := 0; i < n; i++ {
			from = append(from, i)
		}
		from = append(from, -1)
	case "Insert":
		n = len(pl.tree.at(up).c)
		for i := 0; i < n; i++ {
			if i == ed.idx {
				from = append(from, -1)
			}
			from = append(from, i)
		}
	case "Delete":
		up = ed.path[:len(ed.path)-1]
		t := pl.tree.at(up)
		x := t.child(ed.path[len(ed.path)-1])
		for i := range t.c {
			if i != x {
				from = append(from, i)
			}
		}
	}
	if m := frameOK(pl.text, out, pl.tree, after, up, from); m != "" {
		return m
	}
	// the new child has exactly the given text
	for i, f := range from {
		if f < 0 {
			c := after.at(up).c[i]
			if string(out[c.s:c.e]) != string(ed.val) {
				return "text of the new value changed"
			}
		}
	}
	return ""
}

func sortedKeys(m map[string]int) []string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}
