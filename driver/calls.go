package main

// Replay of module Calls: schedules of several clients, each a goroutine, run
// in lockstep (one call at a time, iterations left open in their callbacks)
// and set free (the same calls of each client, whenever it gets to them).

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/ecoshub/jin"
)

type callRec struct {
	P int    `json:"p"`
	O string `json:"o"`
	S string `json:"s"`
	E int    `json:"e"`
	C []int  `json:"c"`
	D ints   `json:"d"`
	N ints   `json:"n"`
	X int    `json:"x"`
}

type callVec struct {
	T []struct {
		D ints    `json:"d"`
		G []vRead `json:"g"`
	} `json:"t"`
	I []ints    `json:"i"`
	E []vEdit   `json:"e"`
	H []callRec `json:"h"`
}

// callTable: what the specification says of every document clients can have
type callTable struct {
	reads map[string][]vRead
	docs  [][]byte
	edits []vEdit
}

// company: the clients of one schedule and what they share
type company struct {
	t        *callTable
	c        *conc
	lay      layout
	shared   []byte
	whole    []byte // shared with the bytes around it
	was      []byte
	sharedPs *jin.Parser
	texts    []string // of the documents, all of one length
	log      []string
}

// client makes the calls of one goroutine
type client struct {
	*company
	w       *worker
	r       *rand.Rand
	id      int
	calls   []callRec
	at      int
	turn    chan bool // lockstep: may go on
	done    chan bool
	mem     []byte // the buffer, used again and again
	buf     []byte // the document in it
	jo      *jin.JO
	ps      *jin.Parser
	keys    []string
	scheme  *jin.Scheme
	kept    []keptRes
	bad     bool
	pending *callRec // whose reply comes from an open iteration
	lastOp  string   // the last read of the buffer
	lastAt  []string
	ending  bool
}

func newCompany(r *rand.Rand, t *callTable, plain bool) *company {
	c := &company{t: t, lay: randLayout(r)}
	if plain {
		c.lay = compact
	}
	all := &tnode{t: 'a'}
	for _, d := range t.docs {
		all.c = append(all.c, readTok(d))
	}
	for i := range t.edits {
		if len(t.edits[i].W) > 0 {
			all.c = append(all.c, readTok(t.edits[i].W.bytes()))
		}
	}
	all.c = append(all.c, &tnode{t: 's', label: 'A'}, &tnode{t: 'n', label: 'B'})
	c.c = newConc(r, all, plain, true)
	c.c.leaf['e'] = `""`
	n := 0
	for _, d := range t.docs {
		var sb strings.Builder
		sb.WriteString(c.lay.gap(r))
		c.c.render(r, readTok(d), c.lay, &sb)
		c.texts = append(c.texts, sb.String())
		if sb.Len() > n {
			n = sb.Len()
		}
	}
	for i := range c.texts { // of one length: whoever looks at no more sees no difference
		c.texts[i] += strings.Repeat(" ", n-len(c.texts[i]))
	}
	c.shared, c.whole = spareBytes([]byte(c.texts[0]))
	c.was = clone(c.whole)
	return c
}

func (c *company) client(w *worker, r *rand.Rand, id int, calls []callRec) *client {
	k := &client{company: c, w: w, r: r, id: id, calls: calls}
	n := len(c.texts[0])
	k.mem = make([]byte, n, n+64)
	k.fill([]byte(c.texts[0]))
	k.jo = jin.New([]byte(c.texts[0]))
	var err error
	if p := w.call("Parse", func() { k.ps, err = jin.Parse([]byte(c.texts[0])) }); p != "" || err != nil {
		k.complain("Parse", fmt.Sprint(p, err), "a Parser")
	}
	k.keys = []string{c.c.nameOf('a')}
	k.scheme = jin.MakeScheme(k.keys[0])
	return k
}

// fill puts a document into the client's buffer
func (k *client) fill(text []byte) {
	if len(text) > cap(k.mem) {
		k.mem = make([]byte, 0, len(text)+64)
	}
	k.buf = append(k.mem[:0], text...)
	keep := k.kept[:0] // results may be parts of the document they were read from
	for _, x := range k.kept {
		if x.name != "buf" {
			keep = append(keep, x)
		}
	}
	k.kept = keep
}

func (k *client) complain(what, got, want string) {
	k.bad = true
	var log []string
	for i, x := range k.calls {
		at := ""
		if i == k.at {
			at = "  <--"
		}
		log = append(log, fmt.Sprintf("%s(%s) %d%s", x.O, x.S, x.E, at))
	}
	mode := "set free"
	if k.turn != nil {
		mode = "in lockstep"
	}
	rep.add(report{checkID, "calls: " + what, map[string]interface{}{"client": k.id, "its_calls": log, "mode": mode, "schedule": k.log, "documents": k.texts, "jo": "", "names": []string{k.c.nameOf('a'), k.c.nameOf('b')}}, got, want})
}

func (k *client) wait() {
	if k.turn != nil {
		<-k.turn
	} else if k.r.Intn(3) == 0 {
		runtime.Gosched()
	}
}

func (k *client) signal() {
	if k.turn != nil {
		k.done <- true
	}
}

// run makes the client's calls; within a callback (inside) until its
// iteration goes on (true) or ends (false)
func (k *client) run(inside bool) bool {
	for k.at < len(k.calls) && !k.bad {
		x := &k.calls[k.at]
		k.wait()
		if x.O == "Step" || x.O == "Stop" {
			if !inside {
				k.complain("an iteration has ended too early", "", "")
				k.at++
				k.signal()
				break
			}
			k.at++
			k.pending = x
			return x.O == "Step"
		}
		if x.O == "Begin" || x.O == "Walk" {
			k.at++
			k.iterate(x)
			continue
		}
		k.exec(x)
		k.stays()
		k.at++
		k.signal()
	}
	if !inside {
		for ; k.bad && k.at < len(k.calls); k.at++ {
			k.wait()
			k.signal()
		}
	}
	k.ending = true
	return false
}

// reply of an open iteration to the pending call
func (k *client) answer(name, val string, gone bool) {
	x := k.pending
	k.pending = nil
	if x == nil {
		return
	}
	k.w.see(x.O)
	switch {
	case x.X == 1 && !gone:
		k.complain("one callback too many", name+" "+val, "the end of the iteration")
	case x.X == 0 && gone:
		k.complain("the iteration ends", "", "a callback with "+string(x.D.bytes()))
	case x.X == 0:
		want := k.c.canonOf(readTok(x.D.bytes()))
		if len(want) > 1 && want[0] == '"' {
			want = want[1 : len(want)-1]
		} else {
			val = canon([]byte(val))
		}
		wantName := strings.Join(k.c.pathOf(x.N.bytes()), "/")
		if val != want || name != wantName {
			k.complain("item of "+x.O, name+" = "+val, wantName+" = "+want)
		}
	}
	k.signal()
}

func (k *client) subject(src string) *subject {
	switch src {
	case "shared":
		return &subject{api: 'I', d: k.shared}
	case "sharedparser":
		return &subject{api: 'P', d: []byte(k.texts[0]), ps: k.sharedPs}
	case "buf":
		return &subject{api: 'I', d: k.buf}
	case "jo":
		return &subject{api: 'J', jo: k.jo, d: clone(k.jo.JSON())}
	}
	return &subject{api: 'P', ps: k.ps, d: clone(k.ps.JSON())}
}

func (k *client) iterate(x *callRec) {
	s := k.subject(x.S)
	k.pending = x
	k.ending = false
	doc := canon(s.d)
	n, kind := 0, k.r.Intn(2)
	stopped := false
	type given struct {
		k, v   []byte
		ks, vs string
	}
	var mine []given
	cb := func(name string, v []byte, key []byte) (bool, error) {
		n++
		mine = append(mine, given{key, v, string(key), string(v)})
		if k.bad {
			return false, nil
		}
		k.answer(name, string(v), false)
		on := !k.bad && k.run(true)
		for _, g := range mine {
			if string(g.k) != g.ks || string(g.v) != g.vs {
				k.complain("what a callback was given changed", string(g.k)+" = "+string(g.v), g.ks+" = "+g.vs)
				break
			}
		}
		if on && !k.bad {
			return true, nil
		}
		stopped = true
		if kind == 0 {
			return false, nil
		}
		return true, errSentinel
	}
	var err error
	p := k.w.call(x.O+" on "+string(s.d), func() {
		switch {
		case x.O == "Walk" && s.api == 'J':
			err = s.jo.Walk(func(key string, v []byte, path []string) (bool, error) { return cb(strings.Join(path, "/"), v, nil) })
		case x.O == "Walk":
			err = jin.Walk(s.d, func(key string, v []byte, path []string) (bool, error) { return cb(strings.Join(path, "/"), v, nil) })
		case doc[0] == '[' && s.api == 'J':
			err = s.jo.IterateArray(func(v []byte) (bool, error) { return cb(fmt.Sprint(n), v, nil) })
		case doc[0] == '[':
			err = jin.IterateArray(s.d, func(v []byte) (bool, error) { return cb(fmt.Sprint(n), v, nil) })
		case s.api == 'J':
			err = s.jo.IterateKeyValue(func(key, v []byte) (bool, error) { return cb(string(key), v, key) })
		default:
			err = jin.IterateKeyValue(s.d, func(key, v []byte) (bool, error) { return cb(string(key), v, key) })
		}
	})
	code := codeOK
	if stopped && kind == 1 {
		code = codeSentinel
	}
	if p != "" {
		k.complain("panic", p, "return")
	} else if c := iterCode(err); !k.bad && c != code && !((doc == "{}" || doc == "[]") && c == 20) {
		k.complain("outcome of "+x.O, fmt.Sprint(c), fmt.Sprint(code))
	}
	if k.pending != nil {
		k.answer("", "", true)
	}
	k.stays()
}

func (k *client) keep(src string, b []byte) {
	if len(k.kept) < 60 {
		k.kept = append(k.kept, keptRes{src, b, string(b)})
	}
}

// stays: neither the shared document nor what the client got earlier changes
func (k *client) stays() {
	if k.bad {
		return
	}
	if k.turn != nil && string(k.whole) != string(k.was) {
		k.complain("the shared document changed", string(k.whole), string(k.was))
	}
	for i := range k.kept {
		if x := &k.kept[i]; string(x.b) != x.copy {
			k.complain("an earlier result ("+x.name+") changed", string(x.b), x.copy)
			return
		}
	}
}

// exec makes one call that is no iteration
func (k *client) exec(x *callRec) {
	k.w.see(x.O + " " + x.S)
	want := k.c.canonOf(readTok(x.D.bytes()))
	is := func(what, got string) {
		if !k.bad && got != want {
			k.complain(what, got, want)
		}
	}
	guard := func(what string, f func()) {
		if p := k.w.call(what, f); p != "" {
			k.complain(what+" panics", p, "return")
		}
	}
	switch x.O {
	case "Refill":
		for i := range k.texts {
			if canon([]byte(k.texts[i])) == want {
				k.fill([]byte(k.texts[i]))
			}
		}
	case "Look":
		k.look(x, want)
	case "Edit":
		e := &k.t.edits[x.E-1]
		ed := edit{op: e.O, path: k.c.pathOf(e.P.bytes()), idx: e.N}
		if len(e.K) > 0 {
			ed.key = k.c.nameOf(byte(e.K[0]))
		}
		if len(e.W) > 0 {
			ed.val = []byte(k.c.canonOf(readTok(e.W.bytes())))
		}
		var out []byte
		var err error
		guard(ed.String(), func() {
			switch x.S {
			case "buf":
				out, err = editI(k.buf, ed)
			case "jo":
				k.keep("jo", k.jo.JSON())
				err = editJ(k.jo, ed)
				out = k.jo.JSON()
			case "par":
				k.keep("par", k.ps.JSON())
				err = editP(k.ps, ed)
				out = k.ps.JSON()
			}
		})
		if k.bad {
			return
		}
		c := codeOf(err)
		codes := x.C
		if x.S == "par" && !inCodes(codeOK, codes) {
			codes = append([]int{8, 7, 3, 2}, codes...)
			if ed.op == "SetKey" {
				codes = anyCode
			}
		}
		if !inCodes(c, codes) {
			k.complain("outcome of "+ed.String(), fmt.Sprint(c), fmt.Sprint(codes))
			return
		}
		is("document after "+ed.String(), canon(out))
		if x.S == "buf" && c == codeOK {
			k.keep("edited", out)
			k.fill(out)
		}
	case "Build":
		k.build(readTok(x.D.bytes()), want)
	case "Key":
		key := k.c.pathOf(k.t.edits[x.E-1].P.bytes())[0]
		have := -1
		for i, y := range k.keys {
			if y == key {
				have = i
			}
		}
		var did bool
		var got []string
		guard("Scheme", func() {
			if have >= 0 {
				did = k.scheme.Remove(key)
			} else {
				did = k.scheme.Add(key)
			}
			got = k.scheme.GetCurrentKeys()
		})
		if have >= 0 {
			k.keys = append(append([]string{}, k.keys[:have]...), k.keys[have+1:]...)
		} else {
			k.keys = append(append([]string{}, k.keys...), key)
		}
		d := readTok(x.D.bytes())
		var wantKeys []string
		for _, n := range d.name {
			wantKeys = append(wantKeys, k.c.nameOf(n))
		}
		if !did || !sameStrings(got, wantKeys) || !sameStrings(got, k.keys) {
			k.complain("keys of a Scheme", fmt.Sprint(did, got), fmt.Sprint(wantKeys))
		}
	case "Project":
		var out []byte
		var err error
		guard("MutateJson", func() { out, err = k.scheme.MutateJson(k.shared) })
		if err != nil {
			k.complain("MutateJson", err.Error(), want)
			return
		}
		is("MutateJson", canon(out))
		k.keep("projected", out)
	default:
		panic("call " + x.O)
	}
}

// build asks a builder for a document
func (k *client) build(d *tnode, want string) {
	var keys, vals []string
	var vs []interface{}
	var bs [][]byte
	m := map[string]string{}
	for i, c := range d.c {
		n, v := k.c.nameOf(d.name[i]), k.c.canonOf(c)
		keys, vals, vs, bs = append(keys, n), append(vals, v), append(vs, v), append(bs, []byte(v))
		m[n] = v
	}
	var out []byte
	f := []string{"MakeJsonString", "MakeJson", "MakeArrayString", "MakeArray", "MakeArrayBytes", "MakeJsonWithMap", "Scheme.MakeJson", "Scheme.MakeJsonString"}[k.r.Intn(8)]
	p := k.w.call(f, func() {
		switch f {
		case "MakeJsonString":
			out = jin.MakeJsonString(keys, vals)
		case "MakeJson":
			out = jin.MakeJson(keys, vs)
		case "MakeArrayString":
			out = jin.MakeArrayString(vals)
		case "MakeArray":
			out = jin.MakeArray(vs...)
		case "MakeArrayBytes":
			out = jin.MakeArrayBytes(bs...)
		case "MakeJsonWithMap":
			out = jin.MakeJsonWithMap(m)
		case "Scheme.MakeJson":
			out = jin.MakeScheme(keys...).MakeJson(vs...)
		case "Scheme.MakeJsonString":
			out = jin.MakeScheme(keys...).MakeJsonString(vals...)
		}
	})
	arr := "[" + strings.Join(vals, ",") + "]"
	got := canon(out)
	ok := got == want
	if strings.HasPrefix(f, "MakeArray") {
		ok = got == canon([]byte(arr))
	}
	if f == "MakeJsonWithMap" { // in any order
		ok = ok || got == canon([]byte(`{"`+keys[1]+`":`+vals[1]+`,"`+keys[0]+`":`+vals[0]+`}`))
	}
	if p != "" || !ok {
		k.complain(f, p+string(out), want)
		return
	}
	k.keep(f, out)
}

// look reads here and there in the document
func (k *client) look(x *callRec, want string) {
	s := k.subject(x.S)
	if got := canon(s.d); got != want {
		k.complain("document of "+x.S, got, want)
		return
	}
	tree, err := parseText(s.d)
	if err != nil {
		panic("lost: " + string(s.d))
	}
	pl := &placed{c: k.c, w: &wrapper{}, text: s.d, tree: tree}
	reads, ok := k.t.reads[string(x.D.bytes())]
	if !ok {
		panic("no reads for " + string(x.D.bytes()))
	}
	ops := readsOf("C02")[s.api]
	if s.api == 'P' {
		ops = []string{"Get", "GetString", "GetNew"}
	}
	op := ""
	for n := 0; n < 9 && !k.bad; n++ {
		g := &reads[k.r.Intn(len(reads))]
		y := spot{path: pl.path(g.P.bytes()), codes: g.C, t: g.T}
		if y.ok() {
			describe(pl, &y, g.V.bytes())
		}
		op = pick(k.r, ops)
		if y.ok() && typedOnly(op) {
			op = "Get"
		}
		if n == 0 && x.S == "buf" && k.lastOp != "" { // the read before once more: the document may be another now
			for i := range reads {
				if z := pl.path(reads[i].P.bytes()); samePath(z, k.lastAt) {
					g = &reads[i]
					y = spot{path: z, codes: g.C, t: g.T}
					if y.ok() {
						describe(pl, &y, g.V.bytes())
					}
					if op = k.lastOp; y.ok() && typedOnly(op) {
						op = "Get"
					}
					k.w.see("the last read again")
				}
			}
		}
		st := stopper{}
		if strings.HasPrefix(op, "Iterate") {
			st = stopper{at: k.r.Intn(4), kind: k.r.Intn(3)}
		}
		a := s.one(k.w, op, y.path, nil, st)
		if m := verdict(op, s.api, len(s.d), &y, nil, nil, st, a); m != "" {
			k.complain(fmt.Sprintf("%s at %q of %s %q", op, y.path, x.S, s.d), fmt.Sprintf("code %d, %s", a.code, a.repr), m)
		}
	}
	if k.bad {
		return
	}
	// results kept, and whole documents
	g := &reads[k.r.Intn(len(reads))]
	p := pl.path(g.P.bytes())
	var b []byte
	var e error
	k.w.call("Get", func() {
		switch s.api {
		case 'I':
			b, e = jin.Get(s.d, p...)
			if x.S == "buf" {
				k.lastOp, k.lastAt = pick(k.r, []string{op, "Get"}), append([]string{}, p...)
			}
		case 'J':
			b, e = k.jo.Get(p...)
		case 'P':
			b, e = s.ps.Get(p...)
		}
	})
	if e == nil && b != nil {
		k.keep(x.S, b)
	}
	switch s.api {
	case 'I':
		f := k.r.Intn(3)
		k.w.call("Flatten", func() {
			switch f {
			case 0:
				b = jin.Flatten(s.d)
			case 1:
				b = jin.Flatten(jin.Indent(s.d))
			case 2:
				b = jin.Indent(s.d)
			}
		})
		if canon(b) != want {
			k.complain("Flatten or Indent", string(b), want)
		}
		if f != 2 || len(b) != len(s.d) {
			k.keep("formatted", b)
		}
	case 'P':
		var t string
		k.w.call("Tree", func() { t = s.ps.Tree() })
		if m := sameTree(t, treeOf(tree)); m != "" {
			k.complain("Tree", t, m)
		}
		if string(s.ps.JSON()) != string(s.d) {
			k.complain("JSON of the Parser", string(s.ps.JSON()), string(s.d))
		}
	}
}

func typedOnly(op string) bool {
	for _, t := range typedOps {
		if t == op && op != "GetString" {
			return true
		}
	}
	return false
}

func replayCalls(file string, seed int64, free int) {
	t := &callTable{reads: map[string][]vRead{}}
	var lines [][]byte
	readLines(file, func(l []byte) {
		if len(l) > 5 && string(l[:4]) == `{"h"` {
			lines = append(lines, append([]byte(nil), l...))
			return
		}
		v := &callVec{}
		if err := json.Unmarshal(l, v); err != nil {
			panic(fmt.Sprintf("%v in %.200s", err, l))
		}
		t.docs, t.edits = nil, v.E
		for _, d := range v.I {
			t.docs = append(t.docs, d.bytes())
		}
		for _, d := range v.T {
			t.reads[string(d.D.bytes())] = d.G
		}
	})
	if len(t.docs) == 0 || len(lines) == 0 {
		panic("no table or no schedules")
	}
	var wg sync.WaitGroup
	var next int64 = -1
	var calls, steps int64
	for g := 0; g < runtime.NumCPU(); g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			ws := []*worker{newWorker(), newWorker(), newWorker(), newWorker()}
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= len(lines) {
					break
				}
				v := &callVec{}
				if err := json.Unmarshal(lines[i], v); err != nil {
					panic(err)
				}
				r := rand.New(rand.NewSource(seed*1000003 + int64(i)))
				atomic.AddInt64(&steps, int64(len(v.H)))
				schedule(ws, r, t, v.H, i%7 == 0, true)
				for f := 0; f < free; f++ {
					schedule(ws, r, t, v.H, false, false)
				}
			}
			for _, w := range ws {
				atomic.AddInt64(&calls, w.calls)
				tally(w)
			}
		}()
	}
	wg.Wait()
	bump("lines", int64(len(lines)))
	bump("calls", calls)
	note("traces", int64(len(lines)))
	note("steps", steps)
	note("documents", len(t.reads))
}

// schedule runs one: in the given order, or each client at its own pace
func schedule(ws []*worker, r *rand.Rand, t *callTable, h []callRec, plain, lockstep bool) {
	c := newCompany(r, t, plain)
	n := 0
	for i := range h {
		if h[i].P > n {
			n = h[i].P
		}
		c.log = append(c.log, fmt.Sprintf("client %d: %s(%s) %d", h[i].P, h[i].O, h[i].S, h[i].E))
	}
	var err error
	if p := ws[0].call("Parse", func() { c.sharedPs, err = jin.Parse([]byte(c.texts[0])) }); p != "" || err != nil {
		rep.add(report{checkID, "Parse", c.texts[0], fmt.Sprint(p, err), "a Parser"})
		return
	}
	clients := make([]*client, n)
	for i := range clients {
		var mine []callRec
		for _, x := range h {
			if x.P == i+1 {
				mine = append(mine, x)
			}
		}
		clients[i] = c.client(ws[i], rand.New(rand.NewSource(r.Int63())), i+1, mine)
	}
	var wg sync.WaitGroup
	start := make(chan bool)
	for _, k := range clients {
		if lockstep {
			k.turn, k.done = make(chan bool), make(chan bool)
		}
		wg.Add(1)
		go func(k *client) {
			defer wg.Done()
			defer func() {
				if x := recover(); x != nil {
					strayed(x, fmt.Sprint(c.log))
					finish()
				}
			}()
			<-start
			k.run(false)
			k.stays()
		}(k)
	}
	close(start)
	if lockstep {
		for _, x := range h {
			k := clients[x.P-1]
			k.turn <- true
			<-k.done
		}
	}
	wg.Wait()
	if string(c.whole) != string(c.was) {
		clients[0].complain("the shared document changed", string(c.whole), string(c.was))
	}
}
