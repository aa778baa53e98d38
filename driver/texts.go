package main

// Replay of the texts Grammar emits, byte for byte as TLC wrote them.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"strconv"
	"strings"

	"github.com/ecoshub/jin"
)

type tRead struct {
	P []ints `json:"p"`
	C []int  `json:"c"`
	T string `json:"t"`
	X ints   `json:"x"`
	K []ints `json:"k"`
	V []ints `json:"v"`
}

type tEdit struct {
	O string `json:"o"`
	P []ints `json:"p"`
	K ints   `json:"k"`
	N int    `json:"n"`
	C []int  `json:"c"`
	R ints   `json:"r"`
}

type tVector struct {
	D   ints    `json:"d"`
	Fin int     `json:"fin"`
	U   int     `json:"u"`
	OK  int     `json:"ok"`
	W   ints    `json:"w"`
	G   []tRead `json:"g"`
	M   []tRead `json:"m"`
	E   []tEdit `json:"e"`
	F   ints    `json:"f"`
	I   ints    `json:"i"`
	L   []struct {
		P []ints `json:"p"`
		V ints   `json:"v"`
	} `json:"l"`
	T []struct {
		N int  `json:"n"`
		L ints `json:"l"`
	} `json:"t"`
}

func strs(x []ints) []string {
	o := make([]string, len(x))
	for i := range x {
		o[i] = string(x[i].bytes())
	}
	return o
}

func replayTexts(file string, seed int64) {
	parallel(file, seed, func(w *worker, r *rand.Rand, raw []byte) {
		v := &tVector{}
		if err := json.Unmarshal(raw, v); err != nil {
			panic(err)
		}
		text := v.D.bytes()
		if v.Fin == 0 {
			checkCut(w, text, v.U == 1, v.OK == 1)
			return
		}
		var spots []spot
		for _, g := range v.G {
			spots = append(spots, spot{path: strs(g.P), codes: g.C, t: g.T, text: string(g.X.bytes()), names: strs(g.K), texts: strs(g.V)})
		}
		for _, g := range v.M {
			spots = append(spots, spot{path: strs(g.P), codes: g.C})
		}
		switch checkID {
		case "C19":
			checkFormat(w, text, string(v.F.bytes()), string(v.I.bytes()))
		case "C22":
			var ls []string
			for _, l := range v.L {
				p := strs(l.P)
				k := ""
				if len(p) > 0 {
					k = p[len(p)-1]
				}
				ls = append(ls, leafRepr(k, string(l.V.bytes()), p))
			}
			c := canon(text)
			checkWalk(w, text, ls, c == "{}" || c == "[]")
		case "C09":
			checkFrames(w, text, spots)
		default:
			checkSpots(w, checkID, text, spots)
			if checkID == "C12" {
				var ls []line
				for _, t := range v.T {
					ls = append(ls, line{t.N, string(t.L.bytes())})
				}
				checkTree(w, text, ls)
			}
			if checkID == "C15" {
				for i := range spots {
					checkParseArray(w, &spots[i])
				}
			}
			if checkID == "C02" {
				checkMissEdits(w, text, spots)
			}
		}
		if len(v.E) > 0 {
			tree, err := parseText(text)
			if err != nil {
				panic("not well formed for the driver: " + string(text))
			}
			pl := &placed{text: text, tree: tree}
			for i := range v.E {
				e := &v.E[i]
				ed := edit{op: e.O, path: strs(e.P), key: string(e.K.bytes()), idx: e.N, val: v.W.bytes()}
				checkEdit(w, pl, e.C, string(e.R.bytes()), ed)
			}
		}
	})
}

// checkMissEdits: edits below or at a path that addresses nothing
func checkMissEdits(w *worker, text []byte, spots []spot) {
	for i := range spots {
		x := &spots[i]
		if x.ok() {
			continue
		}
		for _, op := range []string{"Set", "SetKey", "AddKeyValue", "Add", "Insert", "Delete"} {
			ed := edit{op: op, path: x.path, key: "zz", val: []byte("1")}
			codes := x.codes
			if op == "SetKey" {
				codes = anyCode
			}
			checkEdit(w, &placed{text: text}, codes, "", ed)
		}
	}
}

var anyCode = []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20}

// checkCut: an unfinished document
func checkCut(w *worker, text []byte, unbalanced, fine bool) {
	for _, pr := range probes {
		for _, path := range probePaths {
			what := pr.name
			w.see(what)
			p := w.call(what+" on "+string(text), func() { pr.f(clone(text), path) })
			if p != "" {
				rep.add(report{checkID, what, map[string]interface{}{"doc": string(text), "path": path}, p, "a result or an error"})
			}
			if pathless[pr.name] {
				break
			}
		}
	}
	if fine {
		var err error
		w.call("Parse", func() { _, err = jin.Parse(clone(text)) })
		if err != nil {
			rep.add(report{checkID, "Parse of a well-formed text", string(text), err.Error(), "no error"})
		}
	}
	if unbalanced {
		var err error
		w.call("Parse", func() { _, err = jin.Parse(clone(text)) })
		if err == nil {
			rep.add(report{checkID, "Parse of an unbalanced text", string(text), "no error", "an error"})
		}
	}
}

// checkFrames: nothing a call was given changes, and no earlier result does
func checkFrames(w *worker, text []byte, spots []spot) {
	doc, whole := spareBytes(text)
	before := clone(whole)
	type kept struct {
		what string
		b    []byte
		copy string
	}
	var keep []kept
	s := &subject{api: 'I', d: doc}
	after := func(what string, p, pw []string) {
		if !bytes.Equal(before, whole) {
			rep.add(report{checkID, "document changed by " + what, map[string]interface{}{"doc": string(text), "path": p}, string(whole), string(before)})
			copy(whole, before)
		}
		for i, x := range pw {
			want := "spare"
			if i < len(p) {
				want = p[i]
			}
			if x != want {
				rep.add(report{checkID, "path changed by " + what, map[string]interface{}{"doc": string(text), "path": p}, strings.Join(pw, " "), want})
			}
		}
		for i := range keep {
			if string(keep[i].b) != keep[i].copy {
				rep.add(report{checkID, "result of " + keep[i].what + " changed by " + what, map[string]interface{}{"doc": string(text), "path": p}, string(keep[i].b), keep[i].copy})
				keep[i].copy = string(keep[i].b)
			}
		}
		if len(keep) > 24 {
			keep = keep[len(keep)-12:]
		}
	}
	ops := cat(getOps, typedOps[1:], typeOps, enumOps[:5], iterOps)
	for i := range spots {
		x := &spots[i]
		for _, op := range ops {
			p, pw := spare(x.path)
			s.one(w, op, p, nil, stopper{at: i % 3, kind: i % 2})
			after(op, x.path, pw)
		}
		p, pw := spare(x.path)
		var b []byte
		var err error
		w.call("Get", func() { b, err = jin.Get(doc, p...) })
		if err == nil {
			keep = append(keep, kept{"Get", b, string(b)})
		}
		after("Get", x.path, pw)
		for _, op := range allEdits {
			p, pw := spare(x.path)
			val, valWhole := spareBytes([]byte(`{"new":1}`))
			vb := clone(valWhole)
			key := "zz"
			if len(x.names) > 0 && op == "Store" {
				key = x.names[0]
			}
			var out []byte
			w.call(op, func() { out, err = editI(doc, edit{op, p, key, 0, val}) })
			if !bytes.Equal(valWhole, vb) {
				rep.add(report{checkID, "value changed by " + op, map[string]interface{}{"doc": string(text), "path": x.path}, string(valWhole), string(vb)})
			}
			after(op, x.path, pw)
			if err != nil && !bytes.Equal(out, text) {
				rep.add(report{checkID, "document after a failed " + op, map[string]interface{}{"doc": string(text), "path": x.path}, string(out), string(text)})
			}
			if err == nil && out != nil {
				keep = append(keep, kept{op, out, string(out)})
			}
		}
	}
	for _, f := range []string{"Flatten", "Indent", "Walk"} {
		w.call(f, func() {
			switch f {
			case "Flatten":
				b := jin.Flatten(doc)
				keep = append(keep, kept{f, b, string(b)})
			case "Indent":
				b := jin.Indent(doc)
				keep = append(keep, kept{f, b, string(b)})
			default:
				jin.Walk(doc, func(k string, v []byte, p []string) (bool, error) { return true, nil })
			}
		})
		after(f, nil, nil)
	}
	after("everything", nil, nil)
}

// replayReads: what MCJin says about each small document, read from many
// concrete ones that hold it
func replayReads(file string, seed int64, reps int) {
	parallel(file, seed, func(w *worker, r *rand.Rand, raw []byte) {
		v := decode(raw)
		d := readTok(v.D.bytes())
		whole := checkID == "C22" // these see the document, not a part of it
		for k := 0; k < reps; k++ {
			pl := place(r, d, k, false, !whole)
			var spots []spot
			for i := range v.G {
				g := &v.G[i]
				x := spot{path: pl.path(g.P.bytes()), codes: g.C, t: g.T}
				if x.ok() {
					describe(pl, &x, g.V.bytes())
				}
				spots = append(spots, x)
			}
			switch checkID {
			case "C22":
				var ls []string
				for _, l := range v.L {
					p := pl.c.pathOf(l.P.bytes())
					t := pl.c.leaf[l.V[1:].bytes()[0]]
					if t[0] == '"' {
						t = t[1 : len(t)-1]
					}
					ls = append(ls, leafRepr(p[len(p)-1], t, p))
				}
				c := canon(pl.text)
				checkWalk(w, pl.text, ls, c == "{}" || c == "[]")
			case "C09":
				checkFrames(w, pl.text, spots)
			default:
				checkSpots(w, checkID, pl.text, spots)
				if checkID == "C12" && len(pl.w.path) == 0 {
					var ls []line
					for _, t := range v.T {
						ls = append(ls, line{t[0], pl.c.nameOf(byte(t[1]))})
					}
					checkTree(w, pl.text, ls)
				}
				if checkID == "C15" {
					for i := range spots {
						checkParseArray(w, &spots[i])
					}
				}
				if checkID == "C02" {
					checkMissEdits(w, pl.text, spots)
				}
			}
		}
	})
}

// describe: the concrete text of the value with the given tokens, at x.path
func describe(pl *placed, x *spot, tokens []byte) {
	t := pl.tree.at(x.path)
	tok := readTok(tokens)
	if t == nil || canon(pl.text[t.s:t.e]) != pl.c.canonOf(tok) {
		panic(fmt.Sprintf("the driver lost %q in %q", x.path, pl.text))
	}
	x.text = string(t.inner(pl.text))
	if len(x.path) == 0 {
		x.text = string(pl.text)
	}
	for i, c := range t.c {
		n := strconv.Itoa(i)
		if t.t == 'o' {
			n = pl.c.nameOf(tok.name[i])
		}
		x.names = append(x.names, n)
		x.texts = append(x.texts, string(c.inner(pl.text)))
	}
}
