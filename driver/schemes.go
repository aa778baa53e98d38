package main

// Replay of module Scheme: histories of Schemes, and projections of documents.

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"

	"github.com/ecoshub/jin"
)

type sVec struct {
	I []ints `json:"i"`
	H []struct {
		S int    `json:"s"`
		O string `json:"o"`
		K ints   `json:"k"`
		N int    `json:"n"`
		C ints   `json:"c"`
		G ints   `json:"g"`
	} `json:"h"`
	// projections
	K ints `json:"k"`
	D ints `json:"d"`
	M ints `json:"m"`
	A int  `json:"a"`
	X int  `json:"x"`
}

func schemeNames(r *rand.Rand, plain bool) *conc {
	c := &conc{name: map[byte]string{}, leaf: map[byte]string{}}
	if plain {
		c.name['a'], c.name['b'], c.name['c'] = "a", "b", "c"
		return c
	}
	for {
		c.name['a'], c.name['b'], c.name['c'] = randName(r), randName(r), randName(r)
		switch r.Intn(4) {
		case 0: // some joined are as others joined
			p, q := pick(r, namePool), pick(r, namePool)
			if r.Intn(2) == 0 {
				p, q = "p", "q"
			}
			s := pick(r, joints)
			n := [][]string{{p + s + q, p, q + s + p}, {q + s + p, p + s + q + s + p, p + s + q}, {p, p + s + q, q}}[r.Intn(3)]
			r.Shuffle(3, func(i, j int) { n[i], n[j] = n[j], n[i] })
			c.name['a'], c.name['b'], c.name['c'] = n[0], n[1], n[2]
		case 1:
			c.name['a'], c.name['b'] = relatedNames(r)
			c.name['c'] = relative(r, c.name['a'])
		}
		if c.name['a'] != c.name['b'] && c.name['a'] != c.name['c'] && c.name['b'] != c.name['c'] {
			return c
		}
	}
}

func replaySchemes(file string, seed int64, reps int) {
	parallel(file, seed, func(w *worker, r *rand.Rand, raw []byte) {
		v := &sVec{}
		if err := json.Unmarshal(raw, v); err != nil {
			panic(err)
		}
		for k := 0; k < reps; k++ {
			if len(v.H) > 0 {
				schemeHistory(w, r, v, k == 0)
			} else {
				schemeProject(w, r, v, k == 0)
			}
		}
	})
}

func sameStrings(a, b []string) bool { return listRepr(a) == listRepr(b) && len(a) == len(b) }

func schemeHistory(w *worker, r *rand.Rand, v *sVec, plain bool) {
	c := schemeNames(r, plain)
	list := func(b ints) []string { return c.pathOf(b.bytes()) }
	log := []string{}
	bad := false
	complain := func(what, got, want string) {
		bad = true
		rep.add(report{checkID, "Scheme: " + what, append([]string{}, log...), got, want})
	}
	n := len(v.I)
	ss := make([]*jin.Scheme, n)
	cur, orig := make([][]string, n), make([][]string, n)
	// every Scheme is made from the same memory of the caller, who then uses it
	// for something else
	mem := make([]string, 12)
	type held struct {
		what string
		list []string
		copy []string
	}
	var kept []held
	for i := range ss {
		ks := list(v.I[i])
		copy(mem, ks)
		ss[i] = jin.MakeScheme(mem[:len(ks)]...)
		cur[i], orig[i] = ks, ks
		log = append(log, fmt.Sprintf("scheme %d: MakeScheme(%q)", i+1, ks))
	}
	for i := range mem {
		mem[i] = "scribble"
	}
	memWas := append([]string{}, mem...)
	for j := range v.H {
		h := &v.H[j]
		s := ss[h.S-1]
		key := ""
		if len(h.K) > 0 {
			key = list(h.K)[0]
		}
		log = append(log, fmt.Sprintf("scheme %d: %s(%q)", h.S, h.O, key))
		var got bool
		p := w.call(fmt.Sprint(log), func() {
			switch h.O {
			case "Add":
				got = s.Add(key)
			case "Remove":
				got = s.Remove(key)
			case "Save":
				s.Save()
			case "Restore":
				s.Restore()
			}
		})
		if p != "" {
			complain("panic", p, "return")
			return
		}
		w.see(fmt.Sprint(h.O, " ", got))
		if got != (h.N == 1) {
			complain("reply of "+h.O, fmt.Sprint(got), fmt.Sprint(h.N == 1))
		}
		cur[h.S-1], orig[h.S-1] = list(h.C), list(h.G)
		for i := range ss {
			a, b := ss[i].GetCurrentKeys(), ss[i].GetOriginalKeys()
			if !sameStrings(a, cur[i]) {
				complain(fmt.Sprintf("current keys of scheme %d", i+1), q(a), q(cur[i]))
			}
			if !sameStrings(b, orig[i]) {
				complain(fmt.Sprintf("original keys of scheme %d", i+1), q(b), q(orig[i]))
			}
			kept = append(kept, held{fmt.Sprintf("keys of scheme %d after step %d", i+1, j+1), a, append([]string{}, cur[i]...)},
				held{fmt.Sprintf("original keys of scheme %d after step %d", i+1, j+1), b, append([]string{}, orig[i]...)})
		}
		if bad {
			return
		}
		if r.Intn(3) == 0 || j == len(v.H)-1 {
			i := r.Intn(n)
			schemeMake(w, r, ss[i], cur[i], complain)
		}
	}
	for i := range kept {
		if !sameStrings(kept[i].list, kept[i].copy) {
			complain(kept[i].what+" handed out earlier", q(kept[i].list), q(kept[i].copy))
			return
		}
	}
	if !sameStrings(mem, memWas) {
		complain("the caller's slice", q(mem), q(memWas))
	}
}

// schemeMake: documents built from the current keys
func schemeMake(w *worker, r *rand.Rand, s *jin.Scheme, keys []string, complain func(what, got, want string)) {
	for _, d := range []int{0, 0, 1, -1} {
		m := len(keys) + d
		if m < 0 {
			continue
		}
		var xs []string
		var vs []interface{}
		var parts []string
		for i := 0; i < m; i++ {
			x := pick(r, strPool)
			if i < len(keys) {
				parts = append(parts, `"`+keys[i]+`":`)
			}
			if r.Intn(3) == 0 {
				n := r.Intn(2000) - 1000
				x = fmt.Sprint(n)
				vs = append(vs, n)
			} else {
				vs = append(vs, x)
			}
			xs = append(xs, x)
			if i < len(keys) {
				parts[i] += specFormat(x)
			}
		}
		want := "{" + strings.Join(parts, ",") + "}"
		for _, f := range []string{"MakeJson", "MakeJsonString"} {
			var out []byte
			w.see(f)
			p := w.call(f, func() {
				if f == "MakeJson" {
					out = s.MakeJson(vs...)
				} else {
					out = s.MakeJsonString(xs...)
				}
			})
			switch {
			case p != "":
				complain(f+" panics", p, want)
			case d != 0 && out != nil:
				complain(fmt.Sprintf("%s of %d values for the keys %q", f, m, keys), string(out), "nil")
			case d == 0 && canon(out) != canon([]byte(want)):
				complain(fmt.Sprintf("%s of %q for the keys %q", f, xs, keys), string(out), want)
			}
		}
	}
}

func schemeProject(w *worker, r *rand.Rand, v *sVec, plain bool) {
	d := readTok(v.D.bytes())
	c := schemeNames(r, plain)
	used := map[string]bool{}
	d.leaves(func(l *tnode) { c.addLeaf(r, l, plain, used) })
	c.leaf['e'] = `""`
	l := randLayout(r)
	if plain {
		l = compact
	}
	var sb strings.Builder
	if !plain {
		sb.WriteString(l.gap(r))
	}
	c.render(r, d, l, &sb)
	sb.WriteString(l.gap(r))
	text := sb.String()
	keys := c.pathOf(v.K.bytes())
	want := c.canonOf(readTok(v.M.bytes()))
	doc, whole := spareBytes([]byte(text))
	before := clone(whole)
	// the keys come by one of three ways
	s := jin.MakeScheme(keys...)
	switch r.Intn(3) {
	case 1:
		s = jin.MakeScheme()
		for _, k := range keys {
			s.Add(k)
		}
	case 2:
		s.Add("not there at all")
		s.Save()
		s.Remove("not there at all")
	}
	say := func(what, got, wanted string) {
		rep.add(report{checkID, "Scheme." + what, map[string]interface{}{"keys": keys, "doc": text}, got, wanted})
	}
	tree, err := parseText([]byte(text))
	if err != nil {
		panic("not well formed for the driver: " + text)
	}
	for _, f := range []string{"MutateJson", "MutateJsonAbs", "Check", "CheckAbs"} {
		var out []byte
		var e error
		var ok bool
		p := w.call(f, func() {
			switch f {
			case "MutateJson":
				out, e = s.MutateJson(doc)
			case "MutateJsonAbs":
				out, e = s.MutateJsonAbs(doc)
			case "Check":
				ok = s.Check(doc)
			case "CheckAbs":
				ok = s.CheckAbs(doc)
			}
		})
		if p != "" {
			say(f, p, "return")
			continue
		}
		w.see(fmt.Sprint(f, " ", ok || (e == nil && out != nil)))
		if string(before) != string(whole) {
			say(f+" changed its input", string(whole), string(before))
			copy(whole, before)
		}
		switch f {
		case "MutateJson", "MutateJsonAbs":
			if f == "MutateJsonAbs" && v.A == 0 {
				if e == nil {
					say(f, string(out), "an error")
				}
				continue
			}
			if e != nil || canon(out) != want {
				say(f, fmt.Sprintf("%s, error %v", out, e), want)
				continue
			}
			// the values' exact text
			t, perr := parseText(out)
			if perr != nil {
				say(f, string(out), "a well formed document")
				continue
			}
			for i, k := range keys {
				if j := tree.child(k); j >= 0 {
					a, b := text[tree.c[j].s:tree.c[j].e], string(out[t.c[i].s:t.c[i].e])
					if a != b {
						say(f+": value of "+k, b, a)
					}
				}
			}
		case "Check":
			if ok != (v.A == 1) {
				say(f, fmt.Sprint(ok), fmt.Sprint(v.A == 1))
			}
		case "CheckAbs":
			if v.X != 2 && ok != (v.X == 1) {
				say(f, fmt.Sprint(ok), fmt.Sprint(v.X == 1))
			}
		}
	}
}
