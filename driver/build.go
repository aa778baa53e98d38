package main

// Replay of module Build: every builder on lists of arguments of Go types.

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"strconv"
	"strings"

	"github.com/ecoshub/jin"
)

type bArg struct {
	F string `json:"f"`
	X ints   `json:"x"`
	W ints   `json:"w"`
}

type bVector struct {
	A []bArg `json:"a"`
	R ints   `json:"r"`
	O ints   `json:"o"`
	N []struct {
		K int  `json:"k"`
		O ints `json:"o"`
	} `json:"n"`
}

type namedString string
type namedInt int
type namedBool bool

// goValue: the argument as a value of its type
func goValue(f, x string) interface{} {
	i, _ := strconv.ParseInt(x, 10, 64)
	u, _ := strconv.ParseUint(x, 10, 64)
	d, _ := strconv.ParseFloat(x, 64)
	switch f {
	case "int":
		return int(i)
	case "int8":
		return int8(i)
	case "int16":
		return int16(i)
	case "int32":
		return int32(i)
	case "int64":
		return i
	case "uint":
		return uint(u)
	case "uint8":
		return uint8(u)
	case "uint16":
		return uint16(u)
	case "uint32":
		return uint32(u)
	case "uint64":
		return u
	case "float32":
		return float32(d)
	case "float64":
		return d
	case "bool":
		return x == "true"
	case "named int":
		return namedInt(i)
	case "named bool":
		return namedBool(x == "true")
	case "named string":
		return namedString(x)
	}
	return x
}

func isFloatForm(f string) bool { return f == "float32" || f == "float64" }

// builtOK: got is the document of these arguments; keys nil: an array.
// Floats may be written in any way that reads back as their value.
func builtOK(got []byte, as []bArg, keys []string, plain bool) string {
	want := "["
	for i := range as {
		if i > 0 {
			want += ","
		}
		if keys != nil {
			want += `"` + keys[i] + `":`
		}
		want += canon(as[i].W.bytes())
	}
	want += "]"
	kind := byte('a')
	if keys != nil {
		want = "{" + want[1:len(want)-1] + "}"
		kind = 'o'
	}
	t, err := parseText(got)
	if err != nil || t.t != kind || len(t.c) != len(as) {
		return want
	}
	for i, c := range t.c {
		x := canon(got[c.s:c.e])
		if keys != nil && t.name[i] != keys[i] {
			return want
		}
		if !isFloatForm(as[i].F) {
			if x != canon(as[i].W.bytes()) {
				return want
			}
			continue
		}
		v, ok := floatOf(string(as[i].X.bytes()))
		if m := floatTextOK(x, v, plain); !ok || m != "" {
			return want + ": " + m
		}
	}
	if s := canon(got); s[0] != want[0] || len(got) != 0 && (got[0] == ' ' || got[len(got)-1] == ' ') {
		return want
	}
	return ""
}

func replayBuild(file string, seed int64, reps int) {
	parallel(file, seed, func(w *worker, r *rand.Rand, raw []byte) {
		v := &bVector{}
		if err := json.Unmarshal(raw, v); err != nil {
			panic(err)
		}
		for k := 0; k < reps; k++ {
			buildAll(w, r, v, k == 0)
		}
		if len(v.A) > 0 && r.Intn(20) == 0 { // long lists of the same arguments
			l := &bVector{}
			n := edges[r.Intn(len(edges))] * 2
			for len(l.A) < n {
				l.A = append(l.A, v.A[r.Intn(len(v.A))])
			}
			buildAll(w, r, l, false)
		}
	})
}

func buildAll(w *worker, r *rand.Rand, v *bVector, plain bool) {
	n := len(v.A)
	all := ""
	var is []interface{}
	var xs []string
	keys := []string{}
	used := map[string]bool{}
	for i, a := range v.A {
		x := string(a.X.bytes())
		is = append(is, goValue(a.F, x))
		xs = append(xs, x)
		if all == "" || all == a.F {
			all = a.F
		} else {
			all = "mixed"
		}
		k := string(rune('a' + i%26))
		if !plain || i > 25 {
			for k = randName(r); used[k]; k = relative(r, k) {
			}
		}
		used[k] = true
		keys = append(keys, k)
	}
	var args interface{} = v.A
	shown := []string{}
	for _, a := range v.A {
		shown = append(shown, fmt.Sprintf("%s %q", a.F, a.X.bytes()))
	}
	args = shown
	if n > 12 {
		args = append(shown[:12:12], fmt.Sprintf("... %d", n))
	}
	type built struct {
		what string
		b    []byte
		was  string
	}
	var earlier []built
	do := func(what string, keys []string, plainFloats bool, f func() []byte) {
		var got []byte
		w.see(what)
		p := w.call(what+" "+fmt.Sprint(args), func() { got = f() })
		if p != "" {
			rep.add(report{checkID, what + " panics", map[string]interface{}{"arguments": args, "keys": keys}, p, "a document"})
			return
		}
		if m := builtOK(got, v.A, keys, plainFloats); m != "" {
			rep.add(report{checkID, what, map[string]interface{}{"arguments": args, "keys": keys}, string(got), m})
			return
		}
		if plain && v.R != nil && r.Intn(4) == 0 { // the specification's own text
			spec := v.R
			if keys != nil {
				spec = v.O
			}
			if all != "mixed" && !isFloatForm(all) && canon(got) != canon(spec.bytes()) {
				rep.add(report{checkID, what, map[string]interface{}{"arguments": args, "keys": keys}, string(got), string(spec.bytes())})
			}
		}
		for _, e := range earlier {
			if string(e.b) != e.was {
				rep.add(report{checkID, "the result of " + e.what + " changed", args, string(e.b), e.was})
			}
		}
		earlier = append(earlier, built{what, got, string(got)})
	}
	has := func(fs ...string) bool {
		for _, f := range fs {
			if all == f || n == 0 {
				return true
			}
		}
		return false
	}
	if !has("raw") || n == 0 {
		do("MakeArray", nil, false, func() []byte { return jin.MakeArray(is...) })
		do("MakeJson", keys, false, func() []byte { return jin.MakeJson(keys, is) })
		do("Scheme.MakeJson", keys, false, func() []byte { return jin.MakeScheme(keys...).MakeJson(is...) })
		// a Scheme that got its keys one by one
		do("Scheme.MakeJson", keys, false, func() []byte {
			s := jin.MakeScheme()
			for _, k := range keys {
				s.Add(k)
			}
			return s.MakeJson(is...)
		})
	}
	if has("string") {
		do("MakeArrayString", nil, false, func() []byte { return jin.MakeArrayString(xs) })
		do("MakeJsonString", keys, false, func() []byte { return jin.MakeJsonString(keys, xs) })
		do("Scheme.MakeJsonString", keys, false, func() []byte { return jin.MakeScheme(keys...).MakeJsonString(xs...) })
		buildMap(w, v, keys, xs, args)
	}
	if has("int") {
		do("MakeArrayInt", nil, false, func() []byte {
			ys := []int{}
			for _, x := range is {
				ys = append(ys, x.(int))
			}
			return jin.MakeArrayInt(ys)
		})
	}
	if has("bool") {
		do("MakeArrayBool", nil, false, func() []byte {
			ys := []bool{}
			for _, x := range is {
				ys = append(ys, x.(bool))
			}
			return jin.MakeArrayBool(ys)
		})
	}
	if has("float64") {
		do("MakeArrayFloat", nil, true, func() []byte {
			ys := []float64{}
			for _, x := range is {
				ys = append(ys, x.(float64))
			}
			return jin.MakeArrayFloat(ys)
		})
	}
	if has("raw") {
		do("MakeArrayBytes", nil, false, func() []byte {
			ys := [][]byte{}
			for i, x := range xs {
				if i > 0 && i%3 == 0 {
					ys = append(ys, []byte(x))
					continue
				}
				b := append(make([]byte, 0, len(x)+4), x...) // with room behind it
				ys = append(ys, b)
			}
			d := jin.MakeArrayBytes(ys...)
			for i, x := range xs {
				if string(ys[i]) != x {
					rep.add(report{checkID, "MakeArrayBytes changes its argument", args, string(ys[i]), x})
				}
			}
			return d
		})
	}
	if n == 0 {
		do("MakeEmptyArray", nil, false, func() []byte { return jin.MakeEmptyArray() })
		do("MakeEmptyJson", keys, false, func() []byte { return jin.MakeEmptyJson() })
		for _, e := range earlier {
			if len(e.b) != 2 {
				rep.add(report{checkID, e.what + " without arguments", nil, string(e.b), "[] or {}"})
			}
		}
	}
	// keys and values of different number
	for _, m := range v.N {
		ks := append([]string{}, keys...)
		if m.K < n {
			ks = ks[:m.K]
		} else {
			ks = append(ks, "one more")
		}
		try := func(what string, f func() []byte) {
			var got []byte
			w.see(what + " unequal")
			p := w.call(what, func() { got = f() })
			if p != "" || got != nil || len(m.O) != 0 {
				rep.add(report{checkID, what + " with lists of unequal length", map[string]interface{}{"keys": ks, "values": args}, p + string(got), "nil"})
			}
		}
		if !has("raw") || n == 0 {
			try("MakeJson", func() []byte { return jin.MakeJson(ks, is) })
			try("Scheme.MakeJson", func() []byte { return jin.MakeScheme(ks...).MakeJson(is...) })
		}
		if has("string") {
			try("MakeJsonString", func() []byte { return jin.MakeJsonString(ks, xs) })
			try("Scheme.MakeJsonString", func() []byte { return jin.MakeScheme(ks...).MakeJsonString(xs...) })
		}
	}
	// the arguments are the caller's
	for i, a := range v.A {
		if xs[i] != string(a.X.bytes()) || fmt.Sprint(is[i]) != fmt.Sprint(goValue(a.F, xs[i])) {
			rep.add(report{checkID, "a builder changed its argument", args, fmt.Sprint(xs[i], is[i]), string(a.X.bytes())})
		}
	}
	if n > 0 && n < 10 {
		readBack(w, r, v, earlier[r.Intn(len(earlier))].b, keys, is)
		byAdds(w, r, v, keys, args)
	}
}

// buildMap: a map has no order: every member once
func buildMap(w *worker, v *bVector, keys, xs []string, args interface{}) {
	m := map[string]string{}
	for i, k := range keys {
		m[k] = xs[i]
	}
	var got []byte
	w.see("MakeJsonWithMap")
	p := w.call("MakeJsonWithMap", func() { got = jin.MakeJsonWithMap(m) })
	t, err := parseText(got)
	ok := p == "" && err == nil && t.t == 'o' && len(t.c) == len(keys) && len(m) == len(keys)
	for i := 0; ok && i < len(keys); i++ {
		j := t.child(keys[i])
		ok = j >= 0 && canon(got[t.c[j].s:t.c[j].e]) == canon(v.A[i].W.bytes()) && m[keys[i]] == xs[i]
	}
	if !ok {
		rep.add(report{checkID, "MakeJsonWithMap", m, p + string(got), fmt.Sprint(args)})
	}
}

// readBack: the typed getters give the arguments back
func readBack(w *worker, r *rand.Rand, v *bVector, d []byte, keys []string, is []interface{}) {
	for i, a := range v.A {
		at := strconv.Itoa(i)
		if len(d) > 0 && d[0] == '{' {
			at = keys[i]
		}
		bad := func(op string, got, want interface{}, err error) {
			rep.add(report{checkID, op + " of what was built", map[string]interface{}{"doc": string(d), "path": at}, fmt.Sprint(got, err), fmt.Sprint(want)})
		}
		w.see("read back " + a.F)
		var panicked string
		switch x := is[i].(type) {
		case string:
			want := canon(a.W.bytes())
			if len(want) > 1 && want[0] == '"' {
				want = want[1 : len(want)-1]
			}
			if a.F == "raw" {
				break
			}
			panicked = w.call("GetString", func() {
				if got, err := jin.GetString(d, at); err != nil || canonOrText(got, want) != want {
					bad("GetString", got, want, err)
				}
			})
		case bool:
			panicked = w.call("GetBool", func() {
				if got, err := jin.GetBool(d, at); err != nil || got != x {
					bad("GetBool", got, x, err)
				}
			})
		case float64:
			panicked = w.call("GetFloat", func() {
				if got, err := jin.GetFloat(d, at); err != nil || bits(got) != bits(x) {
					bad("GetFloat", got, x, err)
				}
			})
		case float32:
			panicked = w.call("GetFloat", func() {
				if got, err := jin.GetFloat(d, at); err != nil || float32(got) != x {
					bad("GetFloat", got, x, err)
				}
			})
		default:
			text := fmt.Sprint(x)
			if _, err := strconv.ParseInt(text, 10, 64); err == nil {
				panicked = w.call("GetInt", func() {
					if got, err := jin.GetInt(d, at); err != nil || strconv.Itoa(got) != text {
						bad("GetInt", got, text, err)
					}
				})
			} else {
				panicked = w.call("GetString", func() {
					if got, err := jin.GetString(d, at); err != nil || got != text {
						bad("GetString", got, text, err)
					}
				})
			}
		}
		if panicked != "" {
			bad("a getter", panicked, "a value", nil)
		}
	}
}

func canonOrText(got, want string) string {
	if got == want {
		return got
	}
	return canon([]byte(got))
}

// byAdds: the same document by adding the arguments one by one
func byAdds(w *worker, r *rand.Rand, v *bVector, keys []string, args interface{}) {
	arr, obj := jin.MakeEmptyArray(), jin.MakeEmptyJson()
	for i, a := range v.A {
		x := string(a.X.bytes())
		g := arg{form: "raw", text: string(a.W.bytes())}
		switch a.F {
		case "string":
			g = arg{form: "string", text: x}
		case "bool":
			g = arg{form: "bool", b: x == "true", text: x}
		case "int", "int32", "int64":
			n, _ := strconv.ParseInt(x, 10, 64)
			g = arg{form: a.F, i: n, text: x}
		case "uint", "uint32", "uint64":
			n, _ := strconv.ParseUint(x, 10, 64)
			g = arg{form: a.F, u: n, text: x}
		case "float64":
			f, _ := strconv.ParseFloat(x, 64)
			g = arg{form: "float", f: f, text: x}
		}
		var e1, e2 error
		p := w.call("adding one by one", func() {
			arr, e1 = typedI(arr, "Add", nil, "", 0, g, []byte(g.text))
			obj, e2 = typedI(obj, "AddKeyValue", nil, keys[i], 0, g, []byte(g.text))
		})
		if p != "" || e1 != nil || e2 != nil {
			rep.add(report{checkID, "adding one by one", args, fmt.Sprint(p, e1, e2), "documents"})
			return
		}
	}
	w.see("adds")
	if m := builtOK(arr, v.A, nil, false); m != "" {
		rep.add(report{checkID, "array by adding one by one", args, string(arr), m})
	}
	if m := builtOK(obj, v.A, keys, false); m != "" {
		rep.add(report{checkID, "object by adding one by one", map[string]interface{}{"arguments": args, "keys": strings.Join(keys, ", ")}, string(obj), m})
	}
}
