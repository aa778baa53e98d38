package main

// Replay of the texts of module Texts: typed getters, String forms, typed
// writers and builders on every one of them.

import (
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"strconv"
	"strings"

	"github.com/ecoshub/jin"
)

type sVector struct {
	X     ints `json:"x"`
	Bare  int  `json:"bare"`
	Quot  int  `json:"quot"`
	Int   ints `json:"int"`
	Num   int  `json:"num"`
	Short int  `json:"short"`
	Bool  int  `json:"bool"`
	Fmt   ints `json:"fmt"`
	Qt    ints `json:"qt"`
}

// floatOf: the float64 nearest to a decimal text, by exact arithmetic
func floatOf(x string) (float64, bool) {
	if len(x) > 60 {
		return 0, false
	}
	y := x
	neg := strings.HasPrefix(y, "-")
	y = strings.TrimLeft(y, "+-")
	if strings.HasPrefix(y, ".") {
		y = "0" + y
	}
	rt, ok := new(big.Rat).SetString(y)
	if !ok {
		return 0, false
	}
	f, _ := rt.Float64()
	if neg {
		f = -f
	}
	return f, true
}

// scalarPlaces: a document that has the given value texts, and where
type scalarPlace struct {
	doc  string
	path []string
}

func scalarPlaces(r *rand.Rand, val string) []scalarPlace {
	l := randLayout(r)
	g := func() string { return l.gap(r) }
	n := r.Intn(3)
	elems := ""
	for i := 0; i < n; i++ {
		elems += g() + randValue(r, 1+r.Intn(3), l) + g() + ","
	}
	name := randName(r)
	return []scalarPlace{
		{g() + "{" + g() + `"v"` + g() + ":" + g() + val + g() + "}" + g(), []string{"v"}},
		{g() + "[" + elems + g() + val + g() + "]" + g(), []string{strconv.Itoa(n)}},
		{`{"o":{"` + name + `"` + g() + ":" + g() + val + g() + `,"zz zz":[1]},"p":0}`, []string{"o", name}},
	}
}

func replayScalars(file string, seed int64) {
	parallel(file, seed, func(w *worker, r *rand.Rand, raw []byte) {
		v := &sVector{}
		if err := json.Unmarshal(raw, v); err != nil {
			panic(err)
		}
		switch checkID {
		case "C17":
			if v.Bare == 1 {
				scalarGetters(w, r, v, false)
				arrayGetters(w, r, v, false)
			}
			if v.Quot == 1 {
				scalarGetters(w, r, v, true)
				arrayGetters(w, r, v, true)
			}
		case "C18":
			stringForms(w, r, v)
			numberForms(w, r, v)
		case "C20":
			builderForms(w, r, v)
		default:
			panic("typed for " + checkID)
		}
	})
}

func scalarGetters(w *worker, r *rand.Rand, v *sVector, quoted bool) {
	x := string(v.X.bytes())
	val := x
	if quoted {
		val = `"` + x + `"`
	}
	for _, pl := range scalarPlaces(r, val) {
		for _, api := range []byte("IJP") {
			s := subjectOf(w, api, []byte(pl.doc), nil)
			if s == nil {
				continue
			}
			bad := func(op string, a answer, want string) { s.complain(op, pl.path, nil, stopper{}, a, want) }
			a := s.one(w, "GetString", pl.path, nil, stopper{})
			w.see(string(api) + " GetString" + okFail(a.code))
			if a.code != codeOK || a.repr != q(x) {
				bad("GetString", a, q(x))
			}
			a = s.one(w, "GetInt", pl.path, nil, stopper{})
			w.see(string(api) + " GetInt" + okFail(a.code))
			if len(v.Int) > 0 {
				if want := string(v.Int.bytes()); a.code != codeOK || a.repr != want {
					bad("GetInt", a, want)
				}
			} else if a.code != 12 {
				bad("GetInt", a, "integer parse error (12)")
			}
			a = s.one(w, "GetFloat", pl.path, nil, stopper{})
			w.see(string(api) + " GetFloat" + okFail(a.code))
			f, isf := floatOf(x)
			switch {
			case v.Num == 1 && v.Short == 0: // may be out of range
			case v.Num == 1:
				if a.code != codeOK || a.repr != bits(f) {
					bad("GetFloat", a, fmt.Sprint(f))
				}
			case v.Num == 0:
				if a.code != 13 {
					bad("GetFloat", a, "float parse error (13)")
				}
			default:
				if a.code != 13 && !(a.code == codeOK && (!isf || a.repr == bits(f) || strings.ContainsAny(x, "xX_iInN"))) {
					bad("GetFloat", a, "float parse error (13) or the value")
				}
			}
			a = s.one(w, "GetBool", pl.path, nil, stopper{})
			w.see(string(api) + " GetBool" + okFail(a.code))
			switch {
			case v.Bool == 2 && a.code != 14:
				bad("GetBool", a, "bool parse error (14)")
			case v.Bool != 2 && (a.code != codeOK || a.repr != strconv.FormatBool(v.Bool == 1)):
				bad("GetBool", a, strconv.FormatBool(v.Bool == 1))
			}
		}
	}
}

// arrayGetters: arrays whose elements are this text and others
func arrayGetters(w *worker, r *rand.Rand, v *sVector, quoted bool) {
	x := string(v.X.bytes())
	val := x
	if quoted {
		val = `"` + x + `"`
	}
	l := randLayout(r)
	f, _ := floatOf(x)
	type kind struct {
		op     string
		ok     bool
		skip   bool
		repr   string
		codes  []int
		others [][2]string // text, repr
	}
	b := strconv.FormatBool(v.Bool == 1)
	kinds := []kind{
		{"GetIntArray", len(v.Int) > 0, false, string(v.Int.bytes()), []int{16, 12}, [][2]string{{"7", "7"}, {"-12", "-12"}, {`"3"`, "3"}}},
		{"GetFloatArray", v.Num == 1, v.Num == 2 || v.Short == 0, bits(f), []int{17, 13}, [][2]string{{"1.5", bits(1.5)}, {"2e3", bits(2000)}}},
		{"GetBoolArray", v.Bool != 2, false, b, []int{18, 14}, [][2]string{{"true", "true"}, {"false", "false"}}},
		{"GetStringArray", true, false, x, nil, [][2]string{{`"p"`, "p"}, {"12", "12"}, {`"]["`, "]["}}},
	}
	for _, k := range kinds {
		if k.skip {
			continue
		}
		n := 1 + r.Intn(4)
		at := r.Intn(n)
		var reprs []string
		sb := "["
		for i := 0; i < n; i++ {
			t, re := val, k.repr
			if i != at {
				o := k.others[r.Intn(len(k.others))]
				t, re = o[0], o[1]
			}
			if i > 0 {
				sb += ","
			}
			sb += l.gap(r) + t + l.gap(r)
			reprs = append(reprs, re)
		}
		sb += "]"
		want := fmt.Sprint(reprs)
		if k.op == "GetStringArray" {
			want = listRepr(reprs)
		}
		pl := scalarPlaces(r, sb)[r.Intn(3)]
		for _, api := range []byte("IJP") {
			s := subjectOf(w, api, []byte(pl.doc), nil)
			if s == nil {
				continue
			}
			a := s.one(w, k.op, pl.path, nil, stopper{})
			w.see(string(api) + " " + k.op + okFail(a.code))
			if k.ok && (a.code != codeOK || a.repr != want) {
				s.complain(k.op, pl.path, nil, stopper{}, a, want)
			}
			if !k.ok && !inCodes(a.code, k.codes) {
				s.complain(k.op, pl.path, nil, stopper{}, a, fmt.Sprintf("one of %v", k.codes))
			}
			// the scalar itself is no array
			if n == 1 && !(len(x) >= 2 && x[0] == '[' && x[len(x)-1] == ']') {
				p2 := scalarPlaces(r, val)[r.Intn(3)]
				s2 := subjectOf(w, api, []byte(p2.doc), nil)
				if s2 == nil {
					continue
				}
				code := map[string]int{"GetIntArray": 16, "GetFloatArray": 17, "GetBoolArray": 18, "GetStringArray": 15}[k.op]
				if a := s2.one(w, k.op, p2.path, nil, stopper{}); a.code != code {
					s2.complain(k.op, p2.path, nil, stopper{}, a, fmt.Sprintf("code %d", code))
				}
			}
		}
	}
}

// writeDoc: where typed writers write
const writeDoc = `{ "s" : "old", "arr" : [ 10 , "x" ,{"k":[]} ], "obj":{"in" : 5 }, "ea":[ ], "eo":{} }`

// writerCases: op, path, key, index, and the document around the new text
func writerCases(op string) [][2]string {
	switch op {
	case "Set":
		return [][2]string{{"s", `{"s":%s,"arr":[10,"x",{"k":[]}],"obj":{"in":5},"ea":[],"eo":{}}`}, {"arr/1", `{"s":"old","arr":[10,%s,{"k":[]}],"obj":{"in":5},"ea":[],"eo":{}}`}, {"obj/in", `{"s":"old","arr":[10,"x",{"k":[]}],"obj":{"in":%s},"ea":[],"eo":{}}`}, {"obj", `{"s":"old","arr":[10,"x",{"k":[]}],"obj":%s,"ea":[],"eo":{}}`}}
	case "AddKeyValue":
		return [][2]string{{"", `{"s":"old","arr":[10,"x",{"k":[]}],"obj":{"in":5},"ea":[],"eo":{},"nk":%s}`}, {"eo", `{"s":"old","arr":[10,"x",{"k":[]}],"obj":{"in":5},"ea":[],"eo":{"nk":%s}}`}, {"arr/2", `{"s":"old","arr":[10,"x",{"k":[],"nk":%s}],"obj":{"in":5},"ea":[],"eo":{}}`}}
	case "Store":
		return [][2]string{{"", `{"s":"old","arr":[10,"x",{"k":[]}],"obj":{"in":5},"ea":[],"eo":{},"nk":%s}`}, {"obj", `{"s":"old","arr":[10,"x",{"k":[]}],"obj":{"in":5,"nk":%s},"ea":[],"eo":{}}`}, {"obj!", `{"s":"old","arr":[10,"x",{"k":[]}],"obj":{"in":%s},"ea":[],"eo":{}}`}}
	case "Add":
		return [][2]string{{"arr", `{"s":"old","arr":[10,"x",{"k":[]},%s],"obj":{"in":5},"ea":[],"eo":{}}`}, {"ea", `{"s":"old","arr":[10,"x",{"k":[]}],"obj":{"in":5},"ea":[%s],"eo":{}}`}, {"arr/2/k", `{"s":"old","arr":[10,"x",{"k":[%s]}],"obj":{"in":5},"ea":[],"eo":{}}`}}
	case "Insert":
		return [][2]string{{"arr", `{"s":"old","arr":[10,%s,"x",{"k":[]}],"obj":{"in":5},"ea":[],"eo":{}}`}}
	}
	return nil
}

// typedWrite makes the typed edit through api and compares the document;
// check gets the text now at the place of the value
func typedWrite(w *worker, api byte, op string, a arg, want func(api byte, op string) string, check func(text string) string) {
	for _, c := range writerCases(op) {
		path := []string{}
		key := "nk"
		at := c[0]
		if strings.HasSuffix(at, "!") {
			at = strings.TrimSuffix(at, "!")
			key = "in"
		}
		if at != "" {
			path = strings.Split(at, "/")
		}
		d := []byte(writeDoc)
		var out []byte
		var err error
		w.see(string(api) + " " + op + " " + a.form)
		p := w.call(fmt.Sprintf("%c %s %s %q", api, op, a.form, a.text), func() {
			switch api {
			case 'I':
				out, err = typedI(d, op, path, key, 1, a, []byte(a.text))
			case 'J':
				j := jin.New(d)
				err = typedJ(j, op, path, key, 1, a, []byte(a.text))
				out = j.JSON()
			case 'P':
				var ps *jin.Parser
				ps, err = jin.Parse(d)
				if err == nil {
					err = typedP(ps, op, path, key, 1, a, []byte(a.text))
					out = ps.JSON()
				}
			}
		})
		bad := func(got, want string) {
			rep.add(report{checkID, fmt.Sprintf("%c %s of %s", api, op, a.form), map[string]interface{}{"doc": writeDoc, "path": path, "key": key, "given": a.text, "float": a.f}, got, want})
		}
		if p != "" || err != nil {
			bad(fmt.Sprint(p, err), "success")
			continue
		}
		got := canon(out)
		if check != nil {
			i := strings.Index(c[1], "%s")
			pre, post := c[1][:i], c[1][i+2:]
			if !strings.HasPrefix(got, pre) || !strings.HasSuffix(got, post) || len(got) < len(pre)+len(post) {
				bad(got, c[1])
				continue
			}
			if m := check(got[len(pre) : len(got)-len(post)]); m != "" {
				bad(got, m)
			}
			continue
		}
		full := strings.Replace(c[1], "%s", want(api, op), 1)
		if got != canon([]byte(full)) || !strings.Contains(string(out), want(api, op)) {
			bad(string(out), full)
		}
	}
}

func opsOfWriter(api byte) []string {
	if api == 'P' {
		return []string{"Set", "AddKeyValue", "Add", "Insert"}
	}
	return []string{"Set", "AddKeyValue", "Add", "Insert", "Store"}
}

func stringForms(w *worker, r *rand.Rand, v *sVector) {
	x := string(v.X.bytes())
	for _, api := range []byte("IJP") {
		for _, op := range opsOfWriter(api) {
			want := string(v.Fmt.bytes())
			if api == 'P' && op == "Set" {
				want = string(v.Qt.bytes())
			}
			if want == "" {
				continue
			}
			typedWrite(w, api, op, arg{form: "string", text: x}, func(byte, string) string { return want }, nil)
		}
	}
}

// numberForms: the numbers and booleans this text stands for, by every writer
func numberForms(w *worker, r *rand.Rand, v *sVector) {
	x := string(v.X.bytes())
	try := func(apis string, ops []string, a arg) {
		for _, api := range []byte(apis) {
			for _, op := range ops {
				if api == 'P' && op == "Store" {
					continue
				}
				typedWrite(w, api, op, a, func(byte, string) string { return a.text }, nil)
			}
		}
	}
	all := []string{"Set", "AddKeyValue", "Add", "Insert", "Store"}
	sized := []string{"AddKeyValue", "Add", "Insert"}
	if len(v.Int) > 0 {
		c := string(v.Int.bytes())
		n, err := strconv.ParseInt(c, 10, 64)
		if err != nil || strconv.FormatInt(n, 10) != c {
			panic("the specification's integer is none: " + c)
		}
		try("IJP", all, arg{form: "int", i: n, text: c})
		try("I", sized, arg{form: "int64", i: n, text: c})
		if int64(int32(n)) == n {
			try("I", sized, arg{form: "int32", i: n, text: c})
		}
		if n >= 0 {
			try("I", sized, arg{form: "uint", u: uint64(n), text: c})
			try("I", sized, arg{form: "uint64", u: uint64(n), text: c})
			if uint64(uint32(n)) == uint64(n) {
				try("I", sized, arg{form: "uint32", u: uint64(n), text: c})
			}
		}
	} else if u, err := strconv.ParseUint(x, 10, 64); err == nil && strconv.FormatUint(u, 10) == x {
		// above int64
		try("I", sized, arg{form: "uint", u: u, text: x})
		try("I", sized, arg{form: "uint64", u: u, text: x})
	}
	if v.Bool != 2 {
		try("IJP", all, arg{form: "bool", b: v.Bool == 1, text: x})
	}
	if v.Num == 1 && v.Short == 1 {
		f, ok := floatOf(x)
		if !ok {
			return
		}
		check := func(t string) string { return floatTextOK(t, f, true) }
		for _, api := range []byte("IJP") {
			for _, op := range opsOfWriter(api) {
				typedWrite(w, api, op, arg{form: "float", f: f, text: x}, nil, check)
			}
		}
	}
}

// floatTextOK: t is a (plain) decimal JSON number that is nearest to f
func floatTextOK(t string, f float64, plain bool) string {
	if !isNumber(t) || (plain && strings.ContainsAny(t, "eE")) {
		return "a plain decimal number"
	}
	g, err := strconv.ParseFloat(t, 64)
	if err != nil || bits(g) != bits(f) {
		return "a number that reads back as " + strconv.FormatFloat(f, 'g', -1, 64)
	}
	return ""
}

// builderForms: builders with this text at each position among others
func builderForms(w *worker, r *rand.Rand, v *sVector) {
	x := string(v.X.bytes())
	want := string(v.Fmt.bytes())
	others := [][2]string{{"", `""`}, {"a b", `"a b"`}, {"12", "12"}, {"null", "null"}, {`["q",{}]`, `["q",{}]`}, {`x,y`, `"x,y"`}, {`"q"`, `"q"`}}
	n := 1 + r.Intn(4)
	at := r.Intn(n)
	check := func(what string, got []byte, p string, want string) {
		w.see(what)
		if p != "" || canon(got) != want {
			rep.add(report{checkID, what, x, p + string(got), want})
		}
	}
	if want != "" {
		var xs, ws, keys, kv []string
		var is []interface{}
		m := map[string]string{}
		for i := 0; i < n; i++ {
			o := others[r.Intn(len(others))]
			if i == at {
				o = [2]string{x, want}
			}
			xs, ws = append(xs, o[0]), append(ws, canon([]byte(o[1])))
			is = append(is, o[0])
			k := "k" + strconv.Itoa(i)
			keys = append(keys, k)
			kv = append(kv, `"`+k+`":`+canon([]byte(o[1])))
			m[k] = o[0]
		}
		arr := "[" + strings.Join(ws, ",") + "]"
		obj := "{" + strings.Join(kv, ",") + "}"
		var got []byte
		p := w.call("MakeArrayString", func() { got = jin.MakeArrayString(xs) })
		check("MakeArrayString", got, p, arr)
		p = w.call("MakeArray", func() { got = jin.MakeArray(is...) })
		check("MakeArray", got, p, arr)
		p = w.call("MakeJsonString", func() { got = jin.MakeJsonString(keys, xs) })
		check("MakeJsonString", got, p, obj)
		p = w.call("MakeJson", func() { got = jin.MakeJson(keys, is) })
		check("MakeJson", got, p, obj)
		p = w.call("MakeArrayBytes", func() {
			bs := [][]byte{}
			for _, y := range ws {
				bs = append(bs, []byte(y))
			}
			got = jin.MakeArrayBytes(bs...)
		})
		check("MakeArrayBytes", got, p, arr)
		p = w.call("Scheme.MakeJsonString", func() { got = jin.MakeScheme(keys...).MakeJsonString(xs...) })
		check("Scheme.MakeJsonString", got, p, obj)
		p = w.call("Scheme.MakeJson", func() { got = jin.MakeScheme(keys...).MakeJson(is...) })
		check("Scheme.MakeJson", got, p, obj)
		// lists of unequal length
		for d := -1; d <= 1; d += 2 {
			ks := append([]string{}, keys...)
			if d < 0 {
				ks = ks[:len(ks)-1]
			} else {
				ks = append(ks, "more")
			}
			p = w.call("MakeJsonString", func() { got = jin.MakeJsonString(ks, xs) })
			if p != "" || got != nil {
				rep.add(report{checkID, "MakeJsonString with lists of unequal length", ks, p + string(got), "nil"})
			}
			p = w.call("MakeJson", func() { got = jin.MakeJson(ks, is) })
			if p != "" || got != nil {
				rep.add(report{checkID, "MakeJson with lists of unequal length", ks, p + string(got), "nil"})
			}
		}
		// a map has no order: every member once
		p = w.call("MakeJsonWithMap", func() { got = jin.MakeJsonWithMap(m) })
		t, err := parseText(got)
		ok := p == "" && err == nil && t.t == 'o' && len(t.c) == n
		for i := 0; ok && i < n; i++ {
			j := t.child(keys[i])
			ok = j >= 0 && canon(got[t.c[j].s:t.c[j].e]) == ws[i]
		}
		if !ok {
			rep.add(report{checkID, "MakeJsonWithMap", m, p + string(got), obj})
		}
	}
	// numbers and booleans
	if len(v.Int) > 0 {
		c := string(v.Int.bytes())
		k, _ := strconv.ParseInt(c, 10, 64)
		var got []byte
		p := w.call("MakeArrayInt", func() { got = jin.MakeArrayInt([]int{int(k), 5, int(k)}) })
		check("MakeArrayInt", got, p, "["+c+",5,"+c+"]")
		p = w.call("MakeArray", func() { got = jin.MakeArray(int(k), true, k, int64(5)) })
		check("MakeArray of integers", got, p, "["+c+",true,"+c+",5]")
		p = w.call("MakeJson", func() { got = jin.MakeJson([]string{"a", "b"}, []interface{}{int(k), uint8(7)}) })
		check("MakeJson of integers", got, p, `{"a":`+c+`,"b":7}`)
	}
	if v.Bool != 2 {
		var got []byte
		b := v.Bool == 1
		p := w.call("MakeArrayBool", func() { got = jin.MakeArrayBool([]bool{b, !b, b}) })
		check("MakeArrayBool", got, p, fmt.Sprintf("[%v,%v,%v]", b, !b, b))
	}
	if v.Num == 1 && v.Short == 1 {
		f, ok := floatOf(x)
		if !ok {
			return
		}
		var got []byte
		p := w.call("MakeArrayFloat", func() { got = jin.MakeArrayFloat([]float64{f, 0.5, f}) })
		t, err := parseText(got)
		m := "three numbers"
		if p == "" && err == nil && len(t.c) == 3 {
			m = ""
			for i := 0; i < 3; i++ {
				g := f
				if i == 1 {
					g = 0.5
				}
				m += floatTextOK(string(got[t.c[i].s:t.c[i].e]), g, true)
			}
		}
		if m != "" {
			rep.add(report{checkID, "MakeArrayFloat", f, p + string(got), m})
		}
		p = w.call("MakeArray", func() { got = jin.MakeArray(f, float32(0.25), "s") })
		t, err = parseText(got)
		m = "three values"
		if p == "" && err == nil && len(t.c) == 3 {
			m = floatTextOK(string(got[t.c[0].s:t.c[0].e]), f, false)
		}
		if m != "" {
			rep.add(report{checkID, "MakeArray of floats", f, p + string(got), m})
		}
	}
	if len(v.X) == 0 {
		var a, b, c, d []byte
		w.call("MakeEmpty", func() {
			a, b, c, d = jin.MakeEmptyArray(), jin.MakeEmptyJson(), jin.MakeArray(), jin.MakeJson(nil, nil)
		})
		for i, g := range [][]byte{a, b, c, d} {
			if e := []string{"[]", "{}", "[]", "{}"}[i]; string(g) != e {
				rep.add(report{checkID, "builder without arguments", i, string(g), e})
			}
		}
	}
}
