package main

// Replay of module Errors: failing calls that speak of a given text, and what
// ErrEqual says of their errors.

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"sort"
	"strings"

	"github.com/ecoshub/jin"
)

type eVector struct {
	X ints `json:"x"`
	E []struct {
		K string `json:"k"`
		C int    `json:"c"`
	} `json:"e"`
	Num  int `json:"num"`
	Flt  int `json:"flt"`
	Idx  int `json:"idx"`
	Bool int `json:"bool"`
}

var codeNames = map[string]int{
	"NullPath": jin.ErrCodeNullPath, "EmptyArray": jin.ErrCodeEmptyArray, "IndexExpected": jin.ErrCodeIndexExpected,
	"ObjectExpected": jin.ErrCodeObjectExpected, "ArrayExpected": jin.ErrCodeArrayExpected, "IndexOutOfRange": jin.ErrCodeIndexOutOfRange,
	"KeyNotFound": jin.ErrCodeKeyNotFound, "BadJSON": jin.ErrCodeBadJSON, "KeyAlreadyExist": jin.ErrCodeKeyAlreadyExist,
	"IntegerParse": jin.ErrCodeIntegerParse, "FloatParse": jin.ErrCodeFloatParse, "BoolParse": jin.ErrCodeBoolParse,
	"StringArrayParse": jin.ErrCodeStringArrayParse, "IntegerArrayParse": jin.ErrCodeIntegerArrayParse,
	"FloatArrayParse": jin.ErrCodeFloatArrayParse, "BoolArrayParse": jin.ErrCodeBoolArrayParse, "NullKey": jin.ErrCodeNullKey,
	"Empty": jin.ErrCodeEmpty,
}

// exactly: ErrEqual is true of one of these kinds, and of no other code
func exactly(code map[string]int, err error, kinds []string) string {
	if err == nil {
		return "no error"
	}
	var is []int
	for c := -3; c < 130; c++ {
		if jin.ErrEqual(err, c) {
			is = append(is, c)
		}
	}
	if len(is) == 1 {
		for _, k := range kinds {
			if code[k] == is[0] {
				return ""
			}
		}
	}
	return fmt.Sprintf("%v: of code %v", err, is)
}

func replayErrors(file string, seed int64) {
	parallel(file, seed, func(w *worker, r *rand.Rand, raw []byte) {
		v := &eVector{}
		if err := json.Unmarshal(raw, v); err != nil {
			panic(err)
		}
		code := map[string]int{}
		for _, e := range v.E {
			code[e.K] = e.C
			if n, ok := codeNames[e.K]; !ok || n != e.C {
				rep.add(report{checkID, "ErrCode" + e.K, nil, fmt.Sprint(n), fmt.Sprint(e.C)})
			}
		}
		errorsAbout(w, r, v, code, string(v.X.bytes()))
		// a long text that ends or begins like x
		l := &eVector{E: v.E}
		n := []int{30, 60, 90, 120, 200, 250, 300, 600, 1100, 5000}[r.Intn(10)] + r.Intn(12)
		long := strings.Repeat("z", n)
		if r.Intn(3) == 0 {
			long = strings.Repeat("q.z ", n/4) + "z"
		}
		if r.Intn(3) > 0 {
			errorsAbout(w, r, l, code, long+string(v.X.bytes()))
		} else {
			errorsAbout(w, r, l, code, string(v.X.bytes())+long)
		}
		w.see("long texts")
	})
}

func errorsAbout(w *worker, r *rand.Rand, v *eVector, code map[string]int, x string) {
	docs := []string{
		`{"k.o":{"k.n":5,"%s":1},"k.a":["%s",2],"k.e":[],"k.eo":{},"k.s":"%s"}`,
		` { "k.s" : "%[1]s" , "k.eo" : { } , "k.e" : [ ] , "k.a" : [ "%[1]s" , [ "%[1]s" ] ] , "k.o" : { "%[1]s" : "%[1]s" , "k.n" : null } } `,
	}
	for i, f := range docs {
		d := fmt.Sprintf(f, x, x, x)
		if i == 1 {
			d = strings.ReplaceAll(f, "%[1]s", x)
		}
		failing(w, r, v, code, []byte(d), x)
	}
	failingTexts(w, v, code, x)
	for c := -3; c < 130; c++ {
		if jin.ErrEqual(nil, c) {
			rep.add(report{checkID, "ErrEqual(nil)", c, "true", "false"})
		}
	}
}

var misses = []string{"KeyNotFound", "IndexOutOfRange", "EmptyArray", "IndexExpected"}

func failing(w *worker, r *rand.Rand, v *eVector, code map[string]int, d []byte, x string) {
	jo := jin.New(clone(d))
	ps, err := jin.Parse(clone(d))
	if err != nil {
		rep.add(report{checkID, "Parse", string(d), err.Error(), "a Parser"})
		return
	}
	type held struct {
		what  string
		err   error
		text  string
		kinds []string
	}
	var kept []held
	bad := func(what, m string, kinds []string) {
		rep.add(report{checkID, "error of " + what, map[string]interface{}{"doc": string(d), "text": x}, m, fmt.Sprint(kinds)})
	}
	try := func(what string, kinds []string, f func() error) {
		w.see(what)
		var err error
		if p := w.call(what+" on "+string(d), func() { err = f() }); p != "" {
			bad(what, p, kinds)
			return
		}
		if m := exactly(code, err, kinds); m != "" {
			bad(what, m, kinds)
			return
		}
		kept = append(kept, held{what, err, err.Error(), kinds})
	}
	// reads and edits that miss
	miss := func(kinds []string, path ...string) {
		val := []byte("1")
		try("Get", kinds, func() error { _, e := jin.Get(d, path...); return e })
		try("JO.Get", kinds, func() error { _, e := jo.Get(path...); return e })
		try("Parser.Get", misses, func() error { _, e := ps.Get(path...); return e })
		try("GetInt", kinds, func() error { _, e := jin.GetInt(d, path...); return e })
		try("Parser.GetString", misses, func() error { _, e := ps.GetString(path...); return e })
		try("GetType", kinds, func() error { _, e := jin.GetType(d, path...); return e })
		try("JO.GetStringArray", kinds, func() error { _, e := jo.GetStringArray(path...); return e })
		try("GetKeys", kinds, func() error { _, e := jin.GetKeys(d, path...); return e })
		try("Set", kinds, func() error { _, e := jin.Set(d, val, path...); return e })
		try("JO.Set", kinds, func() error { return jo.Set(val, path...) })
		try("Parser.Set", misses, func() error { return ps.Set(val, path...) })
		try("Delete", kinds, func() error { _, e := jin.Delete(d, path...); return e })
		try("Parser.Delete", misses, func() error { return ps.Delete(path...) })
		try("Add", kinds, func() error { _, e := jin.Add(d, val, path...); return e })
		try("AddKeyValue", kinds, func() error { _, e := jin.AddKeyValue(d, "q", val, path...); return e })
		try("JO.AddKeyValue", kinds, func() error { return jo.AddKeyValue("q", val, path...) })
		try("Parser.AddKeyValue", misses, func() error { return ps.AddKeyValue("q", val, path...) })
		try("Insert", kinds, func() error { _, e := jin.Insert(d, 0, val, path...); return e })
		try("IterateArray", kinds, func() error {
			return jin.IterateArray(d, func([]byte) (bool, error) { return true, nil }, path...)
		})
		try("IterateKeyValue", kinds, func() error {
			return jin.IterateKeyValue(d, func([]byte, []byte) (bool, error) { return true, nil }, path...)
		})
	}
	if x != "" {
		miss([]string{"KeyNotFound"}, "k.eo", x)
		miss([]string{"KeyNotFound"}, "k.o", "k.n", x)
		if !strings.HasPrefix(x, "k.") {
			miss([]string{"KeyNotFound"}, x)
			miss([]string{"KeyNotFound"}, "k.s", x)
		}
		if v.Idx == 0 {
			miss([]string{"IndexExpected"}, "k.a", x)
			miss([]string{"IndexExpected"}, "k.e", x)
		}
		miss([]string{"IndexOutOfRange"}, "k.a", "0", x)
		// names taken
		exist := []string{"KeyAlreadyExist"}
		try("AddKeyValue", exist, func() error { _, e := jin.AddKeyValue(d, x, []byte("1"), "k.o"); return e })
		try("AddKeyValueString", exist, func() error { _, e := jin.AddKeyValueString(d, x, x, "k.o"); return e })
		try("JO.AddKeyValue", exist, func() error { return jo.AddKeyValue(x, []byte("1"), "k.o") })
		try("Parser.AddKeyValue", exist, func() error { return ps.AddKeyValue(x, []byte("1"), "k.o") })
		taken := []string{"KeyAlreadyExist", "BadJSON"}
		try("SetKey", taken, func() error { _, e := jin.SetKey(d, x, "k.o", "k.n"); return e })
		try("JO.SetKey", taken, func() error { return jo.SetKey(x, "k.o", "k.n") })
		// wrong containers
		for _, at := range []string{"k.a", "k.e", "k.s"} {
			try("AddKeyValue", []string{"ObjectExpected"}, func() error { _, e := jin.AddKeyValue(d, x, []byte("1"), at); return e })
			try("JO.AddKeyValue", []string{"ObjectExpected"}, func() error { return jo.AddKeyValue(x, []byte("1"), at) })
		}
		try("Parser.AddKeyValue", []string{"ObjectExpected"}, func() error { return ps.AddKeyValue(x, []byte("1"), "k.a") })
	}
	for _, at := range []string{"k.o", "k.eo", "k.s"} {
		try("Add", []string{"ArrayExpected"}, func() error { _, e := jin.Add(d, []byte("1"), at); return e })
		try("JO.AddString", []string{"ArrayExpected"}, func() error { return jo.AddString(x, at) })
		try("Insert", []string{"ArrayExpected"}, func() error { _, e := jin.Insert(d, 0, []byte("1"), at); return e })
	}
	try("Parser.Add", []string{"ArrayExpected"}, func() error { return ps.Add([]byte("1"), "k.o") })
	miss([]string{"IndexOutOfRange"}, "k.a", "77")
	miss([]string{"EmptyArray", "IndexOutOfRange"}, "k.e", "0")
	out := []string{"IndexOutOfRange", "EmptyArray"}
	try("Insert", out, func() error { _, e := jin.Insert(d, 88, []byte("1"), "k.a"); return e })
	try("Parser.Insert", out, func() error { return ps.Insert(88, []byte("1"), "k.a") })
	null := []string{"NullPath"}
	try("Set", null, func() error { _, e := jin.Set(d, []byte("1")); return e })
	try("Delete", null, func() error { _, e := jin.Delete(d); return e })
	try("JO.Delete", null, func() error { return jo.Delete() })
	try("JO.SetString", null, func() error { return jo.SetString(x) })
	try("SetKey", []string{"NullKey", "NullPath"}, func() error { _, e := jin.SetKey(d, "", "k.o", "k.n"); return e })
	// values of another type
	read := func(kind string, i, j, p func() error) {
		try("Get "+kind, []string{kind}, i)
		try("JO.Get "+kind, []string{kind}, j)
		try("Parser.Get "+kind, []string{kind}, p)
	}
	if v.Num == 0 {
		read("IntegerParse", func() error { _, e := jin.GetInt(d, "k.s"); return e }, func() error { _, e := jo.GetInt("k.s"); return e },
			func() error { _, e := ps.GetInt("k.s"); return e })
		in := []string{"IntegerArrayParse", "IntegerParse"}
		try("GetIntArray", in, func() error { _, e := jin.GetIntArray(d, "k.a"); return e })
		try("Parser.GetIntArray", in, func() error { _, e := ps.GetIntArray("k.a"); return e })
	}
	if v.Flt == 0 {
		read("FloatParse", func() error { _, e := jin.GetFloat(d, "k.s"); return e }, func() error { _, e := jo.GetFloat("k.s"); return e },
			func() error { _, e := ps.GetFloat("k.s"); return e })
		in := []string{"FloatArrayParse", "FloatParse"}
		try("GetFloatArray", in, func() error { _, e := jin.GetFloatArray(d, "k.a"); return e })
		try("JO.GetFloatArray", in, func() error { _, e := jo.GetFloatArray("k.a"); return e })
	}
	if v.Bool == 0 {
		read("BoolParse", func() error { _, e := jin.GetBool(d, "k.s"); return e }, func() error { _, e := jo.GetBool("k.s"); return e },
			func() error { _, e := ps.GetBool("k.s"); return e })
		in := []string{"BoolArrayParse", "BoolParse"}
		try("GetBoolArray", in, func() error { _, e := jin.GetBoolArray(d, "k.a"); return e })
	}
	read("StringArrayParse", func() error { _, e := jin.GetStringArray(d, "k.s"); return e },
		func() error { _, e := jo.GetStringArray("k.s"); return e }, func() error { _, e := ps.GetStringArray("k.s"); return e })
	read("IntegerArrayParse", func() error { _, e := jin.GetIntArray(d, "k.s"); return e },
		func() error { _, e := jo.GetIntArray("k.s"); return e }, func() error { _, e := ps.GetIntArray("k.s"); return e })
	read("FloatArrayParse", func() error { _, e := jin.GetFloatArray(d, "k.s"); return e },
		func() error { _, e := jo.GetFloatArray("k.s"); return e }, func() error { _, e := ps.GetFloatArray("k.s"); return e })
	read("BoolArrayParse", func() error { _, e := jin.GetBoolArray(d, "k.s"); return e },
		func() error { _, e := jo.GetBoolArray("k.s"); return e }, func() error { _, e := ps.GetBoolArray("k.s"); return e })
	// errors stay what they were
	r.Shuffle(len(kept), func(i, j int) { kept[i], kept[j] = kept[j], kept[i] })
	for _, k := range kept {
		if k.err.Error() != k.text {
			bad(k.what, "changed to "+k.err.Error(), []string{k.text})
		} else if m := exactly(code, k.err, k.kinds); m != "" {
			bad(k.what, "later "+m, k.kinds)
		}
	}
	if string(ps.JSON()) != string(d) || string(jo.JSON()) != string(d) {
		bad("failing calls", "the document changed: "+string(jo.JSON()), nil)
	}
}

// failingTexts: any error that any call gives for a damaged text is of one
// documented kind
func failingTexts(w *worker, v *eVector, code map[string]int, x string) {
	var all []string
	for k := range code {
		all = append(all, k)
	}
	sort.Strings(all)
	for _, t := range []string{x, `{"` + x, `{"` + x + `":`, `{"` + x + `":[1}`, `["` + x + `"`, `{"a":"` + x + `"]`, `{}`, `[]`, ``, " \n"} {
		d := []byte(t)
		at := []string{x}
		if x == "" {
			at = []string{"a"}
		}
		var errs []error
		add := func(e error) {
			if e != nil {
				errs = append(errs, e)
			}
		}
		p := w.call("calls on "+t, func() {
			_, e := jin.Get(d, at...)
			add(e)
			_, e = jin.Get(d, "0", "1")
			add(e)
			_, e = jin.Set(d, []byte("1"), at...)
			add(e)
			_, e = jin.AddKeyValue(d, "q", []byte("1"))
			add(e)
			_, e = jin.Add(d, []byte("1"))
			add(e)
			_, e = jin.Delete(d, at...)
			add(e)
			_, e = jin.GetKeys(d)
			add(e)
			_, e = jin.GetMap(d)
			add(e)
			_, e = jin.Length(d)
			add(e)
			_, e = jin.GetType(d, at...)
			add(e)
			_, e = jin.IsEmpty(d)
			add(e)
			_, e = jin.Parse(d)
			add(e)
			add(jin.Walk(d, func(string, []byte, []string) (bool, error) { return true, nil }))
			add(jin.IterateArray(d, func([]byte) (bool, error) { return true, nil }))
			add(jin.IterateKeyValue(d, func([]byte, []byte) (bool, error) { return true, nil }))
		})
		w.see("texts")
		if p != "" {
			rep.add(report{checkID, "calls on a damaged text", t, p, "errors"})
		}
		for _, e := range errs {
			if m := exactly(code, e, all); m != "" {
				rep.add(report{checkID, "error for a damaged text", t, m, "one documented code"})
			}
		}
	}
}
