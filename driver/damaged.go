package main

// Damaged input: any bytes, any path, every function.

import (
	"math/rand"
	"strconv"
	"strings"

	"github.com/ecoshub/jin"
)

// probe is one function applied to any document and path
type probe struct {
	name string
	f    func(d []byte, p []string) error
}

func cbA([]byte) (bool, error)                   { return true, nil }
func cbK(k, v []byte) (bool, error)              { return true, nil }
func cbW(string, []byte, []string) (bool, error) { return true, nil }

var probes = []probe{
	{"Get", func(d []byte, p []string) error { _, e := jin.Get(d, p...); return e }},
	{"GetString", func(d []byte, p []string) error { _, e := jin.GetString(d, p...); return e }},
	{"GetInt", func(d []byte, p []string) error { _, e := jin.GetInt(d, p...); return e }},
	{"GetFloat", func(d []byte, p []string) error { _, e := jin.GetFloat(d, p...); return e }},
	{"GetBool", func(d []byte, p []string) error { _, e := jin.GetBool(d, p...); return e }},
	{"GetStringArray", func(d []byte, p []string) error { _, e := jin.GetStringArray(d, p...); return e }},
	{"GetIntArray", func(d []byte, p []string) error { _, e := jin.GetIntArray(d, p...); return e }},
	{"GetFloatArray", func(d []byte, p []string) error { _, e := jin.GetFloatArray(d, p...); return e }},
	{"GetBoolArray", func(d []byte, p []string) error { _, e := jin.GetBoolArray(d, p...); return e }},
	{"GetKeys", func(d []byte, p []string) error { _, e := jin.GetKeys(d, p...); return e }},
	{"GetValues", func(d []byte, p []string) error { _, e := jin.GetValues(d, p...); return e }},
	{"GetKeysValues", func(d []byte, p []string) error { _, _, e := jin.GetKeysValues(d, p...); return e }},
	{"GetMap", func(d []byte, p []string) error { _, e := jin.GetMap(d, p...); return e }},
	{"GetAll", func(d []byte, p []string) error { _, e := jin.GetAll(d, []string{"a", "0"}, p...); return e }},
	{"GetAllMap", func(d []byte, p []string) error { _, e := jin.GetAllMap(d, []string{"a", "0"}, p...); return e }},
	{"Length", func(d []byte, p []string) error { _, e := jin.Length(d, p...); return e }},
	{"GetType", func(d []byte, p []string) error { _, e := jin.GetType(d, p...); return e }},
	{"IsObject", func(d []byte, p []string) error { _, e := jin.IsObject(d, p...); return e }},
	{"IsArray", func(d []byte, p []string) error { _, e := jin.IsArray(d, p...); return e }},
	{"IsValue", func(d []byte, p []string) error { _, e := jin.IsValue(d, p...); return e }},
	{"IsEmpty", func(d []byte, p []string) error { _, e := jin.IsEmpty(d, p...); return e }},
	{"IterateArray", func(d []byte, p []string) error { return jin.IterateArray(d, cbA, p...) }},
	{"IterateKeyValue", func(d []byte, p []string) error { return jin.IterateKeyValue(d, cbK, p...) }},
	{"Walk", func(d []byte, p []string) error { return jin.Walk(d, cbW) }},
	{"Flatten", func(d []byte, p []string) error { jin.Flatten(d); return nil }},
	{"Indent", func(d []byte, p []string) error { jin.Indent(d); return nil }},
	{"ParseArray", func(d []byte, p []string) error { jin.ParseArray(string(d)); return nil }},
	{"Set", func(d []byte, p []string) error { _, e := jin.Set(d, []byte("1"), p...); return e }},
	{"SetString", func(d []byte, p []string) error { _, e := jin.SetString(d, string(d), p...); return e }},
	{"SetKey", func(d []byte, p []string) error { _, e := jin.SetKey(d, "q", p...); return e }},
	{"AddKeyValue", func(d []byte, p []string) error { _, e := jin.AddKeyValue(d, "q", []byte("1"), p...); return e }},
	{"Add", func(d []byte, p []string) error { _, e := jin.Add(d, []byte("1"), p...); return e }},
	{"Insert", func(d []byte, p []string) error { _, e := jin.Insert(d, 0, []byte("1"), p...); return e }},
	{"Insert1", func(d []byte, p []string) error { _, e := jin.Insert(d, 1, []byte("1"), p...); return e }},
	{"Delete", func(d []byte, p []string) error { _, e := jin.Delete(d, p...); return e }},
	{"Store", func(d []byte, p []string) error { _, e := jin.Store(d, "a", []byte("1"), p...); return e }},
	{"Scheme", func(d []byte, p []string) error {
		s := jin.MakeScheme("a", "b")
		s.Check(d)
		s.CheckAbs(d)
		s.MutateJson(d)
		_, e := s.MutateJsonAbs(d)
		return e
	}},
	{"Parse", func(d []byte, p []string) error {
		q, e := jin.Parse(d)
		if e != nil {
			return e
		}
		q.Get(p...)
		q.GetNew(p...)
		q.GetNew()
		q.Tree()
		q.TreeFull()
		q.GetIntArray(p...)
		q.GetStringArray(p...)
		q.GetFloatArray(p...)
		q.GetBoolArray(p...)
		return nil
	}},
	{"ParserEdit", func(d []byte, p []string) error {
		q, e := jin.Parse(d)
		if e != nil {
			return e
		}
		q.Set([]byte("1"), p...)
		q.SetKey("q", p...)
		q.AddKeyValue("q", []byte("1"), p...)
		q.Add([]byte("1"), p...)
		q.Insert(0, []byte("1"), p...)
		q.Delete(p...)
		q.Get(p...)
		q.GetNew(p...)
		q.Tree()
		return nil
	}},
	{"JO", func(d []byte, p []string) error {
		j := jin.New(d)
		j.Set([]byte("1"), p...)
		j.SetKey("q", p...)
		j.AddKeyValue("q", []byte("1"), p...)
		j.Add([]byte("1"), p...)
		j.Insert(0, []byte("1"), p...)
		j.Store("a", []byte("1"), p...)
		j.Walk(cbW)
		return j.Delete(p...)
	}},
}

// more functions, applied like the probes
func init() {
	edits := []string{"Set", "SetKey", "AddKeyValue", "Add", "Insert", "Delete", "Store"}
	args := []arg{{form: "string", text: "a"}, {form: "int", i: 1, text: "1"}, {form: "float", f: 1.5, text: "1.5"}, {form: "bool", b: true, text: "true"}}
	probes = append(probes,
		probe{"typed", func(d []byte, p []string) error {
			for _, a := range args {
				for _, op := range edits {
					if op != "SetKey" && op != "Delete" {
						typedI(d, op, p, "q", 0, a, []byte(a.text))
					}
				}
			}
			return nil
		}},
		probe{"JO typed", func(d []byte, p []string) error {
			j := jin.New(clone(d))
			for _, a := range args {
				for _, op := range edits {
					if op != "SetKey" && op != "Delete" {
						typedJ(j, op, p, "q", 0, a, []byte(a.text))
					}
				}
			}
			_ = j.String()
			return nil
		}},
		probe{"Parser typed", func(d []byte, p []string) error {
			q, e := jin.Parse(clone(d))
			if e != nil {
				return e
			}
			for _, a := range args {
				for _, op := range edits {
					if op != "SetKey" && op != "Delete" && op != "Store" {
						typedP(q, op, p, "q", 0, a, []byte(a.text))
					}
				}
			}
			q.Tree()
			return nil
		}},
		probe{"stop", func(d []byte, p []string) error {
			jin.IterateArray(d, func([]byte) (bool, error) { return false, nil }, p...)
			jin.IterateKeyValue(d, func(k, v []byte) (bool, error) { return false, nil }, p...)
			return jin.Walk(d, func(string, []byte, []string) (bool, error) { return false, nil })
		}},
		probe{"Make", func(d []byte, p []string) error {
			jin.MakeArray(string(d), d)
			jin.MakeArrayString([]string{string(d), string(d)})
			jin.MakeArrayBytes(d, d)
			jin.MakeJson([]string{string(d)}, []interface{}{string(d)})
			jin.MakeJsonString([]string{string(d)}, []string{string(d)})
			jin.MakeJsonWithMap(map[string]string{string(d): string(d)})
			s := jin.MakeScheme(string(d))
			s.Add(string(d) + "x")
			s.Remove(string(d))
			s.MakeJsonString(string(d))
			return nil
		}},
		// the damaged text as value, name and path
		probe{"value", func(d []byte, p []string) error {
			doc := []byte(`{"a":[1,{"b":2}],"0":"x"}`)
			jin.Set(doc, d, p...)
			jin.SetKey(doc, string(d), p...)
			jin.AddKeyValue(doc, string(d), d, p...)
			jin.Add(doc, d, p...)
			jin.Insert(doc, 0, d, p...)
			jin.Store(doc, string(d), d, p...)
			jin.SetString(doc, string(d), p...)
			jin.Get(doc, append(append([]string{}, p...), string(d))...)
			jin.Delete(doc, string(d))
			jin.GetAll(doc, []string{string(d)}, p...)
			q, e := jin.Parse(clone(doc))
			if e != nil {
				return e
			}
			q.Get(append(append([]string{}, p...), string(d))...)
			q.Set(d, p...)
			q.SetKey(string(d), p...)
			q.AddKeyValue(string(d), d, p...)
			q.Add(d, p...)
			q.Insert(0, d, p...)
			q.Tree()
			q.TreeFull()
			q.GetNew()
			return nil
		}})
	pathless["Make"] = true
}

var probePaths = [][]string{{}, {"a"}, {"0"}, {"1"}, {"a", "a"}, {"a", "0"}, {"0", "a"}, {"0", "0"}, {"1", "0"}, {"b", "1", "a"}, {"-1"}, {""}, {"a", "", "0"}}

// pathless: the path makes no difference to these
var pathless = map[string]bool{"Walk": true, "Flatten": true, "Indent": true, "ParseArray": true, "Scheme": true}

func damage(r *rand.Rand, d []byte) []byte {
	d = clone(d)
	for n := 1 + r.Intn(3); n > 0 && len(d) > 0; n-- {
		i := r.Intn(len(d))
		switch r.Intn(8) {
		case 0, 1:
			d = d[:i]
		case 2:
			d = append(d[:i:i], d[i+1:]...)
		case 3:
			d[i] = `"\{}[]:,a1 `[r.Intn(11)]
		case 4:
			d = append(d[:i:i], append([]byte{`"\{}[]:,a1 `[r.Intn(11)]}, d[i:]...)...)
		case 5:
			d = d[i:]
		case 6:
			d[i] = byte(r.Intn(256))
		case 7:
			j := r.Intn(len(d))
			d[i], d[j] = d[j], d[i]
		}
	}
	return d
}

func soup(r *rand.Rand) []byte {
	n := r.Intn(14)
	var sb strings.Builder
	for i := 0; i < n; i++ {
		sb.WriteString(pick(r, []string{"{", "}", "[", "]", `"`, `\`, ":", ",", "a", "1", " ", "\n", `"a"`, `"a":`, "true", "null", "{}", "[]", `""`, "\x00", "\xff"}))
	}
	return []byte(sb.String())
}

// damagedSession: one damaged document, every function, one path each
func (rc *recorder) damagedSession() {
	r := rc.r
	var d []byte
	switch r.Intn(4) {
	case 0:
		d = soup(r)
	default:
		l := randLayout(r)
		whole := []byte(rc.docBody(2+r.Intn(8), l))
		if len(whole) > 400 {
			return
		}
		d = damage(r, whole)
	}
	p := probePaths[r.Intn(len(probePaths))]
	if r.Intn(2) == 0 {
		// a path made of names in the text
		p = []string{}
		for _, x := range strings.FieldsFunc(string(d), func(c rune) bool { return strings.ContainsRune(`"{}[]:, `, c) }) {
			if r.Intn(3) == 0 {
				p = append(p, x)
			} else if r.Intn(6) == 0 {
				p = append(p, strconv.Itoa(r.Intn(3)))
			}
			if len(p) > 3 {
				break
			}
		}
	}
	for _, pr := range probes {
		if pr.name != "Parse" && r.Intn(3) > 0 {
			continue
		}
		in := clone(d)
		rc.doc = d
		var err error
		e := ev{"o": "Damaged", "s": pr.name, "d": ib(d), "p": iss(p)}
		pn := rc.w.call(pr.name+" on "+strconv.Quote(string(d)), func() { err = pr.f(in, p) })
		e["c"] = codeOf(err)
		if pn != "" {
			e["c"] = codePanic
			e["panic"] = pn
		}
		rc.emit(e)
	}
}
