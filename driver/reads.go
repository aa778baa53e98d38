package main

// Reads of every kind at given places of a document, compared with what the
// specification says is there.

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	"github.com/ecoshub/jin"
)

// place at which reads are made, as the specification describes it
type spot struct {
	path  []string
	codes []int // {OK} or the admissible error codes
	t     string
	text  string   // as the getters give it
	raw   string   // as it is written
	names []string // of the children
	texts []string // of the children, as the getters give them
}

func (x *spot) ok() bool { return len(x.codes) == 1 && x.codes[0] == codeOK }

// subject is a document behind one of the interfaces
type subject struct {
	api byte // I J P
	d   []byte
	jo  *jin.JO
	ps  *jin.Parser
}

// answer of a read: code and the rest in one text
type answer struct {
	code int
	repr string
}

func q(x interface{}) string { return fmt.Sprintf("%q", x) }

func mapRepr(m map[string]string) string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var sb strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&sb, "%q=%q;", k, m[k])
	}
	return sb.String()
}

func listRepr(xs []string) string {
	if len(xs) == 0 {
		return "[]"
	}
	return q(xs)
}

// stopper: a callback's decisions; at: which call ends the iteration (0 none)
type stopper struct {
	at   int
	kind int // 0 stop, 1 error with true, 2 error with false
	n    int
}

func (s *stopper) next() (bool, error) {
	s.n++
	if s.at > 0 && s.n >= s.at {
		switch s.kind {
		case 0:
			return false, nil
		case 1:
			return true, errSentinel
		}
		return false, errSentinel
	}
	return true, nil
}

const codeSentinel = 1000 // the callback's own error

func iterCode(err error) int {
	if err == errSentinel {
		return codeSentinel
	}
	return codeOf(err)
}

// read makes the call; keys: for GetAll and GetAllMap; st: for iterations
func (s *subject) read(op string, path []string, keys []string, st stopper) (a answer) {
	var err error
	str := func(x string, e error) { a.repr, err = q(x), e }
	list := func(x []string, e error) { a.repr, err = listRepr(x), e }
	num := func(x int, e error) { a.repr, err = strconv.Itoa(x), e }
	flag := func(x bool, e error) { a.repr, err = strconv.FormatBool(x), e }
	J, P := s.api == 'J', s.api == 'P'
	switch op {
	case "Get":
		var b []byte
		if J {
			b, err = s.jo.Get(path...)
		} else if P {
			b, err = s.ps.Get(path...)
		} else {
			b, err = jin.Get(s.d, path...)
		}
		a.repr = q(string(b))
	case "GetString":
		if J {
			str(s.jo.GetString(path...))
		} else if P {
			str(s.ps.GetString(path...))
		} else {
			str(jin.GetString(s.d, path...))
		}
	case "GetInt":
		if J {
			num(s.jo.GetInt(path...))
		} else if P {
			num(s.ps.GetInt(path...))
		} else {
			num(jin.GetInt(s.d, path...))
		}
	case "GetFloat":
		var f float64
		if J {
			f, err = s.jo.GetFloat(path...)
		} else if P {
			f, err = s.ps.GetFloat(path...)
		} else {
			f, err = jin.GetFloat(s.d, path...)
		}
		a.repr = bits(f)
	case "GetBool":
		if J {
			flag(s.jo.GetBool(path...))
		} else if P {
			flag(s.ps.GetBool(path...))
		} else {
			flag(jin.GetBool(s.d, path...))
		}
	case "GetStringArray":
		if J {
			list(s.jo.GetStringArray(path...))
		} else if P {
			list(s.ps.GetStringArray(path...))
		} else {
			list(jin.GetStringArray(s.d, path...))
		}
	case "GetIntArray":
		var x []int
		if J {
			x, err = s.jo.GetIntArray(path...)
		} else if P {
			x, err = s.ps.GetIntArray(path...)
		} else {
			x, err = jin.GetIntArray(s.d, path...)
		}
		a.repr = fmt.Sprint(x)
	case "GetFloatArray":
		var x []float64
		if J {
			x, err = s.jo.GetFloatArray(path...)
		} else if P {
			x, err = s.ps.GetFloatArray(path...)
		} else {
			x, err = jin.GetFloatArray(s.d, path...)
		}
		y := make([]string, len(x))
		for i := range x {
			y[i] = bits(x[i])
		}
		a.repr = fmt.Sprint(y)
	case "GetBoolArray":
		var x []bool
		if J {
			x, err = s.jo.GetBoolArray(path...)
		} else if P {
			x, err = s.ps.GetBoolArray(path...)
		} else {
			x, err = jin.GetBoolArray(s.d, path...)
		}
		a.repr = fmt.Sprint(x)
	case "GetType":
		if J {
			str(s.jo.GetType(path...))
		} else {
			str(jin.GetType(s.d, path...))
		}
	case "IsObject":
		if J {
			flag(s.jo.IsObject(path...))
		} else {
			flag(jin.IsObject(s.d, path...))
		}
	case "IsArray":
		if J {
			flag(s.jo.IsArray(path...))
		} else {
			flag(jin.IsArray(s.d, path...))
		}
	case "IsValue":
		if J {
			flag(s.jo.IsValue(path...))
		} else {
			flag(jin.IsValue(s.d, path...))
		}
	case "IsEmpty":
		if J {
			flag(s.jo.IsEmpty(path...))
		} else {
			flag(jin.IsEmpty(s.d, path...))
		}
	case "Length":
		num(jin.Length(s.d, path...))
	case "GetKeys":
		if J {
			list(s.jo.GetKeys(path...))
		} else {
			list(jin.GetKeys(s.d, path...))
		}
	case "GetValues":
		if J {
			list(s.jo.GetValues(path...))
		} else {
			list(jin.GetValues(s.d, path...))
		}
	case "GetKeysValues":
		var x, y []string
		if J {
			x, y, err = s.jo.GetKeysValues(path...)
		} else {
			x, y, err = jin.GetKeysValues(s.d, path...)
		}
		a.repr = listRepr(x) + listRepr(y)
	case "GetMap":
		var m map[string]string
		if J {
			m, err = s.jo.GetMap(path...)
		} else {
			m, err = jin.GetMap(s.d, path...)
		}
		a.repr = mapRepr(m)
	case "GetAll":
		if J {
			list(s.jo.GetAll(keys, path...))
		} else {
			list(jin.GetAll(s.d, keys, path...))
		}
	case "GetAllMap":
		var m map[string]string
		if J {
			m, err = s.jo.GetAllMap(keys, path...)
		} else {
			m, err = jin.GetAllMap(s.d, keys, path...)
		}
		a.repr = mapRepr(m)
	case "IterateArray":
		var got kept
		cb := func(v []byte) (bool, error) { got.add(string(v), nil, v); return st.next() }
		if J {
			err = s.jo.IterateArray(cb, path...)
		} else {
			err = jin.IterateArray(s.d, cb, path...)
		}
		return answer{iterCode(err), got.repr()}
	case "IterateKeyValue":
		var got kept
		cb := func(k, v []byte) (bool, error) {
			got.add(string(k), nil, k)
			got.add(string(v), nil, v)
			return st.next()
		}
		if J {
			err = s.jo.IterateKeyValue(cb, path...)
		} else {
			err = jin.IterateKeyValue(s.d, cb, path...)
		}
		return answer{iterCode(err), got.repr()}
	case "Walk":
		var got kept
		cb := func(k string, v []byte, p []string) (bool, error) {
			got.add(leafRepr(k, string(v), p), func() string { return leafRepr(k, string(v), p) }, nil)
			return st.next()
		}
		if J {
			err = s.jo.Walk(cb)
		} else {
			err = jin.Walk(s.d, cb)
		}
		return answer{iterCode(err), got.repr()}
	case "GetNew":
		b := s.ps.GetNew(path...)
		if b == nil {
			return answer{codeOK, "nil"}
		}
		return answer{codeOK, q(string(b))}
	default:
		panic("op " + op)
	}
	a.code = codeOf(err)
	return a
}

// kept: what callbacks were given, as it was then and as it is afterwards
type kept struct {
	then []string
	now  []func() string
}

func (k *kept) add(then string, now func() string, b []byte) {
	if now == nil {
		now = func() string { return string(b) }
	}
	k.then, k.now = append(k.then, then), append(k.now, now)
}

func (k *kept) repr() string {
	for i, f := range k.now {
		if x := f(); x != k.then[i] {
			return fmt.Sprintf("the callback was given %q, which was %q after the iteration", k.then[i], x)
		}
	}
	return listRepr(k.then)
}

func leafRepr(k, v string, p []string) string {
	return k + "\x01" + v + "\x01" + strings.Join(p, "\x02")
}

// verdict on the answer of op at x; "" if it is one the specification allows
func verdict(op string, api byte, docLen int, x *spot, keys []string, keyCodes []int, st stopper, a answer) string {
	root := len(x.path) == 0
	if a.code == codePanic {
		return "a result or an error"
	}
	want := func(codes []int, repr string) string {
		for _, c := range codes {
			if c == a.code {
				if c == codeOK && a.repr != repr {
					break
				}
				return ""
			}
		}
		return fmt.Sprintf("codes %v, %s", codes, repr)
	}
	ok := func(repr string) string { return want([]int{codeOK}, repr) }
	anyError := func() string {
		if a.code >= 0 && a.code < codeSentinel {
			return ""
		}
		return "an error"
	}
	iter := op == "IterateArray" || op == "IterateKeyValue"
	if !x.ok() {
		if op == "GetNew" {
			return ok("nil")
		}
		codes := x.codes
		if api == 'P' {
			codes = []int{8, 7, 3, 2}
		}
		if iter && a.repr != "[]" {
			return "no callback"
		}
		return want(codes, "")
	}
	scalar := x.t != "object" && x.t != "array"
	keysOf := func() string { return listRepr(x.names) }
	emptyRoot := func(repr string) string {
		if len(x.names) == 0 && root && x.t == "object" {
			return want([]int{codeOK, 20}, repr)
		}
		return ok(repr)
	}
	switch op {
	case "Get", "GetString":
		return ok(q(x.text))
	case "GetNew":
		if scalar {
			return ok(q(x.text))
		}
		if strings.HasPrefix(a.repr, `"`) {
			if u, err := strconv.Unquote(a.repr); err == nil && canon([]byte(u)) == canon([]byte(x.text)) {
				return ""
			}
		}
		return "text " + x.text
	case "GetType":
		return ok(q(x.t))
	case "IsObject":
		return ok(strconv.FormatBool(x.t == "object"))
	case "IsArray":
		return ok(strconv.FormatBool(x.t == "array"))
	case "IsValue":
		return ok(strconv.FormatBool(scalar))
	case "IsEmpty":
		if scalar {
			return anyError()
		}
		return ok(strconv.FormatBool(len(x.texts) == 0))
	case "Length":
		if scalar {
			return ""
		}
		return ok(strconv.Itoa(len(x.texts)))
	case "GetKeys", "GetValues", "GetKeysValues":
		if x.t != "object" {
			return want([]int{5}, "")
		}
		r := map[string]string{"GetKeys": keysOf(), "GetValues": listRepr(x.texts), "GetKeysValues": keysOf() + listRepr(x.texts)}[op]
		return emptyRoot(r)
	case "GetMap":
		if scalar {
			return anyError()
		}
		m := map[string]string{}
		for i, k := range x.names {
			m[k] = x.texts[i]
		}
		return ok(mapRepr(m))
	case "GetAll", "GetAllMap":
		m := map[string]string{}
		l := []string{}
		for _, k := range keys {
			hit := false
			for i, n := range x.names {
				if n == k {
					m[k] = x.texts[i]
					l = append(l, x.texts[i])
					hit = true
				}
			}
			if !hit {
				if keyCodes == nil {
					return anyError()
				}
				return want(keyCodes, "")
			}
		}
		if op == "GetAll" {
			return ok(listRepr(l))
		}
		return ok(mapRepr(m))
	case "IterateArray":
		if x.t != "array" {
			codes := []int{6}
			if docLen == 2 {
				codes = append(codes, 9)
			}
			if a.repr != "[]" {
				return "no callback"
			}
			return want(codes, "")
		}
		return iterVerdict(x.texts, 1, st, a, false)
	case "IterateKeyValue":
		if x.t != "object" {
			if a.repr != "[]" {
				return "no callback"
			}
			return want([]int{5}, "")
		}
		l := []string{}
		for i, n := range x.names {
			l = append(l, n, x.texts[i])
		}
		return iterVerdict(l, 2, st, a, root && len(l) == 0)
	}
	panic("op " + op)
}

// iterVerdict: all: the items (per each strings) the iteration has
func iterVerdict(all []string, per int, st stopper, a answer, mayEmpty bool) string {
	code := codeOK
	if n := len(all) / per; st.at > 0 && st.at <= n {
		all = all[:st.at*per]
		if st.kind != 0 {
			code = codeSentinel
		}
	}
	if a.code == code && a.repr == listRepr(all) {
		return ""
	}
	if mayEmpty && a.code == 20 && a.repr == "[]" {
		return ""
	}
	return fmt.Sprintf("code %d, %s", code, listRepr(all))
}

// what each property reads: operations by interface
func readsOf(id string) map[byte][]string {
	switch id {
	case "C01":
		return map[byte][]string{'I': getOps, 'J': getOps}
	case "C02":
		return map[byte][]string{
			'I': {"Get", "GetString", "GetInt", "GetFloat", "GetBool", "GetStringArray", "GetIntArray", "GetFloatArray", "GetBoolArray", "GetType", "IsObject", "IsArray", "IsValue", "IsEmpty", "Length", "GetKeys", "GetValues", "GetKeysValues", "GetMap", "IterateArray", "IterateKeyValue"},
			'J': {"Get", "GetString", "GetInt", "GetFloat", "GetBool", "GetStringArray", "GetIntArray", "GetFloatArray", "GetBoolArray", "GetType", "IsObject", "IsArray", "IsValue", "IsEmpty", "GetKeys", "GetValues", "GetKeysValues", "GetMap", "IterateArray", "IterateKeyValue"}}
	case "C12":
		return map[byte][]string{'P': {"Get", "GetString", "GetNew"}}
	case "C14":
		return map[byte][]string{'I': iterOps, 'J': iterOps}
	case "C15":
		return map[byte][]string{'I': {"Length", "GetKeys", "GetValues", "GetKeysValues", "GetMap", "GetAll", "GetAllMap"}, 'J': joEnumOps}
	case "C16":
		return map[byte][]string{'I': typeOps, 'J': typeOps}
	}
	return nil
}

// checkSpots makes every read the property has at every spot
func checkSpots(w *worker, id string, text []byte, spots []spot) {
	ops := readsOf(id)
	for _, api := range []byte("IJP") {
		if len(ops[api]) == 0 {
			continue
		}
		s := subjectOf(w, api, text, nil)
		if s == nil {
			continue
		}
		for i := range spots {
			x := &spots[i]
			if id == "C02" && x.ok() {
				continue
			}
			for _, op := range ops[api] {
				s.check(w, op, x, spots)
			}
		}
		if id == "C12" {
			s.sameAsInterpreter(w, spots)
		}
	}
}

func subjectOf(w *worker, api byte, text []byte, how interface{}) *subject {
	s := &subject{api: api, d: clone(text)}
	switch api {
	case 'J':
		s.jo = jin.New(clone(text))
	case 'P':
		var err error
		if p := w.call("Parse "+string(text), func() { s.ps, err = jin.Parse(clone(text)) }); p != "" || err != nil {
			rep.add(report{checkID, "Parse of a well formed document", string(text), fmt.Sprintf("%s %v", p, err), "a Parser"})
			return nil
		}
	}
	return s
}

func (s *subject) one(w *worker, op string, path, keys []string, st stopper) answer {
	var a answer
	if p := w.call(op+" on "+string(s.d), func() { a = s.read(op, path, keys, st) }); p != "" {
		return answer{codePanic, p}
	}
	return a
}

func (s *subject) complain(op string, path, keys []string, st stopper, a answer, want string) {
	rep.add(report{checkID, string(s.api) + " " + op, map[string]interface{}{"doc": string(s.d), "path": path, "keys": keys, "ends_at_call": st.at, "how": []string{"stop", "error with true", "error with false"}[st.kind]},
		fmt.Sprintf("code %d, %s", a.code, a.repr), want})
}

// check makes one kind of read at x (for iterations: with every decision)
func (s *subject) check(w *worker, op string, x *spot, spots []spot) {
	one := func(keys []string, codes []int, st stopper) {
		w.see(string(s.api) + " " + op + hitMiss(x))
		a := s.one(w, op, x.path, keys, st)
		if m := verdict(op, s.api, len(s.d), x, keys, codes, st, a); m != "" {
			s.complain(op, x.path, keys, st, a, m)
		}
	}
	switch op {
	case "IterateArray", "IterateKeyValue":
		n := len(x.texts)
		for at := 0; at <= n+1; at++ {
			for k := 0; k < 3; k++ {
				one(nil, nil, stopper{at: at, kind: k})
				if at == 0 {
					break
				}
			}
		}
	case "GetAll", "GetAllMap":
		if !x.ok() || (x.t != "object" && x.t != "array") {
			return
		}
		n := len(x.names)
		one(nil, nil, stopper{})
		for i := 0; i < n; i++ {
			one([]string{x.names[i]}, nil, stopper{})
			for j := 0; j < n; j++ {
				if i != j {
					one([]string{x.names[i], x.names[j]}, nil, stopper{})
				}
			}
		}
		if n > 0 {
			one(x.names, nil, stopper{})
		}
		// one that is not there, first or last
		for i := range spots {
			y := &spots[i]
			if len(y.path) == len(x.path)+1 && !y.ok() && samePath(y.path[:len(x.path)], x.path) {
				e := y.path[len(x.path)]
				one([]string{e}, y.codes, stopper{})
				if n > 0 {
					one([]string{x.names[0], e}, y.codes, stopper{})
					one([]string{e, x.names[n-1]}, y.codes, stopper{})
				}
			}
		}
	default:
		one(nil, nil, stopper{})
	}
}

func hitMiss(x *spot) string {
	if x.ok() {
		return " hit"
	}
	return " miss"
}

func samePath(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// sameAsInterpreter: typed getters of a Parser against the interpreter's
func (s *subject) sameAsInterpreter(w *worker, spots []spot) {
	in := &subject{api: 'I', d: s.d}
	for i := range spots {
		x := &spots[i]
		for _, op := range typedOps {
			if len(x.path) == 0 && strings.HasSuffix(op, "Array") {
				continue
			}
			w.see("P " + op + hitMiss(x))
			a, b := s.one(w, op, x.path, nil, stopper{}), in.one(w, op, x.path, nil, stopper{})
			if !x.ok() {
				if m := verdict("Get", 'P', len(s.d), x, nil, nil, stopper{}, a); m != "" {
					s.complain(op, x.path, nil, stopper{}, a, m)
				}
				continue
			}
			if a.code == codePanic || (a.code == codeOK) != (b.code == codeOK) || (a.code == codeOK && a.repr != b.repr) {
				s.complain(op, x.path, nil, stopper{}, a, fmt.Sprintf("as the interpreter: code %d, %s", b.code, b.repr))
			}
		}
	}
}

// checkWalk: with every decision; leaves as leafRepr
func checkWalk(w *worker, text []byte, leaves []string, emptyRoot bool) {
	for _, api := range []byte("IJ") {
		s := subjectOf(w, api, text, nil)
		for at := 0; at <= len(leaves)+1; at++ {
			for k := 0; k < 3; k++ {
				st := stopper{at: at, kind: k}
				w.see(string(api) + " Walk hit")
				a := s.one(w, "Walk", nil, nil, st)
				if m := iterVerdict(leaves, 1, st, a, emptyRoot); m != "" {
					s.complain("Walk", nil, nil, st, a, m)
				}
				if at == 0 {
					break
				}
			}
		}
	}
}

type line struct {
	n int
	l string
}

// checkTree: lines of Tree
func checkTree(w *worker, text []byte, want []line) {
	s := subjectOf(w, 'P', text, nil)
	if s == nil {
		return
	}
	var got string
	if p := w.call("Tree", func() { got = s.ps.Tree() }); p != "" {
		rep.add(report{checkID, "Tree", string(text), p, "a text"})
		return
	}
	w.see("P Tree hit")
	if m := sameTree(got, want); m != "" {
		rep.add(report{checkID, "Tree", string(text), got, m})
	}
}

func checkFormat(w *worker, text []byte, flat, indented string) {
	one := func(what string, want string, f func() []byte) {
		var got []byte
		w.see(what)
		p := w.call(what+" "+string(text), func() { got = f() })
		if p != "" || string(got) != want {
			rep.add(report{checkID, what, string(text), p + string(got), want})
		}
	}
	one("Flatten", flat, func() []byte { return jin.Flatten(clone(text)) })
	one("Indent", indented, func() []byte { return jin.Indent(clone(text)) })
	one("Flatten(Indent)", flat, func() []byte { return jin.Flatten(jin.Indent(clone(text))) })
	one("Indent(Flatten)", indented, func() []byte { return jin.Indent(jin.Flatten(clone(text))) })
	one("Flatten(Flatten)", flat, func() []byte { return jin.Flatten(jin.Flatten(clone(text))) })
	one("Indent(Indent)", indented, func() []byte { return jin.Indent(jin.Indent(clone(text))) })
}

func checkParseArray(w *worker, x *spot) {
	if x.t != "array" || !x.ok() {
		return
	}
	text := strings.Trim(x.text, " \t\r\n") // without a path: the document, space around it included
	var got []string
	p := w.call("ParseArray "+text, func() { got = jin.ParseArray(text) })
	if p != "" || listRepr(got) != listRepr(x.texts) {
		rep.add(report{checkID, "ParseArray", text, p + listRepr(got), listRepr(x.texts)})
	}
}
