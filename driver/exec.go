package main

// Calls into the code under test: guarded against panics and hangs.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/ecoshub/jin"
)

const (
	codeOK      = -1
	codePanic   = -2
	codeUnknown = -3 // an error without a code, or with several
)

// codeOf: the error code, by the library's own ErrEqual
func codeOf(err error) int {
	if err == nil {
		return codeOK
	}
	code := codeUnknown
	for c := 0; c <= 24; c++ {
		if jin.ErrEqual(err, c) {
			if code != codeUnknown {
				return codeUnknown
			}
			code = c
		}
	}
	return code
}

// report is one disagreement between the specification and the code
type report struct {
	Check string      `json:"check"`
	What  string      `json:"what"`
	Call  interface{} `json:"call"`
	Got   string      `json:"got"`
	Want  string      `json:"want"`
}

type reporter struct {
	mu   sync.Mutex
	n    int64
	max  int
	seen map[string]int
	reps []report
}

func (r *reporter) add(x report) {
	atomic.AddInt64(&r.n, 1)
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.seen == nil {
		r.seen = map[string]int{}
	}
	r.seen[x.What]++
	if r.seen[x.What] <= 3 && len(r.reps) < r.max {
		r.reps = append(r.reps, x)
	}
}

func (r *reporter) count() int64 { return atomic.LoadInt64(&r.n) }

// worker state for the watchdog
type worker struct {
	since int64 // start of the current call, unix nano; 0: none
	desc  atomic.Value
	calls int64
	saw   map[string]int64
}

// see counts what was tried, for the evidence and against vacuity
func (w *worker) see(kind string) {
	if w.saw == nil {
		w.saw = map[string]int64{}
	}
	w.saw[kind]++
}

// tally adds the workers' counts to the summary
func tally(w *worker) {
	summaryMu.Lock()
	defer summaryMu.Unlock()
	all, _ := summary["tried"].(map[string]int64)
	if all == nil {
		all = map[string]int64{}
		summary["tried"] = all
	}
	for k, n := range w.saw {
		all[k] += n
	}
}

var (
	workers   []*worker
	workersMu sync.Mutex
	rep       = &reporter{max: 40}
	checkID   string
)

func newWorker() *worker {
	w := &worker{}
	w.desc.Store("")
	workersMu.Lock()
	workers = append(workers, w)
	workersMu.Unlock()
	return w
}

// hangLimit: calls here take microseconds
const hangLimit = 40 * time.Second
const memLimit = 10 << 30

func watchdog() {
	for {
		time.Sleep(250 * time.Millisecond)
		now := time.Now().UnixNano()
		workersMu.Lock()
		ws := workers
		workersMu.Unlock()
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		for _, w := range ws {
			s := atomic.LoadInt64(&w.since)
			if s == 0 {
				continue
			}
			if now-s > int64(hangLimit) || (ms.HeapAlloc > memLimit && now-s > int64(2*time.Second)) {
				rep.add(report{Check: checkID, What: "hang", Call: w.desc.Load(), Got: "no return", Want: "return"})
				finish()
			}
		}
	}
}

// call runs f, which calls the code under test once or a few times.
// It returns the panic text, or "".
func (w *worker) call(desc string, f func()) (p string) {
	w.desc.Store(desc)
	atomic.StoreInt64(&w.since, time.Now().UnixNano())
	w.calls++
	defer func() {
		atomic.StoreInt64(&w.since, 0)
		if r := recover(); r != nil {
			p = fmt.Sprintf("panic: %v", r)
			st := string(debug.Stack())
			for _, l := range strings.Split(st, "\n") {
				if strings.Contains(l, ".go:") && !strings.Contains(l, "verifdriver") && !strings.Contains(l, "/driver/") && !strings.Contains(l, "/runtime/") {
					p += " at " + strings.TrimSpace(l)
					break
				}
			}
		}
	}()
	f()
	return ""
}

var summary = map[string]interface{}{}
var summaryMu sync.Mutex

func note(k string, v interface{}) {
	summaryMu.Lock()
	summary[k] = v
	summaryMu.Unlock()
}

func bump(k string, n int64) {
	summaryMu.Lock()
	c, _ := summary[k].(int64)
	summary[k] = c + n
	summaryMu.Unlock()
}

func sample(x interface{}) {
	summaryMu.Lock()
	s, _ := summary["samples"].([]interface{})
	if len(s) < 6 {
		summary["samples"] = append(s, x)
	}
	summaryMu.Unlock()
}

var finishOnce sync.Once

// finish prints the result and ends the process
func finish() {
	finishOnce.Do(func() {
		rep.mu.Lock()
		summaryMu.Lock()
		out := map[string]interface{}{"disagreements": rep.n, "reports": rep.reps, "summary": summary}
		b, err := json.Marshal(out)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		os.Stdout.Write(append(b, '\n'))
		os.Exit(0)
	})
	select {}
}

// edit is one edit, ready to be made through any interface
type edit struct {
	op   string
	path []string
	key  string
	idx  int
	val  []byte
}

func (e edit) String() string {
	return fmt.Sprintf("%s path=%q key=%q idx=%d val=%q", e.op, e.path, e.key, e.idx, e.val)
}

func editI(doc []byte, e edit) ([]byte, error) {
	switch e.op {
	case "Set":
		return jin.Set(doc, e.val, e.path...)
	case "SetKey":
		return jin.SetKey(doc, e.key, e.path...)
	case "AddKeyValue":
		return jin.AddKeyValue(doc, e.key, e.val, e.path...)
	case "Add":
		return jin.Add(doc, e.val, e.path...)
	case "Insert":
		return jin.Insert(doc, e.idx, e.val, e.path...)
	case "Delete":
		return jin.Delete(doc, e.path...)
	case "Store":
		return jin.Store(doc, e.key, e.val, e.path...)
	}
	panic("op " + e.op)
}

func editJ(j *jin.JO, e edit) error {
	switch e.op {
	case "Set":
		return j.Set(e.val, e.path...)
	case "SetKey":
		return j.SetKey(e.key, e.path...)
	case "AddKeyValue":
		return j.AddKeyValue(e.key, e.val, e.path...)
	case "Add":
		return j.Add(e.val, e.path...)
	case "Insert":
		return j.Insert(e.idx, e.val, e.path...)
	case "Delete":
		return j.Delete(e.path...)
	case "Store":
		return j.Store(e.key, e.val, e.path...)
	}
	panic("op " + e.op)
}

// editP: Parsers have no Store
func editP(p *jin.Parser, e edit) error {
	switch e.op {
	case "Set":
		return p.Set(e.val, e.path...)
	case "SetKey":
		return p.SetKey(e.key, e.path...)
	case "AddKeyValue":
		return p.AddKeyValue(e.key, e.val, e.path...)
	case "Add":
		return p.Add(e.val, e.path...)
	case "Insert":
		return p.Insert(e.idx, e.val, e.path...)
	case "Delete":
		return p.Delete(e.path...)
	}
	panic("op " + e.op)
}

// frameOK: an edit of the container at path `up` of before (spans in bt) left
// everything outside the container byte for byte, and the texts of the
// surviving children. from[i]: index of the old child that is child i now, -1: new.
func frameOK(before, after []byte, bt, at *cst, up []string, from []int) string {
	b, a := bt.at(up), at.at(up)
	if b == nil || a == nil || b.t != a.t || len(a.c) != len(from) {
		return "container gone or of another size"
	}
	if a.s != b.s || !bytes.Equal(before[:b.s], after[:a.s]) {
		return "text before the container changed"
	}
	if !bytes.Equal(before[b.e:], after[a.e:]) {
		return "text behind the container changed"
	}
	for i, f := range from {
		if f < 0 {
			continue
		}
		if !bytes.Equal(before[b.c[f].s:b.c[f].e], after[a.c[i].s:a.c[i].e]) {
			return fmt.Sprintf("text of child %d changed", f)
		}
		if b.t == 'o' && b.name[f] != a.name[i] {
			return fmt.Sprintf("name of member %d changed", f)
		}
	}
	return ""
}

func inCodes(c int, cs []int) bool {
	for _, x := range cs {
		if x == c {
			return true
		}
	}
	return false
}
