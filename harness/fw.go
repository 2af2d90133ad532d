package main

// The framework: facets (generator + oracle), the worker that drives one facet
// with rapid, and helpers shared by all of them.
//
// A facet turns a *rapid.T into a serialisable case, and decides a case with a
// pure function of that case and of the code under test. Because a case is a
// plain JSON value, a shrunk failure is a replay file that needs no rapid.

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"pgregory.net/rapid"
)

// Rec receives what a case turned out to be.
type Rec struct {
	labels     map[string]int64
	nontrivial bool
	known      map[string]bool // signatures listed in the known-findings file for this property
	knownHits  map[string]int64
	ops        int64
}

// Label counts a class of cases in the evidence.
func (r *Rec) Label(format string, args ...interface{}) {
	if r.labels == nil {
		r.labels = map[string]int64{}
	}
	if len(args) > 0 {
		format = fmt.Sprintf(format, args...)
	}
	r.labels[format]++
}

// LabelIf counts a class when cond is true.
func (r *Rec) LabelIf(cond bool, l string) {
	if cond {
		r.Label(l)
	}
}

// NonTrivial marks the case as non-trivial by the facet's stated rule.
func (r *Rec) NonTrivial() { r.nontrivial = true }

// finding is an error with a signature that a known-findings file may list.
type finding struct {
	sig string
	err error
}

func (f *finding) Error() string { return f.sig + ": " + f.err.Error() }

func findingf(sig, format string, args ...interface{}) error {
	return &finding{sig, fmt.Errorf(format, args...)}
}

// panicError is a panic of the code under test (or of the harness itself).
type panicError struct {
	val   interface{}
	stack string
}

func (p *panicError) Error() string { return fmt.Sprintf("panic: %v\n%s", p.val, p.stack) }

// errHarness marks failures that are the harness' own, never a violation.
type errHarness struct{ msg string }

func (e *errHarness) Error() string { return "HARNESS: " + e.msg }

func harnessf(format string, args ...interface{}) error {
	return &errHarness{fmt.Sprintf(format, args...)}
}

// Facet is one executable check of a property.
type Facet struct {
	Prop, Name string
	Rule       string // what makes a case non-trivial
	Quick      int    // number of cases in the quick tier
	Thorough   int    // number of cases in the thorough tier
	MaxShards  int    // 0: as many as there are cores
	Procs      int    // number of threads that run Go code at the same time, if more than 2
	Race       bool   // run by the executable built with the race detector, if there is one
	gen        func(*rapid.T) interface{}
	check      func(interface{}, *Rec) error
	decode     func([]byte) (interface{}, error)
}

var facets []*Facet

func (f *Facet) id() string { return f.Prop + "/" + f.Name }

// reg registers a facet.
func reg[C any](prop, name, rule string, quick, thorough int, gen func(*rapid.T) C, check func(C, *Rec) error) *Facet {
	f := &Facet{Prop: prop, Name: name, Rule: rule, Quick: quick, Thorough: thorough}
	f.gen = func(t *rapid.T) interface{} { return gen(t) }
	f.check = func(c interface{}, r *Rec) error { return check(c.(C), r) }
	f.decode = func(b []byte) (interface{}, error) {
		var c C
		err := json.Unmarshal(b, &c)
		return c, err
	}
	facets = append(facets, f)
	return f
}

// regEnum registers a facet that enumerates a finite list of cases: the generator draws an index.
func findFacet(id string) *Facet {
	for _, f := range facets {
		if f.id() == id {
			return f
		}
	}
	return nil
}

// runCheck runs the oracle on a case. A panic of the code under test is a failure.
func (f *Facet) runCheck(c interface{}, r *Rec) (err error) {
	defer func() {
		if p := recover(); p != nil {
			if isRapidPanic(p) {
				panic(p)
			}
			stack := debug.Stack()
			err = &panicError{p, trimStack(stack)}
			if harnessPanic(string(stack)) {
				err = harnessf("%v", err)
			}
		}
	}()
	err = f.check(c, r)
	return err
}

// harnessPanic tells whether a panic occurred in the harness rather than in the code under test:
// it says which of them called the function that panicked.
func harnessPanic(stack string) bool {
	i := strings.LastIndex(stack, "\npanic(")
	if i < 0 {
		return false
	}
	for _, l := range strings.Split(stack[i:], "\n") {
		switch {
		case strings.HasPrefix(l, "github.com/tc-hib/winres"):
			return false
		case strings.HasPrefix(l, "main."):
			return true
		}
	}
	return true
}

func isRapidPanic(p interface{}) bool {
	s := fmt.Sprintf("%T", p)
	return strings.HasPrefix(s, "rapid.")
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	var out []string
	for _, l := range lines {
		if strings.HasPrefix(l, "\t") {
			if i := strings.Index(l, " +0x"); i > 0 {
				l = l[:i]
			}
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) > 14 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// failure describes one failing case, in a replay file.
type failure struct {
	Facet   string          `json:"facet"`
	Seed    uint64          `json:"seed"`
	Message string          `json:"message"`
	Case    json.RawMessage `json:"case"`
	Kind    string          `json:"kind"` // violation, harness, crash, hang
}

// result is what a worker reports.
type result struct {
	Facet       string            `json:"facet"`
	Shard       int               `json:"shard"`
	Evaluations int64             `json:"evaluations"`
	NonTrivial  []uint64          `json:"nontrivial"`
	Labels      map[string]int64  `json:"labels"`
	Samples     []json.RawMessage `json:"samples"`
	KnownHits   map[string]int64  `json:"known_hits"`
	Failure     *failure          `json:"failure"`
	Complete    bool              `json:"complete"`
}

// fakeTB lets rapid run outside of go test.
type fakeTB struct {
	name   string
	failed bool
	log    bytes.Buffer
}

type tbStop struct{}

func (t *fakeTB) Helper()                                   {}
func (t *fakeTB) Name() string                              { return t.name }
func (t *fakeTB) Logf(format string, args ...interface{})   { fmt.Fprintf(&t.log, format+"\n", args...) }
func (t *fakeTB) Log(args ...interface{})                   { fmt.Fprintln(&t.log, args...) }
func (t *fakeTB) Skipf(format string, args ...interface{})  { t.Logf(format, args...); panic(tbStop{}) }
func (t *fakeTB) Skip(args ...interface{})                  { t.Log(args...); panic(tbStop{}) }
func (t *fakeTB) SkipNow()                                  { panic(tbStop{}) }
func (t *fakeTB) Errorf(format string, args ...interface{}) { t.Logf(format, args...); t.failed = true }
func (t *fakeTB) Error(args ...interface{})                 { t.Log(args...); t.failed = true }
func (t *fakeTB) Fatalf(format string, args ...interface{}) {
	t.Logf(format, args...)
	t.failed = true
	panic(tbStop{})
}
func (t *fakeTB) Fatal(args ...interface{}) { t.Log(args...); t.failed = true; panic(tbStop{}) }
func (t *fakeTB) FailNow()                  { t.failed = true; panic(tbStop{}) }
func (t *fakeTB) Fail()                     { t.failed = true }
func (t *fakeTB) Failed() bool              { return t.failed }

func hash64(b []byte) uint64 {
	h := fnv.New64a()
	h.Write(b)
	return h.Sum64()
}

// caseStart is the process CPU time when the current case began (for the hang watchdog).
var (
	caseStart  atomic.Int64
	caseActive atomic.Bool
)

type workerCfg struct {
	facet   *Facet
	shard   int
	shards  int
	seed    uint64
	cur     string // file that always holds the case being checked
	known   map[string]bool
	samples int
	until   time.Time // stop generating cases, if not zero
	shrink  time.Duration
}

// runWorker drives one facet with rapid and returns what happened.
func runWorker(cfg workerCfg) *result {
	f := cfg.facet
	res := &result{Facet: f.id(), Shard: cfg.shard, Labels: map[string]int64{}, KnownHits: map[string]int64{}}
	seen := map[uint64]bool{}
	var cur *os.File
	if cfg.cur != "" {
		cur, _ = os.OpenFile(cfg.cur, os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0o644)
	}
	var last *failure
	failedOnce := false
	var shrinkUntil time.Time
	tb := &fakeTB{name: strings.ReplaceAll(f.id(), "/", "_")}
	prop := func(t *rapid.T) {
		if !failedOnce && !cfg.until.IsZero() && time.Now().After(cfg.until) {
			return
		}
		if failedOnce && cfg.shrink > 0 && time.Now().After(shrinkUntil) {
			return // rapid's own limit is not checked between all attempts, and some cases are long
		}
		c := f.gen(t)
		js, err := json.Marshal(c)
		if err != nil {
			last = &failure{Facet: f.id(), Seed: cfg.seed, Message: "cannot serialise case: " + err.Error(), Kind: "harness"}
			t.Fatalf("harness")
		}
		if cur != nil {
			cur.WriteAt(js, 0)
			cur.Truncate(int64(len(js)))
		}
		r := &Rec{known: cfg.known}
		caseStart.Store(cpuNanos())
		caseActive.Store(true)
		err = f.runCheck(c, r)
		caseActive.Store(false)
		if fi := (*finding)(nil); errors.As(err, &fi) && cfg.known[fi.sig] {
			res.KnownHits[fi.sig]++
			err = nil
		}
		if !failedOnce {
			res.Evaluations++
			for l, n := range r.labels {
				res.Labels[l] += n
			}
			if r.nontrivial {
				h := hash64(js)
				if !seen[h] {
					seen[h] = true
					if len(res.Samples) < cfg.samples {
						res.Samples = append(res.Samples, sample(js))
					}
				}
			}
		}
		if err != nil {
			if !failedOnce {
				shrinkUntil = time.Now().Add(cfg.shrink + 3*time.Second)
			}
			failedOnce = true
			kind := "violation"
			if he := (*errHarness)(nil); errors.As(err, &he) {
				kind = "harness"
			}
			last = &failure{Facet: f.id(), Seed: cfg.seed, Message: err.Error(), Case: js, Kind: kind}
			t.Fatalf("%v", err)
		}
	}
	func() {
		defer func() {
			if p := recover(); p != nil {
				if _, ok := p.(tbStop); !ok {
					last = &failure{Facet: f.id(), Seed: cfg.seed, Message: fmt.Sprintf("rapid panicked: %v\n%s", p, debug.Stack()), Kind: "harness"}
				}
			}
		}()
		rapid.Check(tb, prop)
	}()
	if tb.failed && last == nil {
		last = &failure{Facet: f.id(), Seed: cfg.seed, Message: "rapid: " + tb.log.String(), Kind: "harness"}
	}
	res.Failure = last
	for h := range seen {
		res.NonTrivial = append(res.NonTrivial, h)
	}
	sort.Slice(res.NonTrivial, func(i, j int) bool { return res.NonTrivial[i] < res.NonTrivial[j] })
	res.Complete = true
	return res
}

func sample(js []byte) json.RawMessage {
	const max = 1500
	if len(js) <= max {
		return json.RawMessage(js)
	}
	s, _ := json.Marshal(strings.ToValidUTF8(string(js[:max]), "") + "... (truncated)")
	return s
}

// allocDelta measures the bytes allocated while f runs.
func allocDelta(f func()) uint64 {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	return b.TotalAlloc - a.TotalAlloc
}
