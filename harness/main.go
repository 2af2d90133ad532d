package main

// The orchestrator: `check` runs every facet of a property in worker processes,
// `worker` is one of those, `replay` decides one saved case, `list` lists facets.

import (
	"bytes"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"
)

const (
	exitOK        = 0
	exitViolation = 1
	exitError     = 2
	exitHang      = 7

	hangCPU = 60 * time.Second // CPU time of one case; cases take milliseconds, a few seconds at most
)

func cpuNanos() int64 {
	var ru syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &ru) != nil {
		return 0
	}
	return ru.Utime.Nano() + ru.Stime.Nano()
}

func watchdog() {
	for {
		time.Sleep(500 * time.Millisecond)
		if caseActive.Load() && time.Duration(cpuNanos()-caseStart.Load()) > hangCPU {
			fmt.Fprintln(os.Stderr, "HANG: one case used more than", hangCPU, "of CPU time")
			os.Exit(exitHang)
		}
	}
}

func main() {
	testing.Init()
	debug.SetGCPercent(200)
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: check|worker|replay|list")
		os.Exit(exitError)
	}
	cmd := os.Args[1]
	os.Args = append(os.Args[:1], os.Args[2:]...)
	switch cmd {
	case "check":
		os.Exit(cmdCheck())
	case "worker":
		os.Exit(cmdWorker())
	case "replay":
		os.Exit(cmdReplay())
	case "list":
		for _, f := range facets {
			fmt.Println(f.id(), f.Quick, f.Thorough)
		}
	default:
		os.Exit(exitError)
	}
}

func cmdWorker() int {
	var (
		facet   = flag.String("facet", "", "")
		shard   = flag.Int("shard", 0, "")
		seed    = flag.Uint64("seed", 1, "")
		checks  = flag.Int("checks", 1, "")
		resFile = flag.String("res", "", "")
		cur     = flag.String("cur", "", "")
		known   = flag.String("known", "", "")
		shrink  = flag.Duration("shrink", 15*time.Second, "")
		budget  = flag.Duration("for", 0, "")
	)
	flag.Parse()
	f := findFacet(*facet)
	if f == nil {
		fmt.Fprintln(os.Stderr, "no such facet")
		return exitError
	}
	flag.Set("rapid.checks", strconv.Itoa(*checks))
	flag.Set("rapid.seed", strconv.FormatUint(*seed, 10))
	flag.Set("rapid.nofailfile", "true")
	flag.Set("rapid.shrinktime", shrink.String())
	runtime.GOMAXPROCS(max(2, f.Procs))
	k := map[string]bool{}
	for _, s := range strings.Split(*known, ",") {
		if s != "" {
			k[s] = true
		}
	}
	if p := os.Getenv("VERIF_CPUPROFILE"); p != "" { // for development
		w, _ := os.Create(p)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	go watchdog()
	cfg := workerCfg{facet: f, shard: *shard, seed: *seed, cur: *cur, known: k, samples: 1, shrink: *shrink}
	if *budget > 0 {
		cfg.until = time.Now().Add(*budget)
	}
	res := runWorker(cfg)
	b, err := json.Marshal(res)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitError
	}
	if err := os.WriteFile(*resFile, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitError
	}
	return exitOK
}

// cmdReplay decides a replay file. Exit 1 if the case still fails.
func cmdReplay() int {
	quiet := flag.Bool("q", false, "")
	flag.Parse()
	b, err := os.ReadFile(flag.Arg(0))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitError
	}
	var fl failure
	if err := json.Unmarshal(b, &fl); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitError
	}
	f := findFacet(fl.Facet)
	if f == nil {
		fmt.Fprintln(os.Stderr, "no such facet:", fl.Facet)
		return exitError
	}
	c, err := f.decode(fl.Case)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitError
	}
	go watchdog()
	caseStart.Store(cpuNanos())
	caseActive.Store(true)
	err = f.runCheck(c, &Rec{})
	caseActive.Store(false)
	removeLinkDir()
	if he := (*errHarness)(nil); errors.As(err, &he) {
		fmt.Println(err)
		return exitError
	}
	if err != nil {
		if !*quiet {
			fmt.Println("STILL FAILS:", err)
		}
		return exitViolation
	}
	if !*quiet {
		fmt.Println("PASSES")
	}
	return exitOK
}

type task struct {
	f      *Facet
	shard  int
	seed   uint64
	checks int
	res    *result
	err    error
	fail   *failure
}

func facetSeed(seed int64, id string, shard int) uint64 {
	h := hash64([]byte(fmt.Sprintf("%d|%s|%d", seed, id, shard)))
	if h == 0 {
		h = 1
	}
	return h
}

type knownFinding struct{ sig, text string }

func loadKnown(path, prop string) ([]knownFinding, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		if os.IsNotExist(err) {
			return nil, nil
		}
		return nil, err
	}
	var out []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known:") {
			continue
		}
		fs := strings.Fields(strings.TrimPrefix(l, "known:"))
		if len(fs) < 2 || fs[0] != "property="+prop || !strings.HasPrefix(fs[1], "sig=") {
			continue
		}
		out = append(out, knownFinding{strings.TrimPrefix(fs[1], "sig="), strings.Join(fs[2:], " ")})
	}
	return out, nil
}

// quickScale multiplies the numbers of cases of the quick tier, so that every property takes about ten seconds on 8 cores.
var quickScale = map[string]int{"C01": 30, "C02": 2, "C03": 4, "C04": 6, "C05": 10, "C06": 9, "C07": 9, "C08": 11, "C09": 6, "C10": 8, "C11": 6, "C12": 7,
	"C14": 3, "C15": 5, "C16": 10, "C17": 6, "C18": 4, "C19": 12, "C20": 2, "C21": 5, "C22": 4, "C23": 6, "C24": 10, "C26": 3}

func cmdCheck() int {
	var (
		prop   = flag.String("prop", "", "")
		tier   = flag.String("tier", "quick", "")
		seed   = flag.Int64("seed", 1, "")
		out    = flag.String("out", "/verif", "")
		only   = flag.String("facet", "", "run only this facet (for development)")
		mult   = flag.Float64("mult", 1, "multiply the number of cases (for development)")
		limit  = flag.Duration("limit", 780*time.Second, "wall-clock limit; reaching it is an error, not a verdict")
		budget = flag.Duration("budget", 600*time.Second, "wall-clock time that the thorough tier spends at most, shared between facets")
		extra  = flag.String("extra", "", "file with extra coverage fields (JSON object) for the evidence")
		shrink = flag.Duration("shrink", 15*time.Second, "")
	)
	flag.Parse()
	start := time.Now()
	deadline := start.Add(*limit)

	known, err := loadKnown(filepath.Join(*out, "known_findings.txt"), *prop)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitError
	}
	var sigs []string
	for _, k := range known {
		sigs = append(sigs, k.sig)
	}

	scratch, err := os.MkdirTemp("", "verif-run-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitError
	}
	defer os.RemoveAll(scratch)
	if *prop == "C28" || *prop == "C29" {
		dir := filepath.Join(scratch, "link")
		err := os.Mkdir(dir, 0o755)
		if err == nil {
			err = prepareLinks(dir)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return exitError
		}
		os.Setenv(linkEnv, dir)
	}

	cores := runtime.NumCPU()
	var mine []*Facet
	var tasks []*task
	for _, f := range facets {
		if f.Prop != *prop || (*only != "" && f.Name != *only) {
			continue
		}
		mine = append(mine, f)
		n := f.Quick * max(1, quickScale[f.Prop])
		if *tier == "thorough" {
			n = max(f.Thorough, 60*n)
		}
		n = int(float64(n) * *mult)
		if n < 1 {
			n = 1
		}
		// The number of shards is fixed, so that a run is a function of the seed and not of the machine.
		shards := 8
		if f.MaxShards > 0 && shards > f.MaxShards {
			shards = f.MaxShards
		}
		if shards > n {
			shards = n
		}
		for i := 0; i < shards; i++ {
			c := n / shards
			if i < n%shards {
				c++
			}
			tasks = append(tasks, &task{f: f, shard: i, seed: facetSeed(*seed, f.id(), i), checks: c})
		}
	}
	if len(mine) == 0 {
		fmt.Fprintln(os.Stderr, "no facet for", *prop)
		return exitError
	}
	exe, err := os.Executable()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitError
	}
	// The quick tier is a function of the seed; the thorough one stops when its time is used up.
	var each time.Duration
	if *tier == "thorough" {
		each = *budget / time.Duration(len(mine))
		deadline = start.Add(*limit + *budget)
	}

	var wg sync.WaitGroup
	ch := make(chan *task)
	for w := 0; w < cores; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for t := range ch {
				x := exe
				if r := os.Getenv("VERIF_RACE_EXE"); r != "" && t.f.Race {
					x = r
				}
				runTask(x, scratch, t, strings.Join(sigs, ","), deadline, each, *shrink)
			}
		}(w)
	}
	for _, t := range tasks {
		ch <- t
	}
	close(ch)
	wg.Wait()

	// Merge
	type facetCov struct {
		Facet       string           `json:"facet"`
		Rule        string           `json:"rule"`
		Evaluations int64            `json:"evaluations"`
		NonTrivial  int              `json:"distinct_nontrivial"`
		Labels      map[string]int64 `json:"classes,omitempty"`
	}
	var (
		covs      []facetCov
		evals     int64
		distinct  int
		samples   []interface{}
		rules     []string
		fails     []*failure
		errs      []string
		knownHits = map[string]int64{}
	)
	for _, f := range mine {
		fc := facetCov{Facet: f.Name, Rule: f.Rule, Labels: map[string]int64{}}
		seen := map[uint64]bool{}
		nsamp := 0
		for _, t := range tasks {
			if t.f != f {
				continue
			}
			if t.err != nil {
				errs = append(errs, fmt.Sprintf("%s shard %d: %v", f.id(), t.shard, t.err))
			}
			if t.fail != nil {
				if t.fail.Kind == "harness" {
					errs = append(errs, fmt.Sprintf("%s shard %d: %s", f.id(), t.shard, t.fail.Message))
				} else {
					fails = append(fails, t.fail)
				}
			}
			if t.res == nil {
				continue
			}
			fc.Evaluations += t.res.Evaluations
			for l, n := range t.res.Labels {
				fc.Labels[l] += n
			}
			for _, h := range t.res.NonTrivial {
				seen[h] = true
			}
			for s, n := range t.res.KnownHits {
				knownHits[s] += n
			}
			for _, s := range t.res.Samples {
				if nsamp < 2 {
					samples = append(samples, map[string]interface{}{"facet": f.Name, "case": s})
					nsamp++
				}
			}
		}
		fc.NonTrivial = len(seen)
		evals += fc.Evaluations
		distinct += fc.NonTrivial
		covs = append(covs, fc)
		rules = append(rules, f.Name+": "+f.Rule)
	}
	cov := map[string]interface{}{
		"evaluations":         evals,
		"distinct_nontrivial": distinct,
		"rule":                "Cases are generated by rapid from VERIF_SEED, one generator per facet. Non-trivial: " + strings.Join(rules, "; "),
		"samples":             samples,
		"facets":              covs,
	}
	if *extra != "" {
		if b, err := os.ReadFile(*extra); err == nil {
			var m map[string]interface{}
			if json.Unmarshal(b, &m) == nil {
				for k, v := range m {
					cov[k] = v
				}
			}
		}
	}
	if len(knownHits) > 0 {
		cov["known_finding_hits"] = knownHits
	}
	ev := map[string]interface{}{
		"property":    *prop,
		"tier":        *tier,
		"seed":        *seed,
		"level":       "exploration",
		"coverage":    cov,
		"assumptions": assumptions(*prop),
		"wall_s":      time.Since(start).Seconds(),
		"violations":  len(fails),
	}
	if *only == "" {
		os.MkdirAll(filepath.Join(*out, "evidence"), 0o755)
		b, _ := json.MarshalIndent(ev, "", " ")
		if err := os.WriteFile(filepath.Join(*out, "evidence", *prop+".json"), append(b, '\n'), 0o644); err != nil {
			errs = append(errs, err.Error())
		}
	}

	code := exitOK
	for _, k := range known {
		fmt.Printf("KNOWN-FINDING: property=%s %s (%s; met %d times in this run)\n", *prop, k.text, k.sig, knownHits[k.sig])
	}
	if len(fails) > 0 {
		seen := map[string]bool{}
		sort.SliceStable(fails, func(i, j int) bool { return len(fails[i].Case) < len(fails[j].Case) })
		for _, fl := range fails {
			if seen[fl.Facet] {
				continue
			}
			seen[fl.Facet] = true
			dir := filepath.Join(*out, "replays")
			os.MkdirAll(dir, 0o755)
			b, _ := json.MarshalIndent(fl, "", " ")
			p := filepath.Join(dir, fmt.Sprintf("%s-%s-%016x.json", *prop, strings.SplitN(fl.Facet, "/", 2)[1], hash64(b)))
			if err := os.WriteFile(p, b, 0o644); err != nil {
				errs = append(errs, err.Error())
			}
			fmt.Printf("%s: %s\n", fl.Facet, firstLines(fl.Message, 25))
			fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, p)
		}
		code = exitViolation
	}
	if len(errs) > 0 {
		for _, e := range errs {
			fmt.Println("ERROR:", firstLines(e, 40))
		}
		if code == exitOK {
			code = exitError
		}
	}
	if code == exitOK {
		fmt.Printf("OK property=%s tier=%s seed=%d evaluations=%d distinct_nontrivial=%d wall=%.1fs\n", *prop, *tier, *seed, evals, distinct, time.Since(start).Seconds())
	}
	return code
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = append(l[:n], "...")
	}
	for i := range l {
		if len(l[i]) > 600 {
			l[i] = l[i][:600] + "..."
		}
	}
	return strings.Join(l, "\n")
}

func runProc(timeout time.Duration, dir string, name string, args ...string) (int, string, error) {
	cmd := exec.Command(name, args...)
	cmd.Dir = dir
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	if err := cmd.Start(); err != nil {
		return -1, "", err
	}
	timer := time.AfterFunc(timeout, func() { cmd.Process.Kill() })
	err := cmd.Wait()
	stopped := timer.Stop()
	if err == nil {
		return 0, out.String(), nil
	}
	if !stopped {
		return -1, out.String(), errors.New("time limit reached")
	}
	var ee *exec.ExitError
	if errors.As(err, &ee) {
		return ee.ExitCode(), out.String(), nil
	}
	return -1, out.String(), err
}

func crashed(out string) bool {
	return strings.Contains(out, "fatal error: stack overflow") || strings.Contains(out, "goroutine stack exceeds") ||
		strings.Contains(out, "fatal error: concurrent map") || strings.Contains(out, "unexpected fault address")
}

func runTask(exe, scratch string, t *task, known string, deadline time.Time, each, shrink time.Duration) {
	dir := filepath.Join(scratch, fmt.Sprintf("%s-%s-%d", t.f.Prop, t.f.Name, t.shard))
	if err := os.MkdirAll(dir, 0o755); err != nil {
		t.err = err
		return
	}
	defer os.RemoveAll(dir)
	resFile, curFile := filepath.Join(dir, "res.json"), filepath.Join(dir, "cur.json")
	left := time.Until(deadline)
	if left <= 0 {
		t.err = errors.New("time limit reached before this shard started: inconclusive")
		return
	}
	code, out, err := runProc(left, dir, exe, "worker", "-facet", t.f.id(), "-shard", strconv.Itoa(t.shard),
		"-seed", strconv.FormatUint(t.seed, 10), "-checks", strconv.Itoa(t.checks), "-res", resFile, "-cur", curFile, "-known", known, "-shrink", shrink.String(), "-for", each.String())
	if err != nil {
		t.err = fmt.Errorf("worker: %v (inconclusive)\n%s", err, out)
		return
	}
	if code == exitOK {
		b, err := os.ReadFile(resFile)
		if err != nil {
			t.err = err
			return
		}
		t.res = &result{}
		if err := json.Unmarshal(b, t.res); err != nil {
			t.err = err
			t.res = nil
			return
		}
		t.fail = t.res.Failure
		return
	}
	// The worker died. It is a violation only if the case it was on kills a fresh process in the same way.
	b, rerr := os.ReadFile(curFile)
	kind := ""
	switch {
	case code == exitHang:
		kind = "hang"
	case crashed(out):
		kind = "crash"
	}
	if kind != "" && rerr == nil && json.Valid(b) {
		fl := &failure{Facet: t.f.id(), Seed: t.seed, Case: b, Kind: kind, Message: kind + ": " + firstLines(out, 12)}
		fb, _ := json.Marshal(fl)
		p := filepath.Join(dir, "crash.json")
		os.WriteFile(p, fb, 0o644)
		code2, out2, err2 := runProc(time.Until(deadline), dir, exe, "replay", "-q", p)
		if err2 == nil && (code2 == exitHang || crashed(out2) || code2 == exitViolation) {
			t.fail = fl
			return
		}
	}
	t.err = fmt.Errorf("worker ended with code %d\n%s", code, firstLines(out, 40))
}
