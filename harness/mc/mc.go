// Package mc is the small explicit-state / stateless exploration engine that all
// checks share.  A check is a program whose main calls Main(property, body).  Main
// first acts as a supervisor: it re-executes itself as a number of worker processes
// (shards), each of which explores its part of the bounded space, and it merges the
// counts, confirms crashes and hangs by re-running the single case in a fresh
// process, applies the committed list of known findings, writes the evidence file
// and prints the verdict.
package mc

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Violation is one property violation found by a worker.
type Violation struct {
	Key     string `json:"key"`               // stable identity: call site / input class / history
	Case    string `json:"case"`              // the case (top level enumeration item) that failed
	Choices []int  `json:"choices,omitempty"` // choice sequence inside the case
	Msg     string `json:"msg"`
	Timing  bool   `json:"timing,omitempty"` // must be confirmed by a re-run (hang / crash)
}

type result struct {
	Cases       int64            `json:"cases"`
	Executions  int64            `json:"executions"`
	Transitions int64            `json:"transitions"`
	States      []uint64         `json:"states,omitempty"`
	StateCount  int64            `json:"state_count"`
	Validated   int64            `json:"validated"`
	Incomplete  []string         `json:"incomplete,omitempty"`
	Notes       []string         `json:"notes,omitempty"`
	Samples     []string         `json:"samples,omitempty"`
	Counters    map[string]int64 `json:"counters,omitempty"`
	Violations  []Violation      `json:"violations,omitempty"`
	Done        bool             `json:"done"`
}

// R is the worker side run context.
type R struct {
	Prop     string
	Tier     string
	Shard    int
	NShard   int
	Only     string
	OnlyCh   []int
	deadline time.Time

	mu        sync.Mutex
	res       result
	states    map[uint64]struct{}
	seq       int64
	statusF   *os.File
	CaseLimit time.Duration // watchdog per case
	Assume    []string
	out       string
	inflight  map[int64]string
	nfail     int64
	stopAfter int64
}

// Options of a check.
type Options struct {
	Shards      int           // number of worker processes (default: number of CPUs)
	Level       string        // evidence level text
	Assumptions []string      // bounds and assumptions
	Exhaustive  bool          // whether the stated bounds are exhausted when no deadline hits
	QuickBudget time.Duration // exploration deadline of the quick tier
	FullBudget  time.Duration // exploration deadline of the thorough tier
	MaxHeapMB   int
	StopAfter   int // a worker stops exploring after this many violations (0: never); not for properties with known findings
}

const maxStates = 4 << 20

func env(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

// Main runs the check.
func Main(prop string, o Options, body func(r *R)) {
	if os.Getenv("MC_WORKER") != "" {
		worker(prop, o, body)
		return
	}
	supervise(prop, o)
}

func worker(prop string, o Options, body func(r *R)) {
	r := &R{Prop: prop, Tier: env("VERIF_TIER", "quick"), states: map[uint64]struct{}{}}
	fmt.Sscanf(os.Getenv("MC_WORKER"), "%d/%d", &r.Shard, &r.NShard)
	r.Only = os.Getenv("MC_ONLY")
	if s := os.Getenv("MC_CHOICES"); s != "" {
		_ = json.Unmarshal([]byte(s), &r.OnlyCh)
	}
	sec, _ := strconv.Atoi(env("MC_BUDGET", "600"))
	r.deadline = time.Now().Add(time.Duration(sec) * time.Second)
	r.CaseLimit = 60 * time.Second
	r.stopAfter = int64(o.StopAfter)
	if o.StopAfter > 0 && os.Getenv("MC_STOP") != "" { // for mutation runs
		r.stopAfter = 1
	}
	if v := os.Getenv("MC_CASELIMIT"); v != "" {
		s, _ := strconv.Atoi(v)
		r.CaseLimit = time.Duration(s) * time.Second
	}
	r.out = os.Getenv("MC_OUT")
	r.inflight = map[int64]string{}
	r.res.Counters = map[string]int64{}
	f, err := os.OpenFile(r.out+".status", os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0644)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	r.statusF = f
	if o.MaxHeapMB > 0 {
		debug.SetMemoryLimit(int64(o.MaxHeapMB) << 20)
	}
	body(r)
	r.mu.Lock()
	r.res.Done = true
	r.flushLocked()
	r.mu.Unlock()
	os.Exit(0)
}

func (r *R) flushLocked() {
	r.res.StateCount = int64(len(r.states))
	r.res.States = r.res.States[:0]
	for s := range r.states {
		r.res.States = append(r.res.States, s)
	}
	b, _ := json.Marshal(&r.res)
	_ = os.WriteFile(r.out+".tmp", b, 0644)
	_ = os.Rename(r.out+".tmp", r.out)
}

func (r *R) Quick() bool    { return r.Tier != "thorough" }
func (r *R) Thorough() bool { return r.Tier == "thorough" }

// Expired tells whether the exploration budget is used up.  The caller stops
// exploring; the run is then reported as not exhaustive.
func (r *R) Expired(what string) bool {
	if time.Now().Before(r.deadline) {
		return false
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	for _, s := range r.res.Incomplete {
		if s == what {
			return true
		}
	}
	r.res.Incomplete = append(r.res.Incomplete, what)
	return true
}

// Trans counts transitions (operations executed on the implementation).
func (r *R) Trans(n int) { atomic.AddInt64(&r.res.Transitions, int64(n)) }

// Exec counts executions (traces) that ran against the implementation.
func (r *R) Exec(n int) { atomic.AddInt64(&r.res.Executions, int64(n)) }

// Validated counts traces whose implementation outcome was compared with the oracle.
func (r *R) Validated(n int) { atomic.AddInt64(&r.res.Validated, int64(n)) }

// State records a distinct state (by hash of its description).
func (r *R) State(parts ...interface{}) {
	h := fnv.New64a()
	fmt.Fprint(h, parts...)
	r.StateHash(h.Sum64())
}

func (r *R) StateHash(h uint64) {
	r.mu.Lock()
	if len(r.states) < maxStates {
		r.states[h] = struct{}{}
	}
	r.mu.Unlock()
}

// StateBytes records a distinct state given by raw bytes.
func (r *R) StateBytes(b []byte) {
	h := fnv.New64a()
	h.Write(b)
	r.StateHash(h.Sum64())
}

func (r *R) Count(name string, n int64) {
	r.mu.Lock()
	r.res.Counters[name] += n
	r.mu.Unlock()
}

func (r *R) Sample(format string, a ...interface{}) {
	r.mu.Lock()
	if len(r.res.Samples) < 4 {
		r.res.Samples = append(r.res.Samples, fmt.Sprintf(format, a...))
	}
	r.mu.Unlock()
}

// Fail records a violation.
func (r *R) Fail(v Violation) {
	atomic.AddInt64(&r.nfail, 1)
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(v.Msg) > 4000 {
		v.Msg = v.Msg[:4000]
	}
	n := 0
	for _, x := range r.res.Violations {
		if x.Key == v.Key {
			n++
		}
	}
	if n < 3 && len(r.res.Violations) < 200 {
		r.res.Violations = append(r.res.Violations, v)
		r.flushLocked()
	}
}

// Note is a remark that goes to the evidence file.
func (r *R) Note(format string, a ...interface{}) {
	r.mu.Lock()
	r.res.Notes = append(r.res.Notes, fmt.Sprintf(format, a...))
	r.mu.Unlock()
}

// Failures tells how many violations this worker has recorded.
func (r *R) Failures() int {
	r.mu.Lock()
	defer r.mu.Unlock()
	return len(r.res.Violations)
}

// C is the context of one case.
type C struct {
	R  *R
	ID string
	X  *X
}

type stop struct{}

// Fail reports a violation and ends the case.
func (c *C) Fail(key, format string, a ...interface{}) {
	c.Report(key, format, a...)
	panic(stop{})
}

// Report reports a violation and continues.
func (c *C) Report(key, format string, a ...interface{}) {
	v := Violation{Key: key, Case: c.ID, Msg: fmt.Sprintf(format, a...)}
	if c.X != nil {
		v.Choices = append([]int(nil), c.X.taken...)
	}
	c.R.Fail(v)
}

// ReportTiming is for verdicts that rest on a wait running out: the supervisor
// confirms them by running the case again, alone.
func (c *C) FailTiming(key, format string, a ...interface{}) {
	v := Violation{Key: key, Case: c.ID, Msg: fmt.Sprintf(format, a...), Timing: true}
	if c.X != nil {
		v.Choices = append([]int(nil), c.X.taken...)
	}
	c.R.Fail(v)
	panic(stop{})
}

func (r *R) enough() bool {
	return r.stopAfter > 0 && atomic.LoadInt64(&r.nfail) >= r.stopAfter
}

// Mine tells whether this case belongs to this worker's shard.
func (r *R) Mine(id string) bool {
	if r.Only != "" {
		return r.Only == id
	}
	if r.enough() {
		return false
	}
	if r.NShard <= 1 {
		return true
	}
	h := fnv.New32a()
	h.Write([]byte(id))
	x := h.Sum32()
	x ^= x >> 15
	x *= 0x2c1b3c6d
	x ^= x >> 12
	return int(x%uint32(r.NShard)) == r.Shard
}

// MineN is Mine for integer items.
func (r *R) MineN(i int) bool {
	if r.Only != "" {
		return true
	}
	return r.NShard <= 1 || i%r.NShard == r.Shard
}

func (r *R) setStatus(slot int64, s string) {
	r.mu.Lock()
	if s == "" {
		delete(r.inflight, slot)
	} else {
		r.inflight[slot] = s
	}
	r.mu.Unlock()
	b := []byte(s)
	if len(b) > 1000 {
		b = b[:1000]
	}
	b = append(b, 0)
	_, _ = r.statusF.WriteAt(b, (slot%256)*1024)
}

// Case runs one case of the enumeration if it belongs to this shard.  A panic of the
// code under test on the case's goroutine is a violation; a case that does not end
// within the watchdog limit is reported as a hang.
func (r *R) Case(id string, f func(c *C)) {
	if !r.Mine(id) {
		return
	}
	r.caseX(id, nil, f)
}

func (r *R) caseX(id string, x *X, f func(c *C)) (panicked bool) {
	slot := atomic.AddInt64(&r.seq, 1)
	name := id
	if x != nil {
		name = id + "\x01" + fmt.Sprint(x.prefix)
	}
	r.setStatus(slot, name)
	atomic.AddInt64(&r.res.Cases, 1)
	tm := time.AfterFunc(r.CaseLimit, func() {
		buf := make([]byte, 1<<16)
		buf = buf[:runtime.Stack(buf, true)]
		v := Violation{Key: "hang", Case: id, Msg: "case did not end within " + r.CaseLimit.String() + "\n" + string(buf), Timing: true}
		if x != nil {
			v.Choices = append([]int(nil), x.prefix...)
		}
		r.Fail(v)
		os.Exit(0)
	})
	defer tm.Stop()
	defer r.setStatus(slot, "")
	defer func() {
		if e := recover(); e != nil {
			panicked = true
			if _, ok := e.(stop); ok {
				return
			}
			v := Violation{Key: "panic", Case: id, Msg: fmt.Sprintf("panic: %v\n%s", e, debug.Stack())}
			v.Key = "panic:" + panicSite(debug.Stack())
			if x != nil {
				v.Choices = append([]int(nil), x.taken...)
			}
			r.Fail(v)
		}
	}()
	f(&C{R: r, ID: id, X: x})
	return
}

// panicSite extracts the innermost function of the code under test.
func panicSite(st []byte) string {
	lines := strings.Split(string(st), "\n")
	for _, l := range lines {
		if i := strings.Index(l, "github.com/icon-project/btp/"); i >= 0 && !strings.HasPrefix(l, "\t") {
			l = l[i+len("github.com/icon-project/btp/"):]
			if j := strings.LastIndex(l, "("); j > 0 {
				l = l[:j]
			}
			return l
		}
	}
	return "harness"
}

// Try runs f and returns the panic (if any) of the code under test.
func Try(f func()) (site string, err interface{}) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(stop); ok {
				panic(e)
			}
			err = e
			site = panicSite(debug.Stack())
		}
	}()
	f()
	return "", nil
}

// X is a chooser: it resolves the nondeterminism of one execution.
type X struct {
	prefix []int
	taken  []int
	width  []int
	limit  int
}

// Choose returns a value in [0,n): the explorer enumerates all of them.
func (x *X) Choose(n int) int {
	if n <= 1 {
		return 0
	}
	i := len(x.taken)
	v := 0
	if i < len(x.prefix) {
		v = x.prefix[i]
		if v >= n {
			v = n - 1
		}
	}
	x.taken = append(x.taken, v)
	x.width = append(x.width, n)
	return v
}

func (x *X) Bool() bool { return x.Choose(2) == 1 }

// Taken returns the choices so far.
func (x *X) Taken() []int { return append([]int(nil), x.taken...) }

// Explore enumerates, depth first, every choice sequence of f: each execution runs
// from scratch with a recorded prefix and explores the leftmost extension.
// It returns the number of executions and whether the tree was exhausted.
func (r *R) Explore(id string, f func(c *C, x *X)) (int, bool) {
	if !r.Mine(id) {
		return 0, true
	}
	if r.Only != "" && r.OnlyCh != nil {
		x := &X{prefix: r.OnlyCh}
		r.caseX(id, x, func(c *C) { f(c, x) })
		return 1, true
	}
	var prefix []int
	n := 0
	for {
		x := &X{prefix: prefix}
		r.caseX(id, x, func(c *C) { f(c, x) })
		n++
		atomic.AddInt64(&r.res.Executions, 1)
		// next
		i := len(x.taken) - 1
		for ; i >= 0; i-- {
			if x.taken[i]+1 < x.width[i] {
				break
			}
		}
		if i < 0 {
			return n, true
		}
		prefix = append(append([]int(nil), x.taken[:i]...), x.taken[i]+1)
		if r.enough() || r.Failures() > 20 || r.Expired(id) {
			return n, false
		}
	}
}

// Enumerate is the in-process (single goroutine, no watchdog) version of Explore
// for very cheap bodies.
func Enumerate(f func(x *X)) int {
	var prefix []int
	n := 0
	for {
		x := &X{prefix: prefix}
		f(x)
		n++
		i := len(x.taken) - 1
		for ; i >= 0; i-- {
			if x.taken[i]+1 < x.width[i] {
				break
			}
		}
		if i < 0 {
			return n
		}
		prefix = append(append([]int(nil), x.taken[:i]...), x.taken[i]+1)
	}
}

// Parallel runs f(i) for i in [0,n) on k goroutines.
func Parallel(n, k int, f func(i int)) {
	if k < 1 {
		k = 1
	}
	var wg sync.WaitGroup
	var next int64 = -1
	for g := 0; g < k; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n {
					return
				}
				f(i)
			}
		}()
	}
	wg.Wait()
}

// ---------------------------------------------------------------- supervisor

type known struct {
	Property string `json:"property"`
	Key      string `json:"key"`
	Status   string `json:"status"`
	What     string `json:"what"`
}

func supervise(prop string, o Options) {
	t0 := time.Now()
	home := env("VERIF_HOME", "/verif")
	tier := env("VERIF_CHECK_TIER", "quick")
	if o.Shards == 0 {
		o.Shards = runtime.NumCPU()
	}
	if o.QuickBudget == 0 {
		o.QuickBudget = 300 * time.Second
	}
	if o.FullBudget == 0 {
		o.FullBudget = 3000 * time.Second
	}
	budget := o.QuickBudget
	if tier == "thorough" {
		budget = o.FullBudget
	}
	replay := ""
	if len(os.Args) > 2 && os.Args[1] == "-replay" {
		replay = os.Args[2]
	}
	work, err := os.MkdirTemp("", "verif-"+strings.ToLower(prop)+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	defer os.RemoveAll(work)
	self, _ := os.Executable()

	run := func(shard, n int, only string, choices []int, hasChoices bool, caselimit int) (*result, string, bool, string) {
		out := filepath.Join(work, fmt.Sprintf("w%d-%d-%d", shard, n, time.Now().UnixNano()))
		scratch := out + ".d"
		_ = os.MkdirAll(scratch, 0755)
		cmd := exec.Command(self)
		cmd.Env = append(os.Environ(), "MC_WORKER="+fmt.Sprintf("%d/%d", shard, n), "MC_OUT="+out,
			"VERIF_TIER="+tier, "MC_BUDGET="+strconv.Itoa(int(budget.Seconds())), "TMPDIR="+scratch, "MC_SCRATCH="+scratch,
			"GOTRACEBACK=all")
		if only != "" {
			cmd.Env = append(cmd.Env, "MC_ONLY="+only)
			if hasChoices {
				b, _ := json.Marshal(choices)
				cmd.Env = append(cmd.Env, "MC_CHOICES="+string(b))
			}
		}
		if caselimit > 0 {
			cmd.Env = append(cmd.Env, "MC_CASELIMIT="+strconv.Itoa(caselimit))
		}
		var eb bytes.Buffer
		cmd.Stderr = &limited{w: &eb, n: 1 << 20}
		cmd.Stdout = &limited{w: &eb, n: 1 << 20}
		cmd.Dir = scratch
		err := cmd.Run()
		res := &result{}
		b, _ := os.ReadFile(out)
		_ = json.Unmarshal(b, res)
		st := ""
		if err != nil {
			sb, _ := os.ReadFile(out + ".status")
			for i := 0; i+1024 <= len(sb)+1023; i += 1024 {
				e := i + 1024
				if e > len(sb) {
					e = len(sb)
				}
				if i >= e {
					break
				}
				s := string(sb[i:e])
				if j := strings.IndexByte(s, 0); j >= 0 {
					s = s[:j]
				}
				if s != "" {
					st += s + "\n"
				}
			}
		}
		_ = os.RemoveAll(scratch)
		return res, eb.String(), err != nil, st
	}

	if replay != "" {
		b, err := os.ReadFile(replay)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		var v Violation
		if err := json.Unmarshal(b, &v); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		res, eb, crashed, _ := run(0, 1, v.Case, v.Choices, v.Choices != nil, 0)
		for _, x := range res.Violations {
			fmt.Printf("REPLAYED key=%s case=%q\n%s\n", x.Key, x.Case, x.Msg)
		}
		if crashed {
			fmt.Println("REPLAYED crash\n" + tail(eb, 4000))
		}
		if crashed || len(res.Violations) > 0 {
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, replay)
			os.Exit(1)
		}
		fmt.Println("replay: no violation")
		os.Exit(0)
	}

	results := make([]*result, o.Shards)
	errs := make([]string, o.Shards)
	crashed := make([]bool, o.Shards)
	status := make([]string, o.Shards)
	var wg sync.WaitGroup
	for i := 0; i < o.Shards; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			results[i], errs[i], crashed[i], status[i] = run(i, o.Shards, "", nil, false, 0)
		}(i)
	}
	wg.Wait()

	tot := result{Counters: map[string]int64{}}
	states := map[uint64]struct{}{}
	var viol []Violation
	var notes []string
	for i, r := range results {
		tot.Cases += r.Cases
		tot.Executions += r.Executions
		tot.Transitions += r.Transitions
		tot.Validated += r.Validated
		for _, s := range r.States {
			states[s] = struct{}{}
		}
		for k, v := range r.Counters {
			tot.Counters[k] += v
		}
		tot.Incomplete = append(tot.Incomplete, r.Incomplete...)
		tot.Samples = append(tot.Samples, r.Samples...)
		for _, nt := range r.Notes {
			if len(notes) < 20 {
				notes = append(notes, nt)
			}
		}
		viol = append(viol, r.Violations...)
		if crashed[i] {
			// A worker died: a panic outside the case goroutine, a fatal error or
			// a kill.  Attribute it to the cases that were in flight and confirm.
			cands := strings.Split(strings.TrimSpace(status[i]), "\n")
			conf := false
			for _, cd := range cands {
				if cd == "" {
					continue
				}
				id := cd
				var ch []int
				has := false
				if j := strings.IndexByte(cd, 1); j >= 0 {
					id = cd[:j]
					has = true
					ch = parseInts(cd[j+1:])
				}
				for k := 0; k < 2 && !conf; k++ {
					r2, eb2, cr2, _ := run(0, 1, id, ch, has, 0)
					if cr2 {
						viol = append(viol, Violation{Key: "crash:" + panicSite([]byte(crashStack(eb2))), Case: id, Choices: ch, Msg: "process crashed\n" + tail(crashStack(eb2), 4000)})
						conf = true
					} else if len(r2.Violations) > 0 {
						viol = append(viol, r2.Violations...)
						conf = true
					}
				}
				if conf {
					break
				}
			}
			if !conf {
				site := panicSite([]byte(crashStack(errs[i])))
				if site != "harness" && strings.Contains(errs[i], "panic:") || strings.Contains(errs[i], "fatal error: concurrent map") {
					// a crash inside the code under test is a crash, reproducible or not
					viol = append(viol, Violation{Key: "crash:" + site, Case: strings.Join(cands, ","), Msg: "worker crashed (schedule dependent)\n" + tail(crashStack(errs[i]), 4000)})
				} else {
					notes = append(notes, "worker died without reproducing: "+tail(errs[i], 1500))
					tot.Incomplete = append(tot.Incomplete, "worker died")
				}
			}
		} else if !r.Done && len(r.Violations) == 0 {
			tot.Incomplete = append(tot.Incomplete, "worker did not finish")
			notes = append(notes, "worker did not finish: "+tail(errs[i], 1500))
		}
	}
	// confirm timing dependent verdicts, alone on the machine
	var confirmed []Violation
	for _, v := range viol {
		if !v.Timing {
			confirmed = append(confirmed, v)
			continue
		}
		dup := false
		for _, c := range confirmed {
			if c.Key == v.Key {
				dup = true
			}
		}
		if dup {
			continue
		}
		r2, eb2, cr2, _ := run(0, 1, v.Case, v.Choices, v.Choices != nil, 0)
		if cr2 {
			v.Msg += "\n(re-run crashed)\n" + tail(crashStack(eb2), 3000)
			confirmed = append(confirmed, v)
		} else if len(r2.Violations) > 0 {
			confirmed = append(confirmed, r2.Violations[0])
		} else {
			notes = append(notes, "not confirmed on re-run: key="+v.Key+" case="+v.Case)
			tot.Incomplete = append(tot.Incomplete, "unconfirmed timing verdict")
		}
	}

	// known findings
	var ks []known
	if b, err := os.ReadFile(filepath.Join(home, "known-findings.json")); err == nil {
		if err := json.Unmarshal(b, &ks); err != nil {
			fmt.Fprintln(os.Stderr, "known-findings.json:", err)
			os.Exit(3)
		}
	}
	seenKnown := map[string]string{}
	var real []Violation
	for _, v := range confirmed {
		ok := false
		for _, k := range ks {
			if k.Status == "known" && k.Property == prop && k.Key == v.Key {
				seenKnown[k.Key] = k.What
				ok = true
			}
		}
		if !ok {
			real = append(real, v)
		}
	}
	var kk []string
	for k := range seenKnown {
		kk = append(kk, k)
	}
	sort.Strings(kk)
	for _, k := range kk {
		fmt.Printf("KNOWN-FINDING: property=%s %s [%s]\n", prop, seenKnown[k], k)
	}

	sort.SliceStable(real, func(i, j int) bool { return len(real[i].Msg) < len(real[j].Msg) })
	exh := o.Exhaustive && len(tot.Incomplete) == 0
	if len(tot.Samples) > 6 {
		tot.Samples = tot.Samples[:6]
	}
	if tot.Samples == nil {
		tot.Samples = []string{}
	}
	wall := time.Since(t0).Seconds()
	cov := map[string]interface{}{
		"states":                        len(states),
		"transitions":                   tot.Transitions,
		"traces_validated_against_impl": tot.Validated,
		"executions":                    tot.Executions,
		"cases":                         tot.Cases,
		"exhaustive":                    exh,
		"samples":                       tot.Samples,
		"counters":                      tot.Counters,
	}
	if len(tot.Incomplete) > 0 {
		cov["incomplete"] = uniq(tot.Incomplete, 12)
	}
	if len(notes) > 0 {
		cov["notes"] = notes
	}
	seed, _ := strconv.Atoi(env("VERIF_SEED", "1"))
	ev := map[string]interface{}{
		"property":    prop,
		"tier":        tier,
		"seed":        seed,
		"level":       "model_checking",
		"coverage":    cov,
		"wall_s":      wall,
		"violations":  len(real),
		"assumptions": o.Assumptions,
	}
	if o.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	_ = os.MkdirAll(filepath.Join(home, "evidence"), 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	_ = os.WriteFile(filepath.Join(home, "evidence", prop+".json"), append(b, '\n'), 0644)

	if len(real) > 0 {
		dir := filepath.Join(home, "evidence", "replay")
		_ = os.MkdirAll(dir, 0755)
		seen := map[string]bool{}
		n := 0
		for _, v := range real {
			if seen[v.Key] || n >= 5 {
				continue
			}
			seen[v.Key] = true
			p := filepath.Join(dir, fmt.Sprintf("%s-%d.json", prop, n))
			n++
			b, _ := json.MarshalIndent(v, "", " ")
			_ = os.WriteFile(p, append(b, '\n'), 0644)
			ch := fmt.Sprint(v.Choices)
			if len(ch) > 120 {
				ch = ch[:120] + "..."
			}
			fmt.Printf("violated: key=%s case=%q choices=%s\n%s\n", v.Key, v.Case, ch, tail2(v.Msg, 1500))
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, p)
		}
		os.RemoveAll(work)
		os.Exit(1)
	}
	fmt.Printf("ok property=%s tier=%s states=%d transitions=%d executions=%d validated=%d exhaustive=%v wall=%.1fs\n",
		prop, tier, len(states), tot.Transitions, tot.Executions, tot.Validated, exh, wall)
	for _, s := range uniq(tot.Incomplete, 6) {
		fmt.Println("  incomplete:", s)
	}
	for _, s := range notes {
		fmt.Println("  note:", tail2(s, 300))
	}
	os.RemoveAll(work)
	os.Exit(0)
}

func uniq(s []string, n int) []string {
	m := map[string]bool{}
	var o []string
	for _, x := range s {
		if !m[x] && len(o) < n {
			m[x] = true
			o = append(o, x)
		}
	}
	return o
}

func crashStack(s string) string {
	for _, k := range []string{"\npanic: ", "panic: ", "fatal error: "} {
		if i := strings.Index(s, k); i >= 0 {
			return s[i:]
		}
	}
	return s
}

func parseInts(s string) []int {
	s = strings.Trim(strings.TrimSpace(s), "[]")
	out := []int{}
	for _, f := range strings.Fields(s) {
		n, err := strconv.Atoi(f)
		if err == nil {
			out = append(out, n)
		}
	}
	return out
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func tail2(s string, n int) string { return tail(s, n) }

type limited struct {
	mu sync.Mutex
	w  *bytes.Buffer
	n  int
}

func (l *limited) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.w.Len()+len(p) > l.n {
		// keep the head of what follows a panic: drop the oldest half
		b := append([]byte(nil), l.w.Bytes()...)
		l.w.Reset()
		if len(b) > l.n/2 {
			if i := bytes.Index(b, []byte("panic: ")); i >= 0 {
				b = b[i:]
				if len(b) > l.n/2 {
					b = b[:l.n/2]
				}
			} else {
				b = b[len(b)-l.n/2:]
			}
		}
		l.w.Write(b)
	}
	if l.w.Len()+len(p) <= 2*l.n {
		l.w.Write(p)
	}
	return len(p), nil
}

// Scratch returns the private scratch directory of this worker (removed afterwards).
func Scratch() string { return env("MC_SCRATCH", os.TempDir()) }
