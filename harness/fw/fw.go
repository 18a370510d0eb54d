// Package fw is the small framework every check is built on.
//
// A property is a set of sub-checks. A sub-check is a generator of cases
// (drawn with pgregory.net/rapid, or enumerated) and a function that runs one
// case against the code under test and an oracle. Cases are plain data, so the
// one that fails is saved as JSON and can be replayed without rapid.
//
// The parent process starts one child process per (sub-check, shard); a child
// that dies (stack overflow) or spins (CPU or heap bound exceeded in one case)
// is turned into a violation with the case it was running.
package fw

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

const shards = 8 // fixed: which cases are generated must not depend on the machine

// Per-case resource bounds. A normal case needs milliseconds and a few MB.
const (
	caseCPU  = 20 * time.Second
	caseWall = 240 * time.Second // for a case that blocks without using CPU
	caseHeap = 3 << 30
	shrinkCP = 3 * time.Second // bound used while minimising hanging cases
)

// A child stops generating after this long (reported as cut_short in the
// evidence), so that code made much slower still gets an answer.
const (
	quickWall    = 150 * time.Second
	thoroughWall = 3600 * time.Second
)

// Sub is one registered sub-check.
type Sub struct {
	Prop, Name string
	Quick      int // cases per tier (drawn sub-checks)
	Thorough   int
	drawn      bool
	draw       func(*rapid.T) any
	enum       func(tier string, yield func(any) bool)
	newCase    func() any
	run        func(*Env, any)
}

var subs []*Sub

// Draw registers a sub-check whose cases are drawn by rapid.
func Draw[C any](prop, name string, quick, thorough int, draw func(*rapid.T) C, run func(*Env, C)) {
	subs = append(subs, &Sub{Prop: prop, Name: name, Quick: quick, Thorough: thorough, drawn: true,
		draw:    func(t *rapid.T) any { c := draw(t); return &c },
		newCase: func() any { return new(C) },
		run:     func(e *Env, c any) { run(e, *(c.(*C))) },
	})
}

// Enum registers a sub-check whose cases are enumerated.
func Enum[C any](prop, name string, enum func(tier string, yield func(C) bool), run func(*Env, C)) {
	subs = append(subs, &Sub{Prop: prop, Name: name,
		enum: func(tier string, yield func(any) bool) {
			enum(tier, func(c C) bool { return yield(&c) })
		},
		newCase: func() any { return new(C) },
		run:     func(e *Env, c any) { run(e, *(c.(*C))) },
	})
}

// Rule texts, one per property, for the evidence file.
var rules = map[string]string{}
var assumptions = map[string][]string{}

// Rule states how cases of a property are made and what makes one non-trivial.
func Rule(prop, rule string, assume ...string) {
	rules[prop] = rule
	assumptions[prop] = assume
}

// Env is handed to each case.
type Env struct {
	Tier   string
	Diskii string // path of the built command
	Repo   string

	scratch    string
	nscratch   int
	nontrivial bool
	labels     map[string]bool
	cur        any
}

// Salt is a number that depends on the case only.
func (e *Env) Salt() uint64 {
	b, _ := json.Marshal(e.cur)
	return hash64(b)
}

type failure struct{ msg string }

// Failf reports that the property does not hold on this case.
func (e *Env) Failf(format string, args ...any) { panic(failure{fmt.Sprintf(format, args...)}) }

// Check is Failf unless ok.
func (e *Env) Check(ok bool, format string, args ...any) {
	if !ok {
		e.Failf(format, args...)
	}
}

// Nontrivial marks the case as non-trivial.
func (e *Env) Nontrivial() { e.nontrivial = true }

// Label counts the case under a class, for the distribution in the evidence.
func (e *Env) Label(format string, args ...any) { e.labels[fmt.Sprintf(format, args...)] = true }

// Dir returns a fresh scratch directory, removed after the case.
func (e *Env) Dir() string {
	e.nscratch++
	d := filepath.Join(e.scratch, fmt.Sprintf("d%d", e.nscratch))
	if err := os.MkdirAll(d, 0o755); err != nil {
		harnessError("cannot make scratch directory: %v", err)
	}
	return d
}

// NoPanic runs f; a panic is returned as text instead of ending the case.
func NoPanic(f func()) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			if fl, ok := r.(failure); ok {
				panic(fl)
			}
			msg = fmt.Sprintf("panic: %v", r)
		}
	}()
	f()
	return ""
}

func harnessError(format string, args ...any) {
	fmt.Fprintf(os.Stderr, "HARNESS-ERROR: "+format+"\n", args...)
	os.Exit(2)
}

// runCase runs one case; it returns "" or what failed.
func runCase(e *Env, s *Sub, c any) (msg string) {
	e.nontrivial = false
	e.labels = map[string]bool{}
	e.nscratch = 0
	e.cur = c
	defer func() {
		if e.nscratch > 0 {
			for i := 1; i <= e.nscratch; i++ {
				os.RemoveAll(filepath.Join(e.scratch, fmt.Sprintf("d%d", i)))
			}
		}
		if r := recover(); r != nil {
			if f, ok := r.(failure); ok {
				msg = f.msg
				return
			}
			st := string(debug.Stack())
			if i := strings.Index(st, "panic("); i >= 0 {
				st = st[i:]
			}
			if len(st) > 3000 {
				st = st[:3000]
			}
			msg = fmt.Sprintf("panic: %v\n%s", r, st)
		}
	}()
	s.run(e, c)
	return ""
}

// Replay is the content of a replay or corpus file.
type Replay struct {
	Property string          `json:"property"`
	Sub      string          `json:"sub"`
	Message  string          `json:"message,omitempty"`
	Note     string          `json:"note,omitempty"`
	Case     json.RawMessage `json:"case"`
}

type sample struct {
	Sub  string          `json:"sub"`
	Case json.RawMessage `json:"case"`
}

type result struct {
	Sub         string           `json:"sub"`
	Shard       int              `json:"shard"`
	Evaluations int              `json:"evaluations"`
	Nontrivial  []uint64         `json:"nontrivial"`
	Labels      map[string]int   `json:"labels"`
	Samples     []sample         `json:"samples"`
	Failed      bool             `json:"failed"`
	Message     string           `json:"message"`
	Case        *json.RawMessage `json:"case"`
	Exhaustive  bool             `json:"exhaustive"`
	CutShort    bool             `json:"cut_short"`
}

// ---------------------------------------------------------------- child

var (
	caseStart  atomic.Int64 // process CPU time (ns) at case start, 0 = idle
	watchLimit = caseCPU
)

func cpuNow() int64 {
	var ru syscall.Rusage
	_ = syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return ru.Utime.Nano() + ru.Stime.Nano()
}

const (
	exitViolation = 3
	exitHang      = 4
)

func watchdog() {
	sm := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	var last int64
	var since time.Time
	for {
		time.Sleep(20 * time.Millisecond)
		st := caseStart.Load()
		if st == 0 {
			last = 0
			continue
		}
		if st != last {
			last, since = st, time.Now()
		}
		if time.Since(since) > caseWall {
			fmt.Fprintf(os.Stderr, "HANG: one case ran for more than %v\n", caseWall)
			os.Exit(exitHang)
		}
		if cpu := cpuNow() - st; cpu > int64(watchLimit) && caseStart.Load() == st {
			fmt.Fprintf(os.Stderr, "HANG: one case used more than %v of CPU time\n", watchLimit)
			os.Exit(exitHang)
		}
		metrics.Read(sm)
		if h := sm[0].Value.Uint64(); h > caseHeap {
			fmt.Fprintf(os.Stderr, "HANG: one case holds more than %d MB of heap\n", caseHeap>>20)
			os.Exit(exitHang)
		}
	}
}

type tbImpl struct{ failed bool }

type tbStop struct{}

func (t *tbImpl) Helper()                   {}
func (t *tbImpl) Name() string              { return "check" }
func (t *tbImpl) Logf(string, ...any)       {}
func (t *tbImpl) Log(...any)                {}
func (t *tbImpl) Skipf(string, ...any)      { panic(tbStop{}) }
func (t *tbImpl) Skip(...any)               { panic(tbStop{}) }
func (t *tbImpl) SkipNow()                  { panic(tbStop{}) }
func (t *tbImpl) Errorf(f string, a ...any) { t.failed = true; t.note(fmt.Sprintf(f, a...)) }
func (t *tbImpl) Error(a ...any)            { t.failed = true; t.note(fmt.Sprint(a...)) }
func (t *tbImpl) Fatalf(f string, a ...any) { t.Errorf(f, a...); panic(tbStop{}) }
func (t *tbImpl) Fatal(a ...any)            { t.Error(a...); panic(tbStop{}) }
func (t *tbImpl) FailNow()                  { t.failed = true; panic(tbStop{}) }
func (t *tbImpl) Fail()                     { t.failed = true }
func (t *tbImpl) Failed() bool              { return t.failed }
func (t *tbImpl) note(s string)             { fmt.Fprintln(os.Stderr, s) }

func hash64(b []byte) uint64 {
	h := fnv.New64a()
	h.Write(b)
	return h.Sum64()
}

func mix(parts ...any) uint64 {
	v := hash64([]byte(fmt.Sprint(parts...)))
	v ^= v >> 29
	v *= 0xbf58476d1ce4e5b9
	v ^= v >> 32
	if v == 0 {
		v = 1
	}
	return v
}

func mustJSON(c any) []byte {
	b, err := json.Marshal(c)
	if err != nil {
		harnessError("cannot marshal case: %v", err)
	}
	return b
}

func child(s *Sub, shard int, tier string, seed int, cur, out string, env *Env) int {
	debug.SetMaxStack(256 << 20)
	res := result{Sub: s.Name, Shard: shard, Labels: map[string]int{}}
	seen := map[uint64]bool{}
	go watchdog()
	f, err := os.OpenFile(cur, os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0o644)
	if err != nil {
		harnessError("%v", err)
	}
	failing := false
	begin, budget := time.Now(), quickWall
	if tier == "thorough" {
		budget = thoroughWall
	}
	one := func(c any) string {
		if !failing && time.Since(begin) > budget {
			res.CutShort = true
			return ""
		}
		js := mustJSON(c)
		// Record the case about to run, in case the process dies in it.
		hdr := fmt.Sprintf("%010d", len(js))
		_, _ = f.WriteAt(append([]byte(hdr), js...), 0)
		// Run what a replay would run: the decoded case.
		c2 := s.newCase()
		if err := json.Unmarshal(js, c2); err != nil {
			harnessError("case does not survive JSON: %v", err)
		}
		caseStart.Store(cpuNow())
		msg := runCase(env, s, c2)
		caseStart.Store(0)
		if !failing {
			res.Evaluations++
			for l := range env.labels {
				res.Labels[l]++
			}
			if env.nontrivial {
				h := hash64(js)
				if !seen[h] {
					seen[h] = true
					res.Nontrivial = append(res.Nontrivial, h)
					if len(res.Samples) < 2 && len(js) < 4000 || len(res.Samples) == 0 {
						res.Samples = append(res.Samples, sample{s.Name, clip(js)})
					}
				}
			}
		}
		if msg != "" {
			failing = true
			r := json.RawMessage(js)
			res.Failed, res.Message, res.Case = true, msg, &r
		}
		return msg
	}
	if s.drawn {
		n := s.Quick
		if tier == "thorough" {
			n = s.Thorough
		}
		n = (n + shards - 1) / shards
		set := func(k, v string) {
			if err := flag.Set(k, v); err != nil {
				harnessError("%v", err)
			}
		}
		set("rapid.checks", fmt.Sprint(n))
		set("rapid.seed", fmt.Sprint(mix(seed, s.Prop, s.Name, shard)))
		set("rapid.nofailfile", "true")
		if *fFast {
			set("rapid.shrinktime", "1ms")
		} else {
			set("rapid.shrinktime", "20s")
		}
		tb := &tbImpl{}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(tbStop); !ok {
						panic(r)
					}
				}
			}()
			rapid.Check(tb, func(t *rapid.T) {
				c := s.draw(t)
				if msg := one(c); msg != "" {
					t.Fatalf("violated")
				}
			})
		}()
		if tb.failed && !res.Failed {
			harnessError("generator of %s/%s failed", s.Prop, s.Name)
		}
	} else {
		i := 0
		s.enum(tier, func(c any) bool {
			i++
			if i%shards != shard {
				return true
			}
			return one(c) == ""
		})
		res.Exhaustive = true
	}
	if err := os.WriteFile(out, mustJSON(res), 0o644); err != nil {
		harnessError("%v", err)
	}
	if res.Failed {
		return exitViolation
	}
	return 0
}

func clip(js []byte) json.RawMessage {
	if len(js) <= 6000 {
		return json.RawMessage(js)
	}
	return mustJSON(string(js[:6000]) + "... (clipped)")
}

// ---------------------------------------------------------------- parent

var (
	fProp    = flag.String("prop", "", "property id")
	fTier    = flag.String("tier", "quick", "quick or thorough")
	fSeed    = flag.Int("seed", 1, "seed")
	fEv      = flag.String("evidence", "", "evidence file to write")
	fReplays = flag.String("replays", "", "directory for replay files")
	fCorpus  = flag.String("corpus", "", "directory of saved cases, replayed first")
	fDiskii  = flag.String("diskii", "", "path of the built diskii command")
	fScratch = flag.String("scratch", "", "scratch directory")
	fReplay  = flag.String("replay", "", "replay one file and exit")
	fOnly    = flag.String("sub", "", "run only this sub-check")
	fList    = flag.Bool("list", false, "list properties")
	fScale   = flag.Float64("scale", 1, "scale the number of drawn cases (debugging)")
	fFast    = flag.Bool("fast", false, "do not shrink (used when measuring the checks)")
	cSub     = flag.String("child-sub", "", "")
	cShard   = flag.Int("child-shard", -1, "")
	cCur     = flag.String("child-cur", "", "")
	cOut     = flag.String("child-out", "", "")
	cLimit   = flag.Duration("child-limit", caseCPU, "")
)

// Main is the entry point of every check binary.
func Main() {
	testing.Init()
	flag.Parse()
	for _, s := range subs {
		if s.drawn && *fScale != 1 {
			s.Quick = int(float64(s.Quick)**fScale) + 1
			s.Thorough = int(float64(s.Thorough)**fScale) + 1
		}
	}
	if *fList {
		seen := map[string]bool{}
		for _, s := range subs {
			if !seen[s.Prop] {
				fmt.Println(s.Prop)
			}
			seen[s.Prop] = true
		}
		return
	}
	env := &Env{Tier: *fTier, Diskii: *fDiskii, Repo: "/repo", labels: map[string]bool{}}
	find := func(prop, name string) *Sub {
		for _, s := range subs {
			if s.Prop == prop && s.Name == name {
				return s
			}
		}
		return nil
	}
	watchLimit = *cLimit
	if *cSub != "" {
		s := find(*fProp, *cSub)
		if s == nil {
			harnessError("no sub %s", *cSub)
		}
		env.scratch = filepath.Join(*fScratch, fmt.Sprintf("%s-%d", *cSub, *cShard))
		os.Exit(child(s, *cShard, *fTier, *fSeed, *cCur, *cOut, env))
	}
	if *fReplay != "" {
		debug.SetMaxStack(256 << 20)
		b, err := os.ReadFile(*fReplay)
		if err != nil {
			harnessError("%v", err)
		}
		var r Replay
		if err := json.Unmarshal(b, &r); err != nil {
			harnessError("%s: %v", *fReplay, err)
		}
		s := find(r.Property, r.Sub)
		if s == nil {
			harnessError("no sub-check %s/%s", r.Property, r.Sub)
		}
		c := s.newCase()
		if err := json.Unmarshal(r.Case, c); err != nil {
			harnessError("%v", err)
		}
		env.scratch = filepath.Join(*fScratch, "replay")
		go watchdog()
		caseStart.Store(cpuNow())
		msg := runCase(env, s, c)
		caseStart.Store(0)
		if msg != "" {
			fmt.Println("FAILS: " + msg)
			os.Exit(exitViolation)
		}
		fmt.Println("holds on this case")
		return
	}
	os.Exit(parent())
}

type job struct {
	sub   *Sub
	shard int
	res   result
	msg   string // violation found outside the child's own report
	err   string // harness error
}

func selfArgs(extra ...string) []string {
	a := []string{"-prop", *fProp, "-tier", *fTier, "-seed", fmt.Sprint(*fSeed), "-diskii", *fDiskii,
		"-scratch", *fScratch, "-scale", fmt.Sprint(*fScale), "-fast=" + fmt.Sprint(*fFast)}
	return append(a, extra...)
}

var fatalRe = regexp.MustCompile(`(?m)^(fatal error: .*|runtime: goroutine stack exceeds.*|HANG: .*|panic: .*)$`)

// deathMessage says what a child that did not finish died of; ok is false if
// that is not attributable to the code under test.
func deathMessage(err error, stderr string) (string, bool) {
	m := fatalRe.FindString(stderr)
	if ee, ok := err.(*exec.ExitError); ok {
		switch ee.ExitCode() {
		case exitHang:
			return "does not terminate (" + m + ")", true
		case 2:
			if strings.Contains(stderr, "HARNESS-ERROR") {
				return "", false
			}
			if strings.Contains(stderr, "stack overflow") || strings.Contains(stderr, "stack exceeds") {
				return "recursion without end: " + m, true
			}
			if strings.Contains(stderr, "concurrent map") {
				return m, true
			}
		}
	}
	return "", false
}

func runJob(exe string, j *job, dir string) {
	base := filepath.Join(dir, fmt.Sprintf("%s-%d", j.sub.Name, j.shard))
	cur, out := base+".cur", base+".out"
	cmd := exec.Command(exe, selfArgs("-child-sub", j.sub.Name, "-child-shard", fmt.Sprint(j.shard), "-child-cur", cur, "-child-out", out)...)
	var se bytes.Buffer
	cmd.Stderr = &limited{w: &se}
	err := cmd.Run()
	if b, e := os.ReadFile(out); e == nil {
		if e := json.Unmarshal(b, &j.res); e != nil {
			j.err = e.Error()
		}
		return
	}
	msg, ok := deathMessage(err, se.String())
	if !ok {
		tail := se.String()
		if len(tail) > 4000 {
			tail = tail[:4000]
		}
		j.err = fmt.Sprintf("child %s/%d: %v\n%s", j.sub.Name, j.shard, err, tail)
		return
	}
	b, e := os.ReadFile(cur)
	if e != nil || len(b) < 10 {
		j.err = "child died without recording its case"
		return
	}
	var n int
	fmt.Sscanf(string(b[:10]), "%d", &n)
	js := json.RawMessage(append([]byte(nil), b[10:10+n]...))
	j.res.Failed, j.res.Case, j.res.Message = true, &js, msg
	j.msg = msg
}

type limited struct {
	mu sync.Mutex
	w  *bytes.Buffer
}

func (l *limited) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.w.Len() < 1<<20 {
		l.w.Write(p)
	}
	return len(p), nil
}

// replayFile runs a saved case in a process of its own.
func replayFile(exe, path string, limit time.Duration) (failed bool, msg string, err error) {
	cmd := exec.Command(exe, selfArgs("-replay", path, "-child-limit", limit.String())...)
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &limited{w: &so}, &limited{w: &se}
	e := cmd.Run()
	if e == nil {
		return false, "", nil
	}
	if ee, ok := e.(*exec.ExitError); ok && ee.ExitCode() == exitViolation {
		return true, strings.TrimPrefix(strings.TrimSpace(so.String()), "FAILS: "), nil
	}
	if m, ok := deathMessage(e, se.String()); ok {
		return true, m, nil
	}
	return false, "", fmt.Errorf("replay of %s: %v: %s", path, e, se.String())
}

func writeReplay(path string, r Replay) {
	_ = os.MkdirAll(filepath.Dir(path), 0o755)
	b, err := json.MarshalIndent(r, "", " ")
	if err != nil {
		harnessError("%v", err)
	}
	if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
		harnessError("%v", err)
	}
}

func parent() int {
	start := time.Now()
	exe, err := os.Executable()
	if err != nil {
		harnessError("%v", err)
	}
	var jobs []*job
	for _, s := range subs {
		if s.Prop != *fProp || (*fOnly != "" && s.Name != *fOnly) {
			continue
		}
		for i := 0; i < shards; i++ {
			jobs = append(jobs, &job{sub: s, shard: i})
		}
	}
	if len(jobs) == 0 {
		harnessError("no such property %q", *fProp)
	}
	violations := 0
	report := func(path, msg string) {
		violations++
		first := msg
		if i := strings.IndexByte(first, '\n'); i >= 0 {
			first = first[:i]
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", *fProp, path)
		fmt.Printf("  %s\n", first)
	}

	// Saved cases first.
	corpusRuns := 0
	if *fCorpus != "" {
		files, _ := filepath.Glob(filepath.Join(*fCorpus, "*.json"))
		sort.Strings(files)
		for _, f := range files {
			failed, msg, err := replayFile(exe, f, caseCPU)
			if err != nil {
				harnessError("%v", err)
			}
			corpusRuns++
			if failed {
				report(f, msg)
			}
		}
	}

	dir := filepath.Join(*fScratch, "run")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		harnessError("%v", err)
	}
	ncpu := runtime.NumCPU()
	if ncpu > 8 {
		ncpu = 8
	}
	sem := make(chan bool, ncpu)
	var wg sync.WaitGroup
	for _, j := range jobs {
		wg.Add(1)
		sem <- true
		go func(j *job) {
			defer wg.Done()
			defer func() { <-sem }()
			runJob(exe, j, dir)
		}(j)
	}
	wg.Wait()

	evals, nt := 0, map[string]map[uint64]bool{}
	labels := map[string]int{}
	perSub := map[string]map[string]int{}
	exhaustive, cutShort := true, false
	var samples []sample
	perSample := map[string]int{}
	done := map[string]bool{}
	harnessErr := ""
	for _, j := range jobs {
		if j.err != "" {
			harnessErr = j.err
			continue
		}
		if nt[j.sub.Name] == nil {
			nt[j.sub.Name] = map[uint64]bool{}
			perSub[j.sub.Name] = map[string]int{}
		}
		evals += j.res.Evaluations
		perSub[j.sub.Name]["evaluations"] += j.res.Evaluations
		for _, h := range j.res.Nontrivial {
			nt[j.sub.Name][h] = true
		}
		for l, n := range j.res.Labels {
			labels[j.sub.Name+": "+l] += n
		}
		if !j.res.Exhaustive || j.res.CutShort {
			exhaustive = false
		}
		cutShort = cutShort || j.res.CutShort
		if perSample[j.sub.Name] < 2 && len(j.res.Samples) > 0 {
			samples = append(samples, j.res.Samples[0])
			perSample[j.sub.Name]++
		}
		if j.res.Failed && !done[j.sub.Name] {
			done[j.sub.Name] = true
			path := filepath.Join(*fReplays, fmt.Sprintf("%s-%s-%d.json", *fProp, j.sub.Name, *fSeed))
			r := Replay{Property: *fProp, Sub: j.sub.Name, Message: j.res.Message, Case: *j.res.Case}
			if j.msg != "" {
				r.Case = minimise(exe, r, dir)
			}
			writeReplay(path, r)
			report(path, j.res.Message)
		}
	}
	distinct := 0
	for s, m := range nt {
		distinct += len(m)
		perSub[s]["distinct_nontrivial"] = len(m)
	}
	if harnessErr != "" && violations == 0 {
		fmt.Fprintln(os.Stderr, "HARNESS-ERROR: "+harnessErr)
		return 2
	}
	if *fEv != "" {
		ev := map[string]any{
			"property": *fProp, "tier": *fTier, "seed": *fSeed, "level": "exploration",
			"coverage": map[string]any{
				"evaluations": evals, "distinct_nontrivial": distinct, "rule": rules[*fProp],
				"samples": samples, "classes": labels, "sub_checks": perSub,
				"saved_cases_replayed": corpusRuns, "exhaustive": exhaustive, "cut_short": cutShort,
			},
			"assumptions": assumptions[*fProp],
			"wall_s":      time.Since(start).Seconds(), "violations": violations,
		}
		if assumptions[*fProp] == nil {
			ev["assumptions"] = []string{}
		}
		b, _ := json.MarshalIndent(ev, "", " ")
		_ = os.MkdirAll(filepath.Dir(*fEv), 0o755)
		if err := os.WriteFile(*fEv, append(b, '\n'), 0o644); err != nil {
			harnessError("%v", err)
		}
	}
	fmt.Printf("%s %s seed=%d: %d cases, %d distinct non-trivial, %d saved cases, %d violation(s), %.1fs\n",
		*fProp, *fTier, *fSeed, evals, distinct, corpusRuns, violations, time.Since(start).Seconds())
	if violations > 0 {
		return 1
	}
	return 0
}

// minimise shrinks a case that kills or hangs the process: remove list
// elements and shrink numbers in its JSON while the replay still fails.
func minimise(exe string, r Replay, dir string) json.RawMessage {
	if *fFast {
		return r.Case
	}
	deadline := time.Now().Add(40 * time.Second)
	best := r.Case
	path := filepath.Join(dir, "min.json")
	fails := func(c json.RawMessage) bool {
		r2 := r
		r2.Case = c
		writeReplay(path, r2)
		f, msg, err := replayFile(exe, path, shrinkCP)
		return err == nil && f && kind(msg) == kind(r.Message)
	}
	for progress := true; progress && time.Now().Before(deadline); {
		progress = false
		var v any
		d := json.NewDecoder(bytes.NewReader(best))
		d.UseNumber()
		if d.Decode(&v) != nil {
			return best
		}
		for _, cand := range candidates(v) {
			if time.Now().After(deadline) {
				break
			}
			js := mustJSON(cand)
			if len(js) > len(best) || bytes.Equal(js, best) {
				continue
			}
			if fails(js) {
				best, progress = js, true
				break
			}
		}
	}
	return best
}

// kind is what a message is about: its first two words.
func kind(msg string) string {
	w := strings.Fields(msg)
	if len(w) > 2 {
		w = w[:2]
	}
	return strings.Join(w, " ")
}

// candidates lists simpler variants of a decoded JSON value, bigger cuts first.
func candidates(v any) []any {
	var out []any
	switch x := v.(type) {
	case []any:
		for size := len(x); size >= 1; size /= 2 {
			for i := 0; i+size <= len(x); i += size {
				c := append(append([]any{}, x[:i]...), x[i+size:]...)
				out = append(out, c)
			}
		}
		for i := range x {
			for _, c := range candidates(x[i]) {
				y := append([]any{}, x...)
				y[i] = c
				out = append(out, y)
			}
		}
	case map[string]any:
		keys := make([]string, 0, len(x))
		for k := range x {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			for _, c := range candidates(x[k]) {
				y := map[string]any{}
				for kk, vv := range x {
					y[kk] = vv
				}
				y[k] = c
				out = append(out, y)
			}
		}
	case json.Number:
		if n, err := x.Int64(); err == nil && n > 0 {
			out = append(out, json.Number("0"))
			if n > 1 {
				out = append(out, json.Number(fmt.Sprint(n/2)))
			}
		}
	case bool:
		if x {
			out = append(out, false)
		}
	}
	return out
}
