// Package sim runs scenarios under the deterministic kernel: one RunSpec is one
// exactly repeatable execution. See /verif/DESIGN.md.
package sim

import (
	"cmp"
	"context"
	"crypto/rand"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"log/slog"
	"runtime"
	"runtime/debug"
	"slices"
	"strings"
	"testing/synctest"
	"time"

	"reduction.dev/reduction/zz_verif/simrt"
)

// Op is one step of a generated workload.
type Op struct {
	K string   `json:"k"`
	A []int64  `json:"a,omitempty"`
	S []string `json:"s,omitempty"`
}

// Int returns the i-th integer argument, 0 when absent.
func (o Op) Int(i int) int {
	if i < len(o.A) {
		return int(o.A[i])
	}
	return 0
}

// Str returns the i-th string argument, "" when absent.
func (o Op) Str(i int) string {
	if i < len(o.S) {
		return o.S[i]
	}
	return ""
}

// Plan is the workload of a run: parameters and operations. Any subsequence of
// Ops must be a valid workload too (the minimiser removes operations).
type Plan struct {
	P   map[string]int64 `json:"p"`
	Ops []Op             `json:"ops"`
}

func (p *Plan) Int(name string) int { return int(p.P[name]) }

func (p *Plan) Add(k string, a ...int64) { p.Ops = append(p.Ops, Op{K: k, A: a}) }

// Scenario is one family of simulated executions.
type Scenario struct {
	Name string
	// Weight is the share of runs this scenario gets within its property.
	Weight int
	// Gen makes a workload. size is 0..2: small, medium, large.
	Gen func(r *simrt.Rand, size int) Plan
	// Run executes the workload; it runs on a simulated goroutine.
	Run func(e *Env)
	// Tune adjusts the kernel configuration drawn by the engine.
	Tune func(c *simrt.Config, p *Plan)
	// BudgetClass, if set, makes exceeding the step budget a violation.
	BudgetClass string
	// MaxSteps overrides the default step budget.
	MaxSteps uint64
	// SimLimit is the simulated time after which a run is stopped (class
	// StallClass, or cut off if that is empty).
	SimLimit   time.Duration
	StallClass string
	// PanicOK says that a panic of repository code is not by itself a violation.
	PanicOK bool
}

// Property groups the scenarios that decide one property.
type Property struct {
	ID        string
	Level     string
	Scenarios []*Scenario
	Real      []string // components running real code
	Stub      []string // components that are simulated
	Rule      string
	Assume    []string
}

var Properties = map[string]*Property{}

func Register(p *Property) { Properties[p.ID] = p }

// RunSpec identifies one execution completely.
type RunSpec struct {
	Property string       `json:"property"`
	Scenario string       `json:"scenario"`
	Seed     uint64       `json:"seed"`
	Cfg      simrt.Config `json:"cfg"`
	Plan     Plan         `json:"plan"`
	Trace    *simrt.Trace `json:"trace,omitempty"` // nil: draw from Seed
	KeepLog  bool         `json:"-"`
	LogAll   bool         `json:"logAll,omitempty"` // keep the event log in the result
}

// Result is what one execution did.
type Result struct {
	Class    string         `json:"class,omitempty"` // "" = no violation
	Msg      string         `json:"msg,omitempty"`
	CutOff   string         `json:"cutoff,omitempty"`
	Hash     uint64         `json:"hash"`
	Steps    uint64         `json:"steps"`
	Preempt  uint64         `json:"preempt"`
	Pauses   uint64         `json:"pauses"`
	Picks    uint64         `json:"picks"`
	Switches uint64         `json:"switches"`
	Gor      int            `json:"goroutines"`
	SimNs    int64          `json:"simNs"`
	Faults   map[string]int `json:"faults,omitempty"`
	Probes   map[string]int `json:"probes,omitempty"`
	Events   int            `json:"events"`
	Trivial  bool           `json:"trivial,omitempty"`
	Trace    *simrt.Trace   `json:"trace,omitempty"`
	Log      []string       `json:"log,omitempty"`
	Overflow bool           `json:"overflow,omitempty"`
}

// Env is what a scenario works with.
type Env struct {
	Plan    *Plan
	Seed    uint64
	R       *simrt.Rand // environment choices that are part of the run (not shrunk)
	sc      *Scenario
	res     *Result
	done    bool
	keep    bool
	logN    int
	start   time.Time
	groups  uint32
	latency time.Duration // injected so far
	// CrashOnPanic decides what a panic on a goroutine of a group means; it
	// returns true if the panic was consumed (the node died).
	OnPanic   func(group uint32, v any, stack string) bool
	faultsOff bool
}

func (e *Env) limit() time.Duration {
	if e.sc.SimLimit > 0 {
		return e.sc.SimLimit
	}
	return 24 * time.Hour
}

// FaultsOff stops all further fault injection (Choose returns 0).
func (e *Env) FaultsOff() { e.faultsOff = true }

// Choose draws a fault decision: 0, or 1..n with probability p.
func (e *Env) Choose(kind string, p float64, n int) int {
	v := simrt.Choose(p, n)
	if e.faultsOff {
		return 0
	}
	if v != 0 && kind != "" {
		e.res.Faults[kind]++
	}
	return v
}

// Lat draws a latency: usually 0, sometimes up to max, skewed to short ones.
func (e *Env) Lat(kind string, p float64, max time.Duration) time.Duration {
	v := simrt.Choose(p, 1<<16)
	if v == 0 || e.faultsOff {
		return 0
	}
	if kind != "" {
		e.res.Faults[kind]++
	}
	f := float64(v) / (1 << 16)
	d := time.Duration(f * f * f * float64(max))
	if e.latency += d; e.latency > e.limit()/6 {
		return 0
	}
	return d
}

func (e *Env) Fault(kind string) { e.res.Faults[kind]++ }

// Trivial marks a run that exercised nothing of the property.
func (e *Env) Trivial() { e.res.Trivial = true }

// Probe counts that a site of interest was reached.
func (e *Env) Probe(name string) { e.res.Probes[name]++ }

// NewGroup allocates a node identity.
func (e *Env) NewGroup() uint32 {
	e.groups++
	return e.groups
}

// Now is the simulated time since the start of the run.
func (e *Env) Now() time.Duration { return time.Since(e.start) }

// Log records an event: it is folded into the run hash.
func (e *Env) Log(format string, a ...any) {
	s := stable(fmt.Sprintf(format, a...))
	h := fnv.New64a()
	io.WriteString(h, s)
	runtime.SimMix(h.Sum64())
	e.logN++
	if e.keep {
		e.res.Log = append(e.res.Log, fmt.Sprintf("%-14v g%d/%d %s", time.Since(e.start), runtime.SimID(), runtime.SimGroup(), s))
	}
}

// stable hides addresses, which messages of the code under test may hold and
// which differ between executions of one seed.
func stable(s string) string {
	for from := 0; ; {
		i := strings.Index(s[from:], "0xc0")
		if i < 0 {
			return s
		}
		i += from
		j := i + 2
		for j < len(s) && (s[j] >= '0' && s[j] <= '9' || s[j] >= 'a' && s[j] <= 'f') {
			j++
		}
		if from = j; j-i >= 12 {
			s = s[:i] + "0x?" + s[j:]
			from = i + 3
		}
	}
}

// Fail records a violation and stops the run. It does not return.
func (e *Env) Fail(class, format string, a ...any) {
	if !e.done {
		e.done = true
		e.res.Class = class
		e.res.Msg = stable(fmt.Sprintf(format, a...))
		e.res.SimNs = int64(time.Since(e.start))
		e.Log("VIOLATION %s: %s", class, e.res.Msg)
	}
	runtime.SimAbandon()
	select {}
}

// Cut ends the run without a verdict on what was not explored. Does not return.
func (e *Env) Cut(why string) {
	if !e.done {
		e.done = true
		e.res.CutOff = why
		e.res.SimNs = int64(time.Since(e.start))
	}
	runtime.SimAbandon()
	select {}
}

// Failed reports whether a violation was recorded.
func (e *Env) Failed() bool { return e.done }

// Go starts fn on a goroutine of the calling node.
func (e *Env) Go(fn func()) { go fn() }

// GoIn starts fn on a goroutine of a node.
func (e *Env) GoIn(group uint32, fn func()) { simrt.GoIn(group, fn) }

// In runs fn on a goroutine of a node and waits for it.
func (e *Env) In(group uint32, fn func()) {
	done := make(chan struct{})
	simrt.GoIn(group, func() { fn(); close(done) })
	<-done
}

// Crash stops a node: none of its goroutines runs again.
func (e *Env) Crash(group uint32) {
	runtime.SimFreeze(group)
}

// Until polls cond in simulated time; it reports whether cond became true.
func (e *Env) Until(limit time.Duration, every time.Duration, cond func() bool) bool {
	start := time.Now()
	end := start.Add(limit)
	for {
		if cond() {
			return true
		}
		if time.Now().After(end) {
			return false
		}
		time.Sleep(max(every, time.Since(start)/32))
	}
}

type detRand struct{ r simrt.Rand }

func (d *detRand) Read(b []byte) (int, error) {
	for i := range b {
		b[i] = byte(d.r.Uint64())
	}
	return len(b), nil
}

var detReader = &detRand{}

// DetReader is the seeded replacement of crypto/rand.Reader.
func DetReader() io.Reader { return detReader }

// OnStart hooks run before every run (reset of process-wide state).
var OnStart []func(e *Env)

// Quiet silences the repository's logging.
func Quiet() {
	slog.SetDefault(slog.New(slog.NewTextHandler(io.Discard, &slog.HandlerOptions{Level: slog.Level(100)})))
	log.SetOutput(io.Discard)
}

// Verbose makes the repository's log part of the event log (replay only).
var Verbose bool

type logWriter struct{ e *Env }

func (l logWriter) Write(b []byte) (int, error) {
	if l.e.keep {
		l.e.res.Log = append(l.e.res.Log, fmt.Sprintf("%-14v g%d/%d    | %s", time.Since(l.e.start), runtime.SimID(), runtime.SimGroup(), strings.TrimSpace(string(b))))
	}
	return len(b), nil
}

// calmHandler formats log records without changing the execution.
type calmHandler struct{ slog.Handler }

func (h calmHandler) Handle(ctx context.Context, r slog.Record) (err error) {
	simrt.NoPreempt(func() { err = h.Handler.Handle(ctx, r) })
	return
}

func (h calmHandler) WithAttrs(as []slog.Attr) (res slog.Handler) {
	simrt.NoPreempt(func() { res = calmHandler{h.Handler.WithAttrs(as)} })
	return
}

func (h calmHandler) WithGroup(n string) slog.Handler { return calmHandler{h.Handler.WithGroup(n)} }

// Setup prepares the process.
func Setup() {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(-1)
	debug.SetMaxStack(256 << 20)
	rand.Reader = detReader
	Quiet()
}

// FindScenario looks a scenario up.
func FindScenario(prop, name string) *Scenario {
	p := Properties[prop]
	if p == nil {
		return nil
	}
	for _, s := range p.Scenarios {
		if s.Name == name {
			return s
		}
	}
	return nil
}

// SpecFor derives the complete run from a seed.
func SpecFor(prop *Property, seed uint64, onlyScenario string) RunSpec {
	r := simrt.NewRand(seed ^ 0x5bec)
	tot := 0
	for _, s := range prop.Scenarios {
		tot += max(1, s.Weight)
	}
	k := r.Intn(tot)
	var sc *Scenario
	for _, s := range prop.Scenarios {
		k -= max(1, s.Weight)
		if k < 0 {
			sc = s
			break
		}
	}
	if onlyScenario != "" {
		sc = FindScenario(prop.ID, onlyScenario)
	}
	size := r.Pick(0, 0, 0, 1, 1, 2)
	plan := sc.Gen(simrt.NewRand(seed^0x97a9), size)
	cfg := simrt.Config{
		Seed:     seed,
		SchedDev: r.PickF(0, 0.02, 0.1, 0.1, 0.3, 0.6, 1),
		PCT:      r.Chance(0.25),
		MaxSteps: 3_000_000,
	}
	switch r.Intn(6) {
	case 0:
		cfg.YieldEvery = 0
	case 1:
		cfg.YieldEvery = 3
	case 2:
		cfg.YieldEvery = 10
	case 3:
		cfg.YieldEvery = 40
	case 4:
		cfg.YieldEvery = 200
	case 5:
		cfg.YieldEvery = 1500
	}
	if cfg.PCT {
		cfg.SchedDev = r.PickF(0.002, 0.01, 0.05, 0.2)
	}
	cfg.SleepProb = r.PickF(0, 0, 0.05, 0.3, 0.9)
	cfg.MaxSleep = int64(r.Pick(1_000, 1_000_000, 20_000_000, 300_000_000))
	cfg.MaxPaused = int64(4 * time.Hour)
	if sc.SimLimit > 0 {
		cfg.MaxPaused = int64(sc.SimLimit / 6)
	}
	if sc.MaxSteps > 0 {
		cfg.MaxSteps = sc.MaxSteps
	}
	if sc.Tune != nil {
		sc.Tune(&cfg, &plan)
	}
	return RunSpec{Property: prop.ID, Scenario: sc.Name, Seed: seed, Cfg: cfg, Plan: plan}
}

// Run performs one execution.
func Run(spec RunSpec) Result {
	sc := FindScenario(spec.Property, spec.Scenario)
	if sc == nil {
		return Result{CutOff: "unknown scenario " + spec.Scenario}
	}
	res := &Result{Faults: map[string]int{}, Probes: map[string]int{}}
	plan := spec.Plan
	e := &Env{Plan: &plan, Seed: spec.Seed, sc: sc, res: res, keep: spec.KeepLog || spec.LogAll, R: simrt.NewRand(spec.Seed ^ 0xe1)}
	detReader.r = *simrt.NewRand(spec.Seed ^ 0xc1)
	cfg := spec.Cfg
	cfg.Replay = spec.Trace
	if spec.KeepLog && Verbose {
		h := slog.NewTextHandler(logWriter{e}, &slog.HandlerOptions{Level: slog.LevelDebug, ReplaceAttr: func(g []string, a slog.Attr) slog.Attr {
			if a.Key == slog.TimeKey {
				return slog.Attr{}
			}
			return a
		}})
		slog.SetDefault(slog.New(calmHandler{h}))
	} else {
		Quiet()
	}
	simrt.Begin(cfg)
	simrt.OnBudget = func() {
		if sc.BudgetClass != "" {
			e.Fail(sc.BudgetClass, "no end after %d statements", cfg.MaxSteps)
		}
		e.Cut("step budget")
	}
	simrt.OnMemory = func(n uint64) {
		simrt.OnMemory = nil
		if sc.StallClass != "" {
			e.Fail(sc.StallClass, "no end, and the run holds more than %d bytes", uint64(simrt.MaxHeap))
		}
		e.Cut("memory")
	}
	runtime.SimPanicHook = func(v any) {
		st := string(debug.Stack())
		grp := runtime.SimGroup()
		if e.OnPanic != nil && e.OnPanic(grp, v, st) {
			runtime.SimFreeze(grp)
			select {}
		}
		if sc.PanicOK {
			e.Cut("panic: " + fmt.Sprint(v))
		}
		e.Fail("panic", "%v at %s", v, PanicSite(st))
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				msg := fmt.Sprint(r)
				if !e.done {
					e.done = true
					if strings.Contains(msg, "deadlock") {
						res.Class, res.Msg = "deadlock", msg
					} else {
						res.Class, res.Msg = "panic", msg+" at "+PanicSite(string(debug.Stack()))
					}
				}
			}
		}()
		synctest.Run(func() {
			e.start = time.Now()
			for _, f := range OnStart {
				f(e)
			}
			limit := e.limit()
			go func() {
				time.Sleep(limit)
				if sc.StallClass != "" {
					e.Fail(sc.StallClass, "no end within %v of simulated time", limit)
				}
				e.Cut("time limit")
			}()
			sc.Run(e)
			if !e.done {
				e.done = true
				res.SimNs = int64(time.Since(e.start))
			}
			runtime.SimAbandon()
		})
	}()
	st, tr, over := simrt.End()
	simrt.OnBudget = nil
	runtime.SimPanicHook = nil
	res.Hash, res.Steps, res.Preempt, res.Pauses = st.Hash, st.Steps, st.Preempt, st.Pauses
	res.Picks, res.Switches, res.Gor = st.Picks, st.Switches, st.Goroutines
	res.Events = e.logN
	res.Overflow = over
	if res.Class != "" {
		res.Trace = &tr
	}
	return *res
}

// PanicSite extracts the innermost repository frame of a stack trace.
func PanicSite(st string) string {
	lines := strings.Split(st, "\n")
	for i := 0; i+1 < len(lines); i++ {
		l := lines[i]
		if strings.HasPrefix(l, "reduction.dev/reduction/") && !strings.Contains(l, "zz_verif") {
			fn := l
			if k := strings.LastIndex(fn, "("); k > 0 {
				fn = fn[:k]
			}
			return strings.TrimPrefix(fn, "reduction.dev/reduction/")
		}
	}
	return "?"
}

// SortedKeys returns the keys of m in order.
func SortedKeys[K cmp.Ordered, V any](m map[K]V) []K {
	ks := make([]K, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	slices.Sort(ks)
	return ks
}
