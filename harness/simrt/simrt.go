// Package simrt is the part of the simulator that instrumented code calls:
// preemption points, per-node variables and simulated cleanups, plus the
// choice streams every simulated decision is drawn from. See /verif/DESIGN.md.
package simrt

import (
	"runtime"
	"runtime/metrics"
	"sort"
	"time"
)

// ---- pseudo random numbers ----

type Rand struct{ s uint64 }

func NewRand(seed uint64) *Rand { return &Rand{s: Mix(seed)} }

func Mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

func (r *Rand) Uint64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	return Mix(r.s)
}

func (r *Rand) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.Uint64() % uint64(n))
}

// Range returns a number in [lo, hi].
func (r *Rand) Range(lo, hi int) int { return lo + r.Intn(hi-lo+1) }

func (r *Rand) Float() float64 { return float64(r.Uint64()>>11) / (1 << 53) }

func (r *Rand) Chance(p float64) bool { return r.Float() < p }

func (r *Rand) Pick(xs ...int) int { return xs[r.Intn(len(xs))] }

func (r *Rand) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

func (r *Rand) PickF(xs ...float64) float64 { return xs[r.Intn(len(xs))] }

func (r *Rand) Bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.Uint64())
	}
	return b
}

// ---- choice streams ----

// Choice is one recorded non-default decision: at position At of its stream
// the value Val was chosen.
type Choice struct {
	At  uint64 `json:"at"`
	Val uint64 `json:"v"`
}

// Trace holds the non-default decisions of a run: goroutine choices (S),
// preemptions and pauses (Y), faults and latencies (F).
type Trace struct {
	S []Choice `json:"s"`
	Y []Choice `json:"y"`
	F []Choice `json:"f"`
}

// Config configures one run of the kernel.
type Config struct {
	Seed       uint64  `json:"seed"`
	SchedDev   float64 `json:"schedDev"`            // probability of deviating from FIFO
	PCT        bool    `json:"pct"`                 // priority scheduling instead
	YieldEvery float64 `json:"yieldEvery"`          // mean statements between preemptions, 0 = none
	MaxPaused  int64   `json:"maxPaused,omitempty"` // total length of the pauses
	SleepProb  float64 `json:"sleepProb"`           // share of preemptions that pause in simulated time
	MaxSleep   int64   `json:"maxSleep"`            // ns
	MaxSteps   uint64  `json:"maxSteps"`            // statements before the run is cut off
	Replay     *Trace  `json:"-"`
}

// Stats counts what happened in a run.
type Stats struct {
	Hash       uint64
	Steps      uint64
	Preempt    uint64
	Pauses     uint64
	Picks      uint64
	Switches   uint64
	Goroutines int
	SimTime    time.Duration
}

var (
	active bool
	cfg    Config
	yrng   Rand
	frng   Rand

	cnt    int64 = 1 << 62 // statements until the slow path
	cnt0   int64 = 1 << 62
	paused uint64
	total  uint64 // statements before the current countdown
	rec    Trace
	ypos   int
	fpos   int
	fcount uint64
	stats  Stats

	// OnBudget is called (on the goroutine that hit it) when MaxSteps is exceeded.
	OnBudget func()
	// Trip is called when a run must pay attention to something each preemption.
	budgetHit bool
)

const far = int64(1) << 62

// Begin starts a run. Call outside the bubble.
func Begin(c Config) {
	cfg = c
	yrng = *NewRand(c.Seed ^ 0x11d)
	frng = *NewRand(c.Seed ^ 0xfa17)
	rec = Trace{}
	ypos, fpos, fcount = 0, 0, 0
	paused = 0
	stats = Stats{}
	total, memAt = 0, 0
	memBase = Heap()
	budgetHit = false
	perNodeEpoch++
	cleanups = nil
	cleanupSeq = 0
	QuietGroup = 0
	rc := runtime.SimConf{Seed: c.Seed, Dev: uint32(c.SchedDev * 65536), PCT: c.PCT}
	if c.Replay != nil {
		rc.Replay = true
		for _, ch := range c.Replay.S {
			rc.ReplayIdx = append(rc.ReplayIdx, ch.At)
			rc.ReplayVal = append(rc.ReplayVal, uint32(ch.Val))
		}
	}
	runtime.SimBegin(rc)
	active = true
	arm()
}

// End finishes a run and returns its statistics and recorded decisions.
func End() (Stats, Trace, bool) {
	total += uint64(cnt0 - cnt)
	active = false
	cnt, cnt0 = far, far
	s := runtime.SimEnd()
	stats.Hash = s.Hash
	stats.Steps = total
	stats.Picks = s.Picks
	stats.Switches = s.Switches
	stats.Goroutines = s.Goroutines
	for i := 0; i < s.Rec; i++ {
		at, v := runtime.SimRecorded(i)
		rec.S = append(rec.S, Choice{at, uint64(v)})
	}
	return stats, rec, s.RecOverflow
}

// arm sets the countdown to the next preemption.
func arm() {
	d := far
	if cfg.Replay != nil {
		for ypos < len(cfg.Replay.Y) && cfg.Replay.Y[ypos].At <= total {
			ypos++
		}
		if ypos < len(cfg.Replay.Y) {
			d = int64(cfg.Replay.Y[ypos].At - total)
		}
	} else if cfg.YieldEvery > 0 {
		d = 1 + int64(yrng.Float()*2*cfg.YieldEvery)
	}
	if cfg.MaxSteps > 0 && !budgetHit {
		left := int64(cfg.MaxSteps) - int64(total)
		if left < 1 {
			left = 1
		}
		if d > left {
			d = left
		}
	}
	memCheck = d > memEvery
	if memCheck {
		d = memEvery
	}
	cnt, cnt0 = d, d
}

// OnMemory is called when a run holds more than MaxHeap bytes.
var OnMemory func(bytes uint64)

const (
	memEvery  = 500_000 // statements between looks at the heap
	MaxHeap   = 3 << 30
	CollectAt = 1 << 30
)

var (
	memCheck  bool // The countdown ends for a look at the heap only
	memAt     uint64
	memBase   uint64 // What earlier runs left
	memSample = []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
)

// Heap is the memory of all objects, also of those not collected yet.
func Heap() uint64 {
	metrics.Read(memSample)
	return memSample[0].Value.Uint64()
}

func checkMemory() {
	memAt = total
	metrics.Read(memSample)
	if memSample[0].Value.Uint64() > memBase+CollectAt && runtime.SimInside() && !runtime.SimAbandoned() {
		// The collector is off during a run. Cleanups found here only queue:
		// they run where the engine collects.
		CollectCleanups()
		metrics.Read(memSample)
	}
	if b := memSample[0].Value.Uint64(); b > memBase+MaxHeap && OnMemory != nil && runtime.SimInside() && !runtime.SimAbandoned() {
		OnMemory(b)
	}
}

// QuietGroup is never preempted: a scenario's checks run in it.
var QuietGroup uint32

// Y is the preemption point inserted before every statement.
func Y() {
	cnt--
	if cnt <= 0 {
		yieldSlow()
	}
}

// NoPreempt runs f without preemption points and without counting its
// statements; f must not block.
func NoPreempt(f func()) {
	c, c0 := cnt, cnt0
	cnt, cnt0 = far, far
	f()
	cnt, cnt0 = c, c0
}

func yieldSlow() {
	if !active {
		cnt, cnt0 = far, far
		return
	}
	total += uint64(cnt0 - cnt)
	if only := memCheck; only || total-memAt > memEvery {
		checkMemory()
		if only {
			arm()
			return
		}
	}
	if !runtime.SimInside() || runtime.SimAbandoned() || QuietGroup != 0 && runtime.SimGroup() == QuietGroup {
		arm()
		return
	}
	if cfg.MaxSteps > 0 && total >= cfg.MaxSteps && !budgetHit {
		budgetHit = true
		arm()
		if OnBudget != nil {
			OnBudget()
		}
		return
	}
	var act uint64
	at := total
	if cfg.Replay != nil {
		if ypos >= len(cfg.Replay.Y) || cfg.Replay.Y[ypos].At != at {
			arm()
			return
		}
		act = cfg.Replay.Y[ypos].Val
	} else {
		act = 1
		if cfg.SleepProb > 0 && yrng.Float() < cfg.SleepProb {
			// Pause lengths over several orders of magnitude.
			f := yrng.Float()
			act = 2 + uint64(f*f*f*float64(cfg.MaxSleep))
			// Slow, but not so slow that a run can't end.
			if paused += act; cfg.MaxPaused > 0 && paused > uint64(cfg.MaxPaused) {
				act = 1
			}
		}
	}
	rec.Y = append(rec.Y, Choice{at, act})
	arm()
	stats.Preempt++
	if act == 1 {
		runtime.Gosched()
	} else {
		stats.Pauses++
		time.Sleep(time.Duration(act))
	}
}

// Choose draws from the fault stream: with probability p it returns 1..n,
// otherwise 0. Zero is always the benign default.
func Choose(p float64, n int) int {
	at := fcount
	fcount++
	v := uint64(0)
	if cfg.Replay != nil {
		for fpos < len(cfg.Replay.F) && cfg.Replay.F[fpos].At < at {
			fpos++
		}
		if fpos < len(cfg.Replay.F) && cfg.Replay.F[fpos].At == at {
			v = cfg.Replay.F[fpos].Val
			if v > uint64(n) {
				v = uint64(n)
			}
		}
	} else {
		x := frng.Float()
		y := frng.Uint64()
		if x < p {
			v = 1 + y%uint64(n)
		}
	}
	if v != 0 {
		rec.F = append(rec.F, Choice{at, v})
	}
	return int(v)
}

// Steps returns the number of statements executed so far.
func Steps() uint64 { return total + uint64(cnt0-cnt) }

// ---- per-node variables ----

var perNodeEpoch uint64

// Var is a package-level variable that exists once per simulated node.
type Var[T any] struct {
	mk    func() T
	epoch uint64
	m     map[uint32]*T
}

func PerNode[T any](mk func() T) *Var[T] { return &Var[T]{mk: mk} }

func PerNode0[T any](f func() T) *Var[T] { return &Var[T]{mk: f} }

func PerNode1[A, T any](f func(A) T, a A) *Var[T] {
	return &Var[T]{mk: func() T { return f(a) }}
}

func PerNode2[A, B, T any](f func(A, B) T, a A, b B) *Var[T] {
	return &Var[T]{mk: func() T { return f(a, b) }}
}

func PerNode3[A, B, C, T any](f func(A, B, C) T, a A, b B, c C) *Var[T] {
	return &Var[T]{mk: func() T { return f(a, b, c) }}
}

// Get returns the calling node's instance.
func (v *Var[T]) Get() *T {
	if v.m == nil || v.epoch != perNodeEpoch {
		v.m = map[uint32]*T{}
		v.epoch = perNodeEpoch
	}
	g := runtime.SimGroup()
	p, ok := v.m[g]
	if !ok {
		t := v.mk()
		p = &t
		v.m[g] = p
	}
	return p
}

// ---- cleanups ----

type pending struct {
	seq   uint64
	group uint32
	fn    func()
}

var (
	cleanupSeq uint64
	cleanups   []pending // became unreachable, not run yet
)

// Cleanup mirrors runtime.Cleanup.
type Cleanup struct{ c runtime.Cleanup }

func (c Cleanup) Stop() { c.c.Stop() }

// AddCleanup replaces runtime.AddCleanup: when the collector finds ptr
// unreachable the cleanup is queued, and RunCleanups executes queued cleanups
// in registration order on a simulated goroutine of the registering node.
func AddCleanup[T, S any](ptr *T, cleanup func(S), arg S) Cleanup {
	cleanupSeq++
	seq, group, epoch := cleanupSeq, runtime.SimGroup(), perNodeEpoch
	return Cleanup{runtime.AddCleanup(ptr, func(arg S) {
		if epoch == perNodeEpoch {
			cleanups = append(cleanups, pending{seq, group, func() { cleanup(arg) }})
		}
	}, arg)}
}

// SetFinalizer replaces runtime.SetFinalizer in instrumented code (never used
// by the repository at the pinned commit; finalizers are simply not run).
func SetFinalizer(obj any, finalizer any) {}

// GC replaces runtime.GC in instrumented code.
func GC() {}

// CollectCleanups runs the garbage collector and returns how many cleanups
// became due. The caller must be a simulated goroutine or outside a run.
func CollectCleanups() int {
	in := runtime.SimInside()
	if in {
		runtime.SimExclusive(true)
	}
	for i := 0; i < 2; i++ {
		runtime.GC()
		flushCleanupQueue()
	}
	if in {
		runtime.SimExclusive(false)
	}
	return len(cleanups)
}

// flushCleanupQueue waits until the runtime has run the queued cleanups. A
// sentinel object's own cleanup tells when the queue has been worked through.
func flushCleanupQueue() {
	for i := 0; i < 50; i++ {
		runtime.Gosched()
	}
}

// RunCleanups executes due cleanups, each on a new goroutine of the node that
// registered it, and returns their number. keep reports whether a cleanup of
// that node may run (a crashed node runs none).
func RunCleanups(alive func(group uint32) bool) int {
	list := cleanups
	cleanups = nil
	sort.Slice(list, func(i, j int) bool { return list[i].seq < list[j].seq })
	n := 0
	for _, p := range list {
		if !alive(p.group) {
			continue
		}
		n++
		fn := p.fn
		GoIn(p.group, fn)
	}
	return n
}

// GoIn starts fn on a new goroutine of a node.
func GoIn(group uint32, fn func()) {
	old := runtime.SimGroup()
	runtime.SimSetGroup(group)
	go fn()
	runtime.SimSetGroup(old)
}
