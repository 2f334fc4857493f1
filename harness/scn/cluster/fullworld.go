package cluster

import (
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"runtime"
	"slices"
	"sort"
	"strings"
	"time"

	"connectrpc.com/connect"
	gproto "google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/timestamppb"
	"reduction.dev/reduction-protocol/handlerpb"
	"reduction.dev/reduction-protocol/jobconfigpb"
	"reduction.dev/reduction/batching"
	"reduction.dev/reduction/clocks"
	"reduction.dev/reduction/config"
	"reduction.dev/reduction/connectors"
	"reduction.dev/reduction/dkv"
	"reduction.dev/reduction/dkv/recovery"
	"reduction.dev/reduction/dkv/storage"
	"reduction.dev/reduction/jobs"
	"reduction.dev/reduction/proto"
	"reduction.dev/reduction/proto/jobpb"
	"reduction.dev/reduction/proto/snapshotpb"
	"reduction.dev/reduction/proto/workerpb"
	"reduction.dev/reduction/storage/locations"
	"reduction.dev/reduction/workers"
	"reduction.dev/reduction/workers/operator"
	"reduction.dev/reduction/workers/sourcerunner"
	dkvscn "reduction.dev/reduction/zz_verif/scn/dkv"
	"reduction.dev/reduction/zz_verif/sim"
	"reduction.dev/reduction/zz_verif/simos"
	"reduction.dev/reduction/zz_verif/simrt"
)

// FW is the whole system: a real job, real workers (source runner and operator in
// one process each), the real database and snapshot store over simulated files.
// The source, the user's handler and the network are simulated.
type FW struct {
	e        *sim.Env
	p        *sim.Plan
	disowned map[string]bool // as in World
	lastOps  string          // operators of the newest deployment
	disk     *dkvscn.Disk
	net      *Net
	src      *source
	k        *kstream // if the source is Kinesis
	real     realSource
	adds     int              // "add" operations that were executed
	base     map[uint64][]int // positions in published checkpoints
	goal     []int            // positions that must be reached if records never end
	keys     [][]byte
	kgc      int
	n        int // configured number of workers

	hlatP float64
	hlat  time.Duration
	herrP float64

	seq      int
	jobp     *jproc
	jobN     int
	hosts    map[string]*wproc
	slots    []*slot
	procs    []*wproc
	cuts     map[string]int // endpoint or pair of endpoints: 1 refuses, 2 drops packets, 3 answers nothing
	hang     string         // a host that hangs while the others recover
	calm     bool
	final    bool
	settling time.Time
	deadline int64 // timers before it must fire in the end
	over     bool

	incomplete string

	verifyG   uint32
	nverify   int
	known     map[string]uint64 // snapshot files
	newest    uint64            // checkpoint with a published file
	advanced  time.Time         // when the last records with late event times were added
	pendingAt time.Time         // when a checkpoint with timers that should have fired appeared
	ckDone    uint64            // the newest one whose state has all of the input
	files     map[string]bool   // what the newest one refers to
	handled   int               // events handlers got
	stats     struct{ deploys, published, kills int }
}

// jproc is one process of the job.
type jproc struct {
	*Node
	w    *FW
	job  *jobs.Job
	n    int
	regs map[string]*reg
	asm  *asm
	asms []*asm
	last *freg // the last registration that was processed
}

type freg struct{ at time.Time }

// reg is what the job was told about a node.
type reg struct {
	op      bool
	host    string
	seq     int // of the last registration that is processed
	at      time.Time
	begun   int // last deregistration that began and returned
	ended   bool
	endedAt time.Time
}

// asm is an assembly as the job made it.
type asm struct {
	j     *jproc
	n     int
	at    time.Time
	srs   []string
	ops   []string
	floor uint64
	ck    *uint64
	regs  map[string]reg
	lastR time.Time
	opOK  map[string]bool
	srOK  map[string]bool
	start bool

	// Kinesis: who has a shard, which are finished, the checkpoint it starts from.
	kasg  map[int]string
	kproc map[string]uint32
	kfin  map[int]bool
	kbase *kpos
	from  uint64 // checkpoint the splitter starts from
}

// slot is a place where a worker process runs, restarted by a supervisor.
type slot struct {
	w     *FW
	i     int
	gen   int
	host  string
	proc  *wproc
	spare bool
	down  bool // switched off
	delay time.Duration
	r     *simrt.Rand
}

type wproc struct {
	*Node
	w      *FW
	s      *slot
	host   string
	worker *workers.Worker
	ready  bool
	ops    string // operators of the deployment it heard of last
	dbOps  string // operators of the deployment of its database, "" without one
	moving string // id of its operator while that replaces its database
	done   chan struct{}
	self   bool // ended by itself
	reads  map[int]int
	stop   bool
}

var errRefused = errors.New("simulated network: connection refused")
var errTimeout = errors.New("simulated network: i/o timeout")
var errReset = errors.New("simulated network: connection reset by peer")

func runFull(e *sim.Env) {
	p := e.Plan
	w := &FW{e: e, p: p, kgc: p.Int("kgc"), n: p.Int("workers"), hosts: map[string]*wproc{}, cuts: map[string]int{}, disowned: map[string]bool{}, base: map[uint64][]int{}, known: map[string]uint64{}}
	w.disk = dkvscn.NewDisk(e, p)
	w.disk.OnEvent = w.fileEvent
	e.OnPanic = w.onPanic
	w.verifyG = e.NewGroup()
	simrt.QuietGroup = w.verifyG
	w.disk.Skip = func() bool { return runtime.SimGroup() == w.verifyG }
	w.net = &Net{e: e, LatP: float64(p.Int("netlatp")) / 1000, Lat: us(p.Int("netlat"))}
	w.keys = dkvscn.Keys(p.Int("style"), p.Int("keys"), uint64(p.Int("kseed")))
	w.src = newSource(e, p.Int("splits"))
	w.src.batch = max(1, p.Int("rbatch"))
	w.src.latP, w.src.lat = float64(p.Int("srclatp"))/1000, us(p.Int("srclat"))
	w.src.poll = us(max(1000, p.Int("poll")))
	w.hlatP, w.hlat = float64(p.Int("hlatp"))/1000, us(p.Int("hlat"))
	if p.Int("kinesis") == 1 {
		w.k = newKStream(w)
	}
	switch p.Int("source") {
	case 2:
		w.real = newEmbeddedSource(w)
	case 3:
		w.real = newHTTPSource(w)
	}
	dkv.TuneOptions = func(o *dkv.DBOptions) {
		if runtime.SimGroup() == w.verifyG {
			return
		}
		o.MemTableSize = uint64(p.Int("mem"))
		o.TargetFileSize = uint64(p.Int("target"))
		o.L0TableNumCompactionTrigger = p.Int("l0")
		if p.Int("wal") > 0 {
			o.MaxWALSize = uint64(p.Int("wal"))
		}
	}
	operator.TuneTimerCacheSize = func(n uint64) uint64 {
		if p.Int("tcache") > 0 {
			return uint64(p.Int("tcache") * w.kgc)
		}
		return n
	}
	w.storm()
	w.startJob()
	for i := 0; i < w.n+p.Int("spares"); i++ {
		w.addSlot(us(p.Int("startlat")))
	}
	for i, op := range p.Ops {
		w.op(op, i)
	}
	w.settle("at the end", true)
	if n := w.total(); n == 0 {
		e.Trivial()
	}
	w.over = true
}

// onPanic: code that can't go on after a disk error panics, its process ends.
func (w *FW) onPanic(g uint32, v any, stack string) bool {
	s := fmt.Sprint(v)
	if strings.Contains(s, "file not found") {
		// As in World: a process left out of the deployment.
		for _, q := range w.procs {
			if q.Group == g && q.ops != w.lastOps {
				w.e.Log("panic ends %s: %s", q.Name, s)
				w.e.Probe("worker without deployment ended")
				q.end()
				return true
			}
		}
	}
	if w.disk.Errs == 0 || !strings.Contains(s, "input/output error") && !strings.Contains(s, "no space left") && !strings.Contains(s, "invalid argument") &&
		!strings.Contains(s, "exit status") { // mkdir before a copy
		return false
	}
	w.e.Log("panic ends process of group %d: %s", g, s)
	w.e.Probe("process ended after disk error")
	if j := w.jobp; j.Group == g {
		j.end(time.Second)
		return true
	}
	for _, q := range w.procs {
		if q.Group == g {
			q.end()
			return true
		}
	}
	return false
}

func (q *wproc) end() {
	if q.Alive {
		q.Alive = false
		q.w.e.GoIn(0, func() {
			close(q.dead)
			q.w.e.Crash(q.Group)
		})
	}
}

func (j *jproc) end(restart time.Duration) {
	if !j.Alive {
		return
	}
	w := j.w
	j.Alive = false
	w.e.GoIn(0, func() {
		close(j.dead)
		w.e.Crash(j.Group)
		time.Sleep(restart)
		if w.jobp == j && !w.over {
			w.startJob()
		}
	})
}

func (w *FW) total() (n int) {
	for _, s := range w.src.splits {
		n += len(s)
	}
	return
}

// storm sets the rates of the run's random faults.
func (w *FW) storm() {
	p := w.p
	w.calm = false
	w.net.ErrP = float64(p.Int("neterr")) / 100000
	w.src.errP = float64(p.Int("srcerr")) / 1000
	w.herrP = float64(p.Int("herr")) / 100000
	w.disk.ErrP = float64(p.Int("errs")) / 100000
	if p.Int("errs") > 0 {
		w.disk.ErrOps = map[string]bool{"write": true, "open": true, "create": true, "mkdir": true, "rename": true}
	}
}

func (w *FW) quiet() {
	w.calm = true
	w.net.ErrP, w.src.errP, w.herrP, w.disk.ErrP = 0, 0, 0, 0
	clear(w.cuts)
	if w.hang != "" {
		w.cuts[w.hang] = 3
	}
	for _, s := range w.slots {
		s.down = false
		s.delay = 100 * time.Millisecond
	}
}

func (w *FW) op(op sim.Op, i int) {
	e := w.e
	switch op.K {
	case "add":
		w.adds++
		if w.p.Int("source") == 2 {
			break
		}
		sp := op.Int(0) % len(w.src.splits)
		if w.k != nil {
			sp = w.k.open(sp)
		}
		r := simrt.NewRand(uint64(op.Int(2)))
		for k := 0; k < op.Int(1); k++ {
			w.src.add(sp, w.src.genEvents(sp, r, w.keys, int64(w.p.Int("dt")), w.p.Int("fan")))
		}
	case "sleep":
		time.Sleep(us(op.Int(0)))
	case "kill": // a number of workers at once
		for k, s := range w.slots {
			if op.Int(0)>>k&1 == 1 && s.proc != nil && s.proc.Alive {
				s.delay = us(op.Int(1))
				w.stats.kills++
				s.proc.Kill()
			}
		}
	case "off": // not restarted until the next settle or on
		s := w.slots[op.Int(0)%len(w.slots)]
		s.down = true
		if s.proc != nil && s.proc.Alive {
			s.proc.Kill()
		}
	case "on":
		for _, s := range w.slots {
			s.down = false
		}
	case "stop": // shut down in an orderly fashion
		s := w.slots[op.Int(0)%len(w.slots)]
		s.delay = us(op.Int(1))
		if q := s.proc; q != nil && q.Alive && q.ready {
			e.Fault("worker stopped")
			e.GoIn(q.Group, func() { q.worker.Stop() })
			e.GoIn(0, func() {
				// What a supervisor does with a process that doesn't end.
				if time.Sleep(20 * time.Second); q.Alive {
					q.Kill()
				}
			})
		}
	case "jobkill":
		if w.jobp.Alive {
			w.jobp.Kill()
			time.Sleep(us(op.Int(0)))
			if n := op.Int(1); n > 0 && n != w.n {
				w.n = n
				for len(w.slots) < n {
					w.addSlot(0)
				}
				e.Probe("job restarted with another number of workers")
			}
			w.startJob()
		}
	case "power": // all machines lose what they didn't force to the disk
		if w.p.Int("fs") != 0 {
			break
		}
		for _, s := range w.slots {
			s.delay = us(op.Int(0))
			if s.proc != nil && s.proc.Alive {
				w.stats.kills++
				s.proc.Kill()
			}
		}
		if w.jobp.Alive {
			w.jobp.Kill()
		}
		e.Fault("power loss")
		simos.PowerLoss()
		time.Sleep(us(op.Int(1)))
		w.startJob()
	case "cut":
		a := w.endpoint(op.Int(0))
		key := a
		if op.Int(1) >= 0 {
			if b := w.endpoint(op.Int(1)); b != a {
				key = pair(a, b)
			}
		}
		w.cuts[key] = op.Int(2)
		e.Fault("partition")
		e.Log("cut %s mode %d", key, op.Int(2))
	case "heal":
		clear(w.cuts)
		e.Log("heal")
	case "stall":
		s := w.slots[op.Int(0)%len(w.slots)]
		if s.proc != nil {
			s.proc.stallUntil = time.Now().Add(us(op.Int(1)))
			e.Fault("stalled node")
		}
	case "hang": // a machine that answers nothing and keeps its connections
		s := w.slots[op.Int(0)%len(w.slots)]
		if s.proc == nil || !s.proc.Alive {
			break
		}
		w.hang = s.host
		w.cuts[w.hang] = 3
		e.Fault("hanging node")
		for k, t := range w.slots { // the next assembly may include it
			if op.Int(2)>>k&1 == 1 && t != s && t.proc != nil && t.proc.Alive {
				t.delay = 300 * time.Millisecond
				w.stats.kills++
				t.proc.Kill()
			}
		}
		time.Sleep(us(op.Int(1)))
		if len(w.slots) > w.n { // the others suffice
			w.settle(fmt.Sprintf("while %s hangs after operation %d", s.host, i), false)
			w.storm()
		}
		w.hang = ""
		delete(w.cuts, s.host)
	case "savepoint":
		w.savepoint()
	case "gc":
		w.collect()
	case "ksplit":
		w.k.split(op.Int(0))
	case "kmerge":
		w.k.merge(op.Int(0))
	case "kexpire":
		w.k.expire = time.Now()
	case "ktrim":
		w.k.trim()
	case "settle":
		w.settle(fmt.Sprintf("after operation %d", i), false)
		w.storm()
	case "addslot":
		if len(w.slots) < 6 {
			w.addSlot(0)
		}
	}
}

func pair(a, b string) string {
	if a > b {
		a, b = b, a
	}
	return a + "|" + b
}

// endpoint 0 is the job, others are workers' hosts.
func (w *FW) endpoint(i int) string {
	if i == 0 {
		return "job"
	}
	return w.slots[i%len(w.slots)].host
}

func (w *FW) cut(a, b string) int {
	if m := w.cuts[a]; m > 0 {
		return m
	}
	if m := w.cuts[b]; m > 0 {
		return m
	}
	return w.cuts[pair(a, b)]
}

func (w *FW) savepoint() {
	j := w.jobp
	if !j.Alive || j.job == nil {
		return
	}
	w.e.GoIn(j.Group, func() {
		ctx, cancel := context.WithTimeout(context.Background(), 10*time.Second)
		defer cancel()
		id, err := j.job.HandleCreateSavepoint(ctx)
		w.e.Log("savepoint %d requested: %v", id, err)
		if err == nil {
			w.e.Probe("savepoint requested")
		}
	})
}

func (w *FW) collect() {
	simrt.CollectCleanups()
	n := simrt.RunCleanups(func(g uint32) bool {
		for _, q := range w.procs {
			if q.Group == g {
				return q.Alive
			}
		}
		return g != w.verifyG
	})
	w.e.Fault("garbage collection")
	for ; n > 0; n-- {
		w.e.Probe("cleanup")
	}
}

// settle lets the system recover without faults: all records must be handled, a
// new checkpoint must complete and hold their state.
func (w *FW) settle(what string, final bool) {
	e := w.e
	w.quiet()
	if final {
		w.final = true
		e.FaultsOff()
		for _, s := range w.slots {
			if s.proc != nil {
				s.proc.stallUntil = time.Time{}
			}
		}
		// Lets every timer fire.
		r := simrt.NewRand(7)
		w.deadline = int64(30 * time.Minute)
		for _, o := range w.src.time {
			w.deadline = max(w.deadline, o+int64(30*time.Minute))
		}
		w.advance(r)
	}
	if !w.jobp.Alive {
		w.startJob()
	}
	w.goal = nil
	for _, n := range w.lens() {
		w.goal = append(w.goal, n+1)
	}
	want := w.newest
	w.settling = time.Now()
	defer func() { w.settling = time.Time{} }()
	more := simrt.NewRand(8)
	ok := e.Until(40*time.Minute, 100*time.Millisecond, func() bool {
		if w.pendingAt.After(w.advanced) && w.jobp.Alive && w.jobp.asm != nil && w.jobp.asm.at.After(w.advanced) {
			// The watermark isn't part of a checkpoint: an assembly that restored
			// one with the last records needs newer ones.
			e.Probe("watermark advanced again")
			w.advance(more)
		}
		return w.newest > want && w.ckDone == w.newest
	})
	if !ok {
		e.Fail("stall", "%s: no recovery within 40 minutes without faults: newest checkpoint %d (was %d), %s", what, w.newest, want, w.diagnose())
	}
	e.Probe("recovered")
}

// advance adds a record with a late event time to every split that takes more.
func (w *FW) advance(r *simrt.Rand) {
	w.advanced = time.Now()
	for sp := range w.src.splits {
		if w.p.Int("source") == 2 || w.p.Int("eoi") == 1 || w.k != nil && w.k.shards[sp].closed {
			continue
		}
		t := w.src.time[sp]
		for _, o := range w.src.time {
			t = max(t, o)
		}
		t += int64(time.Hour)
		var evs []keyed
		evs = append(evs, keyed{key: string(w.keys[r.Intn(len(w.keys))]), ts: t})
		w.src.add(sp, evs)
	}
}

func (w *FW) diagnose() string {
	var up []string
	for _, s := range w.slots {
		if s.proc != nil && s.proc.Alive {
			up = append(up, s.proc.Name)
		}
	}
	a := "no assembly"
	if j := w.jobp; j.asm != nil {
		a = fmt.Sprintf("assembly %d since %v of %v ago", j.asm.n, j.asm.srs, time.Since(j.asm.at))
	}
	return fmt.Sprintf("%s alive %v, workers needed %d, alive %v, %s, %s", w.jobp.Name, w.jobp.Alive, w.n, up, a, w.incomplete)
}

// ---- the network ----

// rpc sends a request like the repository's HTTP client: it is repeated while the
// server is unavailable or closes the connection during the request.
func (w *FW) rpc(ctx context.Context, from *Node, fromHost, host, what string, fn func(ctx context.Context, q *wproc, j *jproc) error) error {
	for n := 1; ; n++ {
		err, again := w.attempt(ctx, from, fromHost, host, what, fn)
		if connect.CodeOf(err) == connect.CodeUnavailable {
			again = err != nil
		}
		if !again {
			return err
		}
		w.e.Probe("request repeated")
		if !w.net.wait(ctx, nil, min(time.Duration(n)*100*time.Millisecond, 10*time.Second)) {
			return fmt.Errorf("request context error: %w", ctx.Err())
		}
	}
}

func (w *FW) attempt(ctx context.Context, from *Node, fromHost, host, what string, fn func(ctx context.Context, q *wproc, j *jproc) error) (error, bool) {
	e := w.e
	if ctx.Err() != nil {
		return ctx.Err(), false
	}
	if l := e.Lat("network latency", w.net.LatP, w.net.Lat); l > 0 {
		if !w.net.wait(ctx, nil, l) {
			return ctx.Err(), false
		}
	}
	fault := 0
	if w.net.ErrP > 0 {
		fault = e.Choose("", w.net.ErrP, 2)
	}
	if fault == 1 {
		e.Fault("request lost")
		e.Log("net: request lost %s -> %s %s", from.Name, host, what)
		return errRefused, false
	}
	open := func() (error, bool) {
		for t0 := time.Now(); ; {
			switch w.cut(fromHost, host) {
			case 1:
				if !w.net.wait(ctx, nil, time.Millisecond) {
					return ctx.Err(), false
				}
				return errRefused, false
			case 2:
				if !w.net.wait(ctx, nil, 100*time.Millisecond) {
					return ctx.Err(), false
				}
				if time.Since(t0) > 30*time.Second {
					return errTimeout, false
				}
				continue
			case 3:
				if !w.net.wait(ctx, nil, time.Second) {
					return ctx.Err(), false
				}
				continue
			}
			return nil, true
		}
	}
	if err, ok := open(); !ok {
		return err, false
	}
	var q *wproc
	var j *jproc
	var to *Node
	if host == "job" {
		j = w.jobp
		to = j.Node
		if j.job == nil {
			to = nil
		}
	} else if q = w.hosts[host]; q != nil && q.ready {
		to = q.Node
	}
	if to == nil || !to.Alive {
		if !w.net.wait(ctx, nil, 500*time.Microsecond) {
			return ctx.Err(), false
		}
		return errRefused, false
	}
	for d := time.Until(to.stallUntil); d > 0; d = time.Until(to.stallUntil) {
		if !w.net.wait(ctx, to, d) {
			return ctx.Err(), false
		}
	}
	res := make(chan error, 1)
	sctx, cancel := context.WithCancel(ctx)
	simrt.GoIn(to.Group, func() {
		res <- fn(sctx, q, j)
		cancel()
	})
	var err error
	select {
	case err = <-res:
	case <-to.dead:
		e.Log("net: connection to %s closed during %s", to.Name, what)
		return errReset, true
	case <-ctx.Done():
		return ctx.Err(), false
	}
	if fault == 2 {
		e.Fault("response lost")
		e.Log("net: response lost %s -> %s %s", from.Name, to.Name, what)
		return errReset, false
	}
	switch w.cut(fromHost, host) {
	case 1:
		return errReset, false
	case 2, 3: // delivered when the network heals
		if e1, ok := open(); !ok {
			return e1, false
		}
	}
	if l := e.Lat("network latency", w.net.LatP, w.net.Lat); l > 0 {
		if !w.net.wait(ctx, nil, l) {
			return ctx.Err(), false
		}
	}
	return err, false
}

// ---- the job ----

// fullClock is the system clock with another checkpoint interval.
type fullClock struct {
	clocks.SystemClock
	w *FW
}

func (c *fullClock) Every(d time.Duration, fn func(*clocks.EveryContext), label string) *clocks.Ticker {
	if label == "checkpointing" {
		d = us(c.w.p.Int("ckptevery"))
		do, w := fn, c.w
		var last time.Time
		fn = func(x *clocks.EveryContext) {
			// Rarer once a recovery takes long, to spare steps.
			if !w.settling.IsZero() && time.Since(w.settling) > time.Minute && time.Since(last) < 10*time.Second {
				return
			}
			last = time.Now()
			do(x)
		}
	}
	return c.SystemClock.Every(d, fn, label)
}

type sinkConfig struct{}

func (sinkConfig) Validate() error                 { return nil }
func (sinkConfig) ProtoMessage() *jobconfigpb.Sink { return &jobconfigpb.Sink{} }
func (sinkConfig) IsSinkConfig()                   {}
func (sinkConfig) NewSink() connectors.SinkWriter  { return &sink{} }

// startJob starts the job's process, again if it fails.
func (w *FW) startJob() {
	w.jobN++
	j := &jproc{Node: NewNode(w.e, fmt.Sprintf("job%d", w.jobN)), w: w, n: w.n, regs: map[string]*reg{}}
	w.jobp = j
	errs := w.disk.Errs
	listErr := 0
	var src connectors.SourceConfig = &fullSource{simConfig{src: w.src}, j}
	if w.k != nil {
		listErr = w.k.listErr
		src = w.k.config(j)
	}
	if w.real != nil {
		src = w.real.config(j)
	}
	w.e.Log("%s starts with %d workers", j.Name, w.n)
	fail := func(err error) {
		if !j.Alive {
			return
		}
		if w.disk.Errs == errs && (w.k == nil || w.k.listErr == listErr) {
			w.e.Fail("job", "%s fails: %v", j.Name, err)
		}
		w.e.Log("%s fails: %v", j.Name, err)
		j.end(time.Second)
	}
	w.e.GoIn(j.Group, func() {
		ch := make(chan error, 1)
		job, err := jobs.New(&jobs.NewParams{
			JobConfig: &config.Config{
				WorkerCount: w.n, KeyGroupCount: w.kgc, WorkingStorageLocation: workDir,
				Sources: []connectors.SourceConfig{src},
				Sinks:   []connectors.SinkConfig{sinkConfig{}},
			},
			Clock: &fullClock{w: w}, Store: locations.NewLocalDirectory(workDir), ErrChan: ch,
			OperatorFactory: func(sender string, node *jobpb.NodeIdentity) proto.Operator {
				j.registered(node, true)
				return &fwOp{w: w, from: j.Node, fromHost: "job", sender: sender, id: node.Id, host: node.Host, j: j}
			},
			SourceRunnerFactory: func(node *jobpb.NodeIdentity) proto.SourceRunner {
				j.registered(node, false)
				return &fwSR{w: w, id: node.Id, host: node.Host, j: j}
			},
		})
		if err != nil {
			fail(fmt.Errorf("starting: %w", err))
			return
		}
		j.job = job
		fail(<-ch)
	})
}

// registered is called while the job processes a registration.
func (j *jproc) registered(node *jobpb.NodeIdentity, op bool) {
	r := j.regs[node.Id]
	if r == nil {
		r = &reg{op: op, host: node.Host}
		j.regs[node.Id] = r
	}
	j.w.seq++
	r.seq, r.at = j.w.seq, time.Now()
	r.ended = false
	j.last = &freg{time.Now()}
}

// left is called when the job returned from a deregistration that began at seq.
func (j *jproc) left(id string, began int) {
	if r := j.regs[id]; r != nil && r.seq < began {
		r.ended, r.endedAt = true, time.Now()
	}
}

// gone: why a node can't be part of an assembly at a time.
func (r reg) gone(at time.Time) string {
	if r.ended {
		return "was deregistered"
	}
	if d := at.Sub(r.at); d > 5*time.Second+10*time.Second {
		return fmt.Sprintf("sent its last heartbeat %v ago", d)
	}
	return ""
}

// fullSource tells when the job makes an assembly.
type fullSource struct {
	simConfig
	j *jproc
}

func (c *fullSource) NewSourceSplitter(ids []string, hooks connectors.SourceSplitterHooks, errs chan<- error) connectors.SourceSplitter {
	return &fullSplitter{c.simConfig.NewSourceSplitter(ids, hooks, errs), c.j.newAsm(ids)}
}

func (j *jproc) newAsm(ids []string) *asm {
	w := j.w
	a := &asm{j: j, n: len(j.asms) + 1, at: time.Now(), srs: slices.Clone(ids), regs: map[string]reg{}, opOK: map[string]bool{}, srOK: map[string]bool{}, floor: w.newest}
	for id, r := range j.regs {
		a.regs[id] = *r
	}
	j.asms = append(j.asms, a)
	j.asm = a
	w.e.Log("%s makes assembly %d of %v, newest checkpoint %d", j.Name, a.n, short(ids), a.floor)
	a.members(ids, false)
	return a
}

func short(ids []string) (s []string) {
	for _, id := range ids {
		s = append(s, id[max(0, len(id)-4):])
	}
	return
}

// members checks that the nodes of an assembly were registered and alive.
func (a *asm) members(ids []string, op bool) {
	e := a.j.w.e
	kind := map[bool]string{true: "operators", false: "source runners"}[op]
	if len(ids) != a.j.n {
		e.Fail("assembly size", "%s: assembly %d has %d %s, the job is configured for %d workers", a.j.Name, a.n, len(ids), kind, a.j.n)
	}
	seen := map[string]bool{}
	hosts := map[string]bool{}
	for _, id := range ids {
		r, ok := a.regs[id]
		if !ok || r.op != op {
			e.Fail("assembly", "%s: assembly %d includes %s, which isn't registered as one of the %s", a.j.Name, a.n, id, kind)
		}
		if seen[id] {
			e.Fail("assembly", "%s: assembly %d includes %s twice", a.j.Name, a.n, id)
		}
		seen[id] = true
		if why := r.gone(a.at); why != "" {
			e.Fail("assembly", "%s: assembly %d includes %s of the %s, which %s", a.j.Name, a.n, id, kind, why)
		}
		if hosts[r.host] {
			e.Log("assembly %d has %s twice", a.n, r.host)
			e.Probe("assembly with two nodes of one address")
		}
		hosts[r.host] = true
	}
}

// used checks that an assembly is used only while it is the current one and healthy.
func (a *asm) used(ctx context.Context, what string) {
	if ctx.Err() != nil || a == nil {
		return
	}
	j, e := a.j, a.j.w.e
	const grace = 15 * time.Second
	now := time.Now()
	if j.asm != a && now.Sub(j.asm.at) > grace {
		e.Fail("stale assembly", "%s sends %s to assembly %d, %v after it made assembly %d", j.Name, what, a.n, now.Sub(j.asm.at), j.asm.n)
	}
	for _, id := range append(slices.Clone(a.srs), a.ops...) {
		r := j.regs[id]
		if r.ended && now.Sub(r.endedAt) > grace {
			e.Fail("stale assembly", "%s sends %s to assembly %d, %v after its member %s was deregistered", j.Name, what, a.n, now.Sub(r.endedAt), id)
		}
		// Any registration makes the job look at the heartbeats.
		if dead := r.at.Add(7 * time.Second); j.last.at.After(dead) && now.Sub(j.last.at) < 5*time.Second && now.Sub(dead) > 2*grace {
			e.Fail("stale assembly", "%s sends %s to assembly %d, %v after the last heartbeat of its member %s", j.Name, what, a.n, now.Sub(r.at), id)
		}
	}
}

type fullSplitter struct {
	connectors.SourceSplitter
	a *asm
}

func (s *fullSplitter) Start(ckpt *snapshotpb.SourceCheckpoint) error {
	a, w := s.a, s.a.j.w
	for _, id := range a.srs {
		if !a.srOK[id] {
			w.e.Fail("not deployed", "%s starts to read for assembly %d although source runner %s wasn't deployed", a.j.Name, a.n, id)
		}
	}
	if len(a.ops) == 0 {
		w.e.Fail("not deployed", "%s starts to read for assembly %d without operators", a.j.Name, a.n)
	}
	for _, id := range a.ops {
		if !a.opOK[id] {
			w.e.Fail("not deployed", "%s starts to read for assembly %d although operator %s wasn't deployed", a.j.Name, a.n, id)
		}
	}
	if got := ckpt.GetCheckpointId(); a.ck != nil && got != *a.ck {
		w.e.Fail("other checkpoint", "%s: assembly %d starts its operators from checkpoint %d and its source from %d", a.j.Name, a.n, *a.ck, got)
	}
	a.start = true
	w.stats.deploys++
	w.e.Probe("deployed")
	if a.ck != nil && *a.ck > 0 {
		w.e.Probe("restored")
	}
	a.from = ckpt.GetCheckpointId()
	if w.k != nil {
		w.k.start(a, ckpt)
	}
	return s.SourceSplitter.Start(ckpt)
}

// fwOp is an operator as others reach it.
type fwOp struct {
	w        *FW
	from     *Node
	fromHost string
	sender   string
	id, host string
	j        *jproc // if the job uses it
	gen      string // deployment in which from got to know it
}

func (a *fwOp) ID() string   { return a.id }
func (a *fwOp) Host() string { return a.host }

func (a *fwOp) call(ctx context.Context, what string, fn func(ctx context.Context, q *wproc) error) error {
	return a.w.rpc(ctx, a.from, a.fromHost, a.host, what, func(ctx context.Context, q *wproc, _ *jproc) error { return fn(ctx, q) })
}

func (a *fwOp) HandleEventBatch(ctx context.Context, batch []*workerpb.Event) error {
	batch = wires(batch)
	return a.call(ctx, "HandleEventBatch", func(ctx context.Context, q *wproc) error {
		for _, ev := range wires(batch) {
			if err := q.worker.Operator.HandleEvent(ctx, a.sender, ev); err != nil {
				return err
			}
		}
		return nil
	})
}

// deploys checks a deployment and returns its assembly; nil if it was given up.
func (a *fwOp) deploys(ctx context.Context, req *workerpb.DeployOperatorRequest) *asm {
	if ctx.Err() != nil {
		return nil
	}
	w, e := a.w, a.w.e
	asm := a.j.asm
	if asm == nil || !sameSet(asm.srs, req.SourceRunnerIds) {
		e.Fail("assembly", "%s deploys operator %s with source runners %v, which aren't those of its assembly", a.j.Name, a.id, req.SourceRunnerIds)
	}
	asm.used(ctx, "Deploy")
	var ids []string
	for _, o := range req.Operators {
		ids = append(ids, o.Id)
	}
	if asm.ops == nil {
		asm.members(ids, true)
		asm.ops = ids
	}
	if !slices.Equal(asm.ops, ids) {
		e.Fail("assembly", "%s tells the operators of assembly %d different members: %v and %v", a.j.Name, asm.n, asm.ops, ids)
	}
	if !slices.Contains(ids, a.id) {
		e.Fail("assembly", "%s deploys operator %s, which isn't in the assembly", a.j.Name, a.id)
	}
	if int(req.KeyGroupCount) != w.kgc {
		e.Fail("config", "%s deploys %d key groups", a.j.Name, req.KeyGroupCount)
	}
	ck := uint64(0)
	for _, c := range req.Checkpoints {
		if ck != 0 && c.CheckpointId != ck {
			e.Fail("other checkpoint", "%s deploys operator %s from checkpoints %d and %d", a.j.Name, a.id, ck, c.CheckpointId)
		}
		ck = c.CheckpointId
	}
	if lo, hi := refRange(w.kgc, len(ids), slices.Index(ids, a.id)); lo == hi {
		return asm // without keys it restores nothing
	}
	if asm.ck != nil && *asm.ck != ck {
		e.Fail("other checkpoint", "%s: operators of assembly %d start from checkpoints %d and %d", a.j.Name, asm.n, *asm.ck, ck)
	}
	if ck < asm.floor {
		e.Fail("old checkpoint", "%s: operator %s of assembly %d starts from checkpoint %d, but %d was complete", a.j.Name, a.id, asm.n, ck, asm.floor)
	}
	asm.ck = &ck
	return asm
}

func (a *fwOp) Deploy(ctx context.Context, req *workerpb.DeployOperatorRequest) error {
	asm := a.deploys(ctx, req)
	req = wire(req)
	a.w.lastOps = fmt.Sprint(req.Operators)
	err := a.call(ctx, "Deploy", func(ctx context.Context, q *wproc) error {
		q.ops, q.moving = fmt.Sprint(req.Operators), a.id
		err := q.worker.Operator.HandleDeploy(ctx, wire(req), &sink{})
		if q.moving = ""; err == nil {
			q.dbOps = q.ops
		}
		return err
	})
	if err == nil && asm != nil {
		asm.opOK[a.id] = true
	}
	return err
}

func (a *fwOp) UpdateRetainedCheckpoints(ctx context.Context, ids []uint64) error {
	return a.call(ctx, "UpdateRetainedCheckpoints", func(ctx context.Context, q *wproc) error {
		return q.worker.Operator.HandleRemoveCheckpoints(ctx, &workerpb.UpdateRetainedCheckpointsRequest{CheckpointIds: ids})
	})
}

func (a *fwOp) NeedsTable(ctx context.Context, uri string) (bool, error) {
	var res bool
	err := a.call(ctx, "NeedsTable", func(ctx context.Context, q *wproc) error {
		r := q.worker.Operator.HandleNeedsTable(uri)
		if res = r; !r && q.dbOps != "" && q.dbOps != a.gen {
			a.w.disowned[uri] = true
		}
		return nil
	})
	return res && err == nil, err
}

func sameSet(a, b []string) bool {
	a, b = slices.Clone(a), slices.Clone(b)
	slices.Sort(a)
	slices.Sort(b)
	return slices.Equal(a, b)
}

// fwSR is a source runner as the job reaches it.
type fwSR struct {
	w        *FW
	id, host string
	j        *jproc
	a        *asm // of the last deployment
}

func (s *fwSR) ID() string   { return s.id }
func (s *fwSR) Host() string { return s.host }

func (s *fwSR) call(ctx context.Context, what string, fn func(ctx context.Context, q *wproc) error) error {
	return s.w.rpc(ctx, s.j.Node, "job", s.host, what, func(ctx context.Context, q *wproc, _ *jproc) error { return fn(ctx, q) })
}

func (s *fwSR) Deploy(ctx context.Context, req *workerpb.DeploySourceRunnerRequest) error {
	s.a = s.j.asm
	if ctx.Err() == nil {
		if s.a == nil || !slices.Contains(s.a.srs, s.id) {
			s.w.e.Fail("assembly", "%s deploys source runner %s, which isn't in the assembly", s.j.Name, s.id)
		}
		s.a.used(ctx, "Deploy")
		if len(req.Operators) != s.j.n {
			s.w.e.Fail("assembly size", "%s deploys source runner %s with %d operators", s.j.Name, s.id, len(req.Operators))
		}
	}
	a := s.a
	req = wire(req)
	err := s.call(ctx, "Deploy", func(ctx context.Context, q *wproc) error {
		return q.worker.SourceRunner.HandleDeploy(ctx, wire(req))
	})
	if err == nil && a != nil {
		a.srOK[s.id] = true
	}
	return err
}

func (s *fwSR) AssignSplits(ctx context.Context, splits []*workerpb.SourceSplit) error {
	s.a.used(ctx, "AssignSplits")
	splits = wires(splits)
	return s.call(ctx, "AssignSplits", func(ctx context.Context, q *wproc) error {
		if s.a.kproc != nil {
			s.a.kproc[s.id] = q.Group
		}
		return q.worker.SourceRunner.HandleAssignSplits(ctx, wires(splits))
	})
}

func (s *fwSR) StartCheckpoint(ctx context.Context, id uint64) error {
	s.a.used(ctx, "StartCheckpoint")
	if l := s.w.p.Int("scskew"); l > 0 {
		if d := s.w.e.Lat("slow StartCheckpoint", 0.3, us(l)); d > 0 && !s.w.net.wait(ctx, nil, d) {
			return ctx.Err()
		}
	}
	return s.call(ctx, "StartCheckpoint", func(ctx context.Context, q *wproc) error {
		q.worker.SourceRunner.HandleStartCheckpoint(ctx, id)
		return nil
	})
}

// fwJob is the job as workers reach it.
type fwJob struct {
	w *FW
	q *wproc
}

func (c *fwJob) call(ctx context.Context, what string, fn func(ctx context.Context, j *jproc) error) error {
	return c.w.rpc(ctx, c.q.Node, c.q.host, "job", what, func(ctx context.Context, _ *wproc, j *jproc) error { return fn(ctx, j) })
}

func (c *fwJob) RegisterSourceRunner(ctx context.Context, id *jobpb.NodeIdentity) error {
	return c.call(ctx, "RegisterSourceRunner", func(ctx context.Context, j *jproc) error { j.job.HandleRegisterSourceRunner(wire(id)); return nil })
}

func (c *fwJob) RegisterOperator(ctx context.Context, id *jobpb.NodeIdentity) error {
	return c.call(ctx, "RegisterOperator", func(ctx context.Context, j *jproc) error { j.job.HandleRegisterOperator(wire(id)); return nil })
}

func (c *fwJob) dereg(ctx context.Context, id string, fn func(j *jproc)) error {
	return c.call(ctx, "Deregister", func(ctx context.Context, j *jproc) error {
		c.w.seq++
		began := c.w.seq
		fn(j)
		j.left(id, began)
		return nil
	})
}

func (c *fwJob) DeregisterSourceRunner(ctx context.Context, id *jobpb.NodeIdentity) error {
	return c.dereg(ctx, id.Id, func(j *jproc) { j.job.HandleDeregisterSourceRunner(wire(id)) })
}

func (c *fwJob) DeregisterOperator(ctx context.Context, id *jobpb.NodeIdentity) error {
	return c.dereg(ctx, id.Id, func(j *jproc) { j.job.HandleDeregisterOperator(wire(id)) })
}

func (c *fwJob) OperatorCheckpointComplete(ctx context.Context, req *snapshotpb.OperatorCheckpoint) error {
	req = wire(req)
	return c.call(ctx, "OperatorCheckpointComplete", func(ctx context.Context, j *jproc) error {
		return j.job.HandleOperatorCheckpointComplete(ctx, wire(req))
	})
}

func (c *fwJob) OnSourceRunnerCheckpointComplete(ctx context.Context, req *jobpb.SourceRunnerCheckpointCompleteRequest) error {
	req = wire(req)
	return c.call(ctx, "SourceRunnerCheckpointComplete", func(ctx context.Context, j *jproc) error {
		if k := c.w.k; k != nil {
			k.contribution(j, req)
		}
		return j.job.HandleSourceRunnerCheckpointComplete(ctx, wire(req))
	})
}

func (c *fwJob) NotifySplitsFinished(ctx context.Context, sr string, ids []string) error {
	return c.call(ctx, "NotifySplitsFinished", func(ctx context.Context, j *jproc) error {
		return j.job.HandleNotifySplitsFinished(ctx, sr, ids)
	})
}

// ---- workers ----

func (w *FW) addSlot(lat time.Duration) {
	s := &slot{w: w, i: len(w.slots), r: simrt.NewRand(hash(len(w.slots), w.p.Int("kseed")))}
	s.host = fmt.Sprintf("w%d", s.i)
	w.slots = append(w.slots, s)
	w.e.GoIn(0, func() {
		if lat > 0 {
			time.Sleep(time.Duration(s.r.Intn(int(lat))))
		}
		s.supervise()
	})
}

// supervise restarts the process of a slot whenever it ends.
func (s *slot) supervise() {
	w := s.w
	for !w.over {
		s.delay = us(w.p.Int("restart"))
		s.run()
		if w.over {
			return
		}
		d := s.delay
		if d > 0 {
			d = time.Duration(s.r.Intn(int(d))) + time.Millisecond
		}
		time.Sleep(d)
		for s.down {
			time.Sleep(500 * time.Millisecond)
		}
		s.gen++
		if !s.r.Chance(float64(w.p.Int("samehost")) / 100) {
			s.host = fmt.Sprintf("w%d.%d", s.i, s.gen)
		} else {
			w.e.Probe("restarted at the same address")
		}
	}
}

func (s *slot) run() {
	w, e := s.w, s.w.e
	q := &wproc{Node: NewNode(e, fmt.Sprintf("worker%d.%d", s.i, s.gen)), w: w, s: s, host: s.host, done: make(chan struct{})}
	s.proc = q
	w.procs = append(w.procs, q)
	w.hosts[s.host] = q
	e.GoIn(q.Group, func() {
		job := &fwJob{w, q}
		opf := func(sender string, node *jobpb.NodeIdentity) proto.Operator {
			if sender == q.moving {
				q.dbOps = "" // the last database isn't asked any more
			}
			return &fwOp{w: w, from: q.Node, fromHost: q.host, sender: sender, id: node.Id, host: node.Host, gen: q.ops}
		}
		params := batching.EventBatcherParams{MaxSize: w.p.Int("bsize"), MaxDelay: us(w.p.Int("bdelay"))}
		wk := workers.New(workers.NewParams{Host: s.host, Handler: wireHandler{&fwHandler{w, q}}, Job: job, OperatorFactory: opf, EventBatching: params})
		if w.k == nil && w.p.Int("source") != 3 {
			wk.SourceRunner = sourcerunner.New(sourcerunner.NewParams{
				Host: s.host, UserHandler: wireHandler{&fwHandler{w, q}}, Job: job, OperatorFactory: opf, EventBatching: params,
				SourceReaderFactory: func(c *jobconfigpb.Source) connectors.SourceReader {
					if w.real != nil {
						return w.real.reader(c)
					}
					return &simReader{src: w.src, onRead: func(*record) {}}
				},
			})
		}
		q.worker = wk
		q.ready = true
		err := wk.Start(context.Background())
		e.Log("%s ended: %v", q.Name, err)
		q.self = true
		q.end()
	})
	<-q.dead
}

// ---- the user's handler ----

type fwHandler struct {
	w *FW
	q *wproc
}

var errUser = errors.New("simulated handler error")

func (h *fwHandler) KeyEventBatch(ctx context.Context, events [][]byte) ([][]*handlerpb.KeyedEvent, error) {
	w := h.w
	out := make([][]*handlerpb.KeyedEvent, len(events))
	for i, b := range events {
		if w.k != nil {
			b = w.k.payload(b)
		}
		if w.real != nil {
			b = w.real.payload(b)
		}
		r := w.src.find(b)
		if r == nil {
			w.e.Fail("record", "KeyEventBatch gets a record that doesn't exist: %x", b)
		}
		for j, ev := range r.evs {
			out[i] = append(out[i], &handlerpb.KeyedEvent{
				Key: []byte(ev.key), Timestamp: timestamppb.New(time.Unix(0, ev.ts)),
				Value: binary.BigEndian.AppendUint32(append([]byte{}, b...), uint32(j)),
			})
		}
	}
	if w.herrP > 0 && w.e.Choose("handler error", w.herrP, 1) == 1 {
		return nil, errUser
	}
	if l := w.e.Lat("handler latency", w.hlatP, w.hlat); l > 0 {
		if err := wait(ctx, l); err != nil {
			w.e.Probe("handler given up")
			return nil, err
		}
	}
	return out, nil
}

// Handlers keep for every key and split the number of its events and a hash of
// them in their order, and what became of every timer.

func link(h string, split, idx, j int) string {
	return string(binary.BigEndian.AppendUint64(nil, hash(h, split, idx, j)))
}

// prefix is the state after the first n events of a key in a split; false: there
// aren't as many.
func (w *FW) prefix(split int, key string, n int) (string, bool) {
	h := ""
	if n == 0 {
		return h, true
	}
	for _, r := range w.src.splits[split] {
		for j, ev := range r.evs {
			if ev.key == key {
				h = link(h, split, r.idx, j)
				if n--; n == 0 {
					return h, true
				}
			}
		}
	}
	return "", false
}

func counter(n int, h string) string {
	return string(binary.BigEndian.AppendUint32(nil, uint32(n))) + h
}

func (w *FW) timerOf(r *record, j int) (int64, bool) {
	x := hash(r.split, r.idx, j, "timer")
	if x%100 >= uint64(w.p.Int("timers")) {
		return 0, false
	}
	d := int64(x>>8) % (int64(w.p.Int("dt"))*8 + 5)
	return r.evs[j].ts + (d+1)*ms + int64(r.split*200_000+r.idx*8+j)%int64(ms), true
}

func timerKey(t int64) string { return string(binary.BigEndian.AppendUint64(nil, uint64(t))) }

// fwState is the state of one key.
type fwState map[string]map[string]string

func (s fwState) put(ns, k, v string) {
	if s[ns] == nil {
		s[ns] = map[string]string{}
	}
	s[ns][k] = v
}

func (h *fwHandler) ProcessEventBatch(ctx context.Context, req *handlerpb.ProcessEventBatchRequest) (*handlerpb.ProcessEventBatchResponse, error) {
	w, e := h.w, h.w.e
	told := ns(req.Watermark.AsTime())
	states := map[string]fwState{}
	for _, ks := range req.KeyStates {
		st := fwState{}
		for _, n := range ks.StateEntryNamespaces {
			for _, en := range n.Entries {
				st.put(n.Namespace, string(en.Key), string(en.Value))
			}
		}
		if states[string(ks.Key)] != nil {
			e.Fail("state", "%s: the state of key %q is supplied twice", h.q.Name, ks.Key)
		}
		states[string(ks.Key)] = st
		w.checkKey(h.q.Name+" is given", string(ks.Key), st, nil)
	}
	resp := &handlerpb.ProcessEventBatchResponse{}
	results := map[string]*handlerpb.KeyResult{}
	merge := w.p.Int("merge") == 1
	for _, ev := range req.Events {
		var key string
		switch t := ev.Event.(type) {
		case *handlerpb.Event_KeyedEvent:
			key = string(t.KeyedEvent.Key)
		case *handlerpb.Event_TimerExpired:
			key = string(t.TimerExpired.Key)
		}
		st := states[key]
		if st == nil {
			e.Fail("state", "%s: the state of key %q isn't supplied", h.q.Name, key)
		}
		kr := results[key]
		if kr == nil || !merge {
			kr = &handlerpb.KeyResult{Key: []byte(key)}
			results[key] = kr
			resp.KeyResults = append(resp.KeyResults, kr)
		}
		put := func(ns, k, v string) {
			st.put(ns, k, v)
			mutate(kr, ns, &handlerpb.StateMutation{Mutation: &handlerpb.StateMutation_Put{Put: &handlerpb.PutMutation{Key: []byte(k), Value: []byte(v)}}})
		}
		switch t := ev.Event.(type) {
		case *handlerpb.Event_KeyedEvent:
			rec := w.src.find(t.KeyedEvent.Value)
			if rec == nil || len(t.KeyedEvent.Value) != 12 {
				e.Fail("event", "%s gets an event that doesn't exist", h.q.Name)
			}
			j := int(binary.BigEndian.Uint32(t.KeyedEvent.Value[8:]))
			if j >= len(rec.evs) || rec.evs[j].key != key {
				e.Fail("event", "%s gets record %d of split %d for key %q", h.q.Name, rec.idx, rec.split, key)
			}
			n, hs := 0, ""
			if v := st["count"][fmt.Sprint(rec.split)]; len(v) >= 4 {
				n, hs = int(binary.BigEndian.Uint32([]byte(v))), v[4:]
			}
			want := rec.evs[j].n
			switch {
			case n > want:
				e.Fail("twice", "%s: event %d of key %q in split %d (record %d) is handled with a state that has %d of them", h.q.Name, want, key, rec.split, rec.idx, n)
			case n < want:
				e.Fail("lost", "%s: event %d of key %q in split %d (record %d) is handled with a state that has only %d of them", h.q.Name, want, key, rec.split, rec.idx, n)
			}
			put("count", fmt.Sprint(rec.split), counter(n+1, link(hs, rec.split, rec.idx, j)))
			if tm, ok := w.timerOf(rec, j); ok {
				if tm > told {
					put("timer", timerKey(tm), "p")
					kr.NewTimers = append(kr.NewTimers, timestamppb.New(time.Unix(0, tm)))
					e.Probe("timer set")
				} else {
					put("timer", timerKey(tm), "n")
				}
			}
			w.handled++
		case *handlerpb.Event_TimerExpired:
			tm := ns(t.TimerExpired.Timestamp.AsTime())
			if v := st["timer"][timerKey(tm)]; v != "p" {
				e.Fail("timer", "%s: timer %v of key %q fires, its state is %q, fired %q", h.q.Name, time.Duration(tm), key, v, st["fired"][timerKey(tm)])
			}
			if tm > told {
				e.Fail("timer", "%s: timer %v of key %q fires at watermark %v", h.q.Name, time.Duration(tm), key, time.Duration(told))
			}
			e.Probe("timer fired")
			if tm%2 == 0 {
				put("timer", timerKey(tm), "f")
			} else {
				delete(st["timer"], timerKey(tm))
				mutate(kr, "timer", &handlerpb.StateMutation{Mutation: &handlerpb.StateMutation_Delete{Delete: &handlerpb.DeleteMutation{Key: []byte(timerKey(tm))}}})
				put("fired", timerKey(tm), "f")
			}
		}
	}
	e.Log("%s handles %d events wm=%v", h.q.Name, len(req.Events), time.Duration(told))
	if l := e.Lat("handler latency", w.hlatP, w.hlat); l > 0 {
		if err := wait(ctx, l); err != nil {
			w.e.Probe("handler given up")
			return nil, err
		}
	}
	if w.herrP > 0 && e.Choose("handler error", w.herrP, 1) == 1 {
		return nil, errUser
	}
	return resp, nil
}

func mutate(kr *handlerpb.KeyResult, ns string, m *handlerpb.StateMutation) {
	var last *handlerpb.StateMutationNamespace
	if n := len(kr.StateMutationNamespaces); n > 0 {
		last = kr.StateMutationNamespaces[n-1]
	}
	if last == nil || last.Namespace != ns {
		last = &handlerpb.StateMutationNamespace{Namespace: ns}
		kr.StateMutationNamespaces = append(kr.StateMutationNamespaces, last)
	}
	last.Mutations = append(last.Mutations, m)
}

// checkKey checks that a key's state is that of some number of its events of
// every split, of exactly those ahead of the positions if there are any.
func (w *FW) checkKey(what, key string, st fwState, pos []int) {
	e := w.e
	for _, ns := range sim.SortedKeys(st) {
		if ns != "count" && ns != "timer" && ns != "fired" {
			e.Fail("state", "%s state %q of key %q, which no handler wrote", what, ns, key)
		}
	}
	timers := map[string]bool{}
	for sp := range w.src.splits {
		v := st["count"][fmt.Sprint(sp)]
		n, hs := 0, ""
		if len(v) >= 4 {
			n, hs = int(binary.BigEndian.Uint32([]byte(v))), v[4:]
		}
		if pos != nil {
			if want := w.src.before(sp, pos[sp], key); n != want {
				class := "lost"
				if n > want {
					class = "twice"
				}
				e.Fail(class, "%s the state of key %q after %d of its events in split %d, the position %d has %d ahead of it", what, key, n, sp, pos[sp], want)
			}
		}
		want, ok := w.prefix(sp, key, n)
		if !ok {
			e.Fail("twice", "%s a state of key %q with %d of its events in split %d, more than there are", what, key, n, sp)
		}
		if want != hs {
			e.Fail("state", "%s a state of key %q that isn't the one after %d of its events in split %d", what, key, n, sp)
		}
		k := 0
		for _, r := range w.src.splits[sp] {
			for j, ev := range r.evs {
				if ev.key != key {
					continue
				}
				tm, ok := w.timerOf(r, j)
				if k < n && ok {
					tk := timerKey(tm)
					timers[tk] = true
					a, f := st["timer"][tk], st["fired"][tk]
					if (a == "") == (f == "") {
						e.Fail("state", "%s a state of key %q with %q and %q of the timer %v that record %d of split %d set", what, key, a, f, time.Duration(tm), r.idx, sp)
					}
				}
				k++
			}
		}
	}
	for _, ns := range []string{"timer", "fired"} {
		for tk := range st[ns] {
			if !timers[tk] {
				e.Fail("state", "%s a state of key %q with a timer of an event that isn't part of it", what, key)
			}
		}
	}
}

// ---- checkpoints ----

func (w *FW) fileEvent(op, p string) {
	if w.over {
		return
	}
	switch {
	case isSnapshot(p) && strings.Contains(p, "/checkpoints/") && op == "create":
		w.e.In(w.verifyG, func() { w.published(p) })
	case op == "remove":
		w.e.Probe("file removed")
		if w.files[p] && w.disowned[p] {
			w.e.Cut("an operator of an earlier deployment deletes a shared table (a finding of C09)")
		}
		if w.files[p] {
			w.e.Fail("deleted", "%s is deleted while checkpoint %d, the newest, needs it", p, w.newest)
		}
		delete(w.known, p)
	}
}

// published checks a checkpoint when its file appears: the state of all operators
// together must be that of the records ahead of the positions.
func (w *FW) published(p string) {
	e := w.e
	var jc snapshotpb.JobCheckpoint
	b := w.disk.Peek(p)
	if len(b) == 0 {
		return
	}
	if err := gproto.Unmarshal(b, &jc); err != nil || jc.Id == 0 || len(jc.OperatorCheckpoints) == 0 {
		return // being written
	}
	w.known[p] = jc.Id
	w.stats.published++
	e.Probe("checkpoint published")
	if jc.Id <= w.newest {
		e.Fail("order", "checkpoint %d is published after %d", jc.Id, w.newest)
	}
	if len(jc.SourceCheckpoints) != 1 {
		e.Fail("checkpoint", "checkpoint %d has %d source checkpoints", jc.Id, len(jc.SourceCheckpoints))
	}
	var pos []int
	switch {
	case w.k != nil:
		pos = w.k.positions(&jc)
	case w.real != nil:
		pos = w.real.states(&jc)
	default:
		pos = w.positions(&jc)
	}
	w.base[jc.Id] = pos
	n := len(jc.OperatorCheckpoints)
	ops := slices.Clone(jc.OperatorCheckpoints)
	sort.Slice(ops, func(i, j int) bool { return ops[i].KeyGroupRange.Start < ops[j].KeyGroupRange.Start })
	files := map[string]bool{p: true}
	done := true
	states := map[string]fwState{}
	store := map[string]map[string]bool{} // timers
	for i, o := range ops {
		lo, hi := refRange(w.kgc, n, i)
		if int(o.KeyGroupRange.Start) != lo || int(o.KeyGroupRange.End) != hi {
			e.Fail("checkpoint", "checkpoint %d: operator %s has the key groups %v instead of %d to %d", jc.Id, o.OperatorId, o.KeyGroupRange, lo, hi)
		}
		if o.CheckpointId != jc.Id {
			e.Fail("checkpoint", "checkpoint %d has operator %s's checkpoint %d", jc.Id, o.OperatorId, o.CheckpointId)
		}
		w.refs(o, files)
		w.load(o, lo, hi, states, store)
	}
	for _, k := range w.keys {
		key := string(k)
		st := states[key]
		w.checkKey(fmt.Sprintf("checkpoint %d has", jc.Id), key, st, pos)
		for tk, v := range st["timer"] {
			if (v == "p") != store[key][tk] {
				e.Fail("timer", "checkpoint %d: key %q's timer %v is %q in its state, stored: %v", jc.Id, key, time.Duration(binary.BigEndian.Uint64([]byte(tk))), v, store[key][tk])
			}
			if v == "p" && w.final && len(w.src.splits) >= w.n && int64(binary.BigEndian.Uint64([]byte(tk))) < w.deadline {
				done = false
			}
			delete(store[key], tk)
		}
		for tk := range store[key] {
			e.Fail("timer", "checkpoint %d: key %q has a timer %v that isn't in its state", jc.Id, key, time.Duration(binary.BigEndian.Uint64([]byte(tk))))
		}
		delete(states, key)
	}
	for k := range states {
		e.Fail("state", "checkpoint %d has state of key %q, which doesn't exist", jc.Id, k)
	}
	pending := !done
	if pending {
		w.pendingAt = time.Now()
	}
	for sp, recs := range w.src.splits {
		want := len(recs)
		if w.p.Int("source") == 2 {
			want = 0 // never ends
			if sp < len(w.goal) {
				want = w.goal[sp]
			}
		}
		if pos[sp] < want {
			done = false
		}
	}
	w.newest = jc.Id
	if done {
		w.ckDone = jc.Id
	}
	w.files = files
	w.incomplete = fmt.Sprintf("checkpoint %d at %v, pending timers %v", jc.Id, pos, pending)
	e.Log("published %d at %v of %v complete %v", jc.Id, pos, w.lens(), done)
}

// positions returns how far every split's records belong to a checkpoint.
func (w *FW) positions(jc *snapshotpb.JobCheckpoint) []int {
	pos := make([]int, len(w.src.splits))
	seen := map[int]bool{}
	for _, s := range jc.SourceCheckpoints[0].SplitStates {
		sp, err := decodePos(s)
		if err != nil || seen[sp.ID] {
			w.e.Fail("checkpoint", "checkpoint %d: split state %q: %v, seen %v", jc.Id, s, err, seen[sp.ID])
		}
		seen[sp.ID] = true
		pos[sp.ID] = sp.Pos
	}
	return pos
}

// load reads what an operator's checkpoint holds for its key groups.
func (w *FW) load(o *snapshotpb.OperatorCheckpoint, lo, hi int, states map[string]fwState, store map[string]map[string]bool) {
	e := w.e
	what := fmt.Sprintf("checkpoint %d of operator %s", o.CheckpointId, short([]string{o.OperatorId}))
	w.nverify++
	fs := storage.NewLocalFilesystem(fmt.Sprintf("/data/verify/%d", w.nverify))
	db := dkv.Open(dkv.DBOptions{FileSystem: fs, DataOwnership: keepTables{}, MemTableSize: 1 << 30, MaxWALSize: 1 << 30},
		[]recovery.CheckpointHandle{{CheckpointID: o.CheckpointId, URI: o.DkvFileUri}})
	var err error
	for en := range db.ScanPrefix(nil, &err) {
		k := en.Key()
		if len(k) < 3 {
			e.Fail("encoding", "%s holds the short key %q", what, k)
		}
		g := int(binary.BigEndian.Uint16(k))
		if g < lo || g >= hi {
			continue // left over from before a rescale: not reachable, replaced by its owner
		}
		switch k[2] {
		case 0:
			subj, rest, ok := lenKey(k[3:])
			if !ok || len(rest) < 1 || len(rest) < 1+int(rest[0]) {
				e.Fail("encoding", "%s holds the key %q", what, k)
			}
			if states[subj] == nil {
				states[subj] = fwState{}
			}
			states[subj].put(string(rest[1:1+int(rest[0])]), string(rest[1+int(rest[0]):]), string(en.Value()))
		case 1:
			if len(k) < 11 {
				e.Fail("encoding", "%s holds the key %q", what, k)
			}
			subj := string(k[11:])
			if store[subj] == nil {
				store[subj] = map[string]bool{}
			}
			store[subj][string(k[3:11])] = true
		default:
			e.Fail("encoding", "%s holds the key %q", what, k)
		}
	}
	if err != nil {
		e.Fail("unreadable", "%s: %v", what, err)
	}
}

// refs collects the files a checkpoint consists of.
func (w *FW) refs(req *snapshotpb.OperatorCheckpoint, files map[string]bool) {
	(&World{e: w.e}).refs(req, files)
}

// ---- plans ----

func genFull(prop string) func(r *simrt.Rand, size int) sim.Plan {
	return func(r *simrt.Rand, size int) sim.Plan {
		p := sim.Plan{P: map[string]int64{"fs": 0}}
		set := func(k string, v int) { p.P[k] = int64(v) }
		set("kseed", int(r.Uint64()>>33))
		set("keys", r.Pick(1, 2, 5, 10, 20))
		set("style", r.Pick(0, 1, 1, 3))
		set("kgc", r.Pick(1, 2, 3, 8, 8, 16, 64, 256))
		n := r.Pick(1, 1, 2, 2, 2, 3)
		set("workers", n)
		spares := r.Pick(0, 0, 1, 1, 2)
		set("spares", spares)
		splits := n + r.Pick(0, 0, 1, 2)
		if r.Chance(0.15) {
			splits = r.Range(1, 4)
		}
		set("splits", splits)
		set("rbatch", r.Pick(1, 2, 5, 20))
		set("fan", r.Pick(1, 1, 2, 3))
		set("dt", r.Pick(0, 1, 5, 50))
		set("timers", r.Pick(0, 0, 30, 60, 100))
		set("merge", r.Intn(2))
		set("poll", r.Pick(1000, 5000, 50000, 300000))
		set("bsize", r.Pick(1, 2, 3, 8, 50))
		set("bdelay", r.Pick(100, 1000, 3000, 20000, 100000))
		set("mem", 64<<20)
		set("target", 256<<20)
		if r.Chance(0.5) {
			set("mem", r.Pick(100, 300, 800, 2000))
			set("target", r.Pick(300, 600, 3000, 10000))
			set("wal", r.Pick(0, 0, 300, 1000))
		}
		set("l0", r.Pick(1, 2, 2, 4))
		if r.Chance(0.3) {
			set("tcache", r.Pick(1, 20, 80, 200))
		}
		set("ckptevery", r.Pick(50_000, 200_000, 500_000, 2_000_000, 10_000_000))
		set("startlat", r.Pick(0, 1000, 200_000, 5_000_000))
		set("restart", r.Pick(1000, 300_000, 2_000_000, 15_000_000))
		set("samehost", r.Pick(0, 0, 50, 100))
		set("netlatp", r.Pick(0, 50, 300, 700))
		set("netlat", r.Pick(10, 1000, 20000, 300000))
		set("hlatp", r.Pick(0, 0, 200, 600))
		set("hlat", r.Pick(10, 1000, 20000))
		set("srclatp", r.Pick(0, 0, 100, 500))
		set("srclat", r.Pick(10, 300, 3000, 30000))
		set("latp", r.Pick(0, 0, 20, 200))
		set("lat", r.Pick(10, 300, 5000, 100000))
		kind := r.Intn(10)
		if kind < 2 {
			set("neterr", r.Pick(100, 500, 2000))
		}
		if kind == 2 || kind == 3 {
			set("herr", r.Pick(100, 500, 2000))
		}
		if kind == 4 {
			set("errs", r.Pick(30, 200, 1000))
		}
		if kind == 5 || kind == 6 {
			set("srcerr", r.Pick(10, 100, 300))
		}
		kill, jobkill, part, stop, rescale := 10, 4, 4, 2, 30
		if prop == "C15" {
			kill, jobkill, part, stop, rescale = 8, 4, 10, 5, 50
		}
		delay := func() int64 {
			return int64(r.Pick(1000, 50_000, 1_000_000, 4_000_000, 8_000_000, 20_000_000))
		}
		total := 30 + 40 + kill + jobkill + part + part + stop + 4 + 4 + 2 + 2 + 2 + 1 + 2 + 3*min(spares, 1)
		p.Add("add", int64(r.Intn(4)), int64(r.Range(1, 20)), int64(r.Uint64()>>40))
		for i, cnt := 0, []int{12, 30, 80}[size]; i < cnt; i++ {
			x := r.Intn(total)
			pick := func(w int) bool { x -= w; return x < 0 }
			switch {
			case pick(30):
				p.Add("add", int64(r.Intn(4)), int64(r.Pick(1, 3, 10, 30)), int64(r.Uint64()>>40))
			case pick(40):
				p.Add("sleep", int64(r.Pick(500, 10_000, 100_000, 600_000, 3_000_000, 10_000_000)))
			case pick(kill):
				mask := 1 << r.Intn(n+spares)
				if r.Chance(0.3) {
					mask = r.Intn(1 << (n + spares))
				}
				p.Add("kill", int64(mask), delay())
			case pick(jobkill):
				m := n
				if r.Chance(float64(rescale) / 100) {
					m = r.Range(1, 3)
				}
				p.Add("jobkill", int64(r.Pick(1000, 300_000, 3_000_000, 10_000_000)), int64(m))
			case pick(part):
				a, b := r.Intn(n+spares+1), r.Intn(n+spares+1)
				if r.Chance(0.4) {
					a, b = 0, r.Range(1, n+spares)
				}
				if r.Chance(0.2) {
					b = -1
				}
				p.Add("cut", int64(a), int64(b), int64(r.Range(1, 2)))
				if r.Chance(0.6) {
					p.Add("sleep", int64(r.Pick(10_000, 600_000, 6_000_000, 20_000_000)))
					p.Add("heal")
				}
			case pick(part):
				p.Add("heal")
			case pick(stop):
				p.Add("stop", int64(r.Intn(4)), delay())
			case pick(4):
				p.Add("stall", int64(r.Intn(4)), int64(r.Pick(10_000, 1_000_000, 6_000_000, 15_000_000)))
			case pick(4):
				p.Add("savepoint")
			case pick(2):
				p.Add("gc")
			case pick(2):
				p.Add("off", int64(r.Intn(4)))
			case pick(2):
				p.Add("on")
			case pick(1):
				p.Add("settle")
			case pick(3 * min(spares, 1)):
				mask := 0
				if r.Chance(0.6) {
					mask = r.Intn(1 << (n + spares))
				}
				p.Add("hang", int64(r.Intn(6)), int64(r.Pick(1000, 300_000, 3_000_000, 10_000_000)), int64(mask))
			case pick(2):
				p.Add("power", delay(), int64(r.Pick(1000, 300_000, 10_000_000)))
			}
		}
		return p
	}
}

var fullReal = []string{"jobs (job, registry, assembly, snapshot store)", "workers (worker, source runner, operator)", "batching, clocks, partitioning, connectors.ReadSourceChannel", "dkv", "storage (local file system code over the simulated kernel)"}
var fullStub = []string{"source (splits that grow, read and reported by a simulated reader and splitter)", "user handler", "RPC transport (simulated network with the client's retries)", "process supervisor", "operating system files (in-memory kernel)"}

func fullScenario(prop string, weight int) *sim.Scenario {
	return &sim.Scenario{Name: "full", Weight: weight, Gen: genFull(prop), Run: runFull, SimLimit: 30 * 24 * time.Hour, StallClass: "stall", MaxSteps: 40_000_000,
		Tune: func(cfg *simrt.Config, _ *sim.Plan) { cfg.MaxPaused = int64(3 * time.Minute) }}
}

func init() {
	rules := map[string]string{
		"C01": "A whole cluster (job and workers, real code) under crashes, partitions, lost messages, stalls, handler, source and disk errors; every published checkpoint must hold exactly the effects of the records ahead of its positions, every handler call the state of all earlier events, and once faults stop a checkpoint must hold all input.",
		"C15": "The same cluster with workers joining, leaving, failing and being partitioned in any order: every assembly has exactly the configured number of registered, live members, starts from the newest complete checkpoint as a whole and is given up when a member is lost; the job recovers once enough workers are there.",
	}
	for _, id := range sim.SortedKeys(rules) {
		sim.Register(&sim.Property{ID: id, Level: "exploration", Scenarios: []*sim.Scenario{fullScenario(id, 1)}, Real: fullReal, Stub: fullStub, Rule: rules[id]})
	}
}

func (w *FW) lens() (n []int) {
	for _, s := range w.src.splits {
		n = append(n, len(s))
	}
	return
}
