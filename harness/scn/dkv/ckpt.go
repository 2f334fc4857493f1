package dkvscn

import (
	"errors"
	"fmt"
	"sort"
	"strings"
	"time"

	"reduction.dev/reduction/dkv"
	"reduction.dev/reduction/dkv/kv"
	"reduction.dev/reduction/dkv/recovery"
	"reduction.dev/reduction/zz_verif/sim"
	"reduction.dev/reduction/zz_verif/simos"
	"reduction.dev/reduction/zz_verif/simrt"
)

func init() {
	sim.Register(&sim.Property{
		ID: "C08", Level: "exploration",
		Scenarios: []*sim.Scenario{
			{Name: "ckpt", Weight: 1, Gen: genCkpt, Run: runCkpt, SimLimit: 24 * time.Hour, StallClass: "stall", BudgetClass: "livelock", MaxSteps: 60_000_000},
		},
		Real: dkvReal, Stub: dkvStub,
		Rule: "Sessions of one database: writes, overlapping checkpoints, retention updates, disk errors, crashes at arbitrary points and restores (same or new directory); every completed retained checkpoint is opened in a fresh process and compared with the contents at its Checkpoint call.",
	})
	sim.Register(&sim.Property{
		ID: "C09", Level: "exploration",
		Scenarios: []*sim.Scenario{
			{Name: "files", Weight: 3, Gen: genFiles, Run: runCkpt, SimLimit: 24 * time.Hour, StallClass: "stall", BudgetClass: "livelock", MaxSteps: 60_000_000},
			{Name: "shared", Weight: 2, Gen: genShared, Run: runShared, SimLimit: 24 * time.Hour, StallClass: "stall", BudgetClass: "livelock", MaxSteps: 60_000_000},
		},
		Real: append(dkvReal, "table cleanups registered with runtime.AddCleanup, found due by the real garbage collector, run when the simulator says so"), Stub: dkvStub,
		Rule: "As C08, plus garbage collection at arbitrary times, reopening in the same process, and databases that share tables after a rescale with slow, failing and unreachable neighbours; every retained checkpoint must open with its contents, live databases must read everything, write-ahead logs of dropped checkpoints must go.",
	})
}

func genCkpt(r *simrt.Rand, size int) sim.Plan {
	p := sim.Plan{P: map[string]int64{}}
	dbParams(r, &p)
	if r.Chance(0.6) {
		p.P["keys"] = int64(r.Pick(2, 5, 12, 30))
	}
	p.P["errs"] = int64(r.Pick(0, 0, 0, 2, 10, 40)) // per mille
	if p.P["errs"] > 0 {
		p.P["fs"] = 0
	}
	genCkptOps(r, &p, []int{25, 80, 250}[size], false)
	return p
}

func genFiles(r *simrt.Rand, size int) sim.Plan {
	p := sim.Plan{P: map[string]int64{}}
	dbParams(r, &p)
	p.P["mem"] = int64(r.Pick(1, 40, 100, 250, 600))
	p.P["l0"] = int64(r.Pick(1, 2, 2, 3))
	p.P["gcs"] = 1
	if r.Chance(0.2) {
		p.P["errs"] = int64(r.Pick(2, 10))
		p.P["fs"] = 0
	}
	genCkptOps(r, &p, []int{20, 60, 150}[size], true)
	return p
}

func genCkptOps(r *simrt.Rand, p *sim.Plan, n int, gc bool) {
	ctl := r.PickF(0.15, 0.3, 0.5)
	for i := 0; i < n; i++ {
		if !r.Chance(ctl) {
			genWrite(r, p)
			continue
		}
		switch r.Intn(21) {
		case 0, 1, 2, 3, 4, 5:
			p.Add("ckpt")
		case 6, 7, 8, 9:
			p.Add("sleep", int64(r.Intn(p.Int("lat")*6+1)))
		case 10, 11:
			p.Add("verify", int64(r.Intn(8)))
		case 12, 13:
			// restore: handle, 0 new dir / 1 same dir, 0 crash / 1 same process / 2 power loss
			p.Add("restore", int64(r.Intn(8)), int64(r.Intn(2)), int64(r.Intn(3)))
		case 14, 15, 16:
			p.Add("retain", int64(r.Intn(8)))
		case 17:
			p.Add("wait")
		case 18:
			p.Add("get", int64(r.Intn(p.Int("keys")+2)))
		case 19:
			p.Add("await")
		case 20:
			if gc {
				p.Add("gc")
			}
		}
	}
	if gc {
		p.Add("gc")
	}
}

// keepOwnership never lets a table loaded from a checkpoint be deleted.
type keepOwnership struct{}

func (keepOwnership) OwnsKey([]byte) bool                { return true }
func (keepOwnership) OwnsKeyBetween([]byte, []byte) bool { return true }

func (keepOwnership) ExclusivelyOwnsTable(string, []byte, []byte) (bool, error) {
	return false, nil
}

// ckptRec is one checkpoint of a session.
type ckptRec struct {
	id      uint64
	snap    *model
	handle  recovery.CheckpointHandle
	done    bool // handle returned
	dropped bool
	failed  bool
	sess    int
	dir     string
}

type session struct {
	n      int
	group  uint32
	dir    string
	db     *dkv.DB
	dead   chan struct{}
	isDead bool
	known  []*ckptRec // checkpoints in its list
}

type ckptWorld struct {
	e        *sim.Env
	p        *sim.Plan
	d        *Disk
	keys     [][]byte
	m        *model
	recs     []*ckptRec
	s        *session
	nsess    int
	verifies int
	nextID   uint64
	pending  int  // checkpoints in progress in the current session
	retains  int  // retention updates in progress
	gc       bool // C09
	gcs      int
	writes   int
	dead     map[uint32]bool
}

func runCkpt(e *sim.Env) {
	p := e.Plan
	w := &ckptWorld{e: e, p: p, d: NewDisk(e, p), m: newModel(), dead: map[uint32]bool{}, gc: p.Int("gcs") == 1}
	w.keys = Keys(p.Int("style"), p.Int("keys")+2, uint64(p.Int("kseed")))
	w.d.ErrP = float64(p.Int("errs")) / 1000
	w.d.ErrOps = map[string]bool{"write": true, "sync": true, "rename": true}
	e.OnPanic = func(g uint32, v any, stack string) bool {
		s := w.s
		if w.d.Errs > 0 && s != nil && g == s.group && !s.isDead && strings.Contains(fmt.Sprint(v), "error") || w.d.Errs > 0 && errIsDisk(v) {
			if s != nil && g == s.group && !s.isDead {
				s.isDead = true
				close(s.dead)
				e.Fault("process died of a disk error")
			}
			return true
		}
		return false
	}
	w.open("d0", nil)
	i := 0
	for i < len(p.Ops) {
		// Run operations in the session's process until one that ends it.
		start := i
		end := i
		for end < len(p.Ops) && !control(p.Ops[end].K) {
			end++
		}
		if end > start {
			w.in(func() {
				for ; i < end; i++ {
					w.op(i, p.Ops[i])
				}
			})
			i = end
		}
		if w.s.isDead {
			w.restart(p.Int("kseed")&1 == 1)
			continue
		}
		if i < len(p.Ops) {
			w.control(p.Ops[i])
			i++
			if w.s.isDead {
				w.restart(false)
			}
		}
	}
	e.FaultsOff()
	w.d.ErrP = 0
	if !w.s.isDead {
		w.in(func() {
			checkAll(e, "live-read", w.s.db, w.m, w.keys, " at the end")
			w.settle(true)
			checkAll(e, "live-read", w.s.db, w.m, w.keys, " after the background tasks")
		})
		w.walCheck()
	}
	if w.gc {
		w.collect()
		if !w.s.isDead {
			w.in(func() { checkAll(e, "live-read", w.s.db, w.m, w.keys, " after garbage collection") })
		}
	}
	if p.Int("kseed")&2 == 2 {
		w.crash()
		w.powerLoss()
	}
	n := 0
	for k := len(w.recs) - 1; k >= 0 && n < 6; k-- {
		if w.ok(w.recs[k]) {
			n++
			w.verify(w.recs[k], "at the end")
		}
	}
	if w.verifies == 0 || w.writes == 0 {
		e.Trivial()
	}
}

func errIsDisk(v any) bool {
	s := fmt.Sprint(v)
	return strings.Contains(s, "input/output error") || strings.Contains(s, "no space left")
}

func control(k string) bool {
	switch k {
	case "verify", "restore", "gc":
		return true
	}
	return false
}

// in runs fn in the session's process; it returns early when the process dies.
func (w *ckptWorld) in(fn func()) {
	done := make(chan struct{})
	s := w.s
	w.e.GoIn(s.group, func() { fn(); close(done) })
	select {
	case <-done:
	case <-s.dead:
	}
}

func (w *ckptWorld) ownership() kv.DataOwnership {
	if w.gc {
		return &kv.AllDataOwnership{}
	}
	return keepOwnership{}
}

// open starts a session, in the same process unless the last one is dead.
func (w *ckptWorld) open(dir string, from *ckptRec) {
	g := uint32(0)
	if w.s == nil || w.s.isDead {
		g = w.e.NewGroup()
	} else {
		g = w.s.group
	}
	s := &session{n: w.nsess, group: g, dir: dir, dead: make(chan struct{})}
	w.nsess++
	w.s = s
	w.pending, w.retains = 0, 0
	w.in(func() {
		opts := dbOptions(w.p, w.d.FS(dir))
		opts.DataOwnership = w.ownership()
		var hs []recovery.CheckpointHandle
		if from != nil {
			hs = append(hs, from.handle)
		}
		db := dkv.Open(opts, hs)
		s.db = db
		if from != nil {
			s.known = append(s.known, from)
			w.m = from.snap.clone()
			checkAll(w.e, "restore-mismatch", db, w.m, w.keys, fmt.Sprintf(" in the database restored from checkpoint %d", from.id))
		} else {
			w.m = newModel()
		}
	})
}

// restart opens a new process after the death of the last one.
func (w *ckptWorld) restart(sameDir bool) {
	w.e.Probe("restart after death")
	var last *ckptRec
	for _, c := range w.recs {
		if w.ok(c) {
			last = c
		}
	}
	w.reopen(last, sameDir)
	for tries := 0; w.s.isDead; tries++ {
		if tries > 3 {
			w.d.ErrP = 0
		}
		w.reopen(last, false)
	}
}

func (w *ckptWorld) reopen(c *ckptRec, sameDir bool) {
	dir := fmt.Sprintf("d%d", w.nsess)
	if c != nil && sameDir && c.dir == w.s.dir {
		dir = w.s.dir
		// The new process takes the directory over: its checkpoints file only
		// lists the restored checkpoint.
		for _, x := range w.recs {
			if x.dir == dir && x != c {
				x.dropped = true
			}
		}
	}
	if w.gc {
		// The new database is the only owner of the tables.
		for _, x := range w.recs {
			if x != c {
				x.dropped = true
			}
		}
	}
	for _, x := range w.recs {
		if !x.done {
			x.failed = true // its handle is lost with the process
		}
	}
	w.open(dir, c)
}

func (w *ckptWorld) ok(c *ckptRec) bool { return c.done && !c.dropped && !c.failed }

func (w *ckptWorld) pick(n int) *ckptRec {
	var l []*ckptRec
	for _, c := range w.recs {
		if w.ok(c) {
			l = append(l, c)
		}
	}
	if len(l) == 0 {
		return nil
	}
	if n >= 5 {
		return l[len(l)-1]
	}
	return l[len(l)-1-n%len(l)]
}

// op runs in the session's process.
func (w *ckptWorld) op(i int, op sim.Op) {
	e, s := w.e, w.s
	switch op.K {
	case "put":
		k, v := w.keys[op.Int(0)], Value(i, op.Int(1))
		s.db.Put(k, v)
		w.m.m[string(k)] = v
		w.writes++
	case "del":
		k := w.keys[op.Int(0)]
		s.db.Delete(k)
		delete(w.m.m, string(k))
		w.writes++
	case "get":
		checkGet(e, "live-read", s.db, w.m, w.keys[op.Int(0)], "")
	case "sleep":
		time.Sleep(time.Duration(op.Int(0)) * time.Microsecond)
	case "wait":
		if err := s.db.WaitOnTasks(); err != nil && w.d.Errs == 0 {
			e.Fail("task-error", "background task failed: %v", err)
		}
	case "await":
		w.settle(false)
	case "ckpt":
		w.nextID++
		c := &ckptRec{id: w.nextID, snap: w.m.clone(), sess: s.n, dir: s.dir}
		w.recs = append(w.recs, c)
		s.known = append(s.known, c)
		errs := w.d.Errs
		wait := s.db.Checkpoint(c.id)
		if w.pending > 0 {
			e.Probe("overlapping checkpoints")
		}
		w.pending++
		go func() {
			h, err := wait()
			w.pending--
			if err != nil {
				c.failed = true
				if w.d.Errs == errs {
					e.Fail("checkpoint-error", "checkpoint %d failed: %v", c.id, err)
				}
				return
			}
			if h.CheckpointID != c.id {
				e.Fail("handle", "checkpoint %d returned the handle of %d", c.id, h.CheckpointID)
			}
			e.Log("checkpoint %d complete", c.id)
			e.Probe("checkpoint")
			c.handle, c.done = h, true
		}()
	case "retain":
		w.retain(op.Int(0))
	}
}

// retain drops checkpoints, as the job does once a newer one has completed.
func (w *ckptWorld) retain(n int) {
	e, s := w.e, w.s
	if w.retains > 0 {
		return
	}
	// The newest completed checkpoint this database knows is retained; later
	// ones may be in progress.
	var keep *ckptRec
	for _, c := range s.known {
		if w.ok(c) {
			keep = c
		}
	}
	if keep == nil {
		return
	}
	for _, c := range s.known {
		if c == keep {
			break
		}
		if !c.done && !c.failed {
			return // the job has at most one checkpoint in progress
		}
	}
	ids := []uint64{keep.id}
	for _, c := range s.known {
		if c == keep {
			break
		}
		if !w.ok(c) {
			c.dropped = true // still in progress: superseded
			continue
		}
		if n&3 == 3 && (int(c.id)+n)%2 == 0 {
			ids = append(ids, c.id)
		} else {
			c.dropped = true
			e.Probe("checkpoint dropped")
		}
	}
	w.retains++
	errs := w.d.Errs
	e.Log("retain %v", ids)
	go func() {
		err := s.db.UpdateRetainedCheckpoints(ids)
		w.retains--
		if err != nil && w.d.Errs == errs {
			e.Fail("retain-error", "UpdateRetainedCheckpoints(%v) failed: %v", ids, err)
		}
		e.Log("retained %v", ids)
	}()
}

// settle waits until nothing is in progress in the session.
func (w *ckptWorld) settle(all bool) {
	if !w.e.Until(time.Hour, 10*time.Millisecond, func() bool { return w.pending == 0 && w.retains == 0 }) {
		w.e.Fail("stuck", "a checkpoint or a retention update does not finish")
	}
	if all {
		if err := w.s.db.WaitOnTasks(); err != nil && w.d.Errs == 0 {
			w.e.Fail("task-error", "background task failed: %v", err)
		}
	}
}

func (w *ckptWorld) control(op sim.Op) {
	switch op.K {
	case "verify":
		if c := w.pick(op.Int(0)); c != nil {
			w.verify(c, "")
		}
	case "restore":
		c := w.pick(op.Int(0))
		if op.Int(2) != 1 {
			w.crash()
			if op.Int(2) == 2 {
				w.powerLoss()
			}
			w.reopen(c, op.Int(1) == 1 && c == w.pick(5))
			return
		}
		// Redeployed in the same process: the old database is dropped.
		if c == nil {
			return
		}
		w.in(func() { w.settle(true) })
		if w.s.isDead {
			return
		}
		w.e.Probe("reopened in the same process")
		w.s.db = nil
		w.reopen(c, false)
	case "gc":
		if w.gc {
			w.collect()
			w.walCheck()
		}
	}
}

// crash kills the session's process between two of its steps.
func (w *ckptWorld) crash() {
	w.d.quiesce()
	w.e.Fault("crash")
	w.e.Log("crash of session %d", w.s.n)
	w.s.isDead = true
	w.dead[w.s.group] = true
	w.e.Crash(w.s.group)
}

func (w *ckptWorld) powerLoss() {
	if w.p.Int("fs") == 0 {
		w.e.Fault("power loss")
		simos.PowerLoss()
	}
}

// verify opens a checkpoint in a fresh process and compares its contents.
func (w *ckptWorld) verify(c *ckptRec, note string) {
	w.verifies++
	g := w.e.NewGroup()
	w.dead[g] = true // its table cleanups never run
	errP := w.d.ErrP
	w.d.ErrP = 0
	w.e.In(g, func() {
		opts := dbOptions(w.p, w.d.FS(fmt.Sprintf("v%d", w.verifies)))
		opts.DataOwnership = keepOwnership{}
		opts.MemTableSize = 1 << 30
		opts.MaxWALSize = 1 << 30
		db := dkv.Open(opts, []recovery.CheckpointHandle{c.handle})
		checkAll(w.e, "restore-mismatch", db, c.snap, w.keys, fmt.Sprintf(" in checkpoint %d opened %s", c.id, note))
	})
	w.d.quiesce()
	w.e.Crash(g)
	w.d.ErrP = errP
	w.e.Probe("checkpoint verified")
}

// collect runs the garbage collector and the cleanups that became due.
func (w *ckptWorld) collect() {
	if w.gcs >= 4 {
		return
	}
	w.gcs++
	simrt.CollectCleanups()
	n := simrt.RunCleanups(func(g uint32) bool { return !w.dead[g] })
	if n > 0 {
		w.e.Fault("gc cleanup")
		w.e.Log("%d cleanups", n)
		time.Sleep(time.Second) // let them delete
	}
}

// walCheck: write-ahead logs of dropped checkpoints are gone once the retention
// update has been saved.
func (w *ckptWorld) walCheck() {
	if w.p.Int("fs") != 0 || w.s.isDead || w.pending > 0 || w.retains > 0 || w.d.Errs > 0 {
		return
	}
	if w.nsess > 1 {
		return // earlier processes may have left logs nobody was told to drop
	}
	var wals []string
	for _, f := range simos.List("/data/" + w.s.dir) {
		if strings.HasSuffix(f, ".wal") {
			wals = append(wals, f)
		}
	}
	n, dropped := 0, 0
	for _, c := range w.recs {
		if c.dropped {
			dropped++
		} else {
			n++
		}
	}
	sort.Strings(wals)
	if len(wals) > n {
		w.e.Fail("wal-leak", "%d write-ahead logs remain (%s) for %d checkpoints after %d were dropped", len(wals), short(wals), n, dropped)
	}
	if dropped > 0 {
		w.e.Probe("wal removal checked")
	}
}

// quiesce waits until no call is inside a file system that holds locks, so that
// a crash does not leave them locked.
func (d *Disk) quiesce() {
	for d.Busy > 0 {
		time.Sleep(time.Millisecond)
	}
}

var _ = errors.Is
