package cluster

import (
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"maps"
	"path"
	"runtime"
	"slices"
	"sort"
	"strings"
	"time"

	gproto "google.golang.org/protobuf/proto"
	"reduction.dev/reduction/connectors"
	"reduction.dev/reduction/dkv"
	"reduction.dev/reduction/dkv/recovery"
	"reduction.dev/reduction/proto/jobpb"
	"reduction.dev/reduction/proto/snapshotpb"
	"reduction.dev/reduction/storage/locations"
	"reduction.dev/reduction/storage/snapshots"
	dkvscn "reduction.dev/reduction/zz_verif/scn/dkv"
	"reduction.dev/reduction/zz_verif/sim"
	"reduction.dev/reduction/zz_verif/simos"
	"reduction.dev/reduction/zz_verif/simrt"
)

// The snapshot worlds drive the real snapshots.Store of a job over the real
// storage locations. The workers' acknowledgements, the crashes and the disk are
// simulated; with savepoints, the operators are real databases.

func genSnap(prop string) func(r *simrt.Rand, size int) sim.Plan {
	return func(r *simrt.Rand, size int) sim.Plan {
		p := sim.Plan{P: map[string]int64{}}
		set := func(k string, v int) { p.P[k] = int64(v) }
		set("fs", r.Pick(0, 0, 0, 2))
		set("latp", r.Pick(0, 100, 500, 1000))
		set("lat", r.Pick(10, 1000, 50_000))
		set("nops", r.Pick(1, 1, 2, 3, 5))
		set("nsrs", r.Pick(1, 1, 2, 3))
		set("acklat", r.Pick(0, 100, 5000, 100_000))
		set("notelat", r.Pick(0, 100, 10_000, 200_000))
		set("pace", r.Pick(0, 100, 5000, 50_000))
		if r.Chance(0.4) {
			p.P["startid"] = int64(r.Pick(3, 13, 60, 250, 65533, 1<<32-3, 1<<53-2, 1<<62))
		}
		dbs := 0
		if prop == "C14" {
			dbs = 1
		} else if r.Chance(0.15) {
			dbs = 1
		}
		set("dbs", dbs)
		set("mem", r.Pick(1, 60, 200, 600, 1<<20))
		set("target", r.Pick(100, 400, 1500, 1<<20))
		set("keys", r.Pick(3, 8, 20))
		if dbs == 1 && r.Chance(0.4) {
			// The operators go on while the job waits for its storage.
			set("opfast", 1)
			set("latp", r.Pick(500, 1000))
			set("lat", r.Pick(10_000, 200_000))
			set("acklat", r.Pick(0, 100, 5000))
			set("pace", r.Pick(0, 5000, 50_000))
		}
		if r.Chance(0.25) && p.Int("fs") == 0 {
			set("errs", r.Pick(5, 30, 150))
		}
		sp := 0.12
		if prop == "C14" {
			sp = 0.4
		}
		if dbs == 0 {
			sp = 0
		}
		for i, n := 0, []int{15, 50, 160}[size]; i < n; i++ {
			switch x := r.Intn(100); {
			case x < 34:
				switch {
				case r.Chance(sp):
					p.Add("savepoint", int64(r.Intn(3)))
				case r.Chance(0.1):
					p.Add("create2", int64(r.Intn(3)))
				default:
					p.Add("create")
				}
			case x < 52: // let some of the nodes acknowledge
				p.Add("acks", int64(r.Pick(1, 1, 2, 100)), int64(r.Uint64()>>33))
			case x < 70:
				p.Add("acks", 100, int64(r.Uint64()>>33))
			case x < 80: // a bad acknowledgement
				p.Add("bad", int64(r.Intn(8)), int64(r.Intn(2)), int64(r.Uint64()>>33))
			case x < 86:
				p.Add("sleep", int64(r.Pick(10, 1000, 20000, 200_000, 2_000_000)))
			case x < 90:
				p.Add("settle")
			case x < 91 && dbs == 0: // the assembly is dropped in the middle of a checkpoint
				p.Add("create")
				p.Add("acks", int64(r.Pick(0, 1, 2)), int64(r.Uint64()>>33))
				p.Add("reassemble", 1, int64(r.Range(1, 4)), int64(r.Range(1, 3)), int64(r.Intn(2)))
				if r.Chance(0.7) {
					p.Add("create")
				}
				p.Add("late", int64(r.Pick(1, 2, 100)), int64(r.Uint64()>>33))
			case x < 92 && dbs == 0:
				p.Add("late", int64(r.Pick(1, 2, 100)), int64(r.Uint64()>>33))
			case x < 94:
				p.Add("reassemble", int64(r.Intn(2)), int64(r.Range(1, 4)), int64(r.Range(1, 3)), int64(r.Intn(2)))
			case x < 98:
				p.Add("crash", int64(r.Pick(0, 0, 0, 1)), int64(r.Range(1, 4)), int64(r.Range(1, 3)), int64(r.Intn(3)))
			default:
				if dbs == 1 {
					p.Add("restore", int64(r.Intn(8)), int64(r.Intn(3)), int64(r.Intn(2)), int64(r.Range(1, 3)))
				}
			}
			if dbs == 1 && r.Chance(0.7) {
				for k := r.Intn(4); k > 0; k-- {
					p.Add("put", int64(r.Intn(5)), int64(r.Intn(p.Int("keys"))), int64(r.Pick(0, 5, 30)))
				}
			}
		}
		if dbs == 1 {
			p.Add("savepoint", 0)
			p.Add("acks", 100, 1)
			p.Add("restore", 7, 1, 0, int64(r.Range(1, 3)))
		}
		return p
	}
}

// snapOp is an operator of the snapshot world: a database, or nothing.
type snapOp struct {
	*Node
	db    *dkv.DB
	model map[string]string
	mu    chan struct{} // the database has one foreground goroutine
}

// snapCkpt is the model of a checkpoint that the store gave an id to.
type snapCkpt struct {
	id        uint64
	life      int
	savepoint bool
	ops, srs  []string
	begun     map[string]bool // nodes that are about to acknowledge
	called    map[string]bool // acknowledgements that were submitted
	acked     map[string]bool // … and answered
	handles   map[string]*snapshotpb.OperatorCheckpoint
	splits    map[string][][]byte
	models    map[string]map[string]string
	published bool
	uri       string
	dropped   bool // its assembly is gone: it must not complete anymore
}

func (c *snapCkpt) nodes() []string {
	return append(append([]string{}, c.ops...), c.srs...)
}

func (c *snapCkpt) all(m map[string]bool) bool {
	for _, n := range c.nodes() {
		if !m[n] {
			return false
		}
	}
	return true
}

type snapSplitter struct {
	connectors.UnimplementedSourceSplitter
	w    *snapWorld
	n    int
	life int
}

func (s *snapSplitter) Checkpoint() []byte {
	s.w.splitterN++
	st := fmt.Sprintf("splitter-%d-%d", s.n, s.w.splitterN)
	s.w.splitterStates[st] = s.n
	if s.life == s.w.life && s.n != s.w.splitter {
		s.w.e.Fail("old-splitter", "a checkpoint takes the state of splitter %d although splitter %d replaced it", s.n, s.w.splitter)
	}
	return []byte(st)
}

type snapWorld struct {
	e    *sim.Env
	p    *sim.Plan
	disk *dkvscn.Disk
	job  *Node
	st   *snapshots.Store
	loc  locations.StorageLocation
	errs chan error

	power bool // the next crash is of the whole machine

	life           int
	ops            []*snapOp
	nops           int
	srs            []string
	nsrs           int
	cks            map[uint64]*snapCkpt // by id: the last that was given the id
	pend           *snapCkpt            // last created in this life
	gone           []*snapCkpt          // dropped with their assemblies in this life
	maxIssued      uint64               // in this life
	floor          uint64               // highest id that was published before this life
	current        uint64               // last seen CurrentCheckpoint
	lookExcept     string
	known          map[string]uint64 // complete snapshot files
	notes          []uint64
	splitterStates map[string]int
	splitterN      int
	splitter       int
	jobFailed      string // the store reported an error: the job ends
	savepoints     []*snapCkpt
	savepointURI   string // the job is started with
	base           *snapCkpt
	restoreLife    int // first life with the savepoint
	inflight       int
	errsAt         int
	verifyG        uint32
	puts           int
	stats          struct{ published, restarts, sp, restored int }
}

func runSnap(e *sim.Env) {
	p := e.Plan
	w := &snapWorld{e: e, p: p, cks: map[uint64]*snapCkpt{}, known: map[string]uint64{}, splitterStates: map[string]int{}}
	w.disk = dkvscn.NewDisk(e, p)
	w.disk.ErrP = float64(p.Int("errs")) / 1000
	w.disk.ErrOps = map[string]bool{"write": true, "rename": true, "open": true, "mkdir": true, "read": true, "remove": true}
	w.disk.OnEvent = w.fileEvent
	w.verifyG = e.NewGroup()
	w.disk.Skip = func() bool {
		g := runtime.SimGroup()
		if g == w.verifyG || w.p.Int("opfast") == 1 && w.job != nil && g != w.job.Group {
			return true
		}
		return w.p.Int("dbs") == 1 && (w.job == nil || g != w.job.Group) && w.disk.ErrP > 0
	}
	e.OnPanic = func(g uint32, v any, stack string) bool {
		// Copy panics when it can't create a directory; the job dies of it.
		if w.job != nil && g == w.job.Group && w.disk.Errs > w.errsAt && strings.Contains(fmt.Sprint(v), "exit status") {
			w.jobFailed = fmt.Sprint(v)
			return true
		}
		return false
	}
	dkv.TuneOptions = func(o *dkv.DBOptions) {
		if runtime.SimGroup() != w.verifyG {
			o.MemTableSize = uint64(p.Int("mem"))
			o.TargetFileSize = uint64(p.Int("target"))
		}
	}
	if id := uint64(p.P["startid"]); id > 0 {
		// The job starts from the savepoint of an older job without any state.
		w.base = &snapCkpt{id: id, published: true}
		w.cks[id] = w.base
		w.splitterStates["older"] = 0
		b, _ := gproto.Marshal(&snapshotpb.JobCheckpoint{Id: id, SourceCheckpoints: []*snapshotpb.SourceCheckpoint{{CheckpointId: id, SplitterState: []byte("older")}}})
		w.savepointURI = w.disk.PutFile("savepoints/older/job.savepoint", b)
		w.restoreLife = 1
	}
	w.assemble(p.Int("nops"), p.Int("nsrs"))
	w.startJob()
	pace := us(p.Int("pace"))
	for _, op := range p.Ops {
		if w.jobFailed != "" {
			e.Log("job failed: %s", w.jobFailed)
			e.Probe("job died of a storage error")
			w.crash(false, 0, 0)
		}
		switch op.K {
		case "create":
			w.create(false)
		case "create2":
			// The ticker and a savepoint request at the same time.
			done := 0
			sp := op.Int(0) == 0 && p.Int("dbs") == 1
			go func() { w.create(sp); done++ }()
			w.create(false)
			e.Until(time.Hour, time.Millisecond, func() bool { return done == 1 || w.jobFailed != "" })
		case "savepoint":
			w.create(true)
		case "acks":
			if w.pend != nil {
				w.acks(w.pend, op.Int(0), uint64(op.Int(1)), false)
			}
		case "bad":
			w.bad(op.Int(0), op.Int(1), uint64(op.Int(2)))
		case "sleep":
			time.Sleep(us(op.Int(0)))
		case "settle":
			w.settle()
		case "put":
			o := w.ops[op.Int(0)%len(w.ops)]
			if o.db != nil {
				w.put(o, op.Int(1), op.Int(2))
			}
		case "reassemble":
			w.reassemble(op.Int(0) == 1, op.Int(1), op.Int(2), op.Int(3) == 1)
		case "late":
			if n := len(w.gone); n > 0 {
				w.e.Fault("acknowledgement of a dropped checkpoint")
				w.acks(w.gone[n-1], op.Int(0), uint64(op.Int(1)), true)
			}
		case "crash":
			w.power = op.Int(3) == 1
			w.crash(op.Int(0) == 1, op.Int(1), op.Int(2))
		case "restore":
			w.restore(op.Int(0), op.Int(1), op.Int(2) == 1, op.Int(3))
		}
		w.look()
		if pace > 0 && e.R.Intn(3) == 0 {
			time.Sleep(time.Duration(e.R.Intn(int(pace) * 3)))
		}
	}
	// No more faults: everything acknowledged is published, and a restart finds it.
	w.disk.ErrP = 0
	e.FaultsOff()
	if w.jobFailed == "" && w.pend != nil {
		w.acks(w.pend, 1000, 1, true)
	}
	w.settle()
	w.look()
	w.crash(false, 0, 0)
	if c := w.create(false); c != nil {
		w.acks(c, 1000, 1, true)
		w.settle()
		w.look()
		if w.jobFailed == "" && !c.published {
			e.Fail("unpublished", "checkpoint %d isn't published although every node acknowledged it", c.id)
		}
	}
	if w.stats.published < 2 {
		e.Trivial()
	}
}

func (w *snapWorld) assemble(nops, nsrs int) {
	w.ops, w.srs = nil, nil
	for i := 0; i < nops; i++ {
		o := &snapOp{Node: NewNode(w.e, fmt.Sprintf("op%d", w.nops)), model: map[string]string{}, mu: make(chan struct{}, 1)}
		w.nops++
		w.ops = append(w.ops, o)
	}
	for i := 0; i < nsrs; i++ {
		w.srs = append(w.srs, fmt.Sprintf("sr%d", w.nsrs))
		w.nsrs++
	}
}

func (w *snapWorld) opIDs() (ids []string) {
	for _, o := range w.ops {
		ids = append(ids, o.Name)
	}
	return
}

// in runs fn in the job's process; false: the process died.
func (w *snapWorld) in(fn func(st *snapshots.Store)) bool {
	done := make(chan struct{})
	job, st := w.job, w.st
	if st == nil {
		return false // the job is starting
	}
	w.e.GoIn(job.Group, func() { fn(st); close(done) })
	for {
		select {
		case <-done:
			return true
		case <-job.dead:
			return false
		case <-time.After(time.Second):
			if w.jobFailed != "" {
				return false
			}
		}
	}
}

// startJob starts the job's process: the store loads the latest checkpoint and the
// operators restore it.
func (w *snapWorld) startJob() {
	e := w.e
	for try := 0; ; try++ {
		if try > 5 {
			w.disk.ErrP = 0
		}
		w.life++
		w.splitter++
		w.job = NewNode(e, fmt.Sprintf("job%d", w.life))
		w.jobFailed = ""
		w.st = nil
		w.pend, w.maxIssued, w.current, w.notes = nil, 0, 0, nil
		w.gone = nil
		w.floor = 0
		w.observe()
		var want *snapCkpt
		for _, id := range w.known {
			if id > w.floor {
				w.floor, want = id, w.cks[id]
			}
		}
		if w.savepointURI != "" {
			want = w.base
			w.floor = max(w.floor, want.id)
		}
		for _, c := range w.savepoints {
			w.floor = max(w.floor, c.id)
		}
		errs := w.disk.Errs
		w.errsAt = errs
		loaded := false
		var lerr error
		var got *snapshotpb.JobCheckpoint
		w.e.GoIn(w.job.Group, func() {
			if svc := w.disk.S3(); svc != nil {
				loc, err := locations.NewS3Location(svc, "s3://bucket/")
				if err != nil {
					e.Fail("location", "%v", err)
				}
				w.loc = loc
			} else {
				w.loc = locations.NewLocalDirectory("/data")
			}
			notes := make(chan []uint64)
			w.errs = make(chan error, 1)
			events := make(chan string)
			st := snapshots.NewStore(&snapshots.NewStoreParams{
				SavepointURI: w.savepointURI, FileStore: w.loc, SavepointsPath: "savepoints", CheckpointsPath: "checkpoints",
				CheckpointEvents: events, ErrChan: w.errs, RetainedCheckpointsUpdated: notes,
			})
			if lerr = st.LoadCheckpoint(); lerr == nil {
				got = st.CurrentCheckpoint()
				st.RegisterSourceSplitter(&snapSplitter{w: w, n: w.splitter, life: w.life})
				w.st = st
			}
			loaded = true
			errc := w.errs
			life := w.life
			go func() {
				for range events {
				}
			}()
			go func() {
				err := <-errc
				if w.life != life {
					return
				}
				if w.disk.Errs == w.errsAt {
					e.Fail("job-failed", "the store reports an error, which ends the job, without any fault: %v", err)
				}
				w.jobFailed = "store: " + err.Error()
			}()
			go w.notified(notes, w.life)
		})
		w.e.Until(24*time.Hour, time.Millisecond, func() bool { return loaded || w.jobFailed != "" })
		if !loaded && w.jobFailed == "" {
			e.Fail("stall", "LoadCheckpoint doesn't return")
		}
		if lerr != nil || w.jobFailed != "" {
			if w.disk.Errs == errs {
				e.Fail("load-failed", "the job can't load its checkpoint: %v %s", lerr, w.jobFailed)
			}
			e.Log("loading failed: %v", lerr)
			w.job.Kill()
			continue
		}
		w.stats.restarts++
		if want == nil {
			if got != nil {
				e.Fail("not-newest", "the job starts from checkpoint %d, but its storage has no completed checkpoint", got.Id)
			}
		} else {
			if got == nil {
				e.Fail("not-newest", "the job starts without a checkpoint, its storage has checkpoint %d (files %s)", want.id, w.files())
			}
			if got.Id != want.id {
				e.Fail("not-newest", "the job starts from checkpoint %d, the newest completed one is %d (files %s)", got.Id, want.id, w.files())
			}
			if why := w.differs(want, got); why != "" {
				e.Fail("loaded-content", "checkpoint %d was loaded with other contents than it was published with: %s", want.id, why)
			}
			e.Probe("restart from checkpoint")
			w.current = want.id
		}
		w.base = want
		w.deploy(got, want)
		return
	}
}

func (w *snapWorld) files() string {
	var s []string
	for f, id := range w.known {
		s = append(s, fmt.Sprintf("%s=%d", path.Base(f), id))
	}
	sort.Strings(s)
	return strings.Join(s, " ")
}

// deploy opens the operators' databases from a checkpoint.
func (w *snapWorld) deploy(got *snapshotpb.JobCheckpoint, want *snapCkpt) {
	if w.p.Int("dbs") == 0 {
		return
	}
	errP := w.disk.ErrP
	w.disk.ErrP = 0
	for i, o := range w.ops {
		var hs []recovery.CheckpointHandle
		o.model = map[string]string{}
		if want != nil {
			for j, oc := range got.OperatorCheckpoints {
				if j%len(w.ops) == i {
					hs = append(hs, recovery.CheckpointHandle{CheckpointID: got.Id, URI: oc.DkvFileUri})
					maps.Copy(o.model, want.models[oc.OperatorId])
				}
			}
		}
		w.openDB(o, hs, want)
	}
	w.disk.ErrP = errP
}

func (w *snapWorld) openDB(o *snapOp, hs []recovery.CheckpointHandle, want *snapCkpt) {
	done := false
	w.e.GoIn(o.Group, func() {
		dir := fmt.Sprintf("w/%s-%d", o.Name, w.life)
		o.db = dkv.Open(dkv.DBOptions{FileSystem: w.disk.FS(dir), DataOwnership: neverOwner{}}, hs)
		if want != nil {
			if why := compareDB(o.db, o.model); why != "" {
				w.e.Fail("restored-state", "operator %s restored from checkpoint %d (savepoint %q): %s", o.Name, want.id, w.savepointURI, why)
			}
			w.e.Probe("operator restored")
			w.stats.restored++
		}
		done = true
	})
	if !w.e.Until(time.Hour, time.Millisecond, func() bool { return done }) {
		w.e.Fail("stall", "opening a database doesn't return")
	}
}

// neverOwner keeps all tables: their deletion is another property's subject.
type neverOwner struct{}

func (neverOwner) OwnsKey([]byte) bool                { return true }
func (neverOwner) OwnsKeyBetween([]byte, []byte) bool { return true }
func (neverOwner) ExclusivelyOwnsTable(string, []byte, []byte) (bool, error) {
	return false, nil
}

func compareDB(db *dkv.DB, model map[string]string) string {
	got := map[string]string{}
	var err error
	for en := range db.ScanPrefix(nil, &err) {
		if _, dup := got[string(en.Key())]; dup {
			return fmt.Sprintf("key %q twice", en.Key())
		}
		got[string(en.Key())] = string(en.Value())
	}
	if err != nil {
		return "scan failed: " + err.Error()
	}
	for _, k := range sim.SortedKeys(model) {
		if g, ok := got[k]; !ok {
			return fmt.Sprintf("key %q is missing", k)
		} else if g != model[k] {
			return fmt.Sprintf("key %q is %q, want %q", k, g, model[k])
		}
	}
	for _, k := range sim.SortedKeys(got) {
		if _, ok := model[k]; !ok {
			return fmt.Sprintf("key %q isn't expected", k)
		}
	}
	return ""
}

func (o *snapOp) lock()   { o.mu <- struct{}{} }
func (o *snapOp) unlock() { <-o.mu }

func (w *snapWorld) put(o *snapOp, k, size int) {
	w.puts++
	key := fmt.Sprintf("%s/%d", o.Name, k)
	for mk := range o.model {
		// After a merge, the operator has the keys of several predecessors.
		if strings.HasSuffix(mk, fmt.Sprintf("/%d", k)) && mk < key {
			key = mk
		}
	}
	val := string(dkvscn.Value(w.puts, size))
	n := w.puts
	w.e.GoIn(o.Group, func() {
		o.lock()
		defer o.unlock()
		if n%5 == 0 {
			o.db.Delete([]byte(key))
			delete(o.model, key)
		} else {
			o.db.Put([]byte(key), []byte(val))
			o.model[key] = val
		}
	})
}

// create asks for a checkpoint or savepoint, as the ticker and the user do.
func (w *snapWorld) create(savepoint bool) *snapCkpt {
	e := w.e
	before := w.pend
	life := w.life
	ops, srs := w.opIDs(), slices.Clone(w.srs)
	definitely := before != nil && !before.dropped && !before.all(before.begun)
	definitelyNot := before == nil || before.dropped || before.all(before.acked)
	var id uint64
	var created bool
	var err error
	if !w.in(func(st *snapshots.Store) {
		if savepoint {
			id, created, err = st.CreateSavepoint(ops, srs)
		} else {
			id, err = st.CreateCheckpoint(ops, srs)
			created = err == nil
		}
		if err != nil || !created {
			return
		}
		// Recorded before anyone else can act on it.
		if id <= w.maxIssued {
			e.Fail("id-order", "checkpoint id %d was given after %d", id, w.maxIssued)
		}
		if id <= w.floor {
			e.Fail("id-order", "checkpoint id %d was given although checkpoint %d completed in an earlier life", id, w.floor)
		}
		if old := w.cks[id]; old != nil && old.published && w.present(id) {
			e.Fail("id-order", "checkpoint id %d was given again", id)
		}
		if w.pend != nil && w.pend.life == w.life && !w.pend.dropped && !w.pend.all(w.pend.begun) {
			e.Fail("two-pending", "checkpoint %d was created while %d is in progress", id, w.pend.id)
		}
		w.maxIssued = id
		c := &snapCkpt{id: id, life: w.life, savepoint: savepoint, ops: ops, srs: srs, begun: map[string]bool{}, called: map[string]bool{}, acked: map[string]bool{},
			handles: map[string]*snapshotpb.OperatorCheckpoint{}, splits: map[string][][]byte{}, models: map[string]map[string]string{}}
		w.cks[id] = c
		w.pend = c
		e.Log("created %d savepoint=%v", id, savepoint)
	}) {
		return nil
	}
	if life != w.life {
		return nil
	}
	same := w.pend == before // nobody else created one
	switch {
	case err != nil && !savepoint:
		if !errors.Is(err, snapshots.ErrCheckpointInProgress) {
			e.Fail("create-error", "CreateCheckpoint: %v", err)
		}
		if definitelyNot && same {
			e.Fail("not-created", "CreateCheckpoint reports a checkpoint in progress, but %s", w.why(before))
		}
		e.Probe("checkpoint refused")
		return nil
	case err != nil:
		if definitelyNot && same {
			e.Fail("not-created", "CreateSavepoint: %v, but %s", err, w.why(before))
		}
		return nil
	case !created:
		// Folded into the checkpoint in progress.
		c := w.cks[id]
		if c == nil || c.life != w.life || definitely && same && c != before {
			e.Fail("fold", "CreateSavepoint returns %d, which isn't in progress", id)
		}
		if definitelyNot && same {
			e.Fail("fold", "CreateSavepoint folds into checkpoint %d although %s", id, w.why(before))
		}
		if c.savepoint {
			e.Fail("fold", "CreateSavepoint folds into savepoint %d", id)
		}
		c.savepoint = true
		e.Probe("savepoint folded")
		e.Log("folded savepoint into %d", id)
		return c
	}
	return w.cks[id]
}

func (w *snapWorld) why(c *snapCkpt) string {
	if c == nil {
		return "no checkpoint was created"
	}
	if c.dropped {
		return fmt.Sprintf("the assembly of checkpoint %d is gone", c.id)
	}
	return fmt.Sprintf("every node acknowledged checkpoint %d", c.id)
}

// acks lets up to n of the nodes that didn't yet acknowledge the checkpoint do so.
func (w *snapWorld) acks(c *snapCkpt, n int, seed uint64, wait bool) {
	r := simrt.NewRand(seed)
	nodes := c.nodes()
	pending := 0
	for _, i := range r.Perm(len(nodes)) {
		node := nodes[i]
		if c.begun[node] || n <= 0 || c.life != w.life {
			continue
		}
		n--
		c.begun[node] = true
		pending++
		k := r.Intn(4)
		go func() {
			if l := w.p.Int("acklat"); l > 0 {
				time.Sleep(w.e.Lat("slow acknowledgement", 0.7, us(l)))
			}
			w.ack(c, node, k)
			pending--
		}()
	}
	if wait {
		w.e.Until(time.Hour, time.Millisecond, func() bool { return pending == 0 || w.jobFailed != "" || c.life != w.life })
	}
}

func (w *snapWorld) ack(c *snapCkpt, node string, k int) {
	if c.life != w.life {
		return
	}
	var err error
	job := w.job
	if slices.Contains(c.ops, node) {
		if c.handles[node] == nil {
			h := w.opCheckpoint(c, node)
			if h == nil {
				return
			}
			c.handles[node] = h
		}
		if c.life != w.life {
			return
		}
		w.inflight++
		c.called[node] = true
		ok := w.in(func(st *snapshots.Store) {
			err = st.AddOperatorSnapshot(gproto.Clone(c.handles[node]).(*snapshotpb.OperatorCheckpoint))
		})
		w.inflight--
		if !ok {
			return
		}
	} else {
		if _, ok := c.splits[node]; !ok {
			var ss [][]byte
			for i := 0; i < k; i++ {
				ss = append(ss, []byte(fmt.Sprintf("%s-%d-%d-%d", node, c.id, c.life, i)))
			}
			c.splits[node] = ss
		}
		w.inflight++
		c.called[node] = true
		ok := w.in(func(st *snapshots.Store) {
			err = st.AddSourceSnapshot(&jobpb.SourceRunnerCheckpointCompleteRequest{CheckpointId: c.id, SourceRunnerId: node, SplitStates: slices.Clone(c.splits[node])})
		})
		w.inflight--
		if !ok {
			return
		}
	}
	w.e.Log("ack %d by %s: %v", c.id, node, err)
	if err != nil {
		if !c.dropped && job == w.job {
			w.e.Fail("ack-refused", "the acknowledgement of checkpoint %d by %s was refused: %v", c.id, node, err)
		}
		return
	}
	c.acked[node] = true
}

// opCheckpoint makes an operator's part of a checkpoint.
func (w *snapWorld) opCheckpoint(c *snapCkpt, node string) *snapshotpb.OperatorCheckpoint {
	oc := &snapshotpb.OperatorCheckpoint{CheckpointId: c.id, OperatorId: node, KeyGroupRange: &snapshotpb.KeyGroupRange{}}
	for i, o := range w.ops {
		if o.Name != node {
			continue
		}
		oc.KeyGroupRange.Start, oc.KeyGroupRange.End = int32(i), int32(i+1)
		if o.db == nil {
			break
		}
		done := false
		var h recovery.CheckpointHandle
		var err error
		w.e.GoIn(o.Group, func() {
			o.lock()
			wait := o.db.Checkpoint(c.id)
			c.models[node] = maps.Clone(o.model)
			o.unlock()
			h, err = wait()
			done = true
		})
		w.e.Until(24*time.Hour, time.Millisecond, func() bool { return done || !o.Alive || c.life != w.life })
		if !done {
			return nil
		}
		if err != nil {
			w.e.Fail("checkpoint-error", "the checkpoint of a database failed: %v", err)
		}
		oc.DkvFileUri = h.URI
	}
	if oc.DkvFileUri == "" {
		oc.DkvFileUri = "/data/w/" + node + "/checkpoints"
	}
	return oc
}

// bad submits an acknowledgement that must have no effect.
func (w *snapWorld) bad(kind, who int, seed uint64) {
	r := simrt.NewRand(seed)
	var c *snapCkpt
	id := uint64(r.Range(1, 5))
	if w.pend != nil {
		c = w.pend
		id = c.id
	}
	node := "nobody"
	what := ""
	switch {
	case kind <= 2 && c != nil: // duplicate
		var l []string
		for _, n := range c.nodes() {
			if c.acked[n] {
				l = append(l, n)
			}
		}
		if len(l) == 0 {
			return
		}
		what = "duplicate"
		node = l[r.Intn(len(l))]
		w.e.Fault("duplicate acknowledgement")
		w.dup(c, node)
		return
	case kind <= 4: // another id, from a node that is expected
		what = "other checkpoint's"
		d := r.Pick(1, 1, 2, 50)
		if r.Chance(0.5) && id > uint64(d) {
			id -= uint64(d)
		} else {
			id += uint64(d)
		}
		if who == 0 {
			node = w.ops[r.Intn(len(w.ops))].Name
		} else {
			node = w.srs[r.Intn(len(w.srs))]
		}
	case kind <= 6:
		what = "foreign node's"
		node = []string{"", "op", "op999", "sr999", fmt.Sprintf("op%d", r.Intn(w.nops)), fmt.Sprintf("sr%d", r.Intn(w.nsrs))}[r.Intn(6)]
		if c != nil && slices.Contains(c.nodes(), node) {
			return
		}
	default: // the right id, from a node of the other kind
		what = "confused node's"
		if who == 0 {
			node = w.srs[r.Intn(len(w.srs))]
		} else {
			node = w.ops[r.Intn(len(w.ops))].Name
		}
	}
	w.e.Fault("bad acknowledgement")
	w.e.Log("%s ack %d %s", what, id, node)
	w.in(func(st *snapshots.Store) {
		if who == 0 {
			st.AddOperatorSnapshot(&snapshotpb.OperatorCheckpoint{CheckpointId: id, OperatorId: node, DkvFileUri: "/data/w/bad/checkpoints", KeyGroupRange: &snapshotpb.KeyGroupRange{}})
		} else {
			st.AddSourceSnapshot(&jobpb.SourceRunnerCheckpointCompleteRequest{CheckpointId: id, SourceRunnerId: node, SplitStates: [][]byte{[]byte("bad")}})
		}
	})
}

// dup repeats an acknowledgement, as after a lost response.
func (w *snapWorld) dup(c *snapCkpt, node string) {
	w.e.Log("duplicate ack %d by %s", c.id, node)
	w.in(func(st *snapshots.Store) {
		if h := c.handles[node]; h != nil {
			st.AddOperatorSnapshot(gproto.Clone(h).(*snapshotpb.OperatorCheckpoint))
		} else {
			st.AddSourceSnapshot(&jobpb.SourceRunnerCheckpointCompleteRequest{CheckpointId: c.id, SourceRunnerId: node, SplitStates: slices.Clone(c.splits[node])})
		}
	})
}

// settle waits until what was acknowledged is published.
func (w *snapWorld) settle() {
	life := w.life
	c := w.pend
	var waits *snapCkpt
	ok := w.e.Until(time.Hour, time.Millisecond, func() bool {
		w.observe()
		if w.jobFailed != "" || life != w.life || w.inflight > 0 {
			return w.jobFailed != "" || life != w.life
		}
		if c == nil || !c.all(c.acked) || c.dropped {
			return true
		}
		if !c.published {
			return false
		}
		for _, id := range sim.SortedKeys(w.cks) {
			if c := w.cks[id]; c.savepoint && c.uri == "" && c.life == w.life && c.published && !c.dropped {
				waits = c
				w.savepointURIOf(c)
				if c.uri == "" {
					return false
				}
			}
		}
		return true
	})
	if !ok && w.disk.Errs == w.errsAt {
		if c.published {
			w.e.Fail("no-savepoint", "savepoint %d doesn't appear although the checkpoint is published", waits.id)
		}
		w.e.Fail("unpublished", "checkpoint %d isn't published although every node acknowledged it", c.id)
	}
	// Removals and announcements end.
	time.Sleep(us(w.p.Int("lat")*50 + w.p.Int("notelat")*5))
	if w.jobFailed == "" && len(w.notes) > 0 && c != nil && c.published && c.life == w.life && w.disk.Errs == w.errsAt {
		newest := uint64(0)
		w.e.Until(time.Hour, time.Millisecond, func() bool {
			newest = 0
			for _, id := range w.known {
				if w.cks[id].life == w.life {
					newest = max(newest, id)
				}
			}
			return life != w.life || w.jobFailed != "" || newest == 0 || w.notes[len(w.notes)-1] == newest
		})
		if life != w.life || w.jobFailed != "" || newest == 0 {
			return
		}
		if last := w.notes[len(w.notes)-1]; last != newest {
			w.e.Fail("retained-stale", "the last announcement keeps checkpoint %d, the newest one is %d (announcements %v)", last, newest, w.notes)
		}
	}
}

func (w *snapWorld) savepointURIOf(c *snapCkpt) {
	var uri string
	var err error
	if !w.in(func(st *snapshots.Store) { uri, err = st.SavepointURIForID(c.id) }) || err != nil {
		return
	}
	if c.uri != "" {
		return
	}
	// Whoever has the URI may restore from it right away.
	files := w.disk.Files("savepoints")
	key := uri
	if i := strings.Index(uri, "savepoints"); w.disk.Kind == 2 && i >= 0 {
		key = uri[i:]
	}
	b, ok := files[path.Clean(key)]
	if !ok {
		w.e.Fail("savepoint-content", "savepoint %d has the URI %q, which isn't a file", c.id, uri)
	}
	if why := w.differsRaw(c, b); why != "" {
		w.e.Fail("savepoint-content", "savepoint %d differs from its checkpoint: %s", c.id, why)
	}
	c.uri = uri
	w.savepoints = append(w.savepoints, c)
	w.e.Probe("savepoint")
	w.stats.sp++
}

// notified receives what the operators are to retain.
func (w *snapWorld) notified(ch chan []uint64, life int) {
	e := w.e
	for ids := range ch {
		if w.life != life {
			return
		}
		w.observe()
		e.Log("announcement %v", ids)
		e.Probe("retention announced")
		if len(ids) == 0 {
			e.Fail("retained-empty", "the operators are told to retain no checkpoint")
		}
		top := slices.Max(ids)
		for _, id := range ids {
			c := w.cks[id]
			if c == nil || !c.published {
				e.Fail("retained-unpublished", "the operators are told to retain checkpoint %d, which isn't published", id)
			}
		}
		if n := len(w.notes); n > 0 && w.notes[n-1] > top {
			e.Fail("retained-older", "the operators are told to retain %v after %v", ids, w.notes)
		}
		w.notes = append(w.notes, top)
		for _, o := range w.ops {
			if o.db == nil {
				continue
			}
			done := false
			e.GoIn(o.Group, func() {
				if err := o.db.UpdateRetainedCheckpoints(ids); err != nil {
					e.Log("%s: %v", o.Name, err)
				}
				done = true
			})
			e.Until(time.Hour, time.Millisecond, func() bool { return done || w.life != life })
		}
		if l := w.p.Int("notelat"); l > 0 {
			time.Sleep(e.Lat("slow announcement", 0.7, us(l)))
		}
	}
}

// look checks the checkpoint the job would recover from.
func (w *snapWorld) look() {
	if w.jobFailed != "" {
		return
	}
	var got *snapshotpb.JobCheckpoint
	life := w.life
	if !w.in(func(st *snapshots.Store) { got = st.CurrentCheckpoint() }) || life != w.life {
		return
	}
	w.observe()
	if got == nil {
		if w.current > 0 {
			w.e.Fail("current", "the current checkpoint is gone, it was %d", w.current)
		}
		return
	}
	if got.Id < w.current {
		w.e.Fail("current", "the current checkpoint went back from %d to %d", w.current, got.Id)
	}
	c := w.cks[got.Id]
	if c == nil || !c.published {
		w.e.Fail("current-unpublished", "the current checkpoint %d isn't published", got.Id)
	}
	if why := w.differs(c, got); why != "" {
		w.e.Fail("current-content", "the current checkpoint %d differs from what its nodes reported: %s", got.Id, why)
	}
	w.current = got.Id
}

func isSnapshot(p string) bool { return strings.HasSuffix(p, ".snapshot") }

// observe looks at the snapshot files.
func (w *snapWorld) observe() {
	files := w.disk.Files("checkpoints")
	for _, f := range sim.SortedKeys(files) {
		if !isSnapshot(f) || f == w.lookExcept {
			continue
		}
		b := files[f]
		if _, ok := w.known[f]; ok {
			continue
		}
		var jc snapshotpb.JobCheckpoint
		if gproto.Unmarshal(b, &jc) != nil || jc.Id == 0 {
			continue // being written
		}
		c := w.cks[jc.Id]
		if c == nil {
			w.e.Fail("content", "%s has the checkpoint id %d, which was never given", f, jc.Id)
		}
		if !c.all(c.called) {
			var missing []string
			for _, n := range c.nodes() {
				if !c.called[n] {
					missing = append(missing, n)
				}
			}
			w.e.Fail("published-early", "checkpoint %d is published although %v didn't acknowledge it", c.id, missing)
		}
		if why := w.differs(c, &jc); why != "" {
			if w.truncated(c, &jc) {
				continue
			}
			w.e.Fail("content", "checkpoint %d is published with other contents than its nodes reported: %s", c.id, why)
		}
		if c.dropped {
			w.e.Fail("published-dropped", "checkpoint %d is published although its assembly was replaced before it completed", c.id)
		}
		w.known[f] = c.id
		if !c.published {
			w.stats.published++
			w.e.Probe("checkpoint published")
		}
		c.published = true
		w.e.Log("published %d as %s", c.id, path.Base(f))
	}
}

// truncated: the first part of a checkpoint, as while it is being written.
func (w *snapWorld) truncated(c *snapCkpt, jc *snapshotpb.JobCheckpoint) bool {
	return len(jc.OperatorCheckpoints) < len(c.ops) || len(jc.SourceCheckpoints) == 0
}

func (w *snapWorld) present(id uint64) bool {
	for _, k := range w.known {
		if k == id {
			return true
		}
	}
	return false
}

func (w *snapWorld) differsRaw(c *snapCkpt, b []byte) string {
	var jc snapshotpb.JobCheckpoint
	if err := gproto.Unmarshal(b, &jc); err != nil {
		return err.Error()
	}
	return w.differs(c, &jc)
}

// differs compares a checkpoint with what its nodes reported.
func (w *snapWorld) differs(c *snapCkpt, jc *snapshotpb.JobCheckpoint) string {
	if jc.Id != c.id {
		return fmt.Sprintf("id %d, want %d", jc.Id, c.id)
	}
	seen := map[string]bool{}
	for _, oc := range jc.OperatorCheckpoints {
		if seen[oc.OperatorId] {
			return "two entries of operator " + oc.OperatorId
		}
		seen[oc.OperatorId] = true
		want := c.handles[oc.OperatorId]
		if want == nil || !slices.Contains(c.ops, oc.OperatorId) {
			return "an entry of " + oc.OperatorId + ", which isn't in the assembly"
		}
		if !gproto.Equal(want, oc) {
			return fmt.Sprintf("the entry of %s is %v, want %v", oc.OperatorId, oc, want)
		}
	}
	for _, o := range c.ops {
		if !seen[o] {
			return "no entry of operator " + o
		}
	}
	if len(jc.SourceCheckpoints) != 1 {
		return fmt.Sprintf("%d source checkpoints", len(jc.SourceCheckpoints))
	}
	sc := jc.SourceCheckpoints[0]
	var want, got []string
	for _, sr := range c.srs {
		for _, s := range c.splits[sr] {
			want = append(want, string(s))
		}
	}
	for _, s := range sc.SplitStates {
		got = append(got, string(s))
	}
	slices.Sort(want)
	slices.Sort(got)
	if !slices.Equal(want, got) {
		return fmt.Sprintf("split states %v, want %v", got, want)
	}
	if _, ok := w.splitterStates[string(sc.SplitterState)]; !ok {
		return fmt.Sprintf("splitter state %q", sc.SplitterState)
	}
	return ""
}

func (w *snapWorld) fileEvent(op, p string) {
	if op == "create" && strings.Contains(p, "savepoints/") && strings.HasSuffix(p, "/checkpoints") {
		var doc struct{ Checkpoints []struct{ ID uint64 } }
		if json.Unmarshal(w.disk.Peek(p), &doc) == nil && len(doc.Checkpoints) > 0 && w.life > 0 {
			w.e.Probe("operator copied to a savepoint")
			last := doc.Checkpoints[len(doc.Checkpoints)-1].ID
			for _, c := range w.cks {
				if c.savepoint && c.life == w.life && c.published && c.uri == "" && last > c.id && strings.Contains(p, pathSegment(c.id)) {
					w.e.Probe("operator copied to a savepoint after its next checkpoint")
				}
			}
		}
	}
	switch {
	case isSnapshot(p) && op == "create":
		delete(w.known, w.key(p)) // its contents may be others now
		w.observe()
	case isSnapshot(p) && op == "remove":
		f := w.key(p)
		w.lookExcept = f
		w.observe()
		w.lookExcept = ""
		id, ok := w.known[f]
		if !ok {
			return
		}
		delete(w.known, f)
		newest := uint64(0)
		for _, k := range w.known {
			newest = max(newest, k)
		}
		if newest < id {
			w.e.Fail("newest-removed", "the file of checkpoint %d is removed, the newest other one is %d", id, newest)
		}
		w.e.Probe("obsolete checkpoint removed")
	}
}

func pathSegment(id uint64) string {
	return base64.RawURLEncoding.EncodeToString(binary.BigEndian.AppendUint64(nil, ^id))
}

func (w *snapWorld) key(p string) string { return p }

// reassemble replaces the members of the assembly within a life of the job.
func (w *snapWorld) reassemble(drop bool, nops, nsrs int, same bool) {
	if c := w.pend; c != nil && !c.all(c.acked) && !c.dropped {
		if !drop || c.all(c.begun) || w.p.Int("dbs") == 1 {
			return
		}
		// The job drops the assembly and with it the checkpoint in progress.
		c.dropped = true
		w.gone = append(w.gone, c)
		if !w.in(func(st *snapshots.Store) { st.DiscardPending() }) {
			return
		}
		w.e.Probe("pending checkpoint discarded")
		w.e.Log("discarded %d", c.id)
	}
	if w.p.Int("dbs") == 1 {
		nops = len(w.ops)
	}
	w.splitter++
	if w.p.Int("dbs") == 0 && !same {
		w.assemble(nops, nsrs)
	}
	n, life := w.splitter, w.life
	w.in(func(st *snapshots.Store) { st.RegisterSourceSplitter(&snapSplitter{w: w, n: n, life: life}) })
	w.e.Probe("reassembled")
}

// crash kills the job's process and starts it again.
func (w *snapWorld) crash(replace bool, nops, nsrs int) {
	w.job.Kill()
	w.observe()
	if w.power && w.p.Int("dbs") == 0 && w.p.Int("fs") == 0 {
		// What wasn't forced to the disk is lost.
		w.e.Fault("power loss")
		simos.PowerLoss()
	}
	w.power = false
	if w.p.Int("dbs") == 1 {
		// The operators restore the job's checkpoint.
		for _, o := range w.ops {
			o.Kill()
		}
		if nops == 0 {
			nops, nsrs = len(w.ops), len(w.srs)
		}
		w.assemble(nops, nsrs)
	} else if nops > 0 && replace {
		w.assemble(nops, nsrs)
	}
	// A savepoint is only needed until a checkpoint is there.
	if w.savepointURI != "" {
		for _, id := range w.known {
			if id > w.base.id && w.cks[id].life >= w.restoreLife {
				w.savepointURI = ""
			}
		}
	}
	w.startJob()
}

// restore starts the job from a savepoint, with its other storage lost.
func (w *snapWorld) restore(which, wipe int, early bool, nops int) {
	if !early {
		w.settle()
	}
	if w.jobFailed != "" || len(w.savepoints) == 0 {
		return
	}
	c := w.savepoints[len(w.savepoints)-1]
	if which < 4 {
		c = w.savepoints[which%len(w.savepoints)]
	}
	w.job.Kill()
	for _, o := range w.ops {
		o.Kill()
	}
	w.observe()
	switch wipe {
	case 1, 2: // all working storage
		w.disk.Wipe(func(p string) bool { return strings.Contains(p, "savepoints/") })
		for f := range w.known {
			delete(w.known, f)
		}
		w.e.Probe("working storage deleted")
	default:
		// The checkpoints of the abandoned history are of no use: the savepoint's
		// files replace the files they refer to.
	}
	w.savepointURI = c.uri
	w.restoreLife = w.life + 1
	w.base = c
	w.assemble(nops, len(w.srs))
	w.e.Probe("restore from savepoint")
	w.startJob()
}

func init() {
	real := []string{"storage/snapshots.Store", "storage/locations (local directory over the simulated kernel, S3 location over the in-memory service)", "dkv (operators of runs with savepoints)"}
	stub := []string{"workers' acknowledgements", "source splitter", "operating system files (in-memory kernel)", "object store service (latency, errors)"}
	for id, rule := range map[string]string{
		"C12": "Histories of checkpoint and savepoint requests, acknowledgements in any order and overlapping, duplicated, wrong, late and foreign ones, crashes and restarts of the job, disk errors; the snapshot files, CurrentCheckpoint and the announcements are compared with a model of who reported what.",
		"C13": "As C12, with a slow disk, so that the publications of consecutive checkpoints overlap with each other, with cleanups and with crashes, from any first id; every restart must load the newest completed checkpoint, the newest file never goes, announcements never go back.",
		"C14": "As C12, with real databases as operators and frequent savepoints: after deleting all working storage, the job and its operators restore from the savepoint's URI into 1 to 3 operators and are compared with the checkpoint's contents.",
	} {
		sim.Register(&sim.Property{ID: id, Level: "exploration", Real: real, Stub: stub, Rule: rule, Scenarios: []*sim.Scenario{
			{Name: "store", Weight: 1, Gen: genSnap(id), Run: runSnap, SimLimit: 96 * time.Hour, StallClass: "stall", MaxSteps: 20_000_000},
		}})
	}
}
