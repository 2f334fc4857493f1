package cluster

import (
	"context"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"runtime"
	"slices"
	"strings"
	"time"

	"connectrpc.com/connect"
	"github.com/segmentio/ksuid"
	"google.golang.org/protobuf/types/known/timestamppb"
	"reduction.dev/reduction-protocol/handlerpb"
	"reduction.dev/reduction/batching"
	"reduction.dev/reduction/config"
	"reduction.dev/reduction/dkv"
	"reduction.dev/reduction/dkv/kv"
	"reduction.dev/reduction/dkv/recovery"
	"reduction.dev/reduction/dkv/storage"
	"reduction.dev/reduction/jobs"
	"reduction.dev/reduction/proto"
	"reduction.dev/reduction/proto/jobpb"
	"reduction.dev/reduction/proto/snapshotpb"
	"reduction.dev/reduction/proto/workerpb"
	"reduction.dev/reduction/workers/operator"
	dkvscn "reduction.dev/reduction/zz_verif/scn/dkv"
	"reduction.dev/reduction/zz_verif/sim"
	"reduction.dev/reduction/zz_verif/simos"
	"reduction.dev/reduction/zz_verif/simrt"
)

const workDir = "/data/w"

func init() {
	ksuid.SetRand(sim.DetReader()) // captured crypto/rand's reader when it was initialised
	sim.OnStart = append(sim.OnStart, func(e *sim.Env) {
		dkv.TuneOptions = nil
		operator.TuneTimerCacheSize = nil
	})
}

// World drives real operators with simulated source runners and a simulated job.
type World struct {
	e        *sim.Env
	p        *sim.Plan
	disowned map[string]string // tables an operator of another deployment doesn't need
	disk     *dkvscn.Disk
	net      *Net
	job      *Node
	beh      *behaviour
	events   map[int]*event
	hlatP    float64
	hlat     time.Duration
	herrP    float64
	herrs    int // Handler errors so far
	kgc      int

	ops    []*OpNode // all operator processes
	cur    []*OpNode // the deployment, in assembly order
	srs    []*srNode // the deployment
	allSRs []*srNode
	srTime []int64 // stream time by source
	srWM   []int64

	phase  int
	failed bool
	why    string

	nextID  uint64
	nextEv  int
	pending *jobCkpt
	latest  *jobCkpt
	nops    int
	nsrs    int
	verifyG uint32
	nverify int
	queue   []func() // retention announcements in order
	gcs     bool
	counts  struct{ events, ckpts, deploys, timers int }
}

// jobCkpt is a checkpoint of the whole job.
type jobCkpt struct {
	id     uint64
	phase  int
	n      int
	bar    []map[string]int // per source runner: operator -> events before the barrier
	wm     []int64          // per source runner: last watermark before the barrier
	lag    []int            // items still to send before the barrier; -1: sent
	acks   []*snapshotpb.OperatorCheckpoint
	states map[string]*opState
	done   bool
	files  map[string]bool
}

// OpNode is one operator process.
type OpNode struct {
	*Node
	w     *World
	op    *operator.Operator
	model *Model
	next  *Model // becomes the model when the deployment succeeded
	gen   int    // newest deployment it heard of

	dbGen  int  // deployment of its database, 0 without one
	moving bool // it is replacing its database

	slow time.Duration // delays its next deployment
}

// srNode is one simulated source runner process.
type srNode struct {
	*Node
	w      *World
	idx    int // position in the deployment
	phase  int
	n      int
	queues map[string]*sendQueue
	cancel context.CancelFunc
	active int // senders
	seq    map[string]int
}

type item struct {
	ev  *workerpb.Event
	wm  int64 // for watermarks
	isW bool
}

type sendQueue struct {
	items []item
	wake  chan struct{}
	op    *OpNode
}

func runOps(e *sim.Env) {
	p := e.Plan
	w := &World{e: e, p: p, events: map[int]*event{}, disowned: map[string]string{}, beh: newBehaviour(p), kgc: p.Int("kgc"), gcs: p.Int("gcs") == 1}
	w.disk = dkvscn.NewDisk(e, p)
	w.disk.OnEvent = w.diskEvent
	w.verifyG = e.NewGroup()
	w.disk.Skip = func() bool { return runtime.SimGroup() == w.verifyG }
	w.job = NewNode(e, "job")
	w.net = &Net{e: e, LatP: float64(p.Int("netlatp")) / 1000, Lat: us(p.Int("netlat")), ErrP: float64(p.Int("neterr")) / 10000}
	w.hlatP, w.hlat, w.herrP = float64(p.Int("hlatp"))/1000, us(p.Int("hlat")), float64(p.Int("herr"))/10000
	dkv.TuneOptions = func(o *dkv.DBOptions) {
		if runtime.SimGroup() == w.verifyG {
			return
		}
		o.MemTableSize = uint64(p.Int("mem"))
		o.TargetFileSize = uint64(p.Int("target"))
		o.L0TableNumCompactionTrigger = p.Int("l0")
		if p.Int("wal") > 0 {
			o.MaxWALSize = uint64(p.Int("wal"))
		}
	}
	operator.TuneTimerCacheSize = func(n uint64) uint64 {
		if p.Int("tcache") > 0 {
			return uint64(p.Int("tcache") * w.kgc)
		}
		return n
	}
	w.nops, w.nsrs = p.Int("n0"), p.Int("srs")
	w.srTime, w.srWM = make([]int64, 8), make([]int64, 8)
	e.OnPanic = w.onPanic
	go w.announcer()

	w.redeploy(w.nops, 0, 0, 0)
	keys := dkvscn.Keys(p.Int("style"), p.Int("keys"), uint64(p.Int("kseed")))
	pace := us(p.Int("pace"))
	for _, op := range p.Ops {
		if w.failed {
			w.recoverPhase()
		}
		switch op.K {
		case "ev":
			sr := op.Int(0) % w.nsrs
			w.srTime[sr] += int64(op.Int(3)) * ms
			ts := w.srTime[sr] - int64(op.Int(4))*ms
			if ts < 0 {
				ts = 0
			}
			w.event(sr, string(keys[op.Int(1)%len(keys)]), uint64(op.Int(2)), ts)
		case "wm":
			w.watermark(op.Int(0)%w.nsrs, int64(op.Int(1))*ms)
		case "ckpt":
			w.startCheckpoint(op)
		case "sleep":
			time.Sleep(us(op.Int(0)))
		case "drain":
			w.drain(true)
		case "wait":
			w.finishCheckpoint()
		case "redeploy":
			if op.Int(1) == 1 {
				w.finishCheckpoint()
			}
			w.nops = op.Int(0)
			if op.Int(4) > 0 {
				w.nsrs = op.Int(4)
			}
			w.redeploy(op.Int(0), op.Int(2), op.Int(3), uint64(op.Int(5)))
		case "crash":
			if n := w.cur[op.Int(0)%len(w.cur)]; n.Alive {
				n.Kill()
			}
		case "stall":
			n := w.cur[op.Int(0)%len(w.cur)]
			n.stallUntil = time.Now().Add(us(op.Int(1)))
			e.Fault("stalled node")
		case "gc":
			w.collect()
		}
		if pace > 0 {
			if d := e.R.Intn(4); d == 0 {
				time.Sleep(time.Duration(e.R.Intn(int(pace) * 4)))
			}
		}
	}
	w.end(keys)
}

func us(n int) time.Duration { return time.Duration(n) * time.Microsecond }

// onPanic: the database of an operator that isn't part of the deployment any
// more still compacts, without anyone who keeps its tables. Its process ends.
func (w *World) onPanic(g uint32, v any, stack string) bool {
	for _, n := range w.ops {
		if n.Group == g && n.gen < w.phase && strings.Contains(fmt.Sprint(v), "file not found") {
			w.e.Log("panic ends %s: %v", n.Name, v)
			w.e.Probe("operator without deployment ended")
			n.Alive = false
			w.e.GoIn(0, func() {
				close(n.dead)
				w.e.Crash(n.Group)
			})
			return true
		}
	}
	return false
}

func (w *World) failPhase(phase int, why string) {
	if phase == w.phase && !w.failed {
		w.failed, w.why = true, why
		w.e.Log("deployment %d failed: %s", phase, why)
	}
}

// ---- deployment ----

type opAdapter struct {
	proto.UnimplementedOperator
	w    *World
	from *Node
	n    *OpNode
	gone string // id of an operator that isn't known anymore
	gen  int    // deployment in which from got to know n
}

func (a *opAdapter) ID() string {
	if a.n == nil {
		return a.gone
	}
	return a.n.Name
}
func (a *opAdapter) Host() string { return a.ID() }

func (a *opAdapter) Deploy(ctx context.Context, req *workerpb.DeployOperatorRequest) error {
	if d := a.n.slow; d > 0 {
		a.n.slow = 0
		a.w.e.Fault("late deployment")
		select {
		case <-time.After(d):
		case <-ctx.Done():
			return ctx.Err()
		}
	}
	req = wire(req)
	return a.w.net.Call(ctx, a.from, a.n.Node, "Deploy", func(ctx context.Context) error {
		next := a.n.next
		a.n.gen, a.n.moving = a.w.phase, true
		err := a.n.op.HandleDeploy(ctx, wire(req), &sink{})
		a.n.moving = false
		if err == nil {
			a.n.dbGen = a.n.gen
		}
		if err == nil && next == a.n.next {
			a.n.model = next
		}
		return err
	})
}

func (a *opAdapter) UpdateRetainedCheckpoints(ctx context.Context, ids []uint64) error {
	return a.w.net.Call(ctx, a.from, a.n.Node, "UpdateRetainedCheckpoints", func(ctx context.Context) error {
		return a.n.op.HandleRemoveCheckpoints(ctx, &workerpb.UpdateRetainedCheckpointsRequest{CheckpointIds: ids})
	})
}

func (a *opAdapter) NeedsTable(ctx context.Context, uri string) (bool, error) {
	if a.n == nil {
		return false, errUnavailable
	}
	a.w.e.Probe("NeedsTable asked")
	var res bool
	err := a.w.net.Call(ctx, a.from, a.n.Node, "NeedsTable", func(ctx context.Context) error {
		res = a.n.op.HandleNeedsTable(uri)
		if !res && a.n.dbGen > 0 && a.gen != a.n.dbGen {
			a.w.disowned[uri] = fmt.Sprintf("%s, of deployment %d, asked %s, of deployment %d", a.from.Name, a.gen, a.n.Name, a.n.gen)
		}
		return nil
	})
	return res && err == nil, err
}

type srAdapter struct {
	proto.UnimplementedSourceRunner
	w *World
	n *srNode
}

func (a *srAdapter) ID() string   { return a.n.Name }
func (a *srAdapter) Host() string { return a.n.Name }

// Deploy stops the senders of the last deployment, as a source runner does before
// it starts over.
func (a *srAdapter) Deploy(ctx context.Context, req *workerpb.DeploySourceRunnerRequest) error {
	return a.w.net.Call(ctx, a.w.job, a.n.Node, "Deploy", func(ctx context.Context) error {
		a.n.stop()
		return nil
	})
}

type sink struct{}

func (*sink) Write([]byte) error { return nil }

func (w *World) newOp() *OpNode {
	n := &OpNode{Node: NewNode(w.e, fmt.Sprintf("op%d", len(w.ops))), w: w}
	w.ops = append(w.ops, n)
	w.e.GoIn(n.Group, func() {
		n.op = operator.NewOperator(operator.NewOperatorParams{
			ID: n.Name, Host: n.Name, Job: &jobStub{w: w, n: n},
			UserHandler: wireHandler{&Handler{w, n}},
			EventBatching: batching.EventBatcherParams{
				MaxSize: w.p.Int("bsize"), MaxDelay: us(w.p.Int("bdelay")),
			},
			NeighborOperatorFactory: func(sender string, node *jobpb.NodeIdentity) proto.Operator {
				if n.moving {
					n.dbGen = 0 // the last database isn't asked any more
				}
				for _, o := range w.ops {
					if o.Name == node.Id {
						return &opAdapter{w: w, from: n.Node, n: o, gen: n.gen}
					}
				}
				return &opAdapter{w: w, from: n.Node, gone: node.Id}
			},
		})
		go func() {
			err := n.op.Start(context.Background())
			w.e.Log("%s ended: %v", n.Name, err)
			if n.model != nil {
				w.failPhase(n.model.phase, n.Name+" ended")
			}
			n.Alive = false
			w.e.GoIn(0, func() {
				close(n.dead)
				w.e.Crash(n.Group)
			})
		}()
	})
	for n.op == nil {
		time.Sleep(time.Microsecond)
	}
	return n
}

func (w *World) newSR() *srNode {
	n := &srNode{Node: NewNode(w.e, fmt.Sprintf("sr%d", len(w.allSRs))), w: w}
	w.allSRs = append(w.allSRs, n)
	return n
}

func (w *World) recoverPhase() {
	w.e.Probe("recovery")
	r := simrt.NewRand(hash(w.phase, w.p.Int("kseed")))
	w.redeploy(w.nops, 0, 0, r.Uint64())
}

// redeploy assembles n operators and deploys them from the latest checkpoint.
// crash: bit mask of current operators to kill first. srMask: source runners to
// replace; the upper half of the mask makes them zombies instead of dead.
func (w *World) redeploy(n, crash, srMask int, order uint64) {
	r := simrt.NewRand(order)
	for i, o := range w.cur {
		if crash>>i&1 == 1 {
			o.Kill()
		}
	}
	for i, s := range w.srs {
		if srMask>>i&1 == 1 {
			if srMask>>(8+i)&1 == 1 {
				w.e.Fault("zombie source runner")
				s.stallUntil = time.Time{}
			} else {
				s.Kill()
			}
		}
	}
	keep := func(s *srNode, i int) bool { return s.Alive && srMask>>i&1 == 0 }
	for try := 0; ; try++ {
		if try > 12 {
			w.e.Fail("stall", "deployment %d doesn't succeed without faults: %s", w.phase, w.why)
		}
		if try > 6 {
			w.net.ErrP, w.herrP = 0, 0
			w.disk.ErrP = 0
		}
		w.phase++
		w.failed, w.why = false, ""
		w.pending = nil
		// Operators: survivors in some order, then new ones.
		var alive []*OpNode
		for _, o := range w.ops {
			if o.Alive {
				alive = append(alive, o)
			}
		}
		perm := r.Perm(len(alive))
		var sel []*OpNode
		for _, i := range perm {
			if len(sel) < n {
				sel = append(sel, alive[i])
			}
		}
		for len(sel) < n {
			sel = append(sel, w.newOp())
		}
		var srs []*srNode
		for i := 0; i < w.nsrs; i++ {
			if i < len(w.srs) && keep(w.srs[i], i) {
				srs = append(srs, w.srs[i])
			} else {
				srs = append(srs, w.newSR())
			}
		}
		if order&1 == 1 {
			for i, j := range r.Perm(len(srs)) {
				srs[i], srs[j] = srs[j], srs[i]
			}
		}
		w.cur, w.srs = sel, srs
		srMask = 0
		var ids, opIDs []string
		var aops []proto.Operator
		var asrs []proto.SourceRunner
		for i, s := range srs {
			ids = append(ids, s.Name)
			s.idx = i
			asrs = append(asrs, &srAdapter{w: w, n: s})
		}
		for _, o := range sel {
			opIDs = append(opIDs, o.Name)
			aops = append(aops, &opAdapter{w: w, from: w.job, n: o})
		}
		var ckpt *snapshotpb.JobCheckpoint
		if w.latest != nil {
			acks := append([]*snapshotpb.OperatorCheckpoint{}, w.latest.acks...)
			ckpt = &snapshotpb.JobCheckpoint{Id: w.latest.id, OperatorCheckpoints: acks}
		}
		for i, o := range sel {
			o.next = newModel(o.Name, i, n, w.kgc, w.phase, w.restored(i, n), ids)
		}
		w.e.Log("deploy %d: operators %v source runners %v checkpoint %d", w.phase, opIDs, ids, ckpt.GetId())
		deployed := false
		if w.gcs && r.Intn(3) == 0 {
			// Some operators deploy, and collect garbage, long before others.
			for _, o := range sel {
				if r.Intn(2) == 0 {
					o.slow = us(1000 << r.Intn(12))
				}
			}
			w.e.GoIn(0, func() {
				for i := 0; i < 8 && !deployed; i++ {
					time.Sleep(us(2000 << i))
					w.collect()
				}
			})
		}
		cfg := &config.Config{WorkerCount: n, KeyGroupCount: w.kgc, WorkingStorageLocation: workDir}
		err := jobs.NewAssembly(aops, asrs).Deploy(context.Background(), cfg, ckpt)
		deployed = true
		w.counts.deploys++
		if err == nil && !w.failed {
			w.e.Probe("deployed")
			if w.latest != nil {
				w.e.Probe("restored")
				if w.latest.n != n {
					w.e.Probe("rescaled")
				}
			}
			break
		}
		w.e.Log("deploy %d failed: %v %s", w.phase, err, w.why)
		w.why = fmt.Sprint(err, w.why)
		if connect.CodeOf(err) == connect.CodeUnavailable && w.herrs > 0 {
			// One of them ends after a handler error.
			w.e.Until(time.Minute, time.Millisecond, func() bool {
				return slices.ContainsFunc(sel, func(o *OpNode) bool { return !o.Alive })
			})
		} else if !errors.Is(err, errUnavailable) && !errors.Is(err, errLost) && w.disk.Errs == 0 {
			w.e.Fail("deploy", "deployment %d fails: %v", w.phase, err)
		}
		time.Sleep(50 * time.Millisecond)
	}
	for _, s := range w.srs {
		s.start()
	}
}

// restored is what operator i of n must hold after the restore.
func (w *World) restored(i, n int) *opState {
	st := newOpState()
	if w.latest == nil {
		return st
	}
	for _, old := range w.latest.states {
		for k, nss := range old.st {
			if refOwner([]byte(k), w.kgc, n) != i {
				continue
			}
			for ns, es := range nss {
				for e, v := range es {
					st.put(k, ns, e, v)
				}
			}
		}
		for t := range old.timers {
			if refOwner([]byte(t.key), w.kgc, n) == i {
				st.timers[t] = true
			}
		}
	}
	return st
}

// ---- source runners ----

func (s *srNode) start() {
	w := s.w
	s.phase, s.n = w.phase, len(w.cur)
	s.queues, s.seq = map[string]*sendQueue{}, map[string]int{}
	ctx, cancel := context.WithCancel(context.Background())
	s.cancel = cancel
	for _, o := range w.cur {
		q := &sendQueue{wake: make(chan struct{}, 1), op: o}
		s.queues[o.Name] = q
		s.active++
		w.e.GoIn(s.Group, func() { s.send(ctx, q); s.active-- })
	}
	w.srWM[s.idx] = 0
}

func (s *srNode) stop() {
	if s.cancel != nil {
		s.cancel()
		for s.active > 0 {
			time.Sleep(20 * time.Microsecond)
		}
	}
}

func (s *srNode) push(op string, it item) {
	q := s.queues[op]
	q.items = append(q.items, it)
	select {
	case q.wake <- struct{}{}:
	default:
	}
}

// send delivers a queue in batches, one request at a time.
func (s *srNode) send(ctx context.Context, q *sendQueue) {
	w, phase := s.w, s.phase
	for {
		for len(q.items) == 0 {
			select {
			case <-q.wake:
			case <-ctx.Done():
				return
			}
		}
		n := min(len(q.items), max(1, w.p.Int("sbatch")))
		batch := q.items[:n]
		err := w.net.Call(ctx, s.Node, q.op.Node, "HandleEventBatch", func(ctx context.Context) error {
			for _, it := range batch {
				if err := w.deliver(ctx, s, phase, q.op, it); err != nil {
					return err
				}
			}
			return nil
		})
		if ctx.Err() != nil {
			return
		}
		if err != nil {
			w.e.Log("%s -> %s: %v", s.Name, q.op.Name, err)
			w.failPhase(phase, fmt.Sprintf("%s -> %s: %v", s.Name, q.op.Name, err))
			return
		}
		q.items = q.items[n:]
	}
}

// deliver runs in the operator's process.
func (w *World) deliver(ctx context.Context, s *srNode, phase int, o *OpNode, it item) error {
	m := o.model
	current := m != nil && m.phase == phase
	if it.isW && current {
		m.wmStart[s.Name] = max(m.wmStart[s.Name], it.wm)
	}
	err := o.op.HandleEvent(ctx, s.Name, wire(it.ev))
	if it.isW && current && err == nil {
		m.wmDone[s.Name] = max(m.wmDone[s.Name], it.wm)
	}
	return err
}

func (w *World) event(sr int, key string, seed uint64, ts int64) {
	s := w.srs[sr]
	w.nextEv++
	w.counts.events++
	o := w.cur[refOwner([]byte(key), w.kgc, len(w.cur))]
	s.seq[o.Name]++
	ev := &event{id: w.nextEv, sr: sr, seq: s.seq[o.Name], key: key, ts: ts, seed: seed, phase: w.phase}
	w.events[ev.id] = ev
	val := binary.BigEndian.AppendUint32(nil, uint32(ev.id))
	s.push(o.Name, item{ev: &workerpb.Event{Event: &workerpb.Event_KeyedEvent{KeyedEvent: &handlerpb.KeyedEvent{
		Key: []byte(key), Timestamp: timestamppb.New(time.Unix(0, ts)), Value: val,
	}}}})
	w.step(sr)
}

func (w *World) watermark(sr int, back int64) {
	t := max(w.srTime[sr]-back, w.srWM[sr])
	w.srWM[sr] = t
	for _, o := range w.cur {
		w.srs[sr].push(o.Name, item{isW: true, wm: t, ev: &workerpb.Event{Event: &workerpb.Event_Watermark{
			Watermark: &workerpb.Watermark{Timestamp: timestamppb.New(time.Unix(0, t))}}}})
	}
	w.step(sr)
}

// step counts down to the barrier of a source runner.
func (w *World) step(sr int) {
	if c := w.pending; c != nil && c.lag[sr] > 0 {
		if c.lag[sr]--; c.lag[sr] == 0 {
			w.barrier(sr)
		}
	}
}

// ---- checkpoints ----

func (w *World) startCheckpoint(op sim.Op) {
	if w.pending != nil || w.failed {
		return
	}
	w.nextID++
	c := &jobCkpt{id: w.nextID, phase: w.phase, n: len(w.cur), states: map[string]*opState{}}
	for i := range w.srs {
		c.bar = append(c.bar, nil)
		c.wm = append(c.wm, 0)
		c.lag = append(c.lag, 1+op.Int(i))
	}
	w.pending = c
	w.e.Log("start checkpoint %d", c.id)
	for i := range w.srs {
		w.step(i)
	}
}

func (w *World) barrier(sr int) {
	c, s := w.pending, w.srs[sr]
	c.lag[sr] = -1
	c.bar[sr] = map[string]int{}
	c.wm[sr] = w.srWM[sr]
	for _, o := range w.cur {
		c.bar[sr][o.Name] = s.seq[o.Name]
		s.push(o.Name, item{ev: &workerpb.Event{Event: &workerpb.Event_CheckpointBarrier{
			CheckpointBarrier: &workerpb.CheckpointBarrier{CheckpointId: c.id}}}})
	}
}

// flushBarriers sends the barriers that wait for more items.
func (w *World) flushBarriers() {
	if c := w.pending; c != nil {
		for i := range w.srs {
			if w.pending == c && c.lag[i] > 0 {
				w.barrier(i)
			}
		}
	}
}

func (w *World) finishCheckpoint() {
	w.flushBarriers()
	c := w.pending
	if c == nil {
		return
	}
	ok := w.e.Until(time.Hour, time.Millisecond, func() bool { return c.done || w.failed })
	if !ok {
		w.e.Fail("stall", "checkpoint %d doesn't complete", c.id)
	}
}

// drain waits until everything sent so far was handled.
func (w *World) drain(settle bool) bool {
	w.flushBarriers()
	ok := w.e.Until(time.Hour, time.Millisecond, func() bool {
		if w.failed {
			return true
		}
		for _, s := range w.srs {
			for _, q := range s.queues {
				if len(q.items) > 0 {
					return false
				}
			}
		}
		return true
	})
	if !ok {
		w.e.Fail("stall", "source runners can't deliver their events")
	}
	if w.failed || !settle {
		return false
	}
	if w.p.Int("bdelay") == 0 && w.p.Int("bsize") > 1 {
		return true // without time-outs a partial batch stays
	}
	// Batches time out and get handled.
	ok = w.e.Until(2*time.Minute+10*us(w.p.Int("bdelay")), 50*time.Millisecond, func() bool { return w.failed || w.dead() || w.unhandled() == "" })
	if !ok {
		w.e.Fail("lost", "%s", w.unhandled())
	}
	if w.failed || w.dead() {
		return false
	}
	w.e.Probe("quiet")
	return true
}

// dead reports whether an operator of the deployment crashed.
func (w *World) dead() bool {
	for _, o := range w.cur {
		if !o.Alive {
			return true
		}
	}
	return false
}

// unhandled describes something that should have been handled.
func (w *World) unhandled() string {
	for _, o := range w.cur {
		m := o.model
		for i, s := range w.srs {
			if m.lastSeq[i] != s.seq[o.Name] {
				return fmt.Sprintf("%s handled %d of %d events from %s", o.Name, m.lastSeq[i], s.seq[o.Name], s.Name)
			}
		}
		wm := minWM(m.srs, m.wmDone)
		for _, t := range sortedTimers(m.cur.timers) {
			if t.t <= wm {
				return fmt.Sprintf("%s: timer %q@%v hasn't fired at watermark %v", o.Name, t.key, time.Duration(t.t), time.Duration(wm))
			}
		}
	}
	return ""
}

// jobStub is the job as an operator sees it.
type jobStub struct {
	proto.NoopJob
	w *World
	n *OpNode
}

func (j *jobStub) OperatorCheckpointComplete(ctx context.Context, req *snapshotpb.OperatorCheckpoint) error {
	w := j.w
	req = wire(req)
	return w.net.Call(ctx, j.n.Node, w.job, "OperatorCheckpointComplete", func(ctx context.Context) error {
		w.ack(j.n, req)
		return nil
	})
}

func (w *World) ack(n *OpNode, req *snapshotpb.OperatorCheckpoint) {
	c := w.pending
	if c == nil || c.id != req.CheckpointId || c.phase != w.phase || w.failed && n.model.phase != w.phase {
		w.e.Log("late acknowledgement of %d by %s", req.CheckpointId, n.Name)
		return
	}
	m := n.model
	if m == nil || m.phase != c.phase {
		return
	}
	if req.OperatorId != n.Name {
		w.e.Fail("ack", "%s acknowledges as %s", n.Name, req.OperatorId)
	}
	if c.states[n.Name] != nil {
		w.e.Fail("ack", "%s acknowledges checkpoint %d twice", n.Name, c.id)
	}
	lo, hi := refRange(w.kgc, m.n, m.index)
	if r := req.KeyGroupRange; int(r.GetStart()) != lo || int(r.GetEnd()) != hi {
		w.e.Fail("range", "%s acknowledges checkpoint %d with key groups [%d,%d) instead of [%d,%d)", n.Name, c.id, r.GetStart(), r.GetEnd(), lo, hi)
	}
	want := w.cutState(n, m, c)
	c.states[n.Name] = want
	w.verify(n.Name, m, req, want, fmt.Sprintf("checkpoint %d of %s", c.id, n.Name))
	w.e.Probe("operator checkpoint")
	if w.pending != c {
		return
	}
	c.acks = append(c.acks, req)
	if len(c.acks) == c.n {
		c.done = true
		w.pending = nil
		c.files = map[string]bool{}
		for _, a := range c.acks {
			w.refs(a, c.files)
		}
		w.latest = c
		w.counts.ckpts++
		w.e.Probe("job checkpoint")
		w.e.Log("checkpoint %d complete", c.id)
		cur := w.cur
		phase := w.phase
		w.queue = append(w.queue, func() {
			var aops []proto.Operator
			for _, o := range cur {
				aops = append(aops, &opAdapter{w: w, from: w.job, n: o})
			}
			err := jobs.NewAssembly(aops, nil).UpdateRetainedCheckpoints(context.Background(), []uint64{c.id})
			if err != nil {
				w.e.Log("retention update %d (deployment %d): %v", c.id, phase, err)
				if !errors.Is(err, errUnavailable) && !errors.Is(err, errLost) && !errors.Is(err, context.Canceled) && w.phase == phase && !w.failed && w.disk.Errs == 0 {
					w.e.Fail("retain", "retention update %d fails: %v", c.id, err)
				}
			}
			w.e.Probe("retention update")
		})
	}
}

// announcer tells the operators which checkpoint to keep, in order.
func (w *World) announcer() {
	for {
		if len(w.queue) == 0 {
			time.Sleep(200 * time.Microsecond)
			continue
		}
		fn := w.queue[0]
		w.queue = w.queue[1:]
		fn()
	}
}

// cutState is the state an operator's checkpoint must contain: the effects of
// what every source runner delivered before its barrier.
func (w *World) cutState(n *OpNode, m *Model, c *jobCkpt) *opState {
	cutWM := int64(math.MaxInt64)
	for i := range c.wm {
		if c.bar[i] == nil {
			w.e.Fail("cut", "%s acknowledges checkpoint %d before barrier %d of %s", n.Name, c.id, c.id, w.srs[i].Name)
		}
		cutWM = min(cutWM, c.wm[i])
	}
	pre := func(r *rec) bool {
		if r.timer != nil {
			return r.timer.t <= cutWM
		}
		return r.seq <= c.bar[r.sr][n.Name]
	}
	st := m.base.clone()
	k := 0
	last := map[int]int{}
	for k < len(m.log) && pre(&m.log[k]) {
		r := &m.log[k]
		if r.timer == nil {
			last[r.sr] = r.seq
		}
		st.apply(r)
		k++
	}
	for j := k; j < len(m.log); j++ {
		if pre(&m.log[j]) {
			w.e.Fail("cut", "%s handled %s before checkpoint %d, ahead of what belongs to it", n.Name, m.log[k].String(), c.id)
		}
	}
	if k < len(m.log) {
		// What was handled after the cut must not be in the checkpoint: its
		// contents are compared below.
		w.e.Probe("events handled before the acknowledgement")
	}
	for i, s := range w.srs {
		if last[i] != c.bar[i][n.Name] {
			w.e.Fail("cut", "checkpoint %d of %s: events up to number %d of %d ahead of the barrier of %s were handled", c.id, n.Name, last[i], c.bar[i][n.Name], s.Name)
		}
	}
	for _, t := range sortedTimers(st.timers) {
		if t.t <= cutWM {
			w.e.Fail("timer late", "%s: timer %q@%v hasn't fired at watermark %v, at checkpoint %d", n.Name, t.key, time.Duration(t.t), time.Duration(cutWM), c.id)
		}
	}
	return st
}

func (r *rec) String() string {
	if r.timer != nil {
		return fmt.Sprintf("timer %q@%v", r.timer.key, time.Duration(r.timer.t))
	}
	return fmt.Sprintf("event %d (number %d from source runner %d)", r.ev, r.seq, r.sr)
}

type keepTables struct{}

func (keepTables) OwnsKey([]byte) bool                { return true }
func (keepTables) OwnsKeyBetween([]byte, []byte) bool { return true }

func (keepTables) ExclusivelyOwnsTable(string, []byte, []byte) (bool, error) { return false, nil }

var _ kv.DataOwnership = keepTables{}

// verify opens an operator's checkpoint in another process and compares it.
func (w *World) verify(name string, m *Model, req *snapshotpb.OperatorCheckpoint, want *opState, what string) {
	got := newOpState()
	w.nverify++
	n := w.nverify
	w.e.In(w.verifyG, func() {
		fs := storage.NewLocalFilesystem(fmt.Sprintf("/data/verify/%d", n))
		db := dkv.Open(dkv.DBOptions{FileSystem: fs, DataOwnership: keepTables{}, MemTableSize: 1 << 30, MaxWALSize: 1 << 30},
			[]recovery.CheckpointHandle{{CheckpointID: req.CheckpointId, URI: req.DkvFileUri}})
		var err error
		for en := range db.ScanPrefix(nil, &err) {
			k := en.Key()
			if len(k) < 3 {
				w.e.Fail("encoding", "%s holds the short key %q", what, k)
			}
			g := int(binary.BigEndian.Uint16(k))
			if lo, hi := refRange(w.kgc, m.n, m.index); g < lo || g >= hi {
				continue // left over from before a rescale: not reachable, replaced by its owner
			}
			switch k[2] {
			case 0:
				subj, rest, ok := lenKey(k[3:])
				ns, data, nsOK := lenNamespace(rest)
				if !ok || !nsOK {
					w.e.Fail("encoding", "%s holds the key %q", what, k)
				}
				if rg := refGroup([]byte(subj), w.kgc); rg != g {
					w.e.Fail("group", "%s stores state of key %q under key group %d instead of %d", what, subj, g, rg)
				}
				got.put(subj, ns, data, string(en.Value()))
			case 1:
				if len(k) < 11 {
					w.e.Fail("encoding", "%s holds the key %q", what, k)
				}
				t, size := timerTime(k[3:])
				if len(k) < 3+size {
					w.e.Fail("encoding", "%s holds the key %q", what, k)
				}
				subj := string(k[3+size:])
				if rg := refGroup([]byte(subj), w.kgc); rg != g {
					w.e.Fail("group", "%s stores a timer of key %q under key group %d instead of %d", what, subj, g, rg)
				}
				got.timers[tkey{subj, t}] = true
			default:
				w.e.Fail("encoding", "%s holds the key %q", what, k)
			}
		}
		if err != nil {
			w.e.Fail("unreadable", "%s: %v", what, err)
		}
	})
	if d := want.diff(got); d != "" {
		w.e.Fail("checkpoint", "%s: %s", what, d)
	}
}

// timerTime reads the time of a stored timer: nanoseconds since the epoch or,
// for those that don't fit, seconds with the first bit set and nanoseconds.
func timerTime(b []byte) (t int64, size int) {
	v := binary.BigEndian.Uint64(b)
	if v>>40 != 1<<23 {
		return int64(v), 8
	}
	if len(b) < 12 {
		return 0, 12
	}
	return ns(time.Unix(int64(v&^(1<<63)), int64(binary.BigEndian.Uint32(b[8:])))), 12
}

// lenNamespace splits a stored key behind its subject: a namespace with a
// length of one byte (or 0xff and four), then the data.
func lenNamespace(b []byte) (ns, data string, ok bool) {
	if len(b) < 1 {
		return "", "", false
	}
	n, b := int(b[0]), b[1:]
	if n == 0xff {
		if len(b) < 4 {
			return "", "", false
		}
		n, b = int(binary.BigEndian.Uint32(b)), b[4:]
	}
	if n < 0 || len(b) < n {
		return "", "", false
	}
	return string(b[:n]), string(b[n:]), true
}

func lenKey(b []byte) (string, []byte, bool) {
	if len(b) < 4 {
		return "", nil, false
	}
	n := int(binary.BigEndian.Uint32(b))
	if len(b) < 4+n {
		return "", nil, false
	}
	return string(b[4 : 4+n]), b[4+n:], true
}

// refs collects the files a checkpoint consists of.
func (w *World) refs(req *snapshotpb.OperatorCheckpoint, files map[string]bool) {
	files[req.DkvFileUri] = true
	b, ok := simos.Peek(req.DkvFileUri)
	if !ok {
		w.e.Fail("missing", "checkpoints file %s doesn't exist", req.DkvFileUri)
	}
	var doc struct {
		Checkpoints []map[string]any `json:"checkpoints"`
	}
	if err := json.Unmarshal(b, &doc); err != nil {
		w.e.Fail("missing", "checkpoints file %s: %v", req.DkvFileUri, err)
	}
	var walk func(v any)
	walk = func(v any) {
		switch t := v.(type) {
		case map[string]any:
			for _, k := range sim.SortedKeys(t) {
				if s, ok := t[k].(string); ok && strings.EqualFold(k, "uri") {
					files[s] = true
				} else {
					walk(t[k])
				}
			}
		case []any:
			for _, x := range t {
				walk(x)
			}
		}
	}
	found := false
	for _, c := range doc.Checkpoints {
		if fmt.Sprint(c["id"]) == fmt.Sprint(req.CheckpointId) {
			walk(c)
			found = true
		}
	}
	if !found {
		w.e.Fail("missing", "checkpoints file %s doesn't list checkpoint %d", req.DkvFileUri, req.CheckpointId)
	}
	for _, f := range sim.SortedKeys(files) {
		if !simos.Exists(f) {
			w.e.Fail("missing", "checkpoint %d of %s references %s, which doesn't exist", req.CheckpointId, req.OperatorId, f)
		}
	}
}

func (w *World) diskEvent(op, path string) {
	if op != "remove" {
		return
	}
	w.e.Probe("file removed")
	if w.latest != nil && w.latest.files[path] {
		// Operators that aren't part of the deployment any more still ask those
		// they shared the key groups with, whose answers are about other ones now.
		if why, ok := w.disowned[path]; ok {
			if w.p.Int("c09") != 1 {
				w.e.Cut("an operator of an earlier deployment deletes a shared table (a finding of C09)")
			}
			w.e.Fail("former-owner", "%s is deleted while checkpoint %d needs it: %s", path, w.latest.id, why)
		}
		w.e.Fail("deleted", "%s is deleted while checkpoint %d needs it", path, w.latest.id)
	}
}

func (w *World) collect() {
	simrt.CollectCleanups()
	n := simrt.RunCleanups(func(g uint32) bool {
		for _, o := range w.ops {
			if o.Group == g {
				return o.Alive
			}
		}
		return true
	})
	w.e.Fault("garbage collection")
	for ; n > 0; n-- {
		w.e.Probe("cleanup")
	}
}

// end checks that everything recovers once faults stop.
func (w *World) end(keys [][]byte) {
	e := w.e
	e.FaultsOff()
	w.net.ErrP, w.herrP, w.disk.ErrP = 0, 0, 0
	final := func(what string) {
		for try := 0; ; try++ {
			if w.failed {
				if try > 3 {
					e.Fail("stall", "%s: recovery doesn't succeed: %s", what, w.why)
				}
				w.recoverPhase()
			}
			w.finishCheckpoint()
			if w.failed {
				continue
			}
			w.startCheckpoint(sim.Op{})
			w.finishCheckpoint()
			if !w.failed {
				break
			}
		}
	}
	final("at the end")
	if w.gcs {
		w.collect()
	}
	// Every key is supplied with its state, before and after one more restore.
	for round := 0; round < 2; round++ {
		if round == 1 {
			n := w.nops
			if w.p.Int("endn") > 0 {
				n = w.p.Int("endn")
			}
			w.nops = n
			w.redeploy(n, 0, 0, uint64(w.p.Int("kseed")))
		}
		for i, k := range keys {
			w.event(i%w.nsrs, string(k), uint64(i), w.srTime[i%w.nsrs])
		}
		for i := range w.srs {
			w.srTime[i] += 20000 * ms
			w.watermark(i, 0)
		}
		w.startCheckpoint(sim.Op{}) // flushes partial batches
		w.finishCheckpoint()
		if w.failed {
			e.Fail("stall", "a deployment without faults fails: %s", w.why)
		}
	}
	if w.counts.events == 0 {
		e.Trivial()
	}
	if w.p.Int("complete") == 1 {
		w.complete()
	}
}

// complete ends all sources: operators handle what they have and stop.
func (w *World) complete() {
	for i, s := range w.srs {
		w.event(i, "last", 1, w.srTime[i])
		for _, o := range w.cur {
			s.push(o.Name, item{ev: &workerpb.Event{Event: &workerpb.Event_SourceComplete{SourceComplete: &workerpb.SourceCompleteEvent{}}}})
		}
	}
	if !w.e.Until(time.Hour, time.Millisecond, func() bool {
		for _, o := range w.cur {
			if o.Alive {
				return false
			}
		}
		return true
	}) {
		w.e.Fail("stall", "operators don't stop after their sources completed")
	}
	for _, o := range w.cur {
		for i, s := range w.srs {
			if o.model.lastSeq[i] != s.seq[o.Name] {
				w.e.Fail("lost", "%s stopped after %d of %d events from %s", o.Name, o.model.lastSeq[i], s.seq[o.Name], s.Name)
			}
		}
	}
	w.e.Probe("sources completed")
}
