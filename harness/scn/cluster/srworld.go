package cluster

import (
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"slices"
	"time"

	"google.golang.org/protobuf/types/known/timestamppb"
	"reduction.dev/reduction-protocol/handlerpb"
	"reduction.dev/reduction-protocol/jobconfigpb"
	"reduction.dev/reduction/batching"
	"reduction.dev/reduction/connectors"
	"reduction.dev/reduction/proto"
	"reduction.dev/reduction/proto/jobpb"
	"reduction.dev/reduction/proto/workerpb"
	"reduction.dev/reduction/workers/sourcerunner"
	dkvscn "reduction.dev/reduction/zz_verif/scn/dkv"
	"reduction.dev/reduction/zz_verif/sim"
	"reduction.dev/reduction/zz_verif/simrt"
)

// SRWorld drives real source runners with a simulated source, job, user handler
// and operators.
type SRWorld struct {
	e     *sim.Env
	p     *sim.Plan
	net   *Net
	job   *Node
	src   *source
	keys  [][]byte
	kgc   int
	hlatP float64
	hlat  time.Duration
	align bool

	all      []*srProc
	cur      []*srProc
	ops      []*recOp // all of them
	opset    []*recOp // the deployment, in order
	phase    int
	ctx      context.Context // of the deployment
	cancel   context.CancelFunc
	asgn     map[int]*srProc   // split -> reader
	assigned map[*srProc][]int // splits whose assignment returned
	start    map[int]int       // split -> position at the deployment

	ckptPhase map[uint64]int

	nextID  uint64
	pending *srCkpt
	latest  *srCkpt
	failed  bool
	why     string
	unP     float64
	herr    float64
}

// srProc is a process with one source runner.
type srProc struct {
	*Node
	w     *SRWorld
	sr    *sourcerunner.SourceRunner
	id    string
	runs  []*run
	next  *run // of the deployment in progress
	ended bool
}

// run is what one source runner does in one deployment.
type run struct {
	sr      *srProc
	phase   int
	stopped bool // a later deployment returned
	reads   []*record
	readPos map[*record]int
	maxTS   []int64 // largest event time up to each read
	splits  map[int]int
	streams map[*recOp]*stream
	acks    map[uint64]map[int]int // checkpoint -> split -> position
}

// stream is what one operator received from one source runner in a deployment.
type stream struct {
	seen    map[[3]int]bool // split, idx, event
	list    [][3]int
	lastKey map[string][2]int // split/key -> idx, event
	bars    map[uint64]int    // checkpoint -> events ahead of its barrier
	barWM   map[uint64]bool
	checked map[uint64]bool
	wm      int64
	hasWM   bool
	wmRead  int // a later event was read at this position at least
	active  bool
}

type recOp struct {
	*Node
	w     *SRWorld
	index int
	n     int
	// Barrier alignment: which runners delivered the barrier.
	barrier map[string]bool
}

type srCkpt struct {
	id    uint64
	phase int
	pos   map[int]int
	acks  map[string]bool
	bars  int

	reported map[int]bool
	must     map[string][]int // splits assigned to runners before they were asked for the checkpoint
}

func runSR(e *sim.Env) {
	p := e.Plan
	w := &SRWorld{e: e, p: p, kgc: p.Int("kgc"), align: p.Int("align") == 1, ckptPhase: map[uint64]int{}}
	w.net = &Net{e: e, LatP: float64(p.Int("netlatp")) / 1000, Lat: us(p.Int("netlat")), ErrP: float64(p.Int("neterr")) / 10000}
	w.hlatP, w.hlat = float64(p.Int("hlatp"))/1000, us(p.Int("hlat"))
	w.unP = float64(p.Int("unp")) / 1000
	w.job = NewNode(e, "job")
	w.keys = dkvscn.Keys(p.Int("style"), p.Int("keys"), uint64(p.Int("kseed")))
	w.src = newSource(e, p.Int("splits"))
	w.src.batch = max(1, p.Int("rbatch"))
	w.src.latP, w.src.lat = float64(p.Int("srclatp"))/1000, us(p.Int("srclat"))
	w.src.errP = float64(p.Int("srcerr")) / 1000
	w.herr = float64(p.Int("herr")) / 1000
	w.src.poll = us(max(100, p.Int("poll")))
	w.redeploy(p.Int("ops"), p.Int("srs"), 0, uint64(p.Int("kseed")))
	for _, op := range p.Ops {
		if w.failed {
			w.redeploy(len(w.opset), len(w.cur), 0, uint64(w.phase))
		}
		switch op.K {
		case "add":
			sp := op.Int(0) % len(w.src.splits)
			r := simrt.NewRand(uint64(op.Int(2)))
			for i := 0; i < op.Int(1); i++ {
				w.src.add(sp, w.src.genEvents(sp, r, w.keys, int64(p.Int("dt")), p.Int("fan")))
			}
		case "ckpt":
			w.startCkpt()
		case "wait":
			w.waitCkpt()
		case "sleep":
			time.Sleep(us(op.Int(0)))
		case "stall":
			o := w.opset[op.Int(0)%len(w.opset)]
			o.stallUntil = time.Now().Add(us(op.Int(1)))
			e.Fault("stalled node")
		case "drain":
			w.drain()
		case "split":
			if w.asgn != nil && len(w.src.splits) < 12 {
				w.src.addSplit()
				w.assign([]int{len(w.src.splits) - 1}, uint64(op.Int(0)))
			}
		case "redeploy":
			if op.Int(3) == 1 {
				w.waitCkpt()
			}
			w.redeploy(max(1, op.Int(0)), max(1, op.Int(1)), op.Int(2), uint64(op.Int(4)))
		}
	}
	e.FaultsOff()
	w.net.ErrP, w.unP, w.src.errP, w.herr = 0, 0, 0, 0
	for try := 0; ; try++ {
		if w.failed {
			if try > 3 {
				e.Fail("stall", "no recovery at the end: %s", w.why)
			}
			w.redeploy(len(w.opset), len(w.cur), 0, uint64(w.phase))
		}
		if p.Int("close") == 1 {
			// A source doesn't end while there are splits to assign.
			e.Until(time.Hour, time.Millisecond, func() bool {
				for s, sr := range w.asgn {
					if _, ok := sr.last().splits[s]; !ok {
						return w.failed
					}
				}
				return true
			})
			w.src.closed = true
		}
		if w.drain() && w.startCkpt() && w.waitCkpt() {
			break
		}
	}
	n := 0
	for _, s := range w.src.splits {
		n += len(s)
	}
	if n == 0 {
		e.Trivial()
	}
}

func (w *SRWorld) fail(phase int, why string) {
	if phase == w.phase && !w.failed {
		w.failed, w.why = true, why
		w.e.Log("deployment %d failed: %s", phase, why)
	}
}

// ---- source runner processes ----

type srJob struct {
	proto.NoopJob
	w *SRWorld
	n *srProc
}

func (j *srJob) RegisterSourceRunner(ctx context.Context, id *jobpb.NodeIdentity) error {
	j.n.id = id.Id
	return nil
}

func (j *srJob) OnSourceRunnerCheckpointComplete(ctx context.Context, req *jobpb.SourceRunnerCheckpointCompleteRequest) error {
	w := j.w
	r := j.n.last()
	req = wire(req)
	return w.net.Call(ctx, j.n.Node, w.job, "OnSourceRunnerCheckpointComplete", func(ctx context.Context) error {
		w.ack(j.n, r, req)
		return nil
	})
}

func (n *srProc) last() *run {
	if n.next != nil {
		return n.next
	}
	if len(n.runs) == 0 {
		return nil
	}
	return n.runs[len(n.runs)-1]
}

type srHandler struct {
	w *SRWorld
	n *srProc
}

func (h *srHandler) KeyEventBatch(ctx context.Context, events [][]byte) ([][]*handlerpb.KeyedEvent, error) {
	w := h.w
	if len(events) == 0 {
		w.e.Fail("batch", "KeyEventBatch gets an empty batch")
	}
	out := make([][]*handlerpb.KeyedEvent, len(events))
	for i, b := range events {
		r := w.src.find(b)
		if r == nil {
			w.e.Fail("record", "KeyEventBatch gets a record that doesn't exist: %x", b)
		}
		for j, ev := range r.evs {
			out[i] = append(out[i], &handlerpb.KeyedEvent{
				Key: []byte(ev.key), Timestamp: timestamppb.New(time.Unix(0, ev.ts)),
				Value: binary.BigEndian.AppendUint32(append([]byte{}, b...), uint32(j)),
			})
		}
	}
	if w.herr > 0 && w.e.Choose("handler error", w.herr, 1) == 1 {
		wait(ctx, w.e.Lat("", 0.5, w.hlat))
		return nil, errors.New("simulated handler error")
	}
	if l := w.e.Lat("handler latency", w.hlatP, w.hlat); l > 0 {
		if l > 200*time.Microsecond {
			w.e.Probe("slow key events")
		}
		if err := wait(ctx, l); err != nil {
			w.e.Probe("handler given up")
			return nil, err
		}
	}
	return out, nil
}

func (h *srHandler) ProcessEventBatch(context.Context, *handlerpb.ProcessEventBatchRequest) (*handlerpb.ProcessEventBatchResponse, error) {
	panic("not used")
}

func (w *SRWorld) newSR() *srProc {
	n := &srProc{Node: NewNode(w.e, fmt.Sprintf("sr%d", len(w.all))), w: w}
	w.all = append(w.all, n)
	w.e.GoIn(n.Group, func() {
		n.sr = sourcerunner.New(sourcerunner.NewParams{
			Host: n.Name, UserHandler: wireHandler{&srHandler{w: w, n: n}}, Job: &srJob{w: w, n: n},
			OperatorFactory: func(sender string, node *jobpb.NodeIdentity) proto.Operator {
				if sender != n.sr.ID {
					w.e.Fail("sender", "%s sends as %s", n.sr.ID, sender)
				}
				for _, o := range w.ops {
					if o.Name == node.Id {
						return &recOpAdapter{w: w, from: n, op: o, r: n.next}
					}
				}
				panic("unknown operator " + node.Id)
			},
			SourceReaderFactory: func(*jobconfigpb.Source) connectors.SourceReader {
				r := n.next
				return &simReader{src: w.src, onRead: func(rec *record) { r.read(w, rec) }, onAsgn: func(split, pos int) {
					r.splits[split] = pos
				}}
			},
			EventBatching: batching.EventBatcherParams{MaxSize: w.p.Int("bsize"), MaxDelay: us(w.p.Int("bdelay"))},
		})
		go func() {
			err := n.sr.Start(context.Background())
			w.e.Log("%s ended: %v", n.Name, err)
			n.ended = true
			if r := n.last(); r != nil {
				w.fail(r.phase, n.Name+" ended")
			}
			n.Alive = false
			w.e.GoIn(0, func() {
				close(n.dead)
				w.e.Crash(n.Group)
			})
		}()
	})
	for n.id == "" {
		time.Sleep(time.Microsecond)
	}
	return n
}

func (r *run) read(w *SRWorld, rec *record) {
	r.readPos[rec] = len(r.reads)
	r.reads = append(r.reads, rec)
	m := int64(-1 << 63)
	if n := len(r.maxTS); n > 0 {
		m = r.maxTS[n-1]
	}
	for _, ev := range rec.evs {
		m = max(m, ev.ts)
	}
	r.maxTS = append(r.maxTS, m)
}

// ---- operators ----

type recOpAdapter struct {
	proto.UnimplementedOperator
	w    *SRWorld
	from *srProc
	op   *recOp
	r    *run
}

func (a *recOpAdapter) ID() string   { return a.op.Name }
func (a *recOpAdapter) Host() string { return a.op.Name }

// HandleEventBatch retries like the HTTP client when the operator is unavailable.
func (a *recOpAdapter) HandleEventBatch(ctx context.Context, batch []*workerpb.Event) error {
	w := a.w
	if w.unP > 0 {
		for n := 1; w.e.Choose("operator unavailable", w.unP, 1) == 1; n++ {
			if !w.net.wait(ctx, a.op.Node, time.Duration(n)*100*time.Millisecond) {
				return ctx.Err()
			}
		}
	}
	batch = wires(batch)
	return w.net.Call(ctx, a.from.Node, a.op.Node, "HandleEventBatch", func(ctx context.Context) error {
		st := a.r.streams[a.op]
		if st.active {
			w.e.Fail("overlap", "%s sends two batches to %s at a time", a.from.Name, a.op.Name)
		}
		st.active = true
		defer func() { st.active = false }()
		for _, ev := range batch {
			if l := w.e.Lat("operator latency", w.hlatP, w.hlat); l > 0 {
				if !w.net.wait(ctx, a.op.Node, l) {
					return ctx.Err()
				}
			}
			// Align barriers.
			for w.align && len(a.op.barrier) > 0 && a.op.barrier[a.from.Name] {
				w.e.Probe("waits for alignment")
				if !w.net.wait(ctx, a.op.Node, 500*time.Microsecond) {
					return ctx.Err()
				}
				if a.r.stopped || w.failed {
					return errLost
				}
			}
			if ctx.Err() != nil {
				return ctx.Err()
			}
			w.observe(a.r, a.op, ev)
		}
		return nil
	})
}

// observe records one event of a stream.
func (w *SRWorld) observe(r *run, o *recOp, ev *workerpb.Event) {
	e := w.e
	if r.stopped {
		e.Fail("stale", "%s gets an event of deployment %d from %s after deployment %d began", o.Name, r.phase, r.sr.Name, w.phase)
	}
	st := r.streams[o]
	where := fmt.Sprintf("%s -> %s", r.sr.Name, o.Name)
	switch t := ev.Event.(type) {
	case *workerpb.Event_KeyedEvent:
		ke := t.KeyedEvent
		rec := w.src.find(ke.Value)
		if rec == nil || len(ke.Value) != 12 {
			e.Fail("event", "%s: an event that doesn't exist", where)
		}
		j := int(binary.BigEndian.Uint32(ke.Value[8:]))
		if j >= len(rec.evs) || rec.evs[j].key != string(ke.Key) || rec.evs[j].ts != ns(ke.Timestamp.AsTime()) {
			e.Fail("event", "%s: event %d of record %d of split %d was altered", where, j, rec.idx, rec.split)
		}
		pos, ok := r.readPos[rec]
		if !ok {
			e.Fail("event", "%s: record %d of split %d wasn't read by %s in deployment %d", where, rec.idx, rec.split, r.sr.Name, r.phase)
		}
		id := [3]int{rec.split, rec.idx, j}
		if st.seen[id] {
			e.Fail("twice", "%s: event %d of record %d of split %d is delivered twice", where, j, rec.idx, rec.split)
		}
		st.seen[id] = true
		if own := refOwner(ke.Key, w.kgc, o.n); own != o.index {
			e.Fail("routing", "%s: key %q belongs to operator %d of %d, not to %d", where, ke.Key, own, o.n, o.index)
		}
		lk := fmt.Sprintf("%d/%s", rec.split, ke.Key)
		if last, ok := st.lastKey[lk]; ok && (last[0] > rec.idx || last[0] == rec.idx && last[1] > j) {
			e.Fail("order", "%s: key %q of split %d: record %d is delivered after record %d", where, ke.Key, rec.split, rec.idx, last[0])
		}
		st.lastKey[lk] = [2]int{rec.idx, j}
		if st.hasWM && pos < st.wmRead {
			e.Fail("watermark overtakes", "%s: record %d of split %d (number %d read) is delivered after the watermark %v, which takes record number %d into account", where, rec.idx, rec.split, pos, time.Duration(st.wm), st.wmRead)
		}
		st.list = append(st.list, id)
	case *workerpb.Event_CheckpointBarrier:
		id := t.CheckpointBarrier.CheckpointId
		if _, ok := st.bars[id]; ok {
			e.Fail("barrier", "%s: barrier %d is delivered twice", where, id)
		}
		c := w.pending
		if r.phase != w.phase || w.failed {
			return // the deployment is about to end
		}
		if c == nil || c.id != id {
			e.Fail("barrier", "%s: barrier %d isn't of the checkpoint in progress in deployment %d", where, id, r.phase)
		}
		st.bars[id] = len(st.list)
		e.Probe("barrier delivered")
		if len(r.reads) > len(st.list) {
			e.Probe("barrier amid records")
		}
		w.checkBarrier(r, o, st, id)
		o.barrier[r.sr.Name] = true
		if len(o.barrier) == len(w.cur) {
			o.barrier = map[string]bool{}
		}
		c.bars++
		w.complete(c)
	case *workerpb.Event_Watermark:
		t0 := t.Watermark.Timestamp.AsTime()
		v := ns(t0)
		if st.hasWM && v < st.wm {
			e.Fail("watermark", "%s: watermark %v after %v", where, time.Duration(v), time.Duration(st.wm))
		}
		n := len(r.maxTS)
		if n == 0 || r.maxTS[n-1] == -1<<63 {
			if t0.Year() > 1970 {
				e.Fail("watermark", "%s: watermark %v before any event", where, t0)
			}
		} else if v >= r.maxTS[n-1] {
			e.Fail("watermark", "%s: watermark %v reaches the largest timestamp read so far, %v", where, time.Duration(v), time.Duration(r.maxTS[n-1]))
		}
		// The first read that explains the watermark.
		for st.wmRead < n && r.maxTS[st.wmRead] <= v {
			st.wmRead++
		}
		if v > -1<<63 {
			e.Probe("watermark delivered")
		} else {
			st.wmRead = 0
		}
		st.wm, st.hasWM = v, true
	case *workerpb.Event_SourceComplete:
		e.Probe("source complete")
	}
}

// checkBarrier compares a barrier's place with the positions reported for it.
func (w *SRWorld) checkBarrier(r *run, o *recOp, st *stream, id uint64) {
	cut, ok := r.acks[id]
	at, ok2 := st.bars[id]
	if !ok || !ok2 || st.checked[id] {
		return
	}
	st.checked[id] = true
	where := fmt.Sprintf("%s -> %s", r.sr.Name, o.Name)
	for _, s := range sim.SortedKeys(r.splits) {
		if _, ok := cut[s]; !ok {
			// The split was assigned after the barrier.
			cut[s] = r.splits[s]
		}
	}
	ahead := map[[3]int]bool{}
	for i, x := range st.list {
		pos := cut[x[0]]
		if i < at {
			ahead[x] = true
			if x[1] >= pos {
				w.e.Fail("cut", "%s: record %d of split %d is delivered ahead of barrier %d, whose position is %d", where, x[1], x[0], id, pos)
			}
		}
	}
	for _, s := range sim.SortedKeys(cut) {
		for i := r.splits[s]; i < cut[s]; i++ {
			for j, ev := range w.src.splits[s][i].evs {
				if refOwner([]byte(ev.key), w.kgc, o.n) == o.index && !ahead[[3]int{s, i, j}] {
					w.e.Fail("cut", "%s: record %d of split %d isn't delivered ahead of barrier %d, whose position is %d", where, i, s, id, cut[s])
				}
			}
		}
	}
}

// ---- the job ----

func (w *SRWorld) ack(n *srProc, r *run, req *jobpb.SourceRunnerCheckpointCompleteRequest) {
	e := w.e
	if req.SourceRunnerId != n.id {
		e.Fail("ack", "%s acknowledges as %s", n.id, req.SourceRunnerId)
	}
	c := w.pending
	if c == nil || c.id != req.CheckpointId || r == nil || c.phase != r.phase {
		if ph, ok := w.ckptPhase[req.CheckpointId]; !ok || ph == w.phase && !w.failed {
			e.Fail("ack", "%s acknowledges checkpoint %d, which isn't in progress", n.Name, req.CheckpointId)
		}
		return
	}
	if c.acks[n.Name] {
		e.Fail("ack", "%s acknowledges checkpoint %d twice", n.Name, req.CheckpointId)
	}
	c.acks[n.Name] = true
	cut := map[int]int{}
	for _, b := range req.SplitStates {
		p, err := decodePos(b)
		if err != nil {
			e.Fail("ack", "split state %q: %v", b, err)
		}
		if _, ok := cut[p.ID]; ok {
			e.Fail("ack", "%s reports split %d twice for checkpoint %d", n.Name, p.ID, c.id)
		}
		if _, ok := r.splits[p.ID]; !ok {
			e.Fail("ack", "%s reports split %d, which it doesn't read, for checkpoint %d", n.Name, p.ID, c.id)
		}
		cut[p.ID] = p.Pos
		if c.reported[p.ID] {
			e.Fail("ack", "two source runners report split %d for checkpoint %d", p.ID, c.id)
		}
		c.pos[p.ID], c.reported[p.ID] = p.Pos, true
	}
	for _, s := range c.must[n.Name] {
		if _, ok := cut[s]; !ok {
			e.Fail("position", "%s reports no position of split %d, which it was assigned ahead of checkpoint %d", n.Name, s, c.id)
		}
	}
	for _, s := range sim.SortedKeys(r.splits) {
		if _, ok := cut[s]; !ok {
			// Can only be one assigned since.
			for i := range r.reads {
				if r.reads[i].split == s {
					e.Probe("unreported split with reads")
				}
			}
		}
	}
	r.acks[c.id] = cut
	for _, o := range w.opset {
		w.checkBarrier(r, o, r.streams[o], c.id)
	}
	w.complete(c)
}

func (w *SRWorld) complete(c *srCkpt) {
	if w.pending == c && len(c.acks) == len(w.cur) && c.bars == len(w.cur)*len(w.opset) {
		w.pending = nil
		w.latest = c
		w.e.Probe("checkpoint")
		w.e.Log("checkpoint %d complete: %v", c.id, c.pos)
	}
}

func (w *SRWorld) startCkpt() bool {
	if w.pending != nil || w.failed {
		return !w.failed
	}
	w.nextID++
	c := &srCkpt{id: w.nextID, phase: w.phase, pos: map[int]int{}, acks: map[string]bool{}, reported: map[int]bool{}, must: map[string][]int{}}
	for s, at := range w.start {
		c.pos[s] = at // unless a runner reports another one
	}
	w.pending = c
	w.ckptPhase[c.id] = w.phase
	w.e.Log("start checkpoint %d", c.id)
	for _, s := range w.cur {
		s := s
		phase, ctx := w.phase, w.ctx
		c.must[s.Name] = slices.Clone(w.assigned[s])
		w.e.Go(func() {
			err := w.net.Call(ctx, w.job, s.Node, "StartCheckpoint", func(ctx context.Context) error {
				s.sr.HandleStartCheckpoint(ctx, c.id)
				return nil
			})
			if err != nil {
				w.fail(phase, fmt.Sprintf("StartCheckpoint at %s: %v", s.Name, err))
			}
		})
	}
	return true
}

func (w *SRWorld) waitCkpt() bool {
	c := w.pending
	if c == nil || w.stuck() {
		return !w.failed
	}
	if !w.e.Until(time.Hour, time.Millisecond, func() bool { return w.pending != c || w.failed }) {
		w.e.Fail("stall", "checkpoint %d doesn't complete: %d of %d runners reported, %d barriers", c.id, len(c.acks), len(w.cur), c.bars)
	}
	return !w.failed
}

// stuck tells that partial batches stay until they are full.
func (w *SRWorld) stuck() bool { return w.p.Int("bdelay") == 0 && w.p.Int("bsize") > 1 }

// ---- deployment ----

func (w *SRWorld) redeploy(nops, nsrs, crash int, order uint64) {
	e := w.e
	r := simrt.NewRand(order)
	for try := 0; ; try++ {
		if try > 8 {
			e.Fail("stall", "source runners can't be deployed: %s", w.why)
		}
		if try > 4 {
			w.herr = 0
			w.net.ErrP = 0
		}
		for i, s := range w.cur {
			if crash>>i&1 == 1 {
				s.Kill()
			}
		}
		crash = 0
		w.phase++
		if w.cancel != nil {
			w.cancel()
		}
		w.ctx, w.cancel = context.WithCancel(context.Background())
		w.failed, w.why = false, ""
		w.pending = nil
		// Runners: survivors in any order, then new ones.
		var alive, cur []*srProc
		for _, s := range w.all {
			if s.Alive && !s.ended {
				alive = append(alive, s)
			}
		}
		for _, i := range r.Perm(len(alive)) {
			if len(cur) < nsrs {
				cur = append(cur, alive[i])
			}
		}
		for len(cur) < nsrs {
			cur = append(cur, w.newSR())
		}
		// Those that aren't used anymore would keep sending to their operators.
		w.cur = cur
		w.opset = nil
		for i := 0; i < nops; i++ {
			o := &recOp{Node: NewNode(e, fmt.Sprintf("op%d.%d", w.phase, i)), w: w, index: i, n: nops, barrier: map[string]bool{}}
			w.ops = append(w.ops, o)
			w.opset = append(w.opset, o)
		}
		req := &workerpb.DeploySourceRunnerRequest{KeyGroupCount: int32(w.kgc), Sources: []*jobconfigpb.Source{{}}}
		for _, o := range w.opset {
			req.Operators = append(req.Operators, &jobpb.NodeIdentity{Id: o.Name, Host: o.Name})
		}
		w.e.Log("deploy %d: %d operators %d runners", w.phase, nops, nsrs)
		errs := make(chan error, nsrs)
		for _, s := range cur {
			nr := &run{sr: s, phase: w.phase, readPos: map[*record]int{}, splits: map[int]int{}, streams: map[*recOp]*stream{}, acks: map[uint64]map[int]int{}}
			for _, o := range w.opset {
				nr.streams[o] = &stream{seen: map[[3]int]bool{}, lastKey: map[string][2]int{}, bars: map[uint64]int{}, checked: map[uint64]bool{}}
			}
			s.next = nr
			ctx := w.ctx
			e.Go(func() {
				errs <- w.net.Call(ctx, w.job, s.Node, "Deploy", func(ctx context.Context) error {
					err := s.sr.HandleDeploy(ctx, wire(req))
					if err == nil {
						for _, old := range s.runs {
							old.stopped = true
						}
						s.runs = append(s.runs, nr)
					}
					return err
				})
			})
		}
		var err error
		for range cur {
			if e1 := <-errs; e1 != nil {
				err = e1
			}
		}
		for _, s := range cur {
			if err == nil {
				s.next = nil
			}
		}
		if err == nil && !w.failed {
			break
		}
		w.why = fmt.Sprint(err, w.why)
		e.Log("deploy %d failed: %s", w.phase, w.why)
		if err != nil && !errors.Is(err, errUnavailable) && !errors.Is(err, errLost) {
			e.Fail("deploy", "deployment %d fails: %v", w.phase, err)
		}
		time.Sleep(50 * time.Millisecond)
	}
	e.Probe("deployed")
	if w.phase > 1 {
		e.Probe("redeployed")
	}
	w.asgn, w.start, w.assigned = map[int]*srProc{}, map[int]int{}, map[*srProc][]int{}
	var splits []int
	for i := range w.src.splits {
		if w.latest != nil {
			w.start[i] = w.latest.pos[i]
		}
		splits = append(splits, i)
	}
	w.assign(splits, r.Uint64())
}

func (w *SRWorld) assign(splits []int, order uint64) {
	r := simrt.NewRand(order)
	m := map[*srProc][]*workerpb.SourceSplit{}
	for _, s := range splits {
		to := w.cur[r.Intn(len(w.cur))]
		w.asgn[s] = to
		m[to] = append(m[to], splitMsg(s, w.start[s]))
	}
	for _, s := range w.cur {
		phase := w.phase
		msgs := m[s]
		err := w.net.Call(w.ctx, w.job, s.Node, "AssignSplits", func(ctx context.Context) error {
			return s.sr.HandleAssignSplits(ctx, wires(msgs))
		})
		if err != nil {
			w.fail(phase, fmt.Sprintf("AssignSplits at %s: %v", s.Name, err))
			continue
		}
		for _, x := range splits {
			if phase == w.phase && w.asgn[x] == s {
				w.assigned[s] = append(w.assigned[s], x)
			}
		}
	}
}

// drain waits until all records were delivered.
func (w *SRWorld) drain() bool {
	if w.stuck() || w.failed {
		return !w.failed
	}
	limit := time.Hour
	var missing string
	ok := w.e.Until(limit, 20*time.Millisecond, func() bool {
		missing = ""
		if !w.failed {
			missing = w.missing()
		}
		return missing == ""
	})
	if !ok {
		w.e.Fail("lost", "%s", missing)
	}
	if !w.failed {
		w.e.Probe("all delivered")
	}
	return !w.failed
}

// missing describes an event that wasn't delivered or a watermark that lags.
func (w *SRWorld) missing() string {
	for _, s := range sim.SortedKeys(w.asgn) {
		sr := w.asgn[s]
		r := sr.last()
		for i := w.start[s]; i < len(w.src.splits[s]); i++ {
			for j, ev := range w.src.splits[s][i].evs {
				o := w.opset[refOwner([]byte(ev.key), w.kgc, len(w.opset))]
				if !r.streams[o].seen[[3]int{s, i, j}] {
					return fmt.Sprintf("%s doesn't deliver record %d of split %d to %s", sr.Name, i, s, o.Name)
				}
			}
		}
	}
	for _, sr := range w.cur {
		r := sr.last()
		n := len(r.maxTS)
		if n == 0 || r.maxTS[n-1] == -1<<63 {
			continue
		}
		for _, o := range w.opset {
			if st := r.streams[o]; !st.hasWM || st.wm < r.maxTS[n-1]-ms {
				return fmt.Sprintf("%s tells %s watermark %v; it forwarded an event at %v", sr.Name, o.Name, time.Duration(st.wm), time.Duration(r.maxTS[n-1]))
			}
		}
	}
	return ""
}

// ---- plans ----

func genSR(prop string) func(r *simrt.Rand, size int) sim.Plan {
	return func(r *simrt.Rand, size int) sim.Plan {
		p := sim.Plan{P: map[string]int64{}}
		set := func(k string, v int) { p.P[k] = int64(v) }
		set("kseed", int(r.Uint64()>>33))
		set("keys", r.Pick(1, 2, 3, 5, 10, 20))
		set("style", r.Pick(0, 1, 1, 3))
		set("kgc", r.Pick(1, 2, 3, 8, 8, 16, 64, 256, 300))
		ops, srs := r.Pick(1, 2, 2, 3, 4), r.Pick(1, 1, 2, 3)
		if prop == "C04" {
			srs = r.Pick(1, 1, 1, 2)
		}
		if prop == "C05" {
			set("kgc", r.Pick(1, 2, 3, 5, 7, 10, 16, 100, 256, 1000, 4096, 32768, 65535))
			set("keys", r.Pick(5, 20, 60))
			ops = r.Pick(1, 2, 3, 4, 5, 7, 8, 13)
		}
		set("ops", ops)
		set("srs", srs)
		set("splits", r.Pick(1, 1, 2, 3, 5))
		set("rbatch", r.Pick(1, 2, 5, 20, 100))
		set("fan", r.Pick(1, 1, 2, 4))
		set("dt", r.Pick(0, 1, 5, 50, 600_000, 40_000_000))
		set("bsize", r.Pick(1, 2, 2, 3, 5, 10, 50))
		set("bdelay", r.Pick(100, 100, 1000, 3000, 20000, 100000))
		if r.Chance(0.05) {
			set("bdelay", 0)
		}
		set("align", r.Intn(2))
		set("close", r.Pick(0, 0, 0, 1))
		set("netlatp", r.Pick(0, 50, 300, 700))
		set("netlat", r.Pick(10, 1000, 5000, 20000))
		set("hlatp", r.Pick(0, 100, 300, 700))
		set("hlat", r.Pick(10, 300, 1000, 20000, 200000))
		set("srclatp", r.Pick(0, 100, 500))
		set("srclat", r.Pick(10, 300, 3000, 30000))
		set("poll", r.Pick(100, 1000, 20000))
		if r.Chance(0.3) {
			set("srcerr", r.Pick(10, 100, 400))
		}
		if r.Chance(0.2) {
			set("unp", r.Pick(10, 100))
		}
		redeploy, stall := 0, 3
		if prop != "C04" {
			redeploy = r.Pick(0, 4, 10)
			if r.Chance(0.2) {
				set("neterr", r.Pick(3, 20, 100))
			}
			if r.Chance(0.15) {
				set("herr", r.Pick(3, 20, 100))
			}
		}
		total := 60 + 12 + 15 + redeploy + stall + 3 + 2
		for i, cnt := 0, []int{15, 40, 120}[size]; i < cnt; i++ {
			x := r.Intn(total)
			pick := func(w int) bool { x -= w; return x < 0 }
			switch {
			case pick(60):
				p.Add("add", int64(r.Intn(12)), int64(r.Pick(1, 1, 2, 5, 20)), int64(r.Uint64()>>40))
			case pick(12):
				p.Add("ckpt")
				if r.Chance(0.3) {
					p.Add("wait")
				}
			case pick(15):
				p.Add("sleep", int64(r.Pick(10, 200, 1000, 5000, 20000, 300000)))
			case pick(redeploy):
				crash := 0
				if r.Chance(0.4) {
					crash = r.Intn(8)
				}
				n, m := ops, srs
				if r.Chance(0.3) {
					n, m = r.Range(1, 4), r.Range(1, 3)
				}
				p.Add("redeploy", int64(n), int64(m), int64(crash), int64(r.Intn(2)), int64(r.Uint64()>>33))
			case pick(stall):
				p.Add("stall", int64(r.Intn(4)), int64(r.Pick(1000, 100000)))
			case pick(3):
				p.Add("drain")
			case pick(2):
				p.Add("split", int64(r.Uint64()>>40))
			}
		}
		return p
	}
}

var srReal = []string{"workers/sourcerunner", "batching", "connectors.ReadSourceChannel", "workers/wmark", "partitioning"}
var srStub = []string{"source, operators and job (simulated nodes that record what they get)", "user handler", "RPC transport (simulated network)"}

func srScenario(prop string, weight int) *sim.Scenario {
	return &sim.Scenario{Name: "runner", Weight: weight, Gen: genSR(prop), Run: runSR, SimLimit: 48 * time.Hour, StallClass: "stall", MaxSteps: 20_000_000,
		Tune: func(cfg *simrt.Config, _ *sim.Plan) { cfg.MaxPaused = int64(15 * time.Minute) }}
}

func init() {
	rules := map[string]string{
		"C04": "Real source runners with simulated splits, key-by handlers of any latency and operators with back-pressure: every record's keyed events reach the owner exactly once, per split and key in order, and barriers and watermarks keep their place behind the records read before them.",
		"C16": "The positions a source runner reports for a checkpoint are compared with what it delivered ahead of the barrier, on every operator's stream, also after redeployments from any checkpoint.",
	}
	for _, id := range sim.SortedKeys(rules) {
		sim.Register(&sim.Property{ID: id, Level: "exploration", Scenarios: []*sim.Scenario{srScenario(id, 1)}, Real: srReal, Stub: srStub, Rule: rules[id]})
	}
}
