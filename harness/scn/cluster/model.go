package cluster

import (
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"math/bits"
	"sort"
	"strings"
	"time"

	"google.golang.org/protobuf/types/known/timestamppb"
	"reduction.dev/reduction-protocol/handlerpb"
	"reduction.dev/reduction/zz_verif/sim"
	"reduction.dev/reduction/zz_verif/simrt"
)

// ---- key groups: an independent implementation ----

// refMurmur is MurmurHash3_x86_32 with seed 0.
func refMurmur(b []byte) uint32 {
	const c1, c2 = 0xcc9e2d51, 0x1b873593
	var h uint32
	n := len(b)
	for len(b) >= 4 {
		k := binary.LittleEndian.Uint32(b) * c1
		h ^= bits.RotateLeft32(k, 15) * c2
		h = bits.RotateLeft32(h, 13)*5 + 0xe6546b64
		b = b[4:]
	}
	var k uint32
	for i := len(b) - 1; i >= 0; i-- {
		k = k<<8 | uint32(b[i])
	}
	if len(b) > 0 {
		h ^= bits.RotateLeft32(k*c1, 15) * c2
	}
	h ^= uint32(n)
	h ^= h >> 16
	h *= 0x85ebca6b
	h ^= h >> 13
	h *= 0xc2b2ae35
	h ^= h >> 16
	return h
}

func refGroup(key []byte, count int) int { return int(refMurmur(key) % uint32(count)) }

// refRange is the i-th of n key-group ranges.
func refRange(count, n, i int) (lo, hi int) {
	q, rem := count/n, count%n
	lo = i*q + min(i, rem)
	hi = lo + q
	if i < rem {
		hi++
	}
	return
}

func refOwner(key []byte, count, n int) int {
	g := refGroup(key, count)
	for i := 0; i < n; i++ {
		if lo, hi := refRange(count, n, i); g >= lo && g < hi {
			return i
		}
	}
	return -1
}

// ---- state of one operator ----

type tkey struct {
	key string
	t   int64 // ns since the epoch
}

type mut struct {
	ns, k, v string
	del      bool
}

// rec is one event the handler handled: a source event or an expired timer.
type rec struct {
	ev    int
	sr    int
	seq   int // position in the stream from sr to this operator
	timer *tkey
	key   string
	muts  []mut
	set   []int64 // timers that count
}

type stateMap map[string]map[string]map[string]string

type opState struct {
	st     stateMap
	timers map[tkey]bool
}

func newOpState() *opState { return &opState{stateMap{}, map[tkey]bool{}} }

func (s *opState) clone() *opState {
	n := newOpState()
	for k, nss := range s.st {
		for ns, es := range nss {
			for e, v := range es {
				n.put(k, ns, e, v)
			}
		}
	}
	for t := range s.timers {
		n.timers[t] = true
	}
	return n
}

func (s *opState) put(k, ns, e, v string) {
	if s.st[k] == nil {
		s.st[k] = map[string]map[string]string{}
	}
	if s.st[k][ns] == nil {
		s.st[k][ns] = map[string]string{}
	}
	s.st[k][ns][e] = v
}

func (s *opState) del(k, ns, e string) {
	delete(s.st[k][ns], e)
	if len(s.st[k][ns]) == 0 {
		delete(s.st[k], ns)
	}
	if len(s.st[k]) == 0 {
		delete(s.st, k)
	}
}

func (s *opState) apply(r *rec) {
	if r.timer != nil {
		delete(s.timers, *r.timer)
	}
	for _, m := range r.muts {
		if m.del {
			s.del(r.key, m.ns, m.k)
		} else {
			s.put(r.key, m.ns, m.k, m.v)
		}
	}
	for _, t := range r.set {
		s.timers[tkey{r.key, t}] = true
	}
}

func qs(s string) string {
	if len(s) > 20 {
		return fmt.Sprintf("%q…(%d)", s[:20], len(s))
	}
	return fmt.Sprintf("%q", s)
}

// diffKey compares the entries of one key.
func diffKey(want, got map[string]map[string]string) string {
	var out []string
	for _, ns := range sim.SortedKeys(want) {
		for _, e := range sim.SortedKeys(want[ns]) {
			g, ok := got[ns][e]
			if !ok {
				out = append(out, fmt.Sprintf("%q/%q: %s is missing", ns, e, qs(want[ns][e])))
			} else if g != want[ns][e] {
				out = append(out, fmt.Sprintf("%q/%q: %s instead of %s", ns, e, qs(g), qs(want[ns][e])))
			}
		}
	}
	for _, ns := range sim.SortedKeys(got) {
		for _, e := range sim.SortedKeys(got[ns]) {
			if _, ok := want[ns][e]; !ok {
				out = append(out, fmt.Sprintf("%q/%q: unexpected %s", ns, e, qs(got[ns][e])))
			}
		}
	}
	if len(out) > 4 {
		out = append(out[:4], fmt.Sprintf("and %d more", len(out)-4))
	}
	return strings.Join(out, "; ")
}

func (s *opState) diff(got *opState) string {
	var out []string
	keys := map[string]bool{}
	for k := range s.st {
		keys[k] = true
	}
	for k := range got.st {
		keys[k] = true
	}
	for _, k := range sim.SortedKeys(keys) {
		if d := diffKey(s.st[k], got.st[k]); d != "" {
			out = append(out, fmt.Sprintf("key %q: %s", k, d))
		}
	}
	ts := map[tkey]bool{}
	for t := range s.timers {
		ts[t] = true
	}
	for t := range got.timers {
		ts[t] = true
	}
	for _, t := range sortedTimers(ts) {
		switch {
		case s.timers[t] && !got.timers[t]:
			out = append(out, fmt.Sprintf("timer %q@%v is missing", t.key, time.Duration(t.t)))
		case !s.timers[t] && got.timers[t]:
			out = append(out, fmt.Sprintf("unexpected timer %q@%v", t.key, time.Duration(t.t)))
		}
	}
	if len(out) > 4 {
		out = append(out[:4], fmt.Sprintf("and %d more", len(out)-4))
	}
	return strings.Join(out, "; ")
}

func sortedTimers(m map[tkey]bool) []tkey {
	ts := make([]tkey, 0, len(m))
	for t := range m {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool {
		if ts[i].t != ts[j].t {
			return ts[i].t < ts[j].t
		}
		return ts[i].key < ts[j].key
	})
	return ts
}

// ---- what the handler does: a function of the event alone ----

// behaviour generates what handling an event or timer does.
type behaviour struct {
	seed   uint64
	vsize  int
	nss    []string
	ents   []string
	timerP float64 // timers per event
	delP   float64
	far    bool // sets timers that stand for never
}

func newBehaviour(p *sim.Plan) *behaviour {
	b := &behaviour{seed: uint64(p.Int("bseed")), vsize: p.Int("vsize"), timerP: float64(p.Int("timerp")) / 100, delP: float64(p.Int("delp")) / 100, far: p.Int("far") == 1}
	all := []string{"n", "", "nn", "n\x00", "timers", strings.Repeat("x", 255), "\U0010ffff\u00ff", strings.Repeat("x", 256), strings.Repeat("x", 256+2)}
	b.nss = all[:max(1, p.Int("nss"))]
	ents := []string{"a", "", "b", "aa", "\x00", "\xff", "a\x00", "e7", "e8", "e9", "e10", "e11"}
	b.ents = ents[:max(1, min(len(ents), p.Int("ents")))]
	return b
}

func hash(xs ...any) uint64 {
	h := uint64(14695981039346656037)
	for _, c := range []byte(fmt.Sprint(xs...)) {
		h = (h ^ uint64(c)) * 1099511628211
	}
	return simrt.Mix(h)
}

func (b *behaviour) muts(r *simrt.Rand, tag string, n int) []mut {
	var out []mut
	for i := 0; i < n; i++ {
		m := mut{ns: b.nss[r.Intn(len(b.nss))], k: b.ents[r.Intn(len(b.ents))]}
		if r.Chance(b.delP) {
			m.del = true
		} else if !r.Chance(0.1) {
			m.v = tag + "." + fmt.Sprint(i)
			for n := r.Intn(b.vsize + 1); len(m.v) < n; {
				m.v += "."
			}
		}
		out = append(out, m)
	}
	return out
}

const ms = int64(time.Millisecond)

// onEvent: mutations and timers of a source event with a timestamp.
func (b *behaviour) onEvent(id int, seed uint64, ts int64) (ms_ []mut, timers []int64) {
	r := simrt.NewRand(seed ^ b.seed)
	ms_ = b.muts(r, fmt.Sprintf("v%d", id), r.Pick(0, 1, 1, 2, 3, 5))
	for r.Chance(b.timerP) && len(timers) < 4 {
		t := ts + int64(r.Pick(0, 1, 1, 2, 3, 5, 10, 30, 100, 1000, -1, -5))*ms
		if r.Chance(0.1) {
			t += int64(r.Pick(1, -1, 999))
		}
		if r.Chance(0.2) {
			t = ts / (10 * ms) * (10 * ms) // many identical ones
		}
		if t < 0 {
			t = 0
		}
		if b.far && r.Chance(0.05) {
			t = far + int64(r.Intn(20))*int64(time.Second/4)
		}
		timers = append(timers, t)
	}
	return
}

// onTimer: mutations and timers of an expired timer.
func (b *behaviour) onTimer(key string, t int64) (ms_ []mut, timers []int64) {
	r := simrt.NewRand(hash(key, t) ^ b.seed)
	if r.Chance(0.6) {
		ms_ = b.muts(r, fmt.Sprintf("t%d", t), r.Pick(1, 1, 2))
	}
	if r.Chance(0.25) {
		timers = append(timers, t+int64(r.Pick(1, 7, 50, 400))*ms)
	}
	return
}

// ---- the handler's reference model ----

// event is one source event.
type event struct {
	id    int
	sr    int
	seq   int
	key   string
	ts    int64
	seed  uint64
	phase int
}

// Model is what one operator of one deployment must hold.
type Model struct {
	name    string
	index   int
	n       int // operators of the deployment
	kgc     int
	phase   int
	base    *opState
	cur     *opState
	log     []rec
	lastSeq map[int]int // per source runner
	lastT   int64       // last fired timer
	srs     []string
	wmStart map[string]int64
	wmDone  map[string]int64
	lost    bool // a handler error dropped a batch
	batches int
}

func newModel(name string, index, n, kgc, phase int, base *opState, srs []string) *Model {
	m := &Model{name: name, index: index, n: n, kgc: kgc, phase: phase, base: base, cur: base.clone(), srs: srs,
		lastSeq: map[int]int{}, lastT: math.MinInt64, wmStart: map[string]int64{}, wmDone: map[string]int64{}}
	for _, s := range srs {
		m.wmStart[s], m.wmDone[s] = 0, 0
	}
	return m
}

func (m *Model) owns(key string) bool { return refOwner([]byte(key), m.kgc, m.n) == m.index }

func minWM(srs []string, wms map[string]int64) int64 {
	lo := int64(math.MaxInt64)
	for _, s := range srs {
		lo = min(lo, wms[s])
	}
	return lo
}

// far is where the model keeps the times that follow farTime: timers that stand
// for "never" lie past what nanoseconds since the epoch can tell.
const far = math.MaxInt64 - int64(24*time.Hour)

var farTime = time.Date(9999, 1, 1, 0, 0, 0, 0, time.UTC)

func toTime(t int64) time.Time {
	if t >= far && t < math.MaxInt64 {
		return farTime.Add(time.Duration(t - far))
	}
	return time.Unix(0, t)
}

// ns clamps a time to the representable range.
func ns(t time.Time) int64 {
	if d := t.Sub(farTime); d >= 0 && d < 24*time.Hour {
		return far + int64(d)
	}
	if t.Year() < 1700 {
		return math.MinInt64
	}
	if t.Year() > 2200 {
		return math.MaxInt64
	}
	return t.UnixNano()
}

var errHandler = errors.New("simulated handler error")

// Handler is the user's handler of one operator process.
type Handler struct {
	w *World
	n *OpNode
}

// wait is the time a user's handler takes; like an RPC, it ends with its context.
func wait(ctx context.Context, d time.Duration) error {
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case <-t.C:
		return nil
	case <-ctx.Done():
		return ctx.Err()
	}
}

func (h *Handler) KeyEventBatch(ctx context.Context, events [][]byte) ([][]*handlerpb.KeyedEvent, error) {
	panic("not used")
}

// ProcessEventBatch compares what the operator supplies with the model and
// returns what the behaviour prescribes.
func (h *Handler) ProcessEventBatch(ctx context.Context, req *handlerpb.ProcessEventBatchRequest) (*handlerpb.ProcessEventBatchResponse, error) {
	w, m := h.w, h.n.model
	e := w.e
	if m == nil {
		e.Fail("stale", "%s handles events without a deployment", h.n.Name)
	}
	m.batches++
	told := ns(req.Watermark.AsTime())
	lo, hi := minWM(m.srs, m.wmDone), minWM(m.srs, m.wmStart)
	if told < lo || told > hi {
		e.Fail("watermark", "%s tells the handler watermark %v; the minimum of its upstreams is in [%v, %v]", m.name, time.Duration(told), time.Duration(lo), time.Duration(hi))
	}
	if len(req.Events) == 0 {
		e.Fail("batch", "%s sends an empty batch", m.name)
	}
	// The keys of the batch and nothing else, each once.
	want := map[string]bool{}
	for _, ev := range req.Events {
		switch t := ev.Event.(type) {
		case *handlerpb.Event_KeyedEvent:
			want[string(t.KeyedEvent.Key)] = true
		case *handlerpb.Event_TimerExpired:
			want[string(t.TimerExpired.Key)] = true
		}
	}
	seen := map[string]bool{}
	for _, ks := range req.KeyStates {
		k := string(ks.Key)
		if seen[k] || !want[k] {
			e.Fail("state", "%s supplies state of key %q (again: %v)", m.name, k, seen[k])
		}
		seen[k] = true
		got := map[string]map[string]string{}
		for _, n := range ks.StateEntryNamespaces {
			if got[n.Namespace] != nil {
				e.Fail("state", "%s supplies namespace %q of key %q twice", m.name, n.Namespace, k)
			}
			got[n.Namespace] = map[string]string{}
			for _, en := range n.Entries {
				if _, ok := got[n.Namespace][string(en.Key)]; ok {
					e.Fail("state", "%s supplies entry %q/%q of key %q twice", m.name, n.Namespace, en.Key, k)
				}
				got[n.Namespace][string(en.Key)] = string(en.Value)
			}
			if len(n.Entries) == 0 {
				e.Fail("state", "%s supplies the empty namespace %q of key %q", m.name, n.Namespace, k)
			}
		}
		if d := diffKey(m.cur.st[k], got); d != "" {
			e.Fail("state", "%s key %q: %s", m.name, k, d)
		}
		if len(got) > 0 {
			e.Probe("state supplied")
		}
	}
	for k := range want {
		if !seen[k] {
			e.Fail("state", "%s doesn't supply the state of key %q", m.name, k)
		}
	}

	// Handle the events in order.
	resp := &handlerpb.ProcessEventBatchResponse{}
	merged := map[string]*handlerpb.KeyResult{}
	mergeResults := hash(h.n.Name, m.batches)&1 == 0
	var recs []rec
	set := map[tkey]bool{} // timers pending before the batch that fire in it
	for _, ev := range req.Events {
		var r rec
		var asked []int64
		switch t := ev.Event.(type) {
		case *handlerpb.Event_KeyedEvent:
			ke := t.KeyedEvent
			id := int(binary.BigEndian.Uint32(ke.Value))
			src := w.events[id]
			if src == nil || src.key != string(ke.Key) || ns(ke.Timestamp.AsTime()) != src.ts {
				e.Fail("event", "%s: event %d doesn't match what was sent", m.name, id)
			}
			if src.phase != m.phase {
				e.Fail("stale", "%s: event %d of deployment %d reaches the handler in deployment %d", m.name, id, src.phase, m.phase)
			}
			if !m.owns(src.key) {
				e.Fail("routing", "%s handles key %q of another operator", m.name, src.key)
			}
			if src.seq <= m.lastSeq[src.sr] {
				e.Fail("order", "%s: event %d (number %d from source runner %d) after number %d", m.name, id, src.seq, src.sr, m.lastSeq[src.sr])
			}
			if src.seq != m.lastSeq[src.sr]+1 && !m.lost {
				e.Fail("lost", "%s: number %d from source runner %d after number %d", m.name, src.seq, src.sr, m.lastSeq[src.sr])
			}
			m.lastSeq[src.sr] = src.seq
			r = rec{ev: id, sr: src.sr, seq: src.seq, key: src.key}
			r.muts, asked = w.beh.onEvent(id, src.seed, src.ts)
		case *handlerpb.Event_TimerExpired:
			k := tkey{string(t.TimerExpired.Key), ns(t.TimerExpired.Timestamp.AsTime())}
			if !m.cur.timers[k] || set[k] {
				e.Fail("timer", "%s fires timer %q@%v which isn't pending", m.name, k.key, time.Duration(k.t))
			}
			set[k] = true
			if k.t > told {
				e.Fail("timer early", "%s fires timer %q@%v at watermark %v", m.name, k.key, time.Duration(k.t), time.Duration(told))
			}
			if k.t < m.lastT {
				e.Fail("timer order", "%s fires timer %q@%v after one at %v", m.name, k.key, time.Duration(k.t), time.Duration(m.lastT))
			}
			m.lastT = k.t
			r = rec{timer: &k, key: k.key}
			r.muts, asked = w.beh.onTimer(k.key, k.t)
			e.Probe("timer fired")
		}
		for _, t := range asked {
			if t > told {
				r.set = append(r.set, t)
				e.Probe("timer set")
			}
		}
		recs = append(recs, r)

		var kr *handlerpb.KeyResult
		if mergeResults {
			kr = merged[r.key]
		}
		if kr == nil {
			kr = &handlerpb.KeyResult{Key: []byte(r.key)}
			merged[r.key] = kr
			resp.KeyResults = append(resp.KeyResults, kr)
		}
		for _, t := range asked {
			kr.NewTimers = append(kr.NewTimers, timestamppb.New(toTime(t)))
		}
		if len(recs)%4 == 1 && r.key != "" {
			kr.StateMutationNamespaces = append(kr.StateMutationNamespaces, &handlerpb.StateMutationNamespace{Namespace: "empty"})
		}
		for _, mu := range r.muts {
			pm := &handlerpb.StateMutation{}
			if mu.del {
				pm.Mutation = &handlerpb.StateMutation_Delete{Delete: &handlerpb.DeleteMutation{Key: []byte(mu.k)}}
			} else {
				pm.Mutation = &handlerpb.StateMutation_Put{Put: &handlerpb.PutMutation{Key: []byte(mu.k), Value: []byte(mu.v)}}
			}
			var last *handlerpb.StateMutationNamespace
			if n := len(kr.StateMutationNamespaces); n > 0 {
				last = kr.StateMutationNamespaces[n-1]
			}
			if last == nil || last.Namespace != mu.ns {
				last = &handlerpb.StateMutationNamespace{Namespace: mu.ns}
				kr.StateMutationNamespaces = append(kr.StateMutationNamespaces, last)
			}
			last.Mutations = append(last.Mutations, pm)
		}
	}
	if len(req.Events) > 1 {
		e.Probe("batch of several events")
	}
	e.Log("%s handles %d events wm=%v", m.name, len(req.Events), time.Duration(told))
	if l := e.Lat("handler latency", w.hlatP, w.hlat); l > 0 {
		if err := wait(ctx, l); err != nil {
			e.Probe("handler given up")
			m.lost = true
			w.failPhase(m.phase, "handler given up")
			return nil, err
		}
	}
	if w.herrP > 0 && e.Choose("handler error", w.herrP, 1) == 1 {
		m.lost = true
		w.herrs++
		w.failPhase(m.phase, "handler error")
		return nil, errHandler
	}
	for i := range recs {
		m.cur.apply(&recs[i])
	}
	m.log = append(m.log, recs...)
	// Without an order among results, handlers may answer in any.
	if mergeResults && hash(h.n.Name, m.batches, "rev")&1 == 0 {
		for i, j := 0, len(resp.KeyResults)-1; i < j; i, j = i+1, j-1 {
			resp.KeyResults[i], resp.KeyResults[j] = resp.KeyResults[j], resp.KeyResults[i]
		}
	}
	return resp, nil
}

// mergeResults and the model: within a batch the mutations of one key keep their
// order, so applying them event by event gives the same state.
