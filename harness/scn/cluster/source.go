package cluster

import (
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"time"

	"reduction.dev/reduction-protocol/jobconfigpb"
	"reduction.dev/reduction/connectors"
	"reduction.dev/reduction/proto/snapshotpb"
	"reduction.dev/reduction/proto/workerpb"
	"reduction.dev/reduction/zz_verif/sim"
	"reduction.dev/reduction/zz_verif/simrt"
)

// ---- a simulated source: splits that grow ----

// keyed is one keyed event of a record.
type keyed struct {
	key string
	ts  int64
	n   int // number among the split's events of the key, from 0
}

type record struct {
	split, idx int
	evs        []keyed
	perKey     int
}

// source is the outside system sources read from.
type source struct {
	e      *sim.Env
	splits [][]*record
	perKey []map[string]int
	closed bool // no records will be added
	latP   float64
	lat    time.Duration
	errP   float64
	poll   time.Duration
	batch  int
	time   []int64 // event time per split
}

func newSource(e *sim.Env, splits int) *source {
	s := &source{e: e, batch: 1, poll: time.Millisecond}
	for i := 0; i < splits; i++ {
		s.addSplit()
	}
	return s
}

func (s *source) addSplit() int {
	s.splits = append(s.splits, nil)
	s.perKey = append(s.perKey, map[string]int{})
	s.time = append(s.time, 0)
	return len(s.splits) - 1
}

// add appends a record.
func (s *source) add(split int, evs []keyed) *record {
	r := &record{split: split, idx: len(s.splits[split])}
	for _, ev := range evs {
		ev.n = s.perKey[split][ev.key]
		s.perKey[split][ev.key]++
		r.evs = append(r.evs, ev)
	}
	s.splits[split] = append(s.splits[split], r)
	return r
}

// before counts the split's events of a key ahead of a position.
func (s *source) before(split, pos int, key string) int {
	n := 0
	for _, r := range s.splits[split][:pos] {
		for _, ev := range r.evs {
			if ev.key == key {
				n++
			}
		}
	}
	return n
}

func recordBytes(r *record) []byte {
	b := binary.BigEndian.AppendUint32(nil, uint32(r.split))
	return binary.BigEndian.AppendUint32(b, uint32(r.idx))
}

// find returns the record of a value that was read.
func (s *source) find(b []byte) *record {
	if len(b) < 8 {
		return nil
	}
	sp, idx := int(binary.BigEndian.Uint32(b)), int(binary.BigEndian.Uint32(b[4:]))
	if sp >= len(s.splits) || idx >= len(s.splits[sp]) {
		return nil
	}
	return s.splits[sp][idx]
}

// simReader reads the splits assigned to one source runner.
type simReader struct {
	src    *source
	splits []*splitPos
	next   int
	onRead func(*record) // in the order records are read
	onAsgn func(split, pos int)
	closed bool
}

type splitPos struct {
	ID  int `json:"id"`
	Pos int `json:"pos"`
}

func (r *simReader) AssignSplits(splits []*workerpb.SourceSplit) error {
	for _, s := range splits {
		p := &splitPos{}
		if _, err := fmt.Sscan(s.SplitId, &p.ID); err != nil {
			return err
		}
		if len(s.Cursor) > 0 {
			p.Pos = int(binary.BigEndian.Uint32(s.Cursor))
		}
		for _, q := range r.splits {
			if q.ID == p.ID {
				r.src.e.Fail("assigned twice", "split %d is assigned again to the same reader", p.ID)
			}
		}
		r.src.e.Log("split %d is assigned from %d", p.ID, p.Pos)
		if r.onAsgn != nil {
			r.onAsgn(p.ID, p.Pos)
		}
		r.splits = append(r.splits, p)
	}
	return nil
}

func (r *simReader) ReadEvents() ([][]byte, error) {
	s := r.src
	if l := s.e.Lat("source latency", s.latP, s.lat); l > 0 {
		time.Sleep(l)
	}
	if s.errP > 0 && s.e.Choose("source error", s.errP, 1) == 1 {
		return nil, connectors.NewRetryableError(errors.New("simulated source error"))
	}
	var out [][]byte
	n := 1 + s.e.R.Intn(s.batch)
	done := s.closed
	for i := 0; i < len(r.splits) && len(out) < n; i++ {
		p := r.splits[r.next%len(r.splits)]
		r.next++
		for p.Pos < len(s.splits[p.ID]) && len(out) < n {
			rec := s.splits[p.ID][p.Pos]
			p.Pos++
			out = append(out, recordBytes(rec))
			r.onRead(rec)
			if s.e.R.Intn(3) == 0 {
				break
			}
		}
	}
	if len(out) == 0 && s.poll > 0 && !done {
		time.Sleep(s.poll)
	}
	for _, p := range r.splits {
		done = done && p.Pos == len(s.splits[p.ID])
	}
	if done {
		s.e.Probe("end of input")
		return out, connectors.ErrEndOfInput
	}
	return out, nil
}

func (r *simReader) Checkpoint() [][]byte {
	var out [][]byte
	for _, p := range r.splits {
		b, _ := json.Marshal(p)
		out = append(out, b)
	}
	return out
}

func decodePos(b []byte) (p splitPos, err error) { err = json.Unmarshal(b, &p); return }

func splitMsg(split, pos int) *workerpb.SourceSplit {
	m := &workerpb.SourceSplit{SplitId: fmt.Sprint(split), SourceId: "sim"}
	if pos > 0 {
		m.Cursor = binary.BigEndian.AppendUint32(nil, uint32(pos))
	}
	return m
}

// simConfig is the source's configuration as the job sees it.
type simConfig struct {
	src      *source
	onAssign func(map[string][]*workerpb.SourceSplit)
}

func (c *simConfig) Validate() error { return nil }
func (c *simConfig) NewSourceReader(connectors.SourceReaderHooks) connectors.SourceReader {
	panic("not used: source runners of the simulation get their readers directly")
}
func (c *simConfig) ProtoMessage() *jobconfigpb.Source { return &jobconfigpb.Source{} }
func (c *simConfig) NewSourceSplitter(ids []string, hooks connectors.SourceSplitterHooks, errs chan<- error) connectors.SourceSplitter {
	return &simSplitter{c: c, ids: append([]string{}, ids...), hooks: hooks}
}

// simSplitter assigns the splits to runners at random.
type simSplitter struct {
	c     *simConfig
	ids   []string
	hooks connectors.SourceSplitterHooks
}

func (s *simSplitter) IsSourceSplitter()                     {}
func (s *simSplitter) Close() error                          { return nil }
func (s *simSplitter) NotifySplitsFinished(string, []string) {}
func (s *simSplitter) Checkpoint() []byte                    { return []byte("sim") }
func (s *simSplitter) Start(ckpt *snapshotpb.SourceCheckpoint) error {
	src := s.c.src
	pos := make([]int, len(src.splits))
	seen := map[int]bool{}
	for _, st := range ckpt.GetSplitStates() {
		p, err := decodePos(st)
		if err != nil {
			return err
		}
		if seen[p.ID] {
			src.e.Fail("split twice", "the checkpoint %d holds two positions of split %d", ckpt.CheckpointId, p.ID)
		}
		seen[p.ID] = true
		pos[p.ID] = p.Pos
	}
	r := simrt.NewRand(hash(s.ids, src.e.Now()))
	m := map[string][]*workerpb.SourceSplit{}
	off := r.Intn(len(s.ids))
	for i := range pos {
		// Every runner gets a split if there are enough.
		id := s.ids[(i+off)%len(s.ids)]
		m[id] = append(m[id], splitMsg(i, pos[i]))
	}
	if s.c.onAssign != nil {
		s.c.onAssign(m)
	}
	s.hooks.AssignSplits(m)
	return nil
}

// genEvents makes the keyed events of a new record.
func (s *source) genEvents(split int, r *simrt.Rand, keys [][]byte, dt int64, maxEvs int) []keyed {
	var evs []keyed
	n := 1
	if maxEvs > 1 {
		n = r.Pick(0, 1, 1, 1, 2, r.Intn(maxEvs+1))
	}
	s.time[split] += int64(r.Intn(int(dt)+1)) * ms
	for i := 0; i < n; i++ {
		ts := s.time[split]
		if r.Chance(0.3) {
			ts -= int64(r.Intn(int(dt)+1)) * ms
		}
		if r.Chance(0.1) {
			ts += int64(r.Pick(1, -1, 999))
		}
		evs = append(evs, keyed{key: string(keys[r.Intn(len(keys))]), ts: max(ts, 0)})
	}
	return evs
}
