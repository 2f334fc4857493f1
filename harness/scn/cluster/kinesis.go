package cluster

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/big"
	"net/http"
	"runtime"
	"slices"
	"strconv"
	"strings"
	"time"

	gproto "google.golang.org/protobuf/proto"
	protocol "reduction.dev/reduction-protocol/kinesispb"
	"reduction.dev/reduction/connectors"
	"reduction.dev/reduction/connectors/kinesis"
	"reduction.dev/reduction/connectors/kinesis/kinesispb"
	"reduction.dev/reduction/proto/jobpb"
	"reduction.dev/reduction/proto/snapshotpb"
	"reduction.dev/reduction/proto/workerpb"
	"reduction.dev/reduction/zz_verif/sim"
	"reduction.dev/reduction/zz_verif/simaws"
	"reduction.dev/reduction/zz_verif/simrt"
)

// ---- a simulated Kinesis stream behind the real client, splitter and readers ----

// kstream is a stream whose shards are the splits of the source.
type kstream struct {
	w       *FW
	shards  []*kshard
	expire  time.Time // iterators of before are expired
	listErr int       // injected failures of ListShards
	ckAsm   map[uint64]*asm
	base    map[uint64]*kpos
}

type kshard struct {
	idx     int
	parents []int
	lo, hi  *big.Int
	closed  bool
	gone    bool // trimmed
}

// kpos is what a checkpoint holds of the stream.
type kpos struct {
	id  uint64
	pos map[int]int
	fin map[int]bool
}

func newKPos(id uint64) *kpos { return &kpos{id: id, pos: map[int]int{}, fin: map[int]bool{}} }

func newKStream(w *FW) *kstream {
	k := &kstream{w: w, ckAsm: map[uint64]*asm{}, base: map[uint64]*kpos{0: newKPos(0)}}
	n := big.NewInt(int64(len(w.src.splits)))
	end := new(big.Int).Lsh(big.NewInt(1), 128)
	at := func(i int) *big.Int {
		x := new(big.Int).Mul(end, big.NewInt(int64(i)))
		return x.Div(x, n)
	}
	one := big.NewInt(1)
	for i := range w.src.splits {
		k.shards = append(k.shards, &kshard{idx: i, lo: at(i), hi: new(big.Int).Sub(at(i+1), one)})
	}
	simaws.Do = k.do
	return k
}

func shardID(i int) string { return fmt.Sprintf("shardId-%012d", i) }

func (k *kstream) shard(id string) *kshard {
	i, err := strconv.Atoi(strings.TrimPrefix(id, "shardId-"))
	if err != nil || i < 0 || i >= len(k.shards) {
		return nil
	}
	return k.shards[i]
}

// seqNum is the sequence number of the record ahead of a position.
func seqNum(shard, pos int) string {
	if pos == 0 {
		return ""
	}
	return strconv.Itoa(pos*1000 + shard)
}

func (k *kstream) posOf(s *kshard, seq string) int {
	if seq == "" {
		return 0
	}
	n, err := strconv.Atoi(seq)
	if err != nil || n%1000 != s.idx || n/1000 > len(k.w.src.splits[s.idx]) {
		k.w.e.Fail("cursor", "%q isn't a position in %s", seq, shardID(s.idx))
	}
	return n / 1000
}

// open returns an open shard near the i-th.
func (k *kstream) open(i int) int {
	for d := range k.shards {
		if s := k.shards[(i+d)%len(k.shards)]; !s.closed {
			return s.idx
		}
	}
	panic("no open shard")
}

func (k *kstream) child(lo, hi *big.Int, parents ...int) {
	w := k.w
	i := w.src.addSplit()
	for _, p := range parents {
		w.src.time[i] = max(w.src.time[i], w.src.time[p])
		k.shards[p].closed = true
	}
	k.shards = append(k.shards, &kshard{idx: i, parents: parents, lo: lo, hi: hi})
}

func (k *kstream) split(i int) {
	if len(k.shards) > 12 {
		return
	}
	s := k.shards[k.open(i)]
	mid := new(big.Int).Add(s.lo, s.hi)
	mid.Rsh(mid, 1)
	if mid.Cmp(s.lo) <= 0 {
		return
	}
	k.w.e.Log("%s is split into %d and %d", shardID(s.idx), len(k.shards), len(k.shards)+1)
	k.child(s.lo, mid, s.idx)
	k.child(new(big.Int).Add(mid, big.NewInt(1)), s.hi, s.idx)
	k.w.e.Probe("shard split")
}

func (k *kstream) merge(i int) {
	if len(k.shards) > 12 {
		return
	}
	s := k.shards[k.open(i)]
	next := new(big.Int).Add(s.hi, big.NewInt(1))
	for _, t := range k.shards {
		if !t.closed && t.lo.Cmp(next) == 0 {
			k.w.e.Log("%s and %s are merged into %d", shardID(s.idx), shardID(t.idx), len(k.shards))
			k.child(s.lo, t.hi, s.idx, t.idx)
			k.w.e.Probe("shards merged")
			return
		}
	}
}

// trim forgets a closed shard that the newest checkpoint doesn't need.
func (k *kstream) trim() {
	b := k.base[k.w.newest]
	for _, s := range k.shards {
		if b != nil && s.closed && !s.gone && b.fin[s.idx] {
			s.gone = true
			k.w.e.Log("%s is trimmed", shardID(s.idx))
			k.w.e.Probe("shard trimmed")
			return
		}
	}
}

// ---- the service ----

type kerr struct{ code string }

func (e *kerr) Error() string { return e.code }

var errNoKinesis = errors.New("simulated network: no connection to Kinesis")

func (k *kstream) do(r *http.Request) (*http.Response, error) {
	w, e := k.w, k.w.e
	body, err := io.ReadAll(r.Body)
	if err != nil {
		return nil, err
	}
	op := r.Header.Get("X-Amz-Target")
	op = op[strings.LastIndexByte(op, '.')+1:]
	if l := e.Lat("kinesis latency", w.src.latP, w.src.lat); l > 0 {
		time.Sleep(l)
	}
	fault := 0
	if w.src.errP > 0 {
		fault = e.Choose("kinesis error", w.src.errP, 3)
	}
	if fault > 0 && op == "ListShards" {
		k.listErr++
	}
	if fault == 1 {
		return nil, errNoKinesis
	}
	var out any
	switch {
	case fault == 2:
		err = &kerr{map[bool]string{true: "LimitExceededException", false: "ProvisionedThroughputExceededException"}[op == "ListShards"]}
	case op == "ListShards":
		out, err = k.list(body)
	case op == "GetShardIterator":
		out, err = k.iterator(body)
	case op == "GetRecords":
		out, err = k.records(body, fault == 3)
	default:
		e.Fail("kinesis", "unexpected request %q", op)
	}
	if fault == 3 && err == nil {
		return nil, errNoKinesis // the response is lost
	}
	status := 200
	if err != nil {
		status = 400
		out = map[string]string{"__type": err.(*kerr).code, "message": "simulated"}
	}
	b, _ := json.Marshal(out)
	return &http.Response{
		StatusCode: status, Status: http.StatusText(status), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{"Content-Type": {"application/x-amz-json-1.1"}}, Request: r,
		ContentLength: int64(len(b)), Body: io.NopCloser(bytes.NewReader(b)),
	}, nil
}

type kShard struct {
	ShardId               string
	ParentShardId         *string `json:",omitempty"`
	AdjacentParentShardId *string `json:",omitempty"`
	HashKeyRange          struct{ StartingHashKey, EndingHashKey string }
	SequenceNumberRange   struct{ StartingSequenceNumber string }
}

func (k *kstream) list(body []byte) (any, error) {
	var req struct {
		StreamARN, NextToken, ExclusiveStartShardId string
		MaxResults                                  int
	}
	json.Unmarshal(body, &req)
	from := 0
	switch {
	case req.NextToken != "":
		from, _ = strconv.Atoi(req.NextToken)
	case req.ExclusiveStartShardId != "":
		s := k.shard(req.ExclusiveStartShardId)
		if s == nil {
			return nil, &kerr{"ResourceNotFoundException"}
		}
		from = s.idx + 1
	}
	var out struct {
		Shards    []kShard
		NextToken *string `json:",omitempty"`
	}
	n := k.w.p.Int("kpage")
	if req.MaxResults > 0 {
		n = min(n, req.MaxResults)
	}
	if k.w.p.Int("kempty") == 1 && k.w.e.R.Intn(4) == 0 {
		n = 0 // an empty page
	}
	for i := from; i < len(k.shards); i++ {
		s := k.shards[i]
		if s.gone {
			continue
		}
		if len(out.Shards) == n {
			t := strconv.Itoa(i)
			out.NextToken = &t
			break
		}
		x := kShard{ShardId: shardID(i)}
		x.HashKeyRange.StartingHashKey, x.HashKeyRange.EndingHashKey = s.lo.String(), s.hi.String()
		x.SequenceNumberRange.StartingSequenceNumber = "1"
		for j, p := range s.parents {
			id := shardID(p)
			if j == 0 {
				x.ParentShardId = &id
			} else {
				x.AdjacentParentShardId = &id
			}
		}
		out.Shards = append(out.Shards, x)
	}
	return out, nil
}

func (k *kstream) token(shard, pos int) string {
	return fmt.Sprintf("%d:%d:%d", shard, pos, time.Now().UnixNano())
}

func (k *kstream) iterator(body []byte) (any, error) {
	var req struct{ StreamARN, ShardId, ShardIteratorType, StartingSequenceNumber string }
	json.Unmarshal(body, &req)
	s := k.shard(req.ShardId)
	if s == nil || s.gone {
		return nil, &kerr{"ResourceNotFoundException"}
	}
	pos := 0
	switch req.ShardIteratorType {
	case "TRIM_HORIZON":
	case "AFTER_SEQUENCE_NUMBER":
		pos = k.posOf(s, req.StartingSequenceNumber)
	case "AT_SEQUENCE_NUMBER":
		pos = k.posOf(s, req.StartingSequenceNumber) - 1
	default:
		return nil, &kerr{"InvalidArgumentException"}
	}
	return map[string]string{"ShardIterator": k.token(s.idx, pos)}, nil
}

type kRecord struct {
	ApproximateArrivalTimestamp float64
	Data                        []byte
	PartitionKey                string
	SequenceNumber              string
}

func (k *kstream) records(body []byte, lost bool) (any, error) {
	w, e := k.w, k.w.e
	var req struct {
		StreamARN, ShardIterator string
		Limit                    int
	}
	json.Unmarshal(body, &req)
	var i, pos int
	var at int64
	if n, _ := fmt.Sscanf(req.ShardIterator, "%d:%d:%d", &i, &pos, &at); n != 3 {
		return nil, &kerr{"InvalidArgumentException"}
	}
	issued := time.Unix(0, at)
	if !issued.After(k.expire) || time.Since(issued) > 5*time.Minute {
		e.Probe("iterator expired")
		return nil, &kerr{"ExpiredIteratorException"}
	}
	s := k.shards[i]
	if s.gone {
		return nil, &kerr{"ResourceNotFoundException"}
	}
	recs := w.src.splits[i]
	n := 1 + e.R.Intn(w.src.batch)
	if !w.settling.IsZero() {
		n = max(n, 20)
	}
	if req.Limit > 0 {
		n = min(n, req.Limit)
	}
	out := struct {
		NextShardIterator  *string `json:",omitempty"`
		MillisBehindLatest int
		Records            []kRecord
	}{Records: []kRecord{}}
	if e.R.Intn(8) == 0 {
		n = 0 // allowed at any time
	}
	for ; n > 0 && pos < len(recs); n-- {
		pos++
		out.Records = append(out.Records, kRecord{
			ApproximateArrivalTimestamp: float64(at / 1e9), Data: recordBytes(recs[pos-1]), PartitionKey: "p", SequenceNumber: seqNum(i, pos),
		})
	}
	end := s.closed && pos == len(recs)
	if end && len(out.Records) > 0 && e.R.Intn(2) == 0 {
		end = false // told with the next request
	}
	if end {
		if !lost {
			k.ended(s)
		}
	} else {
		t := k.token(i, pos)
		out.NextShardIterator = &t
	}
	if len(out.Records) == 0 && !end {
		d := w.src.poll
		if !w.settling.IsZero() && time.Since(w.settling) > time.Minute {
			d *= 10
		}
		time.Sleep(d)
	}
	return out, nil
}

// ended is called when a reader gets to know that it read all of a shard.
func (k *kstream) ended(s *kshard) {
	j := k.w.jobp
	if j.asm == nil {
		return
	}
	a, g := j.asm, runtime.SimGroup()
	if a.kproc[a.kasg[s.idx]] == g {
		a.kfin[s.idx] = true
		k.w.e.Log("%s is finished", shardID(s.idx))
		k.w.e.Probe("shard finished")
	}
}

// ---- the source as the job sees it ----

type fullKinesis struct {
	kinesis.SourceConfig
	j *jproc
}

func (c *fullKinesis) NewSourceSplitter(ids []string, hooks connectors.SourceSplitterHooks, errs chan<- error) connectors.SourceSplitter {
	a := c.j.newAsm(ids)
	a.kasg, a.kproc, a.kfin = map[int]string{}, map[string]uint32{}, map[int]bool{}
	assign := hooks.AssignSplits
	hooks.AssignSplits = func(m map[string][]*workerpb.SourceSplit) {
		c.j.w.k.assigned(a, m)
		assign(m)
	}
	return &fullSplitter{c.SourceConfig.NewSourceSplitter(ids, hooks, errs), a}
}

func (k *kstream) config(j *jproc) *fullKinesis {
	return &fullKinesis{kinesis.SourceConfig{
		StreamARN: "arn:aws:kinesis:us-east-1:1:stream/s", Endpoint: "http://kinesis.sim", ShardDiscoveryInterval: us(k.w.p.Int("kdiscover")),
	}, j}
}

// contribution is called when the job gets a source runner's part of a checkpoint.
func (k *kstream) contribution(j *jproc, req *jobpb.SourceRunnerCheckpointCompleteRequest) {
	k.ckAsm[req.CheckpointId] = j.asm
}

// start is called with the checkpoint an assembly starts from.
func (k *kstream) start(a *asm, ckpt *snapshotpb.SourceCheckpoint) {
	id := ckpt.GetCheckpointId()
	if a.kbase = k.base[id]; a.kbase == nil {
		k.w.e.Fail("other checkpoint", "assembly %d starts from checkpoint %d, which wasn't published", a.n, id)
	}
}

// assigned checks an assignment: every shard goes to one source runner, from the
// position of the checkpoint, after its parents.
func (k *kstream) assigned(a *asm, m map[string][]*workerpb.SourceSplit) {
	e := k.w.e
	for _, id := range sim.SortedKeys(m) {
		if !slices.Contains(a.srs, id) {
			e.Fail("assignment", "splits are assigned to %s, which isn't in the assembly", id)
		}
		for _, sp := range m[id] {
			s := k.shard(sp.SplitId)
			if s == nil {
				e.Fail("assignment", "%q, which isn't a shard, is assigned", sp.SplitId)
			}
			if to, ok := a.kasg[s.idx]; ok {
				e.Fail("assigned twice", "assembly %d: %s is assigned to source runner %s and to %s", a.n, sp.SplitId, to, id)
			}
			a.kasg[s.idx] = id
			e.Log("assembly %d: %s is assigned to %s from %q", a.n, sp.SplitId, short([]string{id}), sp.Cursor)
			e.Probe("shard assigned")
			if a.kbase.fin[s.idx] {
				e.Fail("finished", "assembly %d: %s is assigned although it was finished at checkpoint %d", a.n, sp.SplitId, a.kbase.id)
			}
			if pos := k.posOf(s, string(sp.Cursor)); pos != a.kbase.pos[s.idx] {
				e.Fail("position", "assembly %d: %s is assigned from position %d, its position in checkpoint %d is %d", a.n, sp.SplitId, pos, a.kbase.id, a.kbase.pos[s.idx])
			}
			for _, p := range s.parents {
				if !k.shards[p].gone && !a.kbase.fin[p] && !a.kfin[p] {
					e.Fail("parent", "assembly %d (from checkpoint %d): %s is assigned although its parent %s isn't finished", a.n, a.kbase.id, sp.SplitId, shardID(p))
				}
				if a.kbase.id > 0 && !a.kbase.fin[p] {
					e.Probe("child assigned after its parent was resumed")
				}
			}
			if len(s.parents) > 0 && a.kbase.pos[s.idx] > 0 {
				e.Probe("child resumed")
			}
		}
	}
}

// positions returns how far every shard's records belong to a checkpoint.
func (k *kstream) positions(jc *snapshotpb.JobCheckpoint) []int {
	e := k.w.e
	a := k.ckAsm[jc.Id]
	if a == nil || a.kbase == nil {
		e.Fail("checkpoint", "checkpoint %d is published without contributions", jc.Id)
	}
	b := newKPos(jc.Id)
	for i := range k.shards {
		b.pos[i] = a.kbase.pos[i]
		if a.kbase.fin[i] {
			b.fin[i] = true
		}
	}
	sc := jc.SourceCheckpoints[0]
	seen := map[int]bool{}
	for _, st := range sc.SplitStates {
		var x kinesispb.Shard
		err := gproto.Unmarshal(st, &x)
		s := k.shard(x.ShardId)
		if err != nil || s == nil || seen[s.idx] {
			e.Fail("checkpoint", "checkpoint %d: split state %q: %v, or of no shard or one with two", jc.Id, st, err)
		}
		seen[s.idx] = true
		b.pos[s.idx] = k.posOf(s, x.Cursor)
	}
	for _, id := range sc.FinishedSplitIds {
		s := k.shard(id)
		if s == nil || seen[s.idx] {
			e.Fail("checkpoint", "checkpoint %d has %q as finished, and with a position", jc.Id, id)
		}
		seen[s.idx] = true
		if !a.kfin[s.idx] {
			e.Fail("finished", "checkpoint %d has %q as finished, but its reader didn't reach the end", jc.Id, id)
		}
		b.fin[s.idx], b.pos[s.idx] = true, len(k.w.src.splits[s.idx])
		e.Probe("checkpoint with a finished shard")
	}
	k.base[jc.Id] = b
	out := make([]int, len(k.shards))
	for i := range out {
		out[i] = b.pos[i]
	}
	return out
}

// payload returns the record in a message of the stream.
func (k *kstream) payload(b []byte) []byte {
	var r protocol.Record
	if err := gproto.Unmarshal(b, &r); err != nil {
		k.w.e.Fail("record", "KeyEventBatch gets %x: %v", b, err)
	}
	return r.Data
}

func genKinesis(prop string) func(r *simrt.Rand, size int) sim.Plan {
	full := genFull(prop)
	return func(r *simrt.Rand, size int) sim.Plan {
		p := full(r, size)
		set := func(k string, v int) { p.P[k] = int64(v) }
		set("kinesis", 1)
		set("splits", r.Range(1, 4))
		set("kpage", r.Pick(1, 2, 3, 100))
		set("kdiscover", r.Pick(100_000, 1_000_000, 10_000_000))
		set("poll", r.Pick(20_000, 50_000, 300_000))
		set("timers", 0)
		set("kempty", r.Pick(0, 0, 1))
		if r.Chance(0.3) { // barriers of one checkpoint at very different times
			set("scskew", r.Pick(500_000, 3_000_000, 10_000_000))
		}
		if p.P["srcerr"] > 0 {
			set("srcerr", r.Pick(10, 50, 150))
		}
		var ops []sim.Op
		for _, op := range p.Ops {
			ops = append(ops, op)
			if r.Chance(0.25) {
				switch x := r.Intn(10); {
				case x < 4:
					ops = append(ops, sim.Op{K: "ksplit", A: []int64{int64(r.Intn(8))}})
				case x < 7:
					ops = append(ops, sim.Op{K: "kmerge", A: []int64{int64(r.Intn(8))}})
				case x < 9:
					ops = append(ops, sim.Op{K: "kexpire"})
				default:
					ops = append(ops, sim.Op{K: "ktrim"})
				}
			}
		}
		p.Ops = ops
		return p
	}
}
