package dkvscn

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"iter"
	"runtime"
	"slices"
	"sort"
	"sync"
	"time"

	"reduction.dev/reduction/dkv/bloom"
	"reduction.dev/reduction/dkv/kv"
	"reduction.dev/reduction/dkv/recovery"
	"reduction.dev/reduction/dkv/sst"
	"reduction.dev/reduction/dkv/wal"
	"reduction.dev/reduction/zz_verif/sim"
	"reduction.dev/reduction/zz_verif/simos"
	"reduction.dev/reduction/zz_verif/simrt"
)

func init() {
	sim.Register(&sim.Property{
		ID: "C17", Level: "exploration",
		Scenarios: []*sim.Scenario{
			{Name: "tables", Weight: 3, Gen: genTables, Run: runTables, SimLimit: 24 * time.Hour, StallClass: "stall", BudgetClass: "livelock", MaxSteps: 40_000_000},
			{Name: "wal", Weight: 2, Gen: genWAL, Run: runWAL, SimLimit: 24 * time.Hour, StallClass: "stall", BudgetClass: "livelock", MaxSteps: 40_000_000},
		},
		Real: []string{"sst.TableWriter, sst.Table, search index, footer, bloom filter", "wal.Writer, wal.Reader, recovery.CheckpointList", "storage.LocalFilesystem, storage.MemoryFilesystem, storage.S3FileSystem + objstore.MemoryS3Service"}, Stub: dkvStub,
		Rule: "Several writers write runs of entries as whole and split tables on one disk with latency, errors, split writes and power loss; the tables are read by point lookups, prefix scans and after reopening from their JSON descriptors by concurrent readers, and compared entry for entry. Write-ahead logs: appends, cuts, rotations and concurrent truncations; every saved log is replayed from its start marker and compared with the operations.",
	})
}

// entry is the harness's own kv.Entry.
type entry struct {
	k, v []byte
	seq  uint64
	del  bool
}

func (e entry) Key() []byte    { return e.k }
func (e entry) Value() []byte  { return e.v }
func (e entry) SeqNum() uint64 { return e.seq }
func (e entry) IsDelete() bool { return e.del }

func (e entry) String() string {
	if e.del {
		return fmt.Sprintf("%s deleted @%d", q(e.k), e.seq)
	}
	return fmt.Sprintf("%s=%s @%d", q(e.k), q(e.v), e.seq)
}

func same(a kv.Entry, e entry) bool {
	return bytes.Equal(a.Key(), e.k) && a.IsDelete() == e.del && a.SeqNum() == e.seq && (e.del || bytes.Equal(a.Value(), e.v))
}

func show(a kv.Entry) string {
	return entry{a.Key(), a.Value(), a.SeqNum(), a.IsDelete()}.String()
}

func diskParams(r *simrt.Rand, p *sim.Plan) {
	p.P["fs"] = int64(r.Pick(0, 0, 0, 1, 2))
	p.P["latp"] = int64(r.Pick(0, 0, 10, 100))
	p.P["lat"] = int64(r.Pick(10, 1000, 50_000))
	if r.Chance(0.2) {
		p.P["errs"] = int64(r.Pick(2, 10))
		p.P["fs"] = 0
	}
}

func genTables(r *simrt.Rand, size int) sim.Plan {
	p := sim.Plan{P: map[string]int64{}}
	diskParams(r, &p)
	p.P["style"] = int64(r.Pick(0, 0, 1, 1, 1, 2, 2, 2, 3, 3, 3, 4))
	p.P["kseed"] = int64(r.Intn(1 << 30))
	p.P["power"] = int64(r.Intn(2))
	n := r.Range(1, []int{2, 4, 6}[size])
	for i := 0; i < n; i++ {
		// run: entries, target size (0 = whole), largest value, seed
		cnt := r.Pick(0, 1, 2, 5, 15, 16, 17, 31, 32, 33, 48, 100, 200)
		if size == 2 && r.Chance(0.1) {
			cnt = r.Range(300, 3000)
		}
		vmax := r.Pick(0, 1, 8, 40, 200)
		if r.Chance(0.1) {
			vmax = 5000
		}
		p.Add("run", int64(cnt), int64(r.Pick(0, 0, 1, 30, 100, 400, 1000, 1600, 5000, 20000)), int64(vmax), int64(r.Intn(1<<30)))
	}
	return p
}

// makeRun draws a key-ordered run of entries.
func makeRun(p *sim.Plan, n, vmax int, seed uint64) []entry {
	r := simrt.NewRand(seed ^ 0x72756e)
	keys := Keys(p.Int("style"), n, uint64(p.Int("kseed"))^seed)
	if p.Int("style") == 2 {
		// the universe of operator-like keys is small
		keys = keys[:min(n, len(keys))]
	}
	sort.Slice(keys, func(i, j int) bool { return bytes.Compare(keys[i], keys[j]) < 0 })
	out := make([]entry, len(keys))
	seqs := r.Perm(len(keys) + 5)
	for i, k := range keys {
		e := entry{k: k, seq: uint64(seqs[i]) + 1}
		if r.Chance(0.02) {
			e.seq += 1 << 40
		}
		switch {
		case r.Chance(0.2):
			e.del = true
		default:
			e.v = r.Bytes(r.Intn(vmax + 1))
		}
		out[i] = e
	}
	return out
}

func seqOf(es []entry) iter.Seq[kv.Entry] {
	return func(yield func(kv.Entry) bool) {
		for _, e := range es {
			if !yield(e) {
				return
			}
		}
	}
}

func runTables(e *sim.Env) {
	p := e.Plan
	d := NewDisk(e, p)
	d.ErrP = float64(p.Int("errs")) / 1000
	d.ErrOps = map[string]bool{"write": true, "sync": true, "rename": true, "open": false}
	fs := d.FS("t")
	tw := sst.NewTableWriter(fs, int64(p.Int("kseed")%3))
	type written struct {
		es     []entry
		tables []*sst.Table
		target int
	}
	out := make([]*written, len(p.Ops))
	var wg sync.WaitGroup
	for i, op := range p.Ops {
		es := makeRun(p, op.Int(0), op.Int(2), uint64(op.Int(3)))
		wg.Add(1)
		e.Go(func() {
			defer wg.Done()
			defer func() {
				if v := recover(); v != nil {
					if d.Errs > 0 && errIsDisk(v) {
						e.Fault("write panicked")
						return
					}
					panic(v)
				}
			}()
			errs := d.Errs
			w := &written{es: es, target: op.Int(1)}
			var err error
			if w.target == 0 {
				var t *sst.Table
				t, err = tw.Write(seqOf(es))
				w.tables = []*sst.Table{t}
			} else {
				w.tables, err = tw.WriteRun(seqOf(es), uint64(w.target))
			}
			if err != nil {
				if d.Errs == errs {
					e.Fail("write-error", "writing a run of %d entries failed: %v", len(es), err)
				}
				e.Fault("write failed")
				return
			}
			out[i] = w
		})
	}
	wg.Wait()
	d.ErrP = 0
	if p.Int("power") == 1 && p.Int("fs") == 0 {
		simos.PowerLoss()
		e.Fault("power loss")
	}
	uris := map[string]bool{}
	checked := 0
	for _, w := range out {
		if w == nil {
			continue
		}
		for _, t := range w.tables {
			if uris[t.URI()] {
				e.Fail("same-file", "two tables were written to %s", t.URI())
			}
			uris[t.URI()] = true
		}
		checked++
		layoutOK(e, w.tables, w.es, w.target)
		wg.Add(2)
		e.Go(func() { defer wg.Done(); checkTables(e, w.tables, w.es, "") })
		e.Go(func() {
			defer wg.Done()
			// Reopened elsewhere from the descriptors.
			fs2 := d.FS("elsewhere")
			var re []*sst.Table
			for _, t := range w.tables {
				b, err := json.Marshal(t.Document())
				if err != nil {
					e.Fail("descriptor", "marshalling the descriptor of %s: %v", t.URI(), err)
				}
				var doc sst.TableDocument
				if err := json.Unmarshal(b, &doc); err != nil {
					e.Fail("descriptor", "unmarshalling the descriptor of %s: %v", t.URI(), err)
				}
				re = append(re, sst.NewTableFromDocument(fs2, keepOwnership{}, doc))
			}
			layoutOK(e, re, w.es, w.target)
			checkTables(e, re, w.es, " reopened from its descriptor")
			// One table is read by several goroutines at once.
			if len(re) > 0 {
				d3 := re[len(re)-1].Document()
				t3 := sst.NewTableFromDocument(fs2, keepOwnership{}, d3)
				var wg3 sync.WaitGroup
				for k := 0; k < 2; k++ {
					wg3.Add(1)
					e.Go(func() { defer wg3.Done(); checkTables(e, []*sst.Table{t3}, tail(w.es, re), " read concurrently") })
				}
				wg3.Wait()
			}
		})
		wg.Wait()
		bloomOK(e, w.es)
	}
	if checked == 0 {
		e.Trivial()
	}
	runtime.KeepAlive(out)
}

// tail is the part of a run in its last table.
func tail(es []entry, re []*sst.Table) []entry {
	last := re[len(re)-1].Document()
	i := sort.Search(len(es), func(i int) bool { return bytes.Compare(es[i].k, last.StartKey) >= 0 })
	if len(re) == 1 {
		return es
	}
	return es[i:]
}

// layoutOK checks split tables: disjoint ordered ranges that hold the keys.
func layoutOK(e *sim.Env, ts []*sst.Table, es []entry, target int) {
	if target == 0 {
		return
	}
	if len(es) > 0 && len(ts) == 0 {
		e.Fail("split", "a run of %d entries was split into no tables", len(es))
	}
	var total, largest int
	for _, x := range es {
		n := len(x.k) + len(x.v)
		total += n
		largest = max(largest, n)
	}
	for i, t := range ts {
		doc := t.Document()
		if bytes.Compare(doc.StartKey, doc.EndKey) > 0 {
			e.Fail("split", "table %d of the run has start key %s after its end key %s", i, q(doc.StartKey), q(doc.EndKey))
		}
		if i > 0 {
			prev := ts[i-1].Document()
			if bytes.Compare(prev.EndKey, doc.StartKey) >= 0 {
				e.Fail("split", "tables %d and %d of the run overlap: %s..%s and %s..%s", i-1, i, q(prev.StartKey), q(prev.EndKey), q(doc.StartKey), q(doc.EndKey))
			}
		}
		// Size-bounded with a generous allowance for the last table and overheads.
		if n := int(doc.EntriesSize); n > 4*target+4*(largest+sst.EntryOverheadSize) {
			e.Fail("split", "table %d of the run holds %d bytes for a target size of %d", i, n, target)
		}
	}
}

func checkTables(e *sim.Env, ts []*sst.Table, es []entry, note string) {
	find := func(k []byte) *sst.Table {
		if len(ts) == 1 {
			return ts[0]
		}
		for _, t := range ts {
			if t.RangeContainsKey(k) {
				return t
			}
		}
		return nil
	}
	// entry for entry
	scanOK(e, ts, es, nil, note)
	step := 1 + len(es)/200
	for i := 0; i < len(es); i += step {
		x := es[i]
		t := find(x.k)
		if t == nil {
			e.Fail("lookup", "no table%s of the run has key %s in its range", note, q(x.k))
		}
		got, err := t.Get(x.k)
		if err != nil {
			e.Fail("lookup", "Get(%s)%s failed: %v; the entry written is %s", q(x.k), note, err, x)
		}
		if !same(got, x) {
			e.Fail("lookup", "Get(%s)%s returns %s; the entry written is %s", q(x.k), note, show(got), x)
		}
		for _, absent := range [][]byte{append(slices.Clone(x.k), 0), cutPrefix(x.k, len(x.k)-1)} {
			j := sort.Search(len(es), func(i int) bool { return bytes.Compare(es[i].k, absent) >= 0 })
			if j < len(es) && bytes.Equal(es[j].k, absent) {
				continue
			}
			if t := find(absent); t != nil {
				if got, err := t.Get(absent); err != kv.ErrNotFound {
					if err != nil {
						e.Fail("lookup", "Get(%s)%s of a key that isn't there failed: %v", q(absent), note, err)
					}
					e.Fail("lookup", "Get(%s)%s returns %s; the key was never written", q(absent), note, show(got))
				}
			}
		}
	}
	for i := 0; i < len(es); i += 1 + len(es)/6 {
		for n := 0; n <= len(es[i].k) && n < 6; n++ {
			scanOK(e, ts, es, es[i].k[:n], note)
		}
	}
	scanOK(e, ts, es, []byte("nothing has this prefix"), note)
}

func scanOK(e *sim.Env, ts []*sst.Table, es []entry, prefix []byte, note string) {
	var want []entry
	for _, x := range es {
		if bytes.HasPrefix(x.k, prefix) {
			want = append(want, x)
		}
	}
	i := 0
	for _, t := range ts {
		if len(ts) > 1 && !t.RangeContainsPrefix(prefix) && len(prefix) > 0 {
			continue
		}
		var err error
		for got := range t.ScanPrefix(prefix, &err) {
			if i >= len(want) {
				e.Fail("scan", "ScanPrefix(%s)%s yields %s after all %d entries", q(prefix), note, show(got), len(want))
			}
			if !same(got, want[i]) {
				e.Fail("scan", "ScanPrefix(%s)%s yields %s at position %d; the entry written is %s", q(prefix), note, show(got), i, want[i])
			}
			i++
		}
		if err != nil {
			e.Fail("scan", "ScanPrefix(%s)%s failed: %v", q(prefix), note, err)
		}
	}
	if i < len(want) {
		e.Fail("scan", "ScanPrefix(%s)%s omits %s (yielded %d of %d entries)", q(prefix), note, want[i], i, len(want))
	}
}

func bloomOK(e *sim.Env, es []entry) {
	f := bloom.NewFilter(uint32(64+len(es)), 3)
	for _, x := range es {
		f.Add(x.k)
	}
	var buf bytes.Buffer
	f.Encode(&buf)
	f2 := bloom.Decode(&buf)
	for _, x := range es {
		if !f.MightHave(x.k) || !f2.MightHave(x.k) {
			e.Fail("bloom", "the bloom filter denies key %s which was added", q(x.k))
		}
	}
}

// ---- write-ahead log ----

func genWAL(r *simrt.Rand, size int) sim.Plan {
	p := sim.Plan{P: map[string]int64{}}
	diskParams(r, &p)
	p.P["style"] = int64(r.Pick(0, 0, 1, 1, 1, 2, 2, 2, 3, 3, 3, 4))
	p.P["keys"] = int64(r.Pick(1, 5, 20))
	p.P["kseed"] = int64(r.Intn(1 << 30))
	p.P["first"] = int64(r.Pick(0, 0, 1, 7, 1000))
	p.P["vmax"] = int64(r.Pick(0, 5, 60, 300))
	p.P["max"] = int64(r.Pick(1, 100, 1000, 1<<20))
	p.P["power"] = int64(r.Intn(2))
	n := []int{15, 50, 150}[size]
	for i := 0; i < n; i++ {
		if r.Chance(0.65) {
			genWrite(r, &p)
			continue
		}
		switch r.Intn(10) {
		case 0, 1, 2, 3:
			p.Add("cut")
		case 4, 5:
			p.Add("trunc", int64(r.Intn(101)))
		case 6, 7:
			p.Add("rotate", int64(r.Intn(101)))
		case 8:
			p.Add("sleep", int64(r.Intn(p.Int("lat")*4+1)))
		case 9:
			p.Add("btrunc", int64(r.Intn(101)))
		}
	}
	p.Add("rotate", int64(r.Intn(101)))
	return p
}

func runWAL(e *sim.Env) {
	p := e.Plan
	d := NewDisk(e, p)
	d.ErrP = float64(p.Int("errs")) / 1000
	d.ErrOps = map[string]bool{"write": true, "sync": true, "rename": true}
	fs := d.FS("w")
	keys := Keys(p.Int("style"), p.Int("keys"), uint64(p.Int("kseed")))
	first := uint64(p.Int("first"))
	w := wal.NewWriter(fs, p.Int("kseed")%3, uint64(p.Int("max")))
	var ops []entry // everything appended, ops[i].seq == first+1+i
	last := first
	lo := first // the highest seqNum truncated
	var mu sync.Mutex
	var wg sync.WaitGroup
	var saved []func()
	replays := 0
	for i, op := range p.Ops {
		switch op.K {
		case "put", "del":
			last++
			x := entry{k: keys[op.Int(0)], seq: last, del: op.K == "del"}
			if x.del {
				w.Delete(x.k, last)
			} else {
				x.v = Value(i, op.Int(1))
				w.Put(x.k, x.v, last)
			}
			ops = append(ops, x)
		case "cut":
			w.Cut()
		case "trunc", "btrunc":
			if last <= lo {
				continue
			}
			s := lo + (last-lo)*uint64(op.Int(0))/100
			lo = s
			if op.K == "trunc" {
				w.Truncate(s)
				continue
			}
			// In the background as a flush does, excluded from a rotation.
			wg.Add(1)
			e.Go(func() {
				defer wg.Done()
				time.Sleep(time.Duration(op.Int(0)) * time.Microsecond)
				mu.Lock()
				defer mu.Unlock()
				w.Truncate(s)
			})
		case "sleep":
			time.Sleep(time.Duration(op.Int(0)) * time.Microsecond)
		case "rotate":
			mu.Lock()
			prev := w
			after := lo + (last-lo)*uint64(op.Int(0))/100
			h := prev.Handle(after)
			w = prev.Rotate(fs)
			mu.Unlock()
			want := slices.Clone(ops[after-first:])
			errs := d.Errs
			wg.Add(1)
			e.Go(func() {
				defer wg.Done()
				if err := prev.Save(); err != nil {
					if d.Errs == errs {
						e.Fail("wal-save", "saving the log failed: %v", err)
					}
					e.Fault("save failed")
					return
				}
				doc, _ := json.Marshal(h.Document())
				saved = append(saved, func() {
					var hd wal.HandleDocument
					if err := json.Unmarshal(doc, &hd); err != nil {
						e.Fail("descriptor", "unmarshalling the log's descriptor: %v", err)
					}
					fs2 := d.FS("elsewhere")
					j := 0
					for got, err := range wal.NewReader(fs2, wal.NewHandle(fs2, hd)).All() {
						if err != nil {
							e.Fail("replay", "replaying %s after %d fails at operation %d of %d: %v", hd.URI, after, j, len(want), err)
						}
						if j >= len(want) {
							e.Fail("replay", "replaying %s after %d yields %s after all %d operations", hd.URI, after, show(got), len(want))
						}
						if !same(got, want[j]) {
							e.Fail("replay", "replaying %s after %d yields %s at position %d; the operation appended is %s", hd.URI, after, show(got), j, want[j])
						}
						j++
					}
					if j < len(want) {
						e.Fail("replay", "replaying %s after %d omits %s (%d of %d operations)", hd.URI, after, want[j], j, len(want))
					}
					if len(want) > 0 {
						replays++
					}
				})
			})
		}
	}
	wg.Wait()
	d.ErrP = 0
	if p.Int("power") == 1 && p.Int("fs") == 0 {
		simos.PowerLoss()
		e.Fault("power loss")
	}
	for _, f := range saved {
		f()
	}
	if replays == 0 {
		e.Trivial()
	}
}

var _ = errors.Is
var _ = recovery.CheckpointHandle{}
