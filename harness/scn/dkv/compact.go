package dkvscn

import (
	"bytes"
	"encoding/json"
	"fmt"
	"runtime"
	"slices"
	"sort"
	"strings"
	"sync"
	"time"

	"reduction.dev/reduction/dkv/kv"
	"reduction.dev/reduction/dkv/sst"
	"reduction.dev/reduction/dkv/storage"
	"reduction.dev/reduction/zz_verif/sim"
	"reduction.dev/reduction/zz_verif/simrt"
)

func init() {
	sim.Register(&sim.Property{
		ID: "C18", Level: "exploration",
		Scenarios: []*sim.Scenario{
			{Name: "db", Weight: 2, Gen: genDBCompact, Run: runDBCompact, SimLimit: 24 * time.Hour, StallClass: "stall", BudgetClass: "livelock", MaxSteps: 60_000_000},
			{Name: "compact", Weight: 3, Gen: genCompact, Run: runCompact, SimLimit: 24 * time.Hour, StallClass: "stall", BudgetClass: "livelock", MaxSteps: 60_000_000},
		},
		Real: []string{"sst.Compactor, sst.LevelList, sst.ChangeSet, sst.TableWriter, sst.Table, kv.MergeEntries", "storage.LocalFilesystem, storage.MemoryFilesystem, storage.S3FileSystem + objstore.MemoryS3Service"}, Stub: append(dkvStub, "in scenario compact: the flush and compaction loops of dkv.DB (scenario db runs the real ones)"),
		Rule: "A level list starts from an arbitrary valid layout (built table by table, or by earlier compactions, or reopened from its document); the compactor runs with arbitrary settings while flushes keep adding level-0 tables, with slow and failing disks; after every applied change set each key's lookup, scans and the layout are compared with a map of the writes.",
	})
}

func genCompact(r *simrt.Rand, size int) sim.Plan {
	p := sim.Plan{P: map[string]int64{}}
	diskParams(r, &p)
	p.P["style"] = int64(r.Pick(0, 0, 1, 1, 1, 2, 2, 2, 3, 3, 3, 4))
	p.P["keys"] = int64(r.Pick(1, 3, 8, 20, 40))
	p.P["kseed"] = int64(r.Intn(1 << 30))
	p.P["vmax"] = int64(r.Pick(0, 8, 40, 200))
	p.P["levels"] = int64(r.Pick(2, 3, 4, 6))
	p.P["l0"] = int64(r.Pick(0, 1, 2, 3, 5))
	p.P["sap"] = int64(r.Pick(0, 1, 20, 50, 100, 200, 1000, 1<<30))
	p.P["small"] = int64(r.Pick(0, 1, 100, 1000, 1<<28))
	p.P["mult"] = int64(r.Pick(1, 2, 10))
	p.P["target"] = int64(r.Pick(1, 60, 150, 400, 1500, 1<<20))
	n := []int{4, 10, 25}[size]
	p.Add("init", int64(r.Intn(1<<30)), int64(r.Intn(4)), int64(r.Range(0, 60)))
	for i := 0; i < n; i++ {
		switch r.Intn(10) {
		case 0, 1, 2, 3:
			// a flush of up to n writes
			p.Add("flush", int64(r.Intn(1<<30)), int64(r.Range(1, r.Pick(2, 10, 40))))
		case 4, 5, 6, 7:
			// up to n compaction steps, m flushes meanwhile
			p.Add("compact", int64(r.Range(1, 6)), int64(r.Pick(0, 0, 1, 2, 3)), int64(r.Intn(1<<30)))
		case 8:
			p.Add("reopen")
		case 9:
			p.Add("check")
		}
	}
	p.Add("fix")
	return p
}

type compactWorld struct {
	e    *sim.Env
	p    *sim.Plan
	d    *Disk
	keys [][]byte
	m    *model
	fs   storage.FileSystem
	tw   *sst.TableWriter
	c    *sst.Compactor
	seq  uint64

	mu  sync.Mutex
	ll  *sst.LevelList
	old []*sst.LevelList // as in a database's checkpoints
	n   int              // applied change sets
}

// flush writes some operations as one level-0 table.
func (w *compactWorld) flush(seed uint64, n int) {
	r := simrt.NewRand(seed ^ 0x666c)
	latest := map[string]entry{}
	for i := 0; i < n; i++ {
		w.seq++
		k := w.keys[r.Intn(len(w.keys))]
		x := entry{k: k, seq: w.seq}
		if r.Chance(0.3) {
			x.del = true
		} else {
			x.v = Value(int(w.seq), r.Intn(w.p.Int("vmax")+1))
		}
		latest[string(k)] = x
	}
	var es []entry
	for _, x := range latest {
		es = append(es, x)
	}
	sort.Slice(es, func(i, j int) bool { return bytes.Compare(es[i].k, es[j].k) < 0 })
	t := w.write(es)
	w.mu.Lock()
	cs := &sst.ChangeSet{}
	cs.AddTables(0, t)
	w.ll = w.ll.NewWithChangeSet(cs)
	for _, x := range es {
		if x.del {
			delete(w.m.m, string(x.k))
		} else {
			w.m.m[string(x.k)] = x.v
		}
	}
	w.mu.Unlock()
	w.e.Log("flush of %d entries", len(es))
}

func (w *compactWorld) write(es []entry) *sst.Table {
	for {
		var t *sst.Table
		var err error
		func() {
			defer w.survive()
			t, err = w.tw.Write(seqOf(es))
		}()
		if err == nil && t != nil {
			return t
		}
	}
}

// survive swallows panics that report an injected disk error.
func (w *compactWorld) survive() {
	if v := recover(); v != nil && !(w.d.Errs > 0 && errIsDisk(v)) {
		panic(v)
	}
}

// initial builds an arbitrary valid layout below level 0: every key has at most
// one version per level and newer versions are above older ones.
func (w *compactWorld) initial(seed uint64, kind, n int) {
	levels := w.p.Int("levels")
	w.ll = sst.NewEmptyLevelList(levels)
	if kind == 0 {
		return
	}
	r := simrt.NewRand(seed ^ 0x6c6c)
	byLevel := make([][]entry, levels)
	place := map[string]int{} // the level of a key's newest version so far
	for i := 0; i < n; i++ {
		k := w.keys[r.Intn(len(w.keys))]
		top, ok := place[string(k)]
		if !ok {
			top = levels
		}
		if top <= 1 {
			continue
		}
		l := top - 1
		if !r.Chance(0.6) {
			l = r.Range(1, top-1)
		}
		w.seq++
		x := entry{k: k, seq: w.seq}
		if r.Chance(0.3) {
			x.del = true
			delete(w.m.m, string(k))
		} else {
			x.v = Value(int(w.seq), r.Intn(w.p.Int("vmax")+1))
			w.m.m[string(k)] = x.v
		}
		place[string(k)] = l
		byLevel[l] = append(byLevel[l], x)
	}
	for l := 1; l < levels; l++ {
		es := byLevel[l]
		sort.Slice(es, func(i, j int) bool { return bytes.Compare(es[i].k, es[j].k) < 0 })
		for len(es) > 0 {
			n := len(es)
			if kind > 1 {
				n = r.Range(1, len(es))
			}
			cs := &sst.ChangeSet{}
			cs.AddTables(l, w.write(es[:n]))
			w.ll = w.ll.NewWithChangeSet(cs)
			es = es[n:]
		}
	}
}

// step runs one compaction step like the database does.
func (w *compactWorld) step() (more bool) {
	w.mu.Lock()
	ll := w.ll
	w.mu.Unlock()
	var cs *sst.ChangeSet
	var err error
	died := true
	errs := w.d.Errs
	func() {
		defer w.survive()
		cs, err = w.c.Compact(ll)
		died = false
	}()
	if died {
		w.e.Fault("compaction panicked on a disk error")
		return false
	}
	if err != nil {
		if w.d.Errs == errs {
			w.e.Fail("compaction-error", "Compact failed: %v", err)
		}
		w.e.Fault("compaction failed")
		return false
	}
	if cs == nil {
		return false
	}
	w.mu.Lock()
	w.old = append(w.old, w.ll)
	w.ll = w.ll.NewWithChangeSet(cs)
	w.n++
	w.mu.Unlock()
	w.e.Probe("compaction step")
	w.e.Log("compaction step -> %v", w.ll.TableCounts())
	return true
}

func (w *compactWorld) check(note string) {
	e := w.e
	errP := w.d.ErrP
	w.d.ErrP = 0
	defer func() { w.d.ErrP = errP }()
	w.mu.Lock()
	ll, m := w.ll, w.m.clone()
	w.mu.Unlock()
	for _, k := range w.keys {
		ent, err := ll.Get(k)
		if err != nil && err != kv.ErrNotFound {
			e.Fail("lookup", "Get(%s) %s failed: %v; layout: %s", q(k), note, err, layout(ll))
		}
		v, ok := m.m[string(k)]
		gone := err == kv.ErrNotFound || ent.IsDelete()
		switch {
		case ok && gone:
			e.Fail("lookup", "Get(%s) %s reports the key absent, its latest value is %s; layout: %s", q(k), note, q(v), layout(ll))
		case !ok && !gone:
			e.Fail("lookup", "Get(%s) %s returns %s, the key is deleted or was never written; layout: %s", q(k), note, q(ent.Value()), layout(ll))
		case ok && !bytes.Equal(ent.Value(), v):
			e.Fail("lookup", "Get(%s) %s returns %s, its latest value is %s; layout: %s", q(k), note, q(ent.Value()), q(v), layout(ll))
		}
	}
	prefixes := [][]byte{nil}
	for i, k := range w.keys {
		if i%5 == 0 {
			prefixes = append(prefixes, cutPrefix(k, 1), cutPrefix(k, 3), k)
		}
	}
	for _, pre := range prefixes {
		want := m.prefix(pre)
		i := 0
		var err error
		for ent := range ll.ScanPrefix(pre, &err) {
			if ent.IsDelete() {
				continue
			}
			if i >= len(want) || string(ent.Key()) != want[i] || !bytes.Equal(ent.Value(), m.m[want[i]]) {
				e.Fail("scan", "ScanPrefix(%s) %s yields %s at position %d, expected %s; layout: %s", q(pre), note, show(ent), i, wantAt(want, m, i), layout(ll))
			}
			i++
		}
		if err != nil {
			e.Fail("scan", "ScanPrefix(%s) %s failed: %v", q(pre), note, err)
		}
		if i < len(want) {
			e.Fail("scan", "ScanPrefix(%s) %s omits %s; layout: %s", q(pre), note, wantAt(want, m, i), layout(ll))
		}
	}
	w.valid(ll, note)
}

func wantAt(want []string, m *model, i int) string {
	if i >= len(want) {
		return "the end"
	}
	return q([]byte(want[i])) + "=" + q(m.m[want[i]])
}

// valid checks the layout: levels below 0 sorted and disjoint, newer data never
// beneath older data of the same key.
func (w *compactWorld) valid(ll *sst.LevelList, note string) {
	e := w.e
	above := map[string]uint64{} // lowest seqNum of a key in the levels above
	for level := range ll.DescendLevels() {
		here := map[string][2]uint64{}
		var prev []byte
		first := true
		for t := range level.AllTables() {
			doc := t.Document()
			if level.Num > 0 && !first && bytes.Compare(prev, doc.StartKey) >= 0 {
				e.Fail("layout", "%s tables of level %d are not sorted and disjoint: one ends with %s, the next starts with %s; layout: %s", note, level.Num, q(prev), q(doc.StartKey), layout(ll))
			}
			first, prev = false, doc.EndKey
			var err error
			var last []byte
			n := 0
			for ent := range t.ScanPrefix(nil, &err) {
				if n > 0 && bytes.Compare(last, ent.Key()) >= 0 {
					e.Fail("layout", "%s a table of level %d holds %s after %s", note, level.Num, q(ent.Key()), q(last))
				}
				if bytes.Compare(ent.Key(), doc.StartKey) < 0 || bytes.Compare(ent.Key(), doc.EndKey) > 0 {
					e.Fail("layout", "%s a table of level %d holds key %s outside its range %s..%s", note, level.Num, q(ent.Key()), q(doc.StartKey), q(doc.EndKey))
				}
				last = slices.Clone(ent.Key())
				n++
				if s, ok := above[string(last)]; ok && ent.SeqNum() > s {
					e.Fail("layout", "%s level %d holds %s beneath the older version @%d; layout: %s", note, level.Num, show(ent), s, layout(ll))
				}
				x, ok := here[string(last)]
				if !ok {
					x = [2]uint64{ent.SeqNum(), ent.SeqNum()}
				}
				here[string(last)] = [2]uint64{min(x[0], ent.SeqNum()), max(x[1], ent.SeqNum())}
			}
			if err != nil {
				e.Fail("layout", "%s scanning a table of level %d failed: %v", note, level.Num, err)
			}
		}
		for k, x := range here {
			if s, ok := above[k]; !ok || x[0] < s {
				above[k] = x[0]
			}
		}
	}
}

func layout(ll *sst.LevelList) string {
	var sb strings.Builder
	for level := range ll.DescendLevels() {
		fmt.Fprintf(&sb, "L%d[", level.Num)
		n := 0
		for t := range level.AllTables() {
			if n++; n > 6 {
				sb.WriteString("…")
				break
			}
			d := t.Document()
			fmt.Fprintf(&sb, "(%s..%s @%d-%d)", q(d.StartKey), q(d.EndKey), d.StartSeqNum, d.EndSeqNum)
		}
		sb.WriteString("] ")
	}
	return sb.String()
}

func runCompact(e *sim.Env) {
	p := e.Plan
	w := &compactWorld{e: e, p: p, d: NewDisk(e, p), m: newModel()}
	w.keys = Keys(p.Int("style"), p.Int("keys"), uint64(p.Int("kseed")))
	w.d.ErrOps = map[string]bool{"write": true, "sync": true, "rename": true, "read": true}
	w.fs = w.d.FS("c")
	w.tw = sst.NewTableWriter(w.fs, 0)
	w.c = &sst.Compactor{
		L0RunNumCompactionTrigger: p.Int("l0"), MaxSizeAmplificationPercent: p.Int("sap"),
		SmallestLevelSize: int64(p.Int("small")), LevelSizeMultiplier: p.Int("mult"),
		TableWriter: w.tw, TargetTableSize: int64(p.Int("target")),
	}
	errP := float64(p.Int("errs")) / 1000
	w.ll = sst.NewEmptyLevelList(p.Int("levels"))
	for _, op := range p.Ops {
		switch op.K {
		case "init":
			w.initial(uint64(op.Int(0)), op.Int(1), op.Int(2))
			w.check("initially")
		case "flush":
			w.flush(uint64(op.Int(0)), op.Int(1))
		case "compact":
			w.d.ErrP = errP
			var wg sync.WaitGroup
			wg.Add(1)
			e.Go(func() {
				defer wg.Done()
				for i := 0; i < op.Int(0); i++ {
					if !w.step() {
						return
					}
				}
			})
			for i := 0; i < op.Int(1); i++ {
				time.Sleep(time.Duration(p.Int("lat")) * time.Microsecond * time.Duration(1+op.Int(2)>>i&3))
				w.flush(uint64(op.Int(2)+i), 1+op.Int(2)%7)
				e.Probe("flush during compaction")
			}
			wg.Wait()
			w.d.ErrP = 0
			w.check("after compaction steps")
		case "reopen":
			b, err := json.Marshal(w.ll.Document())
			if err != nil {
				e.Fail("layout", "marshalling the level list: %v", err)
			}
			var doc [][]sst.TableDocument
			if err := json.Unmarshal(b, &doc); err != nil {
				e.Fail("layout", "unmarshalling the level list: %v", err)
			}
			w.old = append(w.old, w.ll)
			w.ll = sst.NewLevelListFromDocument(w.d.FS("c2"), keepOwnership{}, doc)
			w.check("after reopening")
		case "check":
			w.check("between steps")
		case "fix":
			for i := 0; w.step(); i++ {
				w.check("after a compaction step")
				if i > 60 {
					break
				}
			}
			w.check("after compaction")
		}
	}
	runtime.KeepAlive(w.old)
	if w.n == 0 {
		e.Trivial()
	}
}
