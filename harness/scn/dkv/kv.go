package dkvscn

import (
	"bytes"
	"sort"
	"strings"
	"time"

	"reduction.dev/reduction/dkv"
	"reduction.dev/reduction/dkv/kv"
	"reduction.dev/reduction/dkv/recovery"
	"reduction.dev/reduction/dkv/storage"
	"reduction.dev/reduction/zz_verif/sim"
	"reduction.dev/reduction/zz_verif/simrt"
)

var dkvReal = []string{"dkv.DB and everything below it (memtable, ziptree, sst, compaction, wal, recovery, bg)", "storage.LocalFilesystem, storage.MemoryFilesystem, storage.S3FileSystem + objstore.MemoryS3Service"}
var dkvStub = []string{"the kernel's file system (simos), extra disk latency and errors", "garbage collector timing of table cleanups"}

func init() {
	sim.Register(&sim.Property{
		ID: "C07", Level: "exploration",
		Scenarios: []*sim.Scenario{
			{Name: "kv", Weight: 1, Gen: genKV, Run: runKV, SimLimit: 24 * time.Hour, StallClass: "stall", BudgetClass: "livelock", MaxSteps: 40_000_000},
		},
		Real: dkvReal, Stub: dkvStub,
		Rule: "One foreground goroutine writes, deletes, reads and scans a database with small memtables, tables and triggers while flush and compaction tasks run in the background; every read is compared with a map.",
	})
}

// dbParams draws the database configuration.
func dbParams(r *simrt.Rand, p *sim.Plan) {
	p.P["mem"] = int64(r.Pick(1, 40, 100, 250, 600, 2000, 1<<20))
	p.P["target"] = int64(r.Pick(1, 60, 150, 400, 1500, 1<<20))
	p.P["wal"] = int64(r.Pick(1, 80, 300, 1000, 1<<20, 1<<20))
	p.P["levels"] = int64(r.Pick(1, 2, 5))
	p.P["l0"] = int64(r.Pick(1, 2, 2, 3, 5, 100))
	p.P["fs"] = int64(r.Pick(0, 0, 0, 1, 2))
	p.P["latp"] = int64(r.Pick(0, 10, 100, 500, 1000))
	p.P["lat"] = int64(r.Pick(10, 1000, 50_000))
	p.P["style"] = int64(r.Pick(0, 0, 1, 1, 1, 2, 2, 2, 3, 3, 3, 4))
	p.P["keys"] = int64(r.Pick(1, 3, 8, 20, 60))
	p.P["vmax"] = int64(r.Pick(0, 8, 40, 200))
	p.P["kseed"] = int64(r.Intn(1 << 30))
	if p.Int("target") <= 60 && p.Int("mem") <= 100 && p.Int("keys") > 20 {
		p.P["keys"] = 20 // every compaction rewrites the whole table set
	}
}

func dbOptions(p *sim.Plan, fs storage.FileSystem) dkv.DBOptions {
	return dkv.DBOptions{
		FileSystem: fs, MemTableSize: uint64(p.Int("mem")), TargetFileSize: uint64(p.Int("target")),
		MaxWALSize: uint64(p.Int("wal")), NumLevels: p.Int("levels"), L0TableNumCompactionTrigger: p.Int("l0"),
	}
}

// writes yields a put or delete op.
func genWrite(r *simrt.Rand, p *sim.Plan) {
	k := int64(r.Intn(p.Int("keys")))
	if r.Chance(0.25) {
		p.Add("del", k)
	} else {
		p.Add("put", k, int64(r.Intn(p.Int("vmax")+1)))
	}
}

func genKV(r *simrt.Rand, size int) sim.Plan {
	p := sim.Plan{P: map[string]int64{}}
	dbParams(r, &p)
	n := []int{20, 80, 300}[size]
	p.P["gc"] = int64(r.Pick(0, 0, 0, 0, 0, 1))
	readP := r.PickF(0.2, 0.5)
	for i := 0; i < n; i++ {
		if r.Chance(1 - readP) {
			genWrite(r, &p)
			continue
		}
		switch r.Intn(20) {
		case 0, 1, 2, 3, 4, 5, 6, 7, 8:
			p.Add("get", int64(r.Intn(p.Int("keys")+2)))
		case 9, 10, 11, 12, 13:
			// prefix: of some key, cut to some length; or none; pause between entries
			p.Add("scan", int64(r.Intn(p.Int("keys")+1)), int64(r.Intn(6)), int64(r.Pick(0, 0, 1)), int64(r.Pick(0, 0, 1, 3)))
		case 14, 15, 16:
			p.Add("sleep", int64(r.Intn(p.Int("lat")*4+1)))
		case 17:
			p.Add("ckpt")
		case 18:
			if p.Int("gc") == 1 {
				p.Add("gc")
			}
		case 19:
			p.Add("wait")
		}
	}
	return p
}

// model is the reference: a map and the order of writes.
type model struct {
	m map[string][]byte
	n int
}

func newModel() *model { return &model{m: map[string][]byte{}} }

func (m *model) clone() *model {
	c := newModel()
	for k, v := range m.m {
		c.m[k] = v
	}
	c.n = m.n
	return c
}

func (m *model) prefix(p []byte) []string {
	var ks []string
	for k := range m.m {
		if strings.HasPrefix(k, string(p)) {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	return ks
}

// checkGet compares one point lookup with the model.
func checkGet(e *sim.Env, class string, db *dkv.DB, m *model, k []byte, note string) {
	ent, err := db.Get(k)
	if err != nil && err != kv.ErrNotFound {
		e.Fail(class, "Get(%s)%s failed: %v", q(k), note, err)
	}
	v, ok := m.m[string(k)]
	gone := err == kv.ErrNotFound || ent.IsDelete()
	switch {
	case ok && gone:
		e.Fail(class, "Get(%s)%s reports the key absent, its latest value is %s", q(k), note, q(v))
	case !ok && !gone:
		e.Fail(class, "Get(%s)%s returns %s for a key that is deleted or was never written", q(k), note, q(ent.Value()))
	case ok && !bytes.Equal(ent.Value(), v):
		e.Fail(class, "Get(%s)%s returns %s, its latest value is %s", q(k), note, q(ent.Value()), q(v))
	case ok && !bytes.Equal(ent.Key(), k):
		e.Fail(class, "Get(%s)%s returns an entry of key %s", q(k), note, q(ent.Key()))
	}
}

// checkScan compares a prefix scan with the model; limit > 0 stops early.
func checkScan(e *sim.Env, class string, db *dkv.DB, m *model, prefix []byte, pause time.Duration, limit int, note string) {
	var err error
	want := m.prefix(prefix)
	i := 0
	for ent := range db.ScanPrefix(prefix, &err) {
		if i >= len(want) {
			e.Fail(class, "ScanPrefix(%s)%s yields %s=%s which is not live (expected %d entries)", q(prefix), note, q(ent.Key()), q(ent.Value()), len(want))
		}
		if string(ent.Key()) != want[i] {
			e.Fail(class, "ScanPrefix(%s)%s yields key %s at position %d, expected %s", q(prefix), note, q(ent.Key()), i, q([]byte(want[i])))
		}
		if ent.IsDelete() || !bytes.Equal(ent.Value(), m.m[want[i]]) {
			e.Fail(class, "ScanPrefix(%s)%s yields %s=%s, its latest value is %s", q(prefix), note, q(ent.Key()), q(ent.Value()), q(m.m[want[i]]))
		}
		i++
		if limit > 0 && i >= limit {
			return
		}
		if pause > 0 {
			time.Sleep(pause)
		}
	}
	if err != nil {
		e.Fail(class, "ScanPrefix(%s)%s failed: %v", q(prefix), note, err)
	}
	if i < len(want) {
		e.Fail(class, "ScanPrefix(%s)%s omits %s (yielded %d of %d entries)", q(prefix), note, q([]byte(want[i])), i, len(want))
	}
}

func checkAll(e *sim.Env, class string, db *dkv.DB, m *model, keys [][]byte, note string) {
	for _, k := range keys {
		checkGet(e, class, db, m, k, note)
	}
	checkScan(e, class, db, m, nil, 0, 0, note)
}

func cutPrefix(k []byte, n int) []byte {
	if n >= 0 && n < len(k) {
		return k[:n]
	}
	return k
}

func runKV(e *sim.Env) {
	p := e.Plan
	d := NewDisk(e, p)
	keys := Keys(p.Int("style"), p.Int("keys")+2, uint64(p.Int("kseed")))
	m := newModel()
	db := dkv.Open(dbOptions(p, d.FS("db")), nil)
	g := uint32(0)
	ckpt := uint64(0)
	reads, gcs := 0, 0
	for i, op := range p.Ops {
		switch op.K {
		case "put":
			k, v := keys[op.Int(0)], Value(i, op.Int(1))
			db.Put(k, v)
			m.m[string(k)] = v
			m.n++
		case "del":
			k := keys[op.Int(0)]
			db.Delete(k)
			delete(m.m, string(k))
			m.n++
		case "get":
			reads++
			checkGet(e, "stale-read", db, m, keys[op.Int(0)], "")
		case "scan":
			reads++
			var pre []byte
			if op.Int(0) < p.Int("keys") {
				pre = cutPrefix(keys[op.Int(0)], op.Int(1))
			}
			var pause time.Duration
			if op.Int(2) == 1 {
				pause = time.Duration(p.Int("lat")) * time.Microsecond / 2
			}
			checkScan(e, "stale-scan", db, m, pre, pause, op.Int(3), "")
		case "sleep":
			time.Sleep(time.Duration(op.Int(0)) * time.Microsecond)
		case "ckpt":
			ckpt++
			wait := db.Checkpoint(ckpt)
			go wait()
			e.Probe("checkpoint")
		case "gc":
			if gcs < 3 {
				gcs++
				simrt.CollectCleanups()
				if n := simrt.RunCleanups(func(x uint32) bool { return x == g }); n > 0 {
					e.Fault("gc cleanup")
				}
			}
		case "wait":
			if err := db.WaitOnTasks(); err != nil {
				e.Fail("task-error", "background task failed: %v", err)
			}
			checkAll(e, "stale-read", db, m, keys, " with idle background tasks")
		}
	}
	checkAll(e, "stale-read", db, m, keys, " at the end")
	if err := db.WaitOnTasks(); err != nil {
		e.Fail("task-error", "background task failed: %v", err)
	}
	checkAll(e, "stale-read", db, m, keys, " after the background tasks")
	if reads == 0 || m.n == 0 {
		e.Trivial()
	}
}

var _ = recovery.CheckpointHandle{}
