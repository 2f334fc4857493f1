package dkvscn

import (
	"fmt"
	"time"

	"reduction.dev/reduction/dkv"
	"reduction.dev/reduction/dkv/recovery"
	"reduction.dev/reduction/zz_verif/sim"
	"reduction.dev/reduction/zz_verif/simrt"
)

// genDBCompact makes write-heavy histories of a real database in which flushes
// and compactions run all the time.
func genDBCompact(r *simrt.Rand, size int) sim.Plan {
	p := sim.Plan{P: map[string]int64{}}
	dbParams(r, &p)
	p.P["mem"] = int64(r.Pick(1, 40, 100, 250, 600))
	p.P["l0"] = int64(r.Pick(1, 1, 2, 2, 3))
	p.P["latp"] = int64(r.Pick(10, 100, 500, 1000))
	n := []int{15, 60, 200}[size]
	for i := 0; i < n; i++ {
		switch r.Intn(12) {
		case 0:
			p.Add("sleep", int64(r.Intn(p.Int("lat")*6+1)))
		case 1:
			p.Add("get", int64(r.Intn(p.Int("keys")+2)))
		case 2:
			if r.Chance(0.2) {
				p.Add("check")
			}
		case 3:
			if r.Chance(0.3) {
				p.Add("wait")
			}
		default:
			genWrite(r, &p)
		}
	}
	p.Add("wait")
	p.Add("check")
	return p
}

func runDBCompact(e *sim.Env) {
	p := e.Plan
	d := NewDisk(e, p)
	w := &compactWorld{e: e, p: p, d: d, m: newModel()}
	w.keys = Keys(p.Int("style"), p.Int("keys")+2, uint64(p.Int("kseed")))
	fs := d.FS("db")
	opts := dbOptions(p, fs)
	opts.DataOwnership = keepOwnership{}
	db := dkv.Open(opts, nil)
	m := w.m
	id := uint64(0)
	check := func(note string) {
		checkAll(e, "visible", db, m, w.keys, " "+note)
		// The layout as a checkpoint of this moment records it.
		id++
		h, err := db.Checkpoint(id)()
		if err != nil {
			e.Fail("checkpoint-error", "checkpoint %s failed: %v", note, err)
		}
		cl, err := recovery.LoadCheckpointList(fs, keepOwnership{}, []recovery.CheckpointHandle{h})
		if err != nil {
			e.Fail("checkpoint-error", "loading the checkpoint %s failed: %v", note, err)
		}
		w.valid(cl.Latest().Levels, note)
		counts := cl.Latest().Levels.TableCounts()
		for i, n := range counts {
			if i > 0 && n > 0 {
				e.Probe(fmt.Sprintf("tables in level %d", min(i, 5)))
			}
		}
	}
	for i, op := range p.Ops {
		switch op.K {
		case "put":
			k, v := w.keys[op.Int(0)], Value(i, op.Int(1))
			db.Put(k, v)
			m.m[string(k)] = v
			m.n++
		case "del":
			k := w.keys[op.Int(0)]
			db.Delete(k)
			delete(m.m, string(k))
			m.n++
		case "get":
			checkGet(e, "visible", db, m, w.keys[op.Int(0)], "")
		case "sleep":
			time.Sleep(time.Duration(op.Int(0)) * time.Microsecond)
		case "check":
			check("while background tasks run")
		case "wait":
			if err := db.WaitOnTasks(); err != nil {
				e.Fail("task-error", "background task failed: %v", err)
			}
			check("with idle background tasks")
		}
	}
	if m.n == 0 {
		e.Trivial()
	}
}
