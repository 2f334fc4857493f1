package cluster

import (
	"time"

	"reduction.dev/reduction/zz_verif/sim"
	"reduction.dev/reduction/zz_verif/simrt"
)

// profile biases the generated histories towards a property.
type profile struct {
	ckpt, wm, sleep, drain, redeploy, crash, gc, stall int // weights per 100 events
	rescale                                            bool
	timers                                             bool
	tinyMem                                            float64
	tinyT                                              float64
	faults                                             float64 // probability that calls and handlers fail at all
	bigState                                           bool
}

var profiles = map[string]profile{
	"C02": {ckpt: 14, wm: 12, sleep: 6, drain: 3, redeploy: 1, crash: 1, stall: 2, timers: true, tinyMem: 0.4, tinyT: 0.2, faults: 0.2},
	"C03": {ckpt: 4, wm: 6, sleep: 8, drain: 3, redeploy: 2, crash: 0, gc: 1, timers: true, tinyMem: 0.9, faults: 0.1, bigState: true},
	"C05": {ckpt: 6, wm: 5, sleep: 3, drain: 2, redeploy: 3, rescale: true, timers: true, tinyMem: 0.3, faults: 0},
	"C06": {ckpt: 8, wm: 6, sleep: 5, drain: 3, redeploy: 8, crash: 1, gc: 1, rescale: true, timers: true, tinyMem: 0.7, tinyT: 0.2, faults: 0.1},
	"C09": {ckpt: 8, wm: 3, sleep: 8, drain: 3, redeploy: 5, crash: 1, gc: 8, stall: 1, rescale: true, timers: true, tinyMem: 0.95, faults: 0.5},
	"C10": {ckpt: 5, wm: 25, sleep: 4, drain: 4, redeploy: 3, crash: 1, rescale: true, timers: true, tinyMem: 0.5, tinyT: 0.8, faults: 0.1},
	"C11": {ckpt: 5, wm: 35, sleep: 4, drain: 4, redeploy: 2, crash: 1, stall: 1, timers: true, tinyMem: 0.1, tinyT: 0.1, faults: 0.1},
}

func genOps(prop string) func(r *simrt.Rand, size int) sim.Plan {
	f := profiles[prop]
	return func(r *simrt.Rand, size int) sim.Plan {
		p := sim.Plan{P: map[string]int64{}}
		set := func(k string, v int) { p.P[k] = int64(v) }
		set("bseed", int(r.Uint64()>>33))
		set("kseed", int(r.Uint64()>>33))
		set("keys", r.Pick(1, 2, 5, 10, 20, 40))
		set("style", r.Pick(0, 0, 1, 1, 1, 1, 3, 3, 4))
		set("kgc", r.Pick(1, 2, 3, 8, 8, 16, 64, 256, 300))
		if p.P["style"] == 4 && r.Chance(0.7) {
			set("kgc", r.Pick(1, 2))
		}
		n := r.Pick(1, 1, 2, 2, 3, 4)
		set("n0", n)
		srs := r.Pick(1, 2, 2, 3, 4)
		set("srs", srs)
		set("vsize", r.Pick(0, 10, 10, 60))
		if f.bigState {
			set("vsize", r.Pick(0, 10, 60, 200))
		}
		set("nss", r.Pick(1, 2, 3, 7, 9))
		set("ents", r.Pick(1, 2, 5, 12))
		set("delp", r.Pick(0, 15, 40, 60))
		if f.timers {
			set("timerp", r.Pick(0, 20, 50))
			if prop == "C10" || prop == "C11" {
				set("timerp", r.Pick(30, 60, 80))
			}
		}
		if f.timers && r.Chance(0.15) {
			set("far", 1)
		}
		set("mem", 64<<20)
		set("target", 256<<20)
		if r.Chance(f.tinyMem) {
			set("mem", r.Pick(40, 100, 300, 800, 2000))
			set("target", r.Pick(100, 300, 600, 3000, 10000))
			set("wal", r.Pick(0, 0, 300, 1000))
		}
		set("l0", r.Pick(1, 2, 2, 4))
		if r.Chance(f.tinyT) {
			set("tcache", r.Pick(1, 20, 40, 80, 200))
		}
		set("bsize", r.Pick(1, 2, 2, 3, 8, 50))
		set("bdelay", r.Pick(0, 100, 3000, 100000))
		set("sbatch", r.Pick(1, 2, 5, 50))
		set("netlatp", r.Pick(0, 50, 300, 700))
		set("netlat", r.Pick(10, 1000, 20000))
		set("latp", r.Pick(0, 0, 20, 200))
		set("lat", r.Pick(10, 300, 5000))
		set("hlatp", r.Pick(0, 0, 200, 600))
		set("hlat", r.Pick(10, 1000, 20000))
		set("pace", r.Pick(0, 10, 500, 5000))
		if r.Chance(f.faults) {
			set("neterr", r.Pick(3, 20, 100))
			set("herr", r.Pick(0, 0, 20, 100))
			if prop == "C09" {
				set("herr", 0)
				set("neterr", r.Pick(20, 100, 400))
			}
		}
		if f.gc > 0 {
			set("gcs", 1)
			if prop == "C09" {
				set("c09", 1)
			}
		}
		if r.Chance(0.3) {
			set("complete", 1)
		}
		if f.rescale && r.Chance(0.5) {
			set("endn", r.Range(1, 4))
		}
		dt := r.Pick(1, 1, 5, 50)
		hot := r.Chance(0.3)
		total := 100 + f.ckpt + f.wm + f.sleep + f.drain + f.redeploy + f.crash + f.gc + f.stall
		for i, cnt := 0, []int{40, 120, 350}[size]; i < cnt; i++ {
			x := r.Intn(total)
			pick := func(w int) bool { x -= w; return x < 0 }
			switch {
			case pick(100):
				k := r.Intn(p.Int("keys"))
				if hot && r.Chance(0.7) {
					k %= 2
				}
				p.Add("ev", int64(r.Intn(4)), int64(k), int64(r.Uint64()>>40), int64(r.Intn(dt+1)), int64(r.Pick(0, 0, 0, 1, dt)))
			case pick(f.wm):
				p.Add("wm", int64(r.Intn(4)), int64(r.Pick(0, 0, 1, dt)))
			case pick(f.ckpt):
				p.Add("ckpt", int64(r.Pick(0, 0, 1, 3, 10)), int64(r.Pick(0, 0, 1, 3, 10)), int64(r.Pick(0, 0, 1, 3, 10)), int64(r.Pick(0, 0, 1, 3, 10)))
				if r.Chance(0.25) {
					p.Add("wait")
				}
			case pick(f.sleep):
				p.Add("sleep", int64(r.Pick(10, 1000, 20000, 200000)))
			case pick(f.drain):
				p.Add("drain")
			case pick(f.redeploy):
				m := n
				if f.rescale && r.Chance(0.8) {
					m = r.Range(1, 4)
				}
				s, sm := 0, 0
				if r.Chance(0.2) {
					s = r.Range(1, 4)
				}
				if r.Chance(0.4) {
					sm = r.Intn(1 << 4)
					if r.Chance(0.4) {
						sm |= sm << 8
					}
				}
				crash := 0
				if r.Chance(0.5) {
					crash = r.Intn(16)
				}
				p.Add("redeploy", int64(m), int64(r.Pick(0, 1, 1)), int64(crash), int64(sm), int64(s), int64(r.Uint64()>>33))
			case pick(f.crash):
				p.Add("crash", int64(r.Intn(4)))
			case pick(f.gc):
				p.Add("gc")
			case pick(f.stall):
				p.Add("stall", int64(r.Intn(4)), int64(r.Pick(1000, 100000)))
			}
		}
		return p
	}
}

var opReal = []string{"workers/operator", "jobs.Assembly", "partitioning", "batching", "dkv", "util", "storage (local file system code over the simulated kernel)"}
var opStub = []string{"source runners and job (simulated nodes)", "user handler (deterministic function with a reference model)", "RPC transport (simulated network)", "operating system files (in-memory kernel)"}

func opScenario(prop, name string, weight int) *sim.Scenario {
	return &sim.Scenario{Name: name, Weight: weight, Gen: genOps(prop), Run: runOps, SimLimit: 48 * time.Hour, StallClass: "stall", MaxSteps: 20_000_000,
		// Waits end after an hour: no verdict may rest on pauses alone.
		Tune: func(cfg *simrt.Config, _ *sim.Plan) { cfg.MaxPaused = int64(15 * time.Minute) }}
}

func init() {
	rules := map[string]string{
		"C02": "Histories of events, watermarks and barriers from several source runners to real operators with skewed barriers, latencies, stalls and crashes; the contents of every operator checkpoint must equal the effects of exactly what each runner sent before its barrier.",
		"C03": "Every handler invocation's key states are compared with a map model, with tiny memtables, compactions, restores and latencies underneath.",
		"C05": "Operators of many configurations: keys reach their owner, ranges and stored key-group prefixes match an independent implementation.",
		"C06": "Checkpoints taken with M operators restored into N, in any order of acknowledgement, repeatedly, with updates in between; states and timers must be complete and exclusive.",
		"C10": "Timers with small caches, checkpoints, restores and rescales; each fires exactly once, in order, no earlier than the watermark and no later than the next quiet moment or checkpoint.",
		"C11": "The watermark told to handlers and the timers fired are compared with the minimum of the upstream watermarks.",
	}
	for _, id := range sim.SortedKeys(rules) {
		sim.Register(&sim.Property{ID: id, Level: "exploration", Scenarios: []*sim.Scenario{opScenario(id, "ops", 1)}, Real: opReal, Stub: opStub, Rule: rules[id]})
	}
	c09 := sim.Properties["C09"]
	c09.Scenarios = append(c09.Scenarios, opScenario("C09", "ops", 3))
	c09.Real = append(c09.Real, "workers/operator and jobs.Assembly (scenario ops)")
	c09.Rule += " Scenario ops: whole operators with retention updates, rescales, redeploys in the same process, garbage collection and failing neighbours; no file of the job's latest checkpoint may disappear."
}
