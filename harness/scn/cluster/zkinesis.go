package cluster

import (
	"time"

	"reduction.dev/reduction/zz_verif/sim"
	"reduction.dev/reduction/zz_verif/simrt"
)

func init() {
	for _, id := range []string{"C16"} {
		p := sim.Properties[id]
		p.Scenarios = append(p.Scenarios, &sim.Scenario{Name: "connectors", Weight: 1, Gen: genConnectors(id), Run: runFull, SimLimit: 30 * 24 * time.Hour, StallClass: "stall", MaxSteps: 40_000_000,
			Tune: func(cfg *simrt.Config, _ *sim.Plan) { cfg.MaxPaused = int64(3 * time.Minute) }})
		p.Scenarios = append(p.Scenarios, &sim.Scenario{Name: "kinesis", Weight: 3, Gen: genKinesis(id), Run: runFull, SimLimit: 30 * 24 * time.Hour, StallClass: "stall", MaxSteps: 40_000_000,
			Tune: func(cfg *simrt.Config, _ *sim.Plan) { cfg.MaxPaused = int64(3 * time.Minute) }})
	}
}
