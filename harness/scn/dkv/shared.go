package dkvscn

import (
	"reduction.dev/reduction/zz_verif/sim"
	"reduction.dev/reduction/zz_verif/simrt"
)

func genShared(r *simrt.Rand, size int) sim.Plan { return genFiles(r, size) }
func runShared(e *sim.Env)                       { runCkpt(e) }
