package main

import (
	_ "reduction.dev/reduction/zz_verif/scn/dkv"
	"reduction.dev/reduction/zz_verif/sim"
)

func main() { sim.Main() }
