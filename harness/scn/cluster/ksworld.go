package cluster

import (
	"sort"
	"time"

	"reduction.dev/reduction/partitioning"
	"reduction.dev/reduction/util/murmur"

	"reduction.dev/reduction/zz_verif/sim"
	"reduction.dev/reduction/zz_verif/simrt"
)

// Scenario "keyspace": ranges and routing of many configurations, also as seen
// by several processes at once, against independent arithmetic.

func genKS(r *simrt.Rand, size int) sim.Plan {
	p := sim.Plan{P: map[string]int64{"kseed": int64(r.Uint64() >> 33)}}
	for i, n := 0, []int{3, 10, 30}[size]; i < n; i++ {
		kgc := r.Pick(1, 2, 3, 7, 8, 16, 255, 256, 257, 1000, 32767, 32768, 65534, 65535, 1+r.Intn(65535), 1+r.Intn(300))
		ops := r.Pick(1, 2, 3, 5, 8, 13, 100, 1+r.Intn(400), kgc, kgc-1, kgc+1)
		p.Add("config", int64(kgc), int64(max(1, min(ops, 2000))), int64(r.Uint64()>>40))
	}
	return p
}

func runKS(e *sim.Env) {
	for _, op := range e.Plan.Ops {
		kgc, n := op.Int(0), op.Int(1)
		keyr := simrt.NewRand(uint64(op.Int(2)))
		var keys [][]byte
		for i := 0; i < 60; i++ {
			k := make([]byte, keyr.Pick(0, 1, 2, 3, 4, 5, 7, 8, 11, 16, 33, 100))
			for j := range k {
				k[j] = byte(keyr.Pick(0, 255, 128, 127, keyr.Intn(256)))
			}
			keys = append(keys, k)
		}
		var owners []int
		for proc := 0; proc < 2; proc++ {
			ks := partitioning.NewKeySpace(kgc, n)
			rs := ks.KeyGroupRanges()
			if len(rs) != n {
				e.Fail("ranges", "%d groups, %d operators: %d ranges", kgc, n, len(rs))
			}
			at := 0
			for i, r := range rs {
				if r.Start != at || r.End < r.Start {
					e.Fail("ranges", "%d groups, %d operators: range %d is %d..%d after one that ends at %d", kgc, n, i, r.Start, r.End, at)
				}
				at = r.End
				if s := r.End - r.Start; s != kgc/n && s != (kgc+n-1)/n || r.Size() != s {
					e.Fail("ranges", "%d groups, %d operators: range %d has %d groups", kgc, n, i, s)
				}
			}
			if at != kgc {
				e.Fail("ranges", "%d groups, %d operators: ranges end at %d", kgc, n, at)
			}
			for i, k := range keys {
				if h := murmur.Hash(k, 0); h != refMurmur(k) {
					e.Fail("hash", "hash of %x is %08x instead of %08x", k, h, refMurmur(k))
				}
				g := refGroup(k, kgc)
				if int(ks.KeyGroup(k)) != g {
					e.Fail("group", "%d groups: key %x is in group %d instead of %d", kgc, k, ks.KeyGroup(k), g)
				}
				own := ks.RangeIndex(k)
				if own < 0 || own >= n || g < rs[own].Start || g >= rs[own].End {
					e.Fail("routing", "%d groups, %d operators: key %x of group %d goes to operator %d", kgc, n, k, g, own)
				}
				incl := 0
				if n <= 50 {
					for _, r := range rs {
						if r.IncludesKeyGroup(partitioning.KeyGroup(g)) {
							incl++
						}
					}
					if incl != 1 || !rs[own].IncludesKeyGroup(partitioning.KeyGroup(g)) {
						e.Fail("routing", "%d groups, %d operators: group %d is included in %d ranges", kgc, n, g, incl)
					}
				}
				b := make([]byte, 2)
				partitioning.KeyGroup(g).PutBytes(b)
				if int(b[0])<<8|int(b[1]) != g || int(partitioning.KeyGroupFromBytes(b)) != g {
					e.Fail("encoding", "group %d is encoded as %x", g, b)
				}
				if proc == 0 {
					owners = append(owners, own)
				} else if owners[i] != own {
					e.Fail("routing", "two processes route key %x differently", k)
				}
			}
			// A rescale finds all the checkpoints that hold groups of a range.
			m := 1 + keyr.Intn(12)
			from := partitioning.NewKeySpace(kgc, m).KeyGroupRanges()
			perm := keyr.Perm(m)
			shuffled := make([]partitioning.KeyGroupRange, m)
			for i, j := range perm {
				shuffled[i] = from[j]
			}
			if n <= 200 {
				as := partitioning.AssignRanges(rs, shuffled)
				for i, r := range rs {
					var want []int
					for j, f := range shuffled {
						if max(r.Start, f.Start) < min(r.End, f.End) {
							want = append(want, j)
						}
					}
					got := append([]int{}, as[i]...)
					sort.Ints(got)
					missing := false
					for x := range want {
						missing = missing || x >= len(got)
						found := false
						for _, y := range got {
							found = found || y == want[x]
						}
						missing = missing || !found
					}
					if missing {
						e.Fail("assign", "range %d..%d is restored from %v of %v", r.Start, r.End, got, shuffled)
					}
				}
			}
		}
		if n > 1 && kgc > 1 {
			e.Probe("configuration")
		}
	}
}

func init() {
	sc := &sim.Scenario{Name: "keyspace", Weight: 1, Gen: genKS, Run: runKS, SimLimit: time.Hour, StallClass: "stall"}
	extra := func(id string, sc *sim.Scenario, rule string) {
		p := sim.Properties[id]
		p.Scenarios = append(p.Scenarios, sc)
		p.Rule += " " + rule
	}
	c05, c11 := sim.Properties["C05"], sim.Properties["C11"]
	c05.Scenarios[0].Weight, c11.Scenarios[0].Weight = 4, 4
	extra("C05", sc, "Scenario keyspace: ranges, hashes, groups, owners and restore assignments of random configurations up to 65535 groups against independent arithmetic.")
	extra("C05", srScenario("C05", 2), "Scenario runner: real source runners route keys of up to 65535 groups to up to 13 operators.")
	extra("C11", srScenario("C11", 3), "Scenario runner: watermarks that real source runners send are monotone, stay below the largest timestamp read, do not overtake records and follow them when quiet.")
	for _, p := range []*sim.Property{c05, c11} {
		p.Real = append(p.Real, "workers/sourcerunner, workers/wmark (scenario runner)")
	}
}
