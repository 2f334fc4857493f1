package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

// patchRuntime writes patched copies of Go runtime files to dir and returns
// the overlay entries. The patches add the deterministic scheduler described
// in DESIGN.md ("kernel"). Every patch is an exact textual replacement; a
// missing anchor is a hard error.
func patchRuntime(goroot, dir, zsim string) (map[string]string, error) {
	rt := filepath.Join(goroot, "src", "runtime")
	out := map[string]string{}
	type rep struct{ old, new string }
	patches := map[string][]rep{
		"runtime2.go": {
			{"	syncGroup *synctestGroup\n", "	syncGroup *synctestGroup\n	simgrp    uint32\n	simid     uint32\n	simprio   uint32\n"},
			{"	return isIdleInSynctest[w]\n", "	return isIdleInSynctest[w] || simOn && simIdleReason(w)\n"},
		},
		"proc.go": {
			// every way of making a goroutine runnable
			{"func runqput(pp *p, gp *g, next bool) {\n", "func runqput(pp *p, gp *g, next bool) {\n	if simOn && gp.syncGroup != nil {\n		simqput(gp)\n		return\n	}\n"},
			{"	assertLockHeld(&sched.lock)\n\n	sched.runq.pushBack(gp)\n", "	assertLockHeld(&sched.lock)\n\n	if simOn && gp.syncGroup != nil {\n		simqput(gp)\n		return\n	}\n	sched.runq.pushBack(gp)\n"},
			{"	assertLockHeld(&sched.lock)\n\n	sched.runq.push(gp)\n", "	assertLockHeld(&sched.lock)\n\n	if simOn && gp.syncGroup != nil {\n		simqput(gp)\n		return\n	}\n	sched.runq.push(gp)\n"},
			// picking
			{"	// Poll network.\n	// This netpoll is only an optimization before we resort to stealing.\n", "	if simOn {\n		if gp := simpick(); gp != nil {\n			return gp, false, false\n		}\n		if pp.runnext != 0 || pp.runqhead != pp.runqtail {\n			goto top\n		}\n	}\n\n	// Poll network.\n	// This netpoll is only an optimization before we resort to stealing.\n"},
			// inheritance
			{"		newg.syncGroup = callergp.syncGroup\n", "		newg.syncGroup = callergp.syncGroup\n		simnewg(newg, callergp)\n"},
			{"	gp.timer = nil\n	gp.syncGroup = nil\n", "	gp.timer = nil\n	gp.syncGroup = nil\n	gp.simgrp = 0\n	gp.simid = 0\n"},
			// no preemption, no retaking of Ps in system calls
			{"func retake(now int64) uint32 {\n	n := 0\n", "func retake(now int64) uint32 {\n	n := 0\n	if simOn {\n		return 0\n	}\n"},
		},
		"select.go": {
			{"		j := cheaprandn(uint32(norder + 1))\n", "		var j uint32\n		if simOn && gp.syncGroup != nil {\n			j = uint32(simEnvRand() % uint64(norder+1))\n		} else {\n			j = cheaprandn(uint32(norder + 1))\n		}\n"},
		},
		"rand.go": {
			{"	mp := getg().m\n	c := &mp.chacha8\n", "	mp := getg().m\n	if simOn && mp.curg != nil && mp.curg.syncGroup != nil {\n		return simSeedRand()\n	}\n	c := &mp.chacha8\n"},
			{"func maps_rand() uint64 {\n", "func maps_rand() uint64 {\n	if simOn && getg().syncGroup != nil {\n		return simEnvRand()\n	}\n"},
			{"	globalRand.state.Init(*seed)\n", "	for i := range seed {\n		seed[i] = byte(i*37 + 11)\n	}\n	globalRand.state.Init(*seed)\n"},
		},
		"sema.go": {
			{"func internal_sync_nanotime() int64 {\n", "func internal_sync_nanotime() int64 {\n	if sg := getg().syncGroup; sg != nil {\n		return 0\n	}\n"},
		},
		"time.go": {
			{"	isFake bool         // timer is using fake time; immutable; can be read without lock\n", "	isFake bool         // timer is using fake time; immutable; can be read without lock\n	simgrp uint32\n"},
			{"	if gr := getg().syncGroup; gr != nil {\n		t.isFake = true\n	}\n", "	if gr := getg().syncGroup; gr != nil {\n		t.isFake = true\n		t.simgrp = getg().simgrp\n	}\n"},
			{"		gp.syncGroup = ts.syncGroup\n", "		gp.syncGroup = ts.syncGroup\n		gp.simgrp = t.simgrp\n"},
			{"		gp.syncGroup = nil\n", "		gp.syncGroup = nil\n		gp.simgrp = 0\n"},
		},
		"panic.go": {
			{"	// ran out of deferred calls - old-school panic now\n", "	if simOn && gp.syncGroup != nil && SimPanicHook != nil {\n		runningPanicDefers.Add(-1)\n		SimPanicHook(e)\n	}\n\n	// ran out of deferred calls - old-school panic now\n"},
		},
		"synctest.go": {
			{"	active  int // other sources of activity\n", "	active  int // other sources of activity\n	simDone bool\n"},
			{"		next := sg.timers.wakeTime()\n		if next == 0 {\n			break\n		}\n", "		if sg.simDone {\n			break\n		}\n		next := sg.timers.wakeTime()\n		if next == 0 {\n			break\n		}\n"},
			{"	if total != 1 {\n", "	if total != 1 && !sg.simDone {\n"},
		},
	}
	for f, reps := range patches {
		b, err := os.ReadFile(filepath.Join(rt, f))
		if err != nil {
			return nil, err
		}
		s := string(b)
		for _, r := range reps {
			if strings.Count(s, r.old) != 1 {
				return nil, fmt.Errorf("runtime patch: anchor occurs %d times in %s: %q", strings.Count(s, r.old), f, r.old)
			}
			s = strings.Replace(s, r.old, r.new, 1)
		}
		p := filepath.Join(dir, "rt_"+f)
		if err := writeIfChanged(p, []byte(s)); err != nil {
			return nil, err
		}
		out[filepath.Join(rt, f)] = p
	}
	out[filepath.Join(rt, "zsim.go")] = zsim
	// Random numbers that user code asks for come from the run's stream; hash
	// seeds must not (lazily filled caches would shift the stream).
	for f, r := range map[string]rep{
		"internal/runtime/maps/map.go": {"m.seed = uintptr(rand())", "m.seed = uintptr(0x9e3779b97f4a7c15 & (1<<63 - 1))"},
		"math/rand/rand.go":            {"//go:linkname runtime_rand runtime.rand\n", "//go:linkname runtime_rand runtime.simUserRand\n"},
		"math/rand/v2/rand.go":         {"//go:linkname runtime_rand runtime.rand\n", "//go:linkname runtime_rand runtime.simUserRand\n"},
	} {
		src := filepath.Join(goroot, "src", f)
		b, err := os.ReadFile(src)
		if err != nil {
			return nil, err
		}
		if !strings.Contains(string(b), r.old) {
			return nil, fmt.Errorf("runtime patch: anchor missing in %s: %q", f, r.old)
		}
		p := filepath.Join(dir, strings.ReplaceAll(f, "/", "_"))
		if err := writeIfChanged(p, []byte(strings.ReplaceAll(string(b), r.old, r.new))); err != nil {
			return nil, err
		}
		out[src] = p
	}
	return out, nil
}
