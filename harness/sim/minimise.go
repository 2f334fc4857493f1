package sim

import (
	"sync"
	"time"

	"reduction.dev/reduction/zz_verif/simrt"
)

type pool struct {
	mu    sync.Mutex
	procs []*execProc
	end   time.Time
	class string
	runs  int
}

func (p *pool) get() (*execProc, error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.runs++
	if n := len(p.procs); n > 0 {
		x := p.procs[n-1]
		p.procs = p.procs[:n-1]
		return x, nil
	}
	return startExec()
}

func (p *pool) put(x *execProc, ok bool) {
	if !ok || x.n > 200 {
		x.stop()
		return
	}
	p.mu.Lock()
	p.procs = append(p.procs, x)
	p.mu.Unlock()
}

func (p *pool) try(s RunSpec) (Result, bool) {
	x, err := p.get()
	if err != nil {
		return Result{}, false
	}
	r, err := x.run(s)
	p.put(x, err == nil)
	return r, err == nil && r.Class == p.class && !r.Overflow
}

// firstOK evaluates candidates in parallel and returns the lowest-index one
// that still fails.
func (p *pool) firstOK(cands []RunSpec, par int) (int, Result) {
	for at := 0; at < len(cands); at += par {
		if time.Now().After(p.end) {
			return -1, Result{}
		}
		n := min(par, len(cands)-at)
		rs := make([]Result, n)
		oks := make([]bool, n)
		var wg sync.WaitGroup
		for i := 0; i < n; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				rs[i], oks[i] = p.try(cands[at+i])
			}()
		}
		wg.Wait()
		for i := range oks {
			if oks[i] {
				return at + i, rs[i]
			}
		}
	}
	return -1, Result{}
}

// Minimise shrinks a failing run: operations first (re-drawing schedules), then
// the recorded faults, preemptions and goroutine choices.
func Minimise(spec RunSpec, res Result, end time.Time, par int) (RunSpec, Result) {
	p := &pool{end: end, class: res.Class}
	defer func() {
		for _, x := range p.procs {
			x.stop()
		}
	}()
	total := time.Until(end)
	best := spec
	best.Trace = res.Trace
	bestRes := res

	// Operations.
	p.end = time.Now().Add(total / 2)
	ops := best.Plan.Ops
	for chunk := max(1, len(ops)/2); len(ops) > 0; {
		removed := false
		for at := 0; at < len(ops); {
			n := min(chunk, len(ops)-at)
			cand := append(append([]Op{}, ops[:at]...), ops[at+n:]...)
			var cs []RunSpec
			s0 := best
			s0.Plan.Ops = cand
			cs = append(cs, s0) // with the recorded trace
			for k := uint64(0); k < 7; k++ {
				s := best
				s.Plan.Ops = cand
				s.Trace = nil
				s.Cfg.Seed = best.Cfg.Seed + k*0x10001
				cs = append(cs, s)
			}
			if i, r := p.firstOK(cs, par); i >= 0 {
				best = cs[i]
				best.Trace = r.Trace
				bestRes = r
				ops = cand
				removed = true
			} else {
				at += n
			}
			if time.Now().After(p.end) {
				break
			}
		}
		if time.Now().After(p.end) || (chunk == 1 && !removed) {
			break
		}
		if chunk > 1 {
			chunk = max(1, chunk/2)
		}
	}
	// Decisions.
	p.end = end
	lists := []func(*simrt.Trace) *[]simrt.Choice{
		func(t *simrt.Trace) *[]simrt.Choice { return &t.F },
		func(t *simrt.Trace) *[]simrt.Choice { return &t.Y },
		func(t *simrt.Trace) *[]simrt.Choice { return &t.S },
	}
	with := func(get func(*simrt.Trace) *[]simrt.Choice, l []simrt.Choice) RunSpec {
		s := best
		t := *best.Trace
		*get(&t) = l
		s.Trace = &t
		return s
	}
	for round := 0; round < 2; round++ {
		for _, get := range lists {
			l := *get(best.Trace)
			if len(l) == 0 {
				continue
			}
			if i, r := p.firstOK([]RunSpec{with(get, nil)}, par); i >= 0 {
				best = with(get, nil)
				bestRes = r
				continue
			}
			for chunk := max(1, len(l)/2); len(l) > 0; {
				removed := false
				for at := 0; at < len(l); {
					// Try several chunks in parallel, keep the first that works.
					var cs []RunSpec
					var ls [][]simrt.Choice
					for q := at; q < len(l) && len(cs) < par; q += chunk {
						n := min(chunk, len(l)-q)
						nl := append(append([]simrt.Choice{}, l[:q]...), l[q+n:]...)
						ls = append(ls, nl)
						cs = append(cs, with(get, nl))
					}
					i, r := p.firstOK(cs, par)
					if i >= 0 {
						best = cs[i]
						bestRes = r
						l = ls[i]
						at += i * chunk
						removed = true
					} else {
						at += len(cs) * chunk
					}
					if time.Now().After(p.end) {
						break
					}
				}
				if time.Now().After(p.end) || (chunk == 1 && !removed) {
					break
				}
				if chunk > 1 {
					chunk = max(1, chunk/2)
				}
			}
		}
	}
	// Keep only decisions the run really took, and record its event log.
	s := best
	s.KeepLog = true
	if r, err := execLogged(s); err == nil && r.Class == p.class {
		bestRes = r
	}
	return best, bestRes
}

// execLogged runs a spec in a fresh process keeping the event log.
func execLogged(s RunSpec) (Result, error) {
	s.LogAll = true
	return ExecFresh(s)
}
