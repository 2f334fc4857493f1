// Package batch simulates the batching layer (C20).
package batch

import (
	"context"
	"errors"
	"fmt"
	"time"

	"reduction.dev/reduction/batching"
	"reduction.dev/reduction/clocks"
	"reduction.dev/reduction/zz_verif/sim"
	"reduction.dev/reduction/zz_verif/simrt"
)

func init() {
	sim.Register(&sim.Property{
		ID: "C20", Level: "exploration",
		Scenarios: []*sim.Scenario{
			{Name: "batcher", Weight: 2, Gen: genBatcher, Run: runBatcher, SimLimit: 2 * time.Hour, StallClass: "stall", BudgetClass: "livelock"},
			{Name: "fetcher", Weight: 3, Gen: genFetcher, Run: runFetcher, SimLimit: 2 * time.Hour, StallClass: "stall", BudgetClass: "livelock"},
		},
		Real: []string{"batching.EventBatcher", "batching.ReorderFetcher", "batching.ReorderBuffer", "clocks.SystemTimer"},
		Stub: []string{"fetch function (latency, completion order)", "consumers and adders", "clock"},
		Rule: "Batcher runs: 1-3 adders, a time-out listener and explicit flushers on one EventBatcher; fetcher runs: one adder, the fetcher's own time-out flusher, explicit flushes, slow and reordered fetches and a slow consumer.",
	})
}

// ---- EventBatcher ----

func genBatcher(r *simrt.Rand, size int) sim.Plan {
	p := sim.Plan{P: map[string]int64{
		"maxSize":  int64(r.Pick(0, 1, 2, 3, 5, 17)),
		"delay":    int64(r.Pick(0, 1, 1000, 1_000_000, 20_000_000)),
		"adders":   int64(r.Pick(1, 1, 2, 3)),
		"flushers": int64(r.Pick(0, 0, 1, 2)),
		"gap":      int64(r.Pick(0, 1000, 300_000, 5_000_000)),
		"fake":     int64(r.Pick(0, 0, 1)),
	}}
	n := []int{6, 25, 120}[size]
	for i := 0; i < n; i++ {
		switch r.Intn(10) {
		case 0:
			p.Add("sleep", int64(r.Intn(4)), int64(r.Intn(int(p.P["gap"]*2+p.P["delay"]+2))))
		case 1:
			p.Add("stale", int64(r.Intn(4)))
		case 2:
			p.Add("flush", int64(r.Intn(4)))
		default:
			p.Add("add", int64(r.Intn(4)))
		}
	}
	return p
}

type item struct{ who, n int }

type flushRec struct {
	inv, ret  int // event indices
	batch     []item
	token     batching.BatchToken
	at        time.Duration
	atInvoked time.Duration
}

// raceTimer behaves like clocks.SystemTimer but its expiry may already be under
// way when Stop is called.
type raceTimer struct {
	e   *sim.Env
	gen int
	max time.Duration
}

func (t *raceTimer) Set(d time.Duration, do func()) {
	t.gen++
	g := t.gen
	go func() {
		time.Sleep(d)
		if g != t.gen && t.e.Choose("timer fired although stopped", 0.5, 1) == 0 {
			return
		}
		time.Sleep(t.e.Lat("late timer callback", 0.3, t.max))
		do()
	}()
}

func (t *raceTimer) Stop() { t.gen++ }

func runBatcher(e *sim.Env) {
	p := e.Plan
	ctx := context.Background()
	delay := time.Duration(p.Int("delay"))
	params := batching.EventBatcherParams{MaxDelay: delay, MaxSize: p.Int("maxSize")}
	if p.Int("fake") == 1 {
		params.Timer = &raceTimer{e: e, max: delay}
	} else {
		params.Timer = &clocks.SystemTimer{}
	}
	b := batching.NewEventBatcher[item](ctx, params)
	adders := p.Int("adders")
	maxSize := max(1, p.Int("maxSize"))

	ev := 0
	tick := func() int { ev++; return ev }
	type addRec struct {
		it       item
		inv, ret int
		at       time.Duration
	}
	var adds []*addRec
	addBy := map[item]*addRec{}
	var flushes []*flushRec
	var tokens []batching.BatchToken
	tokenAt := map[batching.BatchToken]int{}   // event index when received
	tokenUsed := map[batching.BatchToken]int{} // event index when a flush with it returned items
	flushDone := []([2]int){}                  // inv, ret of non-empty flushes
	out := 0

	flush := func(tok batching.BatchToken, who string) {
		f := &flushRec{token: tok, inv: tick(), atInvoked: e.Now()}
		mustBeEmpty := false
		if tok != batching.CurrentBatch {
			if u := tokenUsed[tok]; u > 0 {
				mustBeEmpty = true
			}
			if a, ok := tokenAt[tok]; ok {
				for _, d := range flushDone {
					// A non-empty flush that began after the token was received took
					// that batch or an earlier one was gone already.
					if d[0] > a {
						mustBeEmpty = true
					}
				}
			}
		}
		f.batch = b.Flush(tok)
		f.ret = tick()
		f.at = e.Now()
		e.Log("%s flush(%d) -> %v", who, tok, f.batch)
		if len(f.batch) == 0 {
			return
		}
		if mustBeEmpty {
			e.Fail("stale-token", "token %d belongs to a batch that was flushed before, yet it flushed %v", tok, f.batch)
		}
		if tok != batching.CurrentBatch {
			tokenUsed[tok] = f.ret
			first := addBy[f.batch[0]]
			if first != nil && f.at-first.at < delay {
				e.Fail("stale-token", "time-out token %d flushed a batch started %v ago, maxDelay %v: %v", tok, f.at-first.at, delay, f.batch)
			}
		}
		flushDone = append(flushDone, [2]int{f.inv, f.ret})
		flushes = append(flushes, f)
		out += len(f.batch)
	}

	// Time-out listener.
	go func() {
		for tok := range b.BatchTimedOut {
			tokenAt[tok] = tick()
			tokens = append(tokens, tok)
			e.Probe("timeout token")
			if l := e.Lat("slow time-out listener", 0.2, 2*delay+1); l > 0 {
				time.Sleep(l)
			}
			flush(tok, "listener")
		}
	}()
	done := make(chan struct{})
	gap := time.Duration(p.Int("gap"))
	running := 0
	for a := 0; a < adders; a++ {
		running++
		go func() {
			defer func() { done <- struct{}{} }()
			n := 0
			for _, op := range p.Ops {
				if op.Int(0)%adders != a {
					continue
				}
				switch op.K {
				case "add":
					it := item{a, n}
					n++
					rec := &addRec{it: it, inv: tick(), at: e.Now()}
					addBy[it] = rec
					adds = append(adds, rec)
					b.Add(it)
					rec.ret = tick()
					if b.IsFull() {
						flush(batching.CurrentBatch, fmt.Sprint("adder", a))
					}
					if gap > 0 {
						time.Sleep(e.Lat("", 0.5, gap))
					}
				case "sleep":
					time.Sleep(time.Duration(op.Int(1)))
				case "flush":
					flush(batching.CurrentBatch, fmt.Sprint("adder", a))
				case "stale":
					if len(tokens) > 0 {
						flush(tokens[(n*7)%len(tokens)], fmt.Sprint("stale", a))
					}
				}
			}
		}()
	}
	for f := 0; f < p.Int("flushers"); f++ {
		running++
		go func() {
			defer func() { done <- struct{}{} }()
			for range 4 {
				time.Sleep(e.Lat("", 0.8, 10*gap+delay+1000))
				flush(batching.CurrentBatch, fmt.Sprint("flusher", f))
			}
		}()
	}
	for range running {
		<-done
	}
	if delay > 0 {
		// Time-outs alone must hand out the rest.
		e.FaultsOff()
		if !e.Until(time.Minute+20*delay, delay+time.Millisecond, func() bool { return out == len(adds) }) {
			e.Fail("stuck", "%d of %d items were never handed out by size or time-out", len(adds)-out, len(adds))
		}
	} else {
		flush(batching.CurrentBatch, "end")
	}
	time.Sleep(time.Hour / 4)
	// History check.
	seen := map[item]bool{}
	for _, f := range flushes {
		if len(f.batch) > 1 {
			e.Probe("multi-item batch")
		}
		for _, it := range f.batch {
			if seen[it] {
				e.Fail("duplicate", "item %v handed out twice", it)
			}
			if addBy[it] == nil {
				e.Fail("invented", "item %v was never added", it)
			}
			seen[it] = true
		}
	}
	if len(seen) != len(adds) {
		e.Fail("lost", "%d items added, %d handed out", len(adds), len(seen))
	}
	_ = maxSize
	// There must be an order of the batches that respects real time of flushes,
	// each adder's order and real time of adds. Batches are totally ordered by
	// the swap; try the order by flush windows and by contained items.
	// before(a,b) if a's flush returned before b's was invoked, or an item of a
	// was added before an item of b.
	before := func(x, y *flushRec) (bool, string) {
		if x.ret < y.inv {
			return true, "flush order"
		}
		for _, i := range x.batch {
			for _, j := range y.batch {
				if addBy[i].ret != 0 && addBy[i].ret < addBy[j].inv {
					return true, fmt.Sprintf("item %v added before %v", i, j)
				}
			}
		}
		return false, ""
	}
	for i, x := range flushes {
		for k := 0; k+1 < len(x.batch); k++ {
			if addBy[x.batch[k+1]].ret < addBy[x.batch[k]].inv {
				e.Fail("reordered", "within batch %v: %v was added before %v", x.batch, x.batch[k+1], x.batch[k])
			}
		}
		for _, y := range flushes[i+1:] {
			b1, w1 := before(x, y)
			b2, w2 := before(y, x)
			if b1 && b2 {
				e.Fail("reordered", "batches %v and %v: %s, but %s", x.batch, y.batch, w1, w2)
			}
		}
	}
	if len(adds) < 2 {
		e.Trivial()
	}
}

// ---- ReorderFetcher ----

func genFetcher(r *simrt.Rand, size int) sim.Plan {
	p := sim.Plan{P: map[string]int64{
		"maxSize": int64(r.Pick(1, 2, 3, 8)),
		"delay":   int64(r.Pick(0, 1000, 1_000_000, 10_000_000)),
		"buffer":  int64(r.Pick(0, 1, 2, 3, 8, 50)),
		"lat":     int64(r.Pick(0, 1000, 3_000_000, 50_000_000)),
		"cons":    int64(r.Pick(0, 0, 1000, 5_000_000)),
		"gap":     int64(r.Pick(0, 1000, 1_000_000, 10_000_000)),
		"xflush":  int64(r.Pick(0, 0, 0, 1)),
	}}
	if r.Chance(0.15) {
		p.P["ferr"] = int64(r.Pick(30, 200))
	}
	n := []int{8, 30, 150}[size]
	for i := 0; i < n; i++ {
		switch r.Intn(12) {
		case 0:
			p.Add("sleep", int64(r.Intn(int(p.P["gap"]+p.P["delay"]*2+2))))
		case 1:
			p.Add("flush")
		default:
			p.Add("add")
		}
	}
	return p
}

var errFetch = errors.New("simulated fetch error")

func runFetcher(e *sim.Env) {
	p := e.Plan
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	ferr := float64(p.Int("ferr")) / 1000
	failed := false
	delay := time.Duration(p.Int("delay"))
	lat := time.Duration(p.Int("lat"))
	errChan := make(chan error, 1)
	calls, inflight, maxIn := 0, 0, 0
	fetch := func(ctx context.Context, in []int) ([]string, error) {
		calls++
		inflight++
		maxIn = max(maxIn, inflight)
		c := calls
		e.Log("fetch %d start %v", c, in)
		if len(in) == 0 {
			return nil, errors.New("empty batch")
		}
		cp := append([]int{}, in...)
		time.Sleep(e.Lat("slow fetch", 0.6, lat))
		if ferr > 0 && e.Choose("failed fetch", ferr, 1) == 1 {
			e.Log("fetch %d fails", c)
			failed = true
			return nil, errFetch
		}
		out := make([]string, len(in))
		for i, v := range in {
			if v != cp[i] {
				e.Fail("mutated", "batch %v changed to %v while it was being fetched", cp, in)
			}
			out[i] = fmt.Sprint("r", v)
		}
		inflight--
		e.Log("fetch %d done", c)
		return out, nil
	}
	f := batching.NewReorderFetcher(ctx, batching.NewReorderFetcherParams[int, string]{
		Batcher:    batching.NewEventBatcher[int](ctx, batching.EventBatcherParams{MaxDelay: delay, MaxSize: p.Int("maxSize")}),
		FetchBatch: fetch,
		ErrChan:    errChan,
		BufferSize: p.Int("buffer"),
	})
	go func() {
		err := <-errChan
		if err == errFetch {
			time.Sleep(e.Lat("", 0.7, 10*time.Millisecond))
			cancel()
			return
		}
		e.Fail("fetch-error", "%v", err)
	}()
	got := 0
	cons := time.Duration(p.Int("cons"))
	go func() {
		for v := range f.Output {
			e.Log("out %s", v)
			if v != fmt.Sprint("r", got) {
				e.Fail("order", "result %q came out at position %d", v, got)
			}
			got++
			if cons > 0 {
				time.Sleep(e.Lat("slow consumer", 0.3, cons))
			}
		}
	}()
	n := 0
	gap := time.Duration(p.Int("gap"))
	xdone := make(chan struct{})
	if p.Int("xflush") == 1 {
		go func() {
			defer close(xdone)
			for range 5 {
				time.Sleep(e.Lat("", 0.9, gap*10+delay+1000))
				f.Flush(ctx)
			}
		}()
	} else {
		close(xdone)
	}
	for _, op := range p.Ops {
		switch op.K {
		case "add":
			f.Add(ctx, n)
			n++
			if gap > 0 {
				time.Sleep(e.Lat("", 0.4, gap))
			}
		case "sleep":
			time.Sleep(time.Duration(op.Int(0)))
		case "flush":
			f.Flush(ctx)
		}
	}
	<-xdone
	e.FaultsOff()
	if delay == 0 {
		f.Flush(ctx)
	}
	if failed {
		// Results come out in order, but not beyond the failed ones.
		e.Until(time.Minute, time.Second, func() bool { return ctx.Err() != nil })
		e.Probe("failed fetch")
		return
	}
	if !e.Until(10*time.Minute, time.Second, func() bool { return got >= n }) {
		e.Fail("lost", "%d inputs, only %d results came out", n, got)
	}
	time.Sleep(time.Minute)
	if got != n {
		e.Fail("extra", "%d inputs, %d results", n, got)
	}
	if maxIn > 1 {
		e.Probe("concurrent fetches")
	}
	if n < 2 {
		e.Trivial()
	}
}
