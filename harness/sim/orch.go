package sim

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"reduction.dev/reduction/zz_verif/simrt"
)

// Main is the entry point of every simulator binary.
func Main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: sim check|worker|exec|replay|one|list ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(checkMain(os.Args[2:]))
	case "worker":
		workerMain(os.Args[2:])
	case "exec":
		execMain()
	case "replay":
		os.Exit(replayMain(os.Args[2:]))
	case "one":
		oneMain(os.Args[2:])
	case "list":
		for _, id := range SortedKeys(Properties) {
			for _, s := range Properties[id].Scenarios {
				fmt.Println(id, s.Name)
			}
		}
	default:
		os.Exit(2)
	}
}

// ---- worker ----

type workerMsg struct {
	Kind    string         `json:"kind"` // agg, viol, known
	Next    uint64         `json:"next"` // first index not run
	Runs    int            `json:"runs"`
	Cut     map[string]int `json:"cut,omitempty"`
	Hashes  []uint64       `json:"hashes,omitempty"`
	Trivial int            `json:"trivial"`
	Steps   uint64         `json:"steps"`
	Picks   uint64         `json:"picks"`
	Preempt uint64         `json:"preempt"`
	Pauses  uint64         `json:"pauses"`
	SimNs   int64          `json:"simNs"`
	MaxGor  int            `json:"maxGor"`
	Faults  map[string]int `json:"faults,omitempty"`
	Probes  map[string]int `json:"probes,omitempty"`
	PerScn  map[string]int `json:"perScn,omitempty"`
	Spec    *RunSpec       `json:"spec,omitempty"`
	Res     *Result        `json:"res,omitempty"`
	Why     string         `json:"why,omitempty"` // deadline, memory, count
}

func newAgg() *workerMsg {
	return &workerMsg{Kind: "agg", Cut: map[string]int{}, Faults: map[string]int{}, Probes: map[string]int{}, PerScn: map[string]int{}}
}

func baseSeed(verifSeed uint64, prop string) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s", verifSeed, prop)
	return simrt.Mix(h.Sum64()) & (1<<44 - 1)
}

func workerMain(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	propID := fs.String("prop", "", "")
	base := fs.Uint64("base", 0, "")
	from := fs.Uint64("from", 0, "")
	stride := fs.Uint64("stride", 1, "")
	count := fs.Int("count", 0, "")
	deadline := fs.Int64("deadline", 0, "unix ms")
	curFile := fs.String("cur", "", "")
	knownFile := fs.String("known", "", "")
	scn := fs.String("scenario", "", "")
	reverse := fs.Bool("reverse", false, "")
	perSeed := fs.Bool("perseed", false, "print one line per seed")
	fs.Parse(args)
	Setup()
	prop := Properties[*propID]
	if prop == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *propID)
		os.Exit(2)
	}
	known := LoadKnown(*knownFile, *propID)
	out := bufio.NewWriterSize(os.Stdout, 1<<16)
	enc := json.NewEncoder(out)
	var cur *os.File
	if *curFile != "" {
		cur, _ = os.OpenFile(*curFile, os.O_CREATE|os.O_RDWR, 0o644)
	}
	agg := newAgg()
	var ms runtime.MemStats
	i := *from
	if *reverse {
		i = *from + uint64(*count-1)**stride
	}
	n := 0
	for {
		if *count > 0 && n >= *count {
			agg.Why = "count"
			break
		}
		if *deadline > 0 && time.Now().UnixMilli() > *deadline {
			agg.Why = "deadline"
			break
		}
		if cur != nil {
			cur.WriteAt([]byte(fmt.Sprintf("%020d", i)), 0)
		}
		spec := SpecFor(prop, *base+i, *scn)
		res := Run(spec)
		if *perSeed {
			fmt.Fprintf(out, "%d %s %016x %d %d %s %s\n", i, spec.Scenario, res.Hash, res.Steps, res.SimNs, res.Class, res.CutOff)
		}
		n++
		agg.Runs++
		agg.PerScn[spec.Scenario]++
		if res.CutOff != "" {
			agg.Cut[res.CutOff]++
		}
		if res.Trivial || res.Gor < 1 {
			agg.Trivial++
		} else if res.CutOff == "" {
			agg.Hashes = append(agg.Hashes, res.Hash)
		}
		agg.Steps += res.Steps
		agg.Picks += res.Picks
		agg.Preempt += res.Preempt
		agg.Pauses += res.Pauses
		agg.SimNs += res.SimNs
		agg.MaxGor = max(agg.MaxGor, res.Gor)
		for k, v := range res.Faults {
			agg.Faults[k] += v
		}
		for k, v := range res.Probes {
			agg.Probes[k] += v
		}
		if *reverse {
			i -= *stride
		} else {
			i += *stride
		}
		if res.Class != "" && !*perSeed {
			if k := known.Match(res.Class, res.Msg); k != nil {
				agg.Cut["known finding: "+k.ID()]++
				enc.Encode(&workerMsg{Kind: "known", Why: k.ID()})
			} else {
				enc.Encode(&workerMsg{Kind: "viol", Spec: &spec, Res: &res})
				agg.Why = "violation"
				break
			}
		}
		if n%16 == 0 || n < 3 || simrt.Heap() > 1<<30 {
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > 300<<20 {
				debug.FreeOSMemory()
				runtime.ReadMemStats(&ms)
				if ms.HeapAlloc > 700<<20 {
					agg.Why = "memory"
					break
				}
			}
		}
	}
	agg.Next = i
	if !*perSeed {
		enc.Encode(agg)
	}
	out.Flush()
	os.Exit(0)
}

// ---- exec: run specs from stdin ----

func execMain() {
	Setup()
	dec := json.NewDecoder(os.Stdin)
	out := bufio.NewWriterSize(os.Stdout, 1<<16)
	enc := json.NewEncoder(out)
	var ms runtime.MemStats
	for {
		var s RunSpec
		if err := dec.Decode(&s); err != nil {
			return
		}
		r := Run(s)
		enc.Encode(&r)
		out.Flush()
		runtime.ReadMemStats(&ms)
		if ms.HeapAlloc > 300<<20 {
			debug.FreeOSMemory()
		}
	}
}

type execProc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	dec *json.Decoder
	n   int
}

func startExec() (*execProc, error) {
	cmd := exec.Command(os.Args[0], "exec")
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	cmd.Stderr = nil
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	return &execProc{cmd: cmd, in: in, dec: json.NewDecoder(bufio.NewReaderSize(out, 1<<16))}, nil
}

func (p *execProc) stop() {
	p.in.Close()
	p.cmd.Process.Kill()
	p.cmd.Wait()
}

// ExecFresh runs one spec in a fresh process.
func ExecFresh(s RunSpec) (Result, error) {
	p, err := startExec()
	if err != nil {
		return Result{}, err
	}
	defer p.stop()
	return p.run(s)
}

func (p *execProc) run(s RunSpec) (Result, error) {
	b, _ := json.Marshal(&s)
	done := make(chan struct{})
	var r Result
	var err error
	go func() {
		defer close(done)
		if _, err = p.in.Write(append(b, '\n')); err != nil {
			return
		}
		err = p.dec.Decode(&r)
	}()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		p.cmd.Process.Kill()
		<-done
		if err == nil {
			err = fmt.Errorf("timeout")
		}
	}
	p.n++
	return r, err
}

// ---- known findings ----

type KnownFinding struct{ Property, Class, Match, What string }

func (k *KnownFinding) ID() string { return k.What }

type KnownList []*KnownFinding

// LoadKnown reads the findings of a property. Lines have the form
//
//	finding: property=<id> class=<class> match="<substring of the message>" <what fails>
//	fixed: property=<id> <commit> <what failed>
//
// Only "finding:" lines have an effect.
func LoadKnown(path, prop string) KnownList {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out KnownList
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		rest, ok := strings.CutPrefix(l, "finding: ")
		if !ok {
			continue
		}
		k := &KnownFinding{}
		for {
			rest = strings.TrimSpace(rest)
			if v, ok := strings.CutPrefix(rest, "property="); ok {
				k.Property, rest, _ = strings.Cut(v, " ")
			} else if v, ok := strings.CutPrefix(rest, "class="); ok {
				k.Class, rest, _ = strings.Cut(v, " ")
			} else if v, ok := strings.CutPrefix(rest, `match="`); ok {
				k.Match, rest, _ = strings.Cut(v, `"`)
			} else {
				break
			}
		}
		k.What = rest
		if k.Property == prop {
			out = append(out, k)
		}
	}
	return out
}

func (l KnownList) Match(class, msg string) *KnownFinding {
	for _, k := range l {
		if k.Class == class && strings.Contains(msg, k.Match) {
			return k
		}
	}
	return nil
}

// ---- check ----

type checker struct {
	prop     *Property
	verif    string
	tier     string
	seed     uint64
	base     uint64
	known    string
	tmp      string
	workers  int
	deadline time.Time
	start    time.Time

	mu     sync.Mutex
	agg    *workerMsg
	hashes map[uint64]struct{}
	viols  []workerMsg
	knownN map[string]int
	errs   []string
	stop   bool
	procs  map[int]*exec.Cmd
	respN  int
}

func checkMain(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	propID := fs.String("prop", "", "")
	verif := fs.String("verif", "/verif", "")
	budget := fs.Duration("budget", 30*time.Second, "")
	workers := fs.Int("workers", 8, "")
	scn := fs.String("scenario", "", "")
	buildInfo := fs.String("buildinfo", "", "")
	buildS := fs.Float64("builds", 0, "seconds the build took")
	fs.Parse(args)
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		seed = 1
	}
	prop := Properties[*propID]
	if prop == nil {
		fmt.Println("unknown property", *propID)
		return 2
	}
	tmp, err := os.MkdirTemp("", "simcheck")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(tmp)
	c := &checker{prop: prop, verif: *verif, tier: tier, seed: seed, base: baseSeed(seed, prop.ID),
		known: filepath.Join(*verif, "known-findings.txt"), tmp: tmp, workers: *workers,
		start: time.Now(), agg: newAgg(), hashes: map[uint64]struct{}{}, knownN: map[string]int{}, procs: map[int]*exec.Cmd{}}
	c.deadline = c.start.Add(*budget)

	// Determinism self-test, concurrently with the search.
	detErr := make(chan string, 1)
	detN := 24
	go func() { detErr <- c.selfTest(detN, *scn) }()

	var wg sync.WaitGroup
	for w := 0; w < c.workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			c.workerLoop(w, *scn)
		}()
	}
	wg.Wait()
	det := <-detErr

	code := 0
	var replay string
	var vres *workerMsg
	if len(c.viols) > 0 {
		sort.Slice(c.viols, func(i, j int) bool { return c.viols[i].Spec.Seed < c.viols[j].Spec.Seed })
		for i := range c.viols {
			v := &c.viols[i]
			if v.Res.Class == "panic" && strings.HasSuffix(v.Res.Msg, " at ?") {
				c.errs = append(c.errs, fmt.Sprintf("harness panic, seed %d scenario %s: %s", v.Spec.Seed, v.Spec.Scenario, v.Res.Msg))
				continue
			}
			// Confirm in a fresh process, by seed and by trace.
			r1, e1 := ExecFresh(*v.Spec)
			s2 := *v.Spec
			s2.Trace = r1.Trace
			if e1 != nil || r1.Class != v.Res.Class {
				c.errs = append(c.errs, fmt.Sprintf("seed %d: %s (%s) not reproduced in a fresh process: %s %s %v", v.Spec.Seed, v.Res.Class, v.Res.Msg, r1.Class, r1.Msg, e1))
				continue
			}
			vres = v
			lim := 45 * time.Second
			if tier == "thorough" {
				lim = 180 * time.Second
			}
			spec, res := Minimise(*v.Spec, r1, time.Now().Add(lim), c.workers)
			replay, err = c.writeReplay(spec, res, v.Res)
			if err != nil {
				c.errs = append(c.errs, err.Error())
			}
			fmt.Printf("violation: %s: %s\n", res.Class, res.Msg)
			fmt.Printf("  scenario %s seed %d; minimised to %d operations, %d goroutine choices, %d preemptions, %d faults\n", spec.Scenario, spec.Seed, len(spec.Plan.Ops), len(spec.Trace.S), len(spec.Trace.Y), len(spec.Trace.F))
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop.ID, replay)
			code = 1
			break
		}
	}
	for _, k := range LoadKnown(c.known, prop.ID) {
		fmt.Printf("KNOWN-FINDING: property=%s %s (met in %d runs)\n", prop.ID, k.What, c.knownN[k.ID()])
	}
	if det != "" {
		c.errs = append(c.errs, det)
	}
	if code == 0 && len(c.errs) > 0 {
		code = 2
	}
	if code == 0 && len(c.hashes) < 20 {
		c.errs = append(c.errs, fmt.Sprintf("only %d distinct non-trivial runs", len(c.hashes)))
		code = 2
	}
	for _, e := range c.errs {
		fmt.Println("error:", e)
	}
	nv := 0
	if code == 1 {
		nv = 1
	}
	c.writeEvidence(nv, vres, replay, *buildInfo, *buildS, detN)
	fmt.Printf("%s %s: %d runs, %d distinct non-trivial, %.0f runs/s, simulated %v, wall %.1fs, exit %d\n", prop.ID, tier, c.agg.Runs, len(c.hashes),
		float64(c.agg.Runs)/time.Since(c.start).Seconds(), time.Duration(c.agg.SimNs).Round(time.Second), time.Since(c.start).Seconds(), code)
	return code
}

func (c *checker) selfTest(n int, scn string) string {
	run := func(extra ...string) (map[string]string, error) {
		args := append([]string{"worker", "-prop", c.prop.ID, "-base", fmt.Sprint(c.base), "-from", "0", "-stride", "7", "-count", fmt.Sprint(n), "-perseed", "-scenario", scn}, extra...)
		cmd := exec.Command(os.Args[0], args...)
		var sb strings.Builder
		cmd.Stderr = &sb
		b, err := cmd.Output()
		if err != nil {
			return nil, fmt.Errorf("%w %s", err, tail(sb.String(), 2000))
		}
		m := map[string]string{}
		for _, l := range strings.Split(strings.TrimSpace(string(b)), "\n") {
			k, v, _ := strings.Cut(l, " ")
			m[k] = strings.TrimSpace(v)
		}
		return m, nil
	}
	a, err := run()
	if err != nil {
		return "self-test: " + err.Error()
	}
	b, err := run("-reverse")
	if err != nil {
		return "self-test: " + err.Error()
	}
	for k, v := range a {
		if b[k] != v {
			return fmt.Sprintf("self-test: seed index %s is not deterministic: %q vs %q", k, v, b[k])
		}
	}
	return ""
}

func tail(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}

func (c *checker) workerLoop(w int, scn string) {
	next := uint64(w)
	crashes := 0
	for {
		c.mu.Lock()
		stop := c.stop
		c.mu.Unlock()
		if stop || time.Now().After(c.deadline) {
			return
		}
		cur := filepath.Join(c.tmp, fmt.Sprintf("cur%d", w))
		cmd := exec.Command(os.Args[0], "worker", "-prop", c.prop.ID, "-base", fmt.Sprint(c.base), "-from", fmt.Sprint(next),
			"-stride", fmt.Sprint(c.workers), "-deadline", fmt.Sprint(c.deadline.UnixMilli()), "-cur", cur, "-known", c.known, "-scenario", scn)
		out, err := cmd.StdoutPipe()
		if err != nil {
			c.fail(err.Error())
			return
		}
		var se limitedBuf
		cmd.Stderr = &se
		if err := cmd.Start(); err != nil {
			c.fail(err.Error())
			return
		}
		c.mu.Lock()
		c.procs[w] = cmd
		c.mu.Unlock()
		// Wall-clock watchdog: a run must not hang the worker.
		quit := make(chan struct{})
		hung := false
		go func() {
			last, since := "", time.Now()
			for {
				select {
				case <-quit:
					return
				case <-time.After(time.Second):
				}
				b, _ := os.ReadFile(cur)
				if string(b) != last {
					last, since = string(b), time.Now()
				} else if time.Since(since) > 60*time.Second {
					hung = true
					cmd.Process.Kill()
					return
				}
			}
		}()
		dec := json.NewDecoder(bufio.NewReaderSize(out, 1<<16))
		finished := false
		for {
			var m workerMsg
			if err := dec.Decode(&m); err != nil {
				break
			}
			c.mu.Lock()
			switch m.Kind {
			case "agg":
				finished = true
				next = m.Next
				c.merge(&m)
			case "viol":
				c.viols = append(c.viols, m)
				c.stopAll()
			case "known":
				c.knownN[m.Why]++
			}
			c.mu.Unlock()
		}
		err = cmd.Wait()
		close(quit)
		c.mu.Lock()
		stop = c.stop
		c.mu.Unlock()
		if stop {
			return
		}
		if !finished {
			b, _ := os.ReadFile(cur)
			at, _ := strconv.ParseUint(strings.TrimSpace(string(b)), 10, 64)
			why := "crashed"
			if hung {
				why = "hung"
			}
			c.fail(fmt.Sprintf("worker %s at seed %d: %v: %s", why, c.base+at, err, tail(se.String(), 3000)))
			crashes++
			if crashes > 2 {
				return
			}
			next = at + uint64(c.workers)
		}
	}
}

// stopAll ends the search early; the caller holds c.mu.
func (c *checker) stopAll() {
	if c.stop {
		return
	}
	c.stop = true
	go func() {
		// Give the other workers a moment: an earlier seed may fail as well.
		time.Sleep(300 * time.Millisecond)
		c.mu.Lock()
		for _, p := range c.procs {
			p.Process.Kill()
		}
		c.mu.Unlock()
	}()
}

func (c *checker) fail(s string) {
	c.mu.Lock()
	c.errs = append(c.errs, s)
	c.mu.Unlock()
}

type limitedBuf struct{ b []byte }

func (l *limitedBuf) Write(p []byte) (int, error) {
	l.b = append(l.b, p...)
	if len(l.b) > 1<<16 {
		l.b = append([]byte(nil), l.b[:1<<15]...)
	}
	return len(p), nil
}
func (l *limitedBuf) String() string { return string(l.b) }

func (c *checker) merge(m *workerMsg) {
	a := c.agg
	a.Runs += m.Runs
	a.Trivial += m.Trivial
	a.Steps += m.Steps
	a.Picks += m.Picks
	a.Preempt += m.Preempt
	a.Pauses += m.Pauses
	a.SimNs += m.SimNs
	a.MaxGor = max(a.MaxGor, m.MaxGor)
	for _, p := range []struct{ d, s map[string]int }{{a.Cut, m.Cut}, {a.Faults, m.Faults}, {a.Probes, m.Probes}, {a.PerScn, m.PerScn}} {
		for k, v := range p.s {
			p.d[k] += v
		}
	}
	for _, h := range m.Hashes {
		c.hashes[h] = struct{}{}
	}
	if m.Why == "memory" {
		c.respN++
	}
}

// Replay is the file a violation is reported with.
type Replay struct {
	Property string   `json:"property"`
	Class    string   `json:"class"`
	Msg      string   `json:"msg"`
	Hash     string   `json:"hash"`
	Spec     RunSpec  `json:"spec"`
	Original string   `json:"original"`
	HowTo    string   `json:"howto"`
	Log      []string `json:"log"`
}

func (c *checker) writeReplay(spec RunSpec, res Result, orig *Result) (string, error) {
	dir := filepath.Join(c.verif, "replays")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return "", err
	}
	p := filepath.Join(dir, fmt.Sprintf("%s-%d.json", c.prop.ID, spec.Seed))
	r := Replay{Property: c.prop.ID, Class: res.Class, Msg: res.Msg, Hash: fmt.Sprintf("%016x", res.Hash), Spec: spec,
		Original: orig.Class + ": " + orig.Msg, HowTo: "/verif/replay.sh " + p, Log: res.Log}
	b, err := json.MarshalIndent(&r, "", " ")
	if err != nil {
		return "", err
	}
	return p, os.WriteFile(p, b, 0o644)
}

func replayMain(args []string) int {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	v := fs.Bool("v", false, "print the event log")
	fs.Parse(args)
	b, err := os.ReadFile(fs.Arg(0))
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Println(err)
		return 2
	}
	Setup()
	Verbose = *v
	r.Spec.KeepLog = true
	res := Run(r.Spec)
	for _, l := range res.Log {
		fmt.Println(l)
	}
	fmt.Printf("class=%s msg=%s hash=%016x (recorded %s)\n", res.Class, res.Msg, res.Hash, r.Hash)
	if res.Class == r.Class {
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, fs.Arg(0))
		return 1
	}
	return 0
}

// oneMain runs a single seed with its event log: sim one -prop C07 -seed N [-v]
func oneMain(args []string) {
	fs := flag.NewFlagSet("one", flag.ExitOnError)
	propID := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 0, "")
	scn := fs.String("scenario", "", "")
	v := fs.Bool("v", false, "")
	q := fs.Bool("q", false, "")
	before := fs.Int("before", 0, "runs of following seeds to do first")
	index := fs.Int64("index", -1, "seed index instead of a seed (VERIF_SEED 1)")
	prof := fs.String("cpuprofile", "", "")
	count := fs.Int("count", 0, "profile: this many runs from the seed on, then stop")
	fs.Parse(args)
	Setup()
	Verbose = *v
	if *index >= 0 {
		*seed = baseSeed(1, *propID) + uint64(*index)
	}
	if *prof != "" {
		f, err := os.Create(*prof)
		if err != nil {
			panic(err)
		}
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	if *count > 0 {
		var slow []string
		for i := 0; i < *count; i++ {
			t := time.Now()
			sp := SpecFor(Properties[*propID], *seed+uint64(i), *scn)
			r := Run(sp)
			if r.Class != "" {
				fmt.Printf("FAIL seed=%d steps=%d %dms %s %s: %s\n", *seed+uint64(i), r.Steps, time.Since(t).Milliseconds(), sp.Scenario, r.Class, tail(r.Msg, 200))
			}
			slow = append(slow, fmt.Sprintf("%6dms steps=%d seed=%d %s %s %s", time.Since(t).Milliseconds(), r.Steps, *seed+uint64(i), sp.Scenario, r.Class, tail(r.Msg, 150)))
		}
		sort.Strings(slow)
		for i := max(0, len(slow)-5); i < len(slow); i++ {
			fmt.Println(slow[i])
		}
		return
	}
	for i := 1; i <= *before; i++ {
		Run(SpecFor(Properties[*propID], *seed+uint64(i), *scn))
	}
	spec := SpecFor(Properties[*propID], *seed, *scn)
	spec.KeepLog = !*q
	b, _ := json.Marshal(spec.Plan)
	fmt.Println(tail(string(b), 3000))
	b, _ = json.Marshal(spec.Cfg)
	fmt.Println(string(b))
	t := time.Now()
	res := Run(spec)
	for _, l := range res.Log {
		fmt.Println(l)
	}
	res.Log, res.Trace = nil, nil
	b, _ = json.MarshalIndent(res, "", " ")
	fmt.Println(string(b), time.Since(t))
}

func (c *checker) writeEvidence(nv int, v *workerMsg, replay, buildInfo string, buildS float64, detN int) {
	wall := time.Since(c.start).Seconds()
	var samples []any
	for i := uint64(0); i < 3; i++ {
		s := SpecFor(c.prop, c.base+i, "")
		ops := s.Plan.Ops
		if len(ops) > 12 {
			ops = ops[:12]
		}
		samples = append(samples, map[string]any{"seed": s.Seed, "scenario": s.Scenario, "params": s.Plan.P, "first_ops": ops, "ops": len(s.Plan.Ops), "kernel": s.Cfg})
	}
	if v != nil {
		samples = append(samples, map[string]any{"violation": v.Res.Class + ": " + v.Res.Msg, "seed": v.Spec.Seed, "replay": replay})
	}
	var bi any
	if b, err := os.ReadFile(buildInfo); err == nil {
		json.Unmarshal(b, &bi)
	}
	cov := map[string]any{
		"evaluations":         c.agg.Runs,
		"distinct_nontrivial": len(c.hashes),
		"rule": c.prop.Rule + " Each run: one seed decides workload, swarm parameters, every goroutine choice, preemption, pause, latency and fault. " +
			"Counted as distinct by the run hash (sequence of resumed goroutines and of logged events); runs that exercised nothing or were cut off are not counted.",
		"samples":                    samples,
		"runs_per_hour":              int(float64(c.agg.Runs) / wall * 3600),
		"simulated_time_s":           float64(c.agg.SimNs) / 1e9,
		"runs_per_scenario":          c.agg.PerScn,
		"faults_injected":            c.agg.Faults,
		"probes":                     c.agg.Probes,
		"statements_executed":        c.agg.Steps,
		"scheduling_decisions":       c.agg.Picks,
		"preemptions":                c.agg.Preempt,
		"simulated_pauses":           c.agg.Pauses,
		"max_goroutines":             c.agg.MaxGor,
		"cut_off":                    c.agg.Cut,
		"trivial_runs":               c.agg.Trivial,
		"first_seed":                 c.base,
		"determinism_selftest_runs":  2 * detN,
		"real_components":            c.prop.Real,
		"simulated_components":       c.prop.Stub,
		"instrumentation":            bi,
		"build_s":                    buildS,
		"known_findings_met":         c.knownN,
		"worker_restarts_for_memory": c.respN,
	}
	if len(c.errs) > 0 {
		cov["errors"] = c.errs
	}
	ev := map[string]any{"property": c.prop.ID, "tier": c.tier, "seed": c.seed, "level": "exploration", "coverage": cov,
		"assumptions": append([]string{
			"the Go toolchain, its patched runtime scheduler and testing/synctest's fake clock behave like Go for sequentially consistent programs (no weak-memory effects)",
			"preemption happens at statement boundaries of repository code and at blocking operations",
			"reduction-protocol message types are reconstructed from their uses (stubs/reduction-protocol)",
		}, c.prop.Assume...),
		"wall_s": wall + buildS, "violations": nv}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(c.verif, "evidence")
	os.MkdirAll(dir, 0o755)
	os.WriteFile(filepath.Join(dir, c.prop.ID+".json"), b, 0o644)
}
