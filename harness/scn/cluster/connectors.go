package cluster

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"io"
	"net/http"
	"slices"
	"strconv"
	"strings"
	"time"

	"reduction.dev/reduction-protocol/jobconfigpb"
	"reduction.dev/reduction/connectors"
	"reduction.dev/reduction/connectors/embedded"
	"reduction.dev/reduction/connectors/httpapi"
	"reduction.dev/reduction/proto/snapshotpb"
	"reduction.dev/reduction/proto/workerpb"
	"reduction.dev/reduction/zz_verif/sim"
	"reduction.dev/reduction/zz_verif/simrt"
)

// realSource is a source whose splitter and readers are the repository's.
type realSource interface {
	config(j *jproc) connectors.SourceConfig
	reader(c *jobconfigpb.Source) connectors.SourceReader // nil: the default one
	cursor(b []byte) int                                  // position of a cursor
	states(jc *snapshotpb.JobCheckpoint) []int
	payload(b []byte) []byte
}

// assigned checks an assignment, which has all splits at once.
func (w *FW) assigned(a *asm, m map[string][]*workerpb.SourceSplit) {
	e := w.e
	n := 0
	seen := map[string]bool{}
	base := w.base[a.from]
	if base == nil && a.from != 0 {
		e.Fail("other checkpoint", "assembly %d starts from checkpoint %d, which wasn't published", a.n, a.from)
	}
	for _, id := range sim.SortedKeys(m) {
		if !slices.Contains(a.srs, id) {
			e.Fail("assignment", "splits are assigned to %s, which isn't in the assembly", id)
		}
		for _, sp := range m[id] {
			if seen[sp.SplitId] {
				e.Fail("assigned twice", "assembly %d: split %q is assigned twice", a.n, sp.SplitId)
			}
			seen[sp.SplitId] = true
			n++
			i := 0
			if sp.SplitId != "only" {
				var err error
				if i, err = strconv.Atoi(sp.SplitId); err != nil || i >= len(w.src.splits) {
					e.Fail("assignment", "%q, which isn't a split, is assigned", sp.SplitId)
				}
			}
			pos, want := w.real.cursor(sp.Cursor), 0
			if i < len(base) {
				want = base[i]
			}
			e.Log("assembly %d: split %s is assigned to %s from %d", a.n, sp.SplitId, short([]string{id}), pos)
			e.Probe("split assigned")
			if pos > 0 {
				e.Probe("split resumed")
			}
			if pos != want {
				e.Fail("position", "assembly %d: split %s is assigned from position %d, its position in checkpoint %d is %d", a.n, sp.SplitId, pos, a.from, want)
			}
		}
	}
	if n != len(w.src.splits) {
		e.Fail("assignment", "assembly %d: %d of %d splits are assigned", a.n, n, len(w.src.splits))
	}
}

// checked lets assigned see what a splitter assigns.
func checked(a *asm, hooks connectors.SourceSplitterHooks) connectors.SourceSplitterHooks {
	assign := hooks.AssignSplits
	hooks.AssignSplits = func(m map[string][]*workerpb.SourceSplit) {
		a.j.w.assigned(a, m)
		assign(m)
	}
	return hooks
}

// ---- the embedded source: every split has infinitely many numbers ----

type embeddedSource struct {
	w    *FW
	conf embedded.SourceConfig
	rand *simrt.Rand
}

func newEmbeddedSource(w *FW) *embeddedSource {
	return &embeddedSource{w: w, rand: simrt.NewRand(uint64(w.p.Int("kseed")) + 1),
		conf: embedded.SourceConfig{SplitCount: len(w.src.splits), BatchSize: w.src.batch}}
}

type fullEmbedded struct {
	embedded.SourceConfig
	j *jproc
}

func (s *embeddedSource) config(j *jproc) connectors.SourceConfig { return &fullEmbedded{s.conf, j} }

func (c *fullEmbedded) NewSourceSplitter(ids []string, hooks connectors.SourceSplitterHooks, errs chan<- error) connectors.SourceSplitter {
	a := c.j.newAsm(ids)
	return &fullSplitter{c.SourceConfig.NewSourceSplitter(ids, checked(a, hooks), errs), a}
}

// slowReader takes its time for every read.
type slowReader struct {
	connectors.SourceReader
	w *FW
}

func (r *slowReader) ReadEvents() ([][]byte, error) {
	d := r.w.src.poll
	if !r.w.settling.IsZero() {
		d = max(d, 50*time.Millisecond)
		if time.Since(r.w.settling) > time.Minute {
			d *= 10
		}
	}
	time.Sleep(d)
	return r.SourceReader.ReadEvents()
}

func (s *embeddedSource) reader(c *jobconfigpb.Source) connectors.SourceReader {
	conf := embedded.SourceConfigFromProto(c.GetEmbedded())
	return &slowReader{conf.NewSourceReader(connectors.SourceReaderHooks{}), s.w}
}

func (s *embeddedSource) at(cursor int) int {
	if cursor%s.conf.SplitCount != 0 {
		s.w.e.Fail("cursor", "%d isn't a position", cursor)
	}
	return cursor / s.conf.SplitCount
}

func (s *embeddedSource) cursor(b []byte) int {
	if len(b) == 0 {
		return 0
	}
	return s.at(int(binary.BigEndian.Uint64(b)))
}

func (s *embeddedSource) states(jc *snapshotpb.JobCheckpoint) []int {
	w := s.w
	pos := make([]int, len(w.src.splits))
	seen := map[int]bool{}
	for _, st := range jc.SourceCheckpoints[0].SplitStates {
		var x struct {
			Cursor  int
			SplitID string
		}
		err := json.Unmarshal(st, &x)
		i, err2 := strconv.Atoi(x.SplitID)
		if err != nil || err2 != nil || i >= len(pos) || seen[i] {
			w.e.Fail("checkpoint", "checkpoint %d: split state %q: %v, or of no split or one with two", jc.Id, st, err)
		}
		seen[i] = true
		pos[i] = s.at(x.Cursor)
		if pos[i] > len(w.src.splits[i]) {
			w.e.Fail("lost", "checkpoint %d has split %d at %d, only %d of its records were handled", jc.Id, i, pos[i], len(w.src.splits[i]))
		}
	}
	return pos
}

// payload makes the records of the numbers as they arrive.
func (s *embeddedSource) payload(b []byte) []byte {
	w := s.w
	n, err := strconv.Atoi(string(b))
	if err != nil {
		w.e.Fail("record", "KeyEventBatch gets %q: %v", b, err)
	}
	sp, idx := n%s.conf.SplitCount, n/s.conf.SplitCount
	for len(w.src.splits[sp]) <= idx {
		w.src.add(sp, w.src.genEvents(sp, s.rand, w.keys, int64(w.p.Int("dt")), w.p.Int("fan")))
	}
	return recordBytes(w.src.splits[sp][idx])
}

// ---- the HTTP source: one split ----

type httpSource struct{ w *FW }

type fullHTTP struct {
	httpapi.SourceConfig
	j *jproc
}

func newHTTPSource(w *FW) *httpSource {
	s := &httpSource{w}
	http.DefaultTransport = s
	return s
}

func (s *httpSource) config(j *jproc) connectors.SourceConfig {
	return &fullHTTP{httpapi.SourceConfig{Addr: "http://source.sim", Topics: []string{"t"}}, j}
}

func (c *fullHTTP) NewSourceSplitter(ids []string, hooks connectors.SourceSplitterHooks, errs chan<- error) connectors.SourceSplitter {
	a := c.j.newAsm(ids)
	return &fullSplitter{c.SourceConfig.NewSourceSplitter(ids, checked(a, hooks), errs), a}
}

func (s *httpSource) reader(*jobconfigpb.Source) connectors.SourceReader { return nil }
func (s *httpSource) payload(b []byte) []byte                            { return b }

func (s *httpSource) cursor(b []byte) int {
	if len(b) == 0 {
		return 0
	}
	return int(binary.BigEndian.Uint64(b))
}

func (s *httpSource) states(jc *snapshotpb.JobCheckpoint) []int {
	st := jc.SourceCheckpoints[0].SplitStates
	if len(st) > 1 || len(st) == 1 && len(st[0]) != 8 {
		s.w.e.Fail("checkpoint", "checkpoint %d has the split states %x", jc.Id, st)
	}
	pos := 0
	if len(st) == 1 {
		pos = s.cursor(st[0])
	}
	if pos > len(s.w.src.splits[0]) {
		s.w.e.Fail("checkpoint", "checkpoint %d has position %d, there are %d records", jc.Id, pos, len(s.w.src.splits[0]))
	}
	return []int{pos}
}

// RoundTrip is the server: GET /topics/t/<cursor>.
func (s *httpSource) RoundTrip(r *http.Request) (*http.Response, error) {
	w, e := s.w, s.w.e
	if l := e.Lat("source latency", w.src.latP, w.src.lat); l > 0 {
		if !w.net.wait(r.Context(), nil, l) {
			return nil, r.Context().Err()
		}
	}
	fault := 0
	if w.src.errP > 0 {
		fault = e.Choose("source error", w.src.errP/10, 4)
	}
	resp := func(status int, body []byte) (*http.Response, error) {
		return &http.Response{StatusCode: status, Status: http.StatusText(status), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
			Header: http.Header{}, Request: r, ContentLength: int64(len(body)), Body: io.NopCloser(bytes.NewReader(body))}, nil
	}
	path := strings.Split(r.URL.Path, "/")
	if r.URL.Host != "source.sim" || len(path) != 4 || path[1] != "topics" || path[2] != "t" {
		e.Fail("request", "unexpected request %s", r.URL)
	}
	from, err := strconv.Atoi(path[3])
	recs := w.src.splits[0]
	if err != nil || from < 0 || from > len(recs) {
		e.Fail("cursor", "request for position %q of %d", path[3], len(recs))
	}
	switch fault {
	case 1:
		return nil, errRefused
	case 2:
		return resp(503, nil)
	}
	n := 1 + e.R.Intn(w.src.batch)
	if !w.settling.IsZero() {
		n = max(n, 20)
	}
	to := min(len(recs), from+n)
	out := httpapi.HTTPSourceEvent{Events: [][]byte{}, Cursor: to}
	for _, rec := range recs[from:to] {
		out.Events = append(out.Events, recordBytes(rec))
	}
	if to == len(recs) && w.ended() {
		out.Status = "eoi"
		e.Probe("end of input")
	}
	b, _ := json.Marshal(out)
	switch fault {
	case 3:
		return nil, errReset
	case 4: // cut off
		b = b[:e.R.Intn(len(b))]
	}
	return resp(200, b)
}

// ended: no more records will come.
func (w *FW) ended() bool {
	if w.p.Int("eoi") == 0 {
		return false
	}
	n := 0
	for _, op := range w.p.Ops {
		if op.K == "add" {
			n++
		}
	}
	return w.adds == n
}

func genConnectors(prop string) func(r *simrt.Rand, size int) sim.Plan {
	full := genFull(prop)
	return func(r *simrt.Rand, size int) sim.Plan {
		p := full(r, size)
		set := func(k string, v int) { p.P[k] = int64(v) }
		set("timers", 0)
		if r.Chance(0.5) {
			set("source", 2)
			set("srcerr", 0)
			set("splits", r.Range(1, 6))
			set("rbatch", r.Pick(1, 1, 2, 5))
			set("poll", r.Pick(100_000, 500_000, 2_000_000))
			return p
		}
		set("source", 3)
		set("splits", 1)
		set("eoi", r.Pick(0, 1))
		if r.Chance(0.5) {
			set("rbatch", r.Pick(5, 20))
		}
		if p.P["srcerr"] > 0 {
			set("srcerr", r.Pick(10, 50, 150))
		}
		return p
	}
}
