// Package dkv simulates the embedded key-value store (C07, C08, C09, C17, C18).
package dkvscn

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net/url"
	"strings"
	"syscall"
	"time"

	"github.com/aws/aws-sdk-go-v2/service/s3"
	"github.com/aws/aws-sdk-go-v2/service/s3/types"
	"reduction.dev/reduction/dkv/storage"
	"reduction.dev/reduction/storage/objstore"
	"reduction.dev/reduction/zz_verif/sim"
	"reduction.dev/reduction/zz_verif/simos"
	"reduction.dev/reduction/zz_verif/simrt"
)

// Disk is the simulated storage of one run: the real local file system code
// over a simulated kernel, the real in-memory file system, or the real S3 file
// system over the repository's in-memory S3 service; latency, errors and
// change events come from here.
type Disk struct {
	E    *sim.Env
	Kind int // 0 local, 1 memory, 2 s3
	LatP float64
	Lat  time.Duration
	// ErrP is the probability that a call fails; ErrOps limits it to some calls.
	ErrP    float64
	ErrOps  map[string]bool
	Errs    int // injected errors so far
	Busy    int // calls in progress
	OnEvent func(op, path string)
	// Skip exempts the calling goroutine from latency and errors.
	Skip    func() bool
	calls   map[string]int // small calls per path
	mem     *storage.MemoryFilesystem
	s3      *memS3
	Removed []string
}

var errIO = errors.New("simulated disk error")

func NewDisk(e *sim.Env, p *sim.Plan) *Disk {
	d := &Disk{E: e, calls: map[string]int{}, Kind: p.Int("fs"), LatP: float64(p.Int("latp")) / 1000, Lat: time.Duration(p.Int("lat")) * time.Microsecond}
	simos.Reset()
	simos.Hook = func(op, path string, n int) (dec simos.Decision) {
		if op == "close" || d.Skip != nil && d.Skip() {
			return
		}
		// Small reads and writes go to the page cache; only some meet the disk.
		if (op == "read" || op == "write" || op == "open") && n <= 64 {
			d.calls[path]++
			if d.calls[path]%12 != 1 {
				return
			}
		}
		dec.Delay = d.E.Lat("disk latency", d.LatP, d.Lat)
		if op == "write" && n > 8 && d.LatP > 0 && d.E.Choose("split write", d.LatP/4, 1) == 1 {
			dec.Part = n / 2
			dec.Gap = d.E.Lat("", 1, d.Lat)
		}
		if err := d.fail(op, path); err != nil {
			dec.Err = err
			if op == "write" && n > 1 && d.E.Choose("short write", 0.5, 1) == 1 {
				dec.Part = n / 2
			} else {
				dec.Part = 0
			}
		}
		return
	}
	simos.OnEvent = func(ev simos.Event) {
		switch ev.Op {
		case "remove":
			d.event("remove", ev.Path)
		case "rename":
			d.event("create", ev.To)
		case "create":
			d.event("create", ev.Path)
		}
	}
	switch d.Kind {
	case 1:
		d.mem = storage.NewMemoryFilesystem()
	case 2:
		d.s3 = &memS3{map[string][]byte{}}
	}
	return d
}

func (d *Disk) event(op, path string) {
	if op == "remove" {
		d.Removed = append(d.Removed, path)
		d.E.Probe("file removed")
	}
	d.E.Log("disk %s %s", op, path)
	if d.OnEvent != nil {
		d.OnEvent(op, path)
	}
}

func (d *Disk) fail(op, path string) error {
	if d.ErrP == 0 || !d.ErrOps[op] {
		return nil
	}
	switch d.E.Choose("disk error", d.ErrP, 2) {
	case 1:
		d.Errs++
		d.E.Log("disk error EIO %s %s", op, path)
		return syscall.EIO
	case 2:
		d.Errs++
		d.E.Log("disk error ENOSPC %s %s", op, path)
		return syscall.ENOSPC
	}
	return nil
}

// FS opens a file system rooted at a directory, as one process would.
func (d *Disk) FS(dir string) storage.FileSystem {
	switch d.Kind {
	case 1:
		return &slowFS{d, d.mem.WithWorkingDir("/" + dir)}
	case 2:
		return &slowFS{d, storage.NewS3FileSystem(d.s3, "bucket", dir)}
	}
	return storage.NewLocalFilesystem("/data/" + dir)
}

// slowFS adds latency, errors and events to a file system that has no seam below it.
type slowFS struct {
	d     *Disk
	inner storage.FileSystem
}

func (s *slowFS) New(p string) storage.File  { return &slowFile{s.d, s.inner.New(p)} }
func (s *slowFS) Open(p string) storage.File { return &slowFile{s.d, s.inner.Open(p)} }
func (s *slowFS) Copy(a, b string) error {
	if err := s.d.op("write", b); err != nil {
		return err
	}
	s.d.enter()
	defer s.d.exit()
	return s.inner.Copy(a, b)
}

func (d *Disk) enter() { d.Busy++ }
func (d *Disk) exit()  { d.Busy-- }

func (d *Disk) op(op, path string) error {
	if l := d.E.Lat("disk latency", d.LatP, d.Lat); l > 0 {
		time.Sleep(l)
	}
	return d.fail(op, path)
}

type slowFile struct {
	d     *Disk
	inner storage.File
}

func (f *slowFile) ReadAt(b []byte, off int64) (int, error) {
	if len(b) <= 64 {
		if f.d.calls[f.inner.Name()]++; f.d.calls[f.inner.Name()]%12 != 1 {
			f.d.enter()
			defer f.d.exit()
			return f.inner.ReadAt(b, off)
		}
	}
	if err := f.d.op("read", ""); err != nil {
		return 0, err
	}
	f.d.enter()
	defer f.d.exit()
	return f.inner.ReadAt(b, off)
}
func (f *slowFile) Write(b []byte) (int, error) {
	if len(b) <= 64 {
		if f.d.calls[f.inner.Name()]++; f.d.calls[f.inner.Name()]%12 != 1 {
			f.d.enter()
			defer f.d.exit()
			return f.inner.Write(b)
		}
	}
	if err := f.d.op("write", f.inner.Name()); err != nil {
		return 0, err
	}
	f.d.enter()
	defer f.d.exit()
	return f.inner.Write(b)
}
func (f *slowFile) Save() error {
	if err := f.d.op("rename", f.inner.Name()); err != nil {
		return err
	}
	f.d.enter()
	err := f.inner.Save()
	f.d.exit()
	f.d.event("create", f.inner.URI())
	return err
}
func (f *slowFile) Delete() error {
	if err := f.d.op("remove", f.inner.Name()); err != nil {
		return err
	}
	f.d.enter()
	err := f.inner.Delete()
	f.d.exit()
	f.d.event("remove", f.inner.URI())
	return err
}
func (f *slowFile) Name() string { return f.inner.Name() }
func (f *slowFile) URI() string  { return f.inner.URI() }
func (f *slowFile) Size() int64  { return f.inner.Size() }
func (f *slowFile) CreateDeleteFunc() func() error {
	d, uri, fn := f.d, f.inner.URI(), f.inner.CreateDeleteFunc()
	return func() error {
		if err := d.op("remove", uri); err != nil {
			return err
		}
		d.enter()
		err := fn()
		d.exit()
		d.event("remove", uri)
		return err
	}
}

// ---- keys and values ----

// Keys makes the key universe of a run.
func Keys(style, n int, seed uint64) [][]byte {
	r := simrt.NewRand(seed ^ 0x6b657973)
	out := make([][]byte, 0, n)
	seen := map[string]bool{}
	alpha := []byte{0, 'a', 'b', 0x7f, 0x80, 0xff}
	for tries := 0; len(out) < n; tries++ {
		var k []byte
		switch style {
		case 0:
			k = []byte(fmt.Sprintf("k%03d", len(out)))
		case 1: // short strings over few symbols: prefixes of each other, empty key
			k = make([]byte, r.Intn(4+tries/50))
			for i := range k {
				k[i] = alpha[r.Intn(len(alpha))]
			}
		case 2: // like the operator's keys: key group, schema byte, length, text
			kg := r.Pick(0, 1, 127, 128, 200, 255, 256, 1000)
			k = append([]byte{byte(kg >> 8), byte(kg), byte(r.Intn(2))}, []byte(fmt.Sprintf("\x00\x00\x00\x03u%02d", r.Intn(30)))...)
			if r.Chance(0.5) {
				k = append(k, byte(r.Intn(256)))
			}
		case 4: // long ones, of lengths around those where a byte or two overflow
			l := r.Pick(0, 1, 2, 127, 128, 254, 255, 256, 257, 258, 512, 65535, 65536, 65537)
			if n > 30 && l > 512 {
				l = 300
			}
			k = bytes.Repeat([]byte{'a'}, l+len(out)/14+tries/200)
		default: // arbitrary bytes
			k = r.Bytes(r.Range(0, 12))
		}
		if !seen[string(k)] {
			seen[string(k)] = true
			out = append(out, k)
		}
	}
	return out
}

// Value is unique per write unless it is empty.
func Value(n, size int) []byte {
	if size == 0 && n%2 == 0 {
		return nil
	}
	if size == 0 {
		return []byte{}
	}
	v := []byte(fmt.Sprintf("v%d.", n))
	for len(v) < size {
		v = append(v, byte(n+len(v)*7))
	}
	return v
}

func q(b []byte) string {
	if len(b) > 24 {
		return fmt.Sprintf("%q…(%d)", b[:24], len(b))
	}
	return fmt.Sprintf("%q", b)
}

func short(ss []string) string {
	if len(ss) > 12 {
		return strings.Join(ss[:12], ",") + fmt.Sprintf("…(%d)", len(ss))
	}
	return strings.Join(ss, ",")
}

// S3 is the object store of the run, or nil.
func (d *Disk) S3() objstore.S3Service {
	if d.s3 == nil {
		return nil
	}
	return &slowS3{d, d.s3}
}

// Wipe deletes everything that isn't to be kept.
func (d *Disk) Wipe(keep func(path string) bool) {
	for _, p := range simos.List("/") {
		if !keep(p) {
			simos.Delete(p)
		}
	}
	if d.s3 != nil {
		for k := range d.s3.objects {
			if !keep(k) {
				delete(d.s3.objects, k)
			}
		}
	}
}

// PutFile writes one of the job's files and returns its URI.
func (d *Disk) PutFile(name string, b []byte) string {
	if d.Kind == 2 {
		d.s3.objects[name] = b
		return "s3://bucket/" + name
	}
	simos.Put("/data/"+name, b)
	return "/data/" + name
}

// Files lists the job's files and what they contain, without latency or errors.
func (d *Disk) Files(dir string) map[string][]byte {
	out := map[string][]byte{}
	if d.Kind == 2 {
		for k, b := range d.s3.objects {
			if strings.HasPrefix(k, dir) {
				out[k] = b
			}
		}
		return out
	}
	for _, f := range simos.List("/data/" + dir) {
		out[f], _ = simos.Peek(f)
	}
	return out
}

// Peek is the contents of a file or object with a path or URI as in events.
func (d *Disk) Peek(path string) []byte {
	if d.Kind == 2 {
		return d.s3.objects[strings.TrimPrefix(path, "s3://bucket/")]
	}
	b, _ := simos.Peek(path)
	return b
}

// memS3 is an object store with one bucket. Its calls are atomic.
type memS3 struct{ objects map[string][]byte }

func (m *memS3) CopyObject(ctx context.Context, in *s3.CopyObjectInput, o ...func(*s3.Options)) (*s3.CopyObjectOutput, error) {
	src, err := url.PathUnescape(*in.CopySource)
	if err != nil {
		return nil, err
	}
	b, ok := m.objects[strings.TrimPrefix(strings.TrimPrefix(src, "/"), *in.Bucket+"/")]
	if !ok {
		return nil, &types.NoSuchKey{}
	}
	m.objects[*in.Key] = b
	return &s3.CopyObjectOutput{}, nil
}

func (m *memS3) GetObject(ctx context.Context, in *s3.GetObjectInput, o ...func(*s3.Options)) (*s3.GetObjectOutput, error) {
	b, ok := m.objects[*in.Key]
	if !ok {
		return nil, &types.NoSuchKey{}
	}
	n := int64(len(b))
	return &s3.GetObjectOutput{Body: io.NopCloser(bytes.NewReader(b)), ContentLength: &n}, nil
}

func (m *memS3) HeadObject(ctx context.Context, in *s3.HeadObjectInput, o ...func(*s3.Options)) (*s3.HeadObjectOutput, error) {
	b, ok := m.objects[*in.Key]
	if !ok {
		return nil, &types.NoSuchKey{}
	}
	n := int64(len(b))
	return &s3.HeadObjectOutput{ContentLength: &n}, nil
}

func (m *memS3) ListObjectsV2(ctx context.Context, in *s3.ListObjectsV2Input, o ...func(*s3.Options)) (*s3.ListObjectsV2Output, error) {
	prefix := ""
	if in.Prefix != nil {
		prefix = *in.Prefix
	}
	out := &s3.ListObjectsV2Output{}
	for _, k := range sim.SortedKeys(m.objects) {
		if strings.HasPrefix(k, prefix) {
			n := int64(len(m.objects[k]))
			out.Contents = append(out.Contents, types.Object{Key: &k, Size: &n})
		}
	}
	return out, nil
}

func (m *memS3) PutObject(ctx context.Context, in *s3.PutObjectInput, o ...func(*s3.Options)) (*s3.PutObjectOutput, error) {
	b, err := io.ReadAll(in.Body)
	if err != nil {
		return nil, err
	}
	m.objects[*in.Key] = b
	return &s3.PutObjectOutput{}, nil
}

func (m *memS3) DeleteObject(ctx context.Context, in *s3.DeleteObjectInput, o ...func(*s3.Options)) (*s3.DeleteObjectOutput, error) {
	delete(m.objects, *in.Key)
	return &s3.DeleteObjectOutput{}, nil
}

// slowS3 adds latency, errors and events to the in-memory object store.
type slowS3 struct {
	d *Disk
	objstore.S3Service
}

func (s *slowS3) call(op string, key *string, fn func()) error {
	k := ""
	if key != nil {
		k = *key
	}
	if err := s.d.op(op, k); err != nil {
		return err
	}
	fn()
	// The answer may take its time, too.
	if l := s.d.E.Lat("disk latency", s.d.LatP/2, s.d.Lat); l > 0 {
		time.Sleep(l)
	}
	return nil
}

func (s *slowS3) CopyObject(ctx context.Context, in *s3.CopyObjectInput, o ...func(*s3.Options)) (out *s3.CopyObjectOutput, err error) {
	if e := s.call("write", in.Key, func() {
		if out, err = s.S3Service.CopyObject(ctx, in, o...); err == nil {
			s.d.event("create", *in.Key)
		}
	}); e != nil {
		return nil, e
	}
	return
}

func (s *slowS3) GetObject(ctx context.Context, in *s3.GetObjectInput, o ...func(*s3.Options)) (out *s3.GetObjectOutput, err error) {
	if e := s.call("read", in.Key, func() { out, err = s.S3Service.GetObject(ctx, in, o...) }); e != nil {
		return nil, e
	}
	return
}

func (s *slowS3) HeadObject(ctx context.Context, in *s3.HeadObjectInput, o ...func(*s3.Options)) (out *s3.HeadObjectOutput, err error) {
	if e := s.call("read", in.Key, func() { out, err = s.S3Service.HeadObject(ctx, in, o...) }); e != nil {
		return nil, e
	}
	return
}

func (s *slowS3) ListObjectsV2(ctx context.Context, in *s3.ListObjectsV2Input, o ...func(*s3.Options)) (out *s3.ListObjectsV2Output, err error) {
	if e := s.call("read", in.Prefix, func() { out, err = s.S3Service.ListObjectsV2(ctx, in, o...) }); e != nil {
		return nil, e
	}
	return
}

func (s *slowS3) PutObject(ctx context.Context, in *s3.PutObjectInput, o ...func(*s3.Options)) (out *s3.PutObjectOutput, err error) {
	body, err := io.ReadAll(in.Body)
	if err != nil {
		return nil, err
	}
	in.Body = bytes.NewReader(body)
	if e := s.call("write", in.Key, func() {
		if out, err = s.S3Service.PutObject(ctx, in, o...); err == nil {
			s.d.event("create", *in.Key)
		}
	}); e != nil {
		return nil, e
	}
	return
}

func (s *slowS3) DeleteObject(ctx context.Context, in *s3.DeleteObjectInput, o ...func(*s3.Options)) (out *s3.DeleteObjectOutput, err error) {
	if e := s.call("remove", in.Key, func() {
		if out, err = s.S3Service.DeleteObject(ctx, in, o...); err == nil {
			s.d.event("remove", *in.Key)
		}
	}); e != nil {
		return nil, e
	}
	return
}
