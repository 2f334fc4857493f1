// Package simos stands in for package os in the repository's storage code: an
// in-memory file system shared by all simulated nodes, with Unix semantics
// (open handles survive removal and renaming) and a hook in every system call
// that decides latency, errors, short writes and torn writes. What a completed
// call did survives the crash of the calling process; what it had not done yet
// is lost.
package simos

import (
	"fmt"
	"io"
	"io/fs"
	"os"
	"path"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Types and values shared with the real package.
type (
	FileMode     = os.FileMode
	FileInfo     = os.FileInfo
	DirEntry     = os.DirEntry
	PathError    = os.PathError
	LinkError    = os.LinkError
	SyscallError = os.SyscallError
	Signal       = os.Signal
	Process      = os.Process
)

const (
	O_RDONLY          = os.O_RDONLY
	O_WRONLY          = os.O_WRONLY
	O_RDWR            = os.O_RDWR
	O_APPEND          = os.O_APPEND
	O_CREATE          = os.O_CREATE
	O_EXCL            = os.O_EXCL
	O_SYNC            = os.O_SYNC
	O_TRUNC           = os.O_TRUNC
	PathSeparator     = os.PathSeparator
	PathListSeparator = os.PathListSeparator
	DevNull           = os.DevNull
	ModePerm          = os.ModePerm
	ModeDir           = os.ModeDir
	ModeAppend        = os.ModeAppend
	ModeType          = os.ModeType
	SEEK_SET          = 0
	SEEK_CUR          = 1
	SEEK_END          = 2
)

var (
	ErrInvalid          = os.ErrInvalid
	ErrPermission       = os.ErrPermission
	ErrExist            = os.ErrExist
	ErrNotExist         = os.ErrNotExist
	ErrClosed           = os.ErrClosed
	ErrNoDeadline       = os.ErrNoDeadline
	ErrDeadlineExceeded = os.ErrDeadlineExceeded
	ErrProcessDone      = os.ErrProcessDone
	Stdin               = os.Stdin
	Stdout              = os.Stdout
	Stderr              = os.Stderr
	Args                = os.Args
	Interrupt           = os.Interrupt
	Kill                = os.Kill
)

func IsNotExist(err error) bool               { return os.IsNotExist(err) }
func IsExist(err error) bool                  { return os.IsExist(err) }
func IsPermission(err error) bool             { return os.IsPermission(err) }
func IsTimeout(err error) bool                { return os.IsTimeout(err) }
func IsPathSeparator(c uint8) bool            { return os.IsPathSeparator(c) }
func Getenv(k string) string                  { return os.Getenv(k) }
func LookupEnv(k string) (string, bool)       { return os.LookupEnv(k) }
func Environ() []string                       { return os.Environ() }
func ExpandEnv(s string) string               { return os.ExpandEnv(s) }
func Hostname() (string, error)               { return "sim", nil }
func Getpid() int                             { return 1000 }
func Exit(code int)                           { panic(fmt.Sprintf("os.Exit(%d)", code)) }
func Getwd() (string, error)                  { return "/", nil }
func TempDir() string                         { return "/tmp" }
func UserHomeDir() (string, error)            { return "/root", nil }
func NewSyscallError(s string, e error) error { return os.NewSyscallError(s, e) }

// Event records a change of the name space.
type Event struct {
	Op   string // create, write, remove, rename
	Path string
	To   string
}

// Decision is what the hook wants for one call.
type Decision struct {
	Delay time.Duration // before the effect
	Err   error         // fail without effect (or after Part)
	Part  int           // for writes: bytes applied before Gap and Err
	Gap   time.Duration // pause between the two halves of a torn write
}

var (
	// Hook decides the fate of every call; nil means no faults.
	Hook func(op, path string, n int) Decision
	// OnEvent observes changes after they took effect.
	OnEvent func(Event)
)

type inode struct {
	data   []byte
	dir    bool
	mtime  time.Time
	nlink  int
	synced int // bytes that survive a power loss
}

type fsys struct {
	nodes map[string]*inode
	tmp   int
}

var cur = &fsys{nodes: map[string]*inode{"/": {dir: true}}}

// Reset empties the file system (start of a run).
func Reset() {
	cur = &fsys{nodes: map[string]*inode{"/": {dir: true}, "/tmp": {dir: true}}}
	Hook, OnEvent = nil, nil
}

// Exists reports whether a file exists (no fault, no delay).
func Exists(p string) bool { _, ok := cur.nodes[clean(p)]; return ok }

// Peek returns the contents of a file (no fault, no delay).
func Peek(p string) ([]byte, bool) {
	n, ok := cur.nodes[clean(p)]
	if !ok || n.dir {
		return nil, false
	}
	return n.data, true
}

// List returns all files below a directory in order (no fault, no delay).
func List(dir string) []string {
	dir = clean(dir)
	if dir != "/" {
		dir += "/"
	}
	var out []string
	for p, n := range cur.nodes {
		if !n.dir && strings.HasPrefix(p, dir) {
			out = append(out, p)
		}
	}
	sort.Strings(out)
	return out
}

// Put writes a file directly (no fault, no delay).
func Put(p string, b []byte) {
	p = clean(p)
	cur.mkdirAll(path.Dir(p))
	cur.nodes[p] = &inode{data: append([]byte(nil), b...), mtime: time.Now(), synced: len(b)}
}

// Delete removes a file directly (no fault, no delay).
func Delete(p string) { delete(cur.nodes, clean(p)) }

// PowerLoss drops everything that was written to files and not synced. Changes
// to directories are durable in order, as on a journaling file system.
func PowerLoss() {
	for _, n := range cur.nodes {
		if !n.dir && n.synced < len(n.data) {
			n.data = n.data[:n.synced]
		}
	}
}

func clean(p string) string {
	if !strings.HasPrefix(p, "/") {
		p = "/" + p
	}
	return path.Clean(p)
}

func (f *fsys) mkdirAll(p string) error {
	for _, q := range prefixes(p) {
		if n, ok := f.nodes[q]; ok {
			if !n.dir {
				return syscall.ENOTDIR
			}
			continue
		}
		f.nodes[q] = &inode{dir: true, mtime: time.Now()}
	}
	return nil
}

func prefixes(p string) []string {
	p = clean(p)
	out := []string{"/"}
	for i := 1; i < len(p); i++ {
		if p[i] == '/' {
			out = append(out, p[:i])
		}
	}
	if p != "/" {
		out = append(out, p)
	}
	return out
}

func call(op, p string, n int) (Decision, error) {
	if Hook == nil {
		return Decision{}, nil
	}
	d := Hook(op, p, n)
	if d.Delay > 0 {
		time.Sleep(d.Delay)
	}
	if d.Err != nil && d.Part == 0 {
		return d, d.Err
	}
	return d, nil
}

func event(op, p, to string) {
	if OnEvent != nil {
		OnEvent(Event{op, p, to})
	}
}

func perr(op, p string, err error) error { return &PathError{Op: op, Path: p, Err: err} }

// File mirrors os.File.
type File struct {
	name   string
	node   *inode
	path   string
	off    int64
	flag   int
	closed bool
	mu     sync.Mutex
	dirPos int
}

func Open(name string) (*File, error)   { return OpenFile(name, O_RDONLY, 0) }
func Create(name string) (*File, error) { return OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0o666) }

func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	p := clean(name)
	if _, err := call("open", p, 0); err != nil {
		return nil, perr("open", name, err)
	}
	n, ok := cur.nodes[p]
	switch {
	case !ok && flag&O_CREATE == 0:
		return nil, perr("open", name, syscall.ENOENT)
	case !ok:
		d, ok := cur.nodes[path.Dir(p)]
		if !ok {
			return nil, perr("open", name, syscall.ENOENT)
		}
		if !d.dir {
			return nil, perr("open", name, syscall.ENOTDIR)
		}
		n = &inode{mtime: time.Now()}
		cur.nodes[p] = n
		event("create", p, "")
	case flag&(O_CREATE|O_EXCL) == O_CREATE|O_EXCL:
		return nil, perr("open", name, syscall.EEXIST)
	case n.dir && flag&(O_WRONLY|O_RDWR) != 0:
		return nil, perr("open", name, syscall.EISDIR)
	case flag&O_TRUNC != 0:
		n.data = nil
		n.mtime = time.Now()
		event("create", p, "")
	}
	return &File{name: name, node: n, path: p, flag: flag}, nil
}

func CreateTemp(dir, pattern string) (*File, error) {
	if dir == "" {
		dir = TempDir()
	}
	pre, suf := pattern, ""
	if i := strings.LastIndex(pattern, "*"); i >= 0 {
		pre, suf = pattern[:i], pattern[i+1:]
	}
	for {
		cur.tmp++
		f, err := OpenFile(path.Join(dir, fmt.Sprintf("%s%09d%s", pre, 100000000+cur.tmp, suf)), O_RDWR|O_CREATE|O_EXCL, 0o600)
		if IsExist(err) {
			continue
		}
		return f, err
	}
}

func MkdirTemp(dir, pattern string) (string, error) {
	if dir == "" {
		dir = TempDir()
	}
	cur.tmp++
	p := path.Join(dir, fmt.Sprintf("%s%09d", strings.TrimSuffix(pattern, "*"), 100000000+cur.tmp))
	return p, Mkdir(p, 0o700)
}

func Mkdir(name string, perm FileMode) error {
	p := clean(name)
	if _, err := call("mkdir", p, 0); err != nil {
		return perr("mkdir", name, err)
	}
	if _, ok := cur.nodes[p]; ok {
		return perr("mkdir", name, syscall.EEXIST)
	}
	if d, ok := cur.nodes[path.Dir(p)]; !ok || !d.dir {
		return perr("mkdir", name, syscall.ENOENT)
	}
	cur.nodes[p] = &inode{dir: true, mtime: time.Now()}
	return nil
}

func MkdirAll(name string, perm FileMode) error {
	p := clean(name)
	if n, ok := cur.nodes[p]; ok && n.dir {
		return nil
	}
	if _, err := call("mkdir", p, 0); err != nil {
		return perr("mkdir", name, err)
	}
	if err := cur.mkdirAll(p); err != nil {
		return perr("mkdir", name, err)
	}
	return nil
}

func children(p string) []string {
	pre := p + "/"
	if p == "/" {
		pre = "/"
	}
	var out []string
	for q := range cur.nodes {
		if q != "/" && strings.HasPrefix(q, pre) && !strings.Contains(q[len(pre):], "/") {
			out = append(out, q[len(pre):])
		}
	}
	sort.Strings(out)
	return out
}

func Remove(name string) error {
	p := clean(name)
	if _, err := call("remove", p, 0); err != nil {
		return perr("remove", name, err)
	}
	n, ok := cur.nodes[p]
	if !ok {
		return perr("remove", name, syscall.ENOENT)
	}
	if n.dir && len(children(p)) > 0 {
		return perr("remove", name, syscall.ENOTEMPTY)
	}
	delete(cur.nodes, p)
	if !n.dir {
		event("remove", p, "")
	}
	return nil
}

func RemoveAll(name string) error {
	p := clean(name)
	if _, err := call("remove", p, 0); err != nil {
		return perr("remove", name, err)
	}
	for _, c := range children(p) {
		if err := RemoveAll(path.Join(p, c)); err != nil {
			return err
		}
	}
	if n, ok := cur.nodes[p]; ok && p != "/" {
		delete(cur.nodes, p)
		if !n.dir {
			event("remove", p, "")
		}
	}
	return nil
}

func Rename(oldpath, newpath string) error {
	o, n := clean(oldpath), clean(newpath)
	lerr := func(err error) error { return &LinkError{Op: "rename", Old: oldpath, New: newpath, Err: err} }
	if _, err := call("rename", o, 0); err != nil {
		return lerr(err)
	}
	src, ok := cur.nodes[o]
	if !ok {
		return lerr(syscall.ENOENT)
	}
	if d, ok := cur.nodes[path.Dir(n)]; !ok || !d.dir {
		return lerr(syscall.ENOENT)
	}
	if dst, ok := cur.nodes[n]; ok && dst.dir != src.dir {
		return lerr(syscall.EEXIST)
	}
	if src.dir {
		var qs []string
		for q := range cur.nodes {
			if strings.HasPrefix(q, o+"/") {
				qs = append(qs, q)
			}
		}
		for _, q := range qs {
			cur.nodes[n+q[len(o):]] = cur.nodes[q]
			delete(cur.nodes, q)
		}
	}
	cur.nodes[n] = src
	if o != n {
		delete(cur.nodes, o)
	}
	event("rename", o, n)
	return nil
}

func Link(oldname, newname string) error {
	o, n := clean(oldname), clean(newname)
	if _, err := call("link", o, 0); err != nil {
		return &LinkError{Op: "link", Old: oldname, New: newname, Err: err}
	}
	src, ok := cur.nodes[o]
	if !ok {
		return &LinkError{Op: "link", Old: oldname, New: newname, Err: syscall.ENOENT}
	}
	if _, ok := cur.nodes[n]; ok {
		return &LinkError{Op: "link", Old: oldname, New: newname, Err: syscall.EEXIST}
	}
	cur.nodes[n] = src
	event("create", n, "")
	return nil
}

type info struct {
	name string
	n    *inode
	size int64
}

func (i info) Name() string { return i.name }
func (i info) Size() int64  { return i.size }
func (i info) Mode() FileMode {
	if i.n.dir {
		return os.ModeDir | 0o777
	}
	return 0o666
}
func (i info) ModTime() time.Time { return i.n.mtime }
func (i info) IsDir() bool        { return i.n.dir }
func (i info) Sys() any           { return nil }

// NewInfo describes a file for simfilepath.
func infoOf(p string, n *inode) FileInfo {
	return info{path.Base(p), n, int64(len(n.data))}
}

func Stat(name string) (FileInfo, error) {
	p := clean(name)
	if _, err := call("stat", p, 0); err != nil {
		return nil, perr("stat", name, err)
	}
	n, ok := cur.nodes[p]
	if !ok {
		return nil, perr("stat", name, syscall.ENOENT)
	}
	return infoOf(p, n), nil
}

func Lstat(name string) (FileInfo, error) { return Stat(name) }

func ReadDir(name string) ([]DirEntry, error) {
	p := clean(name)
	if _, err := call("readdir", p, 0); err != nil {
		return nil, perr("open", name, err)
	}
	n, ok := cur.nodes[p]
	if !ok {
		return nil, perr("open", name, syscall.ENOENT)
	}
	if !n.dir {
		return nil, perr("readdirent", name, syscall.ENOTDIR)
	}
	var out []DirEntry
	for _, c := range children(p) {
		q := path.Join(p, c)
		out = append(out, fs.FileInfoToDirEntry(infoOf(q, cur.nodes[q])))
	}
	return out, nil
}

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}

func WriteFile(name string, data []byte, perm FileMode) error {
	f, err := OpenFile(name, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

func Truncate(name string, size int64) error {
	f, err := OpenFile(name, O_WRONLY, 0)
	if err != nil {
		return err
	}
	return f.Truncate(size)
}

func Chmod(name string, mode FileMode) error            { return nil }
func Chtimes(name string, atime, mtime time.Time) error { return nil }
func SameFile(a, b FileInfo) bool                       { return a.(info).n == b.(info).n }
func DirFS(dir string) fs.FS                            { panic("simos: DirFS") }

func (f *File) Name() string { return f.name }
func (f *File) Fd() uintptr  { return 3 }

func (f *File) check(op string) error {
	if f == nil {
		return ErrInvalid
	}
	if f.closed {
		return perr(op, f.name, ErrClosed)
	}
	return nil
}

func (f *File) Close() error {
	if err := f.check("close"); err != nil {
		return err
	}
	f.closed = true
	if _, err := call("close", f.path, 0); err != nil {
		return perr("close", f.name, err)
	}
	return nil
}

func (f *File) Sync() error {
	if err := f.check("sync"); err != nil {
		return err
	}
	if _, err := call("sync", f.path, 0); err != nil {
		return perr("sync", f.name, err)
	}
	f.node.synced = len(f.node.data)
	return nil
}

func (f *File) Stat() (FileInfo, error) {
	if err := f.check("stat"); err != nil {
		return nil, err
	}
	return infoOf(f.path, f.node), nil
}

func (f *File) Chmod(mode FileMode) error { return f.check("chmod") }

func (f *File) Truncate(size int64) error {
	if err := f.check("truncate"); err != nil {
		return err
	}
	if _, err := call("truncate", f.path, 0); err != nil {
		return perr("truncate", f.name, err)
	}
	if int(size) <= len(f.node.data) {
		f.node.data = f.node.data[:size:size]
	} else {
		f.node.data = append(f.node.data, make([]byte, int(size)-len(f.node.data))...)
	}
	return nil
}

func (f *File) Seek(offset int64, whence int) (int64, error) {
	if err := f.check("seek"); err != nil {
		return 0, err
	}
	switch whence {
	case io.SeekStart:
		f.off = offset
	case io.SeekCurrent:
		f.off += offset
	case io.SeekEnd:
		f.off = int64(len(f.node.data)) + offset
	}
	return f.off, nil
}

func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	if off < 0 {
		return 0, perr("readat", f.name, ErrInvalid)
	}
	if _, err := call("read", f.path, len(b)); err != nil {
		return 0, perr("read", f.name, err)
	}
	if f.node.dir {
		return 0, perr("read", f.name, syscall.EISDIR)
	}
	if off >= int64(len(f.node.data)) {
		if len(b) == 0 {
			return 0, nil
		}
		return 0, io.EOF
	}
	n := copy(b, f.node.data[off:])
	if n < len(b) {
		return n, io.EOF
	}
	return n, nil
}

func (f *File) Read(b []byte) (int, error) {
	n, err := f.ReadAt(b, f.off)
	f.off += int64(n)
	if n > 0 && err == io.EOF {
		err = nil
	}
	return n, err
}

func (f *File) put(b []byte, off int64) {
	end := off + int64(len(b))
	if end > int64(len(f.node.data)) {
		if end > int64(cap(f.node.data)) {
			nd := make([]byte, end, end+end/2)
			copy(nd, f.node.data)
			f.node.data = nd
		} else {
			f.node.data = f.node.data[:end]
		}
	}
	copy(f.node.data[off:], b)
	f.node.synced = min(f.node.synced, int(off))
	f.node.mtime = time.Now()
}

func (f *File) WriteAt(b []byte, off int64) (int, error) {
	if err := f.check("write"); err != nil {
		return 0, err
	}
	if f.flag&(O_WRONLY|O_RDWR) == 0 {
		return 0, perr("write", f.name, syscall.EBADF)
	}
	d, err := call("write", f.path, len(b))
	if err != nil {
		return 0, perr("write", f.name, err)
	}
	part := min(d.Part, len(b))
	if part > 0 {
		f.put(b[:part], off)
		if d.Gap > 0 {
			time.Sleep(d.Gap)
		}
		if d.Err != nil {
			return part, perr("write", f.name, d.Err)
		}
	}
	f.put(b[part:], off+int64(part))
	return len(b), nil
}

func (f *File) Write(b []byte) (int, error) {
	if f.check("write") == nil && f.flag&O_APPEND != 0 {
		f.off = int64(len(f.node.data))
	}
	n, err := f.WriteAt(b, f.off)
	f.off += int64(n)
	return n, err
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) ReadFrom(r io.Reader) (int64, error) {
	return io.Copy(struct{ io.Writer }{f}, r)
}

func (f *File) ReadDir(n int) ([]DirEntry, error) {
	es, err := ReadDir(f.path)
	if err != nil {
		return nil, err
	}
	es = es[min(f.dirPos, len(es)):]
	if n > 0 {
		if len(es) == 0 {
			return nil, io.EOF
		}
		es = es[:min(n, len(es))]
	}
	f.dirPos += len(es)
	return es, nil
}

func (f *File) Readdirnames(n int) ([]string, error) {
	es, err := f.ReadDir(n)
	var out []string
	for _, e := range es {
		out = append(out, e.Name())
	}
	return out, err
}
