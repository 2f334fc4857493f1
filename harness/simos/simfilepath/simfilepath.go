// Package simfilepath stands in for path/filepath: pure functions are the real
// ones, those that look at the disk use the simulated file system.
package simfilepath

import (
	"io/fs"
	"iter"
	"path/filepath"

	os "reduction.dev/reduction/zz_verif/simos"
)

type WalkFunc = filepath.WalkFunc

const (
	Separator     = filepath.Separator
	ListSeparator = filepath.ListSeparator
)

var (
	ErrBadPattern = filepath.ErrBadPattern
	SkipDir       = filepath.SkipDir
	SkipAll       = filepath.SkipAll
)

func Join(e ...string) string               { return filepath.Join(e...) }
func Base(p string) string                  { return filepath.Base(p) }
func Dir(p string) string                   { return filepath.Dir(p) }
func Ext(p string) string                   { return filepath.Ext(p) }
func Clean(p string) string                 { return filepath.Clean(p) }
func IsAbs(p string) bool                   { return filepath.IsAbs(p) }
func IsLocal(p string) bool                 { return filepath.IsLocal(p) }
func Rel(b, t string) (string, error)       { return filepath.Rel(b, t) }
func Split(p string) (string, string)       { return filepath.Split(p) }
func SplitList(p string) []string           { return filepath.SplitList(p) }
func Match(pat, name string) (bool, error)  { return filepath.Match(pat, name) }
func ToSlash(p string) string               { return filepath.ToSlash(p) }
func FromSlash(p string) string             { return filepath.FromSlash(p) }
func VolumeName(p string) string            { return filepath.VolumeName(p) }
func EvalSymlinks(p string) (string, error) { return Clean(p), nil }
func Localize(p string) (string, error)     { return filepath.Localize(p) }

func Abs(p string) (string, error) {
	if IsAbs(p) {
		return Clean(p), nil
	}
	return Join("/", p), nil
}

func Glob(pattern string) ([]string, error) {
	var out []string
	for _, p := range os.List("/") {
		ok, err := filepath.Match(pattern, p)
		if err != nil {
			return nil, err
		}
		if ok {
			out = append(out, p)
		}
	}
	return out, nil
}

func WalkDir(root string, fn fs.WalkDirFunc) error {
	fi, err := os.Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walkDir(root, fs.FileInfoToDirEntry(fi), fn)
	}
	if err == SkipDir || err == SkipAll {
		return nil
	}
	return err
}

func walkDir(p string, d fs.DirEntry, fn fs.WalkDirFunc) error {
	if err := fn(p, d, nil); err != nil || !d.IsDir() {
		if err == SkipDir && d.IsDir() {
			err = nil
		}
		return err
	}
	dirs, err := os.ReadDir(p)
	if err != nil {
		if err = fn(p, d, err); err != nil {
			if err == SkipDir && d.IsDir() {
				err = nil
			}
			return err
		}
	}
	for _, d1 := range dirs {
		if err := walkDir(Join(p, d1.Name()), d1, fn); err != nil {
			if err == SkipDir {
				break
			}
			return err
		}
	}
	return nil
}

func Walk(root string, fn WalkFunc) error {
	return WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		if d == nil {
			return fn(p, nil, err)
		}
		fi, e := d.Info()
		if err == nil {
			err = e
		}
		return fn(p, fi, err)
	})
}

var _ iter.Seq[int]
