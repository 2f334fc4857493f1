// Package simexec stands in for os/exec: the few commands the repository's
// storage code runs, executed against the simulated file system.
package simexec

import (
	"errors"
	"fmt"
	"io"
	"os/exec"
	"path"
	"strings"

	os "reduction.dev/reduction/zz_verif/simos"
)

type Error = exec.Error

// ExitError mirrors exec.ExitError.
type ExitError struct{ Msg string }

func (e *ExitError) Error() string { return "exit status 1" }

var ErrNotFound = exec.ErrNotFound

type Cmd struct {
	Path   string
	Args   []string
	Env    []string
	Dir    string
	Stdin  io.Reader
	Stdout io.Writer
	Stderr io.Writer
}

func Command(name string, args ...string) *Cmd {
	return &Cmd{Path: name, Args: append([]string{name}, args...)}
}

func LookPath(file string) (string, error) { return "/bin/" + file, nil }

func (c *Cmd) CombinedOutput() ([]byte, error) {
	var flags string
	var args []string
	for _, a := range c.Args[1:] {
		if strings.HasPrefix(a, "-") && len(a) > 1 {
			flags += a[1:]
		} else {
			args = append(args, a)
		}
	}
	var err error
	switch path.Base(c.Path) {
	case "mkdir":
		for _, a := range args {
			if strings.Contains(flags, "p") {
				err = errors.Join(err, os.MkdirAll(a, 0o777))
			} else {
				err = errors.Join(err, os.Mkdir(a, 0o777))
			}
		}
	case "cp":
		if len(args) != 2 {
			err = errors.New("cp: want two arguments")
			break
		}
		err = cp(args[0], args[1])
	case "mv":
		dst := args[1]
		if fi, e := os.Stat(dst); e == nil && fi.IsDir() {
			dst = path.Join(dst, path.Base(args[0]))
		}
		err = os.Rename(args[0], dst)
	case "rm":
		for _, a := range args {
			if strings.ContainsAny(flags, "rR") {
				err = errors.Join(err, os.RemoveAll(a))
			} else if e := os.Remove(a); e != nil && !(strings.Contains(flags, "f") && errors.Is(e, os.ErrNotExist)) {
				err = errors.Join(err, e)
			}
		}
	case "sync", "true":
	default:
		panic("simexec: " + strings.Join(c.Args, " "))
	}
	if err != nil {
		msg := fmt.Sprintf("%s: %v\n", c.Path, err)
		return []byte(msg), &ExitError{msg}
	}
	return nil, nil
}

func (c *Cmd) Run() error { _, err := c.CombinedOutput(); return err }

func (c *Cmd) Output() ([]byte, error) { return c.CombinedOutput() }

// cp copies like the command: the destination is truncated first and filled
// in pieces, so a crash leaves a partial copy.
func cp(src, dst string) error {
	if fi, err := os.Stat(dst); err == nil && fi.IsDir() {
		dst = path.Join(dst, path.Base(src))
	}
	in, err := os.Open(src)
	if err != nil {
		return err
	}
	defer in.Close()
	out, err := os.Create(dst)
	if err != nil {
		return err
	}
	if _, err := io.Copy(out, in); err != nil {
		out.Close()
		return err
	}
	return out.Close()
}
