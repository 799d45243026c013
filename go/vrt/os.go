package vrt

import (
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"strings"
	"sync"
)

// Op is one file system operation of the program under test.
type Op struct {
	Kind string // create open read write sync close rename remove link truncate mkdir
	Path string
	N    int // bytes, for writes
	New  string
}

// Verdict is what the fault injector wants to happen to an Op.
type Verdict struct {
	Err     error // non-nil: the operation fails with this
	Partial int   // for writes: bytes that reach the file before it fails
}

// FSHook, if set, sees every operation first. It runs in the goroutine of the
// program under test.
var FSHook func(op Op) Verdict

// FSBlocks says that FSHook may block, and sees to its own locking; otherwise
// it is not called by two goroutines at the same time.
var FSBlocks bool

// FSAfter, if set, sees every operation after it was done.
var FSAfter func(op Op, err error)

var fsmu, hookmu sync.Mutex

// WriteRec is one write call on a file opened for writing.
type WriteRec struct {
	Path string
	Data string
}

// RecordWrites, if set, is told about each write to a file.
var RecordWrites func(WriteRec)

func before(op Op) Verdict {
	if f := FSHook; f != nil {
		if !FSBlocks {
			hookmu.Lock()
			defer hookmu.Unlock()
		}
		return f(op)
	}
	return Verdict{}
}
func after(op Op, err error) {
	if f := FSAfter; f != nil {
		hookmu.Lock()
		defer hookmu.Unlock()
		f(op, err)
	}
}

// File stands in for os.File.
type File struct {
	*os.File
	wr  bool
	std bool
}

// StdSink, if set, gets what is written to standard output and error.
var StdSink func(name string, b []byte)

func perr(op, path string, err error) error { return &fs.PathError{Op: op, Path: path, Err: err} }

func OpenFile(name string, flag int, perm os.FileMode) (*File, error) {
	k := "open"
	if flag&os.O_CREATE != 0 {
		k = "create"
	} else if flag&(os.O_WRONLY|os.O_RDWR) != 0 {
		k = "openw"
	}
	op := Op{Kind: k, Path: name}
	if v := before(op); v.Err != nil {
		err := perr("open", name, v.Err)
		after(op, err)
		return nil, err
	}
	f, err := os.OpenFile(name, flag, perm)
	after(op, err)
	if err != nil {
		return nil, err
	}
	return &File{File: f, wr: flag&(os.O_WRONLY|os.O_RDWR) != 0}, nil
}
func Open(name string) (*File, error) { return OpenFile(name, os.O_RDONLY, 0) }
func Create(name string) (*File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}
func CreateTemp(dir, pattern string) (*File, error) {
	op := Op{Kind: "create", Path: filepath.Join(dir, pattern)}
	if v := before(op); v.Err != nil {
		err := perr("createtemp", op.Path, v.Err)
		after(op, err)
		return nil, err
	}
	f, err := os.CreateTemp(dir, pattern)
	after(op, err)
	if err != nil {
		return nil, err
	}
	return &File{File: f, wr: true}, nil
}

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}

func WriteFile(name string, data []byte, perm os.FileMode) error {
	f, err := OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

func simple(op Op, name string, fn func() error) error {
	if v := before(op); v.Err != nil {
		err := perr(name, op.Path, v.Err)
		after(op, err)
		return err
	}
	err := fn()
	after(op, err)
	return err
}
func Rename(a, b string) error {
	return simple(Op{Kind: "rename", Path: a, New: b}, "rename", func() error { return os.Rename(a, b) })
}
func Link(a, b string) error {
	return simple(Op{Kind: "link", Path: a, New: b}, "link", func() error { return os.Link(a, b) })
}
func Remove(a string) error {
	return simple(Op{Kind: "remove", Path: a}, "remove", func() error { return os.Remove(a) })
}
func Truncate(a string, n int64) error {
	return simple(Op{Kind: "truncate", Path: a, N: int(n)}, "truncate", func() error { return os.Truncate(a, n) })
}

func (f *File) Write(b []byte) (int, error) {
	op := Op{Kind: "write", Path: f.Name(), N: len(b)}
	v := before(op)
	if v.Err != nil {
		n := 0
		if v.Partial > 0 {
			n, _ = f.File.Write(b[:min(v.Partial, len(b))])
		}
		err := perr("write", f.Name(), v.Err)
		after(op, err)
		return n, err
	}
	if rec := RecordWrites; rec != nil {
		hookmu.Lock()
		rec(WriteRec{f.Name(), string(b)})
		hookmu.Unlock()
	}
	if f.std && StdSink != nil {
		StdSink(f.Name(), b)
		after(op, nil)
		return len(b), nil
	}
	n, err := f.File.Write(b)
	after(op, err)
	return n, err
}
func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }
func (f *File) ReadFrom(r io.Reader) (int64, error) {
	return io.Copy(struct{ io.Writer }{f}, r)
}
func (f *File) Read(b []byte) (int, error) {
	op := Op{Kind: "read", Path: f.Name()}
	if v := before(op); v.Err != nil {
		err := perr("read", f.Name(), v.Err)
		after(op, err)
		return 0, err
	}
	n, err := f.File.Read(b)
	return n, err
}
func (f *File) WriteTo(w io.Writer) (int64, error) {
	return io.Copy(w, struct{ io.Reader }{f})
}
func (f *File) Sync() error {
	// The operation is observed and can be made to fail, but the real disk is
	// not bothered.
	return simple(Op{Kind: "sync", Path: f.Name()}, "sync", func() error { return nil })
}
func (f *File) Truncate(n int64) error {
	return simple(Op{Kind: "truncate", Path: f.Name(), N: int(n)}, "truncate", func() error { return f.File.Truncate(n) })
}
func (f *File) Close() error {
	op := Op{Kind: "close", Path: f.Name()}
	if !f.wr {
		return f.File.Close()
	}
	if v := before(op); v.Err != nil {
		f.File.Close()
		err := perr("close", f.Name(), v.Err)
		after(op, err)
		return err
	}
	err := f.File.Close()
	after(op, err)
	return err
}

// Stdin, Stdout and Stderr stand in for the ones in os.
var (
	Stdin  = &File{File: os.Stdin}
	Stdout = &File{File: os.Stdout, wr: true, std: true}
	Stderr = &File{File: os.Stderr, wr: true, std: true}
)

// Under reports whether path p is inside directory d.
func Under(p, d string) bool {
	p, d = filepath.Clean(p), filepath.Clean(d)
	return p == d || strings.HasPrefix(p, d+"/")
}

// Exit stands in for os.Exit.
func Exit(code int) {
	if OnExit != nil {
		OnExit(code)
	}
	os.Exit(code)
}

// OnExit, if set, is told that the program under test calls os.Exit.
var OnExit func(int)
