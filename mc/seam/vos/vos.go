// Package vos is a drop-in for the parts of os the code under test uses. It
// passes everything on to os, except for the faults Hook asks for.
package vos

import (
	"errors"
	"io"
	"io/fs"
	"os"

	"nnverif/seam/ctl"
)

type (
	FileInfo  = os.FileInfo
	FileMode  = os.FileMode
	DirEntry  = os.DirEntry
	PathError = os.PathError
	Signal    = os.Signal
)

const (
	O_RDONLY = os.O_RDONLY
	O_WRONLY = os.O_WRONLY
	O_RDWR   = os.O_RDWR
	O_APPEND = os.O_APPEND
	O_CREATE = os.O_CREATE
	O_EXCL   = os.O_EXCL
	O_SYNC   = os.O_SYNC
	O_TRUNC  = os.O_TRUNC
	ModePerm = os.ModePerm
	DevNull  = os.DevNull
)

var (
	Stdin         = os.Stdin
	Stdout        = os.Stdout
	Stderr        = os.Stderr
	Args          = os.Args
	ErrNotExist   = os.ErrNotExist
	ErrExist      = os.ErrExist
	ErrPermission = os.ErrPermission
	ErrInvalid    = os.ErrInvalid
	ErrClosed     = os.ErrClosed
)

// Op is a file operation about to happen.
type Op struct {
	Kind string // open, write, close, sync, truncate, rename, remove, read
	Path string
	Len  int
}

// Fault says what goes wrong with an operation.
type Fault struct {
	Err  error // returned; nil for none
	Keep int   // bytes that still get through: of a write, of a read, or of the file at a close; -1 for all
}

// Hook is asked before every operation while it is set.
var Hook func(op Op) *Fault

// ErrInjected is the error of injected faults.
var ErrInjected = errors.New("injected fault: input/output error")

func ask(kind, path string, n int) *Fault {
	if Hook == nil {
		return nil
	}
	return Hook(Op{kind, path, n})
}

func init() { _ = ctl.Seed }

type File struct{ *os.File }

func wrap(f *os.File, err error) (*File, error) {
	if err != nil {
		return nil, err
	}
	return &File{f}, nil
}

func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	if f := ask("open", name, 0); f != nil {
		return nil, &PathError{Op: "open", Path: name, Err: f.Err}
	}
	return wrap(os.OpenFile(name, flag, perm))
}
func Create(name string) (*File, error) { return OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0o666) }
func Open(name string) (*File, error)   { return OpenFile(name, O_RDONLY, 0) }
func CreateTemp(dir, pattern string) (*File, error) {
	if f := ask("open", dir, 0); f != nil {
		return nil, &PathError{Op: "open", Path: dir, Err: f.Err}
	}
	return wrap(os.CreateTemp(dir, pattern))
}

func (f *File) Write(b []byte) (int, error) {
	if x := ask("write", f.Name(), len(b)); x != nil {
		n := x.Keep
		if n < 0 || n > len(b) {
			n = len(b)
		}
		n, _ = f.File.Write(b[:n])
		return n, &PathError{Op: "write", Path: f.Name(), Err: x.Err}
	}
	return f.File.Write(b)
}
func (f *File) WriteString(s string) (int, error)   { return f.Write([]byte(s)) }
func (f *File) ReadFrom(r io.Reader) (int64, error) { return io.Copy(onlyWriter{f}, r) }

type onlyWriter struct{ io.Writer }

func (f *File) WriteTo(w io.Writer) (int64, error) { return io.Copy(w, onlyReader{f}) }

type onlyReader struct{ io.Reader }

func (f *File) WriteAt(b []byte, off int64) (int, error) {
	if x := ask("write", f.Name(), len(b)); x != nil {
		n := max(0, min(x.Keep, len(b)))
		n, _ = f.File.WriteAt(b[:n], off)
		return n, &PathError{Op: "write", Path: f.Name(), Err: x.Err}
	}
	return f.File.WriteAt(b, off)
}

func (f *File) Read(b []byte) (int, error) {
	if x := ask("read", f.Name(), len(b)); x != nil {
		if x.Err != nil {
			return 0, &PathError{Op: "read", Path: f.Name(), Err: x.Err}
		}
		if x.Keep >= 0 && x.Keep < len(b) {
			b = b[:x.Keep]
		}
	}
	return f.File.Read(b)
}

func (f *File) Close() error {
	if f == nil {
		return os.ErrInvalid
	}
	if x := ask("close", f.Name(), 0); x != nil {
		if x.Keep >= 0 {
			os.Truncate(f.Name(), int64(x.Keep))
		}
		f.File.Close()
		return &PathError{Op: "close", Path: f.Name(), Err: x.Err}
	}
	return f.File.Close()
}

func (f *File) Sync() error {
	if x := ask("sync", f.Name(), 0); x != nil {
		return &PathError{Op: "sync", Path: f.Name(), Err: x.Err}
	}
	return f.File.Sync()
}

func (f *File) Truncate(n int64) error {
	if x := ask("truncate", f.Name(), 0); x != nil {
		return &PathError{Op: "truncate", Path: f.Name(), Err: x.Err}
	}
	return f.File.Truncate(n)
}

func Rename(a, b string) error {
	if x := ask("rename", a, 0); x != nil {
		return &PathError{Op: "rename", Path: a, Err: x.Err}
	}
	return os.Rename(a, b)
}

func WriteFile(name string, data []byte, perm FileMode) error {
	f, err := OpenFile(name, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(onlyReader{f})
}

func Remove(name string) error            { return os.Remove(name) }
func Stat(name string) (FileInfo, error)  { return os.Stat(name) }
func Lstat(name string) (FileInfo, error) { return os.Lstat(name) }
func Truncate(name string, n int64) error { return os.Truncate(name, n) }
func MkdirAll(p string, m FileMode) error { return os.MkdirAll(p, m) }
func Mkdir(p string, m FileMode) error    { return os.Mkdir(p, m) }
func Chmod(p string, m FileMode) error    { return os.Chmod(p, m) }
func IsNotExist(err error) bool           { return os.IsNotExist(err) }
func IsExist(err error) bool              { return os.IsExist(err) }
func Getenv(k string) string              { return os.Getenv(k) }
func Exit(code int)                       { os.Exit(code) }
func TempDir() string                     { return os.TempDir() }
func Getpid() int                         { return os.Getpid() }
func DirFS(d string) fs.FS                { return os.DirFS(d) }
