// Package vos is package os with every file operation announced to the explorer.
package vos

import (
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"syscall"
	"time"

	"github.com/Ptt-official-app/go-bbs/verifmcshim/vsched"
)

// File is os.File.
type File struct {
	f      *os.File
	name   string
	closed bool
}

// RealClose closes without asking.
func (f *File) RealClose() error {
	if f.closed {
		return nil
	}
	f.closed = true
	return f.f.Close()
}

// Label is the name.
func (f *File) Label() string { return f.name }

func point(kind, name string, n int64) vsched.Act {
	return vsched.Point(vsched.Op{Kind: kind, Name: filepath.Base(name), N: n})
}

func fail(op, name string, a vsched.Act) error {
	return &os.PathError{Op: op, Path: name, Err: a.Err}
}

func wrap(f *os.File, err error, name string) (*File, error) {
	if err != nil {
		return nil, err
	}
	v := &File{f: f, name: name}
	vsched.Opened(v)
	return v, nil
}

func Open(name string) (*File, error) { return OpenFile(name, os.O_RDONLY, 0) }

func Create(name string) (*File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

func OpenFile(name string, flag int, perm os.FileMode) (*File, error) {
	kind := "open"
	if flag&(os.O_CREATE|os.O_TRUNC) != 0 {
		kind = "create"
	}
	if a := point(kind, name, int64(flag)); a.Do == vsched.Fail {
		return nil, fail("open", name, a)
	}
	f, err := os.OpenFile(name, flag, perm)
	return wrap(f, err, name)
}

func CreateTemp(dir, pattern string) (*File, error) {
	if a := point("create", "temp", 0); a.Do == vsched.Fail {
		return nil, fail("open", dir, a)
	}
	f, err := os.CreateTemp(dir, pattern)
	if err != nil {
		return nil, err
	}
	return wrap(f, err, f.Name())
}

func (f *File) check() error {
	if f == nil {
		return os.ErrInvalid
	}
	return nil
}

func (f *File) Name() string { return f.name }
func (f *File) Fd() uintptr {
	if f == nil {
		return ^uintptr(0)
	}
	return f.f.Fd()
}

func (f *File) Read(b []byte) (int, error) {
	if err := f.check(); err != nil {
		return 0, err
	}
	a := point("read", f.name, int64(len(b)))
	switch a.Do {
	case vsched.Fail:
		if a.N > 0 && a.N < int64(len(b)) {
			n, _ := f.f.Read(b[:a.N])
			return n, fail("read", f.name, a)
		}
		return 0, fail("read", f.name, a)
	case vsched.Short:
		if a.N > 0 && a.N < int64(len(b)) {
			return f.f.Read(b[:a.N])
		}
	}
	return f.f.Read(b)
}

func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if err := f.check(); err != nil {
		return 0, err
	}
	if a := point("readat", f.name, int64(len(b))); a.Do == vsched.Fail {
		n := 0
		if a.N > 0 && a.N < int64(len(b)) {
			n, _ = f.f.ReadAt(b[:a.N], off)
		}
		return n, fail("read", f.name, a)
	}
	return f.f.ReadAt(b, off)
}

func (f *File) write(kind string, b []byte, w func([]byte) (int, error)) (int, error) {
	if err := f.check(); err != nil {
		return 0, err
	}
	a := point(kind, f.name, int64(len(b)))
	switch a.Do {
	case vsched.Crash:
		if a.N > 0 {
			w(b[:min64(a.N, len(b))])
		}
		vsched.Die()
	case vsched.Fail, vsched.Short:
		n := 0
		if a.N > 0 {
			n, _ = w(b[:min64(a.N, len(b))])
		}
		err := a.Err
		if err == nil {
			err = io.ErrShortWrite
		}
		return n, &os.PathError{Op: "write", Path: f.name, Err: err}
	}
	return w(b)
}

func min64(a int64, b int) int {
	if a < int64(b) {
		return int(a)
	}
	return b
}

func (f *File) Write(b []byte) (int, error) {
	return f.write("write", b, func(b []byte) (int, error) { return f.f.Write(b) })
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) WriteAt(b []byte, off int64) (int, error) {
	return f.write("writeat", b, func(b []byte) (int, error) { return f.f.WriteAt(b, off) })
}

func (f *File) Seek(off int64, whence int) (int64, error) {
	if err := f.check(); err != nil {
		return 0, err
	}
	if a := point("seek", f.name, off); a.Do == vsched.Fail {
		return 0, fail("seek", f.name, a)
	}
	return f.f.Seek(off, whence)
}

func (f *File) Close() error {
	if err := f.check(); err != nil {
		return err
	}
	a := point("close", f.name, 0)
	vsched.Closed(f)
	if f.closed {
		return os.ErrClosed
	}
	f.closed = true
	err := f.f.Close()
	if a.Do == vsched.Fail {
		return fail("close", f.name, a)
	}
	return err
}

func (f *File) Stat() (os.FileInfo, error) {
	if err := f.check(); err != nil {
		return nil, err
	}
	if a := point("fstat", f.name, 0); a.Do == vsched.Fail {
		return nil, fail("stat", f.name, a)
	}
	return f.f.Stat()
}

func (f *File) Truncate(size int64) error {
	if err := f.check(); err != nil {
		return err
	}
	if a := point("ftruncate", f.name, size); a.Do == vsched.Fail {
		return fail("truncate", f.name, a)
	}
	return f.f.Truncate(size)
}

func (f *File) Sync() error {
	if err := f.check(); err != nil {
		return err
	}
	if a := point("sync", f.name, 0); a.Do == vsched.Fail {
		return fail("sync", f.name, a)
	}
	return f.f.Sync()
}

func (f *File) Chmod(mode os.FileMode) error {
	if a := point("chmod", f.name, int64(mode)); a.Do == vsched.Fail {
		return fail("chmod", f.name, a)
	}
	return f.f.Chmod(mode)
}

func (f *File) Chown(uid, gid int) error              { return f.f.Chown(uid, gid) }
func (f *File) SyscallConn() (syscall.RawConn, error) { return f.f.SyscallConn() }
func (f *File) SetDeadline(t time.Time) error         { return f.f.SetDeadline(t) }
func (f *File) Readdir(n int) ([]os.FileInfo, error) {
	if a := point("readdir", f.name, int64(n)); a.Do == vsched.Fail {
		return nil, fail("readdir", f.name, a)
	}
	return f.f.Readdir(n)
}
func (f *File) ReadDir(n int) ([]os.DirEntry, error) {
	if a := point("readdir", f.name, int64(n)); a.Do == vsched.Fail {
		return nil, fail("readdir", f.name, a)
	}
	return f.f.ReadDir(n)
}
func (f *File) Readdirnames(n int) ([]string, error) {
	if a := point("readdir", f.name, int64(n)); a.Do == vsched.Fail {
		return nil, fail("readdir", f.name, a)
	}
	return f.f.Readdirnames(n)
}

func Stat(name string) (os.FileInfo, error) {
	if a := point("stat", name, 0); a.Do == vsched.Fail {
		return nil, fail("stat", name, a)
	}
	return os.Stat(name)
}

func Lstat(name string) (os.FileInfo, error) {
	if a := point("stat", name, 0); a.Do == vsched.Fail {
		return nil, fail("lstat", name, a)
	}
	return os.Lstat(name)
}

func change(kind, name string, do func() error) error {
	if a := point(kind, name, 0); a.Do == vsched.Fail {
		return fail(kind, name, a)
	}
	return do()
}

func Remove(name string) error {
	return change("remove", name, func() error { return os.Remove(name) })
}
func RemoveAll(name string) error {
	return change("remove", name, func() error { return os.RemoveAll(name) })
}
func Rename(a, b string) error { return change("rename", b, func() error { return os.Rename(a, b) }) }
func Link(a, b string) error   { return change("link", b, func() error { return os.Link(a, b) }) }
func Symlink(a, b string) error {
	return change("symlink", b, func() error { return os.Symlink(a, b) })
}
func Truncate(name string, size int64) error {
	return change("truncate", name, func() error { return os.Truncate(name, size) })
}
func Mkdir(name string, perm os.FileMode) error {
	return change("mkdir", name, func() error { return os.Mkdir(name, perm) })
}
func MkdirAll(name string, perm os.FileMode) error {
	return change("mkdir", name, func() error { return os.MkdirAll(name, perm) })
}
func Chmod(name string, mode os.FileMode) error {
	return change("chmod", name, func() error { return os.Chmod(name, mode) })
}
func Chtimes(name string, a, m time.Time) error {
	return change("chtimes", name, func() error { return os.Chtimes(name, a, m) })
}

func ReadDir(name string) ([]os.DirEntry, error) {
	if a := point("readdir", name, 0); a.Do == vsched.Fail {
		return nil, fail("readdir", name, a)
	}
	return os.ReadDir(name)
}

// ReadFile reads with buffers of 512 bytes and more, as the original.
func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return ReadAll(f)
}

// ReadAll is io.ReadAll which returns what it has on an error.
func ReadAll(r io.Reader) ([]byte, error) { return io.ReadAll(r) }

func WriteFile(name string, data []byte, perm os.FileMode) error {
	f, err := OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

func Exit(code int) { vsched.Exit("os.Exit") }

func DirFS(dir string) fs.FS { return os.DirFS(dir) }
