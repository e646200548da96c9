// Package zzfos stands in for os in the code under test: it can make file
// operations fail and counts them. Effects stay in the files given.
package zzfos

import (
	"io"
	"os"
	"sync"
)

type (
	FileMode  = os.FileMode
	FileInfo  = os.FileInfo
	PathError = os.PathError
)

const (
	O_RDONLY = os.O_RDONLY
	O_WRONLY = os.O_WRONLY
	O_RDWR   = os.O_RDWR
	O_CREATE = os.O_CREATE
	O_TRUNC  = os.O_TRUNC
	O_EXCL   = os.O_EXCL
	O_APPEND = os.O_APPEND
	O_SYNC   = os.O_SYNC
)

var (
	ErrNotExist = os.ErrNotExist
	ErrExist    = os.ErrExist
	ErrClosed   = os.ErrClosed
	Stdout      = os.Stdout
	Stderr      = os.Stderr
)

// Hook is asked before each operation; an error makes the operation fail.
// off is the position the operation applies to, n its length.
var Hook func(op string, off int64, n int) error

// Solo is like Hook for programs without goroutines; it may use files itself.
var Solo func(op string) error

var mu sync.Mutex

func ask(op string, off int64, n int) error {
	if Solo != nil {
		return Solo(op)
	}
	mu.Lock()
	defer mu.Unlock()
	if Hook == nil {
		return nil
	}
	return Hook(op, off, n)
}

type File struct{ *os.File }

func wrap(f *os.File, err error) (*File, error) {
	if err != nil {
		return nil, err
	}
	return &File{f}, nil
}

func Create(n string) (*File, error)                           { return wrap(os.Create(n)) }
func Open(n string) (*File, error)                             { return wrap(os.Open(n)) }
func OpenFile(n string, fl int, m os.FileMode) (*File, error)  { return wrap(os.OpenFile(n, fl, m)) }
func Stat(n string) (os.FileInfo, error)                       { return os.Stat(n) }
func Remove(n string) error                                    { return os.Remove(n) }
func Rename(a, b string) error                                 { return os.Rename(a, b) }
func ReadFile(n string) ([]byte, error)                        { return os.ReadFile(n) }
func WriteFile(n string, b []byte, m os.FileMode) error        { return os.WriteFile(n, b, m) }
func Getenv(k string) string                                   { return os.Getenv(k) }
func IsNotExist(err error) bool                                { return os.IsNotExist(err) }

func (f *File) pos() int64 {
	p, _ := f.File.Seek(0, io.SeekCurrent)
	return p
}

func (f *File) Write(b []byte) (int, error) {
	if err := ask("write", f.pos(), len(b)); err != nil {
		return 0, err
	}
	return f.File.Write(b)
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) WriteAt(b []byte, off int64) (int, error) {
	if err := ask("write", off, len(b)); err != nil {
		return 0, err
	}
	return f.File.WriteAt(b, off)
}

func (f *File) Read(b []byte) (int, error) {
	if err := ask("read", f.pos(), len(b)); err != nil {
		return 0, err
	}
	return f.File.Read(b)
}

func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if err := ask("read", off, len(b)); err != nil {
		return 0, err
	}
	return f.File.ReadAt(b, off)
}

func (f *File) Seek(off int64, wh int) (int64, error) {
	if err := ask("seek", off, wh); err != nil {
		return 0, err
	}
	return f.File.Seek(off, wh)
}

func (f *File) Sync() error {
	if err := ask("sync", 0, 0); err != nil {
		return err
	}
	return f.File.Sync()
}

func (f *File) Stat() (os.FileInfo, error) {
	if err := ask("stat", 0, 0); err != nil {
		return nil, err
	}
	return f.File.Stat()
}

func (f *File) Truncate(n int64) error {
	if err := ask("truncate", n, 0); err != nil {
		return err
	}
	return f.File.Truncate(n)
}

func (f *File) Close() error {
	err := ask("close", 0, 0)
	if e := f.File.Close(); err == nil {
		err = e
	}
	return err
}

func (f *File) ReadFrom(r io.Reader) (int64, error) {
	b, err := io.ReadAll(r)
	if err != nil {
		return 0, err
	}
	n, err := f.Write(b)
	return int64(n), err
}
