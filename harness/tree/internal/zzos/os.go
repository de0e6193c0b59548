// Package zzos stands in for package os in the code under test (the import is redirected, see
// engine/cmd/vc/rewrite.go): it never touches the real file system, but records which files were
// asked for and lets a harness decide what they are.
package zzos

import (
	"io"
	"io/fs"
	"time"
)

type (
	FileInfo = fs.FileInfo
	FileMode = fs.FileMode
)

const O_RDONLY = 0

var ErrNotExist = fs.ErrNotExist

// Entry is what a harness says a path is.
type Entry struct {
	Data    string
	Dir     bool
	StatErr bool
}

var (
	// Asked holds every path that was asked for.
	Asked []string
	// Lookup decides what a path is; nothing exists without it.
	Lookup func(name string) (Entry, bool)
	// Open files.
	Opened []*File
)

type File struct {
	name   string
	e      Entry
	pos    int
	Closed int
}

func find(name string) (Entry, bool) {
	Asked = append(Asked, name)
	if Lookup == nil {
		return Entry{}, false
	}
	return Lookup(name)
}

func Open(name string) (*File, error) {
	e, ok := find(name)
	if !ok {
		return nil, ErrNotExist
	}
	f := &File{name: name, e: e}
	Opened = append(Opened, f)
	return f, nil
}

func OpenFile(name string, flag int, perm FileMode) (*File, error) { return Open(name) }

func Stat(name string) (FileInfo, error) {
	e, ok := find(name)
	if !ok {
		return nil, ErrNotExist
	}
	if e.StatErr {
		return nil, fs.ErrPermission
	}
	return info{name, e}, nil
}

func Lstat(name string) (FileInfo, error) { return Stat(name) }

func ReadFile(name string) ([]byte, error) {
	e, ok := find(name)
	if !ok || e.Dir {
		return nil, ErrNotExist
	}
	return []byte(e.Data), nil
}

func IsNotExist(err error) bool { return err == ErrNotExist }

func (f *File) Name() string { return f.name }

func (f *File) Stat() (FileInfo, error) {
	if f.e.StatErr {
		return nil, fs.ErrPermission
	}
	return info{f.name, f.e}, nil
}

func (f *File) Read(p []byte) (int, error) {
	if f.Closed > 0 {
		return 0, fs.ErrClosed
	}
	if f.pos >= len(f.e.Data) {
		return 0, io.EOF
	}
	n := copy(p, f.e.Data[f.pos:])
	f.pos += n
	return n, nil
}

func (f *File) Close() error {
	f.Closed++
	if f.Closed > 1 {
		return fs.ErrClosed
	}
	return nil
}

type info struct {
	name string
	e    Entry
}

func (i info) Name() string { return i.name }
func (i info) Size() int64  { return int64(len(i.e.Data)) }
func (i info) Mode() FileMode {
	if i.e.Dir {
		return fs.ModeDir
	}
	return 0o644
}
func (i info) ModTime() time.Time { return time.Time{} }
func (i info) IsDir() bool        { return i.e.Dir }
func (i info) Sys() any           { return nil }
