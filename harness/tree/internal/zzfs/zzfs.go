// Package zzfs stands in for package os in the application (the import is redirected, see
// engine/cmd/vc/rewrite.go): a file system and an environment in memory, any operation of which
// may fail or be the last one before a crash.
package zzfs

import (
	"errors"
	"io"
	"io/fs"
	"time"
)

type (
	FileInfo  = fs.FileInfo
	FileMode  = fs.FileMode
	PathError = fs.PathError
)

const (
	O_RDONLY      = 0x0
	O_WRONLY      = 0x1
	O_RDWR        = 0x2
	O_APPEND      = 0x400
	O_CREATE      = 0x40
	O_EXCL        = 0x80
	O_TRUNC       = 0x200
	ModePerm      = fs.ModePerm
	PathSeparator = '/'
)

var (
	ErrNotExist   = fs.ErrNotExist
	ErrExist      = fs.ErrExist
	ErrPermission = fs.ErrPermission
	ErrClosed     = fs.ErrClosed
)

// Node is a file or a directory.
type Node struct {
	Data []byte
	Dir  bool
	Perm FileMode
}

// Crash is what a crash panics with.
type Crash struct{}

// ErrFault is the error of an operation that was chosen to fail.
var ErrFault = errors.New("input/output error")

var (
	Env    = map[string]string{}
	Files  = map[string]*Node{}
	Steps  int      // operations so far that can fail
	FailAt = -1     // the step that fails
	DieAt  = -1     // the step before which the process dies
	Open_  int      // files that are open
	Made   []string // what was created, changed or removed
)

func Reset() {
	Files, Steps, FailAt, DieAt, Open_, Made = map[string]*Node{}, 0, -1, -1, 0, nil
}

// step is passed by every operation; it tells whether it fails.
func step() bool {
	if Steps == DieAt {
		panic(Crash{})
	}
	Steps++
	return Steps-1 == FailAt
}

// Step is for the other stand-ins.
func Step() error {
	if step() {
		return ErrFault
	}
	return nil
}

func fail(op, name string, err error) error { return &PathError{Op: op, Path: name, Err: err} }

func Getenv(key string) string { return Env[key] }

func LookupEnv(key string) (string, bool) { v, ok := Env[key]; return v, ok }

func parent(name string) string {
	for i := len(name) - 1; i > 0; i-- {
		if name[i] == '/' {
			return name[:i]
		}
	}
	return "/"
}

func isDir(name string) bool { n, ok := Files[name]; return name == "/" || ok && n.Dir }

func Stat(name string) (FileInfo, error) {
	if step() {
		return nil, fail("stat", name, ErrFault)
	}
	if name == "/" {
		return info{name, &Node{Dir: true}}, nil
	}
	n, ok := Files[name]
	if !ok {
		return nil, fail("stat", name, ErrNotExist)
	}
	return info{name, n}, nil
}

func Lstat(name string) (FileInfo, error) { return Stat(name) }

func Mkdir(name string, perm FileMode) error {
	if step() {
		return fail("mkdir", name, ErrFault)
	}
	if _, ok := Files[name]; ok {
		return fail("mkdir", name, ErrExist)
	}
	if !isDir(parent(name)) {
		return fail("mkdir", name, ErrNotExist)
	}
	Files[name] = &Node{Dir: true, Perm: perm}
	Made = append(Made, name)
	return nil
}

func MkdirAll(name string, perm FileMode) error {
	if isDir(name) {
		return nil
	}
	if _, ok := Files[name]; ok {
		return fail("mkdir", name, ErrExist)
	}
	if p := parent(name); p != "/" {
		if err := MkdirAll(p, perm); err != nil {
			return err
		}
	}
	return Mkdir(name, perm)
}

func Create(name string) (*File, error) { return OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0o666) }

func Open(name string) (*File, error) { return OpenFile(name, O_RDONLY, 0) }

func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	if step() {
		return nil, fail("open", name, ErrFault)
	}
	n, ok := Files[name]
	switch {
	case !ok && flag&O_CREATE == 0:
		return nil, fail("open", name, ErrNotExist)
	case !ok && !isDir(parent(name)):
		return nil, fail("open", name, ErrNotExist)
	case ok && flag&(O_CREATE|O_EXCL) == O_CREATE|O_EXCL:
		return nil, fail("open", name, ErrExist)
	case ok && n.Dir && flag&(O_WRONLY|O_RDWR) != 0:
		return nil, fail("open", name, ErrPermission)
	}
	if !ok {
		n = &Node{Perm: perm}
		Files[name] = n
		Made = append(Made, name)
	}
	if flag&O_TRUNC != 0 {
		n.Data = nil
		Made = append(Made, name)
	}
	Open_++
	f := &File{name: name, n: n}
	if flag&O_APPEND != 0 {
		f.pos = len(n.Data)
	}
	return f, nil
}

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	if f.n.Dir {
		return nil, fail("read", name, ErrPermission)
	}
	if step() {
		return nil, fail("read", name, ErrFault)
	}
	return append([]byte(nil), f.n.Data...), nil
}

func WriteFile(name string, data []byte, perm FileMode) error {
	f, err := OpenFile(name, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

func Remove(name string) error {
	if step() {
		return fail("remove", name, ErrFault)
	}
	if _, ok := Files[name]; !ok {
		return fail("remove", name, ErrNotExist)
	}
	delete(Files, name)
	Made = append(Made, name)
	return nil
}

func Rename(from, to string) error {
	if step() {
		return fail("rename", from, ErrFault)
	}
	n, ok := Files[from]
	if !ok {
		return fail("rename", from, ErrNotExist)
	}
	if old, ok := Files[to]; ok && old.Dir {
		return fail("rename", to, ErrExist)
	}
	delete(Files, from)
	Files[to] = n
	Made = append(Made, from, to)
	return nil
}

func Chmod(name string, perm FileMode) error {
	if step() {
		return fail("chmod", name, ErrFault)
	}
	n, ok := Files[name]
	if !ok {
		return fail("chmod", name, ErrNotExist)
	}
	n.Perm = perm
	return nil
}

func IsNotExist(err error) bool { return errors.Is(err, ErrNotExist) }

func IsExist(err error) bool { return errors.Is(err, ErrExist) }

type File struct {
	name   string
	n      *Node
	pos    int
	closed bool
}

func (f *File) Name() string { return f.name }

func (f *File) Stat() (FileInfo, error) { return Stat(f.name) }

func (f *File) Read(p []byte) (int, error) {
	if f.closed {
		return 0, ErrClosed
	}
	if step() {
		return 0, ErrFault
	}
	if f.pos >= len(f.n.Data) {
		return 0, io.EOF
	}
	n := copy(p, f.n.Data[f.pos:])
	f.pos += n
	return n, nil
}

// Write writes half of the bytes before a failure or a crash.
func (f *File) Write(p []byte) (int, error) {
	if f.closed {
		return 0, ErrClosed
	}
	if Steps == DieAt || Steps == FailAt {
		f.n.Data = append(f.n.Data[:f.pos], p[:len(p)/2]...)
		f.pos += len(p) / 2
	}
	if step() {
		return len(p) / 2, ErrFault
	}
	f.n.Data = append(f.n.Data[:f.pos], p...)
	f.pos += len(p)
	return len(p), nil
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) Chmod(perm FileMode) error { return Chmod(f.name, perm) }

func (f *File) Sync() error { return Step() }

func (f *File) Close() error {
	if f.closed {
		return ErrClosed
	}
	f.closed = true
	Open_--
	return Step()
}

type info struct {
	name string
	n    *Node
}

func (i info) Name() string { return i.name }
func (i info) Size() int64  { return int64(len(i.n.Data)) }
func (i info) Mode() FileMode {
	if i.n.Dir {
		return fs.ModeDir | i.n.Perm
	}
	return i.n.Perm
}
func (i info) ModTime() time.Time { return time.Time{} }
func (i info) IsDir() bool        { return i.n.Dir }
func (i info) Sys() any           { return nil }
