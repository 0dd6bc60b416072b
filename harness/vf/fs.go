package zzvf

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

// In-memory file system with the permission rules an ordinary user meets and
// with failures chosen by the solver.

type node struct {
	name string
	dir  bool
	mode os.FileMode
	data []byte
	kids []*node // sorted by name
	when int64   // last changed
}

var (
	fsRoot   *node
	fsFaults int  // failures still allowed
	fsHard   bool // failing writes may leave part of the data behind
	fsTmpSeq int
	fsOps    int
	fsOpen   int // files open
	fsFailed int
	fsCrash  bool // the process may be killed at any operation
	fsDead   bool // it has been killed: nothing it does has an effect
)

var (
	ErrNotExist   = fs.ErrNotExist
	ErrExist      = fs.ErrExist
	ErrPermission = fs.ErrPermission
	ErrClosed     = fs.ErrClosed
	errIsDir      = errors.New("is a directory")
	errNotDir     = errors.New("not a directory")
	errNotEmpty   = errors.New("directory not empty")
	ErrStorage    = errors.New("no space left on device")
	errBadFile    = errors.New("bad file descriptor")
)

func resetFS() {
	fsRoot = &node{name: "/", dir: true, mode: 0755}
	fsRoot.kids = []*node{{name: "tmp", dir: true, mode: 0777}}
	fsFaults, fsHard, fsTmpSeq, fsOps = 0, false, 0, 0
	fsCrash, fsDead = false, false
}

// FSFaults allows n storage failures; partial: a failing write may have stored
// a part of its data.
func FSFaults(n int, partial bool) { fsFaults, fsHard = n, partial }

// FSCrash lets the process be killed at any one operation from now on: that
// operation (a write perhaps in part) and all later ones have no effect
// and fail, until FSRestart.
func FSCrash() { fsCrash, fsHard = true, true }

// FSDead tells whether the process has been killed
func FSDead() bool { return fsDead }

// FSRestart ends the time in which it can be killed and lets operations through
// again, for the process that takes its place
func FSRestart() { fsCrash, fsDead, fsHard, fsOpen = false, false, false, 0 }

// FSOps counts the operations so far
func FSOps() int { return fsOps }

// FSFailed counts the storage failures so far
func FSFailed() int { return fsFailed }

// OpenFiles counts the files that have been opened and not closed
func OpenFiles() int { return fsOpen }

// Files lists the files (not directories) stored
func Files() []string {
	if fsRoot == nil {
		return nil
	}
	return fsRoot.files("")
}

func (n *node) files(at string) []string {
	var out []string
	for _, k := range n.kids {
		p := at + "/" + k.name
		if k.dir {
			out = append(out, k.files(p)...)
		} else {
			out = append(out, p)
		}
	}
	return out
}

func fault() bool {
	fsOps++
	if fsDead {
		return true
	}
	if fsCrash && Choose(2) == 1 {
		fsDead = true
		Cover("crash")
		return true
	}
	if fsFaults > 0 && Choose(2) == 1 {
		fsFaults--
		fsFailed++
		Cover("storage failure")
		return true
	}
	return false
}

func perr(op, path string, err error) error { return &fs.PathError{Op: op, Path: path, Err: err} }

func parts(p string) []string {
	p = filepath.Clean(p)
	if !strings.HasPrefix(p, "/") {
		p = "/" + p
	}
	if p == "/" {
		return nil
	}
	return strings.Split(p[1:], "/")
}

func (n *node) kid(name string) *node {
	for _, k := range n.kids {
		if k.name == name {
			return k
		}
	}
	return nil
}

func (n *node) add(k *node) {
	n.kids = append(n.kids, k)
	sort.Slice(n.kids, func(i, j int) bool { return n.kids[i].name < n.kids[j].name })
}

func (n *node) drop(name string) {
	for i, k := range n.kids {
		if k.name == name {
			n.kids = append(n.kids[:i:i], n.kids[i+1:]...)
			return
		}
	}
}

// find gives the parent directory, the node (or nil) and the last name
func find(p string) (*node, *node, string, error) {
	if fsRoot == nil {
		n, h, c := fsFaults, fsHard, fsCrash
		resetFS()
		fsFaults, fsHard, fsCrash = n, h, c
	}
	ps := parts(p)
	d := fsRoot
	if len(ps) == 0 {
		return nil, d, "/", nil
	}
	for i, s := range ps {
		if !d.dir {
			return nil, nil, "", errNotDir
		}
		if d.mode&0100 == 0 {
			return nil, nil, "", ErrPermission
		}
		k := d.kid(s)
		if i == len(ps)-1 {
			return d, k, s, nil
		}
		if k == nil {
			return nil, nil, "", ErrNotExist
		}
		d = k
	}
	return nil, nil, "", ErrNotExist
}

type fileInfo struct{ n *node }

func (f fileInfo) Name() string               { return f.n.name }
func (f fileInfo) Size() int64                { return int64(len(f.n.data)) }
func (f fileInfo) ModTime() time.Time         { return time.Unix(Epoch+f.n.when, 0) }
func (f fileInfo) IsDir() bool                { return f.n.dir }
func (f fileInfo) Sys() interface{}           { return nil }
func (f fileInfo) Info() (os.FileInfo, error) { return f, nil }
func (f fileInfo) Type() os.FileMode          { return f.Mode() & os.ModeType }
func (f fileInfo) String() string             { return f.n.name }
func (f fileInfo) Mode() os.FileMode {
	if f.n.dir {
		return f.n.mode | os.ModeDir
	}
	return f.n.mode
}

// File is os.File
type File struct {
	n      *node
	path   string
	flag   int
	pos    int
	closed bool
	listed bool
}

func TempDir() string                     { return "/tmp" }
func Getenv(string) string                { return "" }
func UserCacheDir() (string, error)       { return "/tmp/cache", nil }
func Getwd() (string, error)              { return "/", nil }
func Create(p string) (*File, error)      { return OpenFile(p, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666) }
func Open(p string) (*File, error)        { return OpenFile(p, os.O_RDONLY, 0) }
func IsNotExist(e error) bool             { return errHas(e, ErrNotExist) }
func IsExist(e error) bool                { return errHas(e, ErrExist) || errHas(e, errNotEmpty) }
func IsPermission(e error) bool           { return errHas(e, ErrPermission) }
func Chmod(p string, m os.FileMode) error { return chmod(p, m) }
func MkdirTemp(d, pat string) (string, error) {
	return mkTemp(d, pat, true)
}

func errHas(e, t error) bool {
	for e != nil {
		if e == t {
			return true
		}
		pe, ok := e.(*fs.PathError)
		if ok {
			e = pe.Err
			continue
		}
		le, ok := e.(*os.LinkError)
		if !ok {
			return false
		}
		e = le.Err
	}
	return false
}

func chmod(p string, m os.FileMode) error {
	if fsDead {
		return perr("chmod", p, ErrStorage)
	}
	_, n, _, err := find(p)
	if err != nil {
		return perr("chmod", p, err)
	}
	if n == nil {
		return perr("chmod", p, ErrNotExist)
	}
	n.mode = m.Perm()
	return nil
}

func OpenFile(p string, flag int, mode os.FileMode) (*File, error) {
	SchedPoint()
	if fault() {
		return nil, perr("open", p, ErrStorage)
	}
	d, n, name, err := find(p)
	if err != nil {
		return nil, perr("open", p, err)
	}
	acc := flag & (os.O_RDONLY | os.O_WRONLY | os.O_RDWR)
	if n == nil {
		if flag&os.O_CREATE == 0 {
			return nil, perr("open", p, ErrNotExist)
		}
		if d.mode&0200 == 0 {
			return nil, perr("open", p, ErrPermission)
		}
		n = &node{name: name, mode: mode.Perm() &^ 022, when: clockSec}
		d.add(n)
	} else {
		if flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
			return nil, perr("open", p, ErrExist)
		}
		if n.dir && acc != os.O_RDONLY {
			return nil, perr("open", p, errIsDir)
		}
		if acc != os.O_WRONLY && n.mode&0400 == 0 || acc != os.O_RDONLY && n.mode&0200 == 0 {
			return nil, perr("open", p, ErrPermission)
		}
		if flag&os.O_TRUNC != 0 && acc != os.O_RDONLY {
			n.data, n.when = nil, clockSec
		}
	}
	fsOpen++
	return &File{n: n, path: p, flag: flag}, nil
}

func (f *File) Name() string { return f.path }
func (f *File) Fd() uintptr  { return 3 }
func (f *File) Close() error {
	if f == nil {
		return os.ErrInvalid
	}
	if f.closed {
		return perr("close", f.path, ErrClosed)
	}
	f.closed = true
	fsOpen--
	return nil
}
func (f *File) Sync() error {
	if fault() {
		return perr("sync", f.path, ErrStorage)
	}
	return nil
}
func (f *File) Stat() (os.FileInfo, error) { return fileInfo{f.n}, nil }
func (f *File) Chmod(m os.FileMode) error {
	if fsDead {
		return perr("chmod", f.path, ErrStorage)
	}
	f.n.mode = m.Perm()
	return nil
}
func (f *File) Read(b []byte) (int, error) {
	if f == nil {
		return 0, os.ErrInvalid
	}
	if f.closed {
		return 0, perr("read", f.path, ErrClosed)
	}
	if f.flag&os.O_WRONLY != 0 || f.n.dir {
		return 0, perr("read", f.path, errBadFile)
	}
	if len(b) == 0 {
		return 0, nil
	}
	if f.pos >= len(f.n.data) {
		return 0, io.EOF
	}
	if fault() {
		return 0, perr("read", f.path, ErrStorage)
	}
	n := copy(b, f.n.data[f.pos:])
	f.pos += n
	return n, nil
}
func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if f.closed {
		return 0, perr("read", f.path, ErrClosed)
	}
	if int(off) >= len(f.n.data) {
		return 0, io.EOF
	}
	n := copy(b, f.n.data[off:])
	if n < len(b) {
		return n, io.EOF
	}
	return n, nil
}
func (f *File) put(b []byte, at int) {
	d := make([]byte, 0, at+len(b))
	d = append(d, f.n.data...)
	for len(d) < at {
		d = append(d, 0)
	}
	if at+len(b) <= len(d) {
		copy(d[at:], b)
	} else {
		d = append(d[:at], b...)
	}
	f.n.data, f.n.when = d, clockSec
}
func (f *File) Write(b []byte) (int, error) {
	if f == nil {
		return 0, os.ErrInvalid
	}
	if f.closed {
		return 0, perr("write", f.path, ErrClosed)
	}
	if f.flag&(os.O_WRONLY|os.O_RDWR) == 0 {
		return 0, perr("write", f.path, errBadFile)
	}
	if f.flag&os.O_APPEND != 0 {
		f.pos = len(f.n.data)
	}
	if dead := fsDead; len(b) > 0 && fault() {
		n := 0
		if fsHard && !dead {
			n = Choose(len(b))
		}
		f.put(b[:n], f.pos)
		f.pos += n
		return n, perr("write", f.path, ErrStorage)
	}
	f.put(b, f.pos)
	f.pos += len(b)
	return len(b), nil
}
func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }
func (f *File) WriteAt(b []byte, off int64) (int, error) {
	if f.closed {
		return 0, perr("write", f.path, ErrClosed)
	}
	if fault() {
		return 0, perr("write", f.path, ErrStorage)
	}
	f.put(b, int(off))
	return len(b), nil
}
func (f *File) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekStart:
		f.pos = int(off)
	case io.SeekCurrent:
		f.pos += int(off)
	case io.SeekEnd:
		f.pos = len(f.n.data) + int(off)
	}
	return int64(f.pos), nil
}
func (f *File) Truncate(n int64) error {
	if fault() {
		return perr("truncate", f.path, ErrStorage)
	}
	d := append([]byte(nil), f.n.data...)
	for int64(len(d)) < n {
		d = append(d, 0)
	}
	f.n.data, f.n.when = d[:n], clockSec
	return nil
}
func (f *File) Readdir(n int) ([]os.FileInfo, error) {
	if f.listed {
		return nil, io.EOF
	}
	f.listed = true
	return listDir(f.path)
}
func (f *File) ReadDir(n int) ([]fs.DirEntry, error) {
	if f.listed {
		return nil, io.EOF
	}
	f.listed = true
	return ReadDirEntries(f.path)
}
func (f *File) Readdirnames(n int) ([]string, error) {
	l, err := f.Readdir(n)
	var out []string
	for _, x := range l {
		out = append(out, x.Name())
	}
	return out, err
}

func listDir(p string) ([]os.FileInfo, error) {
	if fault() {
		return nil, perr("open", p, ErrStorage)
	}
	_, n, _, err := find(p)
	if err != nil {
		return nil, perr("open", p, err)
	}
	if n == nil {
		return nil, perr("open", p, ErrNotExist)
	}
	if !n.dir {
		return nil, perr("readdirent", p, errNotDir)
	}
	if n.mode&0400 == 0 {
		return nil, perr("open", p, ErrPermission)
	}
	var out []os.FileInfo
	for _, k := range n.kids {
		out = append(out, fileInfo{k})
	}
	return out, nil
}

func ReadDir(p string) ([]os.FileInfo, error) { return listDir(p) }

func ReadDirEntries(p string) ([]fs.DirEntry, error) {
	l, err := listDir(p)
	var out []fs.DirEntry
	for _, x := range l {
		out = append(out, x.(fileInfo))
	}
	return out, err
}

func Mkdir(p string, mode os.FileMode) error {
	SchedPoint()
	if fault() {
		return perr("mkdir", p, ErrStorage)
	}
	d, n, name, err := find(p)
	if err != nil {
		return perr("mkdir", p, err)
	}
	if n != nil {
		return perr("mkdir", p, ErrExist)
	}
	if d.mode&0200 == 0 {
		return perr("mkdir", p, ErrPermission)
	}
	d.add(&node{name: name, dir: true, mode: mode.Perm() &^ 022, when: clockSec})
	return nil
}

func MkdirAll(p string, mode os.FileMode) error {
	ps := parts(p)
	path := ""
	for _, s := range ps {
		path += "/" + s
		_, n, _, err := find(path)
		if err != nil {
			return perr("mkdir", path, err)
		}
		if n != nil {
			if !n.dir {
				return perr("mkdir", path, errNotDir)
			}
			continue
		}
		if err := Mkdir(path, mode); err != nil {
			return err
		}
	}
	return nil
}

func WriteFile(p string, data []byte, mode os.FileMode) error {
	f, err := OpenFile(p, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, mode)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	f.Close()
	return err
}

func ReadFile(p string) ([]byte, error) {
	f, err := OpenFile(p, os.O_RDONLY, 0)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	if f.n.dir {
		return nil, perr("read", p, errIsDir)
	}
	if len(f.n.data) > 0 && fault() {
		return nil, perr("read", p, ErrStorage)
	}
	return append([]byte{}, f.n.data...), nil
}

func Remove(p string) error {
	SchedPoint()
	if fault() {
		return perr("remove", p, ErrStorage)
	}
	d, n, name, err := find(p)
	if err != nil {
		return perr("remove", p, err)
	}
	if n == nil {
		return perr("remove", p, ErrNotExist)
	}
	if d == nil || d.mode&0200 == 0 {
		return perr("remove", p, ErrPermission)
	}
	if n.dir && len(n.kids) > 0 {
		return perr("remove", p, errNotEmpty)
	}
	d.drop(name)
	return nil
}

func RemoveAll(p string) error {
	SchedPoint()
	d, n, name, err := find(p)
	if err != nil || n == nil || d == nil {
		return nil
	}
	if fault() {
		return perr("unlinkat", p, ErrStorage)
	}
	d.drop(name)
	return nil
}

func Rename(from, to string) error {
	SchedPoint()
	if fault() {
		return &os.LinkError{Op: "rename", Old: from, New: to, Err: ErrStorage}
	}
	d, n, name, err := find(from)
	if err == nil && n == nil {
		err = ErrNotExist
	}
	var d2, n2 *node
	var name2 string
	if err == nil {
		d2, n2, name2, err = find(to)
	}
	if err == nil && (d == nil || d2 == nil || d.mode&0200 == 0 || d2.mode&0200 == 0) {
		err = ErrPermission
	}
	if err == nil && n2 != nil && n2.dir && !n.dir {
		err = errIsDir
	}
	if err != nil {
		return &os.LinkError{Op: "rename", Old: from, New: to, Err: err}
	}
	d.drop(name)
	if n2 != nil {
		d2.drop(name2)
	}
	n.name = name2
	d2.add(n)
	return nil
}

func Stat(p string) (os.FileInfo, error) {
	_, n, _, err := find(p)
	if err != nil {
		return nil, perr("stat", p, err)
	}
	if n == nil {
		return nil, perr("stat", p, ErrNotExist)
	}
	return fileInfo{n}, nil
}

func Truncate(p string, size int64) error {
	f, err := OpenFile(p, os.O_WRONLY, 0)
	if err != nil {
		return err
	}
	defer f.Close()
	return f.Truncate(size)
}

func mkTemp(d, pat string, dir bool) (string, error) {
	if d == "" {
		d = "/tmp"
	}
	fsTmpSeq++
	s := strconv.Itoa(fsTmpSeq + 4711)
	name := pat + s
	if i := strings.LastIndex(pat, "*"); i >= 0 {
		name = pat[:i] + s + pat[i+1:]
	}
	p := d + "/" + name
	if dir {
		return p, Mkdir(p, 0700)
	}
	return p, nil
}

func TempFile(d, pat string) (*File, error) {
	p, _ := mkTemp(d, pat, false)
	return OpenFile(p, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600)
}

// Walk is filepath.Walk
func Walk(root string, fn filepath.WalkFunc) error {
	info, err := Stat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walk(root, info, fn)
	}
	if err == filepath.SkipDir || err == filepath.SkipAll {
		return nil
	}
	return err
}

func walk(path string, info os.FileInfo, fn filepath.WalkFunc) error {
	if !info.IsDir() {
		return fn(path, info, nil)
	}
	list, err := listDir(path)
	err1 := fn(path, info, err)
	if err != nil || err1 != nil {
		return err1
	}
	for _, k := range list {
		p := filepath.Join(path, k.Name())
		if _, e := Stat(p); e != nil {
			if err := fn(p, nil, e); err != nil && err != filepath.SkipDir {
				return err
			}
			continue
		}
		if err := walk(p, k, fn); err != nil {
			if !k.IsDir() || err != filepath.SkipDir {
				return err
			}
		}
	}
	return nil
}

// WalkDir is filepath.WalkDir
func WalkDir(root string, fn fs.WalkDirFunc) error {
	info, err := Stat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walkDir(root, info.(fileInfo), fn)
	}
	if err == filepath.SkipDir || err == filepath.SkipAll {
		return nil
	}
	return err
}

func walkDir(path string, d fileInfo, fn fs.WalkDirFunc) error {
	if err := fn(path, d, nil); err != nil || !d.IsDir() {
		if err == filepath.SkipDir && d.IsDir() {
			err = nil
		}
		return err
	}
	list, err := listDir(path)
	if err != nil {
		if err = fn(path, d, err); err != nil {
			if err == filepath.SkipDir && d.IsDir() {
				err = nil
			}
			return err
		}
	}
	for _, k := range list {
		if err := walkDir(filepath.Join(path, k.Name()), k.(fileInfo), fn); err != nil {
			if err == filepath.SkipDir {
				break
			}
			return err
		}
	}
	return nil
}

// Glob is filepath.Glob for patterns in the last path element
func Glob(pattern string) ([]string, error) {
	dir, pat := filepath.Split(pattern)
	dir = filepath.Clean(dir)
	l, err := listDir(dir)
	if err != nil {
		return nil, nil
	}
	var out []string
	for _, k := range l {
		ok, err := filepath.Match(pat, k.Name())
		if err != nil {
			return nil, err
		}
		if ok {
			out = append(out, filepath.Join(dir, k.Name()))
		}
	}
	return out, nil
}

// ErrorsIs is errors.Is
func ErrorsIs(err, target error) bool {
	for err != nil {
		if err == target {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if ErrorsIs(e, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
	return target == nil
}
