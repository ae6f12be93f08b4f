//go:build go1.21

package rt

import (
	"errors"
	"io"
	"io/fs"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"
)

// FS is one machine's in-memory file system. It survives crashes of the node.
type FS struct {
	files map[string]*Inode
	Rules []*FSRule
}

type Inode struct {
	Dir  bool
	Data []byte
	Mode fs.FileMode
	Kids map[string]bool
}

// FSRule injects a disk fault: operation op on a path containing Match fails
// (or is slow, or short) while the rule is active.
type FSRule struct {
	Op    string // open, read, stat, readdir
	Match string
	Kind  string // EIO EACCES ENOENT EMFILE short slow torn
	From  int64
	To    int64
	After int64 // read: first byte offset affected
	Skip  int
	Count int // number of times it fires (0: unlimited)
	Delay int64
	hits  int
}

func NewFS() *FS {
	f := &FS{files: map[string]*Inode{}}
	f.files["/"] = &Inode{Dir: true, Mode: fs.ModeDir | 0755, Kids: map[string]bool{}}
	return f
}

func Clean(p string) string {
	if !strings.HasPrefix(p, "/") {
		p = "/" + p
	}
	return path.Clean(p)
}

func (f *FS) Mkdir(p string) {
	p = Clean(p)
	if f.files[p] != nil {
		return
	}
	f.Mkdir(path.Dir(p))
	f.files[p] = &Inode{Dir: true, Mode: fs.ModeDir | 0755, Kids: map[string]bool{}}
	f.files[path.Dir(p)].Kids[path.Base(p)] = true
}

func (f *FS) Put(p string, data []byte) {
	p = Clean(p)
	f.Mkdir(path.Dir(p))
	f.files[p] = &Inode{Data: data, Mode: 0644}
	f.files[path.Dir(p)].Kids[path.Base(p)] = true
}

func (f *FS) Remove(p string) {
	p = Clean(p)
	delete(f.files, p)
	if d := f.files[path.Dir(p)]; d != nil {
		delete(d.Kids, path.Base(p))
	}
}

func (f *FS) Get(p string) *Inode { return f.files[Clean(p)] }

// Hits is how often the fault occurred.
func (r *FSRule) Hits() int { return r.hits }

// rule finds the fault (if any) that applies.
func (f *FS) rule(op, p string, off int64) *FSRule {
	for _, r := range f.Rules {
		if m, ok := strings.CutSuffix(r.Match, "$"); ok && !strings.HasSuffix(p, m) {
			continue
		} else if r.Op != op || !strings.Contains(p, m) {
			continue
		}
		if S.Now() < r.From || (r.To > 0 && S.Now() >= r.To) || off < r.After {
			continue
		}
		if r.Skip > 0 {
			r.Skip--
			continue
		}
		if r.Count > 0 && r.hits >= r.Count {
			continue
		}
		r.hits++
		S.Fault("disk_" + op + "_" + r.Kind)
		return r
	}
	return nil
}

func errOf(k string) error {
	switch k {
	case "EACCES":
		return syscall.EACCES
	case "ENOENT":
		return syscall.ENOENT
	case "EMFILE":
		return syscall.EMFILE
	case "ENOMEM":
		return syscall.ENOMEM
	}
	return syscall.EIO
}

// File is an open file of the simulated file system, or a standard stream.
type File struct {
	name   string
	node   *Node
	inc    int
	ino    *Inode
	off    int64
	std    int
	closed bool
	dirPos int
	wr     bool
}

var ErrClosedFile = fs.ErrClosed

func pathErr(op, p string, e error) error { return &fs.PathError{Op: op, Path: p, Err: e} }

func StdFile(fd int) *File { return &File{name: "/dev/std", std: fd, node: CurNode()} }

func OpenFile(name string, flag int, perm fs.FileMode) (*File, error) {
	Y()
	n := CurNode()
	if n == nil {
		return nil, pathErr("open", name, syscall.ENOENT)
	}
	CheckKill()
	if r := n.FS.rule("open", Clean(name), 0); r != nil {
		if r.Kind == "slow" {
			SleepTrue(r.Delay)
		} else {
			return nil, pathErr("open", name, errOf(r.Kind))
		}
	}
	if n.FDs >= n.FDLimit {
		S.Fault("fd_limit_open")
		return nil, pathErr("open", name, syscall.EMFILE)
	}
	ino := n.FS.Get(name)
	wr := flag&(syscall.O_WRONLY|syscall.O_RDWR) != 0
	if ino == nil {
		if flag&syscall.O_CREAT == 0 {
			return nil, pathErr("open", name, syscall.ENOENT)
		}
		if d := n.FS.Get(path.Dir(Clean(name))); d == nil || !d.Dir {
			return nil, pathErr("open", name, syscall.ENOENT)
		}
		n.FS.Put(name, nil)
		ino = n.FS.Get(name)
	} else if wr && ino.Dir {
		return nil, pathErr("open", name, syscall.EISDIR)
	} else if wr && flag&syscall.O_TRUNC != 0 {
		ino.Data = nil
	}
	n.FDs++
	n.FDOpen[Clean(name)]++
	f := &File{name: name, node: n, inc: n.Inc, ino: ino, wr: wr}
	if flag&syscall.O_APPEND != 0 {
		f.off = int64(len(ino.Data))
	}
	return f, nil
}

func (f *File) Name() string { return f.name }
func (f *File) Fd() uintptr  { return uintptr(f.std) }

func (f *File) Close() error {
	if f == nil {
		return fs.ErrInvalid
	}
	if f.closed {
		return pathErr("close", f.name, fs.ErrClosed)
	}
	f.closed = true
	if f.ino != nil && f.node.Inc == f.inc {
		f.node.FDs--
		f.node.FDOpen[Clean(f.name)]--
	}
	return nil
}

func (f *File) Read(p []byte) (int, error) {
	Y()
	if f == nil {
		return 0, fs.ErrInvalid
	}
	n, err := f.readAt(p, f.off)
	f.off += int64(n)
	return n, err
}

func (f *File) ReadAt(p []byte, off int64) (int, error) {
	n, err := f.readAt(p, off)
	if err == nil && n < len(p) {
		m, e := f.readAt(p[n:], off+int64(n))
		return n + m, e
	}
	return n, err
}

func (f *File) readAt(p []byte, off int64) (int, error) {
	if f.closed {
		return 0, pathErr("read", f.name, fs.ErrClosed)
	}
	if f.ino == nil {
		if f.std == 0 {
			return 0, io.EOF
		}
		return 0, pathErr("read", f.name, syscall.EBADF)
	}
	if f.ino.Dir {
		return 0, pathErr("read", f.name, syscall.EISDIR)
	}
	if len(p) == 0 {
		return 0, nil
	}
	data := f.ino.Data
	if r := f.node.FS.rule("read", Clean(f.name), off+int64(len(p))); r != nil {
		switch r.Kind {
		case "slow":
			SleepTrue(r.Delay)
		case "short":
			if len(p) > 1 {
				p = p[:1+len(p)/3]
			}
		case "torn": // the file ends early
			if r.After < int64(len(data)) {
				data = data[:r.After]
			}
		default:
			return 0, pathErr("read", f.name, errOf(r.Kind))
		}
	}
	if off >= int64(len(data)) {
		return 0, io.EOF
	}
	return copy(p, data[off:]), nil
}

func (f *File) Seek(off int64, whence int) (int64, error) {
	if f.closed {
		return 0, pathErr("seek", f.name, fs.ErrClosed)
	}
	switch whence {
	case 1:
		off += f.off
	case 2:
		off += int64(len(f.ino.Data))
	}
	if off < 0 {
		return 0, pathErr("seek", f.name, syscall.EINVAL)
	}
	f.off = off
	return off, nil
}

func (f *File) Write(p []byte) (int, error) {
	if f.ino == nil {
		if f.node != nil {
			f.node.Write(f.std, p)
		}
		return len(p), nil
	}
	if f.closed || !f.wr {
		return 0, pathErr("write", f.name, fs.ErrClosed)
	}
	d := f.ino.Data
	for int64(len(d)) < f.off {
		d = append(d, 0)
	}
	f.ino.Data = append(d[:f.off:f.off], p...)
	f.off += int64(len(p))
	return len(p), nil
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }
func (f *File) Sync() error                       { return nil }

type finfo struct {
	name string
	ino  *Inode
}

func (i finfo) Name() string       { return i.name }
func (i finfo) Size() int64        { return int64(len(i.ino.Data)) }
func (i finfo) Mode() fs.FileMode  { return i.ino.Mode }
func (i finfo) ModTime() time.Time { return time.Unix(1500000000, 0) }
func (i finfo) IsDir() bool        { return i.ino.Dir }
func (i finfo) Sys() interface{}   { return nil }

func (f *File) Stat() (fs.FileInfo, error) {
	if f.ino == nil {
		return finfo{f.name, &Inode{Mode: fs.ModeDevice}}, nil
	}
	return finfo{path.Base(Clean(f.name)), f.ino}, nil
}

func Stat(name string) (fs.FileInfo, error) {
	Y()
	n := CurNode()
	if n == nil {
		return nil, pathErr("stat", name, syscall.ENOENT)
	}
	CheckKill()
	if r := n.FS.rule("stat", Clean(name), 0); r != nil {
		if r.Kind == "slow" {
			SleepTrue(r.Delay)
		} else {
			return nil, pathErr("stat", name, errOf(r.Kind))
		}
	}
	ino := n.FS.Get(name)
	if ino == nil {
		return nil, pathErr("stat", name, syscall.ENOENT)
	}
	return finfo{path.Base(Clean(name)), ino}, nil
}

// ReadDirNames lists a directory, sorted.
func ReadDirNames(name string) ([]string, error) {
	n := CurNode()
	if n == nil {
		return nil, pathErr("open", name, syscall.ENOENT)
	}
	CheckKill()
	if r := n.FS.rule("readdir", Clean(name), 0); r != nil {
		if r.Kind == "slow" {
			SleepTrue(r.Delay)
		} else {
			return nil, pathErr("open", name, errOf(r.Kind))
		}
	}
	ino := n.FS.Get(name)
	if ino == nil {
		return nil, pathErr("open", name, syscall.ENOENT)
	}
	if !ino.Dir {
		return nil, pathErr("readdirent", name, syscall.ENOTDIR)
	}
	var out []string
	for k := range ino.Kids {
		out = append(out, k)
	}
	sort.Strings(out)
	return out, nil
}

func (f *File) Readdirnames(n int) ([]string, error) {
	all, err := ReadDirNames(f.name)
	if err != nil {
		return nil, err
	}
	all = all[min(f.dirPos, len(all)):]
	if n > 0 {
		if len(all) == 0 {
			return nil, io.EOF
		}
		if len(all) > n {
			all = all[:n]
		}
	}
	f.dirPos += len(all)
	return all, nil
}

func (f *File) Readdir(n int) ([]fs.FileInfo, error) {
	names, err := f.Readdirnames(n)
	var out []fs.FileInfo
	for _, k := range names {
		if ino := f.node.FS.Get(path.Join(f.name, k)); ino != nil {
			out = append(out, finfo{k, ino})
		}
	}
	return out, err
}

func (f *File) ReadDir(n int) ([]fs.DirEntry, error) {
	is, err := f.Readdir(n)
	var out []fs.DirEntry
	for _, i := range is {
		out = append(out, fs.FileInfoToDirEntry(i))
	}
	return out, err
}

var errUnsupported = errors.New("not supported by the simulated file system")
