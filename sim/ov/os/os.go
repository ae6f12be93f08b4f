//go:build go1.21

package os

import (
	"io/fs"
	"msim/rt"
	real "os"
	"path"
	"syscall"
	"time"
)

type File = rt.File

// The rewriter turns os.Args, os.Stdin, ... into calls of these.
func Args_() []string {
	if n := rt.CurNode(); n != nil {
		return n.Args
	}
	return []string{"sim"}
}
func Stdin_() *File  { return rt.StdFile(0) }
func Stdout_() *File { return rt.StdFile(1) }
func Stderr_() *File { return rt.StdFile(2) }

func Exit(code int) { rt.Exit(code) }

func Open(name string) (*File, error)   { return rt.OpenFile(name, 0, 0) }
func Create(name string) (*File, error) { return rt.OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0666) }
func OpenFile(name string, flag int, perm fs.FileMode) (*File, error) {
	return rt.OpenFile(name, flag, perm)
}
func Stat(name string) (fs.FileInfo, error)  { return rt.Stat(name) }
func Lstat(name string) (fs.FileInfo, error) { return rt.Stat(name) }

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	var out []byte
	buf := make([]byte, 8192)
	for {
		n, err := f.Read(buf)
		out = append(out, buf[:n]...)
		if err != nil {
			if err.Error() == "EOF" {
				return out, nil
			}
			return out, err
		}
	}
}

func WriteFile(name string, data []byte, perm fs.FileMode) error {
	f, err := rt.OpenFile(name, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	f.Close()
	return err
}

func ReadDir(name string) ([]fs.DirEntry, error) {
	names, err := rt.ReadDirNames(name)
	if err != nil {
		return nil, err
	}
	var out []fs.DirEntry
	for _, k := range names {
		fi, err := rt.Stat(path.Join(name, k))
		if err == nil {
			out = append(out, fs.FileInfoToDirEntry(fi))
		}
	}
	return out, nil
}

func Remove(name string) error {
	n := rt.CurNode()
	if n.FS.Get(name) == nil {
		return &fs.PathError{Op: "remove", Path: name, Err: syscall.ENOENT}
	}
	n.FS.Remove(name)
	return nil
}
func RemoveAll(name string) error { rt.CurNode().FS.Remove(name); return nil }
func Rename(a, b string) error {
	n := rt.CurNode()
	i := n.FS.Get(a)
	if i == nil {
		return &fs.PathError{Op: "rename", Path: a, Err: syscall.ENOENT}
	}
	n.FS.Put(b, i.Data)
	n.FS.Remove(a)
	return nil
}
func Mkdir(name string, _ fs.FileMode) error     { rt.CurNode().FS.Mkdir(name); return nil }
func MkdirAll(name string, _ fs.FileMode) error  { rt.CurNode().FS.Mkdir(name); return nil }
func Chdir(string) error                         { return nil }
func Chmod(string, fs.FileMode) error            { return nil }
func Chtimes(string, time.Time, time.Time) error { return nil }
func Getwd() (string, error)                     { return "/", nil }
func Getenv(string) string                       { return "" }
func LookupEnv(string) (string, bool)            { return "", false }
func Setenv(k, v string) error                   { return nil }
func Unsetenv(string) error                      { return nil }
func Environ() []string                          { return nil }
func ExpandEnv(s string) string                  { return s }
func Hostname() (string, error)                  { return rt.CurNode().Name, nil }
func Getpid() int                                { return 100 + rt.CurNode().ID }
func Getppid() int                               { return 1 }
func Getuid() int                                { return 1000 }
func Executable() (string, error)                { return "/sim", nil }
func TempDir() string                            { return "/tmp" }
func UserHomeDir() (string, error)               { return "/home", nil }
func Readlink(string) (string, error)            { return "", syscall.EINVAL }
func SameFile(a, b fs.FileInfo) bool             { return a == b }
func Getpagesize() int                           { return 4096 }
func IsExist(err error) bool                     { return real.IsExist(err) }
func IsNotExist(err error) bool                  { return real.IsNotExist(err) }
func IsPermission(err error) bool                { return real.IsPermission(err) }
func IsTimeout(err error) bool                   { return real.IsTimeout(err) }
func IsPathSeparator(c uint8) bool               { return real.IsPathSeparator(c) }
func NewSyscallError(s string, err error) error  { return real.NewSyscallError(s, err) }
