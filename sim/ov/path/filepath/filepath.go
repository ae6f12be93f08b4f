//go:build go1.21

package filepath

import (
	"io/fs"
	simos "msim/ov/os"
	"msim/rt"
	real "path/filepath"
	"sort"
	"strings"
)

func Walk(root string, fn real.WalkFunc) error {
	info, err := simos.Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walk(root, info, fn)
	}
	if err == real.SkipDir || err == fs.SkipAll {
		return nil
	}
	return err
}

func walk(path string, info fs.FileInfo, walkFn real.WalkFunc) error {
	rt.Y()
	if !info.IsDir() {
		return walkFn(path, info, nil)
	}
	names, err := rt.ReadDirNames(path)
	err1 := walkFn(path, info, err)
	if err != nil || err1 != nil {
		return err1
	}
	for _, name := range names {
		filename := real.Join(path, name)
		fileInfo, err := simos.Lstat(filename)
		if err != nil {
			if err := walkFn(filename, fileInfo, err); err != nil && err != real.SkipDir {
				return err
			}
		} else {
			err = walk(filename, fileInfo, walkFn)
			if err != nil {
				if !fileInfo.IsDir() || err != real.SkipDir {
					return err
				}
			}
		}
	}
	return nil
}

func WalkDir(root string, fn fs.WalkDirFunc) error {
	return Walk(root, func(p string, i fs.FileInfo, err error) error {
		if i == nil {
			return fn(p, nil, err)
		}
		return fn(p, fs.FileInfoToDirEntry(i), err)
	})
}

func hasMeta(path string) bool { return strings.ContainsAny(path, `*?[\`) }

func Glob(pattern string) (matches []string, err error) { return globWithLimit(pattern, 0) }

func globWithLimit(pattern string, depth int) (matches []string, err error) {
	if depth == 10000 {
		return nil, real.ErrBadPattern
	}
	if _, err := real.Match(pattern, ""); err != nil {
		return nil, err
	}
	if !hasMeta(pattern) {
		if _, err = simos.Lstat(pattern); err != nil {
			return nil, nil
		}
		return []string{pattern}, nil
	}
	dir, file := real.Split(pattern)
	dir = cleanGlobPath(dir)
	if !hasMeta(dir) {
		return glob(dir, file, nil)
	}
	if dir == pattern {
		return nil, real.ErrBadPattern
	}
	var m []string
	m, err = globWithLimit(dir, depth+1)
	if err != nil {
		return
	}
	for _, d := range m {
		matches, err = glob(d, file, matches)
		if err != nil {
			return
		}
	}
	return
}

func cleanGlobPath(path string) string {
	switch path {
	case "":
		return "."
	case "/":
		return path
	default:
		return path[0 : len(path)-1]
	}
}

func glob(dir, pattern string, matches []string) (m []string, e error) {
	m = matches
	fi, err := simos.Stat(dir)
	if err != nil || !fi.IsDir() {
		return
	}
	names, err := rt.ReadDirNames(dir)
	if err != nil {
		return
	}
	sort.Strings(names)
	for _, n := range names {
		matched, err := real.Match(pattern, n)
		if err != nil {
			return m, err
		}
		if matched {
			m = append(m, real.Join(dir, n))
		}
	}
	return
}

func Abs(p string) (string, error) {
	if real.IsAbs(p) {
		return real.Clean(p), nil
	}
	return real.Join("/", p), nil
}
func EvalSymlinks(p string) (string, error) { return real.Clean(p), nil }
