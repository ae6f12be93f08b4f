//go:build go1.21

package ioutil

import (
	"io/fs"
	simos "msim/ov/os"
	"msim/rt"
	"path"
)

func ReadFile(name string) ([]byte, error) { return simos.ReadFile(name) }
func WriteFile(name string, data []byte, perm fs.FileMode) error {
	return simos.WriteFile(name, data, perm)
}
func ReadDir(name string) ([]fs.FileInfo, error) {
	names, err := rt.ReadDirNames(name)
	if err != nil {
		return nil, err
	}
	var out []fs.FileInfo
	for _, k := range names {
		if fi, err := rt.Stat(path.Join(name, k)); err == nil {
			out = append(out, fi)
		}
	}
	return out, nil
}
