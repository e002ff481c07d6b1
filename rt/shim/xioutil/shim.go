// Package xioutil replaces io/ioutil.
package xioutil

import (
	"io"
	"io/fs"

	xos "github.com/aceld/zinx/zzmc/xos"
)

var Discard = io.Discard

func ReadAll(r io.Reader) ([]byte, error)  { return io.ReadAll(r) }
func NopCloser(r io.Reader) io.ReadCloser  { return io.NopCloser(r) }
func ReadFile(name string) ([]byte, error) { return xos.ReadFile(name) }
func WriteFile(n string, d []byte, m fs.FileMode) error {
	return xos.WriteFile(n, d, m)
}
func ReadDir(name string) ([]fs.FileInfo, error) {
	es, err := xos.ReadDir(name)
	if err != nil {
		return nil, err
	}
	var o []fs.FileInfo
	for _, e := range es {
		i, err := e.Info()
		if err != nil {
			return nil, err
		}
		o = append(o, i)
	}
	return o, nil
}
