package xfilepath

import (
	"io/fs"
	"path/filepath"

	xos "github.com/aceld/zinx/zzmc/xos"
)

func Abs(p string) (string, error) {
	if filepath.IsAbs(p) {
		return filepath.Clean(p), nil
	}
	wd, _ := xos.Getwd()
	return filepath.Join(wd, p), nil
}

func Walk(root string, fn filepath.WalkFunc) error {
	info, err := xos.Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walk(root, info, fn)
	}
	if err == filepath.SkipDir || err == filepath.SkipAll {
		return nil
	}
	return err
}

func walk(path string, info fs.FileInfo, fn filepath.WalkFunc) error {
	if !info.IsDir() {
		return fn(path, info, nil)
	}
	es, err := xos.ReadDir(path)
	e1 := fn(path, info, err)
	if err != nil || e1 != nil {
		return e1
	}
	for _, e := range es {
		p := filepath.Join(path, e.Name())
		fi, err := xos.Lstat(p)
		if err != nil {
			if err := fn(p, fi, err); err != nil && err != filepath.SkipDir {
				return err
			}
			continue
		}
		if err := walk(p, fi, fn); err != nil {
			if !fi.IsDir() || err != filepath.SkipDir {
				return err
			}
		}
	}
	return nil
}

func WalkDir(root string, fn fs.WalkDirFunc) error {
	return Walk(root, func(p string, i fs.FileInfo, err error) error {
		if i == nil {
			return fn(p, nil, err)
		}
		return fn(p, fs.FileInfoToDirEntry(i), err)
	})
}

func Glob(pattern string) ([]string, error) {
	var out []string
	d := filepath.Dir(pattern)
	es, err := xos.ReadDir(d)
	if err != nil {
		return nil, nil
	}
	for _, e := range es {
		p := filepath.Join(d, e.Name())
		if ok, err := filepath.Match(pattern, p); err != nil {
			return nil, err
		} else if ok {
			out = append(out, p)
		}
	}
	return out, nil
}
