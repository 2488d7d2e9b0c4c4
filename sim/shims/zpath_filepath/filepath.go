package filepath

import (
	"errors"
	"io/fs"
	realos "os"
	real "path/filepath"
	"sort"
	"strings"

	"github.com/vivint/rothko/internal/zsim/zos"
)

func Abs(path string) (string, error) {
	if real.IsAbs(path) {
		return real.Clean(path), nil
	}
	return real.Join("/", path), nil
}

func EvalSymlinks(path string) (string, error) {
	_, err := os.Stat(path)
	return real.Clean(path), err
}

func Walk(root string, fn real.WalkFunc) error {
	info, err := os.Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walk(root, info, fn)
	}
	if err == fs.SkipDir || err == fs.SkipAll {
		return nil
	}
	return err
}

func names(dir string) ([]string, error) {
	f, err := os.Open(dir)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	l, err := f.Readdirnames(-1)
	sort.Strings(l)
	return l, err
}

func walk(path string, info realos.FileInfo, fn real.WalkFunc) error {
	if !info.IsDir() {
		return fn(path, info, nil)
	}
	l, err := names(path)
	err1 := fn(path, info, err)
	if err != nil || err1 != nil {
		return err1
	}
	for _, name := range l {
		p := real.Join(path, name)
		fi, err := os.Lstat(p)
		if err != nil {
			if err := fn(p, fi, err); err != nil && err != fs.SkipDir {
				return err
			}
			continue
		}
		if err := walk(p, fi, fn); err != nil {
			if !fi.IsDir() || err != fs.SkipDir {
				return err
			}
		}
	}
	return nil
}

func WalkDir(root string, fn fs.WalkDirFunc) error {
	return Walk(root, func(p string, info realos.FileInfo, err error) error {
		if info == nil {
			return fn(p, nil, err)
		}
		return fn(p, fs.FileInfoToDirEntry(info), err)
	})
}

func Glob(pattern string) ([]string, error) {
	if !strings.ContainsAny(pattern, "*?[\\") {
		if _, err := os.Lstat(pattern); err != nil {
			return nil, nil
		}
		return []string{pattern}, nil
	}
	dir, file := real.Split(pattern)
	dir = strings.TrimRight(dir, "/")
	if dir == "" {
		dir = "/"
	}
	if strings.ContainsAny(dir, "*?[\\") {
		return nil, errors.New("zsim: glob in directory part")
	}
	l, err := names(dir)
	if err != nil {
		return nil, nil
	}
	var out []string
	for _, n := range l {
		ok, err := real.Match(file, n)
		if err != nil {
			return nil, err
		}
		if ok {
			out = append(out, real.Join(dir, n))
		}
	}
	return out, nil
}
