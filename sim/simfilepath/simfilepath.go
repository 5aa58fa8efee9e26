// Package simfilepath replaces path/filepath; what touches files goes to simos.
package simfilepath

import (
	"errors"
	"io/fs"
	"sort"
	"syscall"

	"github.com/Harvey-OS/ninep/sim/simos"
)

func Abs(p string) (string, error) {
	if IsAbs(p) {
		return Clean(p), nil
	}
	return Join("/", p), nil
}

func EvalSymlinks(p string) (string, error) {
	out := ""
	if IsAbs(p) {
		out = "/"
	}
	rest := splitSlash(p)
	for links := 0; len(rest) > 0; {
		x := rest[0]
		rest = rest[1:]
		if x == "." {
			continue
		}
		if x == ".." {
			out = Join(out, "..")
			continue
		}
		q := Join(out, x)
		fi, err := simos.Lstat(q)
		if err != nil {
			return "", err
		}
		if fi.Mode()&simos.ModeSymlink == 0 {
			if !fi.IsDir() && len(rest) > 0 {
				return "", syscall.ENOTDIR
			}
			out = q
			continue
		}
		if links++; links > 255 {
			return "", errors.New("EvalSymlinks: too many links")
		}
		t, err := simos.Readlink(q)
		if err != nil {
			return "", err
		}
		if IsAbs(t) {
			out = "/"
		}
		rest = append(splitSlash(t), rest...)
	}
	return Clean(out), nil
}

func splitSlash(p string) (out []string) {
	cur := ""
	for i := 0; i < len(p); i++ {
		if p[i] == '/' {
			if cur != "" {
				out = append(out, cur)
			}
			cur = ""
			continue
		}
		cur += string(p[i])
	}
	if cur != "" {
		out = append(out, cur)
	}
	return
}

func Walk(root string, fn WalkFunc) error {
	fi, err := simos.Lstat(root)
	if err != nil {
		return fn(root, nil, err)
	}
	return walk(root, fi, fn)
}

func walk(p string, fi fs.FileInfo, fn WalkFunc) error {
	if err := fn(p, fi, nil); err != nil {
		return err
	}
	if !fi.IsDir() {
		return nil
	}
	es, err := simos.ReadDir(p)
	if err != nil {
		return fn(p, fi, err)
	}
	sort.Slice(es, func(i, j int) bool { return es[i].Name() < es[j].Name() })
	for _, e := range es {
		i, _ := e.Info()
		if err := walk(Join(p, e.Name()), i, fn); err != nil && err != SkipDir {
			return err
		}
	}
	return nil
}

func WalkDir(root string, fn fs.WalkDirFunc) error {
	fi, err := simos.Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walkDir(root, fs.FileInfoToDirEntry(fi), fn)
	}
	if err == SkipDir || err == SkipAll {
		return nil
	}
	return err
}

func walkDir(p string, d fs.DirEntry, fn fs.WalkDirFunc) error {
	if err := fn(p, d, nil); err != nil || !d.IsDir() {
		if err == SkipDir && d.IsDir() {
			err = nil
		}
		return err
	}
	es, err := simos.ReadDir(p)
	if err != nil {
		if err = fn(p, d, err); err != nil {
			if err == SkipDir && d.IsDir() {
				err = nil
			}
			return err
		}
	}
	for _, e := range es {
		if err := walkDir(Join(p, e.Name()), e, fn); err != nil {
			if err == SkipDir {
				break
			}
			return err
		}
	}
	return nil
}

func Glob(pattern string) ([]string, error) {
	if _, err := Match(pattern, ""); err != nil {
		return nil, err
	}
	dir, file := Split(pattern)
	d := Clean(dir)
	dirs := []string{d}
	if dir != "" && d != "/" && d != "." {
		var err error
		if dirs, err = Glob(d); err != nil {
			return nil, err
		}
	}
	var out []string
	for _, d := range dirs {
		es, _ := simos.ReadDir(d)
		for _, e := range es {
			if ok, _ := Match(file, e.Name()); ok {
				if dir == "" {
					out = append(out, e.Name())
				} else {
					out = append(out, Join(d, e.Name()))
				}
			}
		}
	}
	return out, nil
}
