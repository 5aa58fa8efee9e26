package simos

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"path"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// The rest of os, so that any program using it builds. What touches files
// goes to the simulated file system; processes and pipes are not there.

var ErrNoHandle = os.ErrNoHandle

type (
	ProcAttr     = os.ProcAttr
	Process      = os.Process
	ProcessState = os.ProcessState
)

func FindProcess(pid int) (*Process, error) { return nil, syscall.ESRCH }
func StartProcess(name string, argv []string, attr *ProcAttr) (*Process, error) {
	return nil, perr("fork/exec", name, syscall.EPERM)
}

func Setenv(k, v string) error       { return nil }
func Unsetenv(k string) error        { return nil }
func Clearenv()                      {}
func ExpandEnv(s string) string      { return Expand(s, Getenv) }
func Executable() (string, error)    { return "/sim", nil }
func Getgroups() ([]int, error)      { return []int{1000}, nil }
func UserHomeDir() (string, error)   { return "", errors.New("$HOME is not defined") }
func UserCacheDir() (string, error)  { return UserHomeDir() }
func UserConfigDir() (string, error) { return UserHomeDir() }
func Pipe() (r, w *File, err error)  { return nil, nil, NewSyscallError("pipe2", syscall.EMFILE) }
func NewFile(fd uintptr, name string) *File {
	return &File{name: name, closed: true}
}

func (h *File) Chdir() error { return syscall.EPERM }
func (h *File) SyscallConn() (syscall.RawConn, error) {
	return nil, perr("syscallconn", h.name, syscall.EINVAL)
}

func tempName(dir, pattern string, try int) string {
	if dir == "" {
		dir = TempDir()
	}
	n := strconv.Itoa(100000 + try)
	if cur != nil {
		n = strconv.Itoa(100000 + cur.Ops + try)
	}
	if i := strings.LastIndexByte(pattern, '*'); i >= 0 {
		return path.Join(dir, pattern[:i]+n+pattern[i+1:])
	}
	return path.Join(dir, pattern+n)
}

func CreateTemp(dir, pattern string) (*File, error) {
	for i := 0; ; i++ {
		f, err := OpenFile(tempName(dir, pattern, i), O_RDWR|O_CREATE|O_EXCL, 0600)
		if IsExist(err) && i < 100 {
			continue
		}
		return f, err
	}
}

func MkdirTemp(dir, pattern string) (string, error) {
	for i := 0; ; i++ {
		n := tempName(dir, pattern, i)
		err := Mkdir(n, 0700)
		if IsExist(err) && i < 100 {
			continue
		}
		if err != nil {
			return "", err
		}
		return n, nil
	}
}

type dirFS string

func (d dirFS) join(op, name string) (string, error) {
	if !fs.ValidPath(name) {
		return "", perr(op, name, fs.ErrInvalid)
	}
	return path.Join(string(d), name), nil
}

func (d dirFS) Open(name string) (fs.File, error) {
	p, err := d.join("open", name)
	if err != nil {
		return nil, err
	}
	f, err := Open(p)
	if err != nil {
		return nil, err
	}
	return f, nil
}
func (d dirFS) ReadFile(name string) ([]byte, error) {
	p, err := d.join("readfile", name)
	if err != nil {
		return nil, err
	}
	return ReadFile(p)
}
func (d dirFS) ReadDir(name string) ([]fs.DirEntry, error) {
	p, err := d.join("readdir", name)
	if err != nil {
		return nil, err
	}
	return ReadDir(p)
}
func (d dirFS) Stat(name string) (fs.FileInfo, error) {
	p, err := d.join("stat", name)
	if err != nil {
		return nil, err
	}
	return Stat(p)
}
func (d dirFS) Lstat(name string) (fs.FileInfo, error) {
	p, err := d.join("lstat", name)
	if err != nil {
		return nil, err
	}
	return Lstat(p)
}
func (d dirFS) ReadLink(name string) (string, error) {
	p, err := d.join("readlink", name)
	if err != nil {
		return "", err
	}
	return Readlink(p)
}

func DirFS(dir string) fs.FS { return dirFS(dir) }

func CopyFS(dir string, fsys fs.FS) error {
	return fs.WalkDir(fsys, ".", func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		to := path.Join(dir, p)
		if d.IsDir() {
			return MkdirAll(to, 0777)
		}
		b, err := fs.ReadFile(fsys, p)
		if err != nil {
			return err
		}
		return WriteFile(to, b, 0666)
	})
}

// Root confines operations to a directory.
type Root struct {
	dir    string
	closed bool
}

func OpenRoot(name string) (*Root, error) {
	fi, err := Stat(name)
	if err != nil {
		return nil, err
	}
	if !fi.IsDir() {
		return nil, perr("open", name, syscall.ENOTDIR)
	}
	return &Root{dir: path.Clean(name)}, nil
}

func OpenInRoot(dir, name string) (*File, error) {
	r, err := OpenRoot(dir)
	if err != nil {
		return nil, err
	}
	return r.Open(name)
}

var errEscapes = errors.New("path escapes from parent")

// in gives the path a name stands for, with every link resolved and none
// leading out; the last element is kept as it is unless follow is set.
func (r *Root) in(op, name string, follow bool) (string, error) {
	if r.closed {
		return "", perr(op, name, ErrClosed)
	}
	if name == "" || strings.HasPrefix(name, "/") {
		return "", perr(op, name, errEscapes)
	}
	var have []string
	rest := strings.Split(name, "/")
	for links := 0; len(rest) > 0; {
		e := rest[0]
		rest = rest[1:]
		switch e {
		case "", ".":
			continue
		case "..":
			if len(have) == 0 {
				return "", perr(op, name, errEscapes)
			}
			have = have[:len(have)-1]
			continue
		}
		p := path.Join(r.dir, path.Join(have...), e)
		if len(rest) > 0 || follow {
			if fi, err := Lstat(p); err == nil && fi.Mode()&ModeSymlink != 0 {
				t, err := Readlink(p)
				if err != nil {
					return "", err
				}
				if links++; links > 40 {
					return "", perr(op, name, syscall.ELOOP)
				}
				if strings.HasPrefix(t, "/") {
					return "", perr(op, name, errEscapes)
				}
				rest = append(strings.Split(t, "/"), rest...)
				continue
			}
		}
		have = append(have, e)
	}
	return path.Join(r.dir, path.Join(have...)), nil
}

func (r *Root) Name() string { return r.dir }
func (r *Root) Close() error { r.closed = true; return nil }
func (r *Root) FS() fs.FS    { return dirFS(r.dir) }
func (r *Root) Open(name string) (*File, error) {
	return r.OpenFile(name, O_RDONLY, 0)
}
func (r *Root) Create(name string) (*File, error) {
	return r.OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0666)
}
func (r *Root) OpenFile(name string, flag int, perm FileMode) (*File, error) {
	p, err := r.in("openat", name, true)
	if err != nil {
		return nil, err
	}
	return OpenFile(p, flag, perm)
}
func (r *Root) OpenRoot(name string) (*Root, error) {
	p, err := r.in("openat", name, true)
	if err != nil {
		return nil, err
	}
	return OpenRoot(p)
}
func (r *Root) Stat(name string) (FileInfo, error) {
	p, err := r.in("statat", name, true)
	if err != nil {
		return nil, err
	}
	return Stat(p)
}
func (r *Root) Lstat(name string) (FileInfo, error) {
	p, err := r.in("lstatat", name, false)
	if err != nil {
		return nil, err
	}
	return Lstat(p)
}
func (r *Root) Readlink(name string) (string, error) {
	p, err := r.in("readlinkat", name, false)
	if err != nil {
		return "", err
	}
	return Readlink(p)
}
func (r *Root) Mkdir(name string, perm FileMode) error {
	p, err := r.in("mkdirat", name, false)
	if err != nil {
		return err
	}
	return Mkdir(p, perm)
}
func (r *Root) MkdirAll(name string, perm FileMode) error {
	p, err := r.in("mkdirat", name, true)
	if err != nil {
		return err
	}
	return MkdirAll(p, perm)
}
func (r *Root) Remove(name string) error {
	p, err := r.in("unlinkat", name, false)
	if err != nil {
		return err
	}
	return Remove(p)
}
func (r *Root) RemoveAll(name string) error {
	p, err := r.in("unlinkat", name, false)
	if err != nil {
		return err
	}
	return RemoveAll(p)
}
func (r *Root) Rename(o, n string) error {
	p, err := r.in("renameat", o, false)
	if err != nil {
		return err
	}
	q, err := r.in("renameat", n, false)
	if err != nil {
		return err
	}
	return Rename(p, q)
}
func (r *Root) Link(o, n string) error {
	p, err := r.in("linkat", o, false)
	if err != nil {
		return err
	}
	q, err := r.in("linkat", n, false)
	if err != nil {
		return err
	}
	return Link(p, q)
}
func (r *Root) Symlink(o, n string) error {
	q, err := r.in("symlinkat", n, false)
	if err != nil {
		return err
	}
	return Symlink(o, q)
}
func (r *Root) Chmod(name string, m FileMode) error {
	p, err := r.in("chmodat", name, true)
	if err != nil {
		return err
	}
	return Chmod(p, m)
}
func (r *Root) Chown(name string, u, g int) error {
	p, err := r.in("chownat", name, true)
	if err != nil {
		return err
	}
	return Chown(p, u, g)
}
func (r *Root) Lchown(name string, u, g int) error {
	p, err := r.in("lchownat", name, false)
	if err != nil {
		return err
	}
	return Lchown(p, u, g)
}
func (r *Root) Chtimes(name string, at, mt time.Time) error {
	p, err := r.in("chtimesat", name, true)
	if err != nil {
		return err
	}
	return Chtimes(p, at, mt)
}
func (r *Root) ReadFile(name string) ([]byte, error) {
	f, err := r.Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}
func (r *Root) WriteFile(name string, data []byte, perm FileMode) error {
	f, err := r.OpenFile(name, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if e := f.Close(); err == nil {
		err = e
	}
	return err
}
