// Conform compares simos with the real file system: the same random calls
// go to both, in a scratch directory, and the answers must be the same.
// Run it as an unprivileged user; it refuses to run as root.
package main

import (
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/Harvey-OS/ninep/sim/simfilepath"
	"github.com/Harvey-OS/ninep/sim/simos"
)

// coarse: several things may be wrong at once, and which one is reported does
// not matter.
var coarse bool

func eno(err error) string {
	if err == nil {
		return "ok"
	}
	if err == io.EOF {
		return "EOF"
	}
	// what a program can tell apart
	if coarse {
		return "error"
	}
	switch {
	case os.IsNotExist(err):
		return "not-exist"
	case os.IsPermission(err):
		return "permission"
	}
	return "error"
}

func fi(i os.FileInfo, err error) string {
	if err != nil {
		return eno(err)
	}
	st := i.Sys().(*syscall.Stat_t)
	sz := i.Size()
	if i.IsDir() {
		sz = 0
	}
	return fmt.Sprintf("%v %o %d %v", i.Mode(), st.Mode, sz, i.Name())
}

// file is what both kinds of open files do.
type file interface {
	io.ReadWriteSeeker
	io.ReaderAt
	io.WriterAt
	io.Closer
	Stat() (os.FileInfo, error)
	Truncate(int64) error
	Chmod(os.FileMode) error
	Sync() error
	Readdir(int) ([]os.FileInfo, error)
	ReadDir(int) ([]os.DirEntry, error)
	Readdirnames(int) ([]string, error)
}

// world is one of the two systems.
type world struct {
	open     func(string, int, os.FileMode) (file, error)
	stat     func(string) (os.FileInfo, error)
	lstat    func(string) (os.FileInfo, error)
	mkdir    func(string, os.FileMode) error
	mkdirall func(string, os.FileMode) error
	remove   func(string) error
	rename   func(a, b string) error
	chmod    func(string, os.FileMode) error
	chtimes  func(string, time.Time, time.Time) error
	truncate func(string, int64) error
	readlink func(string) (string, error)
	symlink  func(a, b string) error
	eval     func(string) (string, error)
	readdir  func(string) ([]os.DirEntry, error)
	h        []file
}

func real() *world {
	return &world{open: func(n string, fl int, p os.FileMode) (file, error) {
		f, err := os.OpenFile(n, fl, p)
		if err != nil {
			return nil, err
		}
		return f, nil
	}, stat: os.Stat, lstat: os.Lstat, mkdir: os.Mkdir, mkdirall: os.MkdirAll, remove: os.Remove, rename: os.Rename,
		chmod: os.Chmod, chtimes: os.Chtimes, truncate: os.Truncate, readlink: os.Readlink, symlink: os.Symlink,
		eval: filepath.EvalSymlinks, readdir: os.ReadDir}
}

func sim() *world {
	return &world{open: func(n string, fl int, p os.FileMode) (file, error) {
		f, err := simos.OpenFile(n, fl, p)
		if err != nil {
			return nil, err
		}
		return f, nil
	}, stat: simos.Stat, lstat: simos.Lstat, mkdir: simos.Mkdir, mkdirall: simos.MkdirAll, remove: simos.Remove, rename: simos.Rename,
		chmod: simos.Chmod, chtimes: simos.Chtimes, truncate: simos.Truncate, readlink: simos.Readlink, symlink: simos.Symlink,
		eval: simfilepath.EvalSymlinks, readdir: simos.ReadDir}
}

func names(fs []os.FileInfo) string {
	var out []string
	for _, f := range fs {
		out = append(out, fi(f, nil))
	}
	sort.Strings(out)
	return strings.Join(out, ",")
}

// step does one call, drawn from r, and says what came of it.
func (w *world) step(r *rand.Rand, dir string) (what, res string) {
	elem := []string{"a", "b", "c", "d", "e", "a/b", "b/a", "c/d/e", "nope/x", "l1", "l2", "l3", "l1/a", strings.Repeat("n", 256), strings.Repeat("n", 255)}
	pick := func() string {
		e := elem[r.Intn(len(elem))]
		if r.Intn(2) == 0 {
			e = elem[r.Intn(5)]
		}
		p := dir + "/" + e
		if c := filepath.Clean(p); c != dir && !strings.HasPrefix(c, dir+"/") {
			return dir
		}
		return p
	}
	perm := []os.FileMode{0644, 0600, 0755, 0777, 0444, 0222, 0, 0700, 0666 | os.ModeSetuid, 0750 | os.ModeSticky}[r.Intn(10)]
	if r.Intn(2) == 0 {
		perm = 0755
	}
	p, q := pick(), pick()
	var f file
	hi := 0
	if len(w.h) > 0 {
		hi = r.Intn(len(w.h))
		f = w.h[hi]
	}
	n, off := r.Intn(40), int64(r.Intn(60)-3)
	k, fl := r.Intn(30), []int{os.O_RDONLY, os.O_WRONLY, os.O_RDWR}[r.Intn(3)]
	fl |= []int{0, os.O_CREATE, os.O_TRUNC, os.O_CREATE | os.O_TRUNC, os.O_CREATE | os.O_EXCL, os.O_CREATE | os.O_APPEND}[r.Intn(6)]
	coarse = k < 14 || k == 19 || k == 20
	switch k {
	case 0, 1, 2, 3:
		what = fmt.Sprintf("open %s %#x %v", p, fl, perm)
		h, err := w.open(p, fl, perm)
		if err == nil {
			w.h = append(w.h, h)
		}
		return what, eno(err)
	case 4:
		return "mkdir " + p + " " + perm.String(), eno(w.mkdir(p, perm&^(os.ModeSetuid|os.ModeSetgid)))
	case 5:
		return "mkdir " + p, eno(w.mkdir(p, 0755))
	case 6:
		return "remove " + p, eno(w.remove(p))
	case 7, 8:
		return "rename " + p + " " + q, eno(w.rename(p, q))
	case 9:
		return "chmod " + p + " " + perm.String(), eno(w.chmod(p, perm))
	case 10:
		t := time.Unix(int64(1e9+r.Intn(1e6)), 0)
		var z time.Time
		at, mt := t, t.Add(time.Hour)
		switch r.Intn(3) {
		case 0:
			at = z
		case 1:
			mt = z
		}
		err := w.chtimes(p, at, mt)
		res = eno(err)
		if err == nil {
			i, err := w.stat(p)
			if err == nil && !mt.IsZero() {
				res += " " + i.ModTime().UTC().String()
			}
		}
		return fmt.Sprintf("chtimes %s %v %v", p, at.Unix(), mt.Unix()), res
	case 11:
		return fmt.Sprintf("truncate %s %d", p, off), eno(w.truncate(p, off))
	case 12:
		s, err := w.readlink(p)
		return "readlink " + p, s + eno(err)
	case 13:
		t := []string{"a", "./a", "b/a", "nope", "l2", "l3", "c/../b", ".", dir + "/a"}[r.Intn(9)]
		l := dir + "/" + []string{"l1", "l2", "l3"}[r.Intn(3)]
		return "symlink " + t + " " + l, eno(w.symlink(t, l))
	case 14:
		s, err := w.eval(p)
		return "eval " + p, s + " " + eno(err)
	case 15, 16:
		return "stat " + p, fi(w.stat(p))
	case 17, 18:
		return "lstat " + p, fi(w.lstat(p))
	case 19:
		es, err := w.readdir(p)
		s := ""
		for _, e := range es {
			s += e.Name() + e.Type().String() + ","
		}
		return "readdir " + p, s + eno(err)
	case 20:
		return "mkdirall " + p, eno(w.mkdirall(p, 0755))
	}
	if f == nil {
		return "", ""
	}
	b := make([]byte, n)
	switch k {
	case 21:
		m, err := f.ReadAt(b, off)
		return fmt.Sprintf("#%d readat %d %d", hi, n, off), fmt.Sprintf("%q %s", b[:m], eno(err))
	case 22:
		m, err := f.Read(b)
		return fmt.Sprintf("#%d read %d", hi, n), fmt.Sprintf("%q %s", b[:m], eno(err))
	case 23:
		for i := range b {
			b[i] = byte('a' + r.Intn(26))
		}
		m, err := f.WriteAt(b, off)
		return fmt.Sprintf("#%d writeat %d %d", hi, n, off), fmt.Sprint(m, eno(err))
	case 24:
		for i := range b {
			b[i] = byte('A' + r.Intn(26))
		}
		m, err := f.Write(b)
		return fmt.Sprintf("#%d write %d", hi, n), fmt.Sprint(m, eno(err))
	case 25:
		wh := r.Intn(3)
		if i, err := f.Stat(); err == nil && i.IsDir() {
			// positions in a directory are the file system's own
			off, wh = 0, 0
		}
		m, err := f.Seek(off, wh)
		return fmt.Sprintf("#%d seek %d %d", hi, off, wh), fmt.Sprint(m, eno(err))
	case 26:
		switch r.Intn(4) {
		case 0:
			return fmt.Sprintf("#%d truncate %d", hi, off), eno(f.Truncate(off))
		case 1:
			return fmt.Sprintf("#%d chmod %v", hi, perm), eno(f.Chmod(perm))
		case 2:
			return fmt.Sprintf("#%d sync", hi), eno(f.Sync())
		}
		return fmt.Sprintf("#%d stat", hi), fi(f.Stat())
	case 27:
		_, serr := f.Seek(0, 0)
		fs, err := f.Readdir(-1)
		return fmt.Sprintf("#%d readdir -1", hi), eno(serr) + " " + names(fs) + eno(err)
	case 28:
		// one at a time, to the end
		f.Seek(0, 0)
		var all []os.FileInfo
		for i := 0; i < 400; i++ {
			fs, err := f.Readdir(1)
			all = append(all, fs...)
			if err != nil {
				return fmt.Sprintf("#%d readdir 1..", hi), names(all) + eno(err)
			}
		}
		return fmt.Sprintf("#%d readdir 1..", hi), "no end"
	}
	if r.Intn(3) == 0 {
		return fmt.Sprintf("#%d close twice", hi), eno(f.Close()) + eno(f.Close())
	}
	w.h = append(w.h[:hi:hi], w.h[hi+1:]...)
	return fmt.Sprintf("#%d close", hi), eno(f.Close())
}

// tree describes everything below a directory.
func (w *world) tree(dir string) string {
	var out []string
	var walk func(p string)
	walk = func(p string) {
		es, err := w.readdir(p)
		if err != nil {
			out = append(out, p+" "+eno(err))
			return
		}
		for _, e := range es {
			q := p + "/" + e.Name()
			i, err := w.lstat(q)
			s := q + " " + fi(i, err)
			if err == nil && i.Mode().IsRegular() {
				if f, err := w.open(q, os.O_RDONLY, 0); err == nil {
					b, _ := io.ReadAll(f)
					s += fmt.Sprintf(" %q", b)
					f.Close()
				}
			}
			if t, err := w.readlink(q); err == nil {
				s += " -> " + t
			}
			out = append(out, s)
			if err == nil && i.IsDir() {
				walk(q)
			}
		}
	}
	walk(dir)
	return strings.Join(out, "\n")
}

func main() {
	if os.Getuid() == 0 {
		fmt.Println("conform: not as root")
		os.Exit(2)
	}
	scratch := os.Args[1]
	runs, _ := strconv.Atoi(os.Args[2])
	syscall.Umask(0)
	calls, bad := 0, 0
	for run := 0; run < runs && bad < 10; run++ {
		dir := fmt.Sprintf("%s/r%d", scratch, run)
		if err := os.Mkdir(dir, 0755); err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		fs := simos.NewFS(uint64(run % 3))
		if run%2 == 1 {
			fs.DirBuf = 1 + run%5
		}
		simos.Use(fs)
		fs.Put(dir, os.ModeDir|0755, nil)
		a, b := real(), sim()
		ra, rb := rand.New(rand.NewSource(int64(run))), rand.New(rand.NewSource(int64(run)))
		var hist []string
		for i := 0; i < 120; i++ {
			wa, sa := a.step(ra, dir)
			wb, sb := b.step(rb, dir)
			if wa == "" {
				continue
			}
			calls++
			hist = append(hist, wa+" = "+sa)
			if wa != wb || sa != sb {
				fmt.Printf("run %d: %s\n  real %s\n  sim  %s\n", run, wa, sa, sb)
				if len(hist) > 14 {
					hist = hist[len(hist)-14:]
				}
				fmt.Println("   ", strings.Join(hist, "\n    "))
				bad++
				break
			}
			if ta, tb := a.tree(dir), b.tree(dir); i%10 == 9 && ta != tb {
				fmt.Printf("run %d: trees differ after %s\n--- real\n%s\n--- sim\n%s\n", run, wa, ta, tb)
				bad++
				break
			}
		}
		for _, f := range a.h {
			f.Close()
		}
		clean(dir)
	}
	fmt.Printf("conform: %d runs, %d calls, %d differences\n", runs, calls, bad)
	if bad > 0 {
		os.Exit(1)
	}
}

// clean removes a run's directory, which is below the scratch directory.
func clean(dir string) {
	filepath.WalkDir(dir, func(p string, d os.DirEntry, err error) error {
		if d != nil && d.IsDir() {
			os.Chmod(p, 0755)
		}
		return nil
	})
	os.RemoveAll(dir)
}
