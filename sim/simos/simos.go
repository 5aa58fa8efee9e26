// Package simos replaces os in the instrumented code: an in-memory file
// system with Linux semantics as seen by an unprivileged owner, a volatile
// page cache, fault injection and a record of every path named. Nothing here
// reaches the real file system.
package simos

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/Harvey-OS/ninep/sim/simrt"
	"github.com/Harvey-OS/ninep/sim/simtime"
)

// Node is a file, directory or symbolic link.
type Node struct {
	Ino    uint64
	Dev    uint64
	Mount  bool        // another file system is mounted here: this is its root
	Mode   os.FileMode // type bits and permissions
	Data   []byte
	Hole   int64 // zeroes after Data that are not kept
	Target string
	Mtime  time.Time
	Atime  time.Time
	Kids   map[string]*Dent
	Gone   bool // unlinked
	fresh  bool // in no directory yet
	lost   int  // syncs that failed and lost the pending changes

	durable []byte // contents on stable storage
	pending []wop  // changes not yet durable, in order
}

type Dent struct {
	N      *Node
	cookie uint64
}

type wop struct {
	trunc bool
	off   int64
	data  []byte
}

// Size is the length of a file.
func (n *Node) Size() int64 { return int64(len(n.Data)) + n.Hole }

func (n *Node) IsDir() bool  { return n.Mode&os.ModeDir != 0 }
func (n *Node) IsLink() bool { return n.Mode&os.ModeSymlink != 0 }

// Names lists the children in order.
func (n *Node) Names() []string {
	var ks []string
	for k := range n.Kids {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// FS is the simulated machine's file system.
type FS struct {
	Root    *Node
	nextIno uint64
	seq     uint64
	salt    uint64
	tick    time.Duration

	SyncLoses bool // a sync that fails loses what it was to save, as disks do

	DirBuf int           // names fetched by one getdents
	Step   time.Duration // between two changes, on the clock of the files

	InoKind int  // how inode numbers are given out
	Big     bool // files may be made longer than what is kept of them

	Export  string   // exported tree; paths outside are recorded
	Outside []string // operations naming paths outside the exported tree

	Yield bool   // yield before each system call
	Nap   func() // called before each system call

	Faults   bool                                 // injection armed
	FaultFor func(op, path string) (string, bool) // decides a fault for a call
	Faulted  int                                  // faults injected so far
	FaultLog []string

	// OnDir hears of every name that comes and goes in a directory.
	OnDir func(dir *Node, name string, n *Node, present bool)
	// OnHeard hears of a sync that reports what an earlier one has lost.
	OnHeard func(path string)
	// StallFor may give a condition a call has to wait for.
	StallFor func(op, path string) func() bool

	Ops     int
	handles map[*File]bool
	Opened  int
	devs    []uint64 // the next inode number of each file system mounted
}

// The device number of the file system that is not mounted in another one, and
// those of the others.
const dev0 = 0x801

var devs = []uint64{0x802, 0x15, 0x10301, 0x2d, 0x803}

// Mount mounts an empty file system on a directory. It has inode numbers of
// its own, so they are those of files in the others.
func (f *FS) Mount(n *Node) bool {
	if len(f.devs) == len(devs) || !n.IsDir() || n.Mount || n.Gone || len(n.Kids) > 0 {
		return false
	}
	n.Dev, n.Ino, n.Mount = devs[len(f.devs)], 2, true
	f.devs = append(f.devs, 3)
	return true
}

// Mounts is the number of file systems mounted.
func (f *FS) Mounts() int { return len(f.devs) }

var cur *FS

// Use makes fs the machine's file system.
func Use(f *FS) { cur = f }

// NewFS returns an empty file system.
func NewFS(salt uint64) *FS {
	f := &FS{salt: salt, nextIno: 2, DirBuf: 1 << 30, Step: 3 * time.Millisecond, handles: map[*File]bool{}}
	f.Root = f.newNode(os.ModeDir | 0755)
	return f
}

func (f *FS) now() time.Time {
	f.tick += f.Step
	t := simtime.Epoch
	if s := simrt.Cur(); s != nil {
		t = t.Add(s.Now)
	}
	return t.Add(f.tick)
}

// Clock is the time on the clock of the files.
func (f *FS) Clock() time.Time {
	t := simtime.Epoch
	if s := simrt.Cur(); s != nil {
		t = t.Add(s.Now)
	}
	return t.Add(f.tick)
}

// SetClock moves the file system's clock ahead of the simulated time.
func (f *FS) SetClock(d time.Duration) { f.tick = d }

func (f *FS) newNode(mode os.FileMode) *Node {
	n := &Node{Ino: f.nextIno, Dev: dev0, Mode: mode, fresh: true}
	switch f.InoKind {
	case 1: // the same in the low half
		n.Ino = f.nextIno<<32 | 2
	case 2: // the same in the high half
		n.Ino = 1<<63 | f.nextIno
	case 3:
		n.Ino = f.nextIno * 0x9e3779b97f4a7c15
	case 4:
		n.Ino = f.nextIno<<48 | f.nextIno
	}
	f.nextIno++
	n.Mtime = f.now()
	n.Atime = n.Mtime
	if mode.IsDir() {
		n.Kids = map[string]*Dent{}
	}
	return n
}

func (f *FS) link(dir *Node, name string, n *Node) {
	if n.fresh && dir.Dev != dev0 {
		for i := range devs {
			if devs[i] == dir.Dev {
				n.Dev, n.Ino = dir.Dev, f.devs[i]
				f.devs[i]++
			}
		}
	}
	n.fresh = false
	f.seq++
	c := f.seq
	if f.salt != 0 {
		h := f.salt
		for i := 0; i < len(name); i++ {
			h = (h ^ uint64(name[i])) * 1099511628211
		}
		c = h<<16 | f.seq&0xffff
	}
	dir.Kids[name] = &Dent{n, c}
	if f.OnDir != nil {
		f.OnDir(dir, name, n, true)
	}
	dir.Mtime = f.now()
}

func (f *FS) unlink(dir *Node, name string) {
	n := dir.Kids[name].N
	delete(dir.Kids, name)
	if f.OnDir != nil {
		f.OnDir(dir, name, n, false)
	}
}

// OpenHandles is the number of files the program holds open.
func (f *FS) OpenHandles() int { return len(f.handles) }

// HandleNames lists them.
func (f *FS) HandleNames() []string {
	var out []string
	for h := range f.handles {
		out = append(out, h.name)
	}
	sort.Strings(out)
	return out
}

// ---- direct access for the harness (no faults, no records)

// Put makes a file or directory, with parents.
func (f *FS) Put(name string, mode os.FileMode, data []byte) *Node {
	dir := f.Root
	parts := strings.Split(strings.Trim(name, "/"), "/")
	for _, p := range parts[:len(parts)-1] {
		d, ok := dir.Kids[p]
		if !ok {
			n := f.newNode(os.ModeDir | 0755)
			f.link(dir, p, n)
			d = dir.Kids[p]
		}
		dir = d.N
	}
	n := f.newNode(mode)
	n.Data = append([]byte(nil), data...)
	n.durable = append([]byte(nil), data...)
	f.link(dir, parts[len(parts)-1], n)
	return n
}

// PutLink makes a symbolic link.
func (f *FS) PutLink(name, target string) *Node {
	n := f.Put(name, os.ModeSymlink|0777, nil)
	n.Target = target
	return n
}

// At finds the node at a clean absolute path, not following links.
func (f *FS) At(name string) *Node {
	n := f.Root
	for _, p := range strings.Split(strings.Trim(name, "/"), "/") {
		if p == "" {
			continue
		}
		if n.Kids == nil {
			return nil
		}
		d, ok := n.Kids[p]
		if !ok {
			return nil
		}
		n = d.N
	}
	return n
}

// Lookup resolves a path as the program would, without faults or records.
func (f *FS) Lookup(name string, follow bool) (*Node, error) {
	_, _, n, err := f.resolve(name, follow)
	return n, err
}

// Under lists the names of the open files at or below a path.
func (f *FS) Under(dir string) []string {
	var out []string
	for h := range f.handles {
		c := path.Join("/", h.name)
		if c == dir || strings.HasPrefix(c, dir+"/") {
			out = append(out, c)
		}
	}
	sort.Strings(out)
	return out
}

// Durable is what a crash leaves of a file at the least.
func (n *Node) Durable() []byte { return n.durable }

// Del unlinks name, for harness use as "another program on the machine".
func (f *FS) Del(name string) {
	dir := f.At(path.Dir(name))
	if dir != nil && dir.Kids != nil {
		if d, ok := dir.Kids[path.Base(name)]; ok {
			d.N.Gone = true
			f.unlink(dir, path.Base(name))
			dir.Mtime = f.now()
		}
	}
}

// Alter gives a file other contents, as another program might.
func (f *FS) Alter(n *Node, data []byte) {
	n.Data = append([]byte(nil), data...)
	n.durable = append([]byte(nil), data...)
	n.pending = nil
	n.Mtime = f.now()
}

// Info is the node's file information.
func (f *FS) Info(n *Node, name string) os.FileInfo { return info(n, name) }

// Crash loses what was not made durable. lose(n) decides how many of n
// pending changes of a file reached the disk anyway (and torn: how much of
// the next one).
func (f *FS) Crash(keep func(n int) int, tear func(n int) int) {
	var walk func(n *Node)
	walk = func(n *Node) {
		if n.IsDir() {
			for _, k := range n.Names() {
				walk(n.Kids[k].N)
			}
			return
		}
		if n.Mode.IsRegular() {
			k := 0
			if len(n.pending) > 0 {
				k = keep(len(n.pending) + 1)
			}
			d := append([]byte(nil), n.durable...)
			for i := 0; i < k && i < len(n.pending); i++ {
				d = apply(d, n.pending[i])
			}
			if k < len(n.pending) {
				w := n.pending[k]
				if !w.trunc && len(w.data) > 1 {
					w.data = w.data[:tear(len(w.data))]
					if len(w.data) > 0 {
						d = apply(d, w)
					}
				}
			}
			n.Data = d
			n.durable = append([]byte(nil), d...)
			n.pending = nil
		}
	}
	walk(f.Root)
	f.handles = map[*File]bool{}
}

func apply(d []byte, w wop) []byte {
	if w.trunc {
		if int64(len(d)) >= w.off {
			return append([]byte(nil), d[:w.off]...)
		}
		return append(append([]byte(nil), d...), make([]byte, w.off-int64(len(d)))...)
	}
	end := w.off + int64(len(w.data))
	if int64(len(d)) < end {
		d = append(d, make([]byte, end-int64(len(d)))...)
	}
	copy(d[w.off:], w.data)
	return d
}

// settable are the mode bits a program can give a file.
const settable = 0777 | os.ModeSetuid | os.ModeSetgid | os.ModeSticky

const maxFile = 1 << 22 // the simulated disk refuses larger files (EFBIG)

// MaxLen is how long a file may be made by setting its length.
func (f *FS) MaxLen() int64 {
	if f.Big {
		return 1 << 43
	}
	return maxFile
}

func (f *FS) change(n *Node, w wop) {
	n.Mode &^= os.ModeSetuid
	if n.Mode&0010 != 0 {
		n.Mode &^= os.ModeSetgid
	}
	if w.trunc && w.off > maxFile {
		// nothing of it is kept, and it is not there after a crash
		n.Hole = w.off - int64(len(n.Data))
		n.Mtime = f.now()
		return
	}
	if w.trunc {
		n.Hole = 0
	} else if g := w.off + int64(len(w.data)) - int64(len(n.Data)); g > 0 && n.Hole > 0 {
		n.Hole -= g
		if n.Hole < 0 {
			n.Hole = 0
		}
	}
	n.Data = apply(n.Data, w)
	n.pending = append(n.pending, w)
	n.Mtime = f.now()
}

// ---- system calls

func (f *FS) enter(op, p string) (kind string) {
	f.Ops++
	if f.Yield {
		simrt.YieldPoint("sys:" + op)
	}
	if simrt.Killing() {
		return ""
	}
	if f.Nap != nil {
		f.Nap()
	}
	if f.StallFor != nil {
		if c := f.StallFor(op, p); c != nil {
			simrt.Park("sys:"+op+" stalled", c)
			if simrt.Exiting() {
				return ""
			}
		}
	}
	if f.Faults && f.FaultFor != nil {
		if k, ok := f.FaultFor(op, p); ok {
			f.Faulted++
			f.FaultLog = append(f.FaultLog, op+":"+k)
			return k
		}
	}
	return ""
}

// named records a path handed to the system.
func (f *FS) named(op, p string) {
	if f.Export == "" || simrt.Killing() {
		return
	}
	c := p
	if !path.IsAbs(c) {
		c = path.Join("/", c)
	}
	c = path.Clean(c)
	if f.Export == "/" || c == f.Export || strings.HasPrefix(c, f.Export+"/") {
		return
	}
	f.Outside = append(f.Outside, op+" "+p)
}

func errnoOf(kind string) syscall.Errno {
	switch kind {
	case "EIO":
		return syscall.EIO
	case "ENOSPC":
		return syscall.ENOSPC
	case "EMFILE":
		return syscall.EMFILE
	case "EACCES":
		return syscall.EACCES
	case "EDQUOT":
		return syscall.EDQUOT
	case "ESTALE":
		return syscall.ESTALE
	}
	return syscall.EIO
}

func perr(op, p string, e error) error { return &os.PathError{Op: op, Path: p, Err: e} }

// resolve walks to the directory holding the last component.
func (f *FS) resolve(p string, follow bool) (dir *Node, base string, n *Node, err error) {
	if strings.IndexByte(p, 0) >= 0 {
		return nil, "", nil, syscall.EINVAL
	}
	if p == "" {
		return nil, "", nil, syscall.ENOENT
	}
	if len(p) >= 4096 {
		return nil, "", nil, syscall.ENAMETOOLONG
	}
	type fr struct{ n *Node }
	stack := []*Node{f.Root}
	parts := strings.Split(p, "/")
	trailing := strings.HasSuffix(p, "/")
	links := 0
	// drop empty parts
	q := parts[:0:0]
	for _, x := range parts {
		if x != "" && x != "." {
			q = append(q, x)
		}
	}
	parts = q
	curn := f.Root
	dir, base = f.Root, "."
	for i := 0; i < len(parts); i++ {
		x := parts[i]
		last := i == len(parts)-1
		if curn == nil {
			return nil, "", nil, syscall.ENOENT
		}
		if !curn.IsDir() {
			return nil, "", nil, syscall.ENOTDIR
		}
		if curn.Mode&0100 == 0 {
			return nil, "", nil, syscall.EACCES
		}
		if x == ".." {
			if len(stack) > 1 {
				stack = stack[:len(stack)-1]
			}
			curn = stack[len(stack)-1]
			dir, base = curn, "."
			continue
		}
		if len(x) > 255 {
			return nil, "", nil, syscall.ENAMETOOLONG
		}
		d, ok := curn.Kids[x]
		if !ok {
			if last {
				return curn, x, nil, syscall.ENOENT
			}
			return nil, "", nil, syscall.ENOENT
		}
		if d.N.IsLink() && (!last || follow || trailing) {
			links++
			if links > 40 {
				return nil, "", nil, syscall.ELOOP
			}
			rest := append([]string(nil), parts[i+1:]...)
			tp := []string{}
			for _, y := range strings.Split(d.N.Target, "/") {
				if y != "" && y != "." {
					tp = append(tp, y)
				}
			}
			if strings.HasPrefix(d.N.Target, "/") {
				stack = []*Node{f.Root}
				curn = f.Root
				dir, base = f.Root, "."
			}
			parts = append(tp, rest...)
			i = -1
			if len(parts) == 0 {
				return dir, base, curn, nil
			}
			continue
		}
		dir, base = curn, x
		curn = d.N
		stack = append(stack, curn)
	}
	if trailing && curn != nil && !curn.IsDir() {
		return nil, "", nil, syscall.ENOTDIR
	}
	return dir, base, curn, nil
}

type fileInfo struct {
	name string
	size int64
	mode os.FileMode
	mt   time.Time
	st   syscall.Stat_t
}

func (i *fileInfo) Name() string       { return i.name }
func (i *fileInfo) Size() int64        { return i.size }
func (i *fileInfo) Mode() os.FileMode  { return i.mode }
func (i *fileInfo) ModTime() time.Time { return i.mt }
func (i *fileInfo) IsDir() bool        { return i.mode.IsDir() }
func (i *fileInfo) Sys() any           { return &i.st }

func info(n *Node, name string) os.FileInfo {
	i := &fileInfo{name: name, mode: n.Mode, mt: n.Mtime, size: n.Size()}
	if n.IsDir() {
		i.size = 4096
	}
	if n.IsLink() {
		i.size = int64(len(n.Target))
	}
	i.st.Ino = n.Ino
	i.st.Dev = n.Dev
	i.st.Nlink = 1
	i.st.Size = i.size
	i.st.Uid, i.st.Gid = 1000, 1000
	i.st.Mode = uint32(n.Mode.Perm())
	if n.Mode&os.ModeSetuid != 0 {
		i.st.Mode |= syscall.S_ISUID
	}
	if n.Mode&os.ModeSetgid != 0 {
		i.st.Mode |= syscall.S_ISGID
	}
	if n.Mode&os.ModeSticky != 0 {
		i.st.Mode |= syscall.S_ISVTX
	}
	switch {
	case n.IsDir():
		i.st.Mode |= syscall.S_IFDIR
	case n.IsLink():
		i.st.Mode |= syscall.S_IFLNK
	case n.Mode&os.ModeNamedPipe != 0:
		i.st.Mode |= syscall.S_IFIFO
	case n.Mode&os.ModeSocket != 0:
		i.st.Mode |= syscall.S_IFSOCK
	case n.Mode&os.ModeCharDevice != 0:
		i.st.Mode |= syscall.S_IFCHR
	default:
		i.st.Mode |= syscall.S_IFREG
	}
	i.st.Mtim = syscall.NsecToTimespec(n.Mtime.UnixNano())
	i.st.Ctim = i.st.Mtim
	i.st.Atim = syscall.NsecToTimespec(n.Atime.UnixNano())
	return i
}

func baseName(p string) string {
	// as os.basename
	for i := len(p) - 1; i > 0 && p[i] == '/'; i-- {
		p = p[:i]
	}
	if i := strings.LastIndexByte(p, '/'); i >= 0 && i+1 < len(p) {
		p = p[i+1:]
	}
	return p
}

func doStat(op, name string, follow bool) (FileInfo, error) {
	f := cur
	f.named(op, name)
	if k := f.enter(op, name); k != "" {
		return nil, perr(op, name, errnoOf(k))
	}
	_, _, n, err := f.resolve(name, follow)
	if err != nil {
		return nil, perr(op, name, err)
	}
	return info(n, baseName(name)), nil
}

func Stat(name string) (FileInfo, error)  { return doStat("stat", name, true) }
func Lstat(name string) (FileInfo, error) { return doStat("lstat", name, false) }

func SameFile(a, b FileInfo) bool {
	x, ok := a.(*fileInfo)
	y, ok2 := b.(*fileInfo)
	return ok && ok2 && x.st.Ino == y.st.Ino && x.st.Dev == y.st.Dev
}

// File is an open file.
type File struct {
	n      *Node
	name   string
	fl     int
	pos    int64
	closed bool
	dpos   uint64
	dnames []string
	heard  int // lost syncs of the file this handle has been told of
	fs     *FS
}

func Open(name string) (*File, error) { return OpenFile(name, O_RDONLY, 0) }
func Create(name string) (*File, error) {
	return OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0666)
}

func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	f := cur
	f.named("open", name)
	if k := f.enter("open", name); k != "" {
		return nil, perr("open", name, errnoOf(k))
	}
	dir, base, n, err := f.resolve(name, flag&(O_CREATE|O_EXCL) != O_CREATE|O_EXCL)
	acc := flag & (O_RDONLY | O_WRONLY | O_RDWR)
	if err != nil {
		if err == syscall.ENOENT && dir != nil && flag&O_CREATE != 0 && strings.HasSuffix(name, "/") {
			return nil, perr("open", name, syscall.EISDIR)
		}
		if err == syscall.ENOENT && dir != nil && flag&O_CREATE != 0 && base != "." {
			if dir.Gone {
				return nil, perr("open", name, syscall.ENOENT)
			}
			if dir.Mode&0300 != 0300 {
				return nil, perr("open", name, syscall.EACCES)
			}
			n = f.newNode(perm & settable)
			f.link(dir, base, n)
		} else {
			return nil, perr("open", name, err)
		}
	} else {
		if flag&O_CREATE != 0 && flag&O_EXCL != 0 {
			return nil, perr("open", name, syscall.EEXIST)
		}
		if n.IsLink() {
			return nil, perr("open", name, syscall.ELOOP)
		}
		if n.IsDir() && (acc != O_RDONLY || flag&O_CREATE != 0 || flag&O_TRUNC != 0) {
			return nil, perr("open", name, syscall.EISDIR)
		}
		want := os.FileMode(0)
		if acc != O_WRONLY {
			want |= 0400
		}
		if acc != O_RDONLY || flag&O_TRUNC != 0 {
			want |= 0200
		}
		if n.Mode&want != want {
			return nil, perr("open", name, syscall.EACCES)
		}
		if flag&O_TRUNC != 0 && n.Mode.IsRegular() {
			f.change(n, wop{trunc: true})
		}
	}
	h := &File{n: n, name: name, fl: flag, heard: n.lost, fs: f}
	f.handles[h] = true
	f.Opened++
	return h, nil
}

func (h *File) check(op string) error {
	if h == nil {
		return os.ErrInvalid
	}
	if h.closed || !h.fs.handles[h] {
		return perr(op, h.name, os.ErrClosed)
	}
	return nil
}

func (h *File) Name() string {
	return h.name
}
func (h *File) Fd() uintptr { return 3 }

func (h *File) Close() error {
	if h == nil {
		return os.ErrInvalid
	}
	if h.closed {
		return perr("close", h.name, os.ErrClosed)
	}
	h.closed = true
	delete(h.fs.handles, h)
	if k := h.fs.enter("close", h.name); k != "" {
		return perr("close", h.name, errnoOf(k))
	}
	return nil
}

func (h *File) Stat() (FileInfo, error) {
	if err := h.check("stat"); err != nil {
		return nil, err
	}
	if k := h.fs.enter("fstat", h.name); k != "" {
		return nil, perr("stat", h.name, errnoOf(k))
	}
	return info(h.n, baseName(h.name)), nil
}

func (h *File) pread(b []byte, off int64) (int, error) {
	if h.fl&(O_WRONLY|O_RDWR) == O_WRONLY {
		return 0, perr("read", h.name, syscall.EBADF)
	}
	if h.n.IsDir() {
		return 0, perr("read", h.name, syscall.EISDIR)
	}
	k := h.fs.enter("read", h.name)
	n := 0
	if off < int64(len(h.n.Data)) {
		n = copy(b, h.n.Data[off:])
	}
	for z := h.n.Size(); n < len(b) && off+int64(n) < z; n++ {
		b[n] = 0
	}
	if k != "" {
		if k == "SHORT" {
			return n / 2, perr("read", h.name, syscall.EIO)
		}
		return 0, perr("read", h.name, errnoOf(k))
	}
	if n < len(b) {
		return n, io.EOF
	}
	return n, nil
}

func (h *File) ReadAt(b []byte, off int64) (int, error) {
	if h == nil {
		return 0, os.ErrInvalid
	}
	if off < 0 {
		return 0, perr("readat", h.name, errors.New("negative offset"))
	}
	if len(b) == 0 {
		return 0, nil
	}
	if err := h.check("read"); err != nil {
		return 0, err
	}
	return h.pread(b, off)
}

func (h *File) Read(b []byte) (int, error) {
	if err := h.check("read"); err != nil {
		return 0, err
	}
	if len(b) == 0 {
		return 0, nil
	}
	n, err := h.pread(b, h.pos)
	h.pos += int64(n)
	if err == io.EOF && n > 0 {
		err = nil
	}
	return n, err
}

func (h *File) pwrite(b []byte, off int64) (int, error) {
	if h.fl&(O_WRONLY|O_RDWR) == 0 {
		return 0, perr("write", h.name, syscall.EBADF)
	}
	k := h.fs.enter("write", h.name)
	if off+int64(len(b)) > maxFile || off+int64(len(b)) < 0 {
		return 0, perr("write", h.name, syscall.EFBIG)
	}
	if k != "" {
		n := 0
		if k == "SHORT" && len(b) > 1 {
			n = len(b) / 2
			h.fs.change(h.n, wop{off: off, data: append([]byte(nil), b[:n]...)})
			return n, perr("write", h.name, syscall.ENOSPC)
		}
		return n, perr("write", h.name, errnoOf(k))
	}
	if len(b) > 0 {
		h.fs.change(h.n, wop{off: off, data: append([]byte(nil), b...)})
		if h.fl&O_SYNC == O_SYNC {
			h.n.flush()
		}
	}
	return len(b), nil
}

var errAppend = errors.New("os: invalid use of WriteAt on file opened with O_APPEND")

func (h *File) WriteAt(b []byte, off int64) (int, error) {
	if h == nil {
		return 0, os.ErrInvalid
	}
	if h.fl&O_APPEND != 0 {
		return 0, errAppend
	}
	if off < 0 {
		return 0, perr("writeat", h.name, errors.New("negative offset"))
	}
	if len(b) == 0 {
		return 0, nil
	}
	if err := h.check("write"); err != nil {
		return 0, err
	}
	return h.pwrite(b, off)
}

func (h *File) Write(b []byte) (int, error) {
	if err := h.check("write"); err != nil {
		return 0, err
	}
	if h.fl&O_APPEND != 0 && h.fl&(O_WRONLY|O_RDWR) != 0 {
		h.pos = h.n.Size()
	}
	n, err := h.pwrite(b, h.pos)
	h.pos += int64(n)
	return n, err
}
func (h *File) WriteString(s string) (int, error) { return h.Write([]byte(s)) }

func (h *File) Seek(off int64, whence int) (int64, error) {
	if err := h.check("seek"); err != nil {
		return 0, err
	}
	if k := h.fs.enter("seek", h.name); k != "" {
		return 0, perr("seek", h.name, errnoOf(k))
	}
	if h.n.IsDir() {
		// the position is that of the kernel's, ahead of the names in hand
		at := int64(h.dpos & (1<<63 - 1))
		switch whence {
		case io.SeekCurrent:
			off += at
		case io.SeekEnd:
			off += 1<<63 - 1
		}
		if off < 0 {
			return 0, perr("seek", h.name, syscall.EINVAL)
		}
		if off != at {
			h.dpos = uint64(off)
		}
		h.dnames = nil
		return off, nil
	}
	base := int64(0)
	switch whence {
	case io.SeekCurrent:
		base = h.pos
	case io.SeekEnd:
		base = h.n.Size()
	}
	if base+off < 0 {
		return 0, perr("seek", h.name, syscall.EINVAL)
	}
	h.pos = base + off
	return h.pos, nil
}

func (h *File) Sync() error {
	if err := h.check("sync"); err != nil {
		return err
	}
	if k := h.fs.enter("sync", h.name); k != "" {
		if h.fs.SyncLoses && k != "EINTR" {
			// every handle of the file hears of it once
			h.n.lost++
			h.heard = h.n.lost
			h.n.pending = nil
		}
		return perr("sync", h.name, errnoOf(k))
	}
	h.n.flush()
	if h.heard < h.n.lost {
		h.heard = h.n.lost
		if h.fs.OnHeard != nil {
			h.fs.OnHeard(h.name)
		}
		return perr("sync", h.name, syscall.EIO)
	}
	return nil
}

func (n *Node) flush() {
	d := append([]byte(nil), n.durable...)
	for _, w := range n.pending {
		d = apply(d, w)
	}
	n.durable, n.pending = d, nil
}

func (h *File) Truncate(size int64) error {
	if err := h.check("truncate"); err != nil {
		return err
	}
	if h.fl&(O_WRONLY|O_RDWR) == 0 {
		return perr("truncate", h.name, syscall.EINVAL)
	}
	if k := h.fs.enter("truncate", h.name); k != "" {
		return perr("truncate", h.name, errnoOf(k))
	}
	return h.fs.truncNode(h.n, h.name, size)
}

func (f *FS) truncNode(n *Node, name string, size int64) error {
	if size < 0 {
		return perr("truncate", name, syscall.EINVAL)
	}
	if size > f.MaxLen() {
		return perr("truncate", name, syscall.EFBIG)
	}
	f.change(n, wop{trunc: true, off: size})
	return nil
}

func (h *File) Chmod(m FileMode) error {
	if err := h.check("chmod"); err != nil {
		return err
	}
	if k := h.fs.enter("chmod", h.name); k != "" {
		return perr("chmod", h.name, errnoOf(k))
	}
	h.n.Mode = h.n.Mode&^settable | m&settable
	return nil
}
func (h *File) Chown(u, g int) error                { return h.check("chown") }
func (h *File) SetDeadline(t time.Time) error       { return os.ErrNoDeadline }
func (h *File) SetReadDeadline(t time.Time) error   { return os.ErrNoDeadline }
func (h *File) SetWriteDeadline(t time.Time) error  { return os.ErrNoDeadline }
func (h *File) ReadFrom(r io.Reader) (int64, error) { return io.Copy(struct{ io.Writer }{h}, r) }
func (h *File) WriteTo(w io.Writer) (int64, error)  { return io.Copy(w, struct{ io.Reader }{h}) }

func (h *File) getdents() (eof bool, err error) {
	if !h.n.IsDir() {
		return false, perr("readdirent", h.name, syscall.ENOTDIR)
	}
	if k := h.fs.enter("readdirent", h.name); k != "" {
		return false, perr("readdirent", h.name, errnoOf(k))
	}
	if h.n.Gone {
		return false, perr("readdirent", h.name, syscall.ENOENT)
	}
	type e struct {
		c uint64
		n string
	}
	var es []e
	for k, d := range h.n.Kids {
		if d.cookie > h.dpos {
			es = append(es, e{d.cookie, k})
		}
	}
	sort.Slice(es, func(i, j int) bool { return es[i].c < es[j].c })
	if len(es) > h.fs.DirBuf {
		es = es[:h.fs.DirBuf]
	}
	if len(es) == 0 {
		return true, nil
	}
	for _, x := range es {
		h.dnames = append(h.dnames, x.n)
		h.dpos = x.c
	}
	return false, nil
}

// readdir follows os.(*File).readdir: a name whose file is gone by the time
// it is looked at counts against n but is left out.
func (h *File) readdir(n int, each func(name string, nd *Node) error, count func() int) error {
	if n == 0 {
		n = -1
	}
	for n != 0 {
		if len(h.dnames) == 0 {
			eof, err := h.getdents()
			if err != nil {
				return err
			}
			if eof {
				break
			}
		}
		name := h.dnames[0]
		h.dnames = h.dnames[1:]
		if n > 0 {
			n--
		}
		d, ok := h.n.Kids[name]
		if !ok {
			if simrt.Cur() != nil {
				simrt.Cur().Count("probe:entry vanished between getdents and lstat")
			}
			if err := each(name, nil); err != nil {
				return err
			}
			continue
		}
		if err := each(name, d.N); err != nil {
			return err
		}
	}
	if n > 0 && count() == 0 {
		return io.EOF
	}
	return nil
}

func (h *File) Readdir(n int) ([]FileInfo, error) {
	if err := h.check("readdir"); err != nil {
		return nil, err
	}
	var out []FileInfo
	err := h.readdir(n, func(name string, nd *Node) error {
		if nd == nil {
			return nil
		}
		if h.n.Mode&0100 == 0 {
			return perr("lstat", h.name+"/"+name, syscall.EACCES)
		}
		if k := h.fs.enter("lstatat", h.name+"/"+name); k != "" {
			return perr("lstat", h.name+"/"+name, errnoOf(k))
		}
		out = append(out, info(nd, name))
		return nil
	}, func() int { return len(out) })
	if n <= 0 && out == nil {
		out = []FileInfo{}
	}
	return out, err
}

type dirEntry struct{ fi os.FileInfo }

func (d dirEntry) Name() string               { return d.fi.Name() }
func (d dirEntry) IsDir() bool                { return d.fi.IsDir() }
func (d dirEntry) Type() fs.FileMode          { return d.fi.Mode().Type() }
func (d dirEntry) Info() (fs.FileInfo, error) { return d.fi, nil }
func (d dirEntry) String() string             { return d.fi.Name() }

func (h *File) ReadDir(n int) ([]DirEntry, error) {
	if err := h.check("readdir"); err != nil {
		return nil, err
	}
	out := []DirEntry{}
	err := h.readdir(n, func(name string, nd *Node) error {
		if nd != nil {
			out = append(out, dirEntry{info(nd, name)})
		}
		return nil
	}, func() int { return len(out) })
	return out, err
}

func (h *File) Readdirnames(n int) ([]string, error) {
	if err := h.check("readdir"); err != nil {
		return nil, err
	}
	out := []string{}
	err := h.readdir(n, func(name string, nd *Node) error {
		out = append(out, name)
		return nil
	}, func() int { return len(out) })
	return out, err
}

func Mkdir(name string, perm FileMode) error {
	f := cur
	f.named("mkdir", name)
	if k := f.enter("mkdir", name); k != "" {
		return perr("mkdir", name, errnoOf(k))
	}
	dir, base, _, err := f.resolve(strings.TrimRight(name, "/"), false)
	if err == nil {
		return perr("mkdir", name, syscall.EEXIST)
	}
	if err != syscall.ENOENT || dir == nil || dir.Gone {
		return perr("mkdir", name, err)
	}
	if dir.Mode&0300 != 0300 {
		return perr("mkdir", name, syscall.EACCES)
	}
	f.link(dir, base, f.newNode(os.ModeDir|perm&(0777|os.ModeSticky)))
	return nil
}

func MkdirAll(name string, perm FileMode) error {
	if fi, err := Stat(name); err == nil {
		if fi.IsDir() {
			return nil
		}
		return perr("mkdir", name, syscall.ENOTDIR)
	}
	if d := path.Dir(path.Clean(name)); d != "/" && d != "." {
		if err := MkdirAll(d, perm); err != nil {
			return err
		}
	}
	return Mkdir(name, perm)
}

func Remove(name string) error {
	f := cur
	f.named("remove", name)
	if k := f.enter("remove", name); k != "" {
		return perr("remove", name, errnoOf(k))
	}
	dir, base, n, err := f.resolve(name, false)
	if err != nil {
		return perr("remove", name, err)
	}
	if base == "." || lastDot(name) {
		return perr("remove", name, syscall.EINVAL)
	}
	if dir.Mode&0300 != 0300 {
		return perr("remove", name, syscall.EACCES)
	}
	if n.Mount {
		return perr("remove", name, syscall.EBUSY)
	}
	if n.IsDir() && len(n.Kids) > 0 {
		return perr("remove", name, syscall.ENOTEMPTY)
	}
	f.unlink(dir, base)
	n.Gone = true
	dir.Mtime = f.now()
	return nil
}

func RemoveAll(name string) error {
	f := cur
	f.named("removeall", name)
	if k := f.enter("removeall", name); k != "" {
		return perr("unlinkat", name, errnoOf(k))
	}
	dir, base, n, err := f.resolve(name, false)
	if err != nil {
		return nil
	}
	if base == "." {
		return perr("unlinkat", name, syscall.EBUSY)
	}
	if n.Mount {
		return perr("unlinkat", name, syscall.EBUSY)
	}
	if dir.Mode&0300 != 0300 {
		return perr("unlinkat", name, syscall.EACCES)
	}
	f.unlink(dir, base)
	n.Gone = true
	dir.Mtime = f.now()
	return nil
}

func lastDot(p string) bool {
	b := baseName(p)
	return b == "." || b == ".."
}

func Rename(o, n string) error {
	f := cur
	f.named("rename", o)
	f.named("rename", n)
	le := func(e error) error { return &os.LinkError{Op: "rename", Old: o, New: n, Err: e} }
	if k := f.enter("rename", o); k != "" {
		return le(errnoOf(k))
	}
	od, ob, on, oerr := f.resolve(o, false)
	if oerr != nil && od == nil {
		return le(oerr)
	}
	nd, nb, nn, err := f.resolve(n, false)
	if oerr != nil && (err == nil || nd != nil) {
		return le(oerr)
	}
	if err != nil && !(err == syscall.ENOENT && nd != nil && !nd.Gone) {
		return le(err)
	}
	// os.Rename refuses to rename onto an existing directory
	if nn != nil && nn.IsDir() && (on != nn || o == n) {
		return le(syscall.EEXIST)
	}
	if ob == "." || nb == "." || lastDot(o) || lastDot(n) {
		return le(syscall.EBUSY)
	}
	if on == nn {
		return nil
	}
	if od.Dev != nd.Dev {
		return le(syscall.EXDEV)
	}
	if on.Mount || nn != nil && nn.Mount {
		return le(syscall.EBUSY)
	}
	if od.Mode&0300 != 0300 || nd.Mode&0300 != 0300 {
		return le(syscall.EACCES)
	}
	if on.IsDir() {
		if nn != nil {
			return le(syscall.ENOTDIR)
		}
		// not into itself
		bad := false
		var walk func(x *Node)
		walk = func(x *Node) {
			if x == nd {
				bad = true
			}
			for _, k := range x.Names() {
				walk(x.Kids[k].N)
			}
		}
		walk(on)
		if bad {
			return le(syscall.EINVAL)
		}
		// its .. changes
		if od != nd && on.Mode&0200 == 0 {
			return le(syscall.EACCES)
		}
	}
	if nn != nil {
		nn.Gone = true
		f.unlink(nd, nb)
	}
	f.unlink(od, ob)
	f.link(nd, nb, on)
	od.Mtime = f.now()
	return nil
}

func Chmod(name string, m FileMode) error {
	f := cur
	f.named("chmod", name)
	if k := f.enter("chmod", name); k != "" {
		return perr("chmod", name, errnoOf(k))
	}
	_, _, n, err := f.resolve(name, true)
	if err != nil {
		return perr("chmod", name, err)
	}
	n.Mode = n.Mode&^settable | m&settable
	return nil
}

func Chown(name string, u, g int) error {
	f := cur
	f.named("chown", name)
	if k := f.enter("chown", name); k != "" {
		return perr("chown", name, errnoOf(k))
	}
	_, _, _, err := f.resolve(name, true)
	if err != nil {
		return perr("chown", name, err)
	}
	if (u != -1 && u != 1000) || (g != -1 && g != 1000) {
		return perr("chown", name, syscall.EPERM)
	}
	return nil
}
func Lchown(name string, u, g int) error { return Chown(name, u, g) }

func Chtimes(name string, at, mt time.Time) error {
	f := cur
	f.named("chtimes", name)
	if k := f.enter("chtimes", name); k != "" {
		return perr("chtimes", name, errnoOf(k))
	}
	_, _, n, err := f.resolve(name, true)
	if err != nil {
		return perr("chtimes", name, err)
	}
	if !at.IsZero() {
		n.Atime = at
	}
	if !mt.IsZero() {
		n.Mtime = mt
	}
	return nil
}

func Truncate(name string, size int64) error {
	f := cur
	f.named("truncate", name)
	if k := f.enter("truncate", name); k != "" {
		return perr("truncate", name, errnoOf(k))
	}
	if size < 0 {
		return perr("truncate", name, syscall.EINVAL)
	}
	_, _, n, err := f.resolve(name, true)
	if err != nil {
		return perr("truncate", name, err)
	}
	if n.IsDir() {
		return perr("truncate", name, syscall.EISDIR)
	}
	if n.Mode&0200 == 0 {
		return perr("truncate", name, syscall.EACCES)
	}
	return f.truncNode(n, name, size)
}

func Readlink(name string) (string, error) {
	f := cur
	f.named("readlink", name)
	if k := f.enter("readlink", name); k != "" {
		return "", perr("readlink", name, errnoOf(k))
	}
	_, _, n, err := f.resolve(name, false)
	if err != nil {
		return "", perr("readlink", name, err)
	}
	if !n.IsLink() {
		return "", perr("readlink", name, syscall.EINVAL)
	}
	return n.Target, nil
}

func Symlink(o, n string) error {
	f := cur
	f.named("symlink", n)
	dir, base, _, err := f.resolve(n, false)
	if err == nil {
		err = syscall.EEXIST
	} else if err == syscall.ENOENT && dir != nil {
		nn := f.newNode(os.ModeSymlink | 0777)
		nn.Target = o
		f.link(dir, base, nn)
		return nil
	}
	return &os.LinkError{Op: "symlink", Old: o, New: n, Err: err}
}

func Link(o, n string) error {
	cur.named("link", o)
	cur.named("link", n)
	return &os.LinkError{Op: "link", Old: o, New: n, Err: syscall.EPERM}
}

func ReadFile(name string) ([]byte, error) {
	h, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer h.Close()
	return io.ReadAll(h)
}

func WriteFile(name string, data []byte, perm FileMode) error {
	h, err := OpenFile(name, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = h.Write(data)
	if e := h.Close(); e != nil && err == nil {
		err = e
	}
	return err
}

func ReadDir(name string) ([]DirEntry, error) {
	h, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer h.Close()
	es, err := h.ReadDir(-1)
	sort.Slice(es, func(i, j int) bool { return es[i].Name() < es[j].Name() })
	return es, err
}

func Exit(code int)                   { simrt.ProcessExit("os.Exit") }
func Getwd() (string, error)          { return "/", nil }
func Chdir(string) error              { return syscall.EPERM }
func Hostname() (string, error)       { return "sim", nil }
func TempDir() string                 { return "/tmp" }
func Getuid() int                     { return 1000 }
func Geteuid() int                    { return 1000 }
func Getgid() int                     { return 1000 }
func Getegid() int                    { return 1000 }
func Getpid() int                     { return 100 }
func Getppid() int                    { return 1 }
func Getenv(string) string            { return "" }
func LookupEnv(string) (string, bool) { return "", false }
func Environ() []string               { return nil }
func Getpagesize() int                { return 4096 }
