package world

import (
	"flag"
	"fmt"
	"os"
	"path"
	"sort"
	"strings"
	"time"

	ufs "github.com/Harvey-OS/ninep/filesystem"
	"github.com/Harvey-OS/ninep/protocol"
	"github.com/Harvey-OS/ninep/sim/simos"
	"github.com/Harvey-OS/ninep/sim/simrt"
	"github.com/Harvey-OS/ninep/sim/simtime"
)

// World U: the real server and the real ufs over the simulated os. Every
// session has a part of the exported tree to itself and makes one request at
// a time, so that what each request must do is known exactly, whatever the
// other sessions do meanwhile.

const (
	nofid    = 0xffffffff
	dmdir    = 0x80000000
	qtdir    = 0x80
	otrunc   = 0x10
	ocexec   = 0x20 // means nothing to a server
	noChange = 0xffffffff
	noLen    = 0xffffffffffffffff
)

type uworld struct {
	*W
	fs        *simos.FS
	root      string // clean path of the exported tree
	l         *protocol.Listener
	sess      []*usess
	faulty    bool
	mounts    bool // other file systems are mounted in the tree
	frate     int
	ids       map[*simos.Node]uint64 // identity reported
	vers      map[*simos.Node]verRec // last version reported
	mtset     map[*simos.Node]bool   // modification time set by request
	shared    string                 // a directory all sessions use
	faultOnly string                 // the only kind of call that fails
	down      bool                   // the machine has crashed
	hist      map[*simos.Node]*hfile // what was written, for crashes
}

type verRec struct {
	vers uint32
	data cont
	mt   time.Time
}

type ufid struct {
	num  uint32
	path string
	node *simos.Node
	open bool
	mode uint8
	off  uint64 // next directory offset
	own  bool   // opened under the session's own part of the tree
	// stray: the file has had another name, or has gone and something else
	// has had its name since, so that what the fid's name leads to now depends on whether names are
	// followed when they change
	stray bool
}

type usess struct {
	*uworld
	id      int
	home    string
	cl, sv  *simConn
	fids    map[uint32]*ufid
	msize   uint32
	nextTag uint16
	faulted bool
	flog    []string
	dead    bool
	busy    bool
	calm    bool // no disk faults
	ending  bool // the connection is about to end
	nreq    int
	wts     []int // weights of the operations
	script  []exch
	real    bool // through the real client
	rdFail  bool // the last read of the disk failed
	wrFail  bool // the last write to the disk failed
	c       *protocol.Client
}

// exch is a request and its reply.
type exch struct{ q, r Msg }

func (w *W) newU(root string, debug bool) *uworld {
	u := &uworld{W: w, root: path.Join("/", root), ids: map[*simos.Node]uint64{}, vers: map[*simos.Node]verRec{}, mtset: map[*simos.Node]bool{}, hist: map[*simos.Node]*hfile{}}
	salt := uint64(0)
	if w.cfg(2) == 1 {
		salt = uint64(1 + w.cfg(1<<16))
	}
	u.fs = simos.NewFS(salt)
	if w.cfg(3) > 0 {
		u.fs.SetClock(time.Duration(w.cfg(30))*365*24*time.Hour + time.Duration(w.cfg(1e9)))
		u.fs.Step = []time.Duration{3e6, 1e6, 1001001, 7e6}[w.cfg(4)]
	}
	u.fs.Yield = true
	u.fs.Nap = w.nap
	u.fs.InoKind = w.cfg(5)
	if u.mounts = w.cfg(4) == 0 && w.is("C14 C16 C18 C20 C22"); u.mounts {
		u.fs.InoKind = 0
	}
	u.fs.DirBuf = []int{1 << 30, 1, 2, 3, 7}[w.cfg(5)]
	if u.root != "/" {
		u.fs.Put(u.root, os.ModeDir|0755, nil)
	}
	simos.Use(u.fs)
	u.fs.Export = u.root
	d := "0"
	if debug {
		d = "1"
	}
	if err := flag.Set("root", root); err != nil {
		w.s.Trouble("flag root: %v", err)
	}
	if err := flag.Set("debug", d); err != nil {
		w.s.Trouble("flag debug: %v", err)
	}
	return u
}

func (u *uworld) listen(trace protocol.Tracer) {
	l, err := ufs.NewUFS(func(l *protocol.Listener) error { l.Trace = trace; return nil })
	if err != nil {
		u.s.Trouble("NewUFS: %v", err)
		return
	}
	u.l = l
}

func (u *uworld) under(p string) *usess {
	for _, s := range u.sess {
		if p == s.home || strings.HasPrefix(p, s.home+"/") {
			return s
		}
	}
	return nil
}

// arm turns the disk's faults on.
func (u *uworld) arm(rate int) {
	u.faulty = true
	u.frate = rate
	u.fs.Faults = true
	u.fs.OnHeard = func(p string) {
		for _, s := range u.sess {
			if s.busy {
				s.faulted = true
				s.flog = append(s.flog, "sync:lost before")
			}
		}
		u.s.Count("fault:disk-sync-lost")
		u.logf("disk fault: sync %s: an earlier one failed", p)
	}
	u.fs.FaultFor = func(op, p string) (string, bool) {
		var hit []*usess
		p = path.Join("/", p)
		s := u.under(p)
		if s == nil && u.shared != "" && (p == u.shared || strings.HasPrefix(p, u.shared+"/")) {
			for _, x := range u.sess { // whose call it is is not known
				if x.busy && !x.calm {
					hit = append(hit, x)
				}
				if x.busy && x.calm {
					return "", false
				}
			}
		} else if s != nil && !s.calm && (s.busy || s.ending && op == "close") {
			hit = append(hit, s)
		}
		if s != nil {
			switch op {
			case "read":
				s.rdFail = false
			case "write":
				s.wrFail = false
			}
		}
		if len(hit) == 0 || u.faultOnly != "" && op != u.faultOnly || !u.fault(1, u.frate) {
			return "", false
		}
		ks := []string{"EIO"}
		switch op {
		case "open":
			ks = []string{"EIO", "EMFILE", "ENOSPC"}
		case "read":
			ks = []string{"EIO", "SHORT"}
		case "write":
			ks = []string{"ENOSPC", "EIO", "SHORT"}
		case "mkdir":
			ks = []string{"ENOSPC", "EIO"}
		case "stat", "lstat", "chmod", "rename", "remove", "chtimes", "truncate", "lstatat":
			ks = []string{"EIO", "EACCES"}
		}
		k := ks[u.fdraw(len(ks))]
		if s != nil {
			switch op {
			case "read":
				s.rdFail = true
			case "write":
				s.wrFail = true
			}
		}
		for _, s := range hit {
			s.faulted = true
			s.flog = append(s.flog, op+":"+k)
		}
		u.s.Count("fault:disk-" + op + "-" + k)
		u.logf("disk fault: %s %s: %s", op, p, k)
		return k, true
	}
}

func (u *uworld) newSession(home string) *usess {
	s := &usess{uworld: u, id: len(u.sess) + 1, home: home, fids: map[uint32]*ufid{}}
	s.cl, s.sv = u.newConn(fmt.Sprintf("s%d", s.id))
	s.sv.rd.chunk = u.chunking()
	if u.cfg(6) == 1 {
		s.sv.wr.cap = 16 + u.cfg(64)
	}
	u.sess = append(u.sess, s)
	return s
}

// populate makes the session's part of the tree.
func (s *usess) populate() {
	s.fs.Put(s.home, os.ModeDir|0755, nil)
	dirs := []string{s.home}
	for i := s.cfg(3 + 3*s.cfg(2)); i > 0; i-- {
		d := path.Join(dirs[s.cfg(len(dirs))], fmt.Sprintf("d%d", i))
		if s.fs.At(d) == nil {
			n := s.fs.Put(d, os.ModeDir|0755, nil)
			dirs = append(dirs, d)
			if s.mounts && s.cfg(2) == 0 {
				s.fs.Mount(n)
				s.s.Count("probe:mounted")
			}
		}
	}
	for i := 1 + s.cfg(5); i > 0; i-- {
		f := path.Join(dirs[s.cfg(len(dirs))], fmt.Sprintf("f%d", i))
		perm := os.FileMode([]int{0644, 0666, 0600, 0444, 0222, 0}[s.cfg(6)])
		n := s.fs.Put(f, perm, s.s.Bytes(simrt.Cfg, s.cfg(60)))
		if s.fs.Big && s.cfg(6) == 1 {
			n.Hole = []int64{1 << 32, 1<<32 + 7, 5 << 30, 1 << 31, 1 << 40, 1<<23 + 1}[s.cfg(6)]
		}
	}
}

// ---------------------------------------------------------------- requests

// rpc sends a request and waits for its reply.
func (s *usess) rpc(m Msg) (Msg, bool) {
	if s.down {
		s.dead = true
		return Msg{}, false
	}
	s.nextTag++
	if s.nextTag == 0xffff || s.nextTag == 0 {
		s.nextTag = 1
	}
	m.Tag = s.nextTag
	if m.T == tVersion {
		m.Tag = 0xffff
	}
	s.faulted, s.rdFail, s.wrFail = false, false, false
	s.flog = nil
	s.busy = true
	s.nreq++
	s.logf("s%d %v", s.id, m)
	s.script = append(s.script, exch{q: m})
	if s.real {
		return s.through(m)
	}
	s.nap()
	if _, err := s.cl.Write(enc(m, nil)); err != nil {
		s.dead = true
		s.busy = false
		if s.down {
			return Msg{}, false
		}
		s.fail("*", "dropped", "s%d: the server ends the connection before %v", s.id, m)
		return Msg{}, false
	}
	f, err := readFrame(s.cl)
	s.busy = false
	if simrt.Exiting() || s.down {
		return Msg{}, false
	}
	if err != nil {
		s.dead = true
		s.fail("*", "dropped", "s%d: the server ends the connection instead of answering %v", s.id, m)
		return Msg{}, false
	}
	r, ok := dec(f)
	if !ok || r.Tag != m.Tag || (r.T != m.T+1 && r.T != rError) {
		s.fail("*", "reply", "s%d: %v is answered by %s tag %d, %d bytes (decodes: %v)", s.id, m, tname(f[4]), uint16(f[5])|uint16(f[6])<<8, len(f), ok)
		return Msg{}, false
	}
	s.logf("s%d %v", s.id, r)
	s.script[len(s.script)-1].r = r
	if s.s.Failed() {
		return Msg{}, false
	}
	return r, true
}

// through makes the request with the real client.
func (s *usess) through(m Msg) (Msg, bool) {
	if s.c == nil {
		s.c = s.newClient(s.cl, nil)
		s.s.Count("probe:real-client")
	}
	r, err := call(s.c, m)
	s.busy = false
	if simrt.Exiting() || s.down {
		return Msg{}, false
	}
	if err != nil {
		r = Msg{T: rError, Str: err.Error()}
	}
	s.logf("s%d %v", s.id, r)
	s.script[len(s.script)-1].r = r
	return r, !s.s.Failed()
}

// ---------------------------------------------------------------- snapshots

// ent is what is known of a file.
type ent struct {
	n      *simos.Node // nil: any new one
	dir    bool
	perm   os.FileMode
	data   cont
	mt, at time.Time
	anyMt  bool
	during *[4]time.Time // with anyMt: unchanged, or within the first two or the last two
	anyPm  bool
	alt    []cont // other contents allowed
	anyAt  bool
}

// cont is what a file contains: d, and zeroes from there to size.
type cont struct {
	d    string
	size int64
}

func mkCont(d string, size int64) cont {
	return cont{strings.TrimRight(d, "\x00"), size}
}

func nodeCont(n *simos.Node) cont { return mkCont(string(n.Data), n.Size()) }

// from gives up to n bytes at an offset.
func (c cont) from(off uint64, n int) string {
	if off >= uint64(c.size) {
		return ""
	}
	if left := uint64(c.size) - off; uint64(n) > left {
		n = int(left)
	}
	b := make([]byte, n)
	if off < uint64(len(c.d)) {
		copy(b, c.d[off:])
	}
	return string(b)
}

func (c cont) write(off uint64, b []byte) cont {
	if len(b) == 0 {
		return c
	}
	end := off + uint64(len(b))
	x := []byte(c.d)
	for uint64(len(x)) < end {
		x = append(x, 0)
	}
	copy(x[off:], b)
	if int64(end) > c.size {
		c.size = int64(end)
	}
	return mkCont(string(x), c.size)
}

func (c cont) resize(n uint64) cont {
	d := c.d
	if uint64(len(d)) > n {
		d = d[:n]
	}
	return mkCont(d, int64(n))
}

func (c cont) String() string {
	n := c.size
	if n > 41 {
		n = 41
	}
	s := c.from(0, int(n))
	if c.size > 40 {
		return fmt.Sprintf("%q...(%d bytes)", s[:40], c.size)
	}
	return fmt.Sprintf("%q", s)
}

func snapNode(n *simos.Node) ent {
	return ent{n: n, dir: n.IsDir(), perm: n.Mode &^ os.ModeType, data: nodeCont(n), mt: n.Mtime, at: n.Atime}
}

type snap map[string]ent

func (u *uworld) snap(home string) snap {
	out := snap{}
	n := u.fs.At(home)
	if n == nil {
		return out
	}
	var walk func(p string, n *simos.Node)
	walk = func(p string, n *simos.Node) {
		out[p] = snapNode(n)
		for _, k := range n.Names() {
			walk(p+"/"+k, n.Kids[k].N)
		}
	}
	walk(home, n)
	return out
}

func (a snap) keys() []string {
	var ks []string
	for k := range a {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// differs tells the first difference between what should be there and what
// is.
func (want snap) differs(got snap, old snap) string {
	for _, k := range want.keys() {
		a := want[k]
		b, ok := got[k]
		if !ok {
			return fmt.Sprintf("%s is gone", k)
		}
		if a.n == nil {
			for _, o := range old.keys() {
				if old[o].n == b.n {
					return fmt.Sprintf("%s is not a new file but what %s was", k, o)
				}
			}
		} else if a.n != b.n {
			return fmt.Sprintf("%s is a different file", k)
		}
		if a.dir != b.dir {
			return fmt.Sprintf("%s: directory %v, should be %v", k, b.dir, a.dir)
		}
		if a.perm != b.perm && !a.anyPm {
			return fmt.Sprintf("%s has permissions %o, should have %o", k, b.perm, a.perm)
		}
		if a.data != b.data {
			ok := false
			for _, x := range a.alt {
				ok = ok || x == b.data
			}
			if !ok {
				return fmt.Sprintf("%s contains %s, should contain %s", k, b.data, a.data)
			}
		}
		if !a.dir && !a.anyMt && !a.mt.Equal(b.mt) {
			return fmt.Sprintf("%s has modification time %v, should have %v", k, b.mt, a.mt)
		}
		if w := a.during; !a.dir && a.anyMt && w != nil && !a.mt.Equal(b.mt) {
			if (b.mt.Before(w[0]) || b.mt.After(w[1])) && (b.mt.Before(w[2].Truncate(time.Second)) || b.mt.After(w[3])) {
				return fmt.Sprintf("%s has modification time %v, which is neither what it had, %v, nor the time of the request", k, b.mt, a.mt)
			}
		}
		if !a.anyAt && !a.at.Equal(b.at) {
			return fmt.Sprintf("%s has access time %v, should have %v", k, b.at, a.at)
		}
	}
	for _, k := range got.keys() {
		if _, ok := want[k]; !ok {
			return fmt.Sprintf("%s has appeared", k)
		}
	}
	return ""
}

func clip(s string) string {
	if len(s) > 40 {
		return fmt.Sprintf("%q...(%d bytes)", s[:40], len(s))
	}
	return fmt.Sprintf("%q", s)
}

func (a snap) clone() snap {
	b := snap{}
	for k, v := range a {
		b[k] = v
	}
	return b
}

// ---------------------------------------------------------------- identity

// ident holds a reported identity against the file it is reported for.
func (s *usess) ident(what string, q Qid, n *simos.Node) bool {
	if !s.is("C20 C14") {
		return true
	}
	isdir := q.Type&qtdir != 0
	if isdir != n.IsDir() {
		s.fail("C20", "qid-type", "s%d: %s gives qid %v; directory: %v", s.id, what, q, n.IsDir())
		return false
	}
	if old, ok := s.ids[n]; ok && old != q.Path {
		s.fail("C20 C14", "qid-path", "s%d: %s gives qid path %d; the same file had %d before", s.id, what, q.Path, old)
		return false
	}
	for _, m := range s.nodesWith(q.Path) {
		if m != n && !m.Gone && !n.Gone {
			s.fail("C20 C14", "qid-path", "s%d: %s gives qid path %d, which is that of a different file that still exists", s.id, what, q.Path)
			return false
		}
	}
	s.ids[n] = q.Path
	now := verRec{vers: q.Vers, mt: n.Mtime}
	if !n.IsDir() {
		now.data = nodeCont(n)
	}
	if v, ok := s.vers[n]; ok {
		if !n.IsDir() && !s.mtset[n] && v.data != now.data && v.vers == q.Vers {
			s.fail("C20", "qid-version", "s%d: %s gives qid version %d, as before, though the contents have changed", s.id, what, q.Vers)
			return false
		}
		if v.data == now.data && v.mt.Equal(now.mt) && v.vers != q.Vers {
			s.fail("C20", "qid-changes", "s%d: %s gives qid version %d; the file has not been touched and had version %d", s.id, what, q.Vers, v.vers)
			return false
		}
	}
	s.vers[n] = now
	return true
}

func (u *uworld) nodesWith(p uint64) (out []*simos.Node) {
	for n, q := range u.ids {
		if q == p {
			out = append(out, n)
		}
	}
	return
}

// truth holds a reported directory entry against the file.
func (s *usess) truth(what string, d Stat, n *simos.Node, name string) bool {
	if !s.ident(what, d.Qid, n) {
		return false
	}
	if name != "" && d.Name != name {
		s.fail("C20 C14", "stat-name", "s%d: %s reports name %q, it is %q", s.id, what, d.Name, name)
		return false
	}
	m := uint32(n.Mode.Perm())
	if n.IsDir() {
		m |= dmdir
	}
	if d.Mode != m {
		s.fail("C20", "stat-mode", "s%d: %s reports mode %#o, it is %#o", s.id, what, d.Mode, m)
		return false
	}
	if !n.IsDir() && d.Length != uint64(n.Size()) {
		s.fail("C20", "stat-length", "s%d: %s reports length %d, it is %d", s.id, what, d.Length, n.Size())
		return false
	}
	if d.Mtime != uint32(n.Mtime.Unix()) {
		s.fail("C20", "stat-mtime", "s%d: %s reports modification time %d, it is %d", s.id, what, d.Mtime, n.Mtime.Unix())
		return false
	}
	return true
}

// soft reports a violation of the listed properties and tells whether the run
// is over; a run for another property goes on, for nothing that it judges by
// depends on this.
func (s *usess) soft(props, class, format string, args ...interface{}) bool {
	if !s.is(props) {
		return false
	}
	s.fail(props, class, format, args...)
	return true
}

// held compares the open files with the open fids.
func (s *usess) held(what string) bool {
	n := 0
	for _, f := range s.fids {
		if f.open && f.own {
			n++
		}
	}
	if h := s.fs.Under(s.home); len(h) != n {
		s.fail("C21", "handles", "s%d: after %s %d fids are open and the server holds %d files open: %v", s.id, what, n, len(h), h)
		return false
	}
	return true
}

func (s *usess) same(props, what string, want, old snap) bool {
	if s.s.Failed() {
		return false
	}
	if !s.is(props) {
		return true // each request is judged from the tree as it is then
	}
	if d := want.differs(s.snap(s.home), old); d != "" {
		s.fail(props, "tree", "s%d: after %s %s (disk faults: %v)", s.id, what, d, s.flog)
		return false
	}
	return true
}

// ---------------------------------------------------------------- the model

// at tells what the fid's path leads to now: the fid's own file, nothing the
// server can reach, or something else (then nothing is known).
func (s *usess) at(f *ufid) (known, reach bool) {
	n, err := s.fs.Lookup(f.path, false)
	if err != nil {
		return f.node != nil && !f.node.Gone && s.fs.At(f.path) == f.node, false
	}
	return n == f.node, n == f.node
}

func (s *usess) anyFid() uint32 {
	if s.draw(12) == 0 {
		return []uint32{0x7fffffff, 0x80000000, 0xfffffffe, 0xffff, 0x10000}[s.draw(5)]
	}
	return uint32(s.draw(9))
}

// liveFid picks a bound fid, mostly one for which everything is known.
func (s *usess) liveFid(ok func(f *ufid) bool) *ufid {
	var c []*ufid
	for _, f := range s.sorted() {
		if ok(f) {
			c = append(c, f)
		}
	}
	if len(c) == 0 {
		return nil
	}
	return c[s.draw(len(c))]
}

func (s *usess) sorted() []*ufid {
	var out []*ufid
	for _, f := range s.fids {
		out = append(out, f)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].num < out[j].num })
	return out
}

func (s *usess) known(f *ufid) bool { k, _ := s.at(f); return k }

func (s *usess) start() bool {
	ms := []uint32{8192, 8000, 256, 512, 65536, 1 << 20, 1 << 22, 0xffffffff, 1024}[s.draw(9)]
	r, ok := s.rpc(Msg{T: tVersion, Msize: ms, Str: "9P2000"})
	if !ok {
		return false
	}
	if r.T == rError {
		s.fail("*", "version", "s%d: version is refused: %q", s.id, r.Str)
		return false
	}
	if r.Msize > ms {
		s.fail("C15", "msize", "s%d: asked for messages of at most %d bytes the server grants %d", s.id, ms, r.Msize)
		return false
	}
	s.msize = r.Msize
	s.root0()
	return !s.s.Failed()
}

// root0 attaches and walks to the session's home.
func (s *usess) root0() {
	rootNode := s.fs.At(s.root)
	rel := strings.TrimPrefix(s.home, s.root)
	if s.draw(2) == 0 {
		// attach to the root, walk home
		r, ok := s.rpc(Msg{T: tAttach, Fid: 0, Fid2: nofid, Uname: "u", Aname: ""})
		if !ok {
			return
		}
		if r.T == rError {
			s.fail("*", "attach", "s%d: attach to the root is refused: %q", s.id, r.Str)
			return
		}
		if !s.ident("attach", r.Qid, rootNode) {
			return
		}
		s.fids[0] = &ufid{num: 0, path: s.root, node: rootNode}
		s.walk(0, 1, strings.Split(strings.Trim(rel, "/"), "/"))
		return
	}
	r, ok := s.rpc(Msg{T: tAttach, Fid: 1, Fid2: nofid, Uname: "u", Aname: rel})
	if !ok {
		return
	}
	if r.T == rError {
		s.fail("*", "attach", "s%d: attach to %q is refused: %q", s.id, rel, r.Str)
		return
	}
	n := s.fs.At(s.home)
	if !s.ident("attach", r.Qid, n) {
		return
	}
	s.fids[1] = &ufid{num: 1, path: s.home, node: n}
}

// crowd is mostly 0, now and then something large.
func (w *W) crowd(one, most int) int {
	if w.cfg(one) != 1 {
		return 0
	}
	w.s.Count("probe:crowd")
	if w.cfg(6) == 1 {
		return most*2/3 + w.cfg(most/3)
	}
	return 60 + w.cfg(240)
}

// gather binds n fids, and mostly opens some.
func (s *usess) gather(n int) bool {
	num := uint32(1000)
	open := s.draw(3)
	for i := 0; i < n && !s.s.Failed() && !s.dead; i++ {
		for s.fids[num] != nil {
			num++
		}
		d := s.fids[1]
		if d == nil || d.open || !s.known(d) {
			break
		}
		var names []string
		if ks := d.node.Names(); len(ks) > 0 && s.draw(2) == 0 {
			names = []string{ks[s.draw(len(ks))]}
		}
		s.walk(1, num, names)
		if f := s.fids[num]; f != nil && open > 0 && s.draw(open) == 0 && s.known(f) {
			s.open(f, 0)
		}
	}
	return !s.s.Failed() && !s.dead
}

// refusedUnlessBound checks the rule for fids that are not bound.
func (s *usess) unbound(m Msg) bool {
	before := s.snap(s.home)
	r, ok := s.rpc(m)
	if !ok {
		return false
	}
	if r.T != rError {
		s.fail("C14 C10", "unbound", "s%d: %v succeeds though the fid is not in use on this connection", s.id, m)
		return false
	}
	return s.same("C14 C10 C22 C18", m.String(), before, before)
}

func (s *usess) refused(props string, m Msg, why string) bool {
	before := s.snap(s.home)
	r, ok := s.rpc(m)
	if !ok {
		return false
	}
	if r.T != rError {
		s.fail(props, "accepted", "s%d: %v succeeds though %s", s.id, m, why)
		return false
	}
	return s.same(props, m.String()+", refused,", before, before)
}

func (s *usess) opAttach() {
	num := s.anyFid()
	aname := strings.TrimPrefix(s.home, s.root)
	switch s.draw(4) {
	case 0:
		aname += "/nothere"
	case 1:
		var ds []string
		for k, e := range s.snap(s.home) {
			if e.dir {
				ds = append(ds, k)
			}
		}
		sort.Strings(ds)
		aname = strings.TrimPrefix(ds[s.draw(len(ds))], s.root)
	case 2:
		aname = aname[1:]
	}
	full := path.Join(s.root, path.Join("/", aname))
	m := Msg{T: tAttach, Fid: num, Fid2: nofid, Uname: "u", Aname: aname}
	if s.fids[num] != nil {
		s.refused("C14", m, "the fid is in use")
		return
	}
	n, err := s.fs.Lookup(full, true)
	before := s.snap(s.home)
	r, ok := s.rpc(m)
	if !ok {
		return
	}
	if r.T == rError {
		if err == nil && !s.faulted {
			s.fail("C14", "refused", "s%d: %v is refused: %q", s.id, m, r.Str)
			return
		}
	} else {
		if err != nil {
			s.fail("C14", "accepted", "s%d: %v succeeds though %s cannot be reached", s.id, m, full)
			return
		}
		if !s.ident("attach", r.Qid, n) {
			return
		}
		s.fids[num] = &ufid{num: num, path: full, node: n}
	}
	s.same("C14", m.String(), before, before)
}

func (s *usess) opWalk() {
	f := s.liveFid(func(f *ufid) bool { return s.known(f) })
	if f == nil || s.draw(12) == 0 {
		num := s.anyFid()
		if s.fids[num] == nil {
			s.unbound(Msg{T: tWalk, Fid: num, Fid2: s.anyFid(), Names: []string{"f1"}})
		}
		return
	}
	newfid := s.anyFid()
	if s.draw(8) == 0 {
		newfid = f.num
	}
	s.walk(f.num, newfid, s.names(f))
}

// names makes a walk, mostly along files that are there.
func (s *usess) names(f *ufid) []string {
	var out []string
	p := f.path
	for i := s.draw(4 + s.draw(3)); i > 0; i-- {
		n, err := s.fs.Lookup(p, false)
		if err != nil || !n.IsDir() {
			if s.draw(2) == 0 {
				return out
			}
			out = append(out, "x")
			continue
		}
		ks := n.Names()
		// never into what belongs to another session
		if p == s.root {
			ks = []string{path.Base(s.home)}
			if p+"/"+ks[0] != s.home {
				ks = []string{strings.Split(strings.Trim(strings.TrimPrefix(s.home, s.root), "/"), "/")[0]}
			}
		}
		switch {
		case s.draw(8) == 0:
			out = append(out, "nothere")
			p += "/nothere"
		case s.draw(10) == 0 && strings.HasPrefix(p, s.home+"/"):
			out = append(out, "..")
			p = path.Dir(p)
		case s.draw(16) == 0:
			out = append(out, ".")
		case len(ks) > 0:
			k := ks[s.draw(len(ks))]
			out = append(out, k)
			p += "/" + k
		default:
			return out
		}
	}
	return out
}

// walk makes a walk and judges it.
func (s *usess) walk(fid, newfid uint32, names []string) {
	f := s.fids[fid]
	m := Msg{T: tWalk, Fid: fid, Fid2: newfid, Names: names}
	if f == nil {
		s.unbound(m)
		return
	}
	// where it leads
	p := f.path
	var ns []*simos.Node
	full := true
	for _, x := range names {
		p = path.Join(p, x)
		if len(p) < len(s.root) {
			p = s.root
		}
		n, err := s.fs.Lookup(p, false)
		if err != nil {
			full = false
			break
		}
		ns = append(ns, n)
	}
	inuse := s.fids[newfid] != nil && newfid != fid
	before := s.snap(s.home)
	r, ok := s.rpc(m)
	if !ok {
		return
	}
	if !s.same("C14", m.String(), before, before) {
		return
	}
	if r.T == rError {
		switch {
		case inuse, s.faulted, f.open:
		case len(names) == 0 && newfid == fid:
		case len(ns) == 0 && len(names) > 0:
		default:
			s.fail("C14", "refused", "s%d: %v is refused: %q", s.id, m, r.Str)
		}
		return
	}
	if inuse && len(r.Qids) == len(names) {
		s.fail("C14", "rebound", "s%d: %v succeeds though fid %d is in use", s.id, m, newfid)
		return
	}
	if f.open && newfid == fid && len(names) > 0 && len(r.Qids) == len(names) {
		s.fail("C14 C21", "rebound", "s%d: %v succeeds though fid %d is open", s.id, m, newfid)
		return
	}
	if len(r.Qids) > len(ns) || (len(r.Qids) < len(ns) && !s.faulted) || (len(names) > 0 && len(r.Qids) == 0) {
		s.fail("C14", "walk-length", "s%d: %v reaches %d files, the reply has %d", s.id, m, len(ns), len(r.Qids))
		return
	}
	for i, q := range r.Qids {
		if !s.ident(fmt.Sprintf("walk element %d", i), q, ns[i]) {
			return
		}
	}
	if len(r.Qids) == len(names) && full {
		n := f.node
		if len(ns) > 0 {
			n = ns[len(ns)-1]
		}
		if len(names) == 0 && newfid == fid {
			return
		}
		s.fids[newfid] = &ufid{num: newfid, path: p, node: n}
	}
}

func canOpen(n *simos.Node, mode uint8) bool {
	acc := mode & 3
	tr := mode&otrunc != 0
	if n.IsDir() && (acc == 1 || acc == 2 || tr) {
		return false
	}
	want := os.FileMode(0)
	if acc != 1 {
		want |= 0400
	}
	if acc == 1 || acc == 2 || tr {
		want |= 0200
	}
	return n.Mode&want == want
}

func (s *usess) omode() uint8 {
	m := uint8(s.draw(4))
	if s.draw(5) == 0 {
		m |= otrunc
	}
	if s.draw(8) == 1 {
		m |= ocexec
	}
	return m
}

func (s *usess) opOpen() {
	f := s.liveFid(func(f *ufid) bool { return s.known(f) && (!f.open || s.draw(3) == 0) })
	if f == nil || s.draw(12) == 0 {
		if num := s.anyFid(); s.fids[num] == nil {
			s.unbound(Msg{T: tOpen, Fid: num, Mode: s.omode()})
		}
		return
	}
	s.open(f, s.omode())
}

func (s *usess) open(f *ufid, mode uint8) bool {
	m := Msg{T: tOpen, Fid: f.num, Mode: mode}
	if f.open {
		return s.refused("C14 C21", m, "the fid is open")
	}
	_, reach := s.at(f)
	can := reach && canOpen(f.node, mode)
	before := s.snap(s.home)
	if mode&otrunc != 0 {
		s.wrote(nil, f.node, hop{trunc: true})
	}
	r, ok := s.rpc(m)
	if !ok {
		return false
	}
	want := before.clone()
	tr := func() {
		if e, ok := want[f.path]; ok && mode&otrunc != 0 && can && !e.dir {
			e.data, e.anyMt = cont{}, true
			want[f.path] = e
		}
	}
	if r.T == rError {
		if can && !s.faulted && s.soft("C14", "refused", "s%d: %v is refused: %q", s.id, m, r.Str) {
			return false
		}
		if mode&otrunc != 0 && (s.faulted || can) {
			if e, ok := want[f.path]; ok {
				e.alt, e.anyMt = []cont{{}}, true
				want[f.path] = e
			}
		}
		return s.same("C14 C15 C22", m.String(), want, before) && s.held(m.String())
	}
	if !can && s.soft("C14", "accepted", "s%d: %v succeeds though the file cannot be opened so", s.id, m) {
		return false
	}
	tr()
	f.open, f.mode, f.off, f.own = true, mode, 0, s.inHome(f)
	return s.same("C14 C15", m.String(), want, before) && s.ident("open", r.Qid, f.node) && s.held(m.String())
}

func (s *usess) newName() string {
	if s.draw(12) == 0 {
		return s.strangeName(s.draw)
	}
	switch s.draw(6) {
	case 0:
		return fmt.Sprintf("f%d", s.draw(6))
	case 1:
		return fmt.Sprintf("d%d", s.draw(3))
	case 2:
		return "a long name with spaces " + strings.Repeat("x", s.draw(120))
	case 3:
		return "..." + string(rune('a'+s.draw(3)))
	}
	if s.draw(3) == 0 { // the beginning of one is the whole of another
		if n := s.fs.At(s.home); n != nil {
			if ks := n.Names(); len(ks) > 0 {
				if k := ks[s.draw(len(ks))]; len(k) < 200 {
					return k + fmt.Sprint(s.draw(2))
				}
			}
		}
	}
	return fmt.Sprintf("n%d", s.draw(12))
}

// strangeName is a name few programs give.
func (w *W) strangeName(draw func(int) int) string {
	switch draw(10) {
	case 0:
		return "..." + strings.Repeat(".", draw(4))
	case 1:
		return ".." + string(rune('a'+draw(3)))
	case 2:
		return " " + string(rune('a'+draw(3))) + " "
	case 3:
		return "é\u4e16\U0001f600" + string(rune('a'+draw(3)))
	case 4:
		return strings.Repeat("z", 249+draw(7))
	case 5:
		return string(rune('a'+draw(3))) + ".."
	case 6:
		return "\\" + string(rune('a'+draw(3)))
	case 7:
		return "-" + []string{"%2e", "*", "~", "a\nb", "%s", ":1", "\t"}[draw(7)]
	case 8: // in another encoding
		return []string{"caf\xe9", "\xff\xfe", "a\x80", "\xc3"}[draw(4)] + string(rune('a'+draw(3)))
	}
	return "#" + []string{"a", "%!d", "'q'", "\"q\"", "$HOME", "&;"}[draw(6)]
}

// oddBits are mode bits that are not permissions and mean nothing to the
// file server: on the disk they would be set-user-id and the like.
func (s *usess) oddBits() uint32 {
	if s.draw(8) != 0 {
		return 0
	}
	return 1 << []int{9, 10, 11, 18, 19, 20, 22, 23}[s.draw(8)]
}

func (s *usess) opCreate() {
	f := s.liveFid(func(f *ufid) bool {
		return s.known(f) && s.inHome(f) && (f.node.IsDir() && !f.open || s.draw(6) == 0)
	})
	perm := uint32([]int{0644, 0666, 0600, 0444, 0, 0777, 0755, 0222, 0751}[s.draw(9)])
	if s.draw(3) == 0 {
		perm |= dmdir
	}
	perm |= s.oddBits()
	if f == nil || s.draw(14) == 0 {
		if num := s.anyFid(); s.fids[num] == nil {
			s.unbound(Msg{T: tCreate, Fid: num, Str: s.newName(), Perm: perm, Mode: s.omode()})
		}
		return
	}
	name := s.newName()
	if s.draw(16) == 0 {
		name = []string{"/" + name, name + "/", "d1/" + name, "../" + name, "x/../" + name, "./" + name, "/", ".", "..", ""}[s.draw(10)]
	}
	s.create(f, name, perm, s.omode())
}

func (s *usess) inHome(f *ufid) bool {
	return f.path == s.home || strings.HasPrefix(f.path, s.home+"/")
}

func (s *usess) create(f *ufid, name string, perm uint32, mode uint8) bool {
	m := Msg{T: tCreate, Fid: f.num, Str: name, Perm: perm, Mode: mode}
	if f.open {
		return s.refused("C14 C21 C22", m, "the fid is open")
	}
	if name == "" || name == "." || name == ".." || strings.Contains(name, "/") {
		return s.refused("C22", m, "the name is none")
	}
	_, reach := s.at(f)
	p := path.Join(f.path, name)
	before := s.snap(s.home)
	old, exists := before[p]
	dir := perm&dmdir != 0
	can := reach && f.node.IsDir() && f.node.Mode&0300 == 0300 && len(name) <= 255 && len(p) < 4096
	emptied := false
	if exists {
		can = reach && f.node.IsDir() && f.node.Mode&0100 != 0 && !dir && !old.dir && canOpen(old.n, mode|otrunc)
		emptied = can
		s.wrote(nil, old.n, hop{trunc: true})
	}
	r, ok := s.rpc(m)
	if !ok {
		return false
	}
	want := before.clone()
	if r.T == rError {
		if can && !s.faulted && s.soft("C22 C14", "refused", "s%d: %v is refused: %q", s.id, m, r.Str) {
			return false
		}
		if can {
			// what a fault in the middle may leave: the new file, or the old one
			// emptied
			if now := s.fs.At(p); now != nil && !exists {
				want[p] = ent{dir: dir, anyPm: true, anyMt: true, anyAt: true}
			}
			if emptied {
				old.alt, old.anyMt = []cont{{}}, true
				want[p] = old
			}
		}
		return s.same("C22", m.String(), want, before) && s.held(m.String())
	}
	if !can {
		why := "it cannot be made"
		if exists {
			why = "the name exists"
		}
		if s.soft("C22 C14", "accepted", "s%d: %v succeeds though %s", s.id, m, why) {
			return false
		}
	}
	if emptied {
		old.data, old.anyMt = cont{}, true
		if s.fs.At(p) != nil && s.fs.At(p).Mode&^os.ModeType == os.FileMode(perm&0777) {
			old.anyPm = true
		}
		want[p] = old
	} else {
		want[p] = ent{dir: dir, perm: os.FileMode(perm & 0777), anyMt: true, anyAt: true}
	}
	if !s.same("C22", m.String(), want, before) {
		return false
	}
	n := s.fs.At(p)
	if n == nil {
		s.fail("C22", "tree", "s%d: %v succeeds and there is no such file", s.id, m)
		return false
	}
	f.path, f.node = p, n
	if !dir {
		f.open, f.mode, f.off, f.own = true, mode, 0, s.inHome(f)
	}
	return s.ident("create", r.Qid, n) && s.held(m.String())
}

func (s *usess) opClunk() {
	f := s.liveFid(func(f *ufid) bool { return true })
	if f == nil || len(s.fids) < 2 || s.draw(10) == 0 {
		if num := s.anyFid(); s.fids[num] == nil {
			s.unbound(Msg{T: tClunk, Fid: num})
		}
		return
	}
	s.clunk(f)
}

func (s *usess) clunk(f *ufid) bool {
	m := Msg{T: tClunk, Fid: f.num}
	before := s.snap(s.home)
	r, ok := s.rpc(m)
	if !ok {
		return false
	}
	if r.T == rError && !s.faulted && s.soft("C14", "refused", "s%d: %v is refused: %q", s.id, m, r.Str) {
		return false
	}
	delete(s.fids, f.num)
	return s.same("C14", m.String(), before, before) && s.held(m.String())
}

func (s *usess) opRemove() {
	f := s.liveFid(func(f *ufid) bool {
		return strings.HasPrefix(f.path, s.home+"/") && (s.known(f) || f.node.Gone && !f.stray && s.fs.At(f.path) == nil)
	})
	if f == nil || s.draw(10) == 0 {
		if num := s.anyFid(); s.fids[num] == nil {
			s.unbound(Msg{T: tRemove, Fid: num})
		}
		return
	}
	s.remove(f)
}

func (s *usess) remove(f *ufid) bool {
	m := Msg{T: tRemove, Fid: f.num}
	_, reach := s.at(f)
	par := s.fs.At(path.Dir(f.path))
	can := reach && par != nil && par.Mode&0300 == 0300 && !(f.node.IsDir() && len(f.node.Kids) > 0) && !f.node.Mount
	before := s.snap(s.home)
	r, ok := s.rpc(m)
	if !ok {
		return false
	}
	want := before.clone()
	delete(s.fids, f.num)
	if r.T == rError {
		if can && !s.faulted && s.soft("C22 C14", "refused", "s%d: %v is refused: %q", s.id, m, r.Str) {
			return false
		}
	} else {
		if !can && s.soft("C22 C14", "accepted", "s%d: %v succeeds though %s cannot be removed", s.id, m, f.path) {
			return false
		}
		delete(want, f.path)
	}
	return s.same("C22", m.String(), want, before) && s.held(m.String())
}

func (s *usess) opStat() {
	f := s.liveFid(func(f *ufid) bool { return s.known(f) })
	if f == nil || s.draw(12) == 0 {
		if num := s.anyFid(); s.fids[num] == nil {
			s.unbound(Msg{T: tStat, Fid: num})
		}
		return
	}
	s.stat(f)
}

func (s *usess) stat(f *ufid) bool {
	m := Msg{T: tStat, Fid: f.num}
	_, reach := s.at(f)
	before := s.snap(s.home)
	r, ok := s.rpc(m)
	if !ok || !s.same("C14", m.String(), before, before) {
		return false
	}
	if r.T == rError {
		if reach && !s.faulted && s.soft("C20 C14", "refused", "s%d: %v is refused: %q", s.id, m, r.Str) {
			return false
		}
		return true
	}
	d, rest, ok := decStat(r.Stat)
	if !ok || len(rest) > 0 {
		s.fail("C20", "stat", "s%d: %v gives an entry that does not decode: %q", s.id, m, r.Stat)
		return false
	}
	if !reach {
		// an implementation that keeps the file may still know
		return true
	}
	name := path.Base(f.path)
	if f.path == s.root {
		name = ""
	}
	return s.truth(fmt.Sprintf("stat of fid %d (%s)", f.num, f.path), d, f.node, name)
}

func (s *usess) opRead() {
	f := s.liveFid(func(f *ufid) bool { return f.open && !f.node.IsDir() || s.draw(10) == 0 && !f.open })
	if f == nil || s.draw(14) == 0 {
		if num := s.anyFid(); s.fids[num] == nil {
			s.unbound(Msg{T: tRead, Fid: num, Count: 10})
		}
		return
	}
	if !f.open {
		s.refused("C14 C21", Msg{T: tRead, Fid: f.num, Count: 16}, "the fid is not open")
		return
	}
	s.read(f, s.offset(f.node), s.count())
}

func (s *usess) offset(f *simos.Node) uint64 {
	n := len(f.Data)
	if f.Hole > 0 && s.draw(3) == 0 {
		return uint64(f.Size()) - uint64(s.draw(n+40)) + uint64(s.draw(4))
	}
	switch s.draw(8) {
	case 0:
		return uint64(n)
	case 1:
		return uint64(n + s.draw(5000))
	case 2:
		return []uint64{1 << 63, 1<<64 - 1, 1<<63 - 1, 1 << 40, 1 << 32, 1<<32 + 1, 1 << 31}[s.draw(7)]
	case 3:
		return 0
	}
	return uint64(s.draw(n + 1))
}

func (s *usess) count() uint32 {
	switch s.draw(8) {
	case 0:
		return 0
	case 1:
		return []uint32{0xffffffff, 0x80000000, 0x7fffffff, 1 << 24, 1<<31 + 1}[s.draw(5)]
	case 2:
		return s.msize
	case 3:
		return s.msize - 24 + uint32(s.draw(30))
	case 4:
		return 1
	}
	return uint32(s.draw(300))
}

func (s *usess) read(f *ufid, off uint64, count uint32) bool {
	m := Msg{T: tRead, Fid: f.num, Off: off, Count: count}
	before := s.snap(s.home)
	data := nodeCont(f.node)
	r, ok := s.rpc(m)
	if !ok || !s.same("C15 C14", m.String(), before, before) {
		return false
	}
	can := f.mode&3 != 1
	if r.T == rError {
		if can && off < 1<<63 && !s.faulted {
			s.fail("C15 C14", "refused", "s%d: %v is refused: %q", s.id, m, r.Str)
			return false
		}
		return true
	}
	if !can && len(r.Data) > 0 {
		s.fail("C15 C14", "accepted", "s%d: %v succeeds though the fid is open for writing only", s.id, m)
		return false
	}
	return s.judgeRead(m, r, off, count, data)
}

func (s *usess) judgeRead(m, r Msg, off uint64, count uint32, data cont) bool {
	if uint64(len(r.Data)) > uint64(count) {
		s.fail("C15", "too-much", "s%d: %v gives %d bytes", s.id, m, len(r.Data))
		return false
	}
	if uint64(len(r.Data))+11 > uint64(s.msize) {
		s.fail("C15", "msize", "s%d: %v gives a message of %d bytes, %d were negotiated", s.id, m, len(r.Data)+11, s.msize)
		return false
	}
	if s.rdFail {
		s.fail("C15", "disk-error", "s%d: the disk fails and %v succeeds with %d bytes (disk faults: %v)", s.id, m, len(r.Data), s.flog)
		return false
	}
	avail := data.from(off, len(r.Data)+1)
	if !strings.HasPrefix(avail, string(r.Data)) {
		s.fail("C15", "wrong-data", "s%d: %v gives %s, the file has %s there (disk faults: %v)", s.id, m, clip(string(r.Data)), clip(avail), s.flog)
		return false
	}
	if len(r.Data) == 0 && count > 0 && avail != "" {
		s.fail("C15", "no-data", "s%d: %v gives nothing, the file has %s there (disk faults: %v)", s.id, m, clip(avail), s.flog)
		return false
	}
	return true
}

func (s *usess) opWrite() {
	f := s.liveFid(func(f *ufid) bool { return f.open && !f.node.IsDir() || s.draw(10) == 0 && !f.open })
	if f == nil || s.draw(14) == 0 {
		if num := s.anyFid(); s.fids[num] == nil {
			s.unbound(Msg{T: tWrite, Fid: num, Data: []byte("x")})
		}
		return
	}
	data := s.s.Bytes(simrt.Op, s.wsize())
	if !f.open {
		s.refused("C14 C21", Msg{T: tWrite, Fid: f.num, Data: data}, "the fid is not open")
		return
	}
	s.write(f, s.offset(f.node), data)
}

func (s *usess) wsize() int {
	n := 0
	switch s.draw(8) {
	case 0:
		n = 0
	case 1:
		n = []int{8192, 8168, 9000, 4096}[s.draw(4)]
	default:
		n = s.draw(70)
	}
	if s.msize > 24 && n > int(s.msize)-24 {
		n = int(s.msize) - 24
	}
	return n
}

func (s *usess) write(f *ufid, off uint64, data []byte) bool {
	m := Msg{T: tWrite, Fid: f.num, Off: off, Data: data}
	before := s.snap(s.home)
	can := f.mode&3 == 1 || f.mode&3 == 2
	fits := off < 1<<62 && off+uint64(len(data)) <= 1<<22
	old := nodeCont(f.node)
	op := s.wrote(f, f.node, hop{off: off, data: data})
	r, ok := s.rpc(m)
	if !ok {
		return false
	}
	want := before.clone()
	now := old
	alts := []cont(nil)
	if r.T == rError {
		if can && fits && !s.faulted && s.soft("C15 C14", "refused", "s%d: %v is refused: %q", s.id, m, r.Str) {
			return false
		}
		if s.faulted && can && fits {
			// an unknown part may have been stored
			for k := 1; k <= len(data); k++ {
				if len(data) > 300 && k != len(data)/2 {
					continue
				}
				alts = append(alts, old.write(off, data[:k]))
			}
		}
	} else {
		if !can && len(data) > 0 {
			s.fail("C15 C14", "accepted", "s%d: %v succeeds though the fid is open for reading only", s.id, m)
			return false
		}
		if s.wrFail && s.soft("C15", "disk-error", "s%d: the disk fails and %v succeeds with %d bytes (disk faults: %v)", s.id, m, r.Count, s.flog) {
			return false
		}
		n := int(int32(r.Count))
		if n < 0 || n > len(data) {
			s.fail("C15", "count", "s%d: %v is acknowledged with %d bytes", s.id, m, n)
			return false
		}
		if !fits && n > 0 {
			s.fail("C15", "count", "s%d: %v is acknowledged though the disk does not take it", s.id, m)
			return false
		}
		if fits || n > 0 {
			now = old.write(off, data[:n])
		}
		if n < len(data) && !s.faulted && s.soft("C15", "count", "s%d: %v is acknowledged with %d of %d bytes", s.id, m, n, len(data)) {
			return false
		}
	}
	// the file itself, even if it has been unlinked or renamed
	if g := nodeCont(f.node); g != now {
		ok := false
		for _, a := range alts {
			ok = ok || a == g
		}
		if !ok && s.soft("C15", "stored", "s%d: after %v, answered by %v, the file contains %s, it should contain %s (disk faults: %v)", s.id, m, r, g, now, s.flog) {
			return false
		}
		now = g
	}
	for k, e := range want {
		if e.n == f.node {
			e.data, e.anyMt = now, true
			want[k] = e
		}
	}
	if r.T != rError {
		op.acked = int(int32(r.Count))
	}
	return s.same("C15", m.String(), want, before)
}

// opWstat changes attributes.
func (s *usess) opWstat() {
	f := s.liveFid(func(f *ufid) bool { return s.known(f) && strings.HasPrefix(f.path, s.home+"/") })
	d := Stat{Type: 0xffff, Dev: noChange, Qid: Qid{0xff, noChange, noLen}, Mode: noChange, Atime: noChange, Mtime: noChange, Length: noLen}
	if f == nil || s.draw(12) == 0 {
		if num := s.anyFid(); s.fids[num] == nil {
			d.Mode = 0
			s.unbound(Msg{T: tWstat, Fid: num, Stat: encStat(d)})
		}
		return
	}
	if s.draw(2) == 0 {
		d.Mode = uint32([]int{0644, 0666, 0600, 0444, 0222, 0777, 0700, 0}[s.draw(8)])
		if f.node.IsDir() {
			d.Mode |= dmdir
		}
		d.Mode |= s.oddBits()
	}
	if s.draw(2) == 0 {
		d.Name = s.newName()
		if s.draw(4) == 0 {
			// absolute: anywhere in the session's part
			var ds []string
			for k, e := range s.snap(s.home) {
				if e.dir {
					ds = append(ds, k)
				}
			}
			sort.Strings(ds)
			d.Name = strings.TrimPrefix(ds[s.draw(len(ds))], s.root) + "/" + d.Name
		} else if s.draw(6) == 0 {
			d.Name = path.Base(f.path)
		}
	}
	if s.draw(3) == 0 {
		d.Length = []uint64{0, uint64(f.node.Size()), uint64(s.draw(100)), uint64(s.draw(9000)), 1 << 40, 1 << 63, 1<<32 + uint64(s.draw(9)), 1 << 23, 1<<64 - 2}[s.draw(9)]
	}
	if s.draw(3) == 0 {
		d.Mtime = uint32([]int{0, 1, 1000000000, 1 << 31, 1500000000, 0xfffffffe}[s.draw(6)])
	}
	if s.draw(4) == 0 {
		d.Atime = uint32([]int{0, 7, 1200000000, 0xfffffffe}[s.draw(4)])
	}
	switch s.draw(10) {
	case 0:
		d.Uid = "root"
	case 1:
		d.Gid = "wheel"
	}
	s.wstat(f, d)
}

func (s *usess) wstat(f *ufid, d Stat) bool {
	m := Msg{T: tWstat, Fid: f.num, Stat: encStat(d)}
	desc := fmt.Sprintf("wstat of fid %d (%s)", f.num, f.path)
	if d.Mode != noChange {
		desc += fmt.Sprintf(" mode %#o", d.Mode)
	}
	if d.Name != "" {
		desc += fmt.Sprintf(" name %q", d.Name)
	}
	if d.Length != noLen {
		desc += fmt.Sprintf(" length %d", d.Length)
	}
	if d.Mtime != noChange {
		desc += fmt.Sprintf(" mtime %d", d.Mtime)
	}
	if d.Atime != noChange {
		desc += fmt.Sprintf(" atime %d", d.Atime)
	}
	if d.Uid != "" || d.Gid != "" {
		desc += fmt.Sprintf(" owner %q %q", d.Uid, d.Gid)
	}
	s.logf("s%d %s", s.id, desc)
	_, reach := s.at(f)
	before := s.snap(s.home)
	null := d.Mode == noChange && d.Name == "" && d.Length == noLen && d.Mtime == noChange && d.Atime == noChange && d.Uid == "" && d.Gid == ""

	newp := f.path
	if d.Name != "" {
		newp = path.Join(path.Dir(f.path), d.Name)
		if path.IsAbs(d.Name) {
			newp = path.Join(s.root, d.Name)
		}
	}
	// refused outright
	refuse := ""
	if d.Uid != "" || d.Gid != "" {
		refuse = "an owner or group is given"
	}
	if n, err := s.fs.Lookup(newp, true); d.Name != "" && err == nil && n.IsDir() {
		refuse = "the new name is a directory"
	}
	// can it be done
	can := reach || null && f.open || null
	if !null && !reach {
		can = false
	}
	perm := f.node.Mode &^ os.ModeType
	if d.Mode != noChange {
		perm = os.FileMode(d.Mode & 0777)
	}
	if d.Name != "" && can {
		od := s.fs.At(path.Dir(f.path))
		ndp := path.Dir(newp)
		nd, err := s.fs.Lookup(ndp, true)
		// a directory whose permissions are changed by the request before it is
		// renamed cannot hold its own new name, so only the two parents count
		if err != nil || !nd.IsDir() || nd.Mode&0300 != 0300 || od.Mode&0300 != 0300 {
			can = can && newp == f.path && err == nil
		}
		if f.node.IsDir() && strings.HasPrefix(newp, f.path+"/") {
			can = false
		}
		if err == nil && nd.Dev != od.Dev || f.node.Mount {
			can = false
		}
		// a directory that moves has its .. changed
		if f.node.IsDir() && path.Dir(newp) != path.Dir(f.path) && perm&0200 == 0 {
			can = false
		}
		if e, ok := before[newp]; ok && f.node.IsDir() && !e.dir {
			can = false
		}
		if len(path.Base(newp)) > 255 {
			can = false
		}
	}
	if d.Length != noLen && can {
		if f.node.IsDir() || d.Length > uint64(s.fs.MaxLen()) || perm&0200 == 0 {
			can = false
		}
	}
	if d.Length != noLen && d.Length <= 1<<22 {
		s.wrote(nil, f.node, hop{trunc: true, off: d.Length})
	}
	during := [4]time.Time{s.fs.Clock(), {}, simtime.Now(), {}}
	r, ok := s.rpc(m)
	if !ok {
		return false
	}
	during[1], during[3] = s.fs.Clock(), simtime.Now()
	if r.T == rError {
		s.unsynced(f.node)
	}
	if null && r.T != rError && f.open && (f.mode&3 == 1 || f.mode&3 == 2) {
		if !s.synced(f) {
			return false
		}
	}
	if r.T != rError && refuse != "" {
		s.fail("C18", "accepted", "s%d: %s succeeds though %s", s.id, desc, refuse)
		return false
	}
	if r.T == rError {
		if refuse != "" {
			return s.same("C18", desc+", refused,", before, before)
		}
		if can && !s.faulted && s.soft("C18 C19 C14", "refused", "s%d: %s is refused: %q", s.id, desc, r.Str) {
			return false
		}
		// what was done before the failure stays within what was asked
		want := before.clone()
		got := s.snap(s.home)
		moved := f.path
		if d.Name != "" && reach {
			if g, ok := got[newp]; ok && g.n == f.node && newp != f.path {
				s.move(want, f.path, newp)
				moved = newp
			}
		}
		e := want[moved]
		if g, ok := got[moved]; ok && g.n == f.node {
			if d.Mode != noChange && g.perm == os.FileMode(d.Mode&0777) {
				e.perm = g.perm
			}
			if d.Length != noLen && !e.dir {
				e.anyMt = true
				if d.Length <= uint64(s.fs.MaxLen()) {
					e.alt = append(e.alt, e.data.resize(d.Length))
				}
			}
			if d.Mtime != noChange {
				e.anyMt = true
			}
			if d.Atime != noChange {
				e.anyAt = true
			}
			want[moved] = e
		}
		if !s.same("C18", desc+", which failed,", want, before) {
			return false
		}
		if moved != f.path {
			f.path = moved
		}
		if d.Mtime != noChange {
			s.mtset[f.node] = true
		}
		return s.held(desc)
	}
	if !can {
		s.fail("C18", "accepted", "s%d: %s succeeds though it cannot be done", s.id, desc)
		return false
	}
	want := before.clone()
	if d.Name != "" && newp != f.path {
		s.move(want, f.path, newp)
	}
	if !null {
		e := want[newp]
		if d.Mode != noChange {
			e.perm = os.FileMode(d.Mode & 0777)
		}
		if d.Length != noLen {
			e.data = e.data.resize(d.Length)
			e.anyMt, e.during = true, &during
		}
		if d.Mtime != noChange {
			e.mt, e.anyMt = time.Unix(int64(d.Mtime), 0), false
			s.mtset[f.node] = true
		}
		if d.Atime != noChange {
			e.at = time.Unix(int64(d.Atime), 0)
		}
		want[newp] = e
	}
	if d.Name != "" {
		f.path = newp
	}
	// a directory's times are compared too when they were given
	if !s.same("C18", desc, want, before) {
		return false
	}
	if d.Mtime != noChange && f.node.IsDir() && f.node.Mtime.Unix() != int64(d.Mtime) {
		s.fail("C18", "tree", "s%d: after %s the directory's modification time is %d", s.id, desc, f.node.Mtime.Unix())
		return false
	}
	return s.held(desc)
}

// move renames in the model.
func (s *usess) move(want snap, from, to string) {
	for _, k := range want.keys() {
		if k == from || strings.HasPrefix(k, from+"/") {
			e := want[k]
			delete(want, k)
			want[to+k[len(from):]] = e
		}
	}
}

func (s *usess) opFlush() {
	m := Msg{T: tFlush, Oldtag: uint16(s.draw(10))}
	before := s.snap(s.home)
	if r, ok := s.rpc(m); ok {
		if r.T == rError {
			s.fail("C14", "refused", "s%d: %v is refused: %q", s.id, m, r.Str)
			return
		}
		s.same("C14", m.String(), before, before)
	}
}

// step makes one request.
func (s *usess) step() {
	for _, f := range s.fids {
		at := s.fs.At(f.path)
		if f.node.Gone && (at != nil || s.fs.At(path.Dir(f.path)) == nil) || !f.node.Gone && at != f.node {
			f.stray = true
		}
	}
	switch s.s.Weighted(simrt.Op, s.wts...) {
	case 0:
		s.opWalk()
	case 1:
		s.opOpen()
	case 2:
		s.opCreate()
	case 3:
		s.opClunk()
	case 4:
		s.opRemove()
	case 5:
		s.opStat()
	case 6:
		s.opRead()
	case 7:
		s.opWrite()
	case 8:
		s.opWstat()
	case 9:
		s.opAttach()
	case 10:
		s.opFlush()
	case 11:
		s.opDir()
	case 12:
		s.opSync()
	case 13:
		s.opProbe()
	case 14:
		s.opVersion()
	case 15:
		s.opDisplace()
	case 16:
		s.opOthers()
	}
}

// opOthers: another program on the machine makes, changes or removes a file
// in the session's part of the tree.
func (s *usess) opOthers() {
	if s.is("C13 C19") {
		return // the requests must say it all, and nobody asks for durability
	}
	switch s.draw(4) {
	case 0, 1: // where a walk found nothing a moment ago
		d := s.liveFid(func(d *ufid) bool {
			return !d.open && s.known(d) && d.node.IsDir() && s.inHome(d) && len(d.path) < 200
		})
		if d == nil {
			return
		}
		name := []string{"nothere", fmt.Sprintf("f%d", s.draw(6)), fmt.Sprintf("n%d", s.draw(12))}[s.draw(3)]
		p := path.Join(d.path, name)
		if s.fs.At(p) != nil {
			return
		}
		num := uint32(20)
		for s.fids[num] != nil {
			num++
		}
		try := func() *ufid {
			s.walk(d.num, num, []string{name})
			if s.s.Failed() || s.dead {
				return nil
			}
			return s.fids[num]
		}
		for i := s.draw(3); i > 0; i-- {
			if f := try(); f != nil || s.s.Failed() || s.dead {
				return
			}
		}
		if s.fs.At(d.path) != d.node || s.fs.At(p) != nil {
			return
		}
		if s.draw(4) == 0 {
			s.fs.Put(p, os.ModeDir|0755, nil)
		} else {
			s.fs.Put(p, 0644, s.s.Bytes(simrt.Op, s.draw(60)))
		}
		s.s.Count("probe:appeared")
		f := try()
		if f == nil {
			return
		}
		if s.stat(f) && !s.s.Failed() && !s.dead && s.draw(3) > 0 {
			s.clunk(f)
		}
	case 2: // the contents of a file
		f := s.liveFid(func(f *ufid) bool { return s.known(f) && !f.node.IsDir() && s.inHome(f) && f.node.Hole == 0 })
		if f == nil {
			return
		}
		if s.draw(2) == 0 && !s.stat(f) {
			return
		}
		if s.s.Failed() || s.dead || s.fids[f.num] != f || f.node.Hole != 0 {
			return
		}
		data := append([]byte(nil), f.node.Data...)
		switch k := s.draw(4); {
		case k == 0 || len(data) == 0:
			data = append(data, s.s.Bytes(simrt.Op, 1+s.draw(40))...)
		case k == 1:
			data = data[:s.draw(len(data))]
		default:
			data[s.draw(len(data))] ^= 1
		}
		s.fs.Alter(f.node, data)
		delete(s.hist, f.node) // what was written before is no more
		s.s.Count("probe:altered")
		if f.open && s.draw(2) == 0 {
			s.read(f, s.offset(f.node), s.count())
		} else {
			s.stat(f)
		}
	case 3: // a file goes
		f := s.liveFid(func(f *ufid) bool {
			return s.known(f) && !f.node.IsDir() && s.inHome(f) && s.fs.At(f.path) == f.node
		})
		if f == nil {
			return
		}
		s.fs.Del(f.path)
		s.s.Count("probe:vanished")
		switch s.draw(3) {
		case 0:
			s.stat(f)
		case 1:
			if f.open {
				s.read(f, s.offset(f.node), s.count())
			}
		}
	}
}

// opDisplace takes a file away from the name it was opened by, mostly puts
// another one there, and goes on using the open fid.
func (s *usess) opDisplace() {
	f := s.liveFid(func(f *ufid) bool {
		return f.open && !f.node.IsDir() && strings.HasPrefix(f.path, s.home+"/") && s.known(f)
	})
	if f == nil {
		return
	}
	num := uint32(20)
	for s.fids[num] != nil {
		num++
	}
	// to gives a second way to the directory, or to a file in it.
	to := func(p string) *ufid {
		d := s.liveFid(func(d *ufid) bool {
			return !d.open && s.known(d) && d.node.IsDir() && s.inHome(d) && (p == d.path || strings.HasPrefix(p, d.path+"/"))
		})
		if d == nil {
			return nil
		}
		var names []string
		if p != d.path {
			names = strings.Split(p[len(d.path)+1:], "/")
		}
		s.walk(d.num, num, names)
		if x := s.fids[num]; x != nil && x.path == p {
			return x
		}
		return nil
	}
	p := f.path
	how := s.draw(4)
	if how == 2 { // another file takes its name
		var o *simos.Node
		par := s.fs.At(path.Dir(p))
		for _, k := range par.Names() {
			if n := par.Kids[k].N; n != f.node && !n.IsDir() && s.draw(2) == 0 {
				o = n
				p = path.Join(path.Dir(p), k)
				break
			}
		}
		if o == nil {
			how = 1
		}
	}
	x := to(p)
	if x == nil || s.s.Failed() {
		return
	}
	done := false
	switch how {
	case 0:
		done = s.remove(x)
	case 1, 2:
		d := nullStat
		d.Name = "away"
		if how == 2 {
			d.Name = path.Base(f.path)
		}
		done = s.wstat(x, d)
		if c := s.fids[num]; done && c != nil {
			done = s.clunk(c)
		}
	case 3: // the directory goes
		if done = s.clunk(x); !done {
			return
		}
		if path.Dir(p) == s.home {
			return
		}
		if x = to(path.Dir(p)); x == nil {
			return
		}
		d := nullStat
		d.Name = "gone"
		done = s.wstat(x, d)
		if c := s.fids[num]; done && c != nil {
			done = s.clunk(c)
		}
	}
	if !done || s.s.Failed() || s.dead {
		return
	}
	if how < 2 && s.draw(4) > 0 && s.fids[num] == nil {
		if x := to(path.Dir(p)); x != nil && s.create(x, path.Base(p), 0644, 1) {
			if c := s.fids[num]; c != nil && s.draw(2) == 0 {
				s.clunk(c)
			}
		}
	}
	if s.s.Failed() || s.dead || s.fids[f.num] != f || !f.open {
		return
	}
	s.s.Count("probe:displaced")
	for i := 1 + s.draw(3); i > 0 && !s.s.Failed() && !s.dead; i-- {
		var ok bool
		switch s.draw(4) {
		case 0:
			ok = s.read(f, s.offset(f.node), s.count())
		case 1, 2:
			ok = s.write(f, s.offset(f.node), s.s.Bytes(simrt.Op, 1+s.draw(40)))
			if ok && s.draw(2) == 0 {
				ok = s.wstat(f, nullStat)
			}
		case 3:
			ok = s.wstat(f, nullStat)
		}
		if !ok {
			return
		}
	}
}

// opVersion negotiates anew in the middle of the session; the fids stay.
func (s *usess) opVersion() {
	m := Msg{T: tVersion, Msize: []uint32{8192, 8000, 256, 512, 65536, 1 << 20, 1 << 22, 0xffffffff, 1024, 24, 23, 1, 0}[s.draw(13)], Str: "9P2000"}
	switch s.draw(8) {
	case 0:
		m.Str = "9P1999"
	case 1:
		m.Str = ""
	}
	before := s.snap(s.home)
	r, ok := s.rpc(m)
	if !ok {
		return
	}
	if r.T != rError {
		s.s.Count("probe:version-again")
		if r.Msize > m.Msize {
			s.fail("C15", "msize", "s%d: asked for messages of at most %d bytes the server grants %d", s.id, m.Msize, r.Msize)
			return
		}
		if m.Str == "9P2000" {
			s.msize = r.Msize
		}
	}
	if s.same("C14 C22", m.String(), before, before) {
		s.held(m.String())
	}
}

// weights: walk open create clunk remove stat read write wstat attach flush dir
// sync probe version displace others
func profile(prop string) []int {
	switch prop {
	case "C10":
		return []int{7, 5, 5, 4, 2, 3, 4, 5, 2, 3, 1, 2, 0, 9, 1, 1, 1}
	case "C19":
		return []int{6, 8, 4, 3, 1, 0, 1, 16, 3, 0, 0, 0, 16, 0, 1, 4}
	case "C15":
		return []int{5, 7, 4, 2, 1, 0, 14, 14, 2, 0, 0, 0, 0, 0, 2, 2, 1}
	case "C18":
		return []int{5, 3, 3, 1, 1, 3, 2, 2, 14, 0, 0, 0, 1, 0, 0, 1, 1}
	case "C20":
		return []int{7, 5, 4, 2, 2, 8, 1, 6, 5, 2, 0, 2, 0, 0, 0, 0, 2}
	case "C21":
		return []int{8, 10, 8, 5, 3, 0, 1, 1, 1, 2, 0, 1, 0, 0, 1, 2, 1}
	case "C22":
		return []int{8, 2, 14, 2, 8, 1, 1, 2, 2, 0, 0, 0}
	}
	return []int{9, 6, 5, 4, 3, 4, 4, 4, 3, 3, 1, 1, 1, 1, 1, 1, 1}
}

// opDir lists a directory that nobody else touches.
func (s *usess) opDir() {
	f := s.liveFid(func(f *ufid) bool { return f.open && f.node.IsDir() && s.known(f) && f.path != s.root })
	if f == nil {
		return
	}
	got := map[string]bool{}
	off := uint64(0)
	due := false
	for n := 0; n < 200; n++ {
		r, ok := s.rpc(Msg{T: tRead, Fid: f.num, Off: off, Count: 1000})
		if !ok {
			return
		}
		due = due || s.faulted
		if r.T == rError {
			room := true
			for _, k := range f.node.Names() {
				room = room && 49+len(k)+40 <= 1000 && 49+len(k)+40+24 <= int(s.msize)
			}
			if !due && room && f.node.Mode&0500 == 0500 {
				s.fail("C16 C14", "refused", "s%d: reading directory %s fails: %q", s.id, f.path, r.Str)
			}
			return
		}
		if len(r.Data) == 0 {
			for _, k := range f.node.Names() {
				if !got[k] {
					s.fail("C16", "missing", "s%d: listing %s leaves out %q", s.id, f.path, k)
					return
				}
			}
			return
		}
		off += uint64(len(r.Data))
		b := r.Data
		for len(b) > 0 {
			d, rest, ok := decStat(b)
			if !ok {
				s.fail("C16", "entry", "s%d: listing %s gives entries that do not decode", s.id, f.path)
				return
			}
			b = rest
			k, here := f.node.Kids[d.Name]
			if !here {
				s.fail("C16 C20", "stranger", "s%d: listing %s gives %q, which is not there", s.id, f.path, d.Name)
				return
			}
			if got[d.Name] {
				s.fail("C16", "twice", "s%d: listing %s gives %q twice", s.id, f.path, d.Name)
				return
			}
			got[d.Name] = true
			if !s.truth("listing "+f.path, d, k.N, d.Name) {
				return
			}
		}
	}
	s.fail("C16", "endless", "s%d: listing %s does not end", s.id, f.path)
}

const uBudget = 400000

// end ends the session's connection in one of many ways.
func (s *usess) end() {
	s.ending = true
	how := s.draw(7)
	if s.real && how > 1 {
		how = []int{0, 1, 5}[how%3]
	}
	switch how {
	case 0:
		for _, f := range s.sorted() {
			if !s.clunk(f) {
				return
			}
		}
		s.cl.Close()
	case 1:
		s.s.Count("fault:conn-close")
		s.cl.Close()
	case 2:
		s.s.Count("fault:conn-half-close")
		s.cl.CloseWrite()
		readFrame(s.cl)
	case 3: // in the middle of a request
		s.s.Count("fault:conn-cut-in-request")
		b := enc(Msg{T: tStat, Tag: 1, Fid: 1}, nil)
		s.cl.Write(b[:1+s.draw(len(b)-1)])
		s.cl.Close()
	case 4: // a request whose reply nobody reads
		s.s.Count("fault:conn-close-before-reply")
		num := uint32(40)
		b := enc(Msg{T: tWalk, Tag: 1, Fid: 1, Fid2: num}, nil)
		b = append(b, enc(Msg{T: tOpen, Tag: 2, Fid: num}, nil)...)
		s.cl.Write(b)
		s.cl.Close()
	case 5:
		s.s.Count("fault:conn-reset")
		s.sv.rd.rerr = errReset
		s.sv.wr.werr = errReset
	case 6: // garbage
		s.s.Count("fault:conn-garbage")
		s.cl.Write([]byte{3, 0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9})
		s.cl.CloseWrite()
	}
	s.logf("s%d ends", s.id)
}

var errReset = &netError{msg: "connection reset by peer"}

// runU is the general run.
func runU(w *W) {
	debug := w.is("C13 C21") && w.cfg(2) == 1
	roots := []string{"/srv/export", "/srv/export", "/", "/srv/export/", "srv/export", "."}
	u := w.newU(roots[w.cfg(6)], debug)
	u.fs.Big = w.cfg(3) == 1
	n := 1 + w.cfg(3)
	var homes []string
	for i := 0; i < n; i++ {
		homes = append(homes, path.Join(u.root, fmt.Sprintf("s%d", i+1)))
	}
	for _, h := range homes {
		u.newSession(h).populate()
	}
	u.listen(nil)
	if w.cfg(3) > 0 || w.is("C14 C20") && w.cfg(2) == 0 {
		// no faults
	} else {
		u.arm(4 + w.cfg(12))
	}
	crowds := 0
	for _, s := range u.sess {
		s := s
		s.wts = profile(w.prop)
		s.real = w.cfg(4) == 1
		k := 5 + w.cfg(30)
		crowd := 0
		if w.is("C14 C21") {
			crowd = w.crowd(60, 2600)
			crowds += crowd
		}
		w.task(fmt.Sprintf("s%d", s.id), func() {
			u.l.Accept(s.sv)
			s.calm = true
			if !s.start() {
				return
			}
			if crowd > 0 && !s.gather(crowd) {
				return
			}
			s.calm = false
			for i := 0; i < k && !w.s.Failed() && !s.dead; i++ {
				s.step()
			}
			if !w.s.Failed() {
				s.end()
			}
		})
	}
	if !w.settle(uBudget + 2000*crowds) {
		if !w.s.Failed() {
			w.fail("*", "hang", "a session gets no reply (%s)", w.s.Blocked())
		}
		return
	}
	if !w.idle(uBudget + 2000*crowds) {
		if !w.s.Failed() {
			w.fail("*", "hang", "the server does not come to rest (%s)", w.s.Blocked())
		}
		return
	}
	if h := u.fs.HandleNames(); len(h) > 0 {
		w.fail("C21", "handles-after-end", "all connections have ended and the server still holds open %v", h)
		return
	}
	if len(u.fs.Outside) > 0 {
		w.fail("C17", "outside", "the server goes outside %s: %v", u.root, u.fs.Outside)
	}
}

func init() {
	for _, p := range []string{"C14", "C15", "C18", "C20", "C21", "C22"} {
		register(p, scenario{"sessions", 3, runU})
	}
}
