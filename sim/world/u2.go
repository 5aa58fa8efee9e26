package world

import (
	"fmt"
	"os"
	"path"
	"sort"
	"strings"

	"github.com/Harvey-OS/ninep/sim/simos"
	"github.com/Harvey-OS/ninep/sim/simrt"
)

var nullStat = Stat{Type: 0xffff, Dev: noChange, Qid: Qid{0xff, noChange, noLen}, Mode: noChange, Atime: noChange, Mtime: noChange, Length: noLen}

// ---------------------------------------------------------------- durability

// hop is a change to a file's contents: off is the new size if it is a
// truncation.
type hop struct {
	seq   int
	f     *ufid
	off   uint64
	data  []byte
	trunc bool
	acked int // bytes acknowledged
}

// hfile is the history of a file, and which fids have been synced when.
type hfile struct {
	ops   []*hop
	syncs map[*ufid]int
	order []*ufid
}

func (u *uworld) histOf(n *simos.Node) *hfile {
	h := u.hist[n]
	if h == nil {
		h = &hfile{syncs: map[*ufid]int{}}
		u.hist[n] = h
	}
	return h
}

// wrote notes a change that is about to be asked for.
func (s *usess) wrote(f *ufid, n *simos.Node, o hop) *hop {
	s.seq++
	o.seq, o.f = s.seq, f
	h := s.histOf(n)
	h.ops = append(h.ops, &o)
	return &o
}

// synced notes that everything acknowledged through the fid is to be durable.
// The machine may crash at this very moment and lose all that is not.
func (s *usess) synced(f *ufid) bool {
	s.seq++
	h := s.histOf(f.node)
	if _, ok := h.syncs[f]; !ok {
		h.order = append(h.order, f)
	}
	h.syncs[f] = s.seq
	s.s.Count("probe:synced")
	return s.durable(f.node, f.node.Durable(), fmt.Sprintf("s%d: a crash right after the null wstat of fid %d (disk faults: %v)", s.id, f.num, s.flog))
}

// unsynced notes that a request to make a file's contents durable has
// failed: what was not made durable before it may be lost for good.
func (u *uworld) unsynced(n *simos.Node) {
	if !u.fs.SyncLoses {
		return
	}
	h := u.histOf(n)
	for _, o := range h.ops {
		if t, ok := h.syncs[o.f]; !ok || o.seq > t {
			o.acked = 0
		}
	}
}

// durable holds what a crash has left of a file against what was synced.
func (u *uworld) durable(n *simos.Node, left []byte, when string) bool {
	h := u.hist[n]
	if h == nil {
		return true
	}
	for _, f := range h.order {
		t := h.syncs[f]
		for k, o := range h.ops {
			if o.f != f || o.seq > t || o.acked == 0 {
				continue
			}
			for j := 0; j < o.acked; j++ {
				i := o.off + uint64(j)
				ok := i < uint64(len(left)) && left[i] == o.data[j]
				for _, p := range h.ops[k+1:] {
					if ok {
						break
					}
					if p.trunc {
						ok = i >= p.off && (i >= uint64(len(left)) || left[i] == 0)
					} else if i >= p.off && i < p.off+uint64(len(p.data)) {
						ok = i < uint64(len(left)) && left[i] == p.data[i-p.off]
					}
				}
				if !ok {
					what := "nothing"
					if i < uint64(len(left)) {
						what = fmt.Sprintf("%#02x", left[i])
					}
					u.fail("C19", "lost", "%s: byte %d of the file was written as %#02x through fid %d and synced; the crash leaves %s", when, i, o.data[j], f.num, what)
					return false
				}
			}
		}
	}
	return true
}

// opSync makes a null wstat.
func (s *usess) opSync() {
	f := s.liveFid(func(f *ufid) bool { return f.open && !f.node.IsDir() && (f.mode&3 == 1 || f.mode&3 == 2) })
	if f == nil || s.draw(10) == 0 {
		f = s.liveFid(func(f *ufid) bool { return strings.HasPrefix(f.path, s.home+"/") })
	}
	if f != nil {
		s.wstat(f, nullStat)
	}
}

// runCrash: sessions write and sync until the machine crashes.
func runCrash(w *W) {
	u := w.newU([]string{"/srv/export", "/"}[w.cfg(2)], false)
	for i := 1 + w.cfg(2); i > 0; i-- {
		u.newSession(path.Join(u.root, fmt.Sprintf("s%d", i))).populate()
	}
	u.listen(nil)
	switch w.cfg(3) {
	case 1:
		u.arm(4 + w.cfg(12))
	case 2:
		u.faultOnly = "sync"
		u.arm(2 + w.cfg(3))
	}
	u.fs.SyncLoses = w.cfg(2) == 1
	for _, s := range u.sess {
		s := s
		s.wts = profile("C19")
		k := 5 + w.cfg(40)
		w.task(fmt.Sprintf("s%d", s.id), func() {
			u.l.Accept(s.sv)
			s.calm = true
			if !s.start() {
				return
			}
			s.calm = false
			for i := 0; i < k && !w.s.Failed() && !s.dead && !u.down; i++ {
				s.step()
			}
			if !w.s.Failed() && !u.down {
				s.end()
			}
		})
	}
	at := w.fdraw(250)
	crash := func() {
		w.s.Count("fault:crash")
		w.logf("the machine crashes")
		u.fs.Crash(func(n int) int {
			if w.fdraw(2) == 0 {
				return 0
			}
			return w.fdraw(n)
		}, func(n int) int { return w.fdraw(n + 1) })
		u.down = true
		var ns []*simos.Node
		for _, e := range u.snap(u.root) {
			ns = append(ns, e.n)
		}
		sort.Slice(ns, func(i, j int) bool { return ns[i].Dev < ns[j].Dev || ns[i].Dev == ns[j].Dev && ns[i].Ino < ns[j].Ino })
		for _, n := range ns {
			if !n.IsDir() && !u.durable(n, n.Data, "after the crash") {
				return
			}
		}
	}
	simrt.Go("crash", func() {
		simrt.Park("crash", func() bool { return u.fs.Ops >= at })
		if !w.s.Failed() && !u.down {
			crash()
		}
	})
	o := w.s.Run(uBudget, func() bool { return u.down || w.left == 0 })
	if o == simrt.Failed {
		return
	}
	if o != simrt.Until {
		w.fail("*", "hang", "a session gets no reply (%s)", w.s.Blocked())
		return
	}
	if !u.down {
		crash()
	}
}

// ---------------------------------------------------------------- isolation

// opProbe uses a fid that only other sessions have.
func (s *usess) opProbe() {
	var c []uint32
	for _, o := range s.sess {
		for _, f := range o.sorted() {
			if s.fids[f.num] == nil {
				c = append(c, f.num)
			}
		}
	}
	if len(c) == 0 {
		return
	}
	num := c[s.draw(len(c))]
	d := nullStat
	d.Mode = 0777
	ms := []Msg{
		{T: tClunk, Fid: num}, {T: tStat, Fid: num}, {T: tRead, Fid: num, Count: 100}, {T: tWrite, Fid: num, Data: []byte("probe")},
		{T: tOpen, Fid: num, Mode: s.omode()}, {T: tRemove, Fid: num}, {T: tWalk, Fid: num, Fid2: 77}, {T: tWalk, Fid: num, Fid2: num, Names: []string{"f1"}},
		{T: tWstat, Fid: num, Stat: encStat(d)}, {T: tWstat, Fid: num, Stat: encStat(nullStat)}, {T: tCreate, Fid: num, Str: "probe", Perm: 0644, Mode: 1},
	}
	s.s.Count("probe:fid-of-another-session")
	s.unbound(ms[s.draw(len(ms))])
}

// alone makes the session's requests again with nobody else there and tells
// whether the last one goes as it went before.
func (u *uworld) alone(s *usess, begin snap) (string, bool) {
	w := u.W
	fs := simos.NewFS(0)
	fs.Export = u.root
	for _, k := range begin.keys() {
		e := begin[k]
		m := e.perm
		if e.dir {
			m |= os.ModeDir
		}
		fs.Put(k, m, []byte(e.data.from(0, int(e.data.size))))
	}
	simos.Use(fs)
	v := &uworld{W: w, fs: fs, root: u.root}
	v.listen(nil)
	cl, sv := w.newConn("alone")
	var last Msg
	same := true
	n := 0
	simrt.Go("alone", func() {
		v.l.Accept(sv)
		for i, x := range s.script {
			if _, err := cl.Write(enc(x.q, nil)); err != nil {
				same = false
				return
			}
			f, err := readFrame(cl)
			if err != nil {
				same = false
				return
			}
			r, ok := dec(f)
			n++
			if i == len(s.script)-1 {
				last = r
				same = ok && r.T == x.r.T && r.Count == x.r.Count && string(r.Data) == string(x.r.Data) && len(r.Qids) == len(x.r.Qids) && r.Str == x.r.Str
			}
		}
	})
	w.s.Run(uBudget, nil)
	if n < len(s.script) {
		return "no reply", false
	}
	if !same {
		return last.String(), false
	}
	// the trees
	a, b := u.snap(s.home), v.snap(s.home)
	for _, k := range a.keys() {
		x, y := a[k], b[k]
		if y.n == nil || x.dir != y.dir || x.perm != y.perm || x.data != y.data {
			return fmt.Sprintf("%s is different", k), false
		}
	}
	if len(a) != len(b) {
		return "files are missing or extra", false
	}
	return "", true
}

// runUIso: sessions over ufs beside bad ones.
func runUIso(w *W) {
	u := w.newU([]string{"/srv/export", "/"}[w.cfg(2)], false)
	good := 1 + w.cfg(3)
	bad := w.cfg(3)
	prof := []string{"C10", "C10", "C15", "C20"}[w.cfg(4)]
	begin := map[*usess]snap{}
	kinds := map[*usess]string{}
	mk := func(i int) *usess {
		s := u.newSession(path.Join(u.root, fmt.Sprintf("s%d", i)))
		s.populate()
		begin[s] = u.snap(s.home)
		s.wts = profile(prof)
		return s
	}
	for i := 1; i <= good; i++ {
		mk(i)
	}
	goods := u.sess
	var bads []*usess
	for i := 0; i < bad; i++ {
		b := mk(100 + i)
		kinds[b] = []string{"stop-reading", "slow-disk", "garbage", "break", "silent"}[w.fdraw(5)]
		w.s.Count("fault:conn-" + kinds[b])
		w.logf("s%d is bad: %s", b.id, kinds[b])
		bads = append(bads, b)
	}
	u.listen(nil)
	open := false
	u.fs.StallFor = func(op, p string) func() bool {
		p = path.Join("/", p)
		s := u.under(p)
		if open || s == nil || kinds[s] != "slow-disk" || !s.busy || s.nreq < 4 {
			return nil
		}
		w.s.Count("fault:disk-stall")
		w.logf("disk stalls: %s %s", op, p)
		return func() bool { return open }
	}
	run := func(s *usess, k int) func() {
		return func() {
			u.l.Accept(s.sv)
			if !s.start() {
				return
			}
			for i := 0; i < k && !w.s.Failed() && !s.dead; i++ {
				s.step()
			}
		}
	}
	for _, b := range bads {
		b := b
		if kinds[b] == "stop-reading" {
			b.sv.wr.cap = 1 + w.fdraw(16)
		}
		simrt.Go(fmt.Sprintf("bad s%d", b.id), func() {
			u.l.Accept(b.sv)
			b.start()
			switch kinds[b] {
			case "stop-reading":
				for i := 0; i < 20; i++ {
					b.cl.Write(enc(Msg{T: tStat, Tag: uint16(100 + i), Fid: 1}, nil))
				}
			case "slow-disk":
				for i := 0; i < 10 && !w.s.Failed(); i++ {
					b.step()
				}
			case "garbage":
				b.cl.Write(w.s.Bytes(simrt.Fault, 1+w.fdraw(60)))
				if w.fdraw(2) == 0 {
					b.cl.CloseWrite()
				}
			case "break":
				x := enc(Msg{T: tWalk, Tag: 9, Fid: 1, Fid2: 50}, nil)
				b.cl.Write(x[:w.fdraw(len(x))])
				if w.fdraw(2) == 0 {
					b.cl.Close()
				} else {
					b.sv.rd.rerr, b.sv.wr.werr = errReset, errReset
				}
			}
		})
	}
	for _, s := range goods {
		w.task(fmt.Sprintf("s%d", s.id), run(s, 5+w.cfg(25)))
	}
	judge := func() {
		// what went wrong is a matter of isolation if it goes well alone
		why := w.s.Other
		if why == "" || !w.is("C10") || len(u.sess) < 2 {
			return
		}
		var s *usess
		for _, x := range u.sess {
			if strings.Contains(why, fmt.Sprintf(": s%d: ", x.id)) {
				s = x
			}
		}
		if s == nil || kinds[s] != "" {
			return
		}
		w.s.Other = ""
		u.down = true
		if what, same := u.alone(s, begin[s]); !same && w.s.Violation() == nil {
			w.s.Other = ""
			w.fail("C10", "altered", "beside other connections %s; with nobody else on the server: %s", why, what)
			return
		}
		if w.s.Violation() == nil {
			w.s.Other = why
		}
	}
	ok := w.settle(uBudget)
	if w.s.Failed() {
		judge()
		return
	}
	if !ok {
		w.fail("C10", "blocked", "a session gets no reply beside bad connections %v (%s)", kindList(kinds), w.s.Blocked())
		return
	}
	// one more arrives
	s := mk(50)
	w.task("late", run(s, 3+w.cfg(5)))
	ok = w.settle(uBudget)
	if w.s.Failed() {
		judge()
		return
	}
	if !ok {
		w.fail("C10", "blocked", "a new connection gets no service beside bad connections %v (%s)", kindList(kinds), w.s.Blocked())
		return
	}
	open = true
	w.idle(uBudget)
}

func kindList(m map[*usess]string) (out []string) {
	for s, k := range m {
		out = append(out, fmt.Sprintf("s%d %s", s.id, k))
	}
	sort.Strings(out)
	return
}

// ---------------------------------------------------------------- malformed

// runUMalformed: one session sends nonsense to ufs, the others do not notice.
func runUMalformed(w *W) {
	u := w.newU([]string{"/srv/export", "/"}[w.cfg(2)], w.cfg(4) == 0)
	n := 1 + w.cfg(2)
	for i := 0; i < n; i++ {
		u.newSession(path.Join(u.root, fmt.Sprintf("s%d", i+1))).populate()
	}
	u.listen(nil)
	for _, s := range u.sess[1:] {
		s := s
		s.wts = profile("")
		k := 3 + w.cfg(12)
		w.task(fmt.Sprintf("s%d", s.id), func() {
			u.l.Accept(s.sv)
			if !s.start() {
				return
			}
			for i := 0; i < k && !w.s.Failed() && !s.dead; i++ {
				s.step()
			}
			if !w.s.Failed() {
				s.end()
			}
		})
	}
	h := u.sess[0]
	h.wts = profile("")
	k := 5 + w.cfg(25)
	w.task("hostile", func() {
		u.l.Accept(h.sv)
		if !h.start() {
			return
		}
		for i := 0; i < k && !w.s.Failed() && !h.dead; i++ {
			switch w.draw(4) {
			case 0:
				h.step()
			case 1, 2:
				if !h.nonsense() {
					return
				}
			case 3:
				h.badStat()
			}
		}
		// a wild session: nothing is known any more but that every request is
		// answered and the server goes on
		for i := 0; i < k && !w.s.Failed() && !h.dead; i++ {
			h.wild()
		}
		h.cl.Close()
	})
	if !w.settle(uBudget) {
		if !w.s.Failed() {
			w.fail("*", "hang", "a session gets no reply (%s)", w.s.Blocked())
		}
		return
	}
	s := u.newSession(path.Join(u.root, "late"))
	s.populate()
	w.task("late", func() {
		u.l.Accept(s.sv)
		s.start()
	})
	if !w.settle(uBudget) && !w.s.Failed() {
		w.fail("*", "hang", "a new session gets no reply (%s)", w.s.Blocked())
	}
}

// live gives a well-formed request on the session's fids.
func (s *usess) live() Msg {
	f := s.liveFid(func(f *ufid) bool { return strings.HasPrefix(f.path, s.home+"/") })
	if f == nil {
		f = s.liveFid(func(f *ufid) bool { return s.inHome(f) })
	}
	num := uint32(1)
	if f != nil {
		num = f.num
	}
	d := nullStat
	d.Mode = uint32(s.draw(512))
	d.Name = s.newName()
	switch s.draw(11) {
	case 0:
		return Msg{T: tWalk, Fid: num, Fid2: s.anyFid(), Names: []string{"f1", "f2"}[:s.draw(3)]}
	case 1:
		return Msg{T: tOpen, Fid: num, Mode: s.omode()}
	case 2:
		return Msg{T: tCreate, Fid: num, Str: s.newName(), Perm: uint32(s.draw(512)), Mode: s.omode()}
	case 3:
		return Msg{T: tRead, Fid: num, Off: s.offset(&simos.Node{Data: make([]byte, 10)}), Count: s.count()}
	case 4:
		return Msg{T: tWrite, Fid: num, Off: uint64(s.draw(100)), Data: s.s.Bytes(simrt.Op, s.draw(80))}
	case 5:
		return Msg{T: tClunk, Fid: num}
	case 6:
		return Msg{T: tRemove, Fid: num}
	case 7:
		return Msg{T: tStat, Fid: num}
	case 8:
		return Msg{T: tAttach, Fid: s.anyFid(), Fid2: nofid, Uname: "u", Aname: strings.TrimPrefix(s.home, s.root)}
	case 9:
		return Msg{T: tFlush, Oldtag: uint16(s.draw(10))}
	}
	return Msg{T: tWstat, Fid: num, Stat: encStat(d)}
}

// nonsense sends a request that does not decode. It is not carried out.
func (s *usess) nonsense() bool {
	m := s.live()
	s.nextTag++
	m.Tag = s.nextTag
	b, ends, ok := s.mangle(m)
	if !ok {
		return true
	}
	before := s.snap(s.home)
	held := s.fs.Under(s.home)
	s.logf("s%d mangled %v: %q", s.id, m, clip(string(b)))
	if ends && s.draw(3) > 0 {
		return true // mostly not: it ends the session
	}
	if _, err := s.cl.Write(b); err != nil {
		s.dead = true
		return false
	}
	if ends {
		s.cl.CloseWrite()
	}
	f, err := readFrame(s.cl)
	if simrt.Exiting() {
		return false
	}
	if !s.same("C08", "a malformed "+m.String(), before, before) {
		return false
	}
	if err != nil {
		s.dead = true
		s.logf("s%d is ended", s.id)
		return false
	}
	if f[4] != rError {
		s.fail("C08", "executed", "s%d: %q, which does not decode, is answered by %s", s.id, b, tname(f[4]))
		return false
	}
	if h := s.fs.Under(s.home); len(h) != len(held) {
		s.fail("C08", "executed", "s%d: %q, which does not decode, changes the open files from %v to %v", s.id, b, held, h)
		return false
	}
	return true
}

// badStat sends a wstat whose entry is cut short or has a string length beyond
// its end.
func (s *usess) badStat() {
	f := s.liveFid(func(f *ufid) bool { return s.inHome(f) && s.known(f) })
	if f == nil {
		return
	}
	d := nullStat
	d.Mode = uint32(s.draw(512))
	if s.draw(2) == 0 {
		d.Name = "renamed"
	}
	d.Mtime = 5
	b := encStat(d)
	if s.fdraw(3) > 0 {
		b = b[:s.fdraw(len(b))]
		s.s.Count("fault:malformed-entry-short")
	} else {
		// lengths of the four strings
		off := 41
		k := s.fdraw(4)
		if k > 0 {
			off += 2 + len(d.Name) + 2*(k-1)
		}
		v := []uint64{0xffff, 0x8000, 200, 9}[s.fdraw(4)]
		copy(b[off:], le(2, v))
		s.s.Count("fault:malformed-entry-string")
	}
	if len(b) > 2 && s.fdraw(2) == 0 {
		copy(b, le(2, uint64(len(b)-2)))
	}
	s.refused("C08 C18", Msg{T: tWstat, Fid: f.num, Stat: b}, "the entry does not decode")
}

// wild sends a well-formed request with extreme values and asks only for a
// reply.
func (s *usess) wild() {
	m := s.live()
	switch m.T {
	case tWalk:
		m.Names = nil
		for i := []int{1, 2, 16, 17, 300}[s.draw(5)]; i > 0; i-- {
			m.Names = append(m.Names, []string{"f1", ".", "", "a/b", "\x00", "\xff\xfe", strings.Repeat("y", 300), strings.Repeat("z", 5000)}[s.draw(8)])
		}
	case tOpen:
		m.Mode = uint8(s.draw(256))
	case tCreate:
		m.Mode = uint8(s.draw(256))
		m.Perm = s.val32()
		m.Str = []string{m.Str, "\x00", strings.Repeat("y", 300), "\xff", ""}[s.draw(5)]
	case tRead:
		m.Off, m.Count = s.val64(), s.val32()
	case tWrite:
		m.Off = s.val64()
	case tWstat:
		d := nullStat
		d.Mode, d.Length, d.Mtime, d.Atime = s.val32(), s.val64(), s.val32(), s.val32()
		d.Name = []string{"", "\x00", strings.Repeat("y", 300), "q"}[s.draw(4)]
		m.Stat = encStat(d)
	}
	s.rpc(m)
}

// ---------------------------------------------------------------- diagnostics

// runUDebug: the same requests to ufs with and without its debug flag.
func runUDebug(w *W) {
	w.naps = 1 // both times start with the same clock
	u := w.newU("/srv/export", false)
	s := u.newSession("/srv/export/s1")
	s.populate()
	begin := u.snap(s.home)
	u.fs = simos.NewFS(0)
	put := func(fs *simos.FS) {
		fs.Put("/srv/export", os.ModeDir|0755, nil)
		for _, k := range begin.keys() {
			e := begin[k]
			m := e.perm
			if e.dir {
				m |= os.ModeDir
			}
			fs.Put(k, m, []byte(e.data.from(0, int(e.data.size))))
		}
		fs.Yield = true
		fs.Export = "/srv/export"
	}
	put(u.fs)
	simos.Use(u.fs)
	u.listen(nil)
	s.wts = profile("")
	k := 5 + w.cfg(30)
	w.task("plain", func() {
		u.l.Accept(s.sv)
		if !s.start() {
			return
		}
		for i := 0; i < k && !w.s.Failed() && !s.dead; i++ {
			s.step()
		}
		for i := 0; i < 5 && !w.s.Failed() && !s.dead; i++ {
			s.wild()
		}
		s.cl.Close()
	})
	if !w.settle(uBudget) {
		if !w.s.Failed() {
			w.fail("", "hang", "no reply without debugging")
		}
		return
	}
	w.idle(uBudget)
	if w.s.Failed() {
		return
	}
	v := w.newU("/srv/export", true)
	v.fs = simos.NewFS(0)
	put(v.fs)
	simos.Use(v.fs)
	v.listen(nil)
	cl, sv := w.newConn("debug")
	w.task("debug", func() {
		v.l.Accept(sv)
		for i, x := range s.script {
			if _, err := cl.Write(enc(x.q, nil)); err != nil {
				w.fail("C13", "differs", "request %d, %v: with -debug the connection ends", i, x.q)
				return
			}
			f, err := readFrame(cl)
			if simrt.Exiting() {
				return
			}
			if err != nil {
				w.fail("C13", "differs", "request %d, %v: with -debug the connection ends, without it gets %v", i, x.q, x.r)
				return
			}
			r, _ := dec(f)
			w.logf("debug %v -> %v", x.q, r)
			if string(f) != string(enc(x.r, nil)) {
				w.fail("C13", "differs", "request %d, %v: with -debug it gets %v, without %v", i, x.q, r, x.r)
				return
			}
		}
		cl.Close()
	})
	if !w.settle(uBudget) {
		if !w.s.Failed() {
			w.fail("C13", "hang", "with -debug a request gets no reply (%s)", w.s.Blocked())
		}
		return
	}
	w.idle(uBudget)
	if w.s.Failed() {
		return
	}
	a, b := u.snap("/srv/export"), v.snap("/srv/export")
	for _, p := range a.keys() {
		x, y := a[p], b[p]
		if y.n == nil || x.dir != y.dir || x.perm != y.perm || x.data != y.data {
			w.fail("C13", "differs", "with -debug %s ends up different", p)
			return
		}
	}
	if len(a) != len(b) {
		w.fail("C13", "differs", "with -debug there are %d files at the end, without %d", len(b), len(a))
		return
	}
	if x, y := u.fs.OpenHandles(), v.fs.OpenHandles(); x != y {
		w.fail("C13", "differs", "with -debug %d files are still open at the end, without %d", y, x)
	}
}

func init() {
	register("C19", scenario{"crash", 1, runCrash})
	register("C10", scenario{"sessions-isolation", 1, runUIso})
	register("C08", scenario{"sessions-malformed", 1, runUMalformed})
	register("C13", scenario{"ufs-debug", 1, runUDebug})
}
