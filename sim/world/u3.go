package world

import (
	"fmt"
	"os"
	"path"
	"sort"
	"strings"

	"github.com/Harvey-OS/ninep/sim/simos"
	"github.com/Harvey-OS/ninep/sim/simrt"
)

// ---------------------------------------------------------------- listings

// listing is one reading of a directory from its beginning to its end.
type listing struct {
	fid  uint32
	on   bool
	off  uint64
	stay map[string]*simos.Node // there all the time so far
	ever map[string]bool        // there at some time
	got  map[string]int
	want uint32 // the least count to ask for next
	due  bool   // a disk error may still be to come
}

type dirWorld struct {
	*uworld
	dir   string
	node  *simos.Node
	lists []*listing
	fixed map[*simos.Node]bool // nobody changes it
	big   int                  // longest name
}

// reach attaches, walks to the path and opens it, all of which must succeed.
func (s *usess) must(m Msg) (Msg, bool) {
	for i := 0; ; i++ {
		r, ok := s.rpc(m)
		if !ok {
			return r, false
		}
		if r.T != rError {
			return r, true
		}
		if !s.faulted || i > 20 {
			s.fail("*", "refused", "s%d: %v is refused: %q", s.id, m, r.Str)
			return r, false
		}
	}
}

func (s *usess) version() bool {
	ms := []uint32{8192, 1024, 2048, 65536, 1 << 20, 0xffffffff}[s.draw(6)]
	r, ok := s.must(Msg{T: tVersion, Msize: ms, Str: "9P2000"})
	if !ok {
		return false
	}
	s.msize = r.Msize
	_, ok = s.must(Msg{T: tAttach, Fid: 0, Fid2: nofid, Uname: "u"})
	return ok
}

// opened walks from fid 0 to the path and opens it.
func (s *usess) opened(fid uint32, p string, mode uint8) bool {
	names := strings.Split(strings.Trim(strings.TrimPrefix(p, s.root), "/"), "/")
	for i := 0; ; i++ {
		r, ok := s.must(Msg{T: tWalk, Fid: 0, Fid2: fid, Names: names})
		if !ok {
			return false
		}
		if len(r.Qids) == len(names) {
			break
		}
		if !s.faulted || i > 20 {
			s.fail("*", "walk", "s%d: walk to %s ends early", s.id, p)
			return false
		}
	}
	_, ok := s.must(Msg{T: tOpen, Fid: fid, Mode: mode})
	return ok
}

func (d *dirWorld) begin(l *listing) {
	l.on, l.off, l.due = true, 0, false
	l.stay, l.ever, l.got = map[string]*simos.Node{}, map[string]bool{}, map[string]int{}
	l.want = 0
	for k, e := range d.node.Kids {
		l.stay[k], l.ever[k] = e.N, true
	}
}

// step reads the next piece; the result tells whether the listing ended.
func (d *dirWorld) next(s *usess, l *listing) (end bool) {
	full := uint32(49 + d.big + 40)
	count := full + uint32(s.draw(200))
	switch s.draw(6) {
	case 0:
		count = uint32(s.draw(60))
	case 1:
		count = 49 + uint32(s.draw(int(full-49)))
	case 2:
		count = []uint32{0xffffffff, 0x80000000, 8192, s.msize, 65536}[s.draw(5)]
	}
	if count < l.want {
		count = l.want
	}
	m := Msg{T: tRead, Fid: l.fid, Off: l.off, Count: count}
	r, ok := s.rpc(m)
	if !ok {
		return true
	}
	if r.T == rError {
		if s.faulted || l.due {
			l.on = false // start over
			return true
		}
		if count >= full {
			s.fail("C16", "refused", "s%d: %v of the directory fails: %q", s.id, m, r.Str)
			return true
		}
		l.want = count + uint32(1+s.draw(int(full)))
		s.s.Count("probe:count-too-small")
		return false
	}
	l.want = 0
	// A server that reads ahead may keep the error for the next read.
	l.due = l.due || s.faulted
	if uint64(len(r.Data)) > uint64(count) || uint64(len(r.Data))+11 > uint64(s.msize) {
		s.fail("C16 C15", "too-much", "s%d: %v gives %d bytes (message size %d)", s.id, m, len(r.Data), s.msize)
		return true
	}
	if len(r.Data) == 0 {
		if count == 0 {
			return false
		}
		l.on = false
		var ks []string
		for k := range l.stay {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			if l.got[k] == 0 {
				s.fail("C16", "missing", "s%d: the listing by fid %d ends without %q, which was there all the time; it gave %d entries (disk faults: %v)", s.id, l.fid, k, len(l.got), s.flog)
				return true
			}
		}
		s.s.Count("probe:listing-complete")
		return true
	}
	l.off += uint64(len(r.Data))
	b := r.Data
	for len(b) > 0 {
		e, rest, ok := decStat(b)
		if !ok {
			s.fail("C16", "entry", "s%d: %v gives %q, which are no whole entries", s.id, m, r.Data)
			return true
		}
		b = rest
		if !l.ever[e.Name] {
			s.fail("C16", "stranger", "s%d: the listing by fid %d gives %q, which was never there", s.id, l.fid, e.Name)
			return true
		}
		l.got[e.Name]++
		if n := l.stay[e.Name]; n != nil {
			if l.got[e.Name] > 1 {
				s.fail("C16", "twice", "s%d: the listing by fid %d gives %q %d times", s.id, l.fid, e.Name, l.got[e.Name])
				return true
			}
			if d.fixed[n] && !s.truth("listing", e, n, e.Name) {
				return true
			}
		}
	}
	return false
}

func (d *dirWorld) name(i int) string {
	n := fmt.Sprintf("e%d", i)
	switch d.cfg(6) {
	case 0:
		n += strings.Repeat("x", d.cfg(100))
	case 1:
		n += strings.Repeat("y", 240)
	case 2:
		n = "." + n
	case 3:
		n = d.strangeName(d.cfg)
	}
	if len(n) > d.big {
		d.big = len(n)
	}
	return n
}

func runDir(w *W) {
	u := w.newU([]string{"/srv/export", "/"}[w.cfg(2)], false)
	d := &dirWorld{uworld: u, dir: path.Join(u.root, "d"), fixed: map[*simos.Node]bool{}, big: 255}
	u.shared = d.dir
	d.node = u.fs.Put(d.dir, os.ModeDir|0755, nil)
	var names []string
	for i := w.cfg(14); i > 0; i-- {
		n := d.name(i)
		if _, ok := d.node.Kids[n]; ok {
			continue
		}
		mode := os.FileMode(0644)
		if w.cfg(5) == 0 {
			mode = os.ModeDir | 0755
		}
		x := u.fs.Put(path.Join(d.dir, n), mode, w.s.Bytes(simrt.Cfg, w.cfg(9)))
		if u.mounts && mode.IsDir() {
			u.fs.Mount(x)
		}
		if w.cfg(2) == 0 {
			d.fixed[x] = true
		} else if !mode.IsDir() {
			names = append(names, n)
		}
	}
	// links, and what is neither file nor directory
	for i := w.cfg(4) * w.cfg(2); i > 0; i-- {
		n := fmt.Sprintf("o%d", i)
		switch p := path.Join(d.dir, n); w.cfg(8) {
		case 0:
			u.fs.PutLink(p, "nowhere")
		case 1:
			u.fs.PutLink(p, n) // to itself
		case 2:
			u.fs.PutLink(p, "..")
		case 3:
			u.fs.PutLink(p, "/etc/passwd")
		case 4:
			to := append(d.node.Names(), "e1")
			u.fs.PutLink(p, to[w.cfg(len(to))])
		case 5:
			u.fs.Put(p, os.ModeNamedPipe|0644, nil)
		case 6:
			u.fs.Put(p, os.ModeSocket|0755, nil)
		case 7:
			u.fs.Put(p, os.ModeDevice|os.ModeCharDevice|0660, nil)
		}
		w.s.Count("probe:other-kind")
	}
	crowd := w.crowd(40, 2500)
	for i := 0; i < crowd; i++ {
		d.fixed[u.fs.Put(path.Join(d.dir, fmt.Sprintf("m%d", i)), 0644, nil)] = true
	}
	u.fs.OnDir = func(dir *simos.Node, name string, n *simos.Node, present bool) {
		if dir != d.node {
			return
		}
		for _, l := range d.lists {
			if present {
				if l.on {
					l.ever[name] = true
				}
			} else if l.on {
				delete(l.stay, name)
			}
		}
	}
	u.listen(nil)
	if w.cfg(4) == 0 {
		u.arm(4 + w.cfg(20))
	}
	// the readers
	readers := 1 + w.cfg(2)
	running := readers
	for i := 0; i < readers; i++ {
		s := u.newSession(path.Join(u.root, fmt.Sprintf("none%d", i)))
		nf := 1 + w.cfg(2)
		passes := 1 + w.cfg(4)
		if crowd > 0 {
			nf, passes = 1, 1+w.cfg(2)
		}
		var ls []*listing
		for k := 0; k < nf; k++ {
			l := &listing{fid: uint32(k + 1)}
			ls = append(ls, l)
			d.lists = append(d.lists, l)
		}
		w.task(fmt.Sprintf("reader%d", s.id), func() {
			u.l.Accept(s.sv)
			defer func() { running-- }()
			s.calm = true
			if !s.version() {
				return
			}
			s.calm = false
			for _, l := range ls {
				if !s.opened(l.fid, d.dir, 0) {
					return
				}
			}
			for n, k := 0, 0; k < passes*nf && n < 300+8*crowd && !w.s.Failed() && !s.dead; n++ {
				l := ls[s.draw(len(ls))]
				if l.on && s.draw(25+crowd) == 0 {
					w.s.Count("probe:listing-restarted")
					l.on = false
				}
				if !l.on {
					d.begin(l)
				}
				if d.next(s, l) {
					k++
				}
			}
			for _, l := range ls {
				l.on = false
			}
			if !w.s.Failed() {
				s.end()
			}
		})
	}
	// those who change the directory
	for i := w.cfg(3); i > 0; i-- {
		i := i
		s := u.newSession(path.Join(u.root, fmt.Sprintf("chg%d", i)))
		var mine []string
		for j, n := range names {
			if j%3 == i {
				mine = append(mine, n)
			}
		}
		k := 1 + w.cfg(12)
		w.task(fmt.Sprintf("changer%d", s.id), func() {
			u.l.Accept(s.sv)
			s.calm = true // no faults: it is not what is looked at here
			if !s.version() {
				return
			}
			at := strings.Split(strings.Trim(strings.TrimPrefix(d.dir, u.root), "/"), "/")
			for j := 0; j < k && running > 0 && !w.s.Failed() && !s.dead; j++ {
				fid := uint32(10)
				if len(mine) > 0 && s.draw(2) == 0 {
					x := s.draw(len(mine))
					n := mine[x]
					if _, ok := s.must(Msg{T: tWalk, Fid: 0, Fid2: fid, Names: append(append([]string{}, at...), n)}); !ok {
						return
					}
					if s.draw(4) == 0 { // rename
						y := fmt.Sprintf("r%d-%d", i, j)
						st := nullStat
						st.Name = y
						if _, ok := s.must(Msg{T: tWstat, Fid: fid, Stat: encStat(st)}); !ok {
							return
						}
						mine[x] = y
						if _, ok := s.must(Msg{T: tClunk, Fid: fid}); !ok {
							return
						}
						continue
					}
					if _, ok := s.must(Msg{T: tRemove, Fid: fid}); !ok {
						return
					}
					mine = append(mine[:x], mine[x+1:]...)
					continue
				}
				n := fmt.Sprintf("c%d-%d%s", i, j, strings.Repeat("z", s.draw(60)))
				if s.draw(3) == 0 {
					n = fmt.Sprintf("c%d", i) // comes and goes under one name
					for _, o := range mine {
						if o == n {
							n += "x"
						}
					}
					dup := false
					for _, o := range mine {
						dup = dup || o == n
					}
					if dup {
						continue
					}
				}
				if _, ok := s.must(Msg{T: tWalk, Fid: 0, Fid2: fid, Names: at}); !ok {
					return
				}
				if _, ok := s.must(Msg{T: tCreate, Fid: fid, Str: n, Perm: 0644, Mode: 1}); !ok {
					return
				}
				if _, ok := s.must(Msg{T: tClunk, Fid: fid}); !ok {
					return
				}
				mine = append(mine, n)
			}
			s.cl.Close()
		})
	}
	// and another program on the machine
	if w.cfg(2) == 0 {
		k := 1 + w.cfg(20)
		w.task("local", func() {
			var mine []string
			for j := 0; j < k && running > 0; j++ {
				simrt.Park("local", nil)
				if len(mine) > 0 && w.draw(2) == 0 {
					x := w.draw(len(mine))
					u.fs.Del(path.Join(d.dir, mine[x]))
					mine = append(mine[:x], mine[x+1:]...)
				} else {
					n := fmt.Sprintf("l%d", j)
					u.fs.Put(path.Join(d.dir, n), 0644, nil)
					mine = append(mine, n)
				}
			}
		})
	}
	if !w.settle(uBudget + 2000*crowd) {
		if !w.s.Failed() {
			w.fail("*", "hang", "a session gets no reply (%s)", w.s.Blocked())
		}
	}
}

// ---------------------------------------------------------------- shared files

// sop is a change to a shared file: a write, or a truncation to nothing.
type sop struct {
	start, end int // end 0: not answered
	off        uint64
	data       []byte
	sure       int // bytes acknowledged
	trunc      bool
	base       bool
	text       string
}

// val tells the byte the change puts at i.
func (o *sop) val(i uint64) (b byte, covers bool) {
	if o.trunc {
		return 0, true
	}
	if i >= o.off && i < o.off+uint64(len(o.data)) {
		return o.data[i-o.off], true
	}
	return 0, o.base
}

func (o *sop) sureAt(i uint64) bool {
	if o.end == 0 {
		return false
	}
	if o.trunc || o.base {
		return true
	}
	return i >= o.off && i < o.off+uint64(o.sure)
}

// runShared: sessions read and write the same files.
func runShared(w *W) {
	u := w.newU([]string{"/srv/export", "/"}[w.cfg(2)], false)
	u.shared = path.Join(u.root, "sh")
	nfile := 1 + w.cfg(2)
	ops := make([][]*sop, nfile)
	nodes := make([]*simos.Node, nfile)
	for i := range ops {
		data := w.s.Bytes(simrt.Cfg, w.cfg(80))
		nodes[i] = u.fs.Put(fmt.Sprintf("%s/f%d", u.shared, i), 0666, data)
		ops[i] = []*sop{{start: 0, end: 1, data: data, sure: len(data), base: true, text: "the beginning"}}
	}
	w.seq = 2
	trunc := w.cfg(3) == 0
	u.listen(nil)
	if w.cfg(4) == 0 {
		u.arm(4 + w.cfg(20))
	}
	n := 1 + w.cfg(3)
	val := byte(w.cfg(256))
	for i := 0; i < n; i++ {
		s := u.newSession(path.Join(u.root, fmt.Sprintf("none%d", i)))
		nf := 1 + w.cfg(3)
		k := 4 + w.cfg(20)
		s.real = w.cfg(4) == 1
		w.task(fmt.Sprintf("s%d", s.id), func() {
			u.l.Accept(s.sv)
			s.calm = true
			if !s.version() {
				return
			}
			s.calm = false
			file := map[uint32]int{}
			mode := map[uint32]uint8{}
			open := func(f uint32) bool {
				x := s.draw(nfile)
				m := uint8([]int{2, 2, 2, 0, 1}[s.draw(5)])
				var o *sop
				if trunc && m != 0 && s.draw(3) == 0 {
					m |= otrunc
					w.seq++
					o = &sop{start: w.seq, trunc: true, text: fmt.Sprintf("s%d open with truncation", s.id)}
					ops[x] = append(ops[x], o)
				}
				ok := s.opened(f, fmt.Sprintf("%s/f%d", u.shared, x), m)
				w.seq++
				if o != nil && ok {
					o.end = w.seq
				}
				file[f], mode[f] = x, m
				return ok
			}
			for f := 1; f <= nf; f++ {
				if !open(uint32(f)) {
					return
				}
			}
			for j := 0; j < k && !w.s.Failed() && !s.dead; j++ {
				f := uint32(1 + s.draw(nf))
				x := file[f]
				switch {
				case s.draw(12) == 0:
					if _, ok := s.must(Msg{T: tClunk, Fid: f}); !ok {
						return
					}
					if !open(f) {
						return
					}
				case s.draw(2) == 0 && mode[f]&3 != 0:
					val++
					data := make([]byte, s.draw(40))
					for q := range data {
						data[q] = val
						if s.draw(4) == 0 {
							data[q] = byte(s.draw(256))
						}
					}
					w.seq++
					o := &sop{start: w.seq, off: uint64(s.draw(100)), data: data}
					if len(data) > 0 {
						ops[x] = append(ops[x], o)
					}
					m := Msg{T: tWrite, Fid: f, Off: o.off, Data: data}
					o.text = fmt.Sprintf("s%d %v", s.id, m)
					r, ok := s.rpc(m)
					if !ok {
						return
					}
					w.seq++
					if r.T != rError {
						o.end, o.sure = w.seq, int(int32(r.Count))
						if o.sure < 0 || o.sure > len(data) || o.sure < len(data) && !s.faulted {
							s.fail("C15", "count", "s%d: %v is acknowledged with %d bytes", s.id, m, o.sure)
							return
						}
						if o.sure < len(data) {
							// the rest was not acknowledged but may be there
							rest := *o
							rest.end, rest.sure = 0, 0
							rest.off += uint64(o.sure)
							rest.data = data[o.sure:]
							o.data = data[:o.sure]
							if len(rest.data) > 0 {
								ops[x] = append(ops[x], &rest)
							}
						}
					} else if !s.faulted {
						s.fail("C15", "refused", "s%d: %v is refused: %q", s.id, m, r.Str)
						return
					}
				case mode[f]&3 != 1:
					m := Msg{T: tRead, Fid: f, Off: uint64(s.draw(110)), Count: uint32(s.draw(120))}
					w.seq++
					from := w.seq
					r, ok := s.rpc(m)
					if !ok {
						return
					}
					w.seq++
					if r.T == rError {
						if !s.faulted {
							s.fail("C15", "refused", "s%d: %v is refused: %q", s.id, m, r.Str)
							return
						}
						continue
					}
					if !sharedRead(s, ops[x], m, r, from, w.seq) {
						return
					}
				}
			}
			if !w.s.Failed() {
				s.end()
			}
		})
	}
	if !w.settle(uBudget) {
		if !w.s.Failed() {
			w.fail("*", "hang", "a session gets no reply (%s)", w.s.Blocked())
		}
		return
	}
	w.idle(uBudget)
	if w.s.Failed() {
		return
	}
	// what is left in the files
	w.seq++
	for x, n := range nodes {
		s := u.sess[0]
		m := Msg{T: tRead, Count: 1 << 20}
		if !sharedRead(s, ops[x], m, Msg{T: tRead + 1, Data: n.Data}, w.seq, w.seq+1) {
			return
		}
	}
}

// sharedRead holds what a read returned against the changes that may have
// been made by then.
func sharedRead(s *usess, ops []*sop, m, r Msg, from, to int) bool {
	if uint64(len(r.Data)) > uint64(m.Count) {
		s.fail("C15", "too-much", "s%d: %v gives %d bytes", s.id, m, len(r.Data))
		return false
	}
	// replaced tells whether another change has certainly followed o at i
	// before the read began
	replaced := func(o *sop, i uint64) bool {
		if o.end == 0 {
			// not answered with success: done, if at all, at any time
			return false
		}
		for _, p := range ops {
			if p != o && p.sureAt(i) && p.start > o.end && p.end < from {
				if _, c := p.val(i); c {
					return true
				}
			}
		}
		return false
	}
	for j, b := range r.Data {
		i := m.Off + uint64(j)
		ok := false
		var could []string
		for _, o := range ops {
			if o.start > to {
				continue
			}
			v, c := o.val(i)
			if !c || replaced(o, i) {
				continue
			}
			could = append(could, fmt.Sprintf("%#02x", v))
			ok = ok || v == b
		}
		if !ok {
			s.fail("C15", "wrong-data", "s%d: %v gives %#02x at offset %d; the latest writes leave %v there", s.id, m, b, i, could)
			return false
		}
	}
	// the length
	least, most := uint64(0), uint64(0)
	for _, o := range ops {
		e := o.off + uint64(len(o.data))
		if o.start < to && e > most {
			most = e
		}
		if o.end != 0 && o.end < from && !o.trunc {
			e = o.off + uint64(o.sure)
			cut := false
			for _, p := range ops {
				cut = cut || p.trunc && (p.end == 0 || p.end > o.start) && p.start < to
			}
			if !cut && e > least {
				least = e
			}
		}
	}
	if e := m.Off + uint64(len(r.Data)); len(r.Data) > 0 && e > most {
		s.fail("C15", "wrong-data", "s%d: %v gives %d bytes, beyond the end of the file at %d", s.id, m, len(r.Data), most)
		return false
	}
	if len(r.Data) == 0 && m.Count > 0 && m.Off < least {
		s.fail("C15", "no-data", "s%d: %v gives nothing, the file has at least %d bytes", s.id, m, least)
		return false
	}
	return true
}

// ---------------------------------------------------------------- containment

var nasty = []string{"..", "../..", "../../..", "/", "", ".", "/etc", "etc", "secret", "../secret", "../../srv/secret", "/srv/secret", "/../secret",
	"..//secret", "./../secret", "a/../../secret", "../export2", "export2", "2", "../export2/x", "..\x00", "...", "../export/../secret", "/srv/export/../secret",
	"d1/../../secret", "f1/../../secret", "d1/../..", "//etc//passwd", "../export2/new", "../new", "/../../new", "../../../../../../../etc/passwd", "passwd", "\\..\\secret"}

func (s *usess) nastyName() string {
	switch s.draw(5) {
	case 0:
		n := ""
		for i := 1 + s.draw(4); i > 0; i-- {
			n += []string{"..", "/", ".", "secret", "d1", "f1", "export2", "srv", "export", "//"}[s.draw(10)]
			if s.draw(2) == 0 {
				n += "/"
			}
		}
		return n
	case 1:
		return s.newName()
	}
	return nasty[s.draw(len(nasty))]
}

// outer is everything outside the exported tree.
func (u *uworld) outer() snap {
	a := u.snap("")
	for k := range a {
		if k == u.root || strings.HasPrefix(k, u.root+"/") {
			delete(a, k)
		}
		if k == "" {
			delete(a, k)
		}
	}
	return a
}

func runNames(w *W) {
	roots := []string{"/srv/export", "/srv/export/", "/srv/deep/er/export", "//srv/export", "/srv/export/.", "/", "srv/export", "./srv/export", ".", ""}
	u := w.newU(roots[w.cfg(len(roots))], w.cfg(6) == 0)
	up := path.Dir(u.root)
	if u.root != "/" {
		for _, p := range []string{"/srv/secret", "/etc/passwd", u.root + "2/x", up + "/secret", up + "/f1", up + "/d1/f1", "/secret", "/f1", "/d1/f2", "/2"} {
			if u.fs.At(p) == nil {
				u.fs.Put(p, 0666, []byte("outside"))
			}
		}
	}
	n := 1 + w.cfg(2)
	for i := 0; i < n; i++ {
		u.newSession(path.Join(u.root, fmt.Sprintf("s%d", i+1))).populate()
	}
	u.listen(nil)
	before := u.outer()
	inos := map[uint64]string{}
	for k, e := range before {
		inos[e.n.Ino] = k
		inos[e.n.Ino^e.n.Dev<<32] = k
	}
	check := func(s *usess, m, r Msg) bool {
		if w.s.Failed() {
			return false
		}
		if u.root == "/" {
			return true
		}
		if len(u.fs.Outside) > 0 {
			s.fail("C17", "outside", "s%d: %v makes the server go outside %s: %v", s.id, m, u.root, u.fs.Outside)
			return false
		}
		if d := before.differs(u.outer(), before); d != "" {
			s.fail("C17", "outside", "s%d: %v changes what is outside %s: %s", s.id, m, u.root, d)
			return false
		}
		qs := append([]Qid{}, r.Qids...)
		switch r.T {
		case tAttach + 1, tOpen + 1, tCreate + 1:
			qs = append(qs, r.Qid)
		}
		for _, q := range qs {
			if k, ok := inos[q.Path]; ok {
				s.fail("C17", "outside", "s%d: %v is answered with the identity of %s, outside %s", s.id, m, k, u.root)
				return false
			}
		}
		return true
	}
	for _, s := range u.sess {
		s := s
		k := 5 + w.cfg(40)
		w.task(fmt.Sprintf("s%d", s.id), func() {
			u.l.Accept(s.sv)
			s.msize = 8192
			do := func(m Msg) (Msg, bool) {
				r, ok := s.rpc(m)
				if !ok {
					return r, false
				}
				return r, check(s, m, r)
			}
			if _, ok := do(Msg{T: tVersion, Msize: 8192, Str: "9P2000"}); !ok {
				return
			}
			r, ok := do(Msg{T: tAttach, Fid: 0, Fid2: nofid, Uname: "u", Aname: []string{"", "/", ".."}[s.draw(3)]})
			if !ok {
				return
			}
			if r.T == rError {
				s.fail("*", "attach", "s%d: attach to the root is refused: %q", s.id, r.Str)
				return
			}
			rootQ := r.Qid
			depth := map[uint32]bool{0: true} // fids known to be at the root
			for j := 0; j < k && !w.s.Failed() && !s.dead; j++ {
				f := uint32(s.draw(6))
				if s.draw(5) == 0 {
					f = 0
				}
				var m Msg
				switch s.draw(12) {
				case 0:
					m = Msg{T: tAttach, Fid: uint32(1 + s.draw(5)), Fid2: nofid, Uname: s.nastyName(), Aname: s.nastyName()}
				case 1, 2, 3, 4:
					m = Msg{T: tWalk, Fid: f, Fid2: uint32(1 + s.draw(5))}
					if s.draw(3) == 0 {
						m.Fid2 = m.Fid
					}
					if m.Fid2 == 0 {
						m.Fid2 = 1
					}
					for i := s.draw(6); i > 0; i-- {
						switch s.draw(3) {
						case 0:
							m.Names = append(m.Names, "..")
						case 1:
							m.Names = append(m.Names, []string{path.Base(s.home), "d1", "f1", "d2", "n1"}[s.draw(5)])
						default:
							m.Names = append(m.Names, s.nastyName())
						}
					}
				case 5, 6:
					m = Msg{T: tCreate, Fid: f, Str: s.nastyName(), Perm: 0666, Mode: s.omode()}
					if s.draw(3) == 0 {
						m.Perm = dmdir | 0777
					}
				case 7, 8:
					d := nullStat
					d.Name = s.nastyName()
					if s.draw(3) == 0 {
						d.Mode = 0666
					}
					m = Msg{T: tWstat, Fid: f, Stat: encStat(d)}
					s.logf("s%d wstat of fid %d name %q", s.id, f, d.Name)
				case 9:
					m = Msg{T: tOpen, Fid: f, Mode: s.omode()}
				case 10:
					m = []Msg{{T: tRead, Fid: f, Count: 300}, {T: tWrite, Fid: f, Data: []byte("x")}, {T: tStat, Fid: f}}[s.draw(3)]
				case 11:
					m = Msg{T: tClunk, Fid: f}
					if s.draw(2) == 0 {
						m.T = tRemove
					}
				}
				if m.Fid == 0 && (m.T == tClunk || m.T == tRemove || m.T == tOpen || m.T == tWstat || m.T == tCreate) && s.draw(4) > 0 {
					continue
				}
				if m.T == tWalk && m.Fid == 0 && depth[0] && s.draw(2) == 0 {
					m.Names = nil
					for i := 1 + s.draw(3); i > 0; i-- {
						m.Names = append(m.Names, "..")
					}
				}
				r, ok := do(m)
				if !ok {
					return
				}
				if m.Fid == 0 && r.T != rError && (m.T == tClunk || m.T == tCreate || m.T == tWstat) || m.Fid == 0 && m.T == tRemove {
					depth[0] = false
				}
				if m.T == tWalk && m.Fid == 0 && depth[0] && len(m.Names) > 0 && strings.Trim(strings.Join(m.Names, ""), ".") == "" && !strings.Contains(strings.Join(m.Names, " "), "...") {
					// dot-dot from the root stays at the root
					up := true
					for _, n := range m.Names {
						up = up && n == ".."
					}
					if up && r.T != rError {
						for _, q := range r.Qids {
							if q.Path != rootQ.Path {
								s.fail("C17", "dot-dot", "s%d: %v from the root is answered with %v, the root is %v", s.id, m, r.Qids, rootQ)
								return
							}
						}
					}
				}
			}
			if !w.s.Failed() {
				s.cl.Close()
			}
		})
	}
	if !w.settle(uBudget) {
		if !w.s.Failed() {
			w.fail("*", "hang", "a session gets no reply (%s)", w.s.Blocked())
		}
		return
	}
	w.idle(uBudget)
	if w.s.Failed() {
		return
	}
	check(u.sess[0], Msg{T: tClunk}, Msg{T: tClunk + 1})
}

func init() {
	register("C16", scenario{"directory", 3, runDir})
	register("C15", scenario{"shared-files", 2, runShared})
	register("C17", scenario{"names", 3, runNames}, scenario{"sessions", 1, runU})
}

// ---------------------------------------------------------------- traffic

// runTraffic: connections that read and write files of their own at the same
// time. Every byte and every name tells whose it is.
func runTraffic(w *W) {
	u := w.newU([]string{"/srv/export", "/"}[w.cfg(2)], false)
	n := 2 + w.cfg(3)
	own := func(i, k int) []byte {
		b := w.s.Bytes(simrt.Cfg, k)
		for j := range b {
			b[j] = b[j]&^3 | byte(i)
		}
		return b
	}
	nodes := make([]*simos.Node, n)
	size := 1 + w.cfg(3)*40 + w.cfg(40)
	same := w.cfg(2) == 0 // the same requests on every connection
	for i := 0; i < n; i++ {
		nodes[i] = u.fs.Put(fmt.Sprintf("%s/t%d/own%d", u.root, i, i), 0666, own(i, size))
		u.fs.Put(fmt.Sprintf("%s/t%d/more%d", u.root, i, i), 0666, own(i, size))
	}
	u.listen(nil)
	ops := 3 + w.cfg(12)
	for i := 0; i < n; i++ {
		i := i
		dir := fmt.Sprintf("%s/t%d", u.root, i)
		s := u.newSession(dir)
		w.task(fmt.Sprintf("s%d", s.id), func() {
			u.l.Accept(s.sv)
			s.calm = true
			if !s.version() || !s.opened(1, fmt.Sprintf("%s/own%d", dir, i), 2) || !s.opened(2, dir, 0) {
				return
			}
			s.calm = false
			foreign := func(b []byte) bool {
				for _, c := range b {
					if int(c&3) != i && int(c&3) < n {
						return true
					}
				}
				return false
			}
			for j := 0; j < ops && !w.s.Failed() && !s.dead; j++ {
				q := s.draw(5)
				if same {
					q = j % 5
				}
				switch q {
				case 0, 1:
					m := Msg{T: tRead, Fid: 1, Off: 0, Count: uint32(size)}
					if !same {
						m.Off, m.Count = uint64(s.draw(size)), uint32(s.draw(size+1))
					}
					r, ok := s.rpc(m)
					if !ok {
						return
					}
					if r.T == rError {
						s.fail("*", "refused", "s%d: %v is refused: %q", s.id, m, r.Str)
						return
					}
					if foreign(r.Data) {
						s.fail("C10 C15", "foreign", "s%d: %v gives bytes of another connection's file: %x", s.id, m, r.Data)
						return
					}
					want := nodes[i].Data
					if m.Off < uint64(len(want)) {
						want = want[m.Off:]
					} else {
						want = nil
					}
					if len(want) > int(m.Count) {
						want = want[:m.Count]
					}
					if string(want) != string(r.Data) {
						s.fail("C15", "wrong-data", "s%d: %v gives %x, the file has %x", s.id, m, r.Data, want)
						return
					}
				case 2:
					k := 1 + s.draw(size)
					if same {
						k = size
					}
					b := own(i, k)
					m := Msg{T: tWrite, Fid: 1, Off: 0, Data: b}
					r, ok := s.rpc(m)
					if !ok {
						return
					}
					if r.T == rError || int(r.Count) != k {
						s.fail("C10 C15", "write", "s%d: %v is answered %v", s.id, m, r)
						return
					}
					if foreign(nodes[i].Data) {
						s.fail("C10 C15", "foreign", "s%d: %v leaves bytes of another connection in the file: %x", s.id, m, nodes[i].Data)
						return
					}
					if string(nodes[i].Data[:k]) != string(b) {
						s.fail("C15", "wrong-data", "s%d: %v leaves %x", s.id, m, nodes[i].Data[:k])
						return
					}
				case 3:
					r, ok := s.rpc(Msg{T: tStat, Fid: 1})
					if !ok {
						return
					}
					d, rest, good := decStat(r.Stat)
					if r.T == rError || !good || len(rest) > 0 {
						s.fail("*", "refused", "s%d: stat is answered %v", s.id, r)
						return
					}
					if d.Name != fmt.Sprintf("own%d", i) {
						s.fail("C10 C20", "foreign", "s%d: stat of own%d is answered with %q", s.id, i, d.Name)
						return
					}
				case 4:
					for off, end := uint64(0), 0; end < 6; end++ {
						r, ok := s.rpc(Msg{T: tRead, Fid: 2, Off: off, Count: 1000})
						if !ok {
							return
						}
						if r.T == rError {
							s.fail("*", "refused", "s%d: reading the directory fails: %q", s.id, r.Str)
							return
						}
						if len(r.Data) == 0 {
							break
						}
						off += uint64(len(r.Data))
						for b := r.Data; len(b) > 0; {
							d, rest, good := decStat(b)
							if !good {
								s.fail("C16", "entry", "s%d: an entry does not decode", s.id)
								return
							}
							b = rest
							if d.Name != fmt.Sprintf("own%d", i) && d.Name != fmt.Sprintf("more%d", i) {
								s.fail("C10 C16", "foreign", "s%d: the directory lists %q", s.id, d.Name)
								return
							}
						}
					}
				}
			}
			if !w.s.Failed() {
				s.end()
			}
		})
	}
	if !w.settle(uBudget) {
		if !w.s.Failed() {
			w.fail("*", "hang", "a session gets no reply (%s)", w.s.Blocked())
		}
		return
	}
	w.idle(uBudget)
}

func init() {
	for _, p := range []string{"C10", "C15"} {
		register(p, scenario{"traffic", 1, runTraffic})
	}
}
