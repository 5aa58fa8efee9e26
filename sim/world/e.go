package world

import (
	"bytes"
	"fmt"
	"sort"

	"github.com/Harvey-OS/ninep/pkg/debugfs"
	"github.com/Harvey-OS/ninep/protocol"
	"github.com/Harvey-OS/ninep/sim/simrt"
)

// World E: the real client against the real server over a recording file
// server; and the differential runs built from it.

// ecall is a call with what came of it.
type ecall struct {
	m    Msg
	body string // what the arguments were, in case they are changed
	done bool
	res  Msg
	err  error
}

func (c *ecall) outcome() string {
	if !c.done {
		return "does not return"
	}
	if c.err != nil {
		return fmt.Sprintf("error %q", c.err.Error())
	}
	return "result " + c.res.body()
}

func (c *ecall) show() string {
	if !c.done {
		return "does not return"
	}
	if c.err != nil {
		return fmt.Sprintf("error %.100q", c.err.Error())
	}
	return c.res.String()
}

// plan is what the callers of one client do.
type plan struct {
	first   *ecall // the version call
	callers [][]*ecall
}

func (w *W) newPlan(id int) *plan {
	p := &plan{}
	n := 0
	mk := func(t uint8) *ecall {
		m := w.genT(t)
		// no two calls are the same
		k := uint32(n)<<4 | uint32(id)
		n++
		if !w.natural(m) {
			switch t {
			case tVersion:
				m.Msize = m.Msize&^0xfff | k
			case tFlush:
				m.Oldtag = m.Oldtag&^0xfff | uint16(k)
			default:
				m.Fid = m.Fid&^0xfff | k
			}
		}
		if w.huge && w.draw(3) == 0 {
			switch t {
			case tRead:
				w.s.Count("probe:huge-data")
				m.Count = hugeCount
			case tWrite:
				w.s.Count("probe:huge-data")
				m.Data = append(make([]byte, 1<<24), m.Data...)
				m.Data[w.draw(1<<24)] = 1
			}
		}
		if t != tVersion && !w.small && w.draw(24) == 0 {
			w.stretch(&m)
		}
		w.made(m)
		return &ecall{m: m, body: m.body()}
	}
	p.first = mk(tVersion)
	for c := 1 + w.cfg(4); c > 0; c-- {
		var cs []*ecall
		for k := 1 + w.cfg(6); k > 0; k-- {
			cs = append(cs, mk(kinds[w.draw(len(kinds))]))
		}
		p.callers = append(p.callers, cs)
	}
	return p
}

func (p *plan) all() []*ecall {
	out := []*ecall{p.first}
	for _, c := range p.callers {
		out = append(out, c...)
	}
	return out
}

// again is the same plan, not yet carried out.
func (p *plan) again() *plan {
	cp := func(c *ecall) *ecall {
		m := c.m
		m.Data = append([]byte(nil), m.Data...)
		m.Stat = append([]byte(nil), m.Stat...)
		m.Names = append([]string(nil), m.Names...)
		return &ecall{m: m, body: c.body}
	}
	q := &plan{first: cp(p.first)}
	for _, c := range p.callers {
		var cs []*ecall
		for _, x := range c {
			cs = append(cs, cp(x))
		}
		q.callers = append(q.callers, cs)
	}
	return q
}

func (w *W) doCall(c *protocol.Client, who string, x *ecall) {
	w.nap()
	w.logf("%s calls %v", who, x.m)
	x.res, x.err = call(c, x.m)
	x.done = true
	w.logf("%s gets %s", who, x.show())
}

// carryOut makes the calls through a client on the connection.
func (w *W) carryOut(name string, cl *simConn, trace protocol.Tracer, p *plan) {
	w.task(name, func() {
		c := w.newClient(cl, trace)
		w.doCall(c, name, p.first)
		for i, cs := range p.callers {
			cs, who := cs, fmt.Sprintf("%s.%d", name, i)
			w.task(who, func() {
				for _, x := range cs {
					w.doCall(c, who, x)
				}
			})
		}
	})
}

type emode struct {
	ctrace, ltrace protocol.Tracer
	wrap           func(protocol.NineServer) protocol.NineServer
	chunk          [2]int // towards the server, towards the client
	cap            [2]int
}

// phaseE carries out the plans, each over its own client, and gives the
// operations each connection's file server was asked for.
func (w *W) phaseE(label string, salt uint64, ps []*plan, md emode) (nss []*recNS, ok bool) {
	w.logf("phase %s", label)
	l, all, _ := w.newListener(salt, md.ltrace, md.wrap)
	simrt.Go("accept "+label, func() {
		for i, p := range ps {
			a, b := w.newConn(fmt.Sprintf("%s%d", label, i))
			b.rd.chunk, a.rd.chunk = md.chunk[0], md.chunk[1]
			for k, pp := range []*pipe{b.rd, a.rd} {
				if md.cap[k] > 0 {
					pp.cap = md.cap[k]
				}
			}
			l.Accept(b)
			w.carryOut(fmt.Sprintf("%s%d", label, i), a, md.ctrace, p)
		}
	})
	w.left++
	simrt.Go("started "+label, func() { w.left-- })
	w.settle(eBudget)
	if w.s.Failed() {
		return nil, false
	}
	w.idle(eBudget)
	if w.s.Failed() {
		return nil, false
	}
	// the file server of each plan
	nss = make([]*recNS, len(ps))
	for i, p := range ps {
		for _, n := range *all {
			if len(n.ops) > 0 && n.ops[0].body() == p.first.body {
				nss[i] = n
			}
		}
	}
	return nss, true
}

const eBudget = 600000

// judgeE holds the outcome of a phase against what the file server answers.
func (w *W) judgeE(props, label string, salt uint64, ps []*plan, nss []*recNS) bool {
	for i, p := range ps {
		var got []string
		if nss[i] == nil {
			w.fail(props, "lost", "%s: no operation of client %d reaches the file server as it was called (%v)", label, i, p.first.m)
			return false
		}
		for _, m := range nss[i].ops {
			got = append(got, m.body())
		}
		long := 0
		byBody := map[string]int{}
		for _, b := range got {
			byBody[b]++
		}
		for _, x := range p.all() {
			if !x.done {
				w.fail(props, "hang", "%s: %v does not return (%s)", label, x.m, w.s.Blocked())
				return false
			}
			if x.m.body() != x.body {
				w.fail(props, "args", "%s: the call changes its arguments: now %v", label, x.m)
				return false
			}
			if !x.m.fits() {
				long++
				if byBody[x.body] != 0 {
					w.fail(props, "args", "%s: the file server is asked for %v, which does not fit a message", label, x.m)
					return false
				}
				if x.err == nil {
					w.fail(props, "result", "%s: %v, which does not fit a message, succeeds", label, x.m)
					return false
				}
				continue
			}
			if byBody[x.body] != 1 {
				w.fail(props, "args", "%s: the file server is asked %d times for %v; operations: %s", label, byBody[x.body], x.m, opsOf(nss[i]))
				return false
			}
			mm := x.m
			mm.Tag = 0
			want := answer(mm, salt, w.small)
			if want.T == rError {
				if x.err == nil {
					w.fail(props, "result", "%s: %v: the file server answers error %.80q, the caller gets %v", label, x.m, want.Str, x.res)
					return false
				}
				if !want.said(Msg{T: rError, Str: x.err.Error()}) {
					w.fail(props, "error-text", "%s: %v: the file server answers error %.80q, the caller gets error %.80q", label, x.m, want.Str, x.err.Error())
					return false
				}
			} else {
				if x.err != nil {
					w.fail(props, "result", "%s: %v: the file server answers %v, the caller gets error %.80q", label, x.m, want, x.err.Error())
					return false
				}
				if x.res.body() != want.body() {
					w.fail(props, "result", "%s: %v: the file server answers %v, the caller gets %v", label, x.m, want, x.res)
					return false
				}
			}
		}
		if len(got) != len(p.all())-long {
			w.fail(props, "args", "%s: %d calls were made, the file server is asked for %d operations: %s", label, len(p.all()), len(got), opsOf(nss[i]))
			return false
		}
	}
	return true
}

func opsOf(n *recNS) string {
	s := ""
	for i, m := range n.ops {
		if i > 12 {
			s += "..."
			break
		}
		s += fmt.Sprintf("%v; ", m)
	}
	return s
}

func (w *W) emodeDraw() emode {
	md := emode{chunk: [2]int{w.chunking(), w.chunking()}}
	if w.cfg(4) == 1 {
		w.small = true
		md.cap = [2]int{1 + w.cfg(64), 1 + w.cfg(64)}
	}
	if md.chunk[0] == 1 || md.chunk[1] == 1 {
		w.small = w.small || w.cfg(4) > 0
	}
	return md
}

func runE(w *W) {
	md := w.emodeDraw()
	if w.cfg(150) == 1 {
		w.huge, w.small, md = true, false, emode{}
	}
	salt := uint64(w.cfg(1 << 16))
	var ps []*plan
	for i := 1 + w.cfg(2); i > 0; i-- {
		ps = append(ps, w.newPlan(i))
	}
	nss, ok := w.phaseE("e", salt, ps, md)
	if ok {
		ok = w.judgeE("C12", "e", salt, ps, nss)
	}
	for i := w.draw(4); ok && i > 0; i-- {
		ok = w.judgeAttrs()
	}
}

// judgeAttrs: file attributes, as stat and wstat carry them, come out of the
// codec as they went in.
func (w *W) judgeAttrs() bool {
	num := func(bits uint) uint64 {
		switch w.draw(4) {
		case 0:
			return 1<<bits - 1
		case 1:
			return 1 << uint(w.draw(int(bits)))
		case 2:
			return 0
		}
		var v uint64
		for _, c := range w.s.Bytes(simrt.Op, 8) {
			v = v<<8 | uint64(c)
		}
		return v & (1<<bits - 1)
	}
	d := Stat{Type: uint16(num(16)), Dev: uint32(num(32)), Qid: Qid{uint8(num(8)), uint32(num(32)), num(64)}, Mode: uint32(num(32)),
		Atime: uint32(num(32)), Mtime: uint32(num(32)), Length: num(64), Name: w.str(300), Uid: w.str(20), Gid: w.str(300), Muid: w.str(20)}
	p := protocol.Dir{Type: d.Type, Dev: d.Dev, QID: protocol.QID{Type: d.Qid.Type, Version: d.Qid.Vers, Path: d.Qid.Path}, Mode: d.Mode,
		Atime: d.Atime, Mtime: d.Mtime, Length: d.Length, Name: d.Name, User: d.Uid, Group: d.Gid, ModUser: d.Muid}
	want := encStat(d)
	var b bytes.Buffer
	protocol.Marshaldir(&b, p)
	if !bytes.Equal(b.Bytes(), want) {
		w.fail("C12", "attributes", "the attributes %+v are encoded as %x, not as %x", p, b.Bytes(), want)
		return false
	}
	got, err := protocol.Unmarshaldir(bytes.NewBuffer(want))
	if err != nil || got != p {
		w.fail("C12", "attributes", "the attributes %+v come out of the codec as %+v, %v", p, got, err)
		return false
	}
	return true
}

// tracer formats what it is given, as a logging function does, and sometimes
// takes its time.
func (w *W) tracer(kind int) protocol.Tracer {
	if kind == 0 {
		return nil
	}
	return func(f string, args ...interface{}) {
		s := fmt.Sprintf(f, args...)
		w.s.Count("probe:traced")
		if kind == 2 {
			simrt.YieldPoint("trace")
		}
		_ = s
	}
}

// compareE holds two phases against each other.
func (w *W) compareE(prop, what string, a, b []*plan, na, nb []*recNS) bool {
	for i := range a {
		xs, ys := a[i].all(), b[i].all()
		for j := range xs {
			if xs[j].outcome() != ys[j].outcome() {
				w.fail(prop, "differs", "%s: %v: %s; otherwise: %s (%s)", what, ys[j].m, ys[j].show(), xs[j].show(), w.s.Blocked())
				return false
			}
		}
		ops := func(n *recNS) []string {
			var o []string
			if n != nil {
				for _, m := range n.ops {
					o = append(o, m.body())
				}
			}
			sort.Strings(o)
			return o
		}
		oa, ob := ops(na[i]), ops(nb[i])
		if fmt.Sprint(oa) != fmt.Sprint(ob) {
			d := "none"
			if nb[i] != nil {
				d = opsOf(nb[i])
			}
			w.fail(prop, "operations", "%s: the file server is asked for %s otherwise: %s", what, d, opsOf(na[i]))
			return false
		}
	}
	return true
}

func debugWrap(n protocol.NineServer) protocol.NineServer {
	return &debugfs.DebugFileServer{FileServer: n}
}

// runDiagStall: a connection gets stuck, first without diagnostics, then with
// them; the others must get the same answers both times.
func runDiagStall(w *W) {
	w.marked = true
	salt := uint64(w.cfg(1 << 16))
	n := 2 + w.cfg(3)
	var reqs [][]*sreq
	var cutBy []int
	for i := 0; i < n; i++ {
		c := w.newSconn(i + 1)
		c.good(tVersion)
		for k := 1 + w.cfg(6); k > 0; k-- {
			c.good(kinds[w.draw(len(kinds))])
		}
		reqs = append(reqs, c.reqs)
		cutBy = append(cutBy, w.chunking())
	}
	bad := w.cfg(n)
	kind := w.fdraw(3)
	size := 1 + w.fdraw(16)
	w.s.Count("fault:conn-" + []string{"slow-operation", "stop-reading", "partial-request"}[kind])
	phase := func(label string, trace protocol.Tracer, wrap func(protocol.NineServer) protocol.NineServer) (conns []*sconn, done bool) {
		w.logf("phase %s", label)
		l, nss, _ := w.newListener(salt, trace, wrap)
		open := false
		gate := func(m Msg) {
			id := m.Fid & 15
			if m.T == tFlush {
				id = uint32(m.Oldtag & 15)
			}
			if m.T != tVersion && int(id) == bad+1 && !open {
				w.s.Count("probe:operation-stalled")
				simrt.Park("stalled operation", func() bool { return open })
			}
		}
		setGate := func() {
			for _, n := range *nss {
				if kind == 0 {
					n.gate = gate
				}
			}
		}
		ln := &simListener{id: 2000}
		for i := range reqs {
			c := w.newSconn(i + 1)
			c.sv.rd.chunk = cutBy[i]
			for k, r := range reqs[i] {
				x := c.add(&sreq{raw: r.raw, m: r.m, valid: true, sup: true})
				if kind == 2 && i == bad && k > 0 && k == len(reqs[i])-1 {
					x.raw = x.raw[:1+size%(len(x.raw)-1)]
				}
			}
			if i == bad && kind == 1 {
				c.noRead = true
				c.sv.wr.cap = size
			}
			conns = append(conns, c)
		}
		for _, c := range conns {
			if c.id == bad+1 {
				ln.q = append(ln.q, acceptEvent{conn: c.sv})
				c.start(-1)
			}
		}
		simrt.Go("serve "+label, func() { l.Serve(ln) })
		w.s.Run(eBudget, func() bool { setGate(); return len(*nss) > 0 })
		setGate()
		w.s.Run(100, nil)
		for _, c := range conns {
			if c.id != bad+1 {
				ln.q = append(ln.q, acceptEvent{conn: c.sv})
				c.start(-1)
			}
		}
		o := w.s.Run(eBudget, func() bool {
			setGate()
			for _, c := range conns {
				for _, r := range c.reqs {
					if r.gotN == 0 && c.id != bad+1 {
						return false
					}
				}
			}
			return true
		})
		open = true
		return conns, o == simrt.Until
	}
	a, ok := phase("plain", nil, nil)
	if !ok || w.s.Failed() {
		return
	}
	var trace protocol.Tracer
	var wrap func(protocol.NineServer) protocol.NineServer
	what := ""
	for what == "" {
		if k := w.cfg(3); k > 0 {
			trace = w.tracer(k)
			what += "listener trace "
		}
		if w.cfg(2) == 1 {
			wrap = debugWrap
			what += "debug wrapper "
		}
	}
	b, ok := phase("diag", trace, wrap)
	if w.s.Failed() {
		return
	}
	for i, c := range b {
		if i == bad {
			continue
		}
		for k, r := range c.reqs {
			x := a[i].reqs[k]
			if r.gotN == 0 {
				w.fail("C13", "blocked", "with %sconnection %d gets no reply to %v while connection %d is stuck, without it does (%s)", what, c.id, r.m, bad+1, w.s.Blocked())
				return
			}
			if len(x.got) == 1 && (len(r.got) != 1 || r.got[0].body() != x.got[0].body()) {
				w.fail("C13", "differs", "with %sconnection %d: %v gets %v, without %v", what, c.id, r.m, r.got, x.got)
				return
			}
		}
	}
	_ = ok
}

func runDiag(w *W) {
	md := w.emodeDraw()
	salt := uint64(w.cfg(1 << 16))
	var ps, qs []*plan
	for i := 1 + w.cfg(2); i > 0; i-- {
		p := w.newPlan(i)
		ps, qs = append(ps, p), append(qs, p.again())
	}
	// one side has no diagnostics at all; in some runs the other side differs
	// only in one of them
	var mb emode
	what := ""
	for what == "" {
		mb = md
		c, l, d := w.cfg(3), w.cfg(3), w.cfg(2)
		mb.ctrace, mb.ltrace = w.tracer(c), w.tracer(l)
		if c > 0 {
			what += "client trace "
		}
		if l > 0 {
			what += "listener trace "
		}
		if d > 0 {
			what += "debug wrapper "
			mb.wrap = debugWrap
		}
		if what == "" && w.cfg(2) == 0 {
			what = "no diagnostics "
		}
	}
	na, ok := w.phaseE("plain", salt, ps, md)
	if !ok {
		return
	}
	nb, ok := w.phaseE("diag", salt, qs, mb)
	if !ok {
		return
	}
	if !w.compareE("C13", "with "+what, ps, qs, na, nb) {
		return
	}
}

// ---------------------------------------------------------------- C06

// runChunkE: the same calls with every message delivered whole and with the
// stream chunked.
func runChunkE(w *W) {
	salt := uint64(w.cfg(1 << 16))
	md := w.emodeDraw()
	if md.chunk == [2]int{} {
		md.chunk[w.cfg(2)] = 1 + w.cfg(3)
	}
	p := w.newPlan(1)
	q := p.again()
	na, ok := w.phaseE("whole", salt, []*plan{p}, emode{})
	if !ok {
		return
	}
	if !w.judgeE("C12", "whole", salt, []*plan{p}, na) {
		return
	}
	nb, ok := w.phaseE("chunked", salt, []*plan{q}, md)
	if !ok {
		return
	}
	w.compareE("C06", fmt.Sprintf("chunked %v", md.chunk), []*plan{p}, []*plan{q}, na, nb)
}

// runChunkK: the model server sends its replies one by one and whole, then
// merged and chunked.
func runChunkK(w *W) {
	salt := uint64(w.cfg(1 << 16))
	chunk := 1 + w.cfg(3)
	w.small = w.small || chunk == 1 && w.cfg(4) > 0
	p := w.newPlan(1)
	q := p.again()
	phase := func(label string, p *plan, whole bool) bool {
		w.logf("phase %s", label)
		a, b := w.newConn(label)
		if !whole {
			a.rd.chunk = chunk
			b.rd.chunk = w.chunking()
			if w.cfg(3) == 1 {
				a.rd.cap = 1 + w.cfg(64)
				if !w.small {
					a.rd.cap *= 64
				}
			}
		}
		var out []byte
		closed := false
		simrt.Go(label+" server", func() {
			for {
				f, err := readFrame(b)
				if err != nil {
					closed = true
					return
				}
				m, ok := dec(f)
				if !ok {
					w.fail("C01", "request", "the client sends a malformed request")
					return
				}
				tag := m.Tag
				m.Tag = 0
				r := answer(m, salt, w.small)
				r.Tag = tag
				out = append(out, enc(r, nil)...)
			}
		})
		simrt.Go(label+" sender", func() {
			for {
				simrt.Park("replies", func() bool { return len(out) > 0 || closed })
				if len(out) == 0 {
					return
				}
				n := len(out)
				if whole {
					n = int(out[0]) | int(out[1])<<8 | int(out[2])<<16 | int(out[3])<<24
				} else if w.s.Draw(simrt.Net, 3) == 0 {
					n = 1 + w.s.Draw(simrt.Net, n)
				}
				x := append([]byte(nil), out[:n]...)
				out = out[n:]
				if _, err := b.Write(x); err != nil {
					return
				}
				if whole {
					simrt.Park("taken", func() bool { return len(b.wr.buf) == 0 || closed })
				}
			}
		})
		w.carryOut(label, a, nil, p)
		w.settle(eBudget)
		return !w.s.Failed()
	}
	if !phase("whole", p, true) {
		return
	}
	for _, x := range p.all() {
		if !x.done {
			w.fail("C01", "hang", "%v does not return", x.m)
			return
		}
	}
	if !phase("chunked", q, false) {
		return
	}
	w.compareE("C06", fmt.Sprintf("chunked %d", chunk), []*plan{p}, []*plan{q}, []*recNS{nil}, []*recNS{nil})
}

// runChunkS: raw requests one by one and whole, then pipelined and chunked.
func runChunkS(w *W) {
	salt := uint64(w.cfg(1 << 16))
	chunk := w.chunking()
	w.small = w.small || chunk == 1 && w.cfg(4) > 0
	c := w.newSconn(1)
	if w.cfg(8) > 0 {
		c.good(tVersion)
	}
	for k := 1 + w.cfg(12); k > 0; k-- {
		switch w.draw(8) {
		case 5:
			c.odd()
		case 6:
			if r := c.mangled(); r.ends {
				c.reqs = c.reqs[:len(c.reqs)-1]
				delete(c.byTag, r.m.Tag)
			}
		default:
			c.good(kinds[w.draw(len(kinds))])
		}
	}
	type resT struct {
		replies [][]byte
		ops     string
		end     string
	}
	phase := func(label string, whole bool) (r resT, ok bool) {
		w.logf("phase %s", label)
		l, nss, _ := w.newListener(salt, nil, nil)
		a, b := w.newConn(label)
		if !whole {
			b.rd.chunk = chunk
			if w.cfg(3) == 1 {
				b.rd.cap = 1 + w.cfg(64)
				if !w.small {
					b.rd.cap *= 64
				}
			}
		}
		simrt.Go(label+" accept", func() { l.Accept(b) })
		var stream []byte
		for _, q := range c.reqs {
			stream = append(stream, q.raw...)
		}
		n, sent, last := 0, 0, false
		simrt.Go(label+" send", func() {
			if whole {
				for i, q := range c.reqs {
					if _, err := a.Write(q.raw); err != nil {
						return
					}
					sent++
					i := i
					simrt.Park("lock step", func() bool { return n > i || r.end != "" })
				}
			} else {
				for len(stream) > 0 {
					k := len(stream)
					if w.s.Draw(simrt.Net, 2) == 1 {
						k = 1 + w.s.Draw(simrt.Net, k)
					}
					if _, err := a.Write(stream[:k]); err != nil {
						return
					}
					stream = stream[k:]
				}
			}
			last = true
		})
		simrt.Go(label+" recv", func() {
			for {
				f, err := readFrame(a)
				if err != nil {
					r.end = fmt.Sprintf("end of stream after %d replies, %d bytes", n, len(f))
					return
				}
				w.logf("%s reply %d: %s, %d bytes", label, n, tname(f[4]), len(f))
				r.replies = append(r.replies, f)
				n++
			}
		})
		w.idle(eBudget)
		if w.s.Failed() {
			return r, false
		}
		_ = last
		for _, x := range *nss {
			r.ops += opsAll(x)
		}
		return r, true
	}
	x, ok := phase("whole", true)
	if !ok {
		return
	}
	y, ok := phase("chunked", false)
	if !ok {
		return
	}
	for i := 0; i < len(x.replies) || i < len(y.replies); i++ {
		sx, sy := "no reply", "no reply"
		if i < len(x.replies) {
			sx = string(x.replies[i])
		}
		if i < len(y.replies) {
			sy = string(y.replies[i])
		}
		if sx != sy {
			w.fail("C06", "differs", "reply %d is %.60q when the requests come chunked (%d), %.60q when they come whole; %s", i, sy, chunk, sx, w.s.Blocked())
			return
		}
	}
	if x.ops != y.ops {
		w.fail("C06", "operations", "chunked (%d), the file server is asked for other operations", chunk)
		return
	}
	if x.end != y.end {
		w.fail("C06", "differs", "chunked (%d): %q, whole: %q", chunk, y.end, x.end)
	}
}

func opsAll(n *recNS) string {
	var b bytes.Buffer
	for _, m := range n.ops {
		fmt.Fprintf(&b, "%q\n", m.body())
	}
	return b.String()
}

func init() {
	register("C12", scenario{"client-server", 1, runE})
	register("C13", scenario{"diagnostics", 2, runDiag})
	register("C13", scenario{"diagnostics-stall", 1, runDiagStall})
	register("C06", scenario{"chunk-both", 1, runChunkE}, scenario{"chunk-client", 1, runChunkK}, scenario{"chunk-server", 1, runChunkS})
}
