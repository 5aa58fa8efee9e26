package world

import (
	"errors"
	"fmt"
	"io"
	"net"
	"syscall"
	"time"

	"github.com/Harvey-OS/ninep/protocol"
	"github.com/Harvey-OS/ninep/sim/simrt"
)

// World S: the real server over a recording file server, raw clients.

// sreq is a request a raw client sends.
type sreq struct {
	raw   []byte
	m     Msg
	valid bool // decodes exactly and is of a supported type
	sup   bool // supported type
	bad   bool // does not decode
	pre   bool // sent before any version request
	ends  bool // nothing after it can be understood
	got   []Msg
	gotN  int
}

type sconn struct {
	w       *W
	id      int
	cl, sv  *simConn
	reqs    []*sreq
	byTag   map[uint16]*sreq
	replies int
	eof     bool
	rerr    string
	stray   string
	noRead  bool // the client does not read
	wfail   bool
	closing bool
	split   int
	reuse   bool // tags are used again once they are free
	hold    int  // of this many bytes of the next request the previous one's reply waits for
	half    bool // the client ends its direction after the last request
	held    *sreq
}

func (w *W) newSconn(id int) *sconn {
	c := &sconn{w: w, id: id, byTag: map[uint16]*sreq{}}
	c.cl, c.sv = w.newConn(fmt.Sprintf("c%d", id))
	return c
}

// supported lists the request types the server implements.
func supported(t uint8) bool {
	for _, k := range kinds {
		if k == t {
			return true
		}
	}
	return false
}

// again adds an earlier request once more, with a tag of its own.
func (c *sconn) again() {
	var c0 []*sreq
	for _, r := range c.reqs {
		if r.sup && !r.bad {
			c0 = append(c0, r)
		}
	}
	if len(c0) == 0 {
		return
	}
	m := c0[c.w.draw(len(c0))].m
	if c.w.draw(2) == 0 {
		m = c0[len(c0)-1].m
	}
	m.Tag = c.newTag()
	c.w.s.Count("probe:same-request-again")
	c.add(&sreq{raw: enc(m, nil), m: m, valid: true, sup: true})
}

func (c *sconn) newTag() uint16 {
	t := uint16(c.w.draw(65536))
	if c.w.draw(4) == 0 {
		t = []uint16{0, 1, 255, 256, 0xfffe, 0xffff, 0x8000}[c.w.draw(7)]
	}
	for c.byTag[t] != nil {
		t++
	}
	return t
}

func (c *sconn) add(r *sreq) *sreq {
	c.byTag[r.m.Tag] = r
	c.reqs = append(c.reqs, r)
	return r
}

// good adds a well-formed request of a supported type.
func (c *sconn) good(t uint8) *sreq {
	m := c.w.genT(t)
	// make it tell its connection
	if !c.w.natural(m) {
		switch t {
		case tVersion:
			m.Msize = m.Msize&^0xf | uint32(c.id)
		case tFlush:
			m.Oldtag = m.Oldtag&^0xf | uint16(c.id)
		default:
			m.Fid = m.Fid&^0xf | uint32(c.id)
		}
	}
	c.w.made(m)
	m.Tag = c.newTag()
	if t == tVersion && c.byTag[0xffff] == nil && c.w.draw(2) == 0 {
		m.Tag = 0xffff
	}
	return c.add(&sreq{raw: enc(m, nil), m: m, valid: true, sup: true})
}

// odd adds a request of a type the server does not implement.
func (c *sconn) odd() *sreq {
	t := uint8(c.w.draw(256))
	if c.w.draw(3) == 0 {
		t = []uint8{tAuth, tError, rError, tVersion + 1, tRead + 1, 0, 255, 98, 128, 127}[c.w.draw(10)]
	}
	for supported(t) {
		t++
	}
	b := append([]byte{0, 0, 0, 0, t, 0, 0}, c.w.bytes(300)...)
	tag := c.newTag()
	copy(b[5:], le(2, uint64(tag)))
	setSize(b, len(b))
	return c.add(&sreq{raw: b, m: Msg{T: t, Tag: tag}, valid: true})
}

// mangled adds a request that does not decode.
func (c *sconn) mangled() *sreq {
	w := c.w
	for i := 0; ; i++ {
		m := w.genT(kinds[w.draw(len(kinds))])
		m.Tag = c.newTag()
		if i > 20 {
			return c.add(&sreq{raw: enc(m, nil)[:6], m: m, bad: true, ends: true})
		}
		if b, ends, ok := w.mangle(m); ok {
			return c.add(&sreq{raw: b, m: m, bad: true, ends: ends})
		}
	}
}

// mangle gives the request in a form that does not decode.
func (w *W) mangle(m Msg) (b []byte, ends, ok bool) {
	var lens [][2]int
	b = enc(m, &lens)
	kind := ""
	switch w.fdraw(6) {
	case 0: // too short
		kind = "short"
		b = b[:7+w.fdraw(len(b)-7)]
		setSize(b, len(b))
	case 1: // too long
		kind = "long"
		b = append(b, w.s.Bytes(simrt.Fault, 1+w.fdraw(9))...)
		setSize(b, len(b))
	case 2, 3: // inner length
		if len(lens) == 0 {
			return nil, false, false
		}
		kind = "inner"
		l := lens[w.fdraw(len(lens))]
		var old uint64
		for i := 0; i < l[1]; i++ {
			old |= uint64(b[l[0]+i]) << (8 * uint(i))
		}
		v := []uint64{old + 1, 1<<32 - 1, 0xffff, 0x8000, 0x7fffffff, 0x80000000, uint64(len(b)), old + 7, 512, 0}[w.fdraw(10)]
		copy(b[l[0]:l[0]+l[1]], le(l[1], v))
	case 4:
		kind = "size"
		setSize(b, w.fdraw(7))
		ends = true
	case 5:
		kind = "oversize"
		setSize(b, []int{len(b) + 1, len(b) + 1000, 1 << 31, 1<<32 - 1}[w.fdraw(4)])
		ends = true
	}
	if _, ok := dec(b); ok && !ends {
		return nil, false, false
	}
	w.s.Count("fault:malformed-" + kind)
	return b, ends, true
}

// send writes the requests; cut>=0 ends the stream after that many bytes.
func (c *sconn) send(cut int) {
	n := 0
	if c.half {
		defer func() {
			c.w.s.Count("fault:half-close")
			c.cl.CloseWrite()
		}()
	}
	var lead []byte // the request so far held back
	for i, r := range c.reqs {
		b := r.raw[len(lead):]
		lead = nil
		if c.hold > 0 && i+1 < len(c.reqs) && c.w.s.Chance(simrt.Net, 1, 2) {
			// The beginning of the next request comes along with this one,
			// the rest of it after this one's reply.
			x := c.reqs[i+1].raw
			k := 1 + c.w.s.Draw(simrt.Net, len(x)-1)
			if k > c.hold {
				k = c.hold
			}
			lead = x[:k]
			b = append(b[:len(b):len(b)], lead...)
		}
		stop := false
		if cut >= 0 && n+len(b) > cut {
			b = b[:cut-n]
			stop = true
		}
		c.w.logf("client %d sends %d bytes: %v", c.id, len(b), r.m)
		n += len(b)
		for len(b) > 0 {
			k := len(b)
			if c.split == 1 {
				k = 1 + c.w.s.Draw(simrt.Net, len(b))
			}
			c.w.nap()
			if _, err := c.cl.Write(b[:k]); err != nil {
				c.wfail = true
				return
			}
			b = b[k:]
		}
		if stop {
			break
		}
		if lead == nil && c.reuse && i+1 < len(c.reqs) && c.w.s.Chance(simrt.Net, 1, 2) {
			c.held = r
			simrt.Park("reply", func() bool { return r.gotN > 0 || c.eof })
			c.held = nil
			x := c.reqs[i+1]
			x.m.Tag = r.m.Tag
			copy(x.raw[5:], le(2, uint64(r.m.Tag)))
			c.byTag[r.m.Tag] = x
			c.w.s.Count("probe:tag-reused")
		}
		if lead != nil {
			c.w.s.Count("probe:reply-awaited")
			c.held = r
			simrt.Park("reply", func() bool { return r.gotN > 0 || c.eof })
			c.held = nil
		}
	}
	if cut >= 0 {
		c.w.s.Count("fault:stream-cut")
		c.cl.CloseWrite()
	}
}

// recv collects the replies.
func (c *sconn) recv() {
	for !c.noRead {
		c.w.nap()
		f, err := readFrame(c.cl)
		if err != nil {
			if len(f) > 0 {
				c.rerr = fmt.Sprintf("%v after %d bytes", err, len(f))
			}
			c.eof = true
			return
		}
		c.replies++
		tag := uint16(f[5]) | uint16(f[6])<<8
		m, ok := dec(f)
		if ok {
			c.w.logf("client %d gets %v", c.id, m)
		} else {
			c.w.logf("client %d gets an undecodable %s", c.id, tname(f[4]))
		}
		r := c.byTag[tag]
		if r == nil {
			c.stray = fmt.Sprintf("a reply (%s) with tag %d, which no request carried", tname(f[4]), tag)
			continue
		}
		r.gotN++
		if !ok {
			c.rerr = fmt.Sprintf("undecodable reply (%s, %d bytes) to %v", tname(f[4]), len(f), r.m)
			continue
		}
		r.got = append(r.got, m)
	}
}

func (c *sconn) start(cut int) {
	simrt.Go(fmt.Sprintf("client%d-send", c.id), func() { c.send(cut) })
	simrt.Go(fmt.Sprintf("client%d-recv", c.id), c.recv)
}

// judgeOps compares the operations the file server was asked for with the
// requests sent.
func strip(m Msg) Msg { m.Tag = 0; return m }

func (c *sconn) nsFor(nss []*recNS) *recNS {
	// the instance whose operations are this connection's
	for _, n := range nss {
		for _, m := range n.ops {
			for _, r := range c.reqs {
				if r.sup && r.m.body() == m.body() {
					return n
				}
			}
		}
	}
	return nil
}

const sBudget = 300000

// serveOn hands connections to the real listener.
func (w *W) serveOn(l *protocol.Listener, viaServe bool, conns []*sconn) *simListener {
	ln := &simListener{id: 1000}
	if viaServe {
		for _, c := range conns {
			ln.q = append(ln.q, acceptEvent{conn: c.sv})
		}
		simrt.Go("serve", func() { l.Serve(ln) })
		return ln
	}
	simrt.Go("accept", func() {
		for _, c := range conns {
			l.Accept(c.sv)
		}
	})
	return ln
}

func (w *W) transport(c *sconn) {
	c.sv.rd.chunk = w.chunking()
	c.split = w.cfg(2)
	if w.cfg(4) == 1 {
		w.small = true
		c.sv.rd.cap = 1 + w.cfg(64)
		c.sv.wr.cap = 1 + w.cfg(64)
	}
}

// ---------------------------------------------------------------- C07

func runSReplies(w *W) {
	n := 1 + w.cfg(3)
	salt := uint64(w.cfg(1 << 16))
	l, nss, _ := w.newListener(salt, nil, nil)
	var conns []*sconn
	crowd := w.crowd(60, 3000)
	if crowd > 0 {
		n = 1
		w.small = true
	}
	for i := 0; i < n; i++ {
		c := w.newSconn(i + 1)
		if crowd == 0 {
			w.transport(c)
		}
		conns = append(conns, c)
	}
	for _, c := range conns {
		if w.cfg(3) == 1 {
			c.hold = []int{1, 4, 6, 7, 8, 40, 1 << 20}[w.cfg(7)]
		}
		c.half = w.cfg(4) == 1
		c.reuse = w.cfg(3) == 1
		c.good(tVersion)
		if crowd > 0 { // all at once
			c.hold, c.reuse = 0, false
		}
		for k := 1 + w.cfg(15) + crowd; k > 0; k-- {
			switch w.draw(7) {
			case 5:
				c.odd()
			case 6:
				c.again()
			default:
				c.good(kinds[w.draw(len(kinds))])
			}
		}
	}
	w.serveOn(l, w.cfg(2) == 1, conns)
	for _, c := range conns {
		c.start(-1)
	}
	if !w.idle(sBudget + 1000*crowd) {
		if !w.s.Failed() {
			w.fail("C07", "hang", "the server does not come to rest (%s)", w.s.Blocked())
		}
		return
	}
	for _, c := range conns {
		if r := c.held; r != nil {
			w.fail("C07", "held-back", "client %d gets no reply to %v before it has sent the rest of the next request (%s)", c.id, r.m, w.s.Blocked())
			return
		}
		if c.rerr != "" {
			w.fail("C07", "reply", "client %d: %s", c.id, c.rerr)
			return
		}
		if c.stray != "" {
			w.fail("C07", "stray", "client %d gets %s", c.id, c.stray)
			return
		}
		var want []Msg
		for _, r := range c.reqs {
			if r.sup {
				want = append(want, r.m)
			}
			if r.gotN == 0 {
				w.fail("C07", "missing", "client %d gets no reply to %v (connection ended: %v; %s)", c.id, r.m, c.eof, w.s.Blocked())
				return
			}
			if r.gotN > 1 {
				w.fail("C07", "twice", "client %d gets %d replies to %v", c.id, r.gotN, r.m)
				return
			}
			g := r.got[0]
			if g.T != rError && (g.T != r.m.T+1 || !r.sup) {
				w.fail("C07", "type", "client %d: %v is answered by %v", c.id, r.m, g)
				return
			}
			if r.sup {
				a := answer(strip(r.m), salt, w.small)
				if a.T != g.T {
					w.fail("C07", "type", "client %d: the file server answers %v to %v, the client gets %v", c.id, a, r.m, g)
					return
				}
				if !a.said(g) {
					w.fail("C12", "content", "client %d: the file server answers %v to %v, the client gets %v", c.id, a, r.m, g)
					return
				}
			}
		}
		if c.eof && !c.half {
			w.fail("C07", "closed", "client %d: the server ends the connection", c.id)
			return
		}
		ns := c.nsFor(*nss)
		var ops []Msg
		if ns != nil {
			ops = ns.ops
		}
		for i, m := range want {
			if i >= len(ops) {
				w.fail("C07", "ops", "client %d: %v never reaches the file server", c.id, m)
				return
			}
			if ops[i].body() != m.body() {
				w.fail("C07", "ops", "client %d: operation %d is %v, the request was %v", c.id, i, ops[i], m)
				return
			}
		}
		if len(ops) > len(want) {
			w.fail("C07", "ops", "client %d: the file server is asked for %v, which was not requested", c.id, ops[len(want)])
			return
		}
	}
}

// ---------------------------------------------------------------- C08

func runSMalformed(w *W) {
	n := 1 + w.cfg(2)
	salt := uint64(w.cfg(1 << 16))
	l, nss, _ := w.newListener(salt, nil, nil)
	var conns []*sconn
	cuts := map[*sconn]int{}
	for i := 0; i < n+1; i++ {
		c := w.newSconn(i + 1)
		w.transport(c)
		conns = append(conns, c)
		cuts[c] = -1
	}
	for i, c := range conns {
		c.good(tVersion)
		total := 0
		for k := 1 + w.cfg(8); k > 0; k-- {
			if i < n && w.fault(1, 3) {
				if c.mangled().ends {
					// what follows is swallowed by the wrong size; the end of
					// the stream comes after it
					cuts[c] = -2
					break
				}
			} else {
				c.good(kinds[w.draw(len(kinds))])
			}
		}
		for _, r := range c.reqs {
			total += len(r.raw)
		}
		if cuts[c] == -2 {
			cuts[c] = total
		} else if i < n && w.fault(1, 2) {
			// cut off at any byte, often inside the last message
			last := len(c.reqs[len(c.reqs)-1].raw)
			if w.fault(1, 2) {
				cuts[c] = total - w.fdraw(last)
			} else {
				cuts[c] = w.fdraw(total + 1)
			}
		}
	}
	w.serveOn(l, w.cfg(2) == 1, conns)
	for _, c := range conns {
		c.start(cuts[c])
	}
	if !w.idle(sBudget) {
		if !w.s.Failed() {
			w.fail("C08", "hang", "the server does not come to rest (%s)", w.s.Blocked())
		}
		return
	}
	for i, c := range conns {
		cut := cuts[c]
		ns := c.nsFor(*nss)
		var ops []Msg
		if ns != nil {
			ops = ns.ops
		}
		pos, k := 0, 0
		broken := false // the server may have ended the connection by now
		ended := false
		for _, r := range c.reqs {
			whole := cut < 0 || pos+len(r.raw) <= cut
			pos += len(r.raw)
			for _, g := range r.got {
				if (r.bad || !whole) && g.T != rError {
					w.fail("C08", "answered", "client %d: %s is answered by %v", c.id, describe(r, whole), g)
					return
				}
			}
			if r.bad || !whole {
				if k < len(ops) && ended == false && looksLike(ops[k], r, c.reqs) {
					w.fail("C08", "executed", "client %d: %s is executed as %v", c.id, describe(r, whole), ops[k])
					return
				}
				if whole && !r.ends && r.gotN == 0 {
					if !c.eof {
						w.fail("C08", "unanswered", "client %d: %s is not answered and the connection goes on", c.id, describe(r, whole))
						return
					}
					ended = true
				}
				broken = true
				continue
			}
			// a proper request
			if k < len(ops) && ops[k].body() == r.m.body() {
				if ended {
					w.fail("C08", "executed", "client %d: %v is executed after the connection ended", c.id, r.m)
					return
				}
				k++
				continue
			}
			if !broken {
				w.fail("C08 C07", "lost", "client %d: %v, ahead of anything malformed, is not executed", c.id, r.m)
				return
			}
			if !c.eof {
				w.fail("C08", "lost", "client %d: %v is not executed though the connection goes on", c.id, r.m)
				return
			}
			ended = true
		}
		if k < len(ops) {
			w.fail("C08", "executed", "client %d: the file server is asked for %v, which no well-formed request asks for", c.id, ops[k])
			return
		}
		if i == n { // the bystander
			for _, r := range c.reqs {
				if r.gotN != 1 {
					w.fail("C08 C10", "bystander", "another connection's %v gets %d replies", r.m, r.gotN)
					return
				}
			}
		}
	}
}

func describe(r *sreq, whole bool) string {
	if !whole {
		return fmt.Sprintf("a cut-off %v", r.m)
	}
	return fmt.Sprintf("a malformed %v (%d bytes)", r.m, len(r.raw))
}

// looksLike tells whether an operation can only stem from the bad request:
// no proper request on the connection is the same.
func looksLike(op Msg, r *sreq, all []*sreq) bool {
	if op.T != r.m.T {
		return false
	}
	for _, x := range all {
		if !x.bad && x.m.body() == op.body() && x != r {
			return false
		}
	}
	return true
}

// ---------------------------------------------------------------- C09

func runSVersion(w *W) {
	n := 1 + w.cfg(3)
	salt := uint64(w.cfg(1 << 16))
	l, nss, _ := w.newListener(salt, nil, nil)
	var conns []*sconn
	for i := 0; i < n; i++ {
		c := w.newSconn(i + 1)
		w.transport(c)
		conns = append(conns, c)
		seen := false
		for k := 1 + w.cfg(10); k > 0; k-- {
			var r *sreq
			switch w.draw(8) {
			case 0:
				r = c.good(tVersion)
			case 1:
				r = c.odd()
			default:
				t := kinds[1+w.draw(len(kinds)-1)]
				r = c.good(t)
			}
			r.pre = !seen && r.m.T != tVersion
			if r.m.T == tVersion {
				seen = true
			}
		}
	}
	// Others may have been there before, and negotiated a version.
	if before := w.cfg(4); before > 1 {
		ln := w.serveOn(l, true, nil)
		for ; before > 0; before-- {
			w.stranger(ln)
		}
		if w.cfg(3) > 0 && !w.idle(sBudget) {
			return
		}
		for _, c := range conns {
			ln.q = append(ln.q, acceptEvent{conn: c.sv})
			c.start(-1)
			if w.cfg(2) == 1 && w.s.Run(w.cfg(400), nil) == simrt.Failed {
				return
			}
		}
	} else {
		w.serveOn(l, w.cfg(2) == 1, conns)
		for _, c := range conns {
			c.start(-1)
		}
	}
	if !w.idle(sBudget) {
		if !w.s.Failed() {
			w.fail("C09", "hang", "the server does not come to rest (%s)", w.s.Blocked())
		}
		return
	}
	for _, c := range conns {
		ns := c.nsFor(*nss)
		var ops []Msg
		if ns != nil {
			ops = ns.ops
		}
		k := 0
		for _, r := range c.reqs {
			if r.pre {
				w.s.Count("probe:before-version")
				if k < len(ops) && ops[k].body() == r.m.body() {
					w.fail("C09", "early", "client %d: %v is executed before any version request", c.id, r.m)
					return
				}
				if len(r.got) != 1 || r.got[0].T != rError {
					w.fail("C09", "noerror", "client %d: %v before version gets %v, not one error", c.id, r.m, r.got)
					return
				}
				continue
			}
			if !r.sup {
				if len(r.got) != 1 || r.got[0].T != rError {
					w.fail("C07", "type", "client %d: %v gets %v", c.id, r.m, r.got)
					return
				}
				continue
			}
			if k >= len(ops) || ops[k].body() != r.m.body() {
				w.fail("C09", "refused", "client %d: %v is not executed after the version request", c.id, r.m)
				return
			}
			k++
			if len(r.got) != 1 {
				w.fail("C09 C07", "unanswered", "client %d: %v gets %d replies", c.id, r.m, len(r.got))
				return
			}
			if a := answer(strip(r.m), salt, w.small); !a.said(r.got[0]) {
				w.fail("C09", "refused", "client %d: %v after version is answered %v, the file server said %v", c.id, r.m, r.got[0], a)
				return
			}
		}
		if k < len(ops) {
			w.fail("C09", "early", "client %d: the file server is asked for %v out of turn", c.id, ops[k])
			return
		}
	}
}

// ---------------------------------------------------------------- C10

// runSIsolation has one or more bad connections beside good ones.
func runSIsolation(w *W) {
	w.marked = true
	good := 1 + w.cfg(3)
	bad := 1 + w.cfg(2)
	salt := uint64(w.cfg(1 << 16))
	var trace protocol.Tracer
	var wrap func(protocol.NineServer) protocol.NineServer
	if w.cfg(4) == 1 {
		wrap = debugWrap
	}
	if w.cfg(4) == 1 {
		trace = w.tracer(1 + w.cfg(2))
	}
	l, nss, all := w.newListener(salt, trace, wrap)
	var conns, goods, bads []*sconn
	for i := 0; i < good+bad; i++ {
		c := w.newSconn(i + 1)
		w.transport(c)
		conns = append(conns, c)
		c.good(tVersion)
		for k := 1 + w.cfg(8); k > 0; k-- {
			c.good(kinds[w.draw(len(kinds))])
		}
	}
	// which ones are bad
	for i, c := range conns {
		left := len(conns) - i
		if len(bads) < bad && (left <= bad-len(bads) || w.cfg(2) == 1) {
			bads = append(bads, c)
		} else {
			goods = append(goods, c)
		}
	}
	late := w.cfg(2) == 1 && len(goods) > 0
	isBad := map[*sconn]string{}
	gateFor := map[uint32]bool{}
	open := false
	for _, c := range bads {
		kind := []string{"stop-reading", "slow-operation", "garbage", "break", "reset", "silent"}[w.fdraw(6)]
		isBad[c] = kind
		w.s.Count("fault:conn-" + kind)
		switch kind {
		case "stop-reading":
			c.noRead = true
			c.sv.wr.cap = 1 + w.fdraw(16)
		case "slow-operation":
			gateFor[uint32(c.id)] = true
		case "garbage":
			for k := 1 + w.fdraw(3); k > 0; k-- {
				c.mangled()
			}
		case "break":
			c.sv.rd.cutAt, c.sv.rd.cutKind = int64(1+w.fdraw(60)), "eof"
		case "reset":
			c.sv.rd.cutAt, c.sv.rd.cutKind = int64(1+w.fdraw(60)), "reset"
			c.sv.wr.cutAt, c.sv.wr.cutKind = int64(w.fdraw(60)), "reset"
			if c.sv.wr.cutAt == 0 {
				c.sv.wr.cut()
			}
		case "silent":
			c.reqs = c.reqs[:w.fdraw(len(c.reqs))]
		}
		w.logf("connection %d is bad: %s", c.id, kind)
	}
	gate := func(m Msg) {
		id := m.Fid & 0xf
		if m.T == tVersion {
			id = m.Msize & 0xf
		}
		if m.T == tFlush {
			id = uint32(m.Oldtag & 0xf)
		}
		if gateFor[id] && !open && m.T != tVersion {
			w.s.Count("probe:operation-stalled")
			simrt.Park("stalled operation", func() bool { return open })
		}
	}
	first := conns
	if late { // the good ones arrive when the bad ones are already there
		first = bads
	}
	setGate := func() {
		for _, n := range *nss {
			n.gate = gate
		}
	}
	// Many others may have come before, gone or still there.
	strangers := []int{0, 0, 0, 0, 3, 10, 40, 140, 0, 0, 0, 400}[w.cfg(12)]
	ln := w.serveOn(l, true, nil)
	for i := 0; i < strangers; i++ {
		w.stranger(ln)
	}
	if strangers > 0 && w.cfg(2) == 1 && w.s.Run(sBudget, nil) == simrt.Failed {
		return
	}
	for _, c := range first {
		ln.q = append(ln.q, acceptEvent{conn: c.sv})
		c.start(-1)
	}
	// gates have to be in place before operations: step until accepted
	w.s.Run(sBudget, func() bool { setGate(); return len(*nss) == len(first)+strangers })
	setGate()
	if late {
		w.s.Run(200+w.cfg(400), nil)
		for _, c := range goods {
			ln.q = append(ln.q, acceptEvent{conn: c.sv})
			c.start(-1)
		}
	}
	done := func() bool {
		setGate()
		for _, c := range goods {
			for _, r := range c.reqs {
				if r.gotN == 0 {
					return false
				}
			}
		}
		return true
	}
	o := w.s.Run(sBudget, done)
	if o == simrt.Failed {
		return
	}
	if o != simrt.Until {
		for _, c := range goods {
			for _, r := range c.reqs {
				if r.gotN == 0 {
					w.fail("C10", "blocked", "connection %d gets no reply to %v beside bad connections %v (%s)", c.id, r.m, isBadList(conns, isBad), w.s.Blocked())
					return
				}
			}
		}
	}
	open = true
	if w.s.Run(sBudget, nil) == simrt.Failed {
		return
	}
	for _, c := range goods {
		if c.rerr != "" || c.stray != "" || c.eof {
			w.fail("C10", "disturbed", "connection %d beside bad connections %v: %s%s ended %v", c.id, isBadList(conns, isBad), c.rerr, c.stray, c.eof)
			return
		}
		ns := c.nsFor(*nss)
		if ns == nil {
			w.fail("C10", "session", "connection %d has no session of its own", c.id)
			return
		}
		if len(ns.ops) != len(c.reqs) {
			w.fail("C10", "session", "connection %d made %d requests, its session served %d", c.id, len(c.reqs), len(ns.ops))
			return
		}
		for i, r := range c.reqs {
			if ns.ops[i].body() != r.m.body() {
				w.fail("C10", "session", "the session of connection %d serves %v instead of %v", c.id, ns.ops[i], r.m)
				return
			}
			a := answer(strip(r.m), salt, w.small)
			if r.gotN != 1 || len(r.got) != 1 || !a.said(r.got[0]) {
				w.fail("C10", "altered", "connection %d: %v gets %v, should get %v", c.id, r.m, r.got, a)
				return
			}
		}
	}
	_ = all
	if len(*nss) != len(conns)+strangers {
		w.fail("C10", "session", "%d connections have %d sessions", len(conns)+strangers, len(*nss))
	}
}

// stranger is a connection nobody cares about. It ends somehow, or stays.
func (w *W) stranger(ln *simListener) {
	a, b := w.newConn("stranger")
	ln.q = append(ln.q, acceptEvent{conn: b})
	kind := w.fdraw(6)
	w.s.Count("fault:stranger")
	hello := enc(Msg{T: tVersion, Tag: 0xffff, Msize: 8190, Str: "9P2000"}, nil)
	if kind == 0 {
		b.rd.rerr = syscall.ECONNRESET
		b.wr.werr = syscall.ECONNRESET
		return
	}
	if kind == 1 {
		return
	}
	simrt.Go("stranger", func() {
		switch kind {
		case 2:
			a.Close()
		case 3:
			a.Write(hello[:1+w.fdraw(len(hello)-1)])
			a.Close()
		case 4:
			setSize(hello, 3)
			a.Write(hello)
		case 5:
			a.Write(hello)
			readFrame(a)
			if w.fault(1, 2) {
				a.Close()
			}
		}
	})
}

func isBadList(conns []*sconn, m map[*sconn]string) []string {
	var o []string
	for _, c := range conns {
		if k, ok := m[c]; ok {
			o = append(o, fmt.Sprintf("%d:%s", c.id, k))
		}
	}
	return o
}

// ---------------------------------------------------------------- C11

func tempError(i int) error {
	switch i {
	case 1:
		return &net.OpError{Op: "accept", Net: "tcp", Err: syscall.ECONNABORTED}
	case 2:
		return &net.OpError{Op: "accept", Net: "tcp", Err: syscall.EMFILE}
	}
	return &netError{msg: "accept: try again", temp: true, tmo: i == 3}
}

func runSAccept(w *W) {
	salt := uint64(w.cfg(1 << 16))
	l, nss, _ := w.newListener(salt, nil, nil)
	nl := 1 + w.cfg(3)
	type served struct {
		ln    *simListener
		conns []*sconn
		ret   bool
		err   error
		perm  error
	}
	var ls []*served
	id := 0
	for i := 0; i < nl; i++ {
		s := &served{ln: &simListener{id: 1000 + i}}
		run := 0
		for k := w.cfg(14); k > 0; k-- {
			if w.fault(1, 2) {
				run++
				for j := 0; j < []int{1, 1, 2, 12}[w.fdraw(4)]; j++ {
					s.ln.q = append(s.ln.q, acceptEvent{err: tempError(w.fdraw(4))})
				}
			} else if id < 12 {
				id++
				c := w.newSconn(id)
				c.good(tVersion)
				for j := w.cfg(3); j > 0; j-- {
					c.good(kinds[w.draw(len(kinds))])
				}
				s.conns = append(s.conns, c)
				s.ln.q = append(s.ln.q, acceptEvent{conn: c.sv})
			}
		}
		if w.fault(1, 4) {
			s.perm = []error{
				&net.OpError{Op: "accept", Net: "tcp", Err: syscall.EBADF},
				&netError{msg: "accept: broken for good"},
				fmt.Errorf("listener is gone"),
				&netError{msg: "accept: timed out for good", tmo: true},
				&net.OpError{Op: "accept", Net: "tcp", Err: net.ErrClosed},
				net.ErrClosed,
				io.EOF,
			}[w.fdraw(7)]
			s.ln.q = append(s.ln.q, acceptEvent{err: s.perm})
		}
		if w.fault(1, 4) {
			s.ln.closeErr = fmt.Errorf("close fails")
		}
		ls = append(ls, s)
	}
	for i, s := range ls {
		s := s
		simrt.Go(fmt.Sprintf("serve%d", i), func() {
			s.err = l.Serve(s.ln)
			s.ret = true
			w.logf("serve returns %v", s.err)
		})
		for _, c := range s.conns {
			c.start(-1)
		}
	}
	early := w.cfg(3) == 1
	if early {
		// shut down while accepts, errors and waits are going on
		w.s.Run(sBudget, func() bool {
			for _, s := range ls {
				if len(s.ln.accepts) == 0 {
					return false
				}
			}
			return true
		})
		w.s.Run(w.cfg(60), nil)
	} else if !w.idle(sBudget) {
		if !w.s.Failed() {
			w.fail("C11", "hang", "serving does not come to rest (%s)", w.s.Blocked())
		}
		return
	}
	if w.s.Failed() {
		return
	}
	check := func() bool {
		for _, s := range ls {
			if s.ret && s.perm == nil && !s.ln.closed {
				w.fail("C11", "returned", "serve returns %v though no permanent error happened", s.err)
				return false
			}
		}
		return true
	}
	if !early {
		for _, s := range ls {
			if s.perm != nil {
				if !s.ret {
					w.fail("C11", "permanent", "serve goes on after the permanent error %v", s.perm)
					return
				}
				if s.err != s.perm && !errors.Is(s.err, s.perm) {
					w.fail("C11", "permanent", "serve returns %v after the permanent error %v", s.err, s.perm)
					return
				}
			} else {
				if s.ret {
					w.fail("C11", "returned", "serve returns %v though no permanent error happened", s.err)
					return
				}
				if len(s.ln.q) > 0 {
					w.fail("C11", "stuck", "serve no longer accepts: %d arrivals wait (%s)", len(s.ln.q), w.s.Blocked())
					return
				}
			}
			for _, c := range s.conns {
				for _, r := range c.reqs {
					if r.gotN != 1 {
						w.fail("C11", "unserved", "an accepted connection is not served: %v gets %d replies", r.m, r.gotN)
						return
					}
				}
			}
			if !w.backoff(s.ln) {
				return
			}
		}
	} else if !check() {
		return
	}
	// Shutdown: every serve returns, accepted connections go on.
	var live []*sconn
	inServe := map[*served]bool{}
	for _, s := range ls {
		inServe[s] = !s.ret
		for _, c := range s.conns {
			queued := false
			for _, e := range s.ln.q {
				if e.conn == c.sv {
					queued = true
				}
			}
			if !queued && !early {
				live = append(live, c)
			}
		}
	}
	back := false
	simrt.Go("shutdown", func() {
		l.Shutdown()
		back = true
	})
	w.s.Count("probe:shutdown")
	w.s.Run(sBudget, nil)
	if w.s.Failed() {
		return
	}
	if !back {
		w.fail("C11", "shutdown", "shutdown does not return (%s)", w.s.Blocked())
		return
	}
	for i, s := range ls {
		if inServe[s] && !s.ln.closed {
			w.fail("C11", "shutdown", "shutdown leaves listener %d open", i)
			return
		}
		if !s.ret {
			w.fail("C11", "shutdown", "serve %d does not return after shutdown (%s)", i, w.s.Blocked())
			return
		}
	}
	for _, c := range live {
		r := c.good(kinds[w.draw(len(kinds))])
		simrt.Go("client-late", func() { c.cl.Write(r.raw) })
		w.s.Run(sBudget, nil)
		if w.s.Failed() {
			return
		}
		if r.gotN != 1 {
			w.fail("C11", "shutdown", "after shutdown an accepted connection is no longer served: %v gets %d replies", r.m, r.gotN)
			return
		}
	}
	_ = nss
}

// backoff checks the delays between a temporary error and the next accept.
func (w *W) backoff(ln *simListener) bool {
	var prev time.Duration
	run := 0
	for i, r := range ln.returned {
		if r != "temp" {
			prev, run = 0, 0
			continue
		}
		if i+1 >= len(ln.accepts) {
			w.fail("C11", "stuck", "accept is not tried again after a temporary error")
			return false
		}
		d := ln.accepts[i+1] - ln.accepts[i]
		// accepts[i] is when Accept was called; events are queued from the
		// start, so it returned at once
		run++
		switch {
		case run == 1 && (d < time.Millisecond || d > 100*time.Millisecond):
			w.fail("C11", "backoff", "the first retry comes after %v", d)
			return false
		case d > time.Second:
			w.fail("C11", "backoff", "a retry comes after %v", d)
			return false
		case d < prev:
			w.fail("C11", "backoff", "the delay shrinks from %v to %v", prev, d)
			return false
		case run > 1 && d == prev && d < 500*time.Millisecond:
			w.fail("C11", "backoff", "the delay does not grow: %v again", d)
			return false
		case run >= 12 && d < 500*time.Millisecond:
			w.fail("C11", "backoff", "after %d errors in a row the delay is still %v", run, d)
			return false
		}
		if run > 3 {
			w.s.Count("probe:backoff-grown")
		}
		prev = d
	}
	return true
}

func init() {
	register("C07", scenario{"server", 1, runSReplies})
	register("C08", scenario{"server-malformed", 1, runSMalformed})
	register("C09", scenario{"server-version", 1, runSVersion})
	register("C10", scenario{"server-isolation", 1, runSIsolation})
	register("C11", scenario{"accept-loop", 1, runSAccept})
}
