package world

import (
	"fmt"
	"os"
	"syscall"
	"time"

	"github.com/Harvey-OS/ninep/protocol"
	"github.com/Harvey-OS/ninep/sim/simrt"
)

// World K: the real client with concurrent callers against a model server.

type callRec struct {
	id       int
	req      Msg
	begun    bool
	done     bool
	res      Msg
	err      error
	tag      uint16
	seen     bool
	sent     bool // the model server has sent the reply
	reply    Msg
	replyEnd int64 // where in the stream the reply ends
	claimed  bool
	hit      bool // hostile: a message with its tag has been sent since
}

func (r *callRec) String() string { return fmt.Sprintf("call %d (%v)", r.id, r.req) }

type kWorld struct {
	*W
	long    bool // calls that do not fit are made
	c       *protocol.Client
	cl, sv  *simConn
	byBody  map[string][]*callRec
	dups    bool // some calls are made again
	calls   []*callRec
	pending []*callRec
	out     map[uint16]*callRec
	active  int // callers still at work
	slow    int
	hostile bool
	frames  []*sentFrame // hostile: everything sent
	stopped bool
	big     bool
	rxend   bool
	stall   int // after this many requests the server stops reading; <0 never
	stalled bool
	rivals  []*kWorld
	cur     map[uint16]*callRec // the last call seen with each tag
}

type sentFrame struct {
	m    Msg
	ok   bool // decodes exactly
	tag  uint16
	used *callRec
}

func (w *W) newK(props string) *kWorld {
	k := &kWorld{W: w, byBody: map[string][]*callRec{}, out: map[uint16]*callRec{}, cur: map[uint16]*callRec{}, stall: -1}
	k.cl, k.sv = w.newConn("k")
	k.cl.rd.chunk = w.chunking()
	k.sv.rd.chunk = 0
	k.slow = w.cfg(3)
	w.split = w.cfg(4) == 1
	if w.cfg(3) == 1 {
		w.small = true
		k.cl.wr.cap = 1 + w.cfg(64)
		k.cl.rd.cap = 1 + w.cfg(64)
	}
	return k
}

// newCall makes a request no other call has made.
func (k *kWorld) newCall() *callRec {
	if k.dups && len(k.calls) > 0 && k.draw(4) == 0 {
		if m := k.calls[k.draw(len(k.calls))].req; m.fits() {
			r := &callRec{id: len(k.calls), req: m}
			k.calls = append(k.calls, r)
			k.byBody[m.body()] = append(k.byBody[m.body()], r)
			k.s.Count("probe:same-call-again")
			return r
		}
	}
	for {
		t := kinds[k.draw(len(kinds))]
		m := k.genT(t)
		if k.draw(3) > 0 { // mostly small messages
			if len(m.Data) > 64 {
				m.Data = m.Data[:64]
			}
		}
		// make it unique
		id := uint32(len(k.calls))
		if k.draw(4) > 0 {
			switch t {
			case tVersion:
				m.Msize = m.Msize&^0xfff | id&0xfff
			case tFlush:
				m.Oldtag = m.Oldtag&^0xfff | uint16(id&0xfff)
			default:
				m.Fid = m.Fid&^0xfff | id&0xfff
			}
		}
		if k.long && k.draw(24) == 0 {
			k.stretch(&m)
		}
		if k.byBody[m.body()] != nil {
			continue
		}
		r := &callRec{id: len(k.calls), req: m}
		k.calls = append(k.calls, r)
		k.byBody[m.body()] = []*callRec{r}
		return r
	}
}

func (k *kWorld) do(r *callRec) {
	k.nap()
	r.begun = true
	k.logf("call %d: %v", r.id, r.req)
	r.res, r.err = call(k.c, r.req)
	r.done = true
	if r.err != nil {
		k.logf("call %d returns error %.60q", r.id, r.err.Error())
	} else {
		k.logf("call %d returns %v", r.id, r.res)
	}
}

// rival is another client in the same process, whose connection may break;
// nothing is asked of it.
func (k *kWorld) rival() {
	k.s.Count("probe:two-clients")
	w := &W{s: k.s, prop: "-", mute: true, aged: true, small: true, nconn: 50, addrSet: true, addrKind: k.addrKind}
	o := w.newK("-")
	if w.fault(3, 4) {
		p := o.cl.rd
		if w.fault(1, 3) {
			p = o.cl.wr
		}
		p.cutAt = int64(1 + w.fdraw(300))
		p.cutKind = []string{"eof", "reset", "lost", "rerr", "werr"}[w.fdraw(5)]
	}
	k.rivals = append(k.rivals, o)
	o.start(1+w.cfg(3), 1+w.cfg(6), func(r *callRec) {})
}

// rx is the model server's receiver.
func (k *kWorld) rx() {
	for n := 0; ; n++ {
		if n == k.stall {
			k.s.Count("fault:server-stops-reading")
			k.logf("the server stops reading")
			k.stalled = true
			return
		}
		f, err := readFrame(k.sv)
		if err != nil {
			k.rxend = true
			if len(f) > 0 && !k.stopped && w1(k) {
				k.fail("C01", "stream", "the client's byte stream is not a sequence of whole messages: %v", err)
			}
			return
		}
		m, ok := dec(f)
		if !ok {
			k.fail("C01 C03", "request", "the client sends a malformed request (%s, %d bytes)", tname(f[4]), len(f))
			return
		}
		var r *callRec
		for _, x := range k.byBody[m.body()] {
			if x.begun && (r == nil || r.seen && !x.seen) {
				r = x
			}
		}
		if r == nil {
			k.fail("C01 C03", "request", "the client sends a request nobody made: %v", m)
			return
		}
		if r.seen {
			k.fail("C01", "request", "the client sends the request of %v twice", r)
			return
		}
		if r.done && w1(k) {
			k.fail("C01", "request", "%v goes out after it has returned", r)
			return
		}
		if m.Tag == 0 || m.Tag == 0xffff {
			k.fail("C02", "tag", "request with reserved tag %d: %v", m.Tag, m)
			return
		}
		if o := k.out[m.Tag]; o != nil {
			k.fail("C02", "tag", "tag %d of %v is still in use by %v", m.Tag, m, o)
			return
		}
		r.seen = true
		r.tag = m.Tag
		k.out[m.Tag] = r
		k.cur[m.Tag] = r
		k.pending = append(k.pending, r)
		if n := len(k.out); n > 1 {
			k.s.Count("probe:concurrent-requests")
		}
		k.logf("server gets %v", m)
	}
}

// take removes a pending request in an order the run decides.
func (k *kWorld) take() *callRec {
	i := 0
	if n := len(k.pending); n > 1 {
		i = k.s.Draw(simrt.Net, n)
		if i != 0 {
			k.s.Count("net:reordered-reply")
		}
	}
	r := k.pending[i]
	k.pending = append(k.pending[:i:i], k.pending[i+1:]...)
	return r
}

func (k *kWorld) makeReply(r *callRec) Msg {
	if k.chance(1, 4) {
		return Msg{T: rError, Tag: r.tag, Str: fmt.Sprintf("error %d %s", r.id, k.str(200))}
	}
	m := k.genR(r.req.T)
	m.Tag = r.tag
	return m
}

func (k *kWorld) sendReply(r *callRec, m Msg) error {
	b := enc(m, nil)
	delete(k.out, r.tag)
	r.sent = true
	r.reply = m
	r.replyEnd = k.sv.wr.sent + int64(len(b))
	k.logf("server answers call %d: %v", r.id, m)
	_, err := k.sv.Write(b)
	return err
}

// tx is the model server's sender.
func (k *kWorld) tx() {
	for {
		simrt.Park("server", func() bool { return len(k.pending) > 0 || k.stopped })
		if k.stopped {
			return
		}
		if k.slow > 0 && k.s.Chance(simrt.Net, k.slow, 3) {
			k.s.Count("net:slow-reply")
			simrt.Sleep(time.Millisecond)
		}
		k.nap()
		if len(k.pending) == 0 {
			continue
		}
		r := k.take()
		if err := k.sendReply(r, k.makeReply(r)); err != nil {
			return
		}
	}
}

// claim settles which of several identical requests was this call's: one that
// has been answered the way the call returned.
func (k *kWorld) claim(r *callRec) {
	all := k.byBody[r.req.body()]
	if r.claimed {
		return
	}
	r.claimed = true
	if len(all) < 2 {
		return
	}
	o := r
	for _, x := range all {
		if x != r && (x.claimed || !x.sent) {
			continue
		}
		like := x.sent && (r.err != nil && x.reply.T == rError && x.reply.Str == r.err.Error() || r.err == nil && x.reply.body() == r.res.body())
		if like {
			o = x
			break
		}
		if !o.sent {
			o = x
		}
	}
	if o == r {
		return
	}
	o.tag, r.tag = r.tag, o.tag
	o.seen, r.seen = r.seen, o.seen
	o.sent, r.sent = r.sent, o.sent
	o.reply, r.reply = r.reply, o.reply
	o.replyEnd, r.replyEnd = r.replyEnd, o.replyEnd
	swap := func(x *callRec) *callRec {
		switch x {
		case o:
			return r
		case r:
			return o
		}
		return x
	}
	for i := range k.pending {
		k.pending[i] = swap(k.pending[i])
	}
	for t := range k.out {
		k.out[t] = swap(k.out[t])
	}
	for t := range k.cur {
		k.cur[t] = swap(k.cur[t])
	}
}

// judge compares what a call returned with what the server answered.
func (k *kWorld) judge(props string, r *callRec) {
	if !r.done {
		return
	}
	if !r.req.fits() {
		if r.seen {
			k.fail(props, "request", "the client sends %v, which does not fit a message", r)
		} else if r.err == nil {
			k.fail(props, "result", "%v returns %v; its request does not fit a message", r, r.res)
		}
		return
	}
	k.claim(r)
	if !r.sent {
		if r.err == nil {
			k.fail(props, "result", "%v returns %v but the server never answered it", r, r.res)
		} else {
			k.fail(props, "result", "%v fails with %q but the server never answered it", r, r.err)
		}
		return
	}
	k.judgeReply(props, r)
}

func (k *kWorld) judgeReply(props string, r *callRec) {
	if r.reply.T == rError {
		if r.err == nil {
			k.fail(props, "result", "%v returns success, the server answered with error %q", r, r.reply.Str)
		} else if r.err.Error() != r.reply.Str {
			k.fail(props, "result", "%v returns error %q, the server answered %q", r, r.err, r.reply.Str)
		}
		return
	}
	if r.err != nil {
		k.fail(props, "result", "%v returns error %q, the server answered %v", r, r.err, r.reply)
		return
	}
	if r.res.body() != r.reply.body() {
		k.fail(props, "result", "%v returns %v, the server answered %v", r, r.res, r.reply)
	}
}

func (k *kWorld) start(callers, calls int, each func(r *callRec)) {
	k.active = callers
	k.task("main", func() {
		k.c = k.newClient(k.cl, nil)
		simrt.Go("server-rx", k.rx)
		simrt.Go("server-tx", k.tx)
		for i := 0; i < callers; i++ {
			k.task(fmt.Sprintf("caller%d", i), func() {
				for j := 0; j < calls && !k.s.Failed(); j++ {
					r := k.newCall()
					k.do(r)
					each(r)
				}
				k.active--
			})
		}
	})
}

func (k *kWorld) hung() string {
	n := 0
	for _, r := range k.calls {
		if !r.done {
			n++
		}
	}
	return fmt.Sprintf("%d of %d calls do not return (%s)", n, len(k.calls), k.s.Blocked())
}

// w1 tells a run in which the connection works throughout.
func w1(k *kWorld) bool { return k.is("C01 C02 C05") }

const kBudget = 200000

func runKBenign(w *W) {
	k := w.newK("C01")
	k.long = !w.small
	k.dups = w.cfg(3) == 1
	callers := 1 + w.cfg(6)
	calls := 1 + w.cfg(8)
	for i := w.cfg(4) - 1; i > 0; i-- {
		k.rival()
	}
	k.start(callers, calls, func(r *callRec) { k.judge("C01", r) })
	if !k.settle(kBudget) && !k.s.Failed() {
		k.fail("C01 C02", "hang", "%s", k.hung())
		return
	}
	for _, r := range k.calls {
		if !r.seen && r.req.fits() {
			k.fail("C01", "request", "%v never reached the server", r)
			return
		}
	}
}

// runKTags leaves the connection only a few tags.
func runKTags(w *W) {
	k := w.newK("C02")
	few := 1 + w.cfg(2)*w.cfg(4)
	callers := 1 + w.cfg(6)
	calls := 1 + w.cfg(8)
	back := false
	k.active = callers
	k.task("main", func() {
		k.c = k.newClient(k.cl, nil)
		held := map[protocol.Tag]bool{}
		taken := w.age
		take := func(n int) {
			w.quiet(func() {
				for i := 0; i < n && !k.s.Failed(); i++ {
					t := k.c.GetTag()
					if t == 0 || t == protocol.NOTAG || held[t] {
						k.fail("C02", "tag", "GetTag gives out tag %d (reserved or already given out)", t)
					}
					held[t] = true
					taken++
				}
			})
		}
		simrt.Go("server-rx", k.rx)
		simrt.Go("server-tx", k.tx)
		// Calls in between leave the client with tags that are far apart.
		if w.cfg(2) == 1 {
			at := taken
			for i := 0; i < few-1 && !k.s.Failed(); i++ {
				to := []int{at, 254, 255, 256, 511, 4095, 4096, 32766, 32767, 65279, 65000, at + w.cfg(30000)}[w.cfg(12)]
				if to < at || to > 65534-2*few {
					to = at
				}
				take(to - at)
				r := k.newCall()
				k.do(r)
				k.judge("C01", r)
				at = to + 1
			}
			k.s.Count("probe:tags-spread")
		}
		take(65534 - few - taken)
		back = true
		k.s.Count("probe:tags-scarce")
		left := callers
		for i := 0; i < callers; i++ {
			k.task(fmt.Sprintf("caller%d", i), func() {
				for j := 0; j < calls && !k.s.Failed(); j++ {
					r := k.newCall()
					k.do(r)
					if held[protocol.Tag(r.tag)] && r.seen {
						k.fail("C02", "tag", "%v went out with tag %d, which is in use", r, r.tag)
					}
					k.judge("C01", r)
				}
				left--
				if left == 0 {
					// Every tag must come back; the client may
					// keep one ready for the next call.
					for i := 1; i < few && !k.s.Failed(); i++ {
						t := k.c.GetTag()
						if t == 0 || t == protocol.NOTAG || held[t] {
							k.fail("C02", "tag", "GetTag gives out tag %d (reserved or in use)", t)
						}
						held[t] = true
					}
				}
			})
		}
	})
	if !k.settle(kBudget) && !k.s.Failed() {
		if !back {
			k.s.Abandon("the client has fewer tags than the protocol allows")
			return
		}
		k.fail("C01 C02", "hang", "with %d tags free and %d callers: %s", few, callers, k.hung())
	}
}

// runKDrain: the server answers some of the requests it has got and then ends
// the connection. The client has nothing left to write: what has been answered
// has to come through, the other calls fail.
func runKDrain(w *W) {
	k := w.newK("C01")
	n := 1 + w.cfg(6)
	some := w.fdraw(n + 1)
	how := w.fdraw(3)
	k.task("main", func() {
		k.c = k.newClient(k.cl, nil)
		simrt.Go("server-rx", k.rx)
		simrt.Go("server-tx", func() {
			simrt.Park("server", func() bool { return len(k.pending) == n })
			// The end of the connection makes no write fail: the client's
			// other direction is a stream of its own, or nothing is being
			// written.
			if !w.split {
				simrt.Sleep(time.Millisecond)
			}
			for i := 0; i < some; i++ {
				r := k.take()
				if k.sendReply(r, k.makeReply(r)) != nil {
					return
				}
			}
			k.stopped = true
			if how == 2 && len(k.pending) > 0 {
				r := k.take()
				b := enc(k.makeReply(r), nil)
				k.sv.Write(b[:w.fdraw(len(b))])
				how = w.fdraw(2)
			}
			k.s.Count("fault:server-ends-after-replies")
			k.logf("the server ends the connection")
			if how == 1 {
				k.cl.rd.rerr = fmt.Errorf("connection reset by peer")
			} else {
				k.sv.CloseWrite()
			}
		})
		for i := 0; i < n; i++ {
			k.task(fmt.Sprintf("caller%d", i), func() {
				r := k.newCall()
				k.do(r)
				if r.sent {
					k.judgeReply("C01", r)
				} else if r.err == nil {
					k.fail("C01 C03", "result", "%v returns %v but the server never answered it", r, r.res)
				}
			})
		}
	})
	if !k.settle(kBudget) && !k.s.Failed() {
		k.fail("C01 C03", "hang", "the server has ended the connection and %s", k.hung())
	}
}

// runKCut breaks the connection somewhere.
func runKCut(w *W) {
	k := w.newK("C03")
	callers := 1 + w.cfg(5)
	calls := 1 + w.cfg(6)
	broken := false
	if w.cfg(5) == 1 {
		k.rival()
	}
	if w.fault(1, 6) {
		// One read or write fails, the ones after it would not.
		p := k.cl.rd
		if w.fault(1, 2) {
			p = k.cl.wr
			p.stutter = int64(w.fdraw(200))
		} else {
			p.onceAt = int64(w.fdraw(200))
		}
		p.onceErr = []error{&netError{msg: "interrupted", temp: true}, &netError{msg: "timed out", temp: true, tmo: true}, syscall.EINTR, syscall.EAGAIN, os.ErrDeadlineExceeded}[w.fdraw(5)]
		p.onOnce = func() { broken = true }
	} else if w.fault(1, 5) {
		// The server stops reading, so that writes get stuck, and then its
		// direction ends.
		k.stall = w.fdraw(6)
		k.cl.wr.cap = 1 + w.fdraw(60)
		simrt.Go("end", func() {
			simrt.Park("stall", func() bool { return k.stalled })
			simrt.Sleep(time.Millisecond)
			broken = true
			if w.fault(1, 2) {
				k.cl.rd.rerr = fmt.Errorf("connection reset by peer")
			} else {
				k.sv.CloseWrite()
			}
			k.s.Count("fault:end-while-write-stuck")
			k.logf("the server's direction ends")
		})
	} else if w.fault(5, 6) {
		at := int64(w.fdraw(40))
		if w.fault(1, 2) {
			at += int64(w.fdraw(600))
		}
		if w.fault(1, 2) { // replies
			p := k.cl.rd
			p.cutAt = at
			p.cutKind = []string{"eof", "reset", "lost", "rerr"}[w.fdraw(4)]
			p.onCut = func() { broken = true }
		} else {
			p := k.cl.wr
			p.cutAt = at
			p.cutKind = []string{"werr", "reset", "eof"}[w.fdraw(3)]
			p.onCut = func() {
				broken = true
				if p.cutKind == "reset" && w.fault(1, 2) {
					k.cl.rd.rerr = p.werr
				}
			}
		}
		if at == 0 {
			if k.cl.rd.cutAt == 0 && k.cl.rd.cutKind != "" {
				k.cl.rd.cut()
			}
			if k.cl.wr.cutAt == 0 && k.cl.wr.cutKind != "" {
				k.cl.wr.cut()
			}
		}
	}
	judge := func(r *callRec) {
		if r.err != nil {
			if r.sent && r.reply.T == rError && r.err.Error() == r.reply.Str {
				return
			}
			if !broken && !k.stopped {
				k.fail("C03 C01", "result", "%v fails with %q on a working connection", r, r.err)
			}
			return
		}
		if !r.sent {
			k.fail("C03", "result", "%v returns %v without an answer from the server", r, r.res)
			return
		}
		if k.cl.rd.read < r.replyEnd {
			k.fail("C03", "partial", "%v returns %v although only part of the reply arrived", r, r.res)
			return
		}
		if r.reply.T == rError || r.res.body() != r.reply.body() {
			k.fail("C03 C01", "result", "%v returns %v, the server answered %v", r, r.res, r.reply)
		}
	}
	k.start(callers, calls, judge)
	if !k.settle(kBudget) && !k.s.Failed() {
		if broken {
			k.fail("C03", "hang", "the connection is broken and %s", k.hung())
		} else {
			k.fail("C01", "hang", "%s", k.hung())
		}
		return
	}
	if k.s.Failed() {
		return
	}
	// Now the connection ends for certain, with calls in flight or none.
	after := 1 + w.cfg(3)
	mode := w.fdraw(4)
	k.stopped = true
	late := func(n int, name string) {
		for i := 0; i < n; i++ {
			k.task(name, func() {
				r := k.newCall()
				k.do(r)
				if r.err == nil {
					k.fail("C03", "late", "%v returns %v after the connection has ended", r, r.res)
				}
			})
		}
	}
	if mode&1 == 1 {
		late(after, "inflight")
		k.s.Run(40+w.fdraw(200), nil)
	}
	if mode&2 == 2 && k.cl.rd.rerr == nil {
		k.cl.rd.rerr = fmt.Errorf("connection reset by peer")
	}
	k.s.Count("fault:server-closes")
	k.sv.Close()
	if k.s.Failed() {
		return
	}
	late(after, "late")
	if !k.settle(kBudget) && !k.s.Failed() {
		k.fail("C03", "hang", "the server has closed the connection and %s", k.hung())
		return
	}
	late(after, "later")
	if !k.settle(kBudget) && !k.s.Failed() {
		k.fail("C03", "hang", "the connection has ended and %s", k.hung())
	}
}

// ---------------------------------------------------------------- hostile

// sendHostile sends something a correct server would not, or a correct reply.
func (k *kWorld) sendHostile(r *callRec) (dead bool) {
	send := func(b []byte, what string) {
		k.s.Count("fault:hostile-" + what)
		k.logf("server sends %s (%d bytes, %s)", what, len(b), tname(b[4]))
		m, ok := dec(b)
		if r := k.cur[uint16(b[5])|uint16(b[6])<<8]; r != nil {
			r.hit = true
		}
		k.frames = append(k.frames, &sentFrame{m: m, ok: ok, tag: uint16(b[5]) | uint16(b[6])<<8})
		k.sv.Write(b)
	}
	good := k.makeReply(r)
	switch k.fdraw(14) {
	default: // as it should be
		send(enc(good, nil), "nothing")
		return
	case 1: // a tag nobody uses
		m := good
		m.Tag = uint16(k.fdraw(65536))
		send(enc(m, nil), "wild-tag")
	case 2:
		m := good
		m.Tag = []uint16{0, 0xffff, 0xfffe, 1}[k.fdraw(4)]
		send(enc(m, nil), "reserved-tag")
	case 3: // twice
		send(enc(good, nil), "repeat")
		n := 1 + k.fdraw(3)
		for i := 0; i < n; i++ {
			if k.fdraw(2) == 1 {
				m := k.genR(r.req.T)
				m.Tag = r.tag
				send(enc(m, nil), "repeat")
			} else {
				send(enc(good, nil), "repeat")
			}
		}
		return
	case 4: // another type of reply
		t := kinds[k.fdraw(len(kinds))]
		m := k.genR(t)
		m.Tag = r.tag
		send(enc(m, nil), "wrong-type")
		return
	case 5: // a request as reply, or an unknown type
		b := enc(good, nil)
		if k.fdraw(2) == 1 {
			b[4] = kinds[k.fdraw(len(kinds))] + 1
		} else {
			b[4] = []byte{r.req.T, tError, 0, 255, 99, 128, tAuth + 1, tAuth, rError}[k.fdraw(9)]
		}
		send(b, "strange-type")
		return
	case 6: // cut short, with the size to match
		b := enc(good, nil)
		if len(b) > 7 {
			b = b[:7+k.fdraw(len(b)-7)]
			setSize(b, len(b))
		}
		send(b, "short-body")
		return
	case 7: // too long
		b := enc(good, nil)
		b = append(b, k.s.Bytes(simrt.Fault, 1+k.fdraw(9))...)
		setSize(b, len(b))
		send(b, "long-body")
		return
	case 8: // inner lengths that lie
		var lens [][2]int
		b := enc(good, &lens)
		if len(lens) == 0 {
			send(b, "nothing")
			return
		}
		l := lens[k.fdraw(len(lens))]
		v := []uint64{1<<32 - 1, 0xffff, 0x8000, 0x7fffffff, 0x80000000, uint64(len(b)), 1, 0}[k.fdraw(8)]
		copy(b[l[0]:l[0]+l[1]], le(l[1], v))
		send(b, "inner-length")
		return
	case 9: // impossible size
		b := enc(good, nil)
		setSize(b, k.fdraw(7))
		k.s.Count("fault:hostile-size")
		k.logf("server sends a message of size %d", b[0])
		k.sv.Write(b)
		return true
	case 10: // a size beyond what comes
		b := enc(good, nil)
		setSize(b, []int{len(b) + 1, len(b) + 100, 1 << 31, 1<<32 - 1}[k.fdraw(4)])
		k.s.Count("fault:hostile-size")
		k.logf("server sends a message with too large a size")
		k.sv.Write(b)
		return true
	case 11: // garbage
		n := 7 + k.fdraw(40)
		b := k.s.Bytes(simrt.Fault, n)
		if k.fdraw(2) == 1 {
			setSize(b, n)
			send(b, "garbage")
			return
		}
		k.s.Count("fault:hostile-garbage")
		k.logf("server sends garbage")
		k.sv.Write(b)
		return true
	case 12: // swap the replies of two calls
		if len(k.pending) > 0 {
			o := k.take()
			m := k.makeReply(r)
			m.Tag = o.tag
			send(enc(m, nil), "swapped")
			m = k.makeReply(o)
			m.Tag = r.tag
			send(enc(m, nil), "swapped")
			delete(k.out, o.tag)
			return
		}
	case 13: // error replies gone wrong
		b := enc(Msg{T: rError, Tag: r.tag, Str: k.str(40)}, nil)
		switch k.fdraw(3) {
		case 0:
			b = b[:7]
		case 1:
			b = b[:8]
		case 2:
			copy(b[7:], le(2, 0xffff))
		}
		setSize(b, len(b))
		send(b, "bad-error")
		return
	}
	if k.fault(1, 2) {
		k.pending = append(k.pending, r) // answered later, perhaps
	}
	return
}

func runKHostile(w *W) {
	k := w.newK("C04")
	k.hostile = true
	callers := 1 + w.cfg(5)
	calls := 1 + w.cfg(5)
	match := func(r *callRec) {
		if r.err != nil {
			return
		}
		for _, f := range k.frames {
			if f.ok && f.used == nil && (f.tag == r.tag || !r.seen) && f.m.T == r.req.T+1 && f.m.body() == r.res.body() {
				f.used = r
				return
			}
		}
		k.fail("C04", "corrupt", "%v (tag %d) returns %v: the server sent no such reply for its tag", r, r.tag, r.res)
	}
	k.active = callers
	over := false
	k.task("main", func() {
		k.c = k.newClient(k.cl, nil)
		simrt.Go("server-rx", k.rx)
		simrt.Go("server-tx", func() {
			budget := 4 + w.cfg(40)
			for {
				simrt.Park("server", func() bool { return len(k.pending) > 0 || over })
				if len(k.pending) == 0 || budget <= 0 {
					break
				}
				budget--
				r := k.take()
				delete(k.out, r.tag)
				if k.sendHostile(r) {
					break
				}
			}
			k.stopped = true
			k.sv.Close()
		})
		for i := 0; i < callers; i++ {
			k.task(fmt.Sprintf("caller%d", i), func() {
				for j := 0; j < calls && !k.s.Failed(); j++ {
					r := k.newCall()
					k.do(r)
					match(r)
				}
			})
		}
	})
	if k.settle(kBudget) || k.s.Failed() {
		return
	}
	if k.idle(kBudget) {
		for _, r := range k.calls {
			if r.hit && !r.done {
				k.fail("C04", "stuck", "the server has sent a message with the tag of %v (tag %d) and yet it waits on", r, r.tag)
				return
			}
		}
	}
	if k.s.Failed() {
		return
	}
	// Some call is still waiting: the server never answered it at all. Once
	// the connection ends it has to return.
	over = true
	k.stopped = true
	k.s.Count("fault:server-closes")
	k.sv.Close()
	if !k.settle(kBudget) && !k.s.Failed() {
		k.fail("C04", "hang", "the connection has ended and %s", k.hung())
	}
}

// ---------------------------------------------------------------- fids

func runKFids(w *W) {
	k := w.newK("C05")
	n := 2 + w.cfg(6)
	each := 1 + w.cfg(8)
	seen := map[protocol.FID]string{}
	pages := map[uint64]*[1024]uint64{} // of fids given to main
	many := 0
	if w.cfg(100) == 1 {
		many = 65536 + w.cfg(6000)
		w.s.Count("probe:many-fids")
		if w.cfg(30) == 1 {
			many += 1 << 24
			w.s.Count("probe:millions-of-fids")
		}
	}
	mains := func(f protocol.FID) (*uint64, uint64) {
		p := pages[uint64(f)>>16]
		if p == nil {
			p = new([1024]uint64)
			pages[uint64(f)>>16] = p
		}
		return &p[f>>6&1023], 1 << (f & 63)
	}
	k.task("main", func() {
		k.c = k.newClient(k.cl, nil)
		w.quiet(func() {
			for i := 0; i < many; i++ {
				f := k.c.GetFID()
				x, bit := mains(f)
				if *x&bit != 0 {
					k.fail("C05", "fid", "fid %d is given out twice (after %d)", f, i)
					return
				}
				*x |= bit
			}
		})
		simrt.Go("server-rx", k.rx)
		simrt.Go("server-tx", k.tx)
		for i := 0; i < n; i++ {
			name := fmt.Sprintf("caller%d", i)
			calls := w.cfg(4) == 1
			k.task(name, func() {
				for j := 0; j < each && !k.s.Failed(); j++ {
					f := k.c.GetFID()
					if x, bit := mains(f); *x&bit != 0 {
						k.fail("C05", "fid", "fid %d is given to main and to %s", f, name)
						return
					}
					if o, ok := seen[f]; ok {
						k.fail("C05", "fid", "fid %d is given to %s and to %s", f, o, name)
						return
					}
					seen[f] = name
					k.logf("%s gets fid %d", name, f)
					if calls && k.chance(1, 3) {
						r := k.newCall()
						k.do(r)
						k.judge("C01", r)
					}
				}
			})
		}
	})
	if !k.settle(kBudget) && !k.s.Failed() {
		k.fail("C05 C01", "hang", "a caller does not come back (%s)", k.s.Blocked())
	}
}

func init() {
	register("C01", scenario{"client", 3, runKBenign}, scenario{"client-few-tags", 1, runKTags}, scenario{"client-last-replies", 1, runKDrain})
	register("C02", scenario{"client", 1, runKBenign}, scenario{"client-few-tags", 2, runKTags})
	register("C03", scenario{"client-cut", 4, runKCut}, scenario{"client-last-replies", 1, runKDrain})
	register("C04", scenario{"client-hostile-server", 1, runKHostile})
	register("C05", scenario{"client-fids", 1, runKFids})
}
