package world

import (
	"errors"
	"fmt"

	"github.com/Harvey-OS/ninep/protocol"
	"github.com/Harvey-OS/ninep/sim/simrt"
)

// recNS is a file server that records what it is asked. Its answers depend
// only on the arguments and the run, so that they can be computed again.
type recNS struct {
	w    *W
	id   int
	salt uint64
	ops  []Msg // requests as received, tag zero
	gate func(m Msg)
	all  *[]nsOp
}

type nsOp struct {
	ns *recNS
	m  Msg
}

func hash64(s string, salt uint64) uint64 {
	h := 14695981039346656037 ^ salt
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	h ^= h >> 31
	h *= 0x9e3779b97f4a7c15
	return h ^ h>>29
}

type prng uint64

func (p *prng) next() uint64 {
	*p += 0x9e3779b97f4a7c15
	z := uint64(*p)
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (p *prng) n(n int) int { return int(p.next() % uint64(n)) }

func (p *prng) bytes(small bool, big int) []byte {
	n := 0
	switch p.n(10) {
	case 0:
	case 1, 2, 3, 4, 5:
		n = p.n(16)
	case 6, 7, 8:
		n = p.n(200)
	case 9:
		n = []int{255, 256, 8192, 65535, big, 1}[p.n(6)] % (big + 1)
		if small {
			n %= 64
		}
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(p.next())
	}
	return b
}

func (p *prng) u32() uint32 {
	switch p.n(4) {
	case 0:
		return uint32(p.n(3))
	case 1:
		return []uint32{0xffffffff, 0x80000000, 0x7fffffff, 0xffff, 0x10000, 256}[p.n(6)]
	}
	return uint32(p.next())
}

func (p *prng) u64() uint64 {
	if p.n(4) == 0 {
		return []uint64{1<<64 - 1, 1 << 63, 1 << 32, 255}[p.n(4)]
	}
	return p.next()
}

func (p *prng) qid() Qid { return Qid{uint8(p.next()), p.u32(), p.u64()} }

// hugeCount asks for more data than three bytes can count.
const hugeCount = 0x01234567

// answer computes what the client is to be told: what the recording file
// server says as far as it fits into a reply.
func answer(m Msg, salt uint64, small bool) Msg {
	r := opinion(m, salt, small)
	if r.T == rError && len(r.Str) > bigStr {
		r.Str, r.cut = r.Str[:bigStr], true
	}
	if !r.fits() {
		return Msg{T: rError, Str: "too long", any: true}
	}
	return r
}

// long is sometimes the length of something that does not fit.
func (p *prng) long(small bool) int {
	if small || p.n(20) > 0 {
		return 0
	}
	return bigStr + []int{1, 2, 5, 300, 65536, 65541}[p.n(6)]
}

// opinion computes what the recording file server says to a request: a reply
// message, or an Rerror.
func opinion(m Msg, salt uint64, small bool) Msg {
	p := prng(hash64(m.body(), salt))
	if p.n(4) == 0 {
		e := "no: " + fmt.Sprintf("%x", p.next())
		switch p.n(8) {
		case 0:
			e = ""
		case 1:
			e = string(p.bytes(small, bigStr))
		case 2:
			e = "100% %d %s %v"
		case 3, 4:
			for n := p.long(small); len(e) < n; {
				e += e + "."
				if len(e) > n {
					e = e[:n]
				}
			}
		}
		return Msg{T: rError, Str: e}
	}
	r := Msg{T: m.T + 1}
	switch m.T {
	case tVersion:
		r.Msize, r.Str = p.u32(), string(p.bytes(small, bigStr))
		if n := p.long(small); n > 0 {
			r.Str = string(make([]byte, n))
		}
	case tAttach:
		r.Qid = p.qid()
	case tWalk:
		n := p.n(4)
		if p.n(12) == 0 && !small {
			n = []int{300, 300, 300, 5041, 5042, 65535}[p.n(6)]
			if p.n(20) == 0 {
				n = 65536 + p.n(3)
			}
		}
		for i := 0; i < n; i++ {
			r.Qids = append(r.Qids, p.qid())
		}
	case tOpen, tCreate:
		r.Qid, r.Iounit = p.qid(), p.u32()
	case tRead:
		r.Data = p.bytes(small, 100000)
		if m.Count == hugeCount && !small {
			r.Data = append(make([]byte, 1<<24), r.Data...)
			r.Data[p.n(1<<24)] = 1
		}
	case tWrite:
		r.Count = p.u32()
	case tStat:
		r.Stat = p.bytes(small, bigStr)
		if n := p.long(small); n > 0 {
			r.Stat = make([]byte, n)
		}
	}
	return r
}

func (n *recNS) do(m Msg) (Msg, error) {
	n.ops = append(n.ops, m)
	if n.all != nil {
		*n.all = append(*n.all, nsOp{n, m})
	}
	n.w.logf("file server %d: %v", n.id, m)
	if n.gate != nil {
		n.gate(m)
	}
	n.w.nap()
	simrt.YieldPoint("file server")
	r := opinion(m, n.salt, n.w.small)
	if !r.fits() {
		n.w.s.Count("probe:answer-too-long")
	}
	if r.T == rError {
		return r, errors.New(r.Str)
	}
	return r, nil
}

func pq(q Qid) protocol.QID { return protocol.QID{Type: q.Type, Version: q.Vers, Path: q.Path} }

func (n *recNS) Rversion(s protocol.MaxSize, v string) (protocol.MaxSize, string, error) {
	r, err := n.do(Msg{T: tVersion, Msize: uint32(s), Str: v})
	return protocol.MaxSize(r.Msize), r.Str, err
}
func (n *recNS) Rattach(f, a protocol.FID, u, an string) (protocol.QID, error) {
	r, err := n.do(Msg{T: tAttach, Fid: uint32(f), Fid2: uint32(a), Uname: u, Aname: an})
	return pq(r.Qid), err
}
func (n *recNS) Rwalk(f, nf protocol.FID, p []string) ([]protocol.QID, error) {
	r, err := n.do(Msg{T: tWalk, Fid: uint32(f), Fid2: uint32(nf), Names: append([]string(nil), p...)})
	var q []protocol.QID
	for _, x := range r.Qids {
		q = append(q, pq(x))
	}
	return q, err
}
func (n *recNS) Ropen(f protocol.FID, m protocol.Mode) (protocol.QID, protocol.MaxSize, error) {
	r, err := n.do(Msg{T: tOpen, Fid: uint32(f), Mode: uint8(m)})
	return pq(r.Qid), protocol.MaxSize(r.Iounit), err
}
func (n *recNS) Rcreate(f protocol.FID, s string, p protocol.Perm, m protocol.Mode) (protocol.QID, protocol.MaxSize, error) {
	r, err := n.do(Msg{T: tCreate, Fid: uint32(f), Str: s, Perm: uint32(p), Mode: uint8(m)})
	return pq(r.Qid), protocol.MaxSize(r.Iounit), err
}
func (n *recNS) Rstat(f protocol.FID) ([]byte, error) {
	r, err := n.do(Msg{T: tStat, Fid: uint32(f)})
	return r.Stat, err
}
func (n *recNS) Rwstat(f protocol.FID, b []byte) error {
	_, err := n.do(Msg{T: tWstat, Fid: uint32(f), Stat: append([]byte(nil), b...)})
	return err
}
func (n *recNS) Rclunk(f protocol.FID) error {
	_, err := n.do(Msg{T: tClunk, Fid: uint32(f)})
	return err
}
func (n *recNS) Rremove(f protocol.FID) error {
	_, err := n.do(Msg{T: tRemove, Fid: uint32(f)})
	return err
}
func (n *recNS) Rread(f protocol.FID, o protocol.Offset, c protocol.Count) ([]byte, error) {
	r, err := n.do(Msg{T: tRead, Fid: uint32(f), Off: uint64(o), Count: uint32(c)})
	return r.Data, err
}
func (n *recNS) Rwrite(f protocol.FID, o protocol.Offset, b []byte) (protocol.Count, error) {
	r, err := n.do(Msg{T: tWrite, Fid: uint32(f), Off: uint64(o), Data: append([]byte(nil), b...)})
	return protocol.Count(r.Count), err
}
func (n *recNS) Rflush(o protocol.Tag) error {
	_, err := n.do(Msg{T: tFlush, Oldtag: uint16(o)})
	return err
}

// newListener makes the real listener over recording file servers.
func (w *W) newListener(salt uint64, trace protocol.Tracer, wrap func(protocol.NineServer) protocol.NineServer) (*protocol.Listener, *[]*recNS, *[]nsOp) {
	var nss []*recNS
	var all []nsOp
	l, err := protocol.NewListener(func() protocol.NineServer {
		n := &recNS{w: w, id: len(nss), salt: salt, all: &all}
		nss = append(nss, n)
		if wrap != nil {
			return wrap(n)
		}
		return n
	}, func(l *protocol.Listener) error { l.Trace = trace; return nil })
	if err != nil {
		w.s.Trouble("NewListener: %v", err)
	}
	return l, &nss, &all
}
