// Package world holds the simulated worlds: the code under test together with
// model peers, a simulated network and disk, and the oracles.
package world

import (
	"fmt"
	"strings"
	"time"

	"github.com/Harvey-OS/ninep/sim/simrt"
)

// W is one world: one simulated run for one property.
type W struct {
	split    bool // the client has a stream of its own for each direction
	s        *simrt.Sim
	prop     string
	nconn    int
	seq      int
	left     int // tasks that must finish
	phase    string
	small    bool            // no large messages in this run
	huge     bool            // some do not fit into three bytes of length
	aged     bool            // age is set
	mute     bool            // nothing in this world is judged
	naps     int             // 2: with long pauses
	marked   bool            // every request tells which connection it is for
	bodies   map[string]bool // requests that have been made
	addrSet  bool
	addrKind int
	age      int // tags and fids the clients have given out already
}

type scenario struct {
	name   string
	weight int
	run    func(w *W)
}

// Scenarios lists what is run for each property.
var Scenarios = map[string][]scenario{}

func register(prop string, sc ...scenario) { Scenarios[prop] = append(Scenarios[prop], sc...) }

// RunOne runs one seed (or one replay) for a property.
func RunOne(prop string, seed uint64, replay *[simrt.NStreams][]uint32, record bool) *simrt.Sim {
	s := simrt.New(seed, replay, record)
	simrt.ResetGlobals()
	w := &W{s: s, prop: prop}
	scs := Scenarios[prop]
	if len(scs) == 0 {
		s.Trouble("no scenario for %s", prop)
		s.Close()
		return s
	}
	ws := make([]int, len(scs))
	for i, sc := range scs {
		ws[i] = sc.weight
	}
	sc := scs[s.Weighted(simrt.Cfg, ws...)]
	s.Logf("scenario %s", sc.name)
	s.Count("scenario:" + sc.name)
	sc.run(w)
	s.Close()
	return s
}

// fail reports a violation of the listed properties. In a run for another
// property it ends the run without a verdict: what follows would be judged
// from a wrong state.
func (w *W) fail(props, class, format string, args ...interface{}) {
	if w.mute {
		return
	}
	for _, p := range strings.Fields(props) {
		if p == w.prop || p == "*" {
			w.s.Fail(class, format, args...)
			return
		}
	}
	w.s.Abandon(class + ": " + fmt.Sprintf(format, args...))
}

func (w *W) is(props string) bool {
	for _, p := range strings.Fields(props) {
		if p == w.prop {
			return true
		}
	}
	return false
}

// task starts a task that must finish.
func (w *W) task(name string, f func()) {
	w.left++
	simrt.Go(name, func() {
		f()
		w.left--
	})
}

// settle runs until every required task has finished and tells whether they
// have.
func (w *W) settle(budget int) bool {
	o := w.s.Run(budget, func() bool { return w.left == 0 })
	return o == simrt.Until
}

// idle runs until nothing can move.
func (w *W) idle(budget int) bool {
	return w.s.Run(budget, nil) == simrt.Idle
}

func (w *W) draw(n int) int                  { return w.s.Draw(simrt.Op, n) }
func (w *W) chance(num, den int) bool        { return w.s.Chance(simrt.Op, num, den) }
func (w *W) cfg(n int) int                   { return w.s.Draw(simrt.Cfg, n) }
func (w *W) fault(num, den int) bool         { return w.s.Chance(simrt.Fault, num, den) }
func (w *W) fdraw(n int) int                 { return w.s.Draw(simrt.Fault, n) }
func (w *W) logf(f string, a ...interface{}) { w.s.Logf(f, a...) }

// chunking draws how reads are split in this run; 0 is whole.
func (w *W) chunking() int { return w.s.Draw(simrt.Cfg, 4) }

// ---------------------------------------------------------------- generators

// val32 gives an integer, often an extreme one.
func (w *W) val32() uint32 {
	switch w.draw(5) {
	case 0:
		return uint32(w.draw(4))
	case 1:
		return []uint32{0xffffffff, 0x7fffffff, 0x80000000, 0xfffffffe, 0xff, 0x100, 0xffff, 0x10000, 0xff00ff00}[w.draw(9)]
	case 2:
		return uint32(1) << uint(w.draw(32))
	}
	return uint32(w.draw(1<<16))<<16 | uint32(w.draw(1<<16))
}

func (w *W) val64() uint64 {
	switch w.draw(3) {
	case 0:
		return uint64(w.val32())
	case 1:
		return []uint64{1<<64 - 1, 1 << 63, 1<<63 - 1, 1 << 32, 1<<32 - 1, 1 << 40, 0xff00ff00ff00ff00}[w.draw(7)]
	}
	return uint64(w.val32())<<32 | uint64(w.val32())
}

func (w *W) size(big int) int {
	switch w.draw(8) {
	case 0:
		return 0
	case 1, 2, 3, 4:
		return w.draw(20)
	case 5, 6:
		return w.draw(300)
	}
	if big < 1 || w.small {
		return w.draw(64)
	}
	return []int{255, 256, 257, 8192, 65535, big}[w.draw(6)] % (big + 1)
}

func (w *W) bytes(big int) []byte { return w.s.Bytes(simrt.Op, w.size(big)) }

func (w *W) str(big int) string {
	b := w.bytes(big)
	if w.draw(2) == 0 {
		for i := range b {
			b[i] = 'a' + b[i]%26
		}
	}
	return string(b)
}

func (w *W) qid() Qid {
	return Qid{uint8(w.draw(256)), w.val32(), w.val64()}
}

const bigStr = 65535

// stretch makes a request longer than fits, if that can be.
func (w *W) stretch(m *Msg) {
	n := bigStr + []int{1, 2, 300, 65536, 65540}[w.draw(5)]
	s := string(w.s.Bytes(simrt.Op, n))
	switch m.T {
	case tVersion, tCreate:
		m.Str = s
	case tAttach:
		if w.draw(2) == 0 {
			m.Uname = s
		} else {
			m.Aname = s
		}
	case tWalk:
		if w.draw(2) == 0 || len(m.Names) == 0 {
			m.Names = make([]string, bigStr+1+w.draw(3))
		} else {
			m.Names[w.draw(len(m.Names))] = s
		}
	case tWstat:
		m.Stat = []byte(s)
	default:
		return
	}
	w.s.Count("probe:call-too-long")
}

// nap is a pause of a client, a server or a disk that, in some runs, is far
// longer than anyone would think.
func (w *W) nap() {
	if w.naps == 0 {
		w.naps = 1 + w.cfg(5)
	}
	if w.naps == 2 && w.s.Chance(simrt.Net, 1, 6) {
		w.s.Count("net:long-pause")
		simrt.Sleep([]time.Duration{time.Millisecond, 2 * time.Second, 31 * time.Second, 10 * time.Minute, 2 * time.Hour, 50 * time.Hour}[w.s.Draw(simrt.Net, 6)])
	}
}

// natural decides whether a request stays as it is, telling nothing of the
// connection it is for: then there must be no other like it. (The marks of
// connections end in neither 0 nor 14 nor 15.)
func (w *W) natural(m Msg) bool {
	x := m.Fid
	switch m.T {
	case tVersion:
		x = m.Msize
	case tFlush:
		x = uint32(m.Oldtag)
	}
	return (x&15 == 0 || x&15 == 15) && !w.marked && w.draw(2) == 0 && !w.bodies[m.body()]
}

func (w *W) made(m Msg) {
	if w.bodies == nil {
		w.bodies = map[string]bool{}
	}
	w.bodies[m.body()] = true
}

// genT makes a well-formed request of the type.
func (w *W) genT(t uint8) Msg {
	m := Msg{T: t}
	m.Fid = w.val32()
	switch t {
	case tVersion:
		m.Fid = 0
		m.Msize = w.val32()
		m.Str = w.str(300)
		if w.draw(2) == 0 {
			m.Str = "9P2000"
		}
	case tAttach:
		m.Fid2 = w.val32()
		m.Uname = w.str(bigStr)
		m.Aname = w.str(bigStr)
	case tFlush:
		m.Fid = 0
		m.Oldtag = uint16(w.val32())
	case tWalk:
		m.Fid2 = w.val32()
		n := w.draw(5)
		if w.draw(12) == 0 && !w.small {
			n = []int{16, 17, 255, 256, 300}[w.draw(5)]
			if w.draw(6) == 0 {
				m.Names = make([]string, []int{65535, 32768, 30000}[w.draw(3)])
			}
		}
		for i := 0; i < n && len(m.Names) < 30000; i++ {
			m.Names = append(m.Names, w.str(bigStr))
		}
	case tOpen:
		m.Mode = uint8(w.draw(256))
	case tCreate:
		m.Str = w.str(bigStr)
		m.Perm = w.val32()
		m.Mode = uint8(w.draw(256))
	case tRead:
		m.Off = w.val64()
		m.Count = w.val32()
	case tWrite:
		m.Off = w.val64()
		m.Data = w.bytes(100000)
	case tWstat:
		m.Stat = w.bytes(bigStr)
	}
	return m
}

// genR makes a well-formed reply to a request of type t.
func (w *W) genR(t uint8) Msg {
	m := Msg{T: t + 1}
	switch t {
	case tVersion:
		m.Msize = w.val32()
		m.Str = w.str(300)
	case tAttach:
		m.Qid = w.qid()
	case tWalk:
		n := w.draw(5)
		if w.draw(12) == 0 && !w.small {
			n = []int{16, 17, 255, 256, 300}[w.draw(5)]
		}
		for i := 0; i < n; i++ {
			m.Qids = append(m.Qids, w.qid())
		}
	case tOpen, tCreate:
		m.Qid = w.qid()
		m.Iounit = w.val32()
	case tRead:
		m.Data = w.bytes(100000)
	case tWrite:
		m.Count = w.val32()
	case tStat:
		m.Stat = w.bytes(bigStr)
	}
	return m
}

func (w *W) quiet(f func()) { simrt.Quiet(f) }
