package world

import (
	"fmt"
)

// An independent 9P2000 codec, written from the protocol's definition and not
// from the code under test.

const (
	tVersion = 100
	tAuth    = 102
	tAttach  = 104
	tError   = 106
	rError   = 107
	tFlush   = 108
	tWalk    = 110
	tOpen    = 112
	tCreate  = 114
	tRead    = 116
	tWrite   = 118
	tClunk   = 120
	tRemove  = 122
	tStat    = 124
	tWstat   = 126
)

var kinds = []uint8{tVersion, tAttach, tFlush, tWalk, tOpen, tCreate, tRead, tWrite, tClunk, tRemove, tStat, tWstat}

var kindName = map[uint8]string{tVersion: "version", tAttach: "attach", tFlush: "flush", tWalk: "walk", tOpen: "open", tCreate: "create",
	tRead: "read", tWrite: "write", tClunk: "clunk", tRemove: "remove", tStat: "stat", tWstat: "wstat", tAuth: "auth", tError: "error"}

func tname(t uint8) string {
	if n, ok := kindName[t&^1]; ok {
		if t&1 == 1 {
			return "R" + n
		}
		return "T" + n
	}
	return fmt.Sprintf("type%d", t)
}

type Qid struct {
	Type uint8
	Vers uint32
	Path uint64
}

// Msg is a message with the fields of every type.
type Msg struct {
	T      uint8
	Tag    uint16
	Msize  uint32
	Str    string // version, name, error text
	Uname  string
	Aname  string
	Fid    uint32
	Fid2   uint32 // afid, newfid
	Oldtag uint16
	Names  []string
	cut    bool // an answer: an error whose text is longer than fits
	any    bool // an answer: any error, for the results do not fit
	Qids   []Qid
	Qid    Qid
	Iounit uint32
	Mode   uint8
	Perm   uint32
	Off    uint64
	Count  uint32
	Data   []byte
	Stat   []byte
}

func layout(t uint8) ([]string, bool) {
	switch t {
	case tVersion, tVersion + 1:
		return []string{"msize", "str"}, true
	case tAttach:
		return []string{"fid", "fid2", "uname", "aname"}, true
	case tAttach + 1:
		return []string{"qid"}, true
	case rError:
		return []string{"str"}, true
	case tFlush:
		return []string{"oldtag"}, true
	case tFlush + 1, tClunk + 1, tRemove + 1, tWstat + 1:
		return nil, true
	case tWalk:
		return []string{"fid", "fid2", "names"}, true
	case tWalk + 1:
		return []string{"qids"}, true
	case tOpen:
		return []string{"fid", "mode"}, true
	case tOpen + 1, tCreate + 1:
		return []string{"qid", "iounit"}, true
	case tCreate:
		return []string{"fid", "str", "perm", "mode"}, true
	case tRead:
		return []string{"fid", "off", "count"}, true
	case tRead + 1:
		return []string{"data"}, true
	case tWrite:
		return []string{"fid", "off", "data"}, true
	case tWrite + 1:
		return []string{"count"}, true
	case tClunk, tRemove, tStat:
		return []string{"fid"}, true
	case tStat + 1:
		return []string{"stat"}, true
	case tWstat:
		return []string{"fid", "stat"}, true
	}
	return nil, false
}

func le(n int, v uint64) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(v >> (8 * uint(i)))
	}
	return b
}

func putStr(b []byte, s string) []byte { return append(append(b, le(2, uint64(len(s)))...), s...) }

func putQid(b []byte, q Qid) []byte {
	b = append(b, q.Type)
	b = append(b, le(4, uint64(q.Vers))...)
	return append(b, le(8, q.Path)...)
}

// enc encodes a message. lens, if not nil, collects the positions and widths
// of inner length fields.
// fits tells whether every length in the message fits its 16 bits.
func (m Msg) fits() bool {
	for _, s := range append([]string{m.Str, m.Uname, m.Aname}, m.Names...) {
		if len(s) > 0xffff {
			return false
		}
	}
	return len(m.Names) <= 0xffff && len(m.Qids) <= 0xffff && len(m.Stat) <= 0xffff
}

// said tells whether the reply is what a file server's answer is to become.
func (a Msg) said(r Msg) bool {
	switch {
	case a.any:
		return r.T == rError
	case a.cut:
		return r.T == rError && len(r.Str) > 0 && len(r.Str) <= len(a.Str) && a.Str[:len(r.Str)] == r.Str
	}
	return a.body() == r.body()
}

func enc(m Msg, lens *[][2]int) []byte {
	b := []byte{0, 0, 0, 0, m.T, byte(m.Tag), byte(m.Tag >> 8)}
	note := func(w int) {
		if lens != nil {
			*lens = append(*lens, [2]int{len(b), w})
		}
	}
	fs, _ := layout(m.T)
	for _, f := range fs {
		switch f {
		case "msize":
			b = append(b, le(4, uint64(m.Msize))...)
		case "str":
			note(2)
			b = putStr(b, m.Str)
		case "uname":
			note(2)
			b = putStr(b, m.Uname)
		case "aname":
			note(2)
			b = putStr(b, m.Aname)
		case "fid":
			b = append(b, le(4, uint64(m.Fid))...)
		case "fid2":
			b = append(b, le(4, uint64(m.Fid2))...)
		case "oldtag":
			b = append(b, le(2, uint64(m.Oldtag))...)
		case "names":
			note(2)
			b = append(b, le(2, uint64(len(m.Names)))...)
			for _, n := range m.Names {
				note(2)
				b = putStr(b, n)
			}
		case "qid":
			b = putQid(b, m.Qid)
		case "qids":
			note(2)
			b = append(b, le(2, uint64(len(m.Qids)))...)
			for _, q := range m.Qids {
				b = putQid(b, q)
			}
		case "iounit":
			b = append(b, le(4, uint64(m.Iounit))...)
		case "mode":
			b = append(b, m.Mode)
		case "perm":
			b = append(b, le(4, uint64(m.Perm))...)
		case "off":
			b = append(b, le(8, m.Off)...)
		case "count":
			b = append(b, le(4, uint64(m.Count))...)
		case "data":
			note(4)
			b = append(b, le(4, uint64(len(m.Data)))...)
			b = append(b, m.Data...)
		case "stat":
			note(2)
			b = append(b, le(2, uint64(len(m.Stat)))...)
			b = append(b, m.Stat...)
		}
	}
	setSize(b, len(b))
	return b
}

func setSize(b []byte, n int) { copy(b, le(4, uint64(n))) }

type rdr struct {
	b   []byte
	bad bool
}

func (r *rdr) n(k int) uint64 {
	if len(r.b) < k {
		r.bad = true
		r.b = nil
		return 0
	}
	var v uint64
	for i := 0; i < k; i++ {
		v |= uint64(r.b[i]) << (8 * uint(i))
	}
	r.b = r.b[k:]
	return v
}

func (r *rdr) bytes(n uint64) []byte {
	if uint64(len(r.b)) < n {
		r.bad = true
		r.b = nil
		return nil
	}
	x := append([]byte{}, r.b[:n]...)
	r.b = r.b[n:]
	return x
}

func (r *rdr) str() string { return string(r.bytes(r.n(2))) }
func (r *rdr) qid() Qid {
	return Qid{uint8(r.n(1)), uint32(r.n(4)), r.n(8)}
}

// dec decodes a whole frame exactly: no byte may be missing or left over.
func dec(b []byte) (m Msg, ok bool) {
	if len(b) < 7 {
		return m, false
	}
	r := &rdr{b: b}
	if sz := r.n(4); sz != uint64(len(b)) {
		return m, false
	}
	m.T = uint8(r.n(1))
	m.Tag = uint16(r.n(2))
	fs, known := layout(m.T)
	if !known {
		return m, false
	}
	for _, f := range fs {
		switch f {
		case "msize":
			m.Msize = uint32(r.n(4))
		case "str":
			m.Str = r.str()
		case "uname":
			m.Uname = r.str()
		case "aname":
			m.Aname = r.str()
		case "fid":
			m.Fid = uint32(r.n(4))
		case "fid2":
			m.Fid2 = uint32(r.n(4))
		case "oldtag":
			m.Oldtag = uint16(r.n(2))
		case "names":
			n := r.n(2)
			for i := uint64(0); i < n && !r.bad; i++ {
				m.Names = append(m.Names, r.str())
			}
		case "qid":
			m.Qid = r.qid()
		case "qids":
			n := r.n(2)
			for i := uint64(0); i < n && !r.bad; i++ {
				m.Qids = append(m.Qids, r.qid())
			}
		case "iounit":
			m.Iounit = uint32(r.n(4))
		case "mode":
			m.Mode = uint8(r.n(1))
		case "perm":
			m.Perm = uint32(r.n(4))
		case "off":
			m.Off = r.n(8)
		case "count":
			m.Count = uint32(r.n(4))
		case "data":
			m.Data = r.bytes(r.n(4))
		case "stat":
			m.Stat = r.bytes(r.n(2))
		}
	}
	return m, !r.bad && len(r.b) == 0
}

// Stat is a directory entry.
type Stat struct {
	Type           uint16
	Dev            uint32
	Qid            Qid
	Mode           uint32
	Atime, Mtime   uint32
	Length         uint64
	Name, Uid, Gid string
	Muid           string
}

func encStat(d Stat) []byte {
	b := []byte{0, 0}
	b = append(b, le(2, uint64(d.Type))...)
	b = append(b, le(4, uint64(d.Dev))...)
	b = putQid(b, d.Qid)
	b = append(b, le(4, uint64(d.Mode))...)
	b = append(b, le(4, uint64(d.Atime))...)
	b = append(b, le(4, uint64(d.Mtime))...)
	b = append(b, le(8, d.Length)...)
	for _, s := range []string{d.Name, d.Uid, d.Gid, d.Muid} {
		b = putStr(b, s)
	}
	copy(b, le(2, uint64(len(b)-2)))
	return b
}

// decStat decodes one entry from the front of b.
func decStat(b []byte) (d Stat, rest []byte, ok bool) {
	r := &rdr{b: b}
	n := r.n(2)
	x := r.bytes(n)
	if r.bad {
		return d, nil, false
	}
	rest = r.b
	r = &rdr{b: x}
	d.Type = uint16(r.n(2))
	d.Dev = uint32(r.n(4))
	d.Qid = r.qid()
	d.Mode = uint32(r.n(4))
	d.Atime = uint32(r.n(4))
	d.Mtime = uint32(r.n(4))
	d.Length = r.n(8)
	d.Name, d.Uid, d.Gid, d.Muid = r.str(), r.str(), r.str(), r.str()
	return d, rest, !r.bad && len(r.b) == 0
}

// body is a printable form of the message without its tag, for comparisons.
func (m Msg) body() string {
	m.Tag = 0
	return string(enc(m, nil)[4:])
}

func (m Msg) String() string {
	short := func(b []byte) string {
		if len(b) > 24 {
			return fmt.Sprintf("%d bytes %q...", len(b), b[:24])
		}
		return fmt.Sprintf("%q", b)
	}
	cut := func(s string) string {
		if len(s) > 40 {
			return fmt.Sprintf("%q...(%d)", s[:40], len(s))
		}
		return fmt.Sprintf("%q", s)
	}
	o := fmt.Sprintf("%s tag %d", tname(m.T), m.Tag)
	fs, _ := layout(m.T)
	for _, f := range fs {
		switch f {
		case "msize":
			o += fmt.Sprintf(" msize %d", m.Msize)
		case "str":
			o += " " + cut(m.Str)
		case "uname":
			o += " uname " + cut(m.Uname)
		case "aname":
			o += " aname " + cut(m.Aname)
		case "fid":
			o += fmt.Sprintf(" fid %d", m.Fid)
		case "fid2":
			o += fmt.Sprintf(" fid2 %d", m.Fid2)
		case "oldtag":
			o += fmt.Sprintf(" oldtag %d", m.Oldtag)
		case "names":
			if len(m.Names) > 8 {
				o += fmt.Sprintf(" %d names", len(m.Names))
			} else {
				o += " ["
				for i, n := range m.Names {
					if i > 0 {
						o += " "
					}
					o += cut(n)
				}
				o += "]"
			}
		case "qid":
			o += fmt.Sprintf(" qid %v", m.Qid)
		case "qids":
			if len(m.Qids) > 8 {
				o += fmt.Sprintf(" %d qids", len(m.Qids))
			} else {
				o += fmt.Sprintf(" qids %v", m.Qids)
			}
		case "iounit":
			o += fmt.Sprintf(" iounit %d", m.Iounit)
		case "mode":
			o += fmt.Sprintf(" mode %#x", m.Mode)
		case "perm":
			o += fmt.Sprintf(" perm %#o", m.Perm)
		case "off":
			o += fmt.Sprintf(" off %d", m.Off)
		case "count":
			o += fmt.Sprintf(" count %d", int32(m.Count))
		case "data":
			o += " data " + short(m.Data)
		case "stat":
			o += " stat " + short(m.Stat)
		}
	}
	return o
}
