package world

import (
	"fmt"

	"github.com/Harvey-OS/ninep/protocol"
)

// call makes the client call for a request and gives the result as a reply
// message.
func call(c *protocol.Client, m Msg) (r Msg, err error) {
	r.T = m.T + 1
	q := func(x protocol.QID) Qid { return Qid{x.Type, x.Version, x.Path} }
	switch m.T {
	case tVersion:
		var ms protocol.MaxSize
		ms, r.Str, err = c.CallTversion(protocol.MaxSize(m.Msize), m.Str)
		r.Msize = uint32(ms)
	case tAttach:
		var x protocol.QID
		x, err = c.CallTattach(protocol.FID(m.Fid), protocol.FID(m.Fid2), m.Uname, m.Aname)
		r.Qid = q(x)
	case tFlush:
		err = c.CallTflush(protocol.Tag(m.Oldtag))
	case tWalk:
		var x []protocol.QID
		x, err = c.CallTwalk(protocol.FID(m.Fid), protocol.FID(m.Fid2), m.Names)
		for _, y := range x {
			r.Qids = append(r.Qids, q(y))
		}
	case tOpen:
		var x protocol.QID
		var io protocol.MaxSize
		x, io, err = c.CallTopen(protocol.FID(m.Fid), protocol.Mode(m.Mode))
		r.Qid, r.Iounit = q(x), uint32(io)
	case tCreate:
		var x protocol.QID
		var io protocol.MaxSize
		x, io, err = c.CallTcreate(protocol.FID(m.Fid), m.Str, protocol.Perm(m.Perm), protocol.Mode(m.Mode))
		r.Qid, r.Iounit = q(x), uint32(io)
	case tStat:
		r.Stat, err = c.CallTstat(protocol.FID(m.Fid))
	case tWstat:
		err = c.CallTwstat(protocol.FID(m.Fid), m.Stat)
	case tClunk:
		err = c.CallTclunk(protocol.FID(m.Fid))
	case tRemove:
		err = c.CallTremove(protocol.FID(m.Fid))
	case tRead:
		r.Data, err = c.CallTread(protocol.FID(m.Fid), protocol.Offset(m.Off), protocol.Count(m.Count))
	case tWrite:
		var n protocol.Count
		n, err = c.CallTwrite(protocol.FID(m.Fid), protocol.Offset(m.Off), m.Data)
		r.Count = uint32(n)
	default:
		panic(fmt.Sprintf("call of type %d", m.T))
	}
	return
}

// newClient makes a real client on a simulated connection. It must be called
// in a task.
func (w *W) newClient(conn *simConn, trace protocol.Tracer) *protocol.Client {
	var c *protocol.Client
	w.quiet(func() {
		var err error
		c, err = protocol.NewClient(func(c *protocol.Client) error {
			c.FromNet, c.ToNet = conn, conn
			if w.split {
				c.FromNet, c.ToNet = halfR{conn}, halfW{conn}
			}
			c.Trace = trace
			c.Msize = 8192
			return nil
		})
		if err != nil {
			w.s.Trouble("NewClient: %v", err)
			return
		}
		// a client that has been in use for a while
		if !w.aged {
			w.aged = true
			if w.cfg(5) == 1 {
				w.age = 1 + w.cfg(300)
			}
		}
		for i := 0; i < w.age && !w.s.Failed(); i++ {
			c.GetTag()
			c.GetFID()
		}
	})
	return c
}
