package go808

import (
	"gitee.com/coco/go808/protocol"
	vf "gitee.com/coco/go808/zzvf"
)

// vhHub is a server with the connections opened so far
type vhHub struct {
	s      *Server
	conns  []*vf.Conn
	sess   []*Session
	open   []bool
	closed map[*Session]int
	busy   bool // the close handler uses the session and the server
}

func vhNewHub(o Options, badHandler bool) *vhHub {
	h := &vhHub{closed: map[*Session]int{}}
	o.CloseHandler = func(x *Session) {
		h.closed[x]++
		if h.busy {
			h.s.GetSession(x.ID())
			x.Send(vhDown(1))
			x.Close()
			h.s.AddHandler(0x0900, func(*Session, *protocol.Message) {})
		}
		if badHandler {
			panic("close handler")
		}
	}
	h.s = vhServe(o)
	return h
}

func (h *vhHub) connect(c *vf.Conn) int {
	h.conns = append(h.conns, c)
	h.sess = append(h.sess, vhConnect(h.s, c))
	h.open = append(h.open, true)
	return len(h.conns) - 1
}

// check compares the server with the connections that are open
func (h *vhHub) check() {
	vf.Settle()
	n := 0
	for i, x := range h.sess {
		y, ok := h.s.GetSession(x.ID())
		if h.open[i] {
			n++
			vf.Assert(ok && y == x, "the session of an open connection is not found")
			vf.Assert(!h.conns[i].Closed, "an open connection is closed")
			vf.Assert(h.closed[x] == 0, "close handler called for an open connection")
		} else {
			vf.Assert(!ok, "the session of a closed connection is still found")
			vf.Assert(h.conns[i].Closed, "the connection is not closed")
			vf.Assert(h.closed[x] == 1, "close handler not called exactly once")
		}
		h.conns[i].Out = nil
	}
	vf.Assert(len(h.closed) == len(h.sess)-n, "close handler called for something else")
	vf.Assert(h.s.Broadcast(vhDown(7)) == n, "broadcast does not count the open sessions")
	vf.Settle()
	for i, c := range h.conns {
		if !h.open[i] {
			vf.Assert(len(c.Out) == 0, "something is written to a closed connection")
			continue
		}
		vf.Assert(len(c.Out) == 1, "broadcast not sent to every open session once")
		m, ok := vhParseFrame(c.Out[0])
		vf.Assert(ok && m.id == 0x8900, "broadcast not sent as it is")
		vf.Assert(vf.EqBytes(m.body, []byte{1, 7}), "broadcast not sent as it is")
		c.Out = nil
	}
}

// closing connection i in one of 9 ways
func (h *vhHub) end(i, way int) {
	c, x := h.conns[i], h.sess[i]
	switch way {
	case 0:
		c.EOF = true
	case 1:
		c.ReadErr = vf.ErrNet
	case 2:
		vf.Assert(x.Close() == nil, "closing an open session fails")
		x.Close()
	case 3: // writing fails
		c.OnWrite = func([]byte) (int, error) { return 0, vf.ErrNet }
		x.Send(vhDown(1))
	case 4: // data that is no frame
		c.In = append(c.In, []byte{1, 2, 3})
	case 5: // a frame that is damaged
		c.In = append(c.In, []byte{0x7e, 1, 2, 3, 0x7e})
	case 6: // the peer takes no more data
		c.OnWrite = func(b []byte) (int, error) {
			vf.WaitUntil(func() bool { return c.Closed })
			return 0, vf.ErrNet
		}
		fails := 0
		for k := 0; k < 30 && fails == 0; k++ {
			if _, err := x.Send(vhDown(1)); err != nil {
				fails++
			}
			vf.Settle()
		}
		vf.Assert(fails > 0, "sending to a blocked peer never fails")
	case 7: // idle: all connections time out
		vf.Advance(60)
		for j := range h.open {
			h.open[j] = false
		}
	case 8: // closed by the handler of a message
		h.s.AddHandler(protocol.MsgT808_0x0003, func(s *Session, _ *protocol.Message) {
			vf.Assert(s == x, "handler called with another session")
			s.Close()
		})
		c.In = append(c.In, vhMsg{id: 3, icc: 1, serial: 1}.frame())
	}
	vf.Settle()
	h.open[i] = false
	_, err := x.Send(vhDown(2))
	vf.Assert(err != nil, "sending on a closed session succeeds")
}

// up to 3 (thorough: 4) connections, opened and closed in any order and in 9
// ways (end of data, read error, Close, write error, data outside a frame,
// damaged frame, blocked peer, keepalive timeout, Close in a handler); close
// handlers that panic, that use the session and the server, or neither
//
//vf:covers none,all
func vhC22_table() {
	kind := vf.Choose(3)
	h := vhNewHub(Options{}, kind == 1)
	h.busy = kind == 2
	h.check()
	max := vhDelays(3, 4)
	for k := 0; k < vhDelays(4, 5); k++ {
		// open a connection, or close one
		var can []int
		for i := range h.open {
			if h.open[i] {
				can = append(can, i)
			}
		}
		n := len(can)
		if len(h.conns) < max {
			n++
		}
		if n == 0 {
			break
		}
		j := vf.Choose(n)
		if j == len(can) {
			h.connect(&vf.Conn{})
		} else {
			way := 2
			if k >= 2 {
				way = vf.Choose(9)
			}
			h.end(can[j], way)
		}
		h.check()
		n = 0
		for i := range h.open {
			if h.open[i] {
				n++
			}
		}
		if n == 0 {
			vf.Cover("none")
		}
		if n == max {
			vf.Cover("all")
		}
	}
}

// Stop closes every session; then the table is empty
func vhC22_stop() {
	h := vhNewHub(Options{}, vf.Choose(2) == 1)
	n := vf.Choose(4)
	for i := 0; i < n; i++ {
		h.connect(&vf.Conn{})
	}
	h.check()
	h.s.Stop()
	vf.Settle()
	for i := range h.open {
		h.open[i] = false
	}
	h.check()
	h.s.Stop()
	h.check()
}

// the state a server must be in when nothing runs any more, whatever happened
func (h *vhHub) settled(conns ...*vf.Conn) {
	vf.SetFine(false)
	vf.SetDelays(0)
	vf.Settle()
	open := 0
	for _, c := range conns {
		if !c.Closed {
			open++
		}
	}
	found := 0
	for id := uint64(0); id < 12; id++ {
		x, ok := h.s.GetSession(id)
		if !ok {
			continue
		}
		found++
		vf.Assert(x.ID() == id, "session found under another id")
		vf.Assert(h.closed[x] == 0, "a session is found after its close handler was called")
	}
	vf.Assert(found <= open, "the session of a closed connection is still found")
	vf.Assert(found >= open, "the session of an open connection is not found")
	for _, n := range h.closed {
		vf.Assert(n == 1, "close handler called more than once")
	}
	vf.Assert(len(h.closed) == len(conns)-open, "close handler not called for every closed connection")
}

// a connection that is closed while it is being set up: the peer goes away or
// a broadcast cannot be written (at most 2, thorough 3 delays between the
// statements of the root package), or the server is stopped (at most 1,
// thorough 2 delays)
//
//vf:covers peer,broadcast,stop
func vhC22_setup() {
	h := vhNewHub(Options{}, false)
	c := &vf.Conn{}
	done := false
	how := vf.Choose(3)
	if how == 2 {
		vf.SetDelays(vhDelays(1, 2))
	} else {
		vf.SetDelays(vhDelays(2, 3))
	}
	vf.SetFine(true)
	switch how {
	case 0:
		c.EOF = true
		vf.TheListener.Dial(c)
		done = true
	case 1:
		c.OnWrite = func([]byte) (int, error) { return 0, vf.ErrNet }
		vf.TheListener.Dial(c)
		vf.WaitUntil(func() bool { return vf.TheListener.Pending() == 0 })
		h.s.Broadcast(vhDown(1))
		done = true
	case 2:
		vf.TheListener.Dial(c)
		vf.WaitUntil(func() bool { return vf.TheListener.Pending() == 0 })
		h.s.Stop()
		done = true
	}
	vf.Settle()
	vf.Assert(done, "the server hangs")
	h.settled(c)
	vf.Cover([]string{"peer", "broadcast", "stop"}[how])
}

// one session closed twice by different goroutines while the peer goes away,
// and a broadcast and lookups run; schedules with at most 1 (thorough: 2) delays
//
//vf:covers done
func vhC22_closing() {
	h := vhNewHub(Options{}, false)
	a, b := &vf.Conn{}, &vf.Conn{}
	h.connect(a)
	h.connect(b)
	left := 2
	second := vf.Choose(4)
	vf.SetDelays(vhDelays(1, 2))
	vf.SetFine(true)
	vf.Go(func() {
		h.sess[0].Close()
		left--
	})
	sent := -1
	vf.Go(func() {
		switch second {
		case 0:
			h.sess[0].Close()
		case 1:
			a.EOF = true
		case 2:
			sent = h.s.Broadcast(vhDown(1))
		case 3:
			h.s.GetSession(h.sess[0].ID())
			h.sess[0].Send(vhDown(1))
		}
		left--
	})
	vf.Settle()
	vf.Assert(left == 0, "the server hangs")
	h.settled(a, b)
	vf.Assert(a.Closed && !b.Closed, "wrong connection closed")
	if second == 2 {
		vf.Assert(sent == 1 || sent == 2, "broadcast does not count the sends that succeeded")
		vf.Assert(len(b.Out) == 1, "broadcast not sent to an open session once")
		vf.Assert(len(a.Out) <= 1, "broadcast sent twice")
	}
	h.open[0] = false
	h.conns[0].Out, h.conns[1].Out = nil, nil
	h.check()
	vf.Cover("done")
}

// two connections being opened while another one is closed, and a broadcast;
// schedules with at most 1 (thorough: 2) delay
func vhC22_opening() {
	h := vhNewHub(Options{}, false)
	a, b, c := &vf.Conn{}, &vf.Conn{}, &vf.Conn{}
	h.connect(a)
	done := false
	n := -1
	vf.SetDelays(vhDelays(1, 2))
	vf.SetFine(true)
	vf.TheListener.Dial(b)
	vf.TheListener.Dial(c)
	a.EOF = true
	vf.Go(func() {
		n = h.s.Broadcast(vhDown(1))
		done = true
	})
	vf.Settle()
	vf.Assert(done, "the server hangs")
	h.settled(a, b, c)
	vf.Assert(n >= len(b.Out)+len(c.Out), "broadcast does not count the sends that succeeded")
	vf.Assert(len(a.Out) <= 1 && len(b.Out) <= 1 && len(c.Out) <= 1, "broadcast sent twice to one session")
}

// one connection with keepalive 1-3 s (0: the default of 60), messages with a
// handler (that panics or not) arriving in any subset of the seconds, and in the
// others nothing, or messages without a handler or a body that can be decoded,
// or messages sent by the server: it is closed exactly when the keepalive time
// has passed since it was opened or since the last message with a handler
//
//vf:covers closed,kept
func vhC28_idle() {
	k := vf.Choose(4)
	step, period := 1, k
	if k == 0 {
		step, period = 20, 60
	}
	h := vhNewHub(Options{Keepalive: int64(k)}, false)
	calls := 0
	bad := vf.Choose(2) == 1
	h.s.AddHandler(protocol.MsgT808_0x0002, func(*Session, *protocol.Message) {
		calls++
		if bad {
			panic("handler")
		}
	})
	c := &vf.Conn{}
	h.connect(c)
	last := vf.Clock()
	sent := 0
	noise := vf.Choose(6)
	icc, no0, step0 := uint64(1), uint16(0), uint16(1)
	if !bad {
		icc, no0, step0 = vhNumbering()
	}
	for s := 0; s < vhDelays(5, 8); s++ {
		if vf.Choose(2) == 0 {
			m := vhMsg{icc: icc, serial: no0 + step0*uint16(s)}
			switch noise {
			case 1:
				m.id, m.body = 0x0900, []byte{1, 2}
			case 2:
				m.id, m.body = 0x0f0f, []byte{1, 2}
			case 3:
				m.id, m.body = 0x0200, []byte{1, 2}
			case 4:
				h.sess[0].Send(vhDown(1))
			case 5: // part of a frame
				if s == 0 {
					c.In = append(c.In, vhMsg{id: 2, icc: icc, serial: no0}.frame()[:7])
				}
				break
			}
			if m.id != 0 {
				c.In = append(c.In, m.frame())
			}
			vf.Settle()
		} else {
			if noise == 5 {
				break
			}
			c.In = append(c.In, vhMsg{id: 2, icc: icc, serial: no0 + step0*uint16(s)}.frame())
			vf.Settle()
			if h.open[0] {
				sent++
				last = vf.Clock()
			}
		}
		vf.Advance(step)
		if vf.Clock()-last >= int64(period) {
			h.open[0] = false
		}
		vf.Assert(c.Closed == !h.open[0], "connection closed early, or kept beyond the keepalive time")
		vf.Assert(calls == sent, "message not handled")
	}
	h.check()
	if h.open[0] {
		vf.Cover("kept")
	} else {
		vf.Cover("closed")
	}
}

// 3 connections opened at different seconds, two of which send a message at
// some second: each is closed on its own time
func vhC28_several() {
	h := vhNewHub(Options{Keepalive: 3}, false)
	h.s.AddHandler(protocol.MsgT808_0x0002, func(*Session, *protocol.Message) {})
	at := []int{0, vf.Choose(3), vf.Choose(3)}
	say := []int{1 + vf.Choose(3), 9, 2 + vf.Choose(2)}
	dead := make([]int64, 3)
	n := 0
	idx := make([]int, 3)
	for s := 0; s < 9; s++ {
		for i := range at {
			if at[i] == s {
				idx[i] = h.connect(&vf.Conn{})
				dead[i] = vf.Clock() + 3
				n++
			}
			if say[i] == s && at[i] < s && h.open[idx[i]] {
				h.conns[idx[i]].In = append(h.conns[idx[i]].In, vhMsg{id: 2, icc: 1, serial: uint16(s)}.frame())
				vf.Settle()
				dead[i] = vf.Clock() + 3
			}
		}
		vf.Advance(1)
		for i := range at {
			if at[i] <= s && dead[i] <= vf.Clock() {
				h.open[idx[i]] = false
			}
		}
		for i := range at {
			if at[i] <= s {
				vf.Assert(h.conns[idx[i]].Closed == !h.open[idx[i]], "connection closed early, or kept beyond the keepalive time")
			}
		}
	}
	h.check()
}

// 12 connections, one or two of which (any) are closed, in two ways, and one
// of which cannot be written to; then broadcasts
func vhC22_many() {
	h := vhNewHub(Options{}, false)
	n := 12
	for i := 0; i < n; i++ {
		h.connect(&vf.Conn{})
	}
	h.check()
	a := vf.Choose(n)
	h.end(a, []int{0, 2}[vf.Choose(2)])
	h.check()
	b := vf.Choose(n)
	if h.open[b] {
		h.conns[b].OnWrite = func([]byte) (int, error) { return 0, vf.ErrNet }
		k := h.s.Broadcast(vhDown(3))
		vf.Assert(k == n-1 || k == n-2, "broadcast does not count the sends that succeeded")
		vf.Settle()
		h.open[b] = false
		for i, c := range h.conns {
			if h.open[i] {
				vf.Assert(len(c.Out) == 1, "broadcast not sent to every open session once")
			}
		}
		h.check()
	}
}

// any keepalive setting up to 2^20 s (0 and negative: the default of 60), one
// check at any time up to 2^21 s after the connection was opened or after a
// message was served
func vhC28_setting() {
	k := vf.Range(0, 1<<20)
	period := vf.IteInt(k == 0, 60, k)
	set := int64(k)
	if vf.Choose(2) == 1 {
		set, period = -set, 60
	}
	h := vhNewHub(Options{Keepalive: set}, false)
	h.s.AddHandler(protocol.MsgT808_0x0002, func(*Session, *protocol.Message) {})
	c := &vf.Conn{}
	h.connect(c)
	at := 0
	if vf.Choose(2) == 1 {
		at = vf.Range(0, 1<<20)
		vf.Assume(at < period)
		vf.SetClock(int64(at))
		c.In = append(c.In, vhMsg{id: 2, icc: 1, serial: 1}.frame())
		vf.Settle()
	}
	d := vf.Range(0, 1<<21)
	vf.SetClock(int64(at + d))
	vf.Deliver()
	vf.Settle()
	vf.Assert(c.Closed || d < period, "connection kept beyond the keepalive time")
	vf.Assert(!c.Closed || d >= period, "connection closed early")
}

// 12 connections opened at one second's distance with keepalive 15 s; any one
// of them sends a message at any second, and any other one is closed by its
// peer: every one is closed on its own time
func vhC28_many() {
	n := 12
	h := vhNewHub(Options{Keepalive: 15}, false)
	h.s.AddHandler(protocol.MsgT808_0x0002, func(*Session, *protocol.Message) {})
	dead := make([]int64, n)
	who, when := vf.Choose(n), 12+vf.Choose(14)
	gone := n - 1 - who
	if vf.Choose(2) == 1 {
		gone = (who + 1) % n
	}
	for s := 0; s < 45; s++ {
		if s < n {
			h.connect(&vf.Conn{})
			dead[s] = vf.Clock() + 15
		}
		if s == 13 && h.open[gone] {
			h.conns[gone].EOF = true
			vf.Settle()
			h.open[gone] = false
		}
		if s == when && h.open[who] {
			h.conns[who].In = append(h.conns[who].In, vhMsg{id: 2, icc: 1, serial: uint16(s)}.frame())
			vf.Settle()
			dead[who] = vf.Clock() + 15
		}
		vf.Advance(1)
		for i, c := range h.conns {
			if dead[i] <= vf.Clock() {
				h.open[i] = false
			}
			vf.Assert(c.Closed == !h.open[i], "connection closed early, or kept beyond the keepalive time")
		}
	}
	h.check()
}
