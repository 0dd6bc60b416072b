package go808

import (
	"io/ioutil"

	"gitee.com/coco/go808/protocol"
	vf "gitee.com/coco/go808/zzvf"
)

// up to 2 (thorough: 3) connections, opened and closed in any order and in 9
// ways (as in C22), after they have sent nothing, a message, a damaged frame's
// beginning or been asked something, after
// one that was closed before; close handlers that panic or use the
// server: when all are closed there are as many goroutines as before them, their connections
// are closed, and after Stop the server's goroutines have ended as well
//
//vf:covers one,all
func vhC33_connections() {
	kind := vf.Choose(3)
	h := vhNewHub(Options{}, kind == 1)
	h.busy = kind == 2
	h.connect(&vf.Conn{})
	vf.Settle()
	h.end(0, 2)
	base := vf.Live()
	max := vhDelays(2, 3)
	for i := 1; i <= max; i++ {
		h.connect(&vf.Conn{})
		c := h.conns[i]
		switch i {
		case 1:
			c.In = append(c.In, vhMsg{id: 2, icc: 1, serial: 1}.frame())
		case 2:
			c.In = append(c.In, []byte{0x7e, 0, 2, 0})
			h.sess[i].Request(&protocol.T808_0x8104{}, func(*protocol.Message) {})
		}
		vf.Settle()
	}
	left := max
	for left > 0 {
		var can []int
		for i := range h.open {
			if h.open[i] {
				can = append(can, i)
			}
		}
		i, way := can[vf.Choose(len(can))], vf.Choose(9)
		if i == 2 && way == 4 {
			way = 5 // 4 would go on with the frame
		}
		h.end(i, way)
		vf.Settle()
		left = 0
		for i, c := range h.conns {
			if h.open[i] {
				left++
			} else {
				vf.Assert(c.Closed, "the connection is not closed")
			}
		}
		if left > 0 {
			vf.Cover("one")
		}
	}
	vf.Cover("all")
	vf.Assert(vf.Live() == base, "goroutines are left of closed connections")
	h.s.Stop()
	vf.Settle()
	vf.Assert(!vf.TheListener.Open(), "the listener is open after Stop")
	vf.Assert(vf.Live() <= base, "goroutines are left after Stop")
	n := vf.Live()
	vf.Go(func() { h.s.Run("tcp", 8808) })
	vf.Settle()
	h.s.Stop()
	vf.Settle()
	vf.Assert(vf.Live() == n, "goroutines are left of a run")
}

// Stop with 1 or 2 connections in 4 states (idle, within a frame, blocked
// peer, in a handler that sends): nothing of them is left
func vhC33_stop() {
	h := vhNewHub(Options{}, vf.Choose(2) == 1)
	h.s.AddHandler(protocol.MsgT808_0x0002, func(s *Session, m *protocol.Message) {
		s.Reply(m, 0)
	})
	vf.Settle()
	base := vf.Live()
	for i := 0; i < 2; i++ {
		c := &vf.Conn{}
		h.connect(c)
		switch vf.Choose(4) {
		case 1:
			c.In = append(c.In, []byte{0x7e, 0, 2, 0})
		case 2:
			c.OnWrite = func(b []byte) (int, error) {
				vf.WaitUntil(func() bool { return c.Closed })
				return 0, vf.ErrNet
			}
			h.sess[i].Send(vhDown(1))
			h.sess[i].Send(vhDown(2))
		case 3:
			c.In = append(c.In, vhMsg{id: 2, icc: 1, serial: 1}.frame())
		}
		if vf.Choose(2) == 1 {
			vf.Settle()
		}
	}
	h.s.Stop()
	vf.Settle()
	for _, c := range h.conns {
		vf.Assert(c.Closed, "a connection is open after Stop")
	}
	vf.Assert(vf.Live() < base, "goroutines are left after Stop")
}

// uploads of 1-3 parts in any order, a part of an unfinished one stored before
// or not, one part sent twice or not, at most one
// storage failure at any point (of the last part that arrives, thorough: of any
// part), handlers that read all, a part or nothing of the data, close the
// session or panic: no file is left open, and those of an upload delivered
// without a failure are gone
//
//vf:covers storage failure,delivered
func vhC33_upload() {
	kind := vf.Choose(5)
	got := 0
	s := vhServe(Options{AutoMergePacket: true})
	s.AddHandler(protocol.MsgT808_0x0801, func(x *Session, m *protocol.Message) {
		got++
		r := m.Body.(*protocol.T808_0x0801).Packet
		switch kind {
		case 0:
			ioutil.ReadAll(r)
		case 1:
			r.Read(make([]byte, 1))
		case 3:
			x.Close()
		case 4:
			panic("handler")
		}
	})
	c := &vf.Conn{}
	vhConnect(s, c)
	if vf.Choose(2) == 1 { // of an upload with a greater total, not finished
		c.In = append(c.In, vhMsg{id: 0x0801, flags: 0x2000, icc: 1, serial: 9, sum: 6, seq: 5, body: vhMedia(42, nil)}.frame())
		vf.Settle()
	}
	sum := 1 + vf.Choose(3)
	order := vhPerm(sum)
	if sum > 1 && vf.Choose(2) == 1 {
		order = append([]int{order[vf.Choose(sum-1)]}, order...)
	}
	faulty := vf.Choose(2) == 1
	for k, seq := range order {
		vf.Assert(got == 0, "delivered before all parts have arrived")
		if faulty && (vf.Thorough() || k == len(order)-1) {
			vf.FSFaults(1, true)
			faulty = k < len(order)-1 && vf.Choose(2) == 1
		}
		c.In = append(c.In, vhMsg{id: 0x0801, flags: 0x2000, icc: 1, serial: uint16(k), sum: uint16(sum), seq: uint16(seq), body: vhMedia(42, []byte{byte(seq), 5})}.frame())
		vf.Settle()
		vf.Assert(vf.OpenFiles() == 0, "files are left open")
		if vf.FSFailed() > 0 {
			return
		}
		vf.FSFaults(0, false)
	}
	vf.Assert(got == 1, "not delivered although all parts have arrived")
	vf.Cover("delivered")
	vf.Assert(len(vf.Files()) == 0, "files of a delivered upload are left")
}

// the same for the functions of MultipartFile: 2 parts, one storage failure at
// any point of storing, looking and merging
//
//vf:covers storage failure,merged
func vhC33_multipart() {
	m := MultipartFile{IccID: 1, MsgID: 0x0801, Tag: 2, Sum: 2}
	vf.FSFaults(1, true)
	for seq := uint16(1); seq <= 2; seq++ {
		m.Write(seq, []byte{1, 2})
		vf.Assert(vf.OpenFiles() == 0, "files are left open")
	}
	m.IsFull()
	vf.Assert(vf.OpenFiles() == 0, "files are left open")
	r, err := m.Merge()
	if err == nil {
		vf.Cover("merged")
		vf.Assert(vf.OpenFiles() <= 1, "files are left open")
		ioutil.ReadAll(r)
		r.Close()
	}
	vf.Assert(vf.OpenFiles() == 0, "files are left open")
}
