package go808

import (
	"bytes"
	"crypto/rsa"
	"gitee.com/coco/go808/protocol"
	vf "gitee.com/coco/go808/zzvf"
	"strings"
)

// merging on: the parts of an upload arriving in any subset of 5 (thorough: 8)
// seconds, keepalive 2 s, with and without a handler for them: a part for which
// a handler is registered counts as a message served
//
//vf:covers closed,kept
func vhC28_parts() {
	h := vhNewHub(Options{Keepalive: 2, AutoMergePacket: true}, false)
	handled := vf.Choose(2) == 1
	if handled {
		h.s.AddHandler(protocol.MsgT808_0x0801, func(*Session, *protocol.Message) {})
	}
	c := &vf.Conn{}
	h.connect(c)
	last := vf.Clock()
	seq := 0
	for s := 0; s < vhDelays(5, 8); s++ {
		if vf.Choose(2) == 1 {
			seq++
			m := vhMsg{id: 0x0801, flags: 0x2000, icc: 1, serial: uint16(s), sum: 9, seq: uint16(seq), body: vhMedia(5, []byte{1})}
			c.In = append(c.In, m.frame())
			vf.Settle()
			if h.open[0] && handled {
				last = vf.Clock()
			}
		}
		vf.Advance(1)
		if vf.Clock()-last >= 2 {
			h.open[0] = false
		}
		vf.Assert(c.Closed == !h.open[0], "connection closed early, or kept beyond the keepalive time")
	}
	h.check()
	if h.open[0] {
		vf.Cover("kept")
	} else {
		vf.Cover("closed")
	}
}

// two connections to a server with a private key of 1024 bits: 3 messages each,
// encrypted or not, of one and two chunks, split or not: all are dispatched with
// the plain body
//
//vf:covers encrypted,plain
func vhC21_encrypted() {
	key := vf.NewKey(128)
	s := vhServe(Options{PrivateKey: key})
	vf.Assert(s.GetPrivateKey() == key, "the private key of the server is another")
	var got []*protocol.T808_0x0900
	var by []*Session
	s.AddHandler(protocol.MsgT808_0x0900, func(x *Session, m *protocol.Message) {
		got = append(got, m.Body.(*protocol.T808_0x0900))
		by = append(by, x)
	})
	a, b := &vf.Conn{}, &vf.Conn{}
	ca, cb := vhConnect(s, a), vhConnect(s, b)
	var want []*protocol.T808_0x0900
	var whose []*Session
	for k := 0; k < 3; k++ {
		n := []int{1, 90, 0}[k]
		e := &protocol.T808_0x0900{Type: byte(k + 1), Data: make([]byte, n)}
		for i := range e.Data {
			e.Data[i] = byte(i + k)
		}
		m := protocol.Message{Header: protocol.Header{MsgID: 0x0900, IccID: 1, MsgSerialNo: uint16(k)}, Body: e}
		var f []byte
		var err error
		if vf.Choose(2) == 1 {
			vf.Cover("encrypted")
			m.Header.Property = 0x400
			f, err = m.Encode(&key.PublicKey)
		} else {
			vf.Cover("plain")
			f, err = m.Encode()
		}
		vf.Assert(err == nil, "encoding fails")
		if vf.Choose(2) == 1 {
			a.In = append(a.In, f)
			whose = append(whose, ca)
		} else {
			b.In = append(b.In, f)
			whose = append(whose, cb)
		}
		want = append(want, e)
		vf.Settle()
	}
	vf.Assert(len(got) == len(want), "a message is not dispatched exactly once")
	for i := range want {
		vf.Assert(vf.Equal(got[i], want[i]), "dispatched with another body")
		vf.Assert(by[i] == whose[i], "dispatched with another session")
	}
	vf.Assert(!a.Closed && !b.Closed, "connection closed")
}

// frames of every length up to the longest: bodies of 1 to 1023 bytes (lengths
// in steps of 31 and around multiples of 128), all, some or none of which need
// escaping: written in one piece
func vhC26_sizes() {
	fill := []byte{0x11, 0x7e, 0}[vf.Choose(3)]
	rw := &vhRW{}
	c, _ := Protocol{}.NewCodec(rw)
	no := uint16(0)
	for n := 0; n <= 1022; n++ {
		if n%31 != 0 && n%128 > 2 && n%128 < 125 && n < 1019 {
			continue
		}
		e := &protocol.T808_0x0900{Type: 0x7d, Data: bytes.Repeat([]byte{fill}, n)}
		if fill == 0 {
			for i := range e.Data {
				e.Data[i] = byte(i)
			}
		}
		no++
		rw.out = nil
		err := c.Send(protocol.Message{Header: protocol.Header{IccID: 1, MsgSerialNo: no}, Body: e})
		vf.Assert(err == nil, "sending fails")
		vf.Assert(len(rw.out) == 1, "not written in one piece")
		want := vhMsg{id: 0x0900, icc: 1, serial: no, body: append([]byte{0x7d}, e.Data...)}.frame()
		vf.Assert(bytes.Equal(rw.out[0], want), "not written as encoded")
	}
}

// 4 messages, each with or without the encryption flag, before each of which
// the key may be set, replaced by another or removed: encrypted exactly when a
// key is set and the message asks for it, with the key set last
//
//vf:covers encrypted,plain
func vhC26_keys() {
	keys := []*rsa.PrivateKey{vf.NewKey(48), vf.NewKey(64)}
	rw := &vhRW{}
	c, _ := Protocol{}.NewCodec(rw)
	x := c.(*ProtocolCodec)
	var cur *rsa.PrivateKey
	for k := 0; k < 4; k++ {
		switch vf.Choose(4) {
		case 0:
			x.SetPublicKey(nil)
			cur = nil
		case 1:
			x.SetPublicKey(&keys[0].PublicKey)
			cur = keys[0]
		case 2:
			x.SetPublicKey(&keys[1].PublicKey)
			cur = keys[1]
		}
		if cur == nil {
			vf.Assert(x.GetPublicKey() == nil, "a key is left")
		} else {
			vf.Assert(x.GetPublicKey() == &cur.PublicKey, "the key is another")
		}
		e := &protocol.T808_0x0900{Type: byte(k), Data: []byte{1, 2}}
		m := protocol.Message{Header: protocol.Header{IccID: 1, MsgSerialNo: uint16(k)}, Body: e}
		flag := vf.Choose(2) == 1
		if flag {
			m.Header.Property = 0x400
		}
		rw.out = nil
		vf.Assert(c.Send(m) == nil, "sending fails")
		vf.Assert(len(rw.out) == 1, "not written in one piece")
		p, ok := vhParseFrame(rw.out[0])
		vf.Assert(ok, "malformed frame")
		if cur != nil && flag {
			vf.Cover("encrypted")
			var got protocol.Message
			vf.Assert(got.Decode(rw.out[0], cur) == nil, "what was sent cannot be decrypted")
			vf.Assert(vf.Equal(got.Body, e), "encrypted body differs")
			vf.Assert(len(p.body) >= 48, "body not encrypted")
		} else {
			vf.Cover("plain")
			vf.Assert(bytes.Equal(p.body, []byte{byte(k), 1, 2}), "body differs")
		}
	}
}

// two sessions, a key set on one of them or on both, then replaced: each session
// has its own key, and what Send and Reply send (which does not ask for
// encryption) is not encrypted
func vhC26_sessions() {
	s := vhServe(Options{})
	k1, k2 := vf.NewKey(128), vf.NewKey(128)
	a, b := &vf.Conn{}, &vf.Conn{}
	xa, xb := vhConnect(s, a), vhConnect(s, b)
	vf.Assert(xa.GetPublicKey() == nil && xb.GetPublicKey() == nil, "a session starts with a key")
	xa.SetPublicKey(&k1.PublicKey)
	vf.Assert(xa.GetPublicKey() == &k1.PublicKey, "the key of a session is another")
	vf.Assert(xb.GetPublicKey() == nil, "a key is set on another session")
	if vf.Choose(2) == 1 {
		xb.SetPublicKey(&k2.PublicKey)
		vf.Assert(xb.GetPublicKey() == &k2.PublicKey, "the key of a session is another")
		vf.Assert(xa.GetPublicKey() == &k1.PublicKey, "a key is set on another session")
	}
	xa.Send(vhDown(1))
	xb.Send(vhDown(2))
	vf.Settle()
	for i, c := range []*vf.Conn{a, b} {
		out := vhWritten(c)
		vf.Assert(len(out) == 1, "not written in one piece")
		vf.Assert(out[0].flags == 0 && bytes.Equal(out[0].body, []byte{1, byte(i + 1)}), "encrypted without being asked")
	}
}

// two codecs of one protocol, each receiving 2 frames (in pieces that end inside
// a frame) and sending 1 message, in two goroutines at the same time; all
// schedules with 1 delay between the statements of go808 and its protocol package
func vhC29_codecs() {
	type end struct {
		rw   *vhRW
		want []*protocol.T808_0x0900
		got  []protocol.Message
		err  error
		done bool
	}
	var ends []*end
	p := Protocol{}
	for i := 0; i < 2; i++ {
		x := &end{rw: &vhRW{}}
		var stream []byte
		for k := 0; k < 2; k++ {
			e := &protocol.T808_0x0900{Type: byte(16*i + k), Data: []byte{byte(i + 1), 0x33, byte(k)}}
			if k == 0 {
				e.Data[1] = vf.Byte()
				vf.Assume(e.Data[1] < 0x60)
			}
			x.want = append(x.want, e)
			stream = append(stream, vhMsg{id: 0x0900, icc: uint64(i + 1), serial: uint16(k), body: append([]byte{e.Type}, e.Data...)}.frame()...)
		}
		x.rw.chunks = [][]byte{stream[:9+i], stream[9+i : 22], stream[22:]}
		ends = append(ends, x)
	}
	vf.Sched(1, false)
	var codecs []interface {
		Receive() (interface{}, error)
		Send(interface{}) error
	}
	for _, x := range ends {
		c, _ := p.NewCodec(x.rw)
		codecs = append(codecs, c)
	}
	vf.SetFine(true)
	vf.SetFiner(true)
	for i := range ends {
		i := i
		vf.Go(func() {
			x := ends[i]
			for k := 0; k < 2 && x.err == nil; k++ {
				v, err := codecs[i].Receive()
				x.err = err
				if err == nil {
					x.got = append(x.got, v.(protocol.Message))
				}
			}
			if x.err == nil {
				x.err = codecs[i].Send(protocol.Message{Header: protocol.Header{IccID: uint64(i + 1), MsgSerialNo: 7}, Body: x.want[1]})
			}
			x.done = true
		})
	}
	vf.WaitUntil(func() bool { return ends[0].done && ends[1].done })
	vf.SetFine(false)
	vf.SetFiner(false)
	for i, x := range ends {
		vf.Assert(x.err == nil, "receiving or sending fails")
		for k, m := range x.got {
			vf.Assert(m.Header.IccID == uint64(i+1) && m.Header.MsgSerialNo == uint16(k), "received with another header")
			vf.Assert(vf.Equal(m.Body, x.want[k]), "received with another body")
		}
		vf.Assert(len(x.rw.out) == 1, "not written in one piece")
		f := vhMsg{id: 0x0900, icc: uint64(i + 1), serial: 7, body: append([]byte{x.want[1].Type}, x.want[1].Data...)}.frame()
		vf.Assert(bytes.Equal(x.rw.out[0], f), "sent as something else")
	}
}

// two codecs whose streams (2 frames each, cut at any place) are received in
// turn, one read after the other
func vhC29_turns() {
	var rws []*vhRW
	var codecs []interface {
		Receive() (interface{}, error)
	}
	var frames [][]byte
	for i := 0; i < 2; i++ {
		var s []byte
		for k := 0; k < 2; k++ {
			s = append(s, vhMsg{id: 0x0900, icc: uint64(i + 1), serial: uint16(k), body: []byte{1, byte(i), 2, byte(k), 3}}.frame()...)
		}
		frames = append(frames, s)
		rw := &vhRW{err: vf.ErrNet}
		rws = append(rws, rw)
		c, _ := Protocol{}.NewCodec(rw)
		codecs = append(codecs, c)
	}
	cuts := [2]int{1 + vf.Choose(len(frames[0])-1), 1 + vf.Choose(len(frames[1])-1)}
	no := [2]int{}
	for step := 0; step < 2; step++ {
		for i := 0; i < 2; i++ {
			part := frames[i][:cuts[i]]
			if step == 1 {
				part = frames[i][cuts[i]:]
			}
			rws[i].chunks = append(rws[i].chunks, append([]byte{}, part...))
			for {
				v, err := codecs[i].Receive()
				if err != nil {
					vf.Assert(err == vf.ErrNet, "receiving fails")
					break
				}
				m := v.(protocol.Message)
				e, ok := m.Body.(*protocol.T808_0x0900)
				vf.Assert(ok && m.Header.IccID == uint64(i+1) && m.Header.MsgSerialNo == uint16(no[i]), "received out of order, or from another stream")
				vf.Assert(bytes.Equal(e.Data, []byte{byte(i), 2, byte(no[i]), 3}), "received with another body")
				no[i]++
			}
		}
	}
	vf.Assert(no == [2]int{2, 2}, "a message is not received")
}

// a broadcast to 3 connections of a message of 3 kinds (texts, areas, data),
// written at the same time; all schedules with 1 delay between the statements of
// go808 and its protocol package: every connection gets the same body
func vhC29_broadcast() {
	s := vhServe(Options{})
	var conns []*vf.Conn
	for i := 0; i < 3; i++ {
		c := &vf.Conn{}
		conns = append(conns, c)
		vhConnect(s, c)
	}
	var e protocol.Entity
	var want []byte
	switch vf.Choose(3) {
	case 0:
		e, want = &protocol.T808_0x8300{Flag: 3, Text: "车牌A"}, []byte{3, 0xb3, 0xb5, 0xc5, 0xc6, 'A'}
	case 1:
		e = &protocol.T808_0x8900{Type: 1, Data: []byte{0x7e, 0x7d, 9}}
		want = []byte{1, 0x7e, 0x7d, 9}
	case 2:
		e = &protocol.T808_0x8202{Interval: 5, Expire: 0x7e}
		want = []byte{0, 5, 0, 0, 0, 0x7e}
	}
	vf.SetDelays(1)
	vf.SetFine(true)
	vf.SetFiner(true)
	n := s.Broadcast(e)
	vf.Settle()
	vf.SetFine(false)
	vf.SetFiner(false)
	vf.Assert(n == 3, "a broadcast is not sent to all connections")
	for _, c := range conns {
		out := vhWritten(c)
		vf.Assert(len(out) == 1, "a broadcast is not sent once")
		vf.Assert(bytes.Equal(out[0].body, want), "a broadcast has another body")
	}
}

// every sequence of 6 (thorough: 7) of: Run, Run with a port that cannot be
// opened, Stop, connecting, sending a message on the newest connection
//
//vf:covers again,refused,failed
func vhC30_lifecycle() {
	vf.Sched(0, false)
	closed, calls := 0, 0
	s, err := NewServer(Options{CloseHandler: func(*Session) { closed++ }})
	vf.Assert(err == nil, "NewServer fails")
	s.AddHandler(protocol.MsgT808_0x0002, func(*Session, *protocol.Message) { calls++ })
	running, runs, stops := false, 0, 0
	var ret []error // of the Run in progress
	var conns []*vf.Conn
	opened, sent := 0, 0
	for k := 0; k < vhDelays(6, 7); k++ {
		switch vf.Choose(5) {
		case 0, 1:
			fail := false
			if runs > 0 || stops > 0 {
				fail = vf.Choose(2) == 1
			}
			vf.ListenFails = fail
			before := vf.TheListener
			port := 8800 + k
			var res []error
			vf.Go(func() { res = append(res, s.Run("tcp", port)) })
			vf.Settle()
			vf.ListenFails = false
			if running || fail {
				vf.Assert(len(res) == 1, "Run that cannot serve does not return")
				vf.Assert(res[0] != nil, "Run that cannot serve returns no error")
				vf.Assert(running || res[0] == vf.ErrNet, "the error of listening is not returned")
				vf.Assert(vf.TheListener == before, "Run on a running server listens")
				if running {
					vf.Cover("refused")
				} else {
					vf.Cover("failed")
				}
			} else {
				vf.Assert(len(res) == 0, "Run returns at once")
				vf.Assert(vf.TheListener != before && vf.TheListener.Open(), "Run does not listen")
				vf.Assert(strings.HasSuffix(vf.TheListener.Address(), ":"+string([]byte{'8', '8', '0', byte('0' + k)})), "listens on another port")
				running = true
				runs++
				ret = nil
				// Run stays in progress: its result is looked at after Stop
				vf.Go(func() {
					vf.WaitUntil(func() bool { return len(res) > 0 })
					ret = res
				})
			}
		case 2:
			s.Stop()
			stops++
			vf.Settle()
			if running {
				vf.Assert(len(ret) == 1, "Run does not return after Stop")
				vf.Assert(!vf.TheListener.Open(), "the listener is open after Stop")
			}
			running = false
			for _, c := range conns {
				vf.Assert(c.Closed, "a connection is open after Stop")
			}
			conns = nil
			vf.Assert(closed == opened, "close handler not called once for every connection")
		case 3:
			if !running {
				continue
			}
			if runs > 1 {
				vf.Cover("again")
			}
			c := &vf.Conn{}
			vf.TheListener.Dial(c)
			vf.Settle()
			opened++
			conns = append(conns, c)
		case 4:
			if len(conns) == 0 {
				continue
			}
			sent++
			c := conns[len(conns)-1]
			c.In = append(c.In, vhMsg{id: 2, icc: 1, serial: uint16(k)}.frame())
			vf.Settle()
		}
		vf.Assert(calls == sent, "a message is not handled")
		for _, c := range conns {
			vf.Assert(!c.Closed, "a connection is closed though the server runs")
		}
		vf.Assert(s.Broadcast(vhDown(1)) == len(conns), "broadcast does not reach the open connections")
		vf.Settle()
	}
}

// Run and Stop called at the same moment by two goroutines, on a server that is
// stopped or runs and has a connection; schedules with at most 1 (thorough: 2)
// delays between the statements of the root package. Afterwards the server
// serves, or has stopped and can be run
//
//vf:covers runs,stopped
func vhC30_together() {
	vf.Sched(0, false)
	calls, closed := 0, 0
	s, err := NewServer(Options{CloseHandler: func(*Session) { closed++ }})
	vf.Assert(err == nil, "NewServer fails")
	s.AddHandler(protocol.MsgT808_0x0002, func(*Session, *protocol.Message) { calls++ })
	var runs []*bool // whether each Run has returned
	run := func(port int) {
		done := new(bool)
		runs = append(runs, done)
		vf.Go(func() {
			vf.Assert(s.Run("tcp", port) != nil, "Run returns without an error")
			*done = true
		})
	}
	serving := func() int {
		n := 0
		for _, d := range runs {
			if !*d {
				n++
			}
		}
		return n
	}
	serves := func() {
		was := calls
		c := &vf.Conn{}
		vf.TheListener.Dial(c)
		vf.Settle()
		c.In = append(c.In, vhMsg{id: 2, icc: 1, serial: 1}.frame())
		vf.Settle()
		vf.Assert(calls == was+1, "a message is not handled")
	}
	if vf.Choose(2) == 1 {
		run(8800)
		vf.Settle()
		serves()
	}
	running := serving() == 1
	stopped := 0
	stops := 0
	vf.SetFine(true)
	vf.SetDelays(vhDelays(1, 2))
	for i := 0; i < 2; i++ {
		if vf.Choose(2) == 0 {
			run(8801 + i)
		} else {
			stops++
			vf.Go(func() {
				s.Stop()
				stopped++
			})
		}
	}
	vf.Settle()
	vf.SetFine(false)
	vf.SetDelays(0)
	vf.Settle()
	vf.Assert(stopped == stops, "Stop does not return")
	n := serving()
	vf.Assert(n <= 1, "Run does not return though the server was stopped or ran already")
	if stops == 0 {
		vf.Assert(n == 1, "a server that was not stopped does not run")
	}
	if stops == 2 {
		vf.Assert(n == 0, "the server runs after Stop")
	}
	up := 0
	for _, l := range vf.Listeners {
		if l.Open() {
			up++
		}
	}
	vf.Assert(up == n, "a listener is open though no Run serves it, or closed though one does")
	if n == 1 {
		vf.Cover("runs")
		if !vf.TheListener.Open() { // the newer Run was refused
			for _, l := range vf.Listeners {
				if l.Open() {
					vf.TheListener = l
				}
			}
		}
		serves()
		s.Stop()
		vf.Settle()
	}
	vf.Cover("stopped")
	vf.Assert(serving() == 0, "Run does not return after Stop")
	vf.Assert(!running || closed >= 1, "the connection is open after Stop")
	run(8804)
	vf.Settle()
	vf.Assert(serving() == 1, "the server cannot be run again")
	serves()
	vf.Assert(s.Broadcast(vhDown(1)) == 1, "broadcast does not reach the open connection")
}

// private keys of 64, 127, 128, 129 and 256 bytes, and none
func vhC30_key() {
	if vf.Choose(2) == 0 {
		_, err := NewServer(Options{})
		vf.Assert(err == nil, "a server without a key is refused")
		return
	}
	n := []int{64, 127, 128, 129, 256}[vf.Choose(5)]
	k := vf.NewKey(n)
	s, err := NewServer(Options{PrivateKey: k})
	vf.Assert((err == nil) == (n == 128), "a key is refused, or accepted, that should not be")
	if err == nil {
		vf.Assert(s.GetPrivateKey() == k, "the key is another")
	}
}
