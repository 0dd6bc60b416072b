package go808

import (
	"gitee.com/coco/go808/protocol"
	vf "gitee.com/coco/go808/zzvf"
)

// vhServe starts a server on the fake listener
func vhServe(o Options) *Server {
	vf.Sched(0, false)
	s, err := NewServer(o)
	vf.Assert(err == nil, "NewServer fails")
	vf.Go(func() { s.Run("tcp", 8808) })
	vf.Settle()
	vf.Assert(vf.TheListener != nil, "the server does not listen")
	return s
}

// vhConnect opens a connection and gives its session
func vhConnect(s *Server, c *vf.Conn) *Session {
	before := map[uint64]bool{}
	for id := uint64(0); id < 16; id++ {
		if _, ok := s.GetSession(id); ok {
			before[id] = true
		}
	}
	vf.TheListener.Dial(c)
	vf.Settle()
	for id := uint64(0); id < 16; id++ {
		if x, ok := s.GetSession(id); ok && !before[id] {
			return x
		}
	}
	vf.Fail("an open connection has no session")
	return nil
}

// vhWritten takes apart what was written on a connection, one frame per write
func vhWritten(c *vf.Conn) []vhMsg {
	var out []vhMsg
	for _, b := range c.Out {
		m, ok := vhParseFrame(b)
		vf.Assert(ok, "something other than a complete frame is written")
		out = append(out, m)
	}
	return out
}

func vhDown(tag byte) protocol.Entity {
	return &protocol.T808_0x8900{Type: 1, Data: []byte{tag}}
}

func vhDelays(quick, thorough int) int {
	if vf.Thorough() {
		return thorough
	}
	return quick
}

// 600 messages sent one after the other
//
//vf:steps 200000000
func vhC18_sequence() {
	s := vhServe(Options{})
	c := &vf.Conn{}
	session := vhConnect(s, c)
	want := uint16(1)
	for i := 0; i < 600; i++ {
		n, err := session.Send(vhDown(byte(i)))
		vf.Assert(err == nil, "sending fails")
		vf.Assert(n == want, "serial number is not one more than the previous (1 after 255)")
		vf.Settle()
		vf.Assert(len(c.Out) == i+1, "message not written")
		m, ok := vhParseFrame(c.Out[i])
		vf.Assert(ok, "malformed frame")
		vf.Assert(m.serial == want, "the message carries another serial number than the caller is told")
		want++
		if want == 256 {
			want = 1
		}
	}
}

// 2 goroutines sending 2 messages each, concurrently (thorough: 3 goroutines
// and 3 delays); all schedules with at most 2 delays between the statements of
// the root package
//
//vf:covers done
func vhC18_concurrent() { vhConcurrentSends(0, vhDelays(2, 3), 2) }

// the same around the wrap: 2 goroutines sending 1 message each when 254 or 255
// (thorough: 253-255) messages have been sent before
//
//vf:covers done
func vhC18_wrap() {
	if vf.Thorough() {
		vhConcurrentSends(253+vf.Choose(3), 2, 1)
	} else {
		vhConcurrentSends(254+vf.Choose(2), 2, 1)
	}
}

func vhConcurrentSends(before, workers, each int) {
	s := vhServe(Options{})
	c := &vf.Conn{}
	session := vhConnect(s, c)
	for i := 0; i < before; i++ {
		session.Send(vhDown(0))
		vf.Settle()
	}
	c.Out = nil
	told := make([]uint16, each*workers)
	failed := false
	left := workers
	vf.SetDelays(vhDelays(2, 3))
	vf.SetFine(true)
	for w := 0; w < workers; w++ {
		w := w
		vf.Go(func() {
			for k := 0; k < each; k++ {
				n, err := session.Send(vhDown(byte(each*w + k)))
				if err != nil {
					failed = true
				}
				told[each*w+k] = n
			}
			left--
		})
	}
	vf.WaitUntil(func() bool { return left == 0 })
	vf.SetFine(false)
	vf.SetDelays(0)
	vf.Settle()
	vf.Assert(!failed, "sending fails")
	vf.Assert(len(c.Out) == each*workers, "a message is missing or written twice")
	seen := map[uint16]bool{}
	for _, m := range vhWritten(c) {
		vf.Assert(len(m.body) == 2, "body differs")
		vf.Assert(m.serial == told[m.body[1]], "the message carries another serial number than its caller is told")
		vf.Assert(!seen[m.serial], "two messages carry the same serial number")
		seen[m.serial] = true
	}
	for i := 0; i < each*workers; i++ {
		n := (before+i)%255 + 1
		vf.Assert(seen[uint16(n)], "serial numbers are not consecutive")
	}
	vf.Cover("done")
}

var vhLocBytes = []byte{0, 0, 0, 0, 0, 0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 0, 1, 0, 2, 0, 3, 0x20, 1, 2, 3, 4, 5}

// vhAnswer: the body of an answer of the given kind to serial number n
func vhAnswer(kind int, n uint16, tag byte) (uint16, []byte) {
	b := []byte{byte(n >> 8), byte(n)}
	switch kind {
	case 0:
		return 0x0001, append(b, 0x81, 3, tag)
	case 1:
		return 0x0104, append(b, 1, 0, 0, 0, 1, 4, 0, 0, 0, tag)
	case 2:
		return 0x0201, append(append(b, tag), vhLocBytes[1:]...)
	case 3:
		return 0x0302, append(b, tag)
	case 4:
		return 0x0500, append(append(b, tag), vhLocBytes[1:]...)
	case 5:
		return 0x0700, append(b, tag, 1, 2)
	case 6:
		return 0x0802, append(append(append(b, 0, 1, 0, 0, 0, tag), 0, 1, 2), vhLocBytes...)
	}
	return 0x0805, append(b, 0, 0, 1, 0, 0, 0, tag)
}

func vhAnswerSerial(e protocol.Entity) uint16 {
	switch x := e.(type) {
	case *protocol.T808_0x0001:
		return x.ReplyMsgSerialNo
	case *protocol.T808_0x0104:
		return x.ReplyMsgSerialNo
	case *protocol.T808_0x0201:
		return x.ReplyMsgSerialNo
	case *protocol.T808_0x0302:
		return x.ReplyMsgSerialNo
	case *protocol.T808_0x0500:
		return x.ReplyMsgSerialNo
	case *protocol.T808_0x0700:
		return x.ReplyMsgSerialNo
	case *protocol.T808_0x0802:
		return x.ReplyMsgSerialNo
	case *protocol.T808_0x0805:
		return x.ReplyMsgSerialNo
	}
	vf.Fail("a callback gets something that is no answer")
	return 0
}

var vhRequests = []protocol.Entity{
	&protocol.T808_0x8104{}, &protocol.T808_0x8201{}, &protocol.T808_0x8107{}, &protocol.T808_0x8803{},
}

// 3 requests (thorough: 4), any of which may be of the same type, followed by 2
// answers of any of the 8 kinds with serial numbers whose two bytes are
// arbitrary up to 0x1f; then the answers to all requests
//
//vf:covers hit,miss,replaced
func vhC19_match() {
	s := vhServe(Options{})
	c := &vf.Conn{}
	session := vhConnect(s, c)
	n := vhDelays(3, 4)
	pending := make([]bool, n)
	kinds := make([]int, n)
	calls := make([]int, n)
	total := 0
	var last *protocol.Message
	for i := 0; i < n; i++ {
		i := i
		kinds[i] = vf.Choose(i + 1)
		for j := 0; j < i; j++ {
			if kinds[j] == kinds[i] && pending[j] {
				vf.Cover("replaced")
				pending[j] = false
			}
		}
		no, err := session.Request(vhRequests[kinds[i]], func(m *protocol.Message) {
			calls[i]++
			total++
			last = m
		})
		vf.Assert(err == nil, "request fails")
		vf.Assert(no == uint16(i+1), "wrong serial number")
		pending[i] = true
		vf.Settle()
	}
	vf.Assert(len(c.Out) == n, "requests not sent")
	seq := uint16(0)
	answer := func(kind int, no uint16) {
		id, body := vhAnswer(kind, no, 5)
		seq++
		was, wasTotal := append([]int{}, calls...), total
		c.In = append(c.In, vhMsg{id: id, icc: 13800000001, serial: seq, body: body}.frame())
		vf.Settle()
		hit := false
		for i := 0; i < n; i++ {
			if pending[i] && no == uint16(i+1) {
				hit = true
				pending[i] = false
				vf.Assert(calls[i] == was[i]+1, "the answer does not reach the callback of its request")
				vf.Assert(uint16(last.Header.MsgID) == id, "the callback gets another message")
				vf.Assert(vhAnswerSerial(last.Body) == no, "the callback gets another answer")
			}
		}
		if hit {
			vf.Cover("hit")
			vf.Assert(total == wasTotal+1, "a callback of another request is called")
		} else {
			vf.Cover("miss")
			vf.Assert(total == wasTotal, "an answer to nothing pending calls a callback")
		}
	}
	first := vf.Choose(8)
	for k := 0; k < 2; k++ {
		no := uint16(vf.Range(0, 0x1f))<<8 | uint16(vf.Range(0, 0x1f))
		kind := first
		if k == 1 && first < 2 {
			kind = vf.Choose(8)
		}
		answer(kind, no)
	}
	for i := 0; i < n; i++ {
		answer(i%8, uint16(i+1))
	}
	for i := 0; i < n; i++ {
		vf.Assert(!pending[i], "harness")
		vf.Assert(calls[i] <= 1, "a callback is called twice")
	}
}

// two requests pending, one answered by any kind of answer with one arbitrary
// byte of content (of a general reply: the result; two more: the id of the
// message answered), for several answers
func vhC19_content() {
	s := vhServe(Options{})
	c := &vf.Conn{}
	session := vhConnect(s, c)
	calls := []int{0, 0}
	for i := range calls {
		i := i
		session.Request(vhRequests[i], func(m *protocol.Message) { calls[i]++ })
	}
	vf.Settle()
	kind := vf.Choose(9)
	tag := vhNoEsc()
	which := vf.Choose(2)
	icc, no, _ := vhNumbering()
	id, body := uint16(1), []byte{0, byte(which + 1), vhNoEsc(), vhNoEsc(), tag}
	if kind < 8 {
		id, body = vhAnswer(kind, uint16(which+1), tag)
	}
	c.In = append(c.In, vhMsg{id: id, icc: icc, serial: no, body: body}.frame())
	vf.Settle()
	vf.Assert(calls[which] == 1, "the answer does not reach the callback of its request")
	vf.Assert(calls[1-which] == 0, "a callback of another request is called")
}

// every kind of answer, arriving as soon as the request is written, to requests
// from 1 and 2 goroutines; all schedules with at most 2 (thorough: 3) delays
func vhC19_immediate() {
	s := vhServe(Options{})
	c := &vf.Conn{}
	session := vhConnect(s, c)
	workers := 1 + vf.Choose(2)
	kind := 0
	if workers == 1 {
		kind = vf.Choose(8)
	}
	seq := uint16(0)
	c.OnWrite = func(b []byte) (int, error) {
		m, ok := vhParseFrame(b)
		vf.Assert(ok, "malformed frame")
		id, body := vhAnswer(kind, m.serial, 1)
		seq++
		c.In = append(c.In, vhMsg{id: id, icc: 13800000001, serial: seq, body: body}.frame())
		return len(b), nil
	}
	calls := make([]int, workers)
	got := make([]uint16, workers)
	told := make([]uint16, workers)
	left := workers
	vf.SetDelays(vhDelays(2, 3))
	vf.SetFine(true)
	for w := 0; w < workers; w++ {
		w := w
		vf.Go(func() {
			no, err := session.Request(vhRequests[w], func(m *protocol.Message) {
				calls[w]++
				got[w] = vhAnswerSerial(m.Body)
			})
			vf.Assert(err == nil, "request fails")
			told[w] = no
			left--
		})
	}
	vf.WaitUntil(func() bool { return left == 0 })
	vf.SetFine(false)
	vf.SetDelays(0)
	vf.Settle()
	for w := 0; w < workers; w++ {
		vf.Assert(calls[w] > 0, "an answer arriving right after the request is lost")
		vf.Assert(calls[w] == 1, "a callback is called more than once")
		vf.Assert(got[w] == told[w], "a callback gets the answer to another request")
	}
}

// requests made inside callbacks, callbacks that panic, requests without a
// callback and requests on a closed session
//
//vf:covers nested,panic,nil,closed
func vhC19_callbacks() {
	s := vhServe(Options{})
	c := &vf.Conn{}
	session := vhConnect(s, c)
	answer := func(no uint16) {
		_, body := vhAnswer(0, no, 0)
		c.In = append(c.In, vhMsg{id: 1, icc: 1, serial: no, body: body}.frame())
		vf.Settle()
	}
	inner, outer := 0, 0
	switch vf.Choose(4) {
	case 0:
		vf.Cover("nested")
		same := vf.Choose(2)
		session.Request(vhRequests[0], func(*protocol.Message) {
			outer++
			session.Request(vhRequests[same], func(*protocol.Message) { inner++ })
		})
		answer(1)
		vf.Assert(outer == 1 && inner == 0, "callback not called once")
		answer(1)
		vf.Assert(outer == 1 && inner == 0, "a repeated answer calls a callback")
		answer(2)
		vf.Assert(outer == 1 && inner == 1, "the callback of a request made in a callback is not called")
	case 1:
		vf.Cover("panic")
		session.Request(vhRequests[0], func(*protocol.Message) {
			outer++
			panic("callback")
		})
		session.Request(vhRequests[1], func(*protocol.Message) { inner++ })
		answer(1)
		answer(1)
		vf.Assert(outer == 1, "callback not called once")
		answer(2)
		vf.Assert(inner == 1, "a panicking callback stops the session")
	case 2:
		vf.Cover("nil")
		session.Request(vhRequests[0], nil)
		session.Request(vhRequests[1], func(*protocol.Message) { inner++ })
		answer(1)
		vf.Assert(inner == 0, "an answer reaches another request")
		answer(2)
		vf.Assert(inner == 1, "callback not called once")
	case 3:
		vf.Cover("closed")
		session.Request(vhRequests[1], func(*protocol.Message) { inner++ })
		vf.Settle()
		session.Close()
		vf.Settle()
		_, err := session.Request(vhRequests[0], func(*protocol.Message) { outer++ })
		vf.Assert(err != nil, "a request on a closed session is accepted")
		vf.Settle()
		vf.Assert(outer == 0 && inner == 0, "a callback is called without an answer")
	}
}

// messages sent before and after 2 received messages whose terminal numbers
// end in two arbitrary digits (0 included), by Send, Reply and Request, outside
// and inside a handler; the
// kinds of messages received: heartbeat, pass-through, one of unknown type
//
//vf:covers unsupported
func vhC20_address() {
	s := vhServe(Options{})
	c := &vf.Conn{}
	session := vhConnect(s, c)
	icc := uint64(0)
	check := func(id uint16) vhMsg {
		vf.Settle()
		vf.Assert(len(c.Out) == 1, "not written once")
		m := vhWritten(c)[0]
		c.Out = nil
		vf.Assert(m.icc == icc, "not addressed to the terminal number last received")
		vf.Assert(m.id == id, "message id is not that of the body")
		vf.Assert(m.flags == 0, "message sent with flags")
		return m
	}
	inside := vf.Choose(2) == 1
	if inside {
		// the application answers from a handler, and keeps data of its own
		session.UserData = []interface{}{uint64(77), "78"}[vf.Choose(2)]
		s.AddHandler(0x0002, func(x *Session, m *protocol.Message) { x.Reply(m, 1) })
	}
	session.Send(&protocol.T808_0x8104{})
	check(0x8104)
	for k := 0; k < 2; k++ {
		hi, lo := vf.Range(0, 9), vf.Range(0, 9)
		base := uint64(0)
		if vf.Choose(2) == 1 {
			base = 13800000000
		}
		n := base + uint64(hi*10+lo)
		icc = uint64(vf.IteInt(n != 0, int(n), int(icc)))
		no := uint16(0x0123 + k)
		in := vhMsg{icc: n, serial: no}
		switch vf.Choose(3) {
		case 0:
			in.id = 0x0002
		case 1:
			in.id, in.body = 0x0900, []byte{1, 2}
		case 2:
			in.id = 0x0f0f
		}
		c.In = append(c.In, in.frame())
		vf.Settle()
		if in.id == 0x0f0f {
			vf.Cover("unsupported")
			m := check(0x8001)
			vf.Assert(len(m.body) == 5, "malformed general reply")
			vf.Assert(vf.EqBytes(m.body, []byte{byte(no >> 8), byte(no), 0x0f, 0x0f, 3}), "reply does not echo what it answers")
		}
		if in.id == 0x0002 && inside {
			m := check(0x8001)
			vf.Assert(vf.EqBytes(m.body, []byte{byte(no >> 8), byte(no), 0, 2, 1}), "reply does not echo what it answers")
		}
		vf.Assert(len(c.Out) == 0, "unexpected message")
		how := 0
		if k == 1 {
			how = vf.Choose(3)
		}
		switch how {
		case 0:
			session.Send(&protocol.T808_0x8201{})
			check(0x8201)
		case 1:
			session.Request(&protocol.T808_0x8107{}, func(*protocol.Message) {})
			check(0x8107)
		case 2:
			s.Broadcast(vhDown(9))
			check(0x8900)
		}
	}
}

// general replies to messages with any serial number and id, with any result
func vhC20_reply() {
	s := vhServe(Options{})
	c := &vf.Conn{}
	session := vhConnect(s, c)
	m := protocol.Message{Header: protocol.Header{MsgID: protocol.MsgID(vf.U16()), MsgSerialNo: vf.U16(), IccID: 77}}
	if vf.Choose(2) == 1 {
		m.Header.Packet = &protocol.Packet{Sum: 3, Seq: 2}
		m.Header.Property = 0x2400
	}
	r := vf.Byte()
	no, err := session.Reply(&m, protocol.Result(r))
	vf.Assert(err == nil, "reply fails")
	vf.Assert(no == 1, "wrong serial number")
	vf.Settle()
	vf.Assert(len(c.Out) == 1, "not written once")
	w := vhWritten(c)[0]
	vf.Assert(w.id == 0x8001 && w.icc == 0 && w.flags == 0 && w.serial == 1, "header of the reply is wrong")
	x := m.Header
	vf.Assert(len(w.body) == 5, "malformed general reply")
	vf.Assert(vf.EqBytes(w.body, []byte{byte(x.MsgSerialNo >> 8), byte(x.MsgSerialNo), byte(x.MsgID >> 8), byte(x.MsgID), r}), "reply does not echo what it answers")
}

// vhNumbering: a terminal number and a way to number messages
func vhNumbering() (icc uint64, first, step uint16) {
	switch vf.Choose(4) {
	case 0:
		return 13800000001, 7, 7
	case 1:
		return 0, 1, 1
	case 2:
		return 1, 5, 0
	}
	return 999999999999, 65535, 1
}

// 3 (thorough: 4) messages of 5 kinds (with handler, with panicking handler,
// without handler, unknown type, answer) in one or several reads: every one is
// dispatched once, in order, to its own handler
//
//vf:covers all
func vhC21_dispatch() {
	s := vhServe(Options{})
	type rec struct {
		h  uint16
		id uint16
		no uint16
		d  byte
	}
	var got []rec
	var who *Session
	add := func(id uint16, bad bool) {
		s.AddHandler(protocol.MsgID(id), func(x *Session, m *protocol.Message) {
			vf.Assert(x == who, "handler called with another session")
			r := rec{h: id, id: uint16(m.Header.MsgID), no: m.Header.MsgSerialNo}
			if b, ok := m.Body.(*protocol.T808_0x0900); ok && len(b.Data) > 0 {
				r.d = b.Data[0]
			}
			got = append(got, r)
			if bad {
				panic("handler")
			}
		})
	}
	s.AddHandler(0x0900, func(*Session, *protocol.Message) { vf.Fail("a handler that was replaced is called") })
	add(0x0900, false)
	s.AddHandler(0x0900, nil)
	add(0x0002, true)
	add(0x0001, false)
	add(0x0f0f, false)
	s.AddHandler(0x0303, nil)
	c := &vf.Conn{}
	who = vhConnect(s, c)
	answers := 0
	no, err := who.Request(vhDown(1), func(*protocol.Message) {
		answers++
		panic("callback")
	})
	vf.Settle()
	vf.Assert(err == nil && no == 1, "request fails")
	c.Out = nil
	answered := 0
	n := vhDelays(3, 4)
	icc, no0, step := vhNumbering()
	var want []rec
	var data [][]byte
	replies := 0
	for i := 0; i < n; i++ {
		m := vhMsg{icc: icc, serial: no0 + step*uint16(i)}
		switch vf.Choose(5) {
		case 0:
			b := vhNoEsc()
			m.id, m.body = 0x0900, []byte{1, b}
			want = append(want, rec{0x0900, 0x0900, m.serial, b})
		case 1:
			m.id = 0x0002
			want = append(want, rec{0x0002, 0x0002, m.serial, 0})
		case 2:
			m.id, m.body = 0x0303, []byte{1, 1}
		case 3:
			m.id, m.body = 0x0f0f, []byte{1}
			replies++
		case 4:
			m.id, m.body = vhAnswer(0, uint16(i), 0)
			if i == 1 {
				answered++
			}
			want = append(want, rec{0x0001, 0x0001, m.serial, 0})
		}
		data = append(data, m.frame())
	}
	switch vf.Choose(3) {
	case 0:
		var one []byte
		for _, d := range data {
			one = append(one, d...)
		}
		c.In = [][]byte{one}
	case 1:
		c.In = data
	case 2:
		for _, d := range data {
			c.In = append(c.In, d)
			vf.Settle()
		}
	}
	vf.Settle()
	vf.Assert(!c.Closed, "connection closed")
	vf.Assert(answers == answered, "the callback of a request is not called once for its answer")
	vf.Assert(len(got) == len(want), "a message is not dispatched, or dispatched more than once")
	for i := range want {
		vf.Assert(got[i].h == want[i].h, "message dispatched to the handler of another type, or out of order")
		vf.Assert(vf.And(got[i].id == want[i].id, got[i].no == want[i].no, got[i].d == want[i].d), "handler gets another message")
	}
	out := vhWritten(c)
	vf.Assert(len(out) == replies, "not one reply per message of unknown type")
	for _, m := range out {
		vf.Assert(m.id == 0x8001 && len(m.body) == 5, "not a general reply")
		vf.Assert(m.body[4] == 3, "not the result 'unsupported'")
	}
	vf.Cover("all")
}

// 3 messages with the same or different handlers, one of which is registered
// only after the first message, arriving in one read or several, in schedules
// with at most 2 (thorough: 3) delays: handlers that give way to other
// goroutines are not overtaken by later messages
func vhC21_order() {
	s := vhServe(Options{})
	var got []uint16
	handle := func(x *Session, m *protocol.Message) {
		vf.SchedPoint()
		got = append(got, m.Header.MsgSerialNo)
		vf.SchedPoint()
	}
	s.AddHandler(0x0002, handle)
	c := &vf.Conn{}
	vhConnect(s, c)
	other := uint16(2)
	if vf.Choose(2) == 1 {
		other = 0x0003
	}
	vf.SetDelays(vhDelays(2, 3))
	c.In = append(c.In, vhMsg{id: 2, icc: 1, serial: 1}.frame())
	if vf.Choose(2) == 1 {
		vf.WaitUntil(func() bool { return len(got) == 1 })
		s.AddHandler(0x0003, handle)
	} else {
		s.AddHandler(0x0003, handle)
	}
	two := append(append([]byte{}, vhMsg{id: other, icc: 1, serial: 2}.frame()...), vhMsg{id: 2, icc: 1, serial: 3}.frame()...)
	c.In = append(c.In, two)
	vf.WaitUntil(func() bool { return len(got) >= 3 })
	vf.SetDelays(0)
	vf.Settle()
	vf.Assert(len(got) == 3, "a message is not dispatched exactly once")
	vf.Assert(got[0] == 1 && got[1] == 2 && got[2] == 3, "messages dispatched out of order")
}

// two connections sending 1 (thorough: 2) messages each at the same time: all
// are dispatched, each with its own session; schedules with at most 2 delays
func vhC21_sessions() {
	s := vhServe(Options{})
	counts := map[uint64][]uint16{}
	bad := false
	var a, b *Session
	s.AddHandler(0x0002, func(x *Session, m *protocol.Message) {
		want := a
		if m.Header.IccID == 2 {
			want = b
		}
		if x != want {
			bad = true
		}
		counts[m.Header.IccID] = append(counts[m.Header.IccID], m.Header.MsgSerialNo)
	})
	ca, cb := &vf.Conn{}, &vf.Conn{}
	a, b = vhConnect(s, ca), vhConnect(s, cb)
	vf.Assert(a != b && a.ID() != b.ID(), "two connections share a session")
	vf.SetDelays(vhDelays(2, 2))
	vf.SetFine(true)
	n := vhDelays(1, 2)
	for k := 1; k <= n; k++ {
		ca.In = append(ca.In, vhMsg{id: 2, icc: 1, serial: uint16(k)}.frame())
		cb.In = append(cb.In, vhMsg{id: 2, icc: 2, serial: uint16(k)}.frame())
	}
	vf.WaitUntil(func() bool { return len(counts[1])+len(counts[2]) >= 2*n })
	vf.SetFine(false)
	vf.SetDelays(0)
	vf.Settle()
	vf.Assert(!bad, "handler called with another session")
	for icc := uint64(1); icc <= 2; icc++ {
		vf.Assert(len(counts[icc]) == n, "a message is not dispatched exactly once")
		for k, no := range counts[icc] {
			vf.Assert(no == uint16(k+1), "messages dispatched out of order")
		}
	}
}

// vhAsk is a request of any type
type vhAsk protocol.MsgID

func (e *vhAsk) MsgID() protocol.MsgID      { return protocol.MsgID(*e) }
func (e *vhAsk) Encode() ([]byte, error)    { return nil, nil }
func (e *vhAsk) Decode([]byte) (int, error) { return 0, nil }

// 40 requests of different types pending at once, answered in several orders
// (or any one and then another of them answered first): every answer reaches its own callback
func vhC19_many() {
	s := vhServe(Options{})
	c := &vf.Conn{}
	session := vhConnect(s, c)
	reqs := []protocol.Entity{
		&protocol.T808_0x8104{}, &protocol.T808_0x8201{}, &protocol.T808_0x8107{}, &protocol.T808_0x8803{},
		&protocol.T808_0x8500{}, &protocol.T808_0x8400{}, &protocol.T808_0x8300{}, &protocol.T808_0x8801{},
		&protocol.T808_0x8804{}, &protocol.T808_0x8805{}, &protocol.T808_0x8105{}, &protocol.T808_0x8900{},
	}
	for len(reqs) < 40 {
		id := vhAsk(0x8f00 + len(reqs))
		reqs = append(reqs, &id)
	}
	n := len(reqs)
	calls := make([]int, n)
	for i := range reqs {
		i := i
		no, err := session.Request(reqs[i], func(m *protocol.Message) {
			vf.Assert(m.Body.(*protocol.T808_0x0001).ReplyMsgSerialNo == uint16(i+1), "the callback gets another answer")
			calls[i]++
		})
		vf.Assert(err == nil && no == uint16(i+1), "request fails")
		vf.Settle()
	}
	vf.Assert(len(c.Out) == n, "requests not sent")
	done := make([]bool, n)
	answer := func(k int) {
		id, body := vhAnswer(0, uint16(k+1), 0)
		c.In = append(c.In, vhMsg{id: id, icc: 13800000001, serial: 9, body: body}.frame())
		vf.Settle()
		done[k] = true
		for i := range calls {
			vf.Assert(calls[i] == 1 || !done[i], "the answer does not reach the callback of its request once")
			vf.Assert(calls[i] == 0 || done[i], "a callback of another request is called")
		}
	}
	first := vf.Choose(n)
	answer(first)
	answer([]int{0, first, (first + 1) % n, n - 1, (first + 7) % n}[vf.Choose(5)])
	step := []int{1, 3, 11, 39}[vf.Choose(4)]
	for k := 0; k < n; k++ {
		answer(k * step % n)
	}
}

// 3 connections of different terminals (numbers ending in an arbitrary digit):
// what is sent on each, and a broadcast, carries its own terminal number and
// its own serial numbers
func vhC20_sessions() {
	s := vhServe(Options{})
	var cs []*vf.Conn
	var xs []*Session
	var icc []uint64
	for i := 0; i < 3; i++ {
		c := &vf.Conn{}
		cs, xs = append(cs, c), append(xs, vhConnect(s, c))
		icc = append(icc, 0)
	}
	first := vf.Choose(3)
	for k := 0; k < 3; k++ {
		i := (first + k) % 3
		icc[i] = uint64(13800000000 + 10*i + vf.Range(0, 9))
		cs[i].In = append(cs[i].In, vhMsg{id: 2, icc: icc[i], serial: 1}.frame())
		vf.Settle()
	}
	xs[first].Send(vhDown(1))
	s.Broadcast(vhDown(2))
	vf.Settle()
	for i, c := range cs {
		out := vhWritten(c)
		n := 1
		if i == first {
			n = 2
		}
		vf.Assert(len(out) == n, "not written once")
		for k, m := range out {
			vf.Assert(m.icc == icc[i], "not addressed to the terminal of the connection")
			vf.Assert(m.serial == uint16(k+1), "serial numbers of a session are not its own")
			vf.Assert(m.id == 0x8900 && m.flags == 0, "wrong header")
		}
	}
}

// 40 messages of 6 types in one stream, cut into pieces of 1 to 1000 bytes: all
// are dispatched once, in order, to their own handlers
func vhC21_many() {
	s := vhServe(Options{})
	var got []uint16
	ids := []uint16{0x0002, 0x0900, 0x0003, 0x0301, 0x0302, 0x0700}
	bodies := [][]byte{nil, {1, 2}, nil, {3}, {0, 0, 1}, {0, 0, 1, 2}}
	for _, id := range ids {
		id := id
		s.AddHandler(protocol.MsgID(id), func(_ *Session, m *protocol.Message) {
			vf.Assert(uint16(m.Header.MsgID) == id, "message dispatched to the handler of another type")
			vf.Assert(m.Body != nil && uint16(m.Body.MsgID()) == id, "message dispatched without its body")
			got = append(got, m.Header.MsgSerialNo)
		})
	}
	c := &vf.Conn{}
	vhConnect(s, c)
	step := []int{1, 5}[vf.Choose(2)]
	var stream []byte
	n := 40
	for i := 0; i < n; i++ {
		k := i * step % len(ids)
		stream = append(stream, vhMsg{id: ids[k], icc: 13800000001, serial: uint16(i), body: bodies[k]}.frame()...)
	}
	size := []int{1, 7, 64, 127, 128, 129, 256, 1000}[vf.Choose(8)]
	for len(stream) > 0 {
		if size > len(stream) {
			size = len(stream)
		}
		c.In = append(c.In, stream[:size])
		stream = stream[size:]
	}
	vf.Settle()
	vf.Assert(len(got) == n, "a message is not dispatched exactly once")
	for i, no := range got {
		vf.Assert(no == uint16(i), "messages dispatched out of order")
	}
	vf.Assert(!c.Closed && len(c.Out) == 0, "connection closed, or something sent")
}

// two requests pending, 252-255 other messages (requests without a callback or
// plain messages), then a request of either type or a third whose serial number
// is new or that of one of the two, which it then replaces; all answered, any of
// them first, by answers of several kinds
//
//vf:covers same number,same type,new
func vhC19_reused() {
	s := vhServe(Options{})
	c := &vf.Conn{}
	session := vhConnect(s, c)
	reqs := []protocol.Entity{&protocol.T808_0x8104{}, &protocol.T808_0x8201{}, &protocol.T808_0x8803{}}
	var calls [3]int
	var no [3]uint16
	ask := func(i int, e protocol.Entity) {
		n, err := session.Request(e, func(*protocol.Message) { calls[i]++ })
		vf.Assert(err == nil, "request fails")
		no[i] = n
		vf.Settle()
	}
	ask(0, reqs[0])
	ask(1, reqs[1])
	n := 252 + vf.Choose(4)
	plain := n == 253
	for k := 0; k < n; k++ {
		if plain {
			session.Send(vhDown(0))
		} else {
			session.Request(reqs[2], nil)
		}
		vf.Settle()
	}
	t := vf.Choose(3)
	ask(2, reqs[t])
	gone := [3]bool{}
	vf.Cover("new")
	for i := 0; i < 2; i++ {
		if i == t {
			gone[i] = true
			vf.Cover("same type")
		}
		if no[i] == no[2] {
			gone[i] = true
			vf.Cover("same number")
		}
	}
	want := [3]int{}
	first := vf.Choose(3)
	for k := 0; k < 3; k++ {
		i := (first + k) % 3
		kind := []int{0, 1, 7}[vf.Choose(3)]
		if k > 0 {
			kind = k
		}
		id, body := vhAnswer(kind, no[i], 0)
		c.In = append(c.In, vhMsg{id: id, icc: 13800000001, serial: 9, body: body}.frame())
		vf.Settle()
		for j := range want {
			if !gone[j] && no[j] == no[i] {
				want[j] = 1
			}
			vf.Assert(calls[j] <= want[j], "a callback is called by an answer that is not its own, or again")
			vf.Assert(calls[j] >= want[j], "the answer does not reach the callback of its request")
		}
	}
}

// a handler, the handler of a merged upload or the callback of a request that
// registers a handler for another message or anew for its own, looks itself up
// and broadcasts, makes a request, sets keys, closes its connection, stops the
// server or waits until a message (upload) of another connection has been
// handled: nothing hangs, and later messages are served
//
//vf:covers close,stop,wait,ask,new,own
func vhC21_reentrant() {
	s := vhServe(Options{AutoMergePacket: true})
	a, b := &vf.Conn{}, &vf.Conn{}
	x, y := vhConnect(s, a), vhConnect(s, b)
	place, op := vf.Choose(3), vf.Choose(8)
	key := vf.NewKey(128)
	var log []string
	other, asked := false, 0
	act := func() {
		log = append(log, "act")
		switch op {
		case 0:
			x.GetServer().AddHandler(0x0003, func(z *Session, _ *protocol.Message) {
				vf.Assert(z == x, "handler called with another session")
				log = append(log, "new")
			})
			vf.Cover("new")
		case 1:
			s.AddHandler(0x0002, func(z *Session, _ *protocol.Message) {
				if z == y {
					other = true
				} else {
					log = append(log, "own")
				}
			})
			vf.Cover("own")
		case 2:
			z, ok := s.GetSession(x.ID())
			vf.Assert(ok && z == x, "the session is not found in its handler")
			vf.Assert(s.Broadcast(vhDown(1)) == 2, "broadcast in a handler does not reach all connections")
		case 3:
			no, err := x.Request(&protocol.T808_0x8104{}, func(*protocol.Message) { asked++ })
			vf.Assert(err == nil, "request fails")
			id, body := vhAnswer(1, no, 0)
			a.In = append(a.In, vhMsg{id: id, icc: 13800000001, serial: 9, body: body}.frame())
			vf.Cover("ask")
		case 4:
			x.SetPublicKey(&key.PublicKey)
			vf.Assert(x.GetPublicKey() == &key.PublicKey && y.GetPublicKey() == nil, "the key set is not that of the session")
			_, err := x.Send(vhDown(1))
			vf.Assert(err == nil, "sending fails")
		case 5:
			x.Close()
			vf.Cover("close")
		case 6:
			s.Stop()
			vf.Cover("stop")
		case 7:
			vf.WaitUntil(func() bool { return other })
			vf.Cover("wait")
		}
		log = append(log, "acted")
	}
	upload := func(icc uint64) []byte {
		return vhMsg{id: 0x0801, flags: 0x2000, icc: icc, serial: 1, sum: 1, seq: 1, body: vhMedia(42, []byte{1})}.frame()
	}
	s.AddHandler(0x0002, func(z *Session, m *protocol.Message) {
		if z == y {
			other = true
		} else if m.Header.MsgSerialNo == 1 {
			act()
		} else {
			log = append(log, "old")
		}
	})
	s.AddHandler(0x0801, func(z *Session, m *protocol.Message) {
		if z == y {
			other = true
		} else {
			act()
		}
	})
	switch place {
	case 0:
		a.In = append(a.In, vhMsg{id: 2, icc: 13800000001, serial: 1}.frame())
	case 1:
		a.In = append(a.In, upload(13800000001))
	case 2:
		no, err := x.Request(&protocol.T808_0x8201{}, func(*protocol.Message) { act() })
		vf.Assert(err == nil, "request fails")
		id, body := vhAnswer(2, no, 0)
		a.In = append(a.In, vhMsg{id: id, icc: 13800000001, serial: 1, body: body}.frame())
	}
	vf.Settle()
	n := 2
	if op == 7 {
		n = 1
	}
	vf.Assert(len(log) == n, "what is called in a handler or callback does not return")
	if place == 1 {
		b.In = append(b.In, upload(13800000002))
	} else {
		b.In = append(b.In, vhMsg{id: 2, icc: 13800000002, serial: 1}.frame())
	}
	vf.Settle()
	vf.Assert(other == (op != 6), "a connection is not served though the server runs, or is though it was stopped")
	vf.Assert(len(log) == 2, "what is called in a handler or callback does not return")
	vf.Assert(a.Closed == (op == 5 || op == 6) && b.Closed == (op == 6), "a connection is open or closed that should not be")
	vf.Assert(asked == vf.IteInt(op == 3, 1, 0), "an answer to a request made in a handler does not reach its callback")
	for _, id := range []uint16{2, 3} {
		log = nil
		a.In = append(a.In, vhMsg{id: id, icc: 13800000001, serial: 2}.frame())
		vf.Settle()
		want := ""
		switch {
		case a.Closed:
		case id == 3 && op == 0:
			want = "new"
		case id == 2 && op == 1:
			want = "own"
		case id == 2:
			want = "old"
		}
		if want == "" {
			vf.Assert(len(log) == 0, "a handler is called without reason")
		} else {
			vf.Assert(len(log) == 1 && log[0] == want, "a later message does not reach its handler")
		}
	}
}
