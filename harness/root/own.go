package go808

import (
	"bytes"
	"io"
	"io/ioutil"

	"gitee.com/coco/go808/protocol"
	vf "gitee.com/coco/go808/zzvf"
)

// vhOwn is a message type of an application that can be split: a tag and data
type vhOwn struct {
	tag byte
	r   io.Reader
}

func (e *vhOwn) MsgID() protocol.MsgID { return 0x0f01 }
func (e *vhOwn) Encode() ([]byte, error) {
	if e.tag == 0xff {
		return nil, vf.ErrNet
	}
	return []byte{e.tag}, nil
}
func (e *vhOwn) Decode(b []byte) (int, error) {
	vf.Fail("a type that can be split is decoded whole")
	return 0, nil
}
func (e *vhOwn) DecodePacket(b []byte) error {
	if len(b) < 1 || b[0] == 0xff {
		return protocol.ErrInvalidBody
	}
	e.tag, e.r = b[0], bytes.NewReader(b[1:])
	return nil
}
func (e *vhOwn) GetTag() uint32        { return uint32(e.tag) }
func (e *vhOwn) GetReader() io.Reader  { return e.r }
func (e *vhOwn) SetReader(r io.Reader) { e.r = r }

// vhOwnWhole is one that cannot be split
type vhOwnWhole struct{ b []byte }

func (e *vhOwnWhole) MsgID() protocol.MsgID   { return 0xff02 }
func (e *vhOwnWhole) Encode() ([]byte, error) { return e.b, nil }
func (e *vhOwnWhole) Decode(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, protocol.ErrInvalidBody
	}
	e.b = append([]byte{}, b...)
	return len(b), nil
}

// a server, with and without merging, that is sent messages of two own types,
// refused by their type or not: each reaches its own handler, parts are merged
// and acknowledged, refused ones are answered 'unsupported'
//
//vf:covers merged,refused
func vhC32_server() {
	protocol.Register(0x0f01, func() protocol.Entity { return new(vhOwn) })
	protocol.Register(0xff02, func() protocol.Entity { return new(vhOwnWhole) })
	merge := vf.Choose(2) == 1
	s := vhServe(Options{AutoMergePacket: merge})
	var tags []byte
	var data [][]byte
	s.AddHandler(0x0f01, func(_ *Session, m *protocol.Message) {
		e, ok := m.Body.(*vhOwn)
		vf.Assert(ok, "a registered type is not used")
		d, err := ioutil.ReadAll(e.r)
		vf.Assert(err == nil, "the delivered data cannot be read")
		tags, data = append(tags, e.tag), append(data, d)
	})
	whole := 0
	s.AddHandler(0xff02, func(_ *Session, m *protocol.Message) {
		e, ok := m.Body.(*vhOwnWhole)
		vf.Assert(ok && len(e.b) == 1 && e.b[0] == 8, "own type decoded differently")
		whole++
	})
	c := &vf.Conn{}
	x := vhConnect(s, c)
	send := func(m vhMsg) []vhMsg {
		m.icc = 13800000001
		c.In = append(c.In, m.frame())
		vf.Settle()
		out := vhWritten(c)
		c.Out = nil
		return out
	}
	a, b := vhNoEsc(), vhNoEsc()
	switch vf.Choose(4) {
	case 0: // two parts
		one := vhMsg{id: 0x0f01, flags: 0x2000, serial: 1, sum: 2, seq: 1, body: []byte{5, a, a}}
		two := vhMsg{id: 0x0f01, flags: 0x2000, serial: 2, sum: 2, seq: 2, body: []byte{5, b, b}}
		if vf.Choose(2) == 1 {
			one, two = two, one
		}
		r1, r2 := send(one), send(two)
		if !merge {
			vf.Assert(len(r1) == 0 && len(r2) == 0, "an unexpected reply")
			vf.Assert(len(tags) == 2 && tags[0] == 5 && tags[1] == 5, "parts are not dispatched as they are")
			vf.Assert(vf.EqBytes(data[0], one.body[1:]) && vf.EqBytes(data[1], two.body[1:]), "payload differs")
			return
		}
		vf.Cover("merged")
		for i, r := range [][]vhMsg{r1, r2} {
			vf.Assert(len(r) == 1 && r[0].id == 0x8001, "a part is not acknowledged")
			vf.Assert(bytes.Equal(r[0].body, []byte{0, byte([]vhMsg{one, two}[i].serial), 0x0f, 1, 0}), "the acknowledgement does not echo the part")
		}
		vf.Assert(len(tags) == 1 && tags[0] == 5, "not delivered once after all parts have arrived")
		vf.Assert(len(data[0]) == 4, "delivered data is not that of all parts")
		vf.Assert(vf.EqBytes(data[0], []byte{a, a, b, b}), "delivered data differs")
	case 1: // not split
		vf.Assert(len(send(vhMsg{id: 0x0f01, serial: 3, body: []byte{6, a}})) == 0, "an unexpected reply")
		vf.Assert(len(tags) == 1 && tags[0] == 6 && len(data[0]) == 1 && data[0][0] == a, "own type decoded differently")
	case 2: // refused
		vf.Cover("refused")
		id, body := uint16(0x0f01), []byte{0xff, 1}
		if vf.Choose(2) == 1 {
			id, body = 0xff02, nil
		}
		m := vhMsg{id: id, serial: 4, body: body}
		if vf.Choose(2) == 1 {
			m.flags, m.sum, m.seq = 0x2000, 1, 1
		}
		r := send(m)
		vf.Assert(len(r) == 1 && r[0].id == 0x8001 && bytes.Equal(r[0].body, []byte{0, 4, byte(id >> 8), byte(id), 3}), "a refused body is not answered 'unsupported'")
		vf.Assert(len(tags) == 0 && whole == 0, "a refused body reaches a handler")
	case 3: // cannot be split, but is
		m := vhMsg{id: 0xff02, serial: 5, body: []byte{8}}
		if vf.Choose(2) == 1 {
			m.flags, m.sum, m.seq = 0x2000, 2, 1
		}
		vf.Assert(len(send(m)) == 0, "an unexpected reply")
		vf.Assert(whole == 1, "own type not dispatched once")
	}
	// the other way
	no, err := x.Send(&vhOwnWhole{[]byte{a}})
	vf.Assert(err == nil, "sending an own type fails")
	vf.Settle()
	out := vhWritten(c)
	vf.Assert(len(out) == 1 && out[0].id == 0xff02 && out[0].serial == no && out[0].icc == 13800000001, "own type not written once")
	vf.Assert(len(out[0].body) == 1 && out[0].body[0] == a, "own type encoded differently")
}

// vhOwnPlain is a type whose methods are on the value
type vhOwnPlain struct{ got *[]byte }

func (e vhOwnPlain) MsgID() protocol.MsgID   { return 0x0f03 }
func (e vhOwnPlain) Encode() ([]byte, error) { return *e.got, nil }
func (e vhOwnPlain) Decode(b []byte) (int, error) {
	*e.got = append([]byte{}, b...)
	return len(b), nil
}

// an own type, a pointer or a plain value, under a new id or that of any
// answer the sessions look into: the server goes on, the message reaches its
// handler once, and a request of the same serial number that a built-in answer
// comes for later still gets that
//
//vf:covers answer,plain
func vhC32_answers() {
	id := []uint16{0x0001, 0x0104, 0x0201, 0x0302, 0x0500, 0x0700, 0x0802, 0x0805, 0x0f03}[vf.Choose(9)]
	plain := vf.Choose(2) == 1
	if plain {
		vf.Cover("plain")
		protocol.Register(id, func() protocol.Entity { return vhOwnPlain{new([]byte)} })
	} else {
		protocol.Register(id, func() protocol.Entity { return new(vhOwnWhole) })
	}
	s := vhServe(Options{AutoMergePacket: vf.Choose(2) == 1})
	var got [][]byte
	s.AddHandler(protocol.MsgID(id), func(_ *Session, m *protocol.Message) {
		if plain {
			e, ok := m.Body.(vhOwnPlain)
			vf.Assert(ok, "a registered type is not used")
			got = append(got, *e.got)
			return
		}
		e, ok := m.Body.(*vhOwnWhole)
		vf.Assert(ok, "a registered type is not used")
		got = append(got, e.b)
	})
	c := &vf.Conn{}
	x := vhConnect(s, c)
	answers := 0
	no, err := x.Request(&protocol.T808_0x8104{}, func(m *protocol.Message) {
		answers++
		vf.Assert(m.Header.MsgSerialNo == 9, "a callback gets a message that answers nothing")
	})
	vf.Assert(err == nil, "a request fails")
	vf.Settle()
	c.Out = nil
	body := []byte{byte(no >> 8), byte(no), vhNoEsc()}
	m := vhMsg{id: id, icc: 13800000001, serial: 8, body: body}
	if vf.Choose(2) == 1 {
		m.flags, m.sum, m.seq = 0x2000, 1, 1
	}
	c.In = append(c.In, m.frame())
	vf.Settle()
	vf.Assert(len(vhWritten(c)) == 0, "an unexpected reply")
	vf.Assert(len(got) == 1 && vf.EqBytes(got[0], body), "own type not dispatched once")
	vf.Assert(answers == 0, "a callback gets a message that answers nothing")
	if id != 0x0001 {
		vf.Cover("answer")
		c.In = append(c.In, vhMsg{id: 0x0001, icc: 13800000001, serial: 9, body: []byte{byte(no >> 8), byte(no), 0x81, 4, 0}}.frame())
		vf.Settle()
		vf.Assert(answers == 1, "the answer does not reach its request")
	}
}
