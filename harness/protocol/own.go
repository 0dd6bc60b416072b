package protocol

import (
	"bytes"
	"io"
	"io/ioutil"

	"gitee.com/coco/go808/protocol/extra"
	vf "gitee.com/coco/go808/zzvf"
)

// vhOwn is a message type of an application: a 16-bit number and data whose
// first byte must not be 0xff
type vhOwn struct {
	id   MsgID
	made int
	N    uint16
	B    []byte
}

func (e *vhOwn) MsgID() MsgID { return e.id }
func (e *vhOwn) Encode() ([]byte, error) {
	if len(e.B) > 0 && e.B[0] == 0xff {
		return nil, ErrInvalidBody
	}
	return append([]byte{byte(e.N >> 8), byte(e.N)}, e.B...), nil
}
func (e *vhOwn) Decode(b []byte) (int, error) {
	if len(b) < 2 || len(b) > 2 && b[2] == 0xff {
		return 0, ErrInvalidBody
	}
	e.N, e.B = uint16(b[0])<<8|uint16(b[1]), append([]byte{}, b[2:]...)
	return len(b), nil
}

// frame around a body, written without the code under test
func vhOwnFrame(id uint16, body []byte) []byte {
	w := []byte{byte(id >> 8), byte(id), 0, byte(len(body)), 0, 0, 0, 0, 0, 1, 0, 9}
	w = append(w, body...)
	sum := byte(0)
	for _, b := range w {
		sum ^= b
	}
	out := []byte{0x7e}
	for _, b := range append(w, sum) {
		switch b {
		case 0x7e:
			out = append(out, 0x7d, 2)
		case 0x7d:
			out = append(out, 0x7d, 1)
		default:
			out = append(out, b)
		}
	}
	return append(out, 0x7e)
}

// an own type under a new id (0, 0x0001+0x0f00, 0xffff) or under that of a
// built-in type, registered once or again with another creator: frames with its
// id decode into it, each into a value of its own; other ids stay as they were
//
//vf:covers good,bad
func vhC32_message() {
	id := []uint16{0, 0x0f01, 0xffff, 0x0900, 0x8900}[vf.Choose(5)]
	first, second := 0, 0
	twice := vf.Choose(2) == 1
	if twice {
		Register(id, func() Entity { first++; return &vhOwn{id: MsgID(id)} })
	}
	Register(id, func() Entity { second++; return &vhOwn{id: MsgID(id), made: second} })
	b := append([]byte{1, 2}, vf.Bytes(vf.Choose(3))...)
	for i := 2; i < len(b); i++ {
		vf.Assume(vf.And(b[i] != 0x7d, b[i] != 0x7e))
	}
	var one, two Message
	err := one.Decode(vhOwnFrame(id, b))
	vf.Assert(err == nil, "a well-formed frame is refused")
	if len(b) > 2 && b[2] == 0xff {
		vf.Cover("bad")
		vf.Assert(one.Body == nil, "a body that its own type refuses is delivered")
		return
	}
	vf.Cover("good")
	vf.Assert(two.Decode(vhOwnFrame(id, []byte{3, 4, 5})) == nil, "a well-formed frame is refused")
	x, ok := one.Body.(*vhOwn)
	vf.Assert(ok, "a registered type is not used")
	y, ok := two.Body.(*vhOwn)
	vf.Assert(ok, "a registered type is not used")
	vf.Assert(x.made > 0 && y.made > 0 && first == 0, "an earlier registration of the type is used")
	vf.Assert(x != y && x.made != y.made, "two messages share one value")
	vf.Assert(x.N == 0x0102 && len(x.B) == len(b)-2 && y.N == 0x0304 && len(y.B) == 1 && y.B[0] == 5, "own type decoded differently")
	vf.Assert(vf.EqBytes(x.B, b[2:]), "own type decoded differently")
	// and back
	m := Message{Header: Header{IccID: 1, MsgSerialNo: 9}, Body: x}
	d, err := m.Encode()
	vf.Assert(err == nil, "encoding an own type fails")
	w := vhOwnFrame(id, b)
	vf.Assert(len(d) == len(w), "own type encoded differently")
	vf.Assert(vf.EqBytes(d, w), "own type encoded differently")
	// others
	for _, o := range []uint16{0x0900, 0x8900, 0x0f02} {
		if o == id {
			continue
		}
		var m Message
		vf.Assert(m.Decode(vhOwnFrame(o, []byte{1, 2, 3})) == nil, "a well-formed frame is refused")
		switch o {
		case 0x0900:
			_, ok = m.Body.(*T808_0x0900)
		case 0x8900:
			_, ok = m.Body.(*T808_0x8900)
		default:
			ok = m.Body == nil
		}
		vf.Assert(ok, "registering a type changes another")
	}
}

// vhOwnPacket is an own type whose messages can be split
type vhOwnPacket struct {
	vhOwn
	r io.Reader
}

func (e *vhOwnPacket) GetTag() uint32        { return uint32(e.N) }
func (e *vhOwnPacket) GetReader() io.Reader  { return e.r }
func (e *vhOwnPacket) SetReader(r io.Reader) { e.r = r }
func (e *vhOwnPacket) DecodePacket(b []byte) error {
	if len(b) < 2 || b[0] == 0xff {
		return ErrInvalidBody
	}
	e.N, e.r = uint16(b[0])<<8|uint16(b[1]), bytes.NewReader(b[2:])
	return nil
}

// an own type whose messages can be split, in a frame of its own or a part
func vhC32_packet() {
	Register(0x0f03, func() Entity { return &vhOwnPacket{vhOwn: vhOwn{id: 0x0f03}} })
	b := []byte{vf.Byte(), 2, 3, 4}
	vf.Assume(vf.And(b[0] != 0x7d, b[0] != 0x7e))
	var m Message
	vf.Assert(m.Decode(vhOwnFrame(0x0f03, b)) == nil, "a well-formed frame is refused")
	if b[0] == 0xff {
		vf.Assert(m.Body == nil, "a body that its own type refuses is delivered")
		return
	}
	e, ok := m.Body.(*vhOwnPacket)
	vf.Assert(ok, "a registered type is not used")
	rest, err := ioutil.ReadAll(e.GetReader())
	vf.Assert(err == nil && len(rest) == 2 && rest[0] == 3 && rest[1] == 4, "payload of an own type differs")
	vf.Assert(e.N == uint16(b[0])<<8|2, "own type decoded differently")
}

// vhOwnExtra is a location extra of an application: two bytes, the first not 0xff
type vhOwnExtra struct {
	id byte
	b  []byte
}

func (e *vhOwnExtra) ID() byte           { return e.id }
func (e *vhOwnExtra) Data() []byte       { return e.b }
func (e *vhOwnExtra) Value() interface{} { return e.b }
func (e *vhOwnExtra) Decode(b []byte) (int, error) {
	if len(b) < 2 || b[0] == 0xff {
		return 0, ErrInvalidBody
	}
	e.b = append([]byte{}, b[:2]...)
	return 2, nil
}

// location reports with own extras under a new id or that of a built-in one,
// before, between and after built-in ones; refused by their type or not, or with
// a declared length that is not the one read
//
//vf:covers good,bad
func vhC32_extra() {
	id := []byte{0, 0x77, 0xff, 0x02}[vf.Choose(4)]
	if vf.Choose(2) == 1 {
		extra.Register(id, func() extra.Entity { vf.Fail("an earlier registration of the type is used"); return nil })
	}
	extra.Register(id, func() extra.Entity { return &vhOwnExtra{id: id} })
	loc, lw := vhLoc1()
	n := vf.Choose(4)
	own := vf.Bytes(n)
	w := vhW{append([]byte{}, lw...)}
	w.raw([]byte{id, 2, 1, 2, 0x03, 2, 0, 7, id, byte(n)})
	w.raw(own)
	w.raw([]byte{0x30, 1, 9})
	var got T808_0x0200
	_, err := got.Decode(w.b)
	if n != 2 || own[0] == 0xff {
		vf.Cover("bad")
		vf.Assert(err != nil, "an extra that its own type refuses, or does not read to its end, is accepted")
		return
	}
	vf.Cover("good")
	vf.Assert(err == nil, "a report with own extras is refused")
	vf.Assert(len(got.Extras) == 4, "extras lost or invented")
	x, ok := got.Extras[0].(*vhOwnExtra)
	vf.Assert(ok && x.b[0] == 1 && x.b[1] == 2, "own extra decoded differently")
	y, ok := got.Extras[2].(*vhOwnExtra)
	vf.Assert(ok && x != y, "own extras share one value")
	vf.Assert(vf.EqBytes(y.b, own), "own extra decoded differently")
	a, ok := got.Extras[1].(*extra.Extra_0x03)
	vf.Assert(ok && a.Value() == uint16(7), "built-in extra decoded differently")
	c, ok := got.Extras[3].(*extra.Extra_0x30)
	vf.Assert(ok && c.Value() == byte(9), "built-in extra decoded differently")
	loc.Extras = got.Extras
	d, err := loc.Encode()
	vf.Assert(err == nil, "encoding a report with own extras fails")
	vf.Assert(len(d) == len(w.b), "own extras encoded differently")
	vf.Assert(vf.EqBytes(d, w.b), "own extras encoded differently")
}
