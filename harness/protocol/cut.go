package protocol

import (
	"io/ioutil"

	"gitee.com/coco/go808/protocol/extra"
	vf "gitee.com/coco/go808/zzvf"
)

// vhMid: the cut at k falls inside one of the characters the texts are made of
func vhMid(w []byte, k int) bool {
	if k == 0 || k >= len(w) {
		return false
	}
	a, b := w[k-1], w[k]
	return vf.Or(vf.And(a == 0xd6, b == 0xd0), vf.And(a == 0xce, b == 0xc4), vf.And(a == 0xd4, b == 0xc1),
		vf.And(a == 0x94, b == 0x39), vf.And(a == 0x39, b == 0xfc), vf.And(a == 0xfc, b == 0x36))
}

// vhCutOff gives e the first n bytes of the complete body w: they are refused,
// or read as exactly the body they are
func vhCutOff(e Entity, w []byte, n int) {
	_, err := e.Decode(append([]byte(nil), w[:n]...))
	if n == len(w) {
		vf.Assert(err == nil, "a complete body is refused")
	}
	if err != nil {
		vf.Cover("refused")
		return
	}
	vf.Cover("accepted")
	b, err := e.Encode()
	vf.Assert(err == nil, "a shortened body that was accepted cannot be encoded")
	vf.Assert(len(b) == n, "a shortened body was accepted but not read as what it is")
	vf.Assert(vf.EqBytes(b, w[:n]), "a shortened body was accepted but not read as what it is")
}

// a body of every type, cut after every byte, with lists and texts of three
// different sizes and all values symbolic, coordinates and times fixed
//
//vf:covers refused,accepted
func vhC31_cut() {
	k := vf.Choose(len(vhMakers()))
	s := vf.Choose(3)
	ms := vhMakers()
	vf.Shape(s)
	c := ms[k].mk()
	vf.Shape(-1)
	w := vf.Clone(c.wire).([]byte)
	n := vf.Choose(len(w) + 1)
	vf.Assume(!vhMid(w, n))
	vhCutOff(ms[k].dst(), w, n)
}

// a location report with two extras, the first of any kind, cut after any byte
// that does not leave a lone byte behind the last whole extra
//
//vf:covers refused,accepted
func vhC31_extras() {
	loc, lw := vhLoc1()
	w := vhW{append([]byte{}, lw...)}
	a, ida, _, da := vhExtra(vf.Choose(vhKinds))
	b, idb, _, db := vhExtra(3)
	loc.Extras = []extra.Entity{a, b}
	w.u8(ida)
	w.u8(byte(len(da)))
	w.raw(da)
	mid := len(w.b)
	w.u8(idb)
	w.u8(byte(len(db)))
	w.raw(db)
	n := vf.Choose(len(w.b) + 1)
	vf.Assume(n != len(lw)+1 && n != mid+1)
	e := new(T808_0x0200)
	vhCutOff(e, w.b, n)
}

// a media message cut after any byte: refused within the fixed part, or read
// with the payload that is left
func vhC31_media() {
	loc, lw := vhLoc1()
	_, w := vhMk0801(loc, lw, vf.Bytes(vhCount(3, 6)))
	n := vf.Choose(len(w) + 1)
	var e T808_0x0801
	err := e.DecodePacket(append([]byte(nil), w[:n]...))
	vf.Assert((err == nil) == (n >= 36), "media message cut within its fixed part accepted, or complete one refused")
	if err != nil {
		return
	}
	rest, err := ioutil.ReadAll(e.GetReader())
	vf.Assert(err == nil, "media payload cannot be read")
	vf.Assert(len(rest) == n-36, "media payload has another length than what was received")
	vf.Assert(vf.EqBytes(rest, w[36:n]), "media payload differs")
}

// an RSA key message cut after any byte is refused
func vhC31_key() {
	_, w := vhRSA()
	n := vf.Choose(len(w))
	var a T808_0x0A00
	_, err := a.Decode(append([]byte(nil), w[:n]...))
	vf.Assert(err != nil, "an incomplete RSA key is accepted")
	var b T808_0x8A00
	_, err = b.Decode(append([]byte(nil), w[:n]...))
	vf.Assert(err != nil, "an incomplete RSA key is accepted")
}

// a frame that is well formed but whose body of any type was cut after any byte:
// it is decoded without a body, or with the body that is there
//
//vf:covers without,with
func vhC31_frame() {
	k := vf.Choose(len(vhMakers()))
	ms := vhMakers()
	vf.Shape(1)
	c := ms[k].mk()
	vf.Shape(-1)
	n := vf.Choose(len(c.wire) + 1)
	vf.Assume(!vhMid(c.wire, n))
	for _, b := range c.wire {
		vf.Assume(vf.And(b != 0x7d, b != 0x7e))
	}
	id := uint16(ms[k].dst().MsgID())
	var w vhW
	w.u16(id)
	w.u16(uint16(n))
	w.raw([]byte{0, 0, 0, 0, 0, 1, 0, 7})
	w.raw(c.wire[:n])
	sum := byte(0)
	for _, b := range w.b {
		sum ^= b
	}
	w.u8(sum)
	vf.Assume(vf.And(sum != 0x7d, sum != 0x7e, byte(n) != 0x7d, byte(n) != 0x7e))
	var m Message
	err := m.Decode(append(append([]byte{0x7e}, w.b...), 0x7e))
	vf.Assert(err == nil, "a well-formed frame is refused")
	if m.Body == nil {
		vf.Cover("without")
		vf.Assert(n < len(c.wire), "a complete body is lost")
		return
	}
	vf.Cover("with")
	b, err := m.Body.Encode()
	vf.Assert(err == nil, "a shortened body that was accepted cannot be encoded")
	vf.Assert(len(b) == n, "a shortened body was accepted but not read as what it is")
	vf.Assert(vf.EqBytes(b, c.wire[:n]), "a shortened body was accepted but not read as what it is")
}

// a Message used again for another frame holds nothing of the earlier one: a
// frame without a readable body leaves no body
func vhC29_reuse() {
	a := &T808_0x8900{Type: vf.Byte(), Data: vf.Bytes(2)}
	one := Message{Header: Header{IccID: 1, MsgSerialNo: vf.U16()}, Body: a}
	if vf.Choose(2) == 1 {
		one.Header.Packet = &Packet{Sum: 2, Seq: 1}
	}
	d1, err := one.Encode()
	vf.Assert(err == nil, "encoding fails")
	// unknown id, body too short for its type, or shorter than its header says
	f := [][]byte{
		{0x0f, 0xff, 0, 1, 0, 0, 0, 0, 0, 2, 0, 9, 5},
		{0x81, 0x00, 0, 1, 0, 0, 0, 0, 0, 2, 0, 9, 5},
		{0x89, 0x00, 0, 2, 0, 0, 0, 0, 0, 2, 0, 9, 5},
	}[vf.Choose(3)]
	sum := byte(0)
	for _, b := range f {
		sum ^= b
	}
	d2 := append(append([]byte{0x7e}, f...), sum, 0x7e)
	var fresh, used Message
	vf.Assert(used.Decode(d1) == nil, "decoding fails")
	vf.Assert(vf.Equal(used.Body, a), "decoded body differs")
	e1, e2 := used.Decode(append([]byte{}, d2...)), fresh.Decode(append([]byte{}, d2...))
	vf.Assert((e1 == nil) == (e2 == nil), "a used message decodes another frame differently")
	vf.Assert(e1 == nil, "a well-formed frame is refused")
	vf.Assert(fresh.Body == nil, "a body out of nothing")
	vf.Assert(used.Body == nil, "the body of an earlier frame is left in place")
	vf.Assert(used.Header.Packet == nil, "the packet fields of an earlier frame are left in place")
	vf.Assert(used.Header.MsgSerialNo == 9, "the header of an earlier frame is left in place")
}

type vhBroken struct{ left int }

func (r *vhBroken) Read(b []byte) (int, error) {
	if r.left == 0 {
		return 0, vf.ErrNet
	}
	r.left--
	b[0] = 'x'
	return 1, nil
}

// a media message whose payload reader fails after 0-3 bytes is not encoded
func vhC26_reader() {
	loc, _ := vhLoc1()
	e, _ := vhMk0801(loc, nil, nil)
	e.Packet = &vhBroken{vf.Choose(4)}
	if vf.Choose(2) == 1 {
		_, err := e.Encode()
		vf.Assert(err != nil, "a media message whose payload cannot be read is encoded")
		return
	}
	m := Message{Header: Header{IccID: 1, MsgSerialNo: 1}, Body: e}
	d, err := m.Encode()
	vf.Assert(err != nil, "a media message whose payload cannot be read is encoded")
	vf.Assert(len(d) == 0, "a frame for a message that cannot be encoded")
}
