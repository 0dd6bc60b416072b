package protocol

import (
	vf "gitee.com/coco/go808/zzvf"
)

// vhRaw is a body with any id and any content
type vhRaw struct {
	id   uint16
	data []byte
}

func (r *vhRaw) MsgID() MsgID                 { return MsgID(r.id) }
func (r *vhRaw) Encode() ([]byte, error)      { return r.data, nil }
func (r *vhRaw) Decode(d []byte) (int, error) { return 0, nil }

// vhFrame: the documented frame around header and body
func vhFrame(content []byte) []byte {
	sum := byte(0)
	for _, b := range content {
		sum ^= b
	}
	out := []byte{0x7e}
	for _, b := range append(append([]byte{}, content...), sum) {
		switch b {
		case 0x7e:
			out = append(out, 0x7d, 2)
		case 0x7d:
			out = append(out, 0x7d, 1)
		default:
			out = append(out, b)
		}
	}
	return append(out, 0x7e)
}

// vhHead: any header the documented layout can carry, and its bytes when the
// body has the given id and size
func vhHead(split bool, id uint16, size int) (Header, []byte) {
	var h Header
	var w vhW
	flags := uint16(vf.Range(0, 15))
	res := flags&3<<11 | flags>>2<<14 // the bits other than length, encryption and packet
	h.Property = Property(res | vf.U16()&0x3ff)
	var bcd [6]byte
	for i := range bcd {
		if split && i > 0 { // the terminal number is varied in messages that are not split
			break
		}
		hi, lo := vf.Range(0, 9), vf.Range(0, 9)
		h.IccID = h.IccID*100 + uint64(hi*10+lo)
		bcd[i] = byte(hi<<4 | lo)
	}
	if split {
		h.IccID = h.IccID*10000000000 + 75
		bcd[5] = 0x75
	}
	h.MsgSerialNo = vf.U16()
	w.u16(id)
	prop := res | uint16(size)
	if split {
		prop |= 1 << 13
	}
	w.u16(prop)
	w.raw(bcd[:])
	w.u16(h.MsgSerialNo)
	if split {
		h.Packet = &Packet{vf.U16(), vf.U16()}
		w.u16(h.Packet.Sum)
		w.u16(h.Packet.Seq)
	}
	return h, w.b
}

// vhPlain: a header with ordinary values
func vhPlain(split bool, id uint16, size int) (Header, []byte) {
	h := Header{IccID: 12345678901, MsgSerialNo: 0x0d7e}
	var w vhW
	prop := uint16(size)
	if split {
		prop |= 1 << 13
	}
	w.u16(id)
	w.u16(prop)
	w.raw([]byte{0x01, 0x23, 0x45, 0x67, 0x89, 0x01})
	w.u16(h.MsgSerialNo)
	if split {
		h.Packet = &Packet{3, 0x7d02}
		w.u16(3)
		w.u16(0x7d02)
	}
	return h, w.b
}

func vhCheckRT(h Header, body Entity) {
	msg := Message{Header: h, Body: body}
	data, err := msg.Encode()
	vf.Assert(err == nil, "encoding a valid message fails")
	vf.Observe("frame", data)
	var got Message
	err = got.Decode(data)
	vf.Assert(err == nil, "decoding the encoded frame fails")
	vf.Assert(got.Header.MsgID == body.MsgID(), "message id differs")
	vf.Assert(got.Header.IccID == h.IccID, "terminal number differs")
	vf.Assert(got.Header.MsgSerialNo == h.MsgSerialNo, "serial number differs")
	vf.Assert((got.Header.Packet == nil) == (h.Packet == nil), "packet information lost or invented")
	if h.Packet != nil {
		vf.Assert(vf.And(got.Header.Packet.Sum == h.Packet.Sum, got.Header.Packet.Seq == h.Packet.Seq), "packet total or number differs")
	}
	vf.Assert(got.Header.Property.IsEnablePacket() == (h.Packet != nil), "packet flag differs")
	vf.Assert(!got.Header.Property.IsEnableEncrypt(), "encryption flag invented")
	vf.Assert(uint16(got.Header.Property)>>14 == uint16(h.Property)>>14, "reserved property bits differ")
	vf.Assert(uint16(got.Header.Property)>>11&3 == uint16(h.Property)>>11&3, "reserved property bits differ")
	raw, _ := body.Encode()
	vf.Assert(int(got.Header.Property.GetBodySize()) == len(raw), "length field differs")
	vf.Assert(got.Body != nil, "body lost")
	vf.Assert(vf.Equal(got.Body, body), "body differs")
}

// any header (terminal number of 12 digits, serial number, reserved property
// bits, stale length bits), not split; body of one symbolic byte
func vhC01_header() {
	h, _ := vhHead(false, 0x0900, 1)
	vhCheckRT(h, &T808_0x0900{Type: vf.Byte()})
}

// any header of a split message (two digits of its terminal number symbolic); empty and fixed one-byte body
func vhC01_split() {
	h, _ := vhHead(true, 0x0900, 1)
	if vf.Choose(2) == 0 {
		vhCheckRT(h, &T808_0x0002{})
		return
	}
	vhCheckRT(h, &T808_0x0900{Type: 0x7d})
}

// a plain header, split or not; bodies of 1-4 (thorough 1-6) symbolic bytes
func vhC01_body() {
	h, _ := vhPlain(vf.Choose(2) == 1, 0x0900, 0)
	n := vhCount(3, 5)
	vhCheckRT(h, &T808_0x0900{Type: vf.Byte(), Data: vf.Bytes(n)})
}

// every body length from 1 to 1023; content fixed but for its first and last
// byte
func vhC01_sizes() {
	n := 1 + vf.Choose(32)*32 + vf.Choose(32)
	if n > 1023 {
		return
	}
	h, _ := vhPlain(n%2 == 0, 0x0900, n)
	vhCheckRT(h, &T808_0x0900{Type: vf.Byte(), Data: vhFill(n - 1)})
}

func vhFill(n int) []byte {
	d := make([]byte, n)
	for i := range d {
		d[i] = byte(i)
	}
	if n > 0 {
		d[n-1] = vf.Byte()
	}
	return d
}

// terminal number 0 and numbers of fewer than 12 digits
func vhC01_short() {
	n := vf.Choose(13)
	h := Header{IccID: vhDigits(n), MsgSerialNo: vf.U16()}
	vhCheckRT(h, &T808_0x0002{})
}

// the encoded frame is the documented one
func vhCheckFrame(h Header, body Entity, content []byte) {
	msg := Message{Header: h, Body: body}
	data, err := msg.Encode()
	vf.Assert(err == nil, "encoding a valid message fails")
	vf.Observe("frame", data)
	vf.Assert(vf.And(data[0] == 0x7e, data[len(data)-1] == 0x7e), "frame not delimited by 0x7e")
	for i := 1; i < len(data)-1; i++ {
		vf.Assert(data[i] != 0x7e, "0x7e inside the frame")
		if data[i] == 0x7d {
			vf.Assert(vf.Or(data[i+1] == 1, data[i+1] == 2), "illegal escape in the frame")
		}
	}
	want := vhFrame(content)
	vf.Assert(len(data) == len(want), "frame has the wrong length")
	vf.Assert(vf.EqBytes(data, want), "frame differs from the documented one")
}

// any header, not split, any message id; no body
func vhC02_header() {
	id := vf.U16()
	h, w := vhHead(false, id, 0)
	vhCheckFrame(h, &vhRaw{id, nil}, w)
}

// any header of a split message (two digits of its terminal number symbolic) with a fixed id; one fixed byte as body
func vhC02_split() {
	h, w := vhHead(true, 0x7e7d, 1)
	vhCheckFrame(h, &vhRaw{0x7e7d, []byte{0x7e}}, append(w, 0x7e))
}

// a plain header, split or not; bodies of 0-4 (thorough 0-6) symbolic bytes
func vhC02_body() {
	n := vhCount(4, 6)
	h, w := vhPlain(vf.Choose(2) == 1, 0x0801, n)
	body := vf.Bytes(n)
	vhCheckFrame(h, &vhRaw{0x0801, body}, append(w, body...))
}

// every body length from 1 to 1023; content fixed but for its last byte
func vhC02_sizes() {
	n := 1 + vf.Choose(32)*32 + vf.Choose(32)
	if n > 1023 {
		return
	}
	h, w := vhPlain(n%2 == 0, 0x0801, n)
	body := vhFill(n)
	vhCheckFrame(h, &vhRaw{0x0801, body}, append(w, body...))
}

// what the documented format says about a received frame
type vhParsed struct {
	ok     bool
	split  bool
	prop   uint16
	id     uint16
	icc    uint64
	serial uint16
	sum    uint16
	seq    uint16
	body   []byte
}

func vhParse(data []byte) (p vhParsed) {
	if len(data) < 3 || data[0] != 0x7e || data[len(data)-1] != 0x7e {
		return
	}
	data = data[1 : len(data)-1]
	var plain []byte
	for i := 0; i < len(data); i++ {
		b := data[i]
		if b != 0x7d {
			plain = append(plain, b)
			continue
		}
		if i+1 == len(data) {
			return
		}
		i++
		if data[i] == 1 {
			plain = append(plain, 0x7d)
		} else if data[i] == 2 {
			plain = append(plain, 0x7e)
		} else {
			return
		}
	}
	n := len(plain) - 1
	sum := byte(0)
	for _, b := range plain[:n] {
		sum ^= b
	}
	if n < 12 {
		return
	}
	if sum != plain[n] {
		return
	}
	plain = plain[:n]
	u16 := func(i int) uint16 { return uint16(plain[i])<<8 | uint16(plain[i+1]) }
	p.id, p.prop = u16(0), u16(2)
	digits := true
	for _, b := range plain[4:10] {
		digits = vf.And(digits, b>>4 < 10, b&15 < 10)
		p.icc = p.icc*100 + uint64(b>>4)*10 + uint64(b&15)
	}
	if !digits {
		return
	}
	p.serial = u16(10)
	plain = plain[12:]
	if p.prop&(1<<13) != 0 {
		p.split = true
		if len(plain) < 4 {
			return
		}
		p.sum, p.seq = u16(0), u16(2)
		plain = plain[4:]
	}
	p.body = plain
	p.ok = true
	return
}

func vhCheckDecode(data []byte) (*Message, vhParsed) {
	p := vhParse(data)
	msg := new(Message)
	in := append([]byte{}, data...)
	err := msg.Decode(in)
	if err != nil {
		vf.Cover("rejected")
		return nil, p
	}
	vf.Cover("accepted")
	vf.Assert(p.ok, "a malformed frame was accepted")
	vf.Assert(uint16(msg.Header.MsgID) == p.id, "wrong message id")
	vf.Assert(uint16(msg.Header.Property) == p.prop, "wrong property")
	vf.Assert(msg.Header.IccID == p.icc, "wrong terminal number")
	vf.Assert(msg.Header.MsgSerialNo == p.serial, "wrong serial number")
	vf.Assert((msg.Header.Packet != nil) == p.split, "wrong packet information")
	if p.split {
		vf.Assert(vf.And(msg.Header.Packet.Sum == p.sum, msg.Header.Packet.Seq == p.seq), "wrong packet total or number")
	}
	if msg.Body != nil {
		vf.Assert(int(p.prop&0x3ff) == len(p.body), "body delivered although its length differs from the length field")
	}
	return msg, p
}

// every byte string of 0-10 bytes (thorough 0-14): too short to be a frame
func vhC03_short() {
	n := vhCount(10, 14)
	data := vf.Bytes(n)
	msg, _ := vhCheckDecode(data)
	vf.Assert(msg == nil, "a string too short for a frame was accepted")
}

// every string of 15-17 bytes (thorough to 19) carrying message id 0x0900 or an
// unregistered one: escapes anywhere, any header, body, checksum and delimiters
//
//vf:covers accepted,rejected
func vhC03_any() {
	n := 12 + vhCount(2, 4)
	id := []byte{9, 0}
	if vf.Choose(2) == 1 {
		id = []byte{0xff, 0xff}
	}
	data := append([]byte{vf.Byte()}, id...)
	data = append(data, vf.Bytes(n-1)...)
	data = append(data, vf.Byte())
	msg, p := vhCheckDecode(data)
	if msg != nil && msg.Body != nil {
		vf.Assert(p.id == 0x0900, "body for an unregistered id")
		b := msg.Body.(*T808_0x0900)
		vf.Assert(b.Type == p.body[0], "body differs from the frame")
		vf.Assert(vf.EqBytes(b.Data, p.body[1:]), "body differs from the frame")
	}
}

// every header without escape bytes, split or not, of any message id, followed
// by 0-5 body bytes and a checksum
//
//vf:covers accepted,rejected
func vhC03_ids() {
	n := 12 + vhCount(5, 8)
	data := vf.Bytes(n + 1)
	for _, b := range data {
		vf.Assume(vf.And(b != 0x7d, b != 0x7e))
	}
	// keep the body away from the type-specific decoders (those are C04, C07, C08)
	p := vhParse(append(append([]byte{0x7e}, data...), 0x7e))
	if p.ok {
		vf.Assume(int(p.prop&0x3ff) != len(p.body))
	}
	msg, _ := vhCheckDecode(append(append([]byte{0x7e}, data...), 0x7e))
	if msg != nil {
		vf.Assert(msg.Body == nil, "body delivered although its length differs from the length field")
	}
}

// any one byte of an encoded frame changed to any other value: never accepted
// with other content
func vhC03_flip() {
	h, w := vhPlain(vf.Choose(2) == 1, 0x0900, 3)
	body := []byte{0x7d, 0x02, 0x31}
	_ = h
	data := vhFrame(append(w, body...))
	at := vf.Choose(len(data))
	b := vf.Byte()
	vf.Assume(b != data[at])
	data[at] = b
	vhCheckDecode(data)
}

// a frame with a body of 100, 256 or 1023 fixed bytes, any one byte of which is
// changed to any other value, left out or doubled: never accepted with other
// content
//
//vf:covers rejected
func vhC03_long() {
	n := []int{100, 256, 1023}[vf.Choose(3)]
	_, w := vhPlain(n == 256, 0x0900, n)
	for i := 0; i < n; i++ {
		w = append(w, byte(i*7))
	}
	data := vhFrame(w)
	at := vf.Choose(32)*34 + vf.Choose(34)
	if at >= len(data) {
		return
	}
	switch vf.Choose(3) {
	case 0:
		b := vf.Byte()
		vf.Assume(b != data[at])
		data[at] = b
	case 1:
		data = append(data[:at:at], data[at+1:]...)
	case 2:
		data = append(data[:at+1:at+1], data[at:]...)
	}
	vhCheckDecode(data)
}
