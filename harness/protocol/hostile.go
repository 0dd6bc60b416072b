package protocol

import (
	"gitee.com/coco/go808/protocol/extra"
	vf "gitee.com/coco/go808/zzvf"
)

var vhMore = 6

func vhSizes(min int) int {
	n := vf.Choose(3)
	if k := vhCount(vhMore, vhMore+4); k > 0 {
		vf.Assume(n == 0)
		n = min + k - 2
		vf.Assume(n > 2)
	}
	return n
}

// vhHostile: decoding any body returns a value or an error
func vhHostile(min int, e Entity) {
	data := vf.Bytes(vhSizes(min))
	count, err := e.Decode(data)
	if err == nil {
		vf.Assert(count >= 0 && count <= len(data), "decoded more bytes than there are")
	}
}

// vhHostileText: the same for types with texts, whose decoder has tables too
// large to be explored for every byte
func vhHostileText(min int, e Entity)  { vhHostileIn(min, e, 0) }
func vhHostileFixed(min int, e Entity) { vhHostileIn(min, e, 1) }

func vhHostileIn(min int, e Entity, lo byte) {
	n := vhSizes(min)
	data := vf.Bytes(n)
	a, b := -1, -1
	if n > 0 {
		a = vf.Choose(n)
		if vf.Thorough() {
			b = vf.Choose(n)
			vf.Assume(b >= a)
		}
	}
	for i, x := range data {
		if i == a || i == b {
			vf.Assume(vf.Or(x < 0x81, x == 0xff))
		} else {
			vf.Assume(vf.And(x < 0x80, x >= lo))
		}
	}
	count, err := e.Decode(data)
	if err == nil {
		vf.Assert(count >= 0 && count <= len(data), "decoded more bytes than there are")
	}
}

// frames: every string of 0-9 (thorough 0-13) bytes
func vhC04_frame() {
	var m Message
	m.Decode(vf.Bytes(vhCount(9, 13)))
}

// frames of 0-14 (thorough 0-18) bytes between the delimiters, with and without
// a private key, message id 0x0900 in the place of the first two
func vhC04_frame2() {
	n := vhCount(14, 18)
	data := vf.Bytes(n)
	if n >= 2 {
		data[0], data[1] = 9, 0
	}
	var m Message
	m.Decode(append(append([]byte{0x7e}, data...), 0x7e))
}

// frames with a correct checksum for every registered id and an unregistered
// one: any property word, 0-4 (thorough 0-6) bytes after the header, with and
// without a private key
func vhC04_frame3() {
	_, ids := vhAllTypes()
	ids = append(ids, 0xffff)
	id := ids[vf.Choose(len(ids))]
	n := vhCount(4, 6)
	prop := vf.U16()
	body := vf.Bytes(n)
	for _, b := range body {
		vf.Assume(vf.And(b < 0x7d, b > 0))
	}
	hi, lo := byte(prop>>8), byte(prop)
	vf.Assume(vf.And(hi != 0x7d, hi != 0x7e, lo != 0x7d, lo != 0x7e))
	var w vhW
	w.u16(id)
	w.u8(hi)
	w.u8(lo)
	w.raw([]byte{0, 0, 0, 0, 0, 1, 0, 1})
	w.raw(body)
	sum := byte(0)
	for _, b := range w.b {
		sum ^= b
	}
	vf.Assume(vf.And(sum != 0x7d, sum != 0x7e))
	w.u8(sum)
	var m Message
	if vf.Choose(2) == 1 {
		m.Decode(append(append([]byte{0x7e}, w.b...), 0x7e), vf.NewKey(48))
	} else {
		m.Decode(append(append([]byte{0x7e}, w.b...), 0x7e))
	}
}

// extras: any id with 0-9 bytes
func vhC04_extra() {
	data := vf.Bytes(vf.Choose(10))
	extra.Decode(vf.Byte(), data)
}

// the extras of a location: any 1-7 (thorough 1-10) bytes after the fixed part
func vhC04_extras() {
	_, lw := vhLoc1()
	tail := vf.Bytes(1 + vhCount(6, 9))
	var e T808_0x0200
	e.Decode(append(append([]byte{}, lw...), tail...))
}

// batch uploads: any count, two items with any declared sizes, cut anywhere
func vhC04_batch() {
	_, lw := vhLoc1()
	var w vhW
	w.u16(vf.U16())
	w.u8(vf.Byte())
	w.u16(vf.U16())
	w.raw(lw)
	w.raw(vf.Bytes(vf.Choose(2)))
	w.u16(vf.U16())
	w.raw(lw)
	w.raw(vf.Bytes(vf.Choose(2)))
	cut := vf.Choose(4)
	if cut > 0 {
		cut = []int{0, 1, 28, 30}[cut]
	}
	var e T808_0x0704
	e.Decode(w.b[:len(w.b)-cut])
}

// media search replies: any count, two items with any fields, cut anywhere
func vhC04_search() {
	_, lw := vhLoc1()
	var w vhW
	w.u16(vf.U16())
	w.u16(vf.U16())
	for i := 0; i < 2; i++ {
		w.raw(vf.Bytes(7))
		w.raw(lw)
	}
	var e T808_0x0802
	e.Decode(w.b[:4+vf.Choose(71)])
}

// media packets: any bytes, 34-40 of them; 0-2
func vhC04_packet() {
	n := vf.Choose(10)
	if n > 2 {
		n += 31
	}
	var e T808_0x0801
	e.DecodePacket(vf.Bytes(n))
}

// phone books, menus, events and questions: any counts and lengths in front of 0-4 ASCII bytes
func vhC04_lists() {
	var e Entity
	var head []byte
	switch vf.Choose(5) {
	case 0:
		e, head = new(T808_0x8401), vf.Bytes(4)
	case 1:
		e, head = new(T808_0x8303), vf.Bytes(4)
	case 2:
		e, head = new(T808_0x8301), vf.Bytes(4)
	case 3:
		e, head = new(T808_0x8302), vf.Bytes(2)
	case 4:
		e, head = new(T808_0x8304), vf.Bytes(3)
	}
	data := vf.Bytes(vhCount(4, 6))
	for _, b := range data {
		vf.Assume(b < 0x80)
	}
	e.Decode(append(head, data...))
}
