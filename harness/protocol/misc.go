package protocol

import (
	"bytes"
	"crypto/rsa"
	"crypto/sha1"
	"io/ioutil"
	"math/big"
	"time"

	"gitee.com/coco/go808/protocol/extra"
	vf "gitee.com/coco/go808/zzvf"
)

// C13: BCD times and numbers

// every second from 2000-01-01 to 2099-12-31, given in local time or in UTC
func vhC13_time() {
	t, bcd := vhTime()
	in := t
	if vf.Choose(2) == 1 {
		in = t.UTC()
	}
	w := NewWriter()
	w.WriteByte(0xa5)
	w.WriteBcdTime(in)
	w.WriteByte(0x5a)
	data := w.Bytes()
	vf.Assert(len(data) == 8, "a BCD time is not six bytes")
	vf.Assert(vf.EqBytes(data[1:7], bcd), "BCD time has other digits")
	r := NewReader(data)
	r.ReadByte()
	got, err := r.ReadBcdTime()
	vf.Assert(err == nil, "a written BCD time cannot be read")
	vf.Assert(vf.Equal(got, t), "BCD time read back differs")
	vf.Assert(r.Len() == 1, "reading a BCD time takes another number of bytes")
}

// any six bytes: read exactly, or refused when a digit is not decimal or the date does not exist
//
//vf:covers good,bad
func vhC13_any() {
	b := vf.Bytes(6)
	r := NewReader(append([]byte{}, b...))
	got, err := r.ReadBcdTime()
	digits := true
	var n [6]int
	for i, x := range b {
		digits = vf.And(digits, x>>4 < 10, x&15 < 10)
		n[i] = int(x>>4)*10 + int(x&15)
	}
	ok := vf.And(digits, n[1] >= 1, n[1] <= 12, n[2] >= 1, n[3] < 24, n[4] < 60, n[5] < 60)
	ok = vf.And(ok, vhDateOK(n[0], n[1], n[2]))
	if !ok {
		vf.Cover("bad")
		vf.Assert(err != nil, "an impossible BCD time is accepted")
		return
	}
	vf.Cover("good")
	vf.Assert(err == nil, "a valid BCD time is refused")
	vf.Assert(vf.Equal(got, time.Date(2000+n[0], time.Month(n[1]), n[2], n[3], n[4], n[5], 0, time.Local)), "BCD time read differently")
}

// the times inside the bodies of every message type that holds one (and inside
// the location reports within them), replaced by any six bytes
//
//vf:covers good,bad
func vhC13_inBody() {
	t := time.Date(2021, 3, 4, 5, 6, 7, 0, time.Local)
	bcd := []byte{0x21, 3, 4, 5, 6, 7}
	l := T808_0x0200{Time: t}
	es := []Entity{
		&l,
		&T808_0x0201{Result: l},
		&T808_0x0500{Result: l},
		&T808_0x0702{Time: t, CompanyName: "c", ExpiryDate: time.Date(2030, 1, 2, 0, 0, 0, 0, time.Local)},
		&T808_0x0702{Time: t, ICCardResult: 1},
		&T808_0x0704{Items: []T808_0x0200{l, l}},
		&T808_0x0801{Location: l},
		&T808_0x0802{Items: []T808_0x0802_Item{{Location: l}, {Location: l}}},
		&T808_0x8600{Items: []CircleArea{{Attribute: 1, StartTime: t, EndTime: t}, {Attribute: 1, StartTime: t, EndTime: t}}},
		&T808_0x8602{Items: []RectArea{{Attribute: 1, StartTime: t, EndTime: t}, {Attribute: 1, StartTime: t, EndTime: t}}},
		&T808_0x8604{Attribute: 1, StartTime: t, EndTime: t, Vertexes: []Vertex{{}}},
		&T808_0x8606{StartTime: t, EndTime: t},
		&T808_0x8802{StartTime: t, EndTime: t},
		&T808_0x8803{StartTime: t, EndTime: t},
	}
	k := vf.Choose(len(es))
	data, err := es[k].Encode()
	vf.Assert(err == nil, "encoding fails")
	var at []int
	for i := 0; i+6 <= len(data); i++ {
		if bytes.Equal(data[i:i+6], bcd) {
			at = append(at, i)
		}
	}
	vf.Assert(len(at) > 0, "the time is not in the body")
	b := vf.Bytes(6)
	copy(data[at[vf.Choose(len(at))]:], b)
	digits := true
	var n [6]int
	for i, x := range b {
		digits = vf.And(digits, x>>4 < 10, x&15 < 10)
		n[i] = int(x>>4)*10 + int(x&15)
	}
	ok := vf.And(digits, n[1] >= 1, n[1] <= 12, n[2] >= 1, n[3] < 24, n[4] < 60, n[5] < 60)
	ok = vf.And(ok, vhDateOK(n[0], n[1], n[2]))
	_, err = es[k].Decode(data)
	if !ok {
		vf.Cover("bad")
		vf.Assert(err != nil, "a body with an impossible BCD time is accepted")
		return
	}
	vf.Cover("good")
	vf.Assert(err == nil, "a body with another valid BCD time is refused")
}

// fewer than six bytes
func vhC13_short() {
	r := NewReader(vf.Bytes(vf.Choose(6)))
	_, err := r.ReadBcdTime()
	vf.Assert(err != nil, "a BCD time is read from fewer than six bytes")
}

// CAN receive times: every millisecond of a day survives
func vhC13_can() { vhCan(vf.Range(0, 23), vf.Range(0, 59), vf.Range(0, 59), vf.Range(0, 999)) }

// the same for every millisecond of three given seconds
func vhC13_canMs() {
	switch vf.Choose(3) {
	case 0:
		vhCan(0, 0, 0, vf.Range(0, 999))
	case 1:
		vhCan(0, 0, 1, vf.Range(0, 999))
	case 2:
		vhCan(23, 59, 59, vf.Range(0, 999))
	}
}

func vhCan(h, mi, s, ms int) {
	d := time.Duration(h)*time.Hour + time.Duration(mi)*time.Minute + time.Duration(s)*time.Second + time.Duration(ms)*time.Millisecond
	e := &T808_0x0705{ReceiveTime: d}
	data, err := e.Encode()
	vf.Assert(err == nil, "encoding a CAN message fails")
	vf.Assert(len(data) == 7, "wrong length of an empty CAN message")
	vf.Assert(vf.EqBytes(data[2:], []byte{vhBcd(h), vhBcd(mi), vhBcd(s), vhBcd(ms / 100), vhBcd(ms % 100)}), "CAN receive time has other digits")
	var got T808_0x0705
	_, err = got.Decode(data)
	vf.Assert(err == nil, "decoding a CAN message fails")
	vf.Assert(got.ReceiveTime == d, "CAN receive time differs")
}

// CAN receive times of any five bytes: exact, or refused for non-decimal digits
//
//vf:covers good,bad
func vhC13_canAny() {
	b := vf.Bytes(5)
	var got T808_0x0705
	_, err := got.Decode(append([]byte{0, 0}, b...))
	digits := true
	var n [5]int
	for i, x := range b {
		digits = vf.And(digits, x>>4 < 10, x&15 < 10)
		n[i] = int(x>>4)*10 + int(x&15)
	}
	if !digits {
		vf.Cover("bad")
		vf.Assert(err != nil, "a CAN receive time with a non-decimal digit is accepted")
		return
	}
	vf.Cover("good")
	if vf.And(n[0] < 24, n[1] < 60, n[2] < 60, n[3] < 10) {
		vf.Assert(err == nil, "a valid CAN receive time is refused")
		d := time.Duration(n[0])*time.Hour + time.Duration(n[1])*time.Minute + time.Duration(n[2])*time.Second + time.Duration(n[3]*100+n[4])*time.Millisecond
		vf.Assert(got.ReceiveTime == d, "CAN receive time read differently")
	}
}

// terminal numbers of 0-12 digits in a header, written as twelve digits
func vhC13_terminal() {
	n := vf.Choose(13)
	var bcd [6]byte
	icc := uint64(0)
	for i := 0; i < n; i++ {
		d := vf.Range(0, 9)
		icc = icc*10 + uint64(d)
		at := 12 - n + i
		if at%2 == 0 {
			bcd[at/2] |= byte(d << 4)
		} else {
			bcd[at/2] |= byte(d)
		}
	}
	h := Header{MsgID: 2, IccID: icc, MsgSerialNo: 1}
	data, err := h.Encode()
	vf.Assert(err == nil, "encoding a header fails")
	vf.Assert(vf.EqBytes(data[4:10], bcd[:]), "terminal number has other digits")
	var got Header
	vf.Assert(got.Decode(data) == nil, "decoding a header fails")
	vf.Assert(got.IccID == icc, "terminal number differs")
}

// terminal numbers of any six bytes: exact, or refused for non-decimal digits
//
//vf:covers good,bad
func vhC13_terminalAny() {
	b := vf.Bytes(6)
	data := append([]byte{0, 2, 0, 0}, b...)
	data = append(data, 0, 1)
	var got Header
	err := got.Decode(data)
	digits, icc := true, uint64(0)
	for _, x := range b {
		digits = vf.And(digits, x>>4 < 10, x&15 < 10)
		icc = icc*100 + uint64(x>>4)*10 + uint64(x&15)
	}
	if !digits {
		vf.Cover("bad")
		vf.Assert(err != nil, "a terminal number with a non-decimal digit is accepted")
		return
	}
	vf.Cover("good")
	vf.Assert(err == nil, "a valid terminal number is refused")
	vf.Assert(got.IccID == icc, "terminal number read differently")
}

// SIM numbers of 1-20 digits without leading zero
func vhC13_sim() {
	n := 1 + vf.Choose(20)
	sim := make([]byte, n)
	for i := range sim {
		sim[i] = byte('0' + vf.Range(0, 9))
	}
	vf.Assume(sim[0] != '0')
	e := &T808_0x0107{Sim: string(sim)}
	data, err := e.Encode()
	vf.Assert(err == nil, "encoding a terminal property reply fails")
	var got T808_0x0107
	_, err = got.Decode(data)
	vf.Assert(err == nil, "decoding a terminal property reply fails")
	vf.Assert(len(got.Sim) == n, "SIM number with another number of digits")
	vf.Assert(got.Sim == string(sim), "SIM number differs")
}

// expiry dates of driver identities: any four bytes but those of year 0
//
//vf:covers good,bad
func vhC13_date() {
	var w vhW
	w.raw([]byte{1, 0x21, 1, 1, 1, 1, 1, 0, 1, 'A'})
	w.fix(nil, 20)
	w.raw([]byte{1, 'B'})
	b := vf.Bytes(4)
	w.raw(b)
	vf.Assume(vf.Or(b[0] != 0, b[1] != 0))
	var got T808_0x0702
	_, err := got.Decode(w.b)
	digits := true
	var n [4]int
	for i, x := range b {
		digits = vf.And(digits, x>>4 < 10, x&15 < 10)
		n[i] = int(x>>4)*10 + int(x&15)
	}
	if !vf.And(digits, n[2] >= 1, n[2] <= 12, n[3] >= 1, n[3] <= 31) {
		vf.Cover("bad")
		vf.Assert(err != nil, "an impossible date is accepted")
		return
	}
	leap := vf.And(n[1]&3 == 0, vf.Or(n[1] != 0, n[0]&3 == 0))
	if vf.And(!leap, n[2] == 2, n[3] == 29) || !vhDateOK(n[1], n[2], n[3]) {
		vf.Assert(err != nil, "an impossible date is accepted")
		return
	}
	vf.Cover("good")
	vf.Assert(err == nil, "a valid date is refused")
	vf.Assert(vf.Equal(got.ExpiryDate, time.Date(n[0]*100+n[1], time.Month(n[2]), n[3], 0, 0, 0, 0, time.Local)), "date read differently")
}

// C14: texts

var vhChars = []struct {
	s string
	b []byte
}{
	{"中", []byte{0xd6, 0xd0}}, {"😀", []byte{0x94, 0x39, 0xfc, 0x36}}, {"丂", []byte{0x81, 0x40}}, {"ǿ", []byte{0x81, 0x30, 0xa3, 0x36}},
	{"龥", []byte{0xfd, 0x9b}}, {"é", []byte{0xa8, 0xa6}}, {"ÿ", []byte{0x81, 0x30, 0x8b, 0x37}}, {"　", []byte{0xa1, 0xa1}},
	{"￥", []byte{0xa3, 0xa4}}, {"𠀀", []byte{0x95, 0x32, 0x82, 0x36}}, {"ㄓ", []byte{0xa8, 0xd3}},
}

// vhMixed: n tokens, each any ASCII character but NUL or one of the characters
// above (quick: the first two); every mixture
func vhMixed(n int) (string, []byte) {
	k := 2
	if vf.Thorough() {
		k = len(vhChars)
	}
	s, enc := "", []byte{}
	for i := 0; i < n; i++ {
		c := vf.Choose(k + 1)
		if c == 0 {
			b := byte(vf.Range(1, 127))
			s += string([]byte{b})
			enc = append(enc, b)
		} else {
			s += vhChars[c-1].s
			enc = append(enc, vhChars[c-1].b...)
		}
	}
	return s, enc
}

// texts of 0-3 characters, ASCII and Chinese (2 and 4 bytes) in every mixture, free-running
func vhC14_free() {
	s, enc := vhMixed(vf.Choose(4))
	w := NewWriter()
	vf.Assert(w.WritString(s) == nil, "writing a text fails")
	vf.Assert(len(w.Bytes()) == len(enc), "text has the wrong length")
	vf.Assert(vf.EqBytes(w.Bytes(), enc), "text is encoded differently")
	r := NewReader(w.Bytes())
	got, err := r.ReadString()
	vf.Assert(err == nil, "reading a text fails")
	vf.Assert(got == s, "text differs")
}

// each of eleven characters from all over the code table
func vhC14_chars() {
	c := vhChars[vf.Choose(len(vhChars))]
	a := byte(vf.Range(1, 127))
	s := string([]byte{a}) + c.s + string([]byte{a})
	w := NewWriter()
	vf.Assert(w.WritString(s) == nil, "writing a text fails")
	vf.Assert(len(w.Bytes()) == len(c.b)+2, "text has the wrong length")
	vf.Assert(vf.EqBytes(w.Bytes()[1:len(c.b)+1], c.b), "text is encoded differently")
	r := NewReader(w.Bytes())
	got, err := r.ReadString()
	vf.Assert(err == nil, "reading a text fails")
	vf.Assert(got == s, "text differs")
}

// the same texts in a fixed field between other data, of every width from the text's own to four more
func vhC14_fixed() {
	s, enc := vhMixed(vf.Choose(4))
	width := len(enc) + vf.Choose(5)
	w := NewWriter()
	w.WriteByte(0x11)
	vf.Assert(w.WritString(s, width) == nil, "writing a text fails")
	w.WriteByte(0x22)
	var want vhW
	want.u8(0x11)
	want.fix(enc, width)
	want.u8(0x22)
	vf.Assert(len(w.Bytes()) == len(want.b), "fixed text field has the wrong width")
	vf.Assert(vf.EqBytes(w.Bytes(), want.b), "fixed text field has other bytes")
	r := NewReader(w.Bytes())
	r.ReadByte()
	got, err := r.ReadString(width)
	vf.Assert(err == nil, "reading a text fails")
	vf.Assert(got == s, "text differs")
	b, err := r.ReadByte()
	vf.Assert(err == nil && b == 0x22, "what follows a text is lost")
}

// the same texts in every message field that carries a text
func vhC14_fields() {
	s, enc := vhMixed(1 + vf.Choose(2))
	n8, n16 := byte(len(enc)), []byte{0, byte(len(enc))}
	var w vhW
	var c vhCase
	var dst Entity
	switch vf.Choose(14) {
	case 0:
		c.e, dst = &T808_0x0102{AuthKey: s}, new(T808_0x0102)
		w.raw(enc)
	case 1:
		c.e, dst = &T808_0x8100{MsgSerialNo: 1, AuthKey: s}, new(T808_0x8100)
		w.raw([]byte{0, 1, 0})
		w.raw(enc)
	case 2:
		c.e, dst = &T808_0x8105{Cmd: 1, Data: s}, new(T808_0x8105)
		w.u8(1)
		w.raw(enc)
	case 3:
		c.e, dst = &T808_0x8108{ManufactureID: "ABCDE", Version: s, Size: 2, Data: []byte{1, 2}}, new(T808_0x8108)
		w.raw([]byte{0, 'A', 'B', 'C', 'D', 'E', n8})
		w.raw(enc)
		w.raw([]byte{0, 0, 0, 2, 1, 2})
	case 4:
		c.e, dst = &T808_0x8300{Flag: 1, Text: s}, new(T808_0x8300)
		w.u8(1)
		w.raw(enc)
	case 5:
		c.e, dst = &T808_0x8301{Type: 1, Events: []T808_0x8301_Event{{1, s}, {2, "x"}}}, new(T808_0x8301)
		w.raw([]byte{1, 2, 1, n8})
		w.raw(enc)
		w.raw([]byte{2, 1, 'x'})
	case 6:
		c.e, dst = &T808_0x8302{Flag: 1, Question: s, CandidateAnswers: []T808_0x8302_Answer{{1, "x"}, {2, s}, {3, "y"}}}, new(T808_0x8302)
		w.raw([]byte{1, n8})
		w.raw(enc)
		w.raw([]byte{1, 1, 'x', 2, n8})
		w.raw(enc)
		w.raw([]byte{3, 1, 'y'})
	case 7:
		c.e, dst = &T808_0x8303{Type: 1, Items: []T808_0x8303_Item{{s}, {"x"}}}, new(T808_0x8303)
		w.raw([]byte{1, 2})
		w.raw(n16)
		w.raw(enc)
		w.raw([]byte{0, 1, 'x'})
	case 8:
		c.e, dst = &T808_0x8304{Type: 1, Content: s}, new(T808_0x8304)
		w.u8(1)
		w.raw(n16)
		w.raw(enc)
	case 9:
		c.e, dst = &T808_0x8400{Flag: 1, Number: s}, new(T808_0x8400)
		w.u8(1)
		w.raw(enc)
	case 10:
		c.e, dst = &T808_0x8401{Type: 1, Contacts: []T808_0x8401_Contact{{1, s, "x"}, {2, "1", s}}}, new(T808_0x8401)
		w.raw([]byte{1, 2, 1, n8})
		w.raw(enc)
		w.raw([]byte{1, 'x', 2, 1, '1', n8})
		w.raw(enc)
	case 11:
		c.e, dst = &T808_0x0100{ManufactureID: "ABCDE", Model: "M", TerminalID: "T", LicenseNo: s}, new(T808_0x0100)
		w.raw([]byte{0, 0, 0, 0})
		w.fix([]byte("ABCDE"), 5)
		w.fix([]byte("M"), 20)
		w.fix([]byte("T"), 7)
		w.u8(0)
		w.raw(enc)
	case 12:
		c.e, dst = &T808_0x8103{Params: []*Param{new(Param).SetString(5, s), new(Param).SetByte(6, 1)}}, new(T808_0x8103)
		w.raw([]byte{2, 0, 0, 0, 5, n8})
		w.raw(enc)
		w.raw([]byte{0, 0, 0, 6, 1, 1})
	case 13:
		t := time.Date(2021, 1, 1, 1, 1, 1, 0, time.Local)
		c.e, dst = &T808_0x0702{State: 1, Time: t, DriverName: s, Number: s, CompanyName: s, ExpiryDate: time.Date(2030, 1, 2, 0, 0, 0, 0, time.Local)}, new(T808_0x0702)
		w.raw([]byte{1, 0x21, 1, 1, 1, 1, 1, 0, n8})
		w.raw(enc)
		w.fix(enc, 20)
		w.u8(n8)
		w.raw(enc)
		w.raw([]byte{0x20, 0x30, 1, 2})
	}
	c.want, c.wire = c.e, w.b
	vhLayout(c)
	vhRoundTrip(c, dst)
}

// long texts: up to 255 encoded bytes behind a length byte, 200-300 characters
// free-running and behind a 16-bit length
func vhC14_long() {
	a := byte(vf.Range(1, 127))
	rep := func(n int) string {
		s := ""
		for len(s) < n*3 {
			s += "中"
		}
		return s + string([]byte{a})
	}
	switch vf.Choose(4) {
	case 0:
		c := &T808_0x8301{Type: 1, Events: []T808_0x8301_Event{{1, rep(127)}, {2, rep(64)}}}
		vhRoundTrip(vhCase{c, c, nil}, new(T808_0x8301))
	case 1:
		c := &T808_0x8304{Type: 1, Content: rep([]int{127, 128, 200, 255}[vf.Choose(4)])}
		vhRoundTrip(vhCase{c, c, nil}, new(T808_0x8304))
	case 2:
		c := &T808_0x8300{Flag: 1, Text: rep(300)}
		vhRoundTrip(vhCase{c, c, nil}, new(T808_0x8300))
	case 3:
		c := &T808_0x8303{Items: []T808_0x8303_Item{{rep(128)}, {rep(3)}}}
		vhRoundTrip(vhCase{c, c, nil}, new(T808_0x8303))
	}
}

// C15: parameters

// every value of each kind through its getter
func vhC15_get() {
	p, id := new(Param), vf.U32()
	vhParamKind(vf.Choose(5), p, id)()
	vf.Assert(p.ID() == id, "parameter id differs")
}

// vhParamKind sets p and returns the check that the value is still there
func vhParamKind(kind int, p *Param, id uint32) func() {
	switch kind {
	case 0:
		v := vf.Byte()
		vf.Assert(p.SetByte(id, v) == p, "setter returns another parameter")
		return func() {
			g, err := p.GetByte()
			vf.Assert(err == nil, "reading a byte parameter fails")
			vf.Assert(g == v, "byte parameter differs")
		}
	case 1:
		v := vf.U16()
		p.SetUint16(id, v)
		return func() {
			g, err := p.GetUint16()
			vf.Assert(err == nil, "reading a 16-bit parameter fails")
			vf.Assert(g == v, "16-bit parameter differs")
		}
	case 2:
		v := vf.U32()
		p.SetUint32(id, v)
		return func() {
			g, err := p.GetUint32()
			vf.Assert(err == nil, "reading a 32-bit parameter fails")
			vf.Assert(g == v, "32-bit parameter differs")
		}
	case 3:
		v := vf.Bytes(vhCount(3, 6))
		in := append([]byte{}, v...)
		p.SetBytes(id, in)
		for i := range in {
			in[i]++ // the caller's memory is its own
		}
		return func() {
			g, err := p.GetBytes()
			vf.Assert(err == nil, "reading a byte-string parameter fails")
			vf.Assert(len(g) == len(v), "byte-string parameter has another length")
			vf.Assert(vf.EqBytes(g, v), "byte-string parameter differs")
			for i := range g {
				g[i]++
			}
			g, _ = p.GetBytes()
			vf.Assert(vf.EqBytes(g, v), "byte-string parameter changes with what the getter returned")
		}
	}
	s, _ := vhMixed(vf.Choose(3))
	p.SetString(id, s)
	return func() {
		g, err := p.GetString()
		vf.Assert(err == nil, "reading a text parameter fails")
		vf.Assert(g == s, "text parameter differs")
	}
}

// two parameters of any kinds through a parameter-setting or parameter-reply
// message, the receive buffer being used again afterwards
func vhC15_message() {
	a, b := new(Param), new(Param)
	ka, kb := vf.Choose(5), vf.Choose(5)
	ia, ib := vf.U32(), vf.U32()
	ca, cb := vhParamKind(ka, a, ia), vhParamKind(kb, b, ib)
	var ps []*Param
	if vf.Choose(2) == 0 {
		data, err := (&T808_0x8103{Params: []*Param{a, b}}).Encode()
		vf.Assert(err == nil, "encoding parameters fails")
		var got T808_0x8103
		_, err = got.Decode(data)
		vf.Assert(err == nil, "decoding parameters fails")
		ps = got.Params
	} else {
		data, err := (&T808_0x0104{ReplyMsgSerialNo: 7, Params: []*Param{a, b}}).Encode()
		vf.Assert(err == nil, "encoding parameters fails")
		var got T808_0x0104
		_, err = got.Decode(data)
		vf.Assert(err == nil, "decoding parameters fails")
		ps = got.Params
	}
	vf.Assert(len(ps) == 2, "parameters lost or invented")
	vf.Assert(vf.And(ps[0].ID() == ia, ps[1].ID() == ib), "parameter id differs")
	*a, *b = *ps[0], *ps[1]
	ca()
	cb()
}

// getters of byte strings of 0-5 bytes: the leading bytes, or an error
func vhC15_short() {
	v := vf.Bytes(vf.Choose(6))
	p := new(Param).SetBytes(1, v)
	b, err := p.GetByte()
	vf.Assert((err == nil) == (len(v) >= 1), "byte getter accepts a value that is too short or refuses one that is not")
	if err == nil {
		vf.Assert(b == v[0], "byte parameter differs")
	}
	h, err := p.GetUint16()
	vf.Assert((err == nil) == (len(v) >= 2), "16-bit getter accepts a value that is too short or refuses one that is not")
	if err == nil {
		vf.Assert(h == uint16(v[0])<<8|uint16(v[1]), "16-bit parameter differs")
	}
	w, err := p.GetUint32()
	vf.Assert((err == nil) == (len(v) >= 4), "32-bit getter accepts a value that is too short or refuses one that is not")
	if err == nil {
		vf.Assert(w == uint32(v[0])<<24|uint32(v[1])<<16|uint32(v[2])<<8|uint32(v[3]), "32-bit parameter differs")
	}
}

// a parameter set twice has the last value
func vhC15_again() {
	p := new(Param)
	vhParamKind(vf.Choose(5), p, 1)
	id := vf.U32()
	c := vhParamKind(vf.Choose(5), p, id)
	c()
	vf.Assert(p.ID() == id, "parameter id differs")
}

// setting a parameter again leaves a copy made before alone
func vhC15_copies() {
	p := new(Param)
	c := vhParamKind(vf.Choose(5), p, 1)
	old := *p
	vhParamKind(vf.Choose(5), p, 2)
	*p = old
	c()
}

// changing one of two decoded parameters leaves the received bytes and the other
// parameter alone
func vhC15_decoded() {
	a, b := new(Param), new(Param)
	ca, cb := vhParamKind(vf.Choose(5), a, 1), vhParamKind(vf.Choose(5), b, 2)
	data, err := (&T808_0x8103{Params: []*Param{a, b}}).Encode()
	vf.Assert(err == nil, "encoding parameters fails")
	var got, again T808_0x8103
	_, err = got.Decode(data)
	vf.Assert(err == nil && len(got.Params) == 2, "decoding parameters fails")
	got.Params[0].SetBytes(1, []byte{0xff, 0xfe, 0xfd, 0xfc})
	*b = *got.Params[1]
	cb()
	_, err = again.Decode(data)
	vf.Assert(err == nil && len(again.Params) == 2, "received bytes change with a parameter")
	*a = *again.Params[0]
	ca()
}

// lists of 127, 128 and 255 parameters, the first and last value symbolic
func vhC15_many() {
	n := []int{127, 128, 255}[vf.Choose(3)]
	x := vf.U16()
	var ps []*Param
	for i := 0; i < n; i++ {
		v := uint16(i)
		if i == 0 || i == n-1 {
			v = x
		}
		ps = append(ps, new(Param).SetUint16(uint32(i), v))
	}
	data, err := (&T808_0x8103{Params: ps}).Encode()
	vf.Assert(err == nil, "encoding parameters fails")
	var got T808_0x8103
	_, err = got.Decode(data)
	vf.Assert(err == nil, "decoding parameters fails")
	vf.Assert(len(got.Params) == n, "parameters lost or invented")
	for i, p := range got.Params {
		g, err := p.GetUint16()
		v := uint16(i)
		if i == 0 || i == n-1 {
			v = x
		}
		vf.Assert(err == nil && p.ID() == uint32(i), "parameter differs")
		vf.Assert(g == v, "parameter differs")
	}
}

// C16: flags

// bytes: any value, any position from 0 up, set and clear
func vhC16_byte() {
	v, bit, set := vf.Byte(), vf.Range(0, 100), vf.Bool()
	n := v
	SetBitByte(&n, bit, set)
	want := v
	if bit < 8 {
		m := byte(1) << uint(bit)
		want = v &^ m
		if set {
			want = v | m
		}
		vf.Assert(GetBitByte(n, bit) == set, "bit read differs from bit written")
		vf.Assert(GetBitByte(v, bit) == (v&m != 0), "wrong bit read")
	} else {
		vf.Assert(!GetBitByte(v, bit), "a bit out of range reads true")
	}
	vf.Assert(n == want, "another bit changed")
}

// 16-bit values
func vhC16_uint16() {
	v, bit, set := vf.U16(), vf.Range(0, 100), vf.Bool()
	n := v
	SetBitUint16(&n, bit, set)
	want := v
	if bit < 16 {
		m := uint16(1) << uint(bit)
		want = v &^ m
		if set {
			want = v | m
		}
		vf.Assert(GetBitUint16(n, bit) == set, "bit read differs from bit written")
		vf.Assert(GetBitUint16(v, bit) == (v&m != 0), "wrong bit read")
	} else {
		vf.Assert(!GetBitUint16(v, bit), "a bit out of range reads true")
	}
	vf.Assert(n == want, "another bit changed")
}

// 32-bit values
func vhC16_uint32() {
	v, bit, set := vf.U32(), vf.Range(0, 100), vf.Bool()
	n := v
	SetBitUint32(&n, bit, set)
	want := v
	if bit < 32 {
		m := uint32(1) << uint(bit)
		want = v &^ m
		if set {
			want = v | m
		}
		vf.Assert(GetBitUint32(n, bit) == set, "bit read differs from bit written")
		vf.Assert(GetBitUint32(v, bit) == (v&m != 0), "wrong bit read")
	} else {
		vf.Assert(!GetBitUint32(v, bit), "a bit out of range reads true")
	}
	vf.Assert(n == want, "another bit changed")
}

func vhBit(v uint32, bit uint, set bool) uint32 {
	if set {
		return v | 1<<bit
	}
	return v &^ (1 << bit)
}

// any location status through every accessor
func vhC16_status() {
	v, set := vf.U32(), vf.Bool()
	s := T808_0x0200_Status(v)
	vf.Assert(s.GetAccState() == (v&1 != 0), "ignition state is not bit 0")
	vf.Assert(s.Positioning() == (v&2 != 0), "positioning state is not bit 1")
	vf.Assert((s.GetLatitudeType() == SouthLatitudeType) == (v&4 != 0), "latitude type is not bit 2")
	vf.Assert((s.GetLatitudeType() == NorthLatitudeType) == (v&4 == 0), "latitude type is not bit 2")
	vf.Assert((s.GetLongitudeType() == WestLongitudeType) == (v&8 != 0), "longitude type is not bit 3")
	vf.Assert((s.GetLongitudeType() == EastLongitudeType) == (v&8 == 0), "longitude type is not bit 3")
	if vf.Choose(2) == 0 {
		s.SetSouthLatitude(set)
		vf.Assert(uint32(s) == vhBit(v, 2, set), "setting the latitude type changes something else")
	} else {
		s.SetWestLongitude(set)
		vf.Assert(uint32(s) == vhBit(v, 3, set), "setting the longitude type changes something else")
	}
}

// any area attribute through every accessor
func vhC16_area() {
	v, set := vf.U16(), vf.Bool()
	a := AreaAttribute(v)
	vf.Assert((a.GetLatitudeType() == SouthLatitudeType) == (v&64 != 0), "latitude type is not bit 6")
	vf.Assert((a.GetLatitudeType() == NorthLatitudeType) == (v&64 == 0), "latitude type is not bit 6")
	vf.Assert((a.GetLongitudeType() == WestLongitudeType) == (v&128 != 0), "longitude type is not bit 7")
	vf.Assert((a.GetLongitudeType() == EastLongitudeType) == (v&128 == 0), "longitude type is not bit 7")
	bit := uint(0)
	switch vf.Choose(4) {
	case 0:
		bit = 6
		a.SetSouthLatitude(set)
	case 1:
		bit = 7
		a.SetWestLongitude(set)
	case 2:
		bit = 5
		a.SetExitAlarm(set)
	case 3:
		bit = 3
		a.SetEnterAlarm(set)
	}
	vf.Assert(uint16(a) == uint16(vhBit(uint32(v), bit, set)), "an area flag changes another bit")
}

// any section attribute and door flag through every accessor
func vhC16_section() {
	v, set := vf.Byte(), vf.Bool()
	a := T808_0x8606_SectionAttribute(v)
	vf.Assert(a.HasTimeLimit() == (v&1 != 0), "time limit is not bit 0")
	vf.Assert(a.HasSpeedLimit() == (v&2 != 0), "speed limit is not bit 1")
	vf.Assert((a.GetLatitudeType() == SouthLatitudeType) == (v&4 != 0), "latitude type is not bit 2")
	vf.Assert((a.GetLatitudeType() == NorthLatitudeType) == (v&4 == 0), "latitude type is not bit 2")
	vf.Assert((a.GetLongitudeType() == WestLongitudeType) == (v&8 != 0), "longitude type is not bit 3")
	vf.Assert((a.GetLongitudeType() == EastLongitudeType) == (v&8 == 0), "longitude type is not bit 3")
	bit := uint(0)
	switch vf.Choose(5) {
	case 0:
		a.SetTimeLimit(set)
	case 1:
		bit = 1
		a.SetSpeedLimit(set)
	case 2:
		bit = 2
		a.SetSouthLatitude(set)
	case 3:
		bit = 3
		a.SetWestLongitude(set)
	case 4:
		d := T808_0x8500_Flag(v)
		d.SetLock(set)
		a = T808_0x8606_SectionAttribute(d)
	}
	vf.Assert(byte(a) == byte(vhBit(uint32(v), bit, set)), "a section or door flag changes another bit")
}

// any property value: length, encryption and packet parts are independent
func vhC16_property() {
	v, n := vf.U16(), vf.U16()
	p := Property(v)
	vf.Assert(p.GetBodySize() == v&0x3ff, "length is not the low ten bits")
	vf.Assert(p.IsEnableEncrypt() == (v&0x400 != 0), "encryption flag is not bit 10")
	vf.Assert(p.IsEnablePacket() == (v&0x2000 != 0), "packet flag is not bit 13")
	err := p.SetBodySize(n)
	if n > 1023 {
		vf.Assert(err != nil, "a length above 1023 is accepted")
		vf.Assert(uint16(p)&0xfc00 == v&0xfc00, "a refused length changes a flag")
		return
	}
	vf.Assert(err == nil, "a length of at most 1023 is refused")
	vf.Assert(uint16(p) == v&0xfc00|n, "setting the length changes a flag")
	vf.Assert(p.GetBodySize() == n, "length differs")
	// the flags are set by encoding
	h := Header{Property: Property(v)}
	if vf.Choose(2) == 0 {
		h.Packet = &Packet{1, 1}
		_, err := h.Encode()
		vf.Assert(err == nil, "encoding a header fails")
		vf.Assert(uint16(h.Property) == v|0x2000, "setting the packet flag changes something else")
		vf.Assert(h.Property.IsEnablePacket(), "packet flag not set")
		return
	}
	vf.Assume(v&0x2000 == 0)
	key := vf.NewKey(64)
	m := Message{Header: h, Body: &vhRaw{1, []byte{1}}}
	_, err = m.Encode(&key.PublicKey)
	vf.Assert(err == nil, "encoding an encrypted message fails")
	vf.Assert(uint16(m.Header.Property) == v&0xfc00|0x400|64, "setting the encryption flag changes something else")
}

// C17: encryption

// every body length up to three chunks and two bytes (chunks of 6 and 2 bytes)
func vhC17_roundtrip() {
	size := []int{48, 44}[vf.Choose(2)]
	chunk := size - 42
	n := vf.Choose(3*chunk + 3)
	msg := vf.Bytes(n)
	key := vf.NewKey(size)
	in := append([]byte{}, msg...)
	enc, err := EncryptOAEP(sha1.New(), &key.PublicKey, in, nil)
	vf.Assert(err == nil, "encryption fails")
	vf.Assert(vf.Encrypted == (n+chunk-1)/chunk, "data not cut into full chunks")
	vf.Assert(len(enc) == (n+chunk-1)/chunk*size, "ciphertext has the wrong length")
	dec, err := DecryptOAEP(sha1.New(), key, enc, nil)
	vf.Assert(err == nil, "decryption fails")
	vf.Assert(len(dec) == n, "data lost or invented")
	vf.Assert(vf.EqBytes(dec, msg), "decrypted data differs")
}

// a key of 1024 bits (chunks of 86 bytes): lengths around the chunk borders
func vhC17_sizes() {
	n := []int{0, 1, 85, 86, 87, 171, 172, 173, 258, 600}[vf.Choose(10)]
	msg := make([]byte, n)
	for i := range msg {
		msg[i] = byte(i)
	}
	if n > 0 {
		msg[n-1] = vf.Byte()
		msg[0] = vf.Byte()
	}
	key := vf.NewKey(128)
	enc, err := EncryptOAEP(sha1.New(), &key.PublicKey, append([]byte{}, msg...), nil)
	vf.Assert(err == nil, "encryption fails")
	dec, err := DecryptOAEP(sha1.New(), key, enc, nil)
	vf.Assert(err == nil, "decryption fails")
	vf.Assert(len(dec) == n, "data lost or invented")
	vf.Assert(vf.EqBytes(dec, msg), "decrypted data differs")
}

// a message encoded with a key: flagged, and decoded with the key to the same
// body, without it to an error; body of 1-8 bytes, two keys
//
//vf:covers decoded,refused
func vhC17_message() {
	n := 1 + vf.Choose(8)
	body := &T808_0x0900{Type: vf.Byte(), Data: vf.Bytes(n - 1)}
	key, other := vf.NewKey(48), vf.NewKey(48)
	m := Message{Header: Header{IccID: 7, MsgSerialNo: 5}, Body: body}
	if vf.Choose(2) == 1 {
		m.Header.Packet = &Packet{2, 1}
	}
	data, err := m.Encode(&key.PublicKey)
	vf.Assert(err == nil, "encoding an encrypted message fails")
	vf.Assert(vf.Encrypted > 0, "body not encrypted")
	p := vhParse(data)
	vf.Assert(p.ok, "malformed frame")
	vf.Assert(p.prop&0x400 != 0, "encryption flag not set")
	vf.Assert(int(p.prop&0x3ff) == (n+5)/6*48, "length field is not that of the ciphertext")
	var got Message
	switch vf.Choose(4) {
	case 0:
		vf.Cover("decoded")
		err = got.Decode(data, key)
		vf.Assert(err == nil, "decoding an encrypted message fails")
		vf.Assert(got.Body != nil, "body of an encrypted message lost")
		vf.Assert(vf.Equal(got.Body, body), "body of an encrypted message differs")
		return
	case 1:
		err = got.Decode(data)
	case 2:
		err = got.Decode(data, nil)
	case 3:
		err = got.Decode(data, other)
	}
	vf.Cover("refused")
	vf.Assert(err != nil, "an encrypted message is accepted without its key")
	vf.Assert(got.Body == nil, "an encrypted message yields a body without its key")
}

// ciphertext of two chunks with any one byte changed, or cut anywhere: an error, no body
func vhC17_damaged() {
	key := vf.NewKey(48)
	c := append(vf.Sealed(&key.PublicKey, []byte{1, 2, 3, 4, 5, 6}), vf.Sealed(&key.PublicKey, []byte{7, 8})...)
	if vf.Choose(2) == 0 {
		at := vf.Choose(len(c))
		b := vf.Byte()
		vf.Assume(b != c[at])
		// never turned into the other chunk's first byte (that is a replay, not damage)
		vf.Assume(!vf.And(at%48 == 0, b == 3))
		vf.Assume(!vf.And(at%48 == 0, vf.Or(b == 1, b == 2)))
		c[at] = b
	} else {
		n := vf.Choose(len(c))
		vf.Assume(n != 0 && n != 48)
		c = c[:n]
	}
	dec, err := DecryptOAEP(sha1.New(), key, append([]byte{}, c...), nil)
	vf.Assert(err != nil, "damaged ciphertext is decrypted")
	_ = dec
	var w vhW
	w.u16(0x0900)
	w.u16(0x400 | uint16(len(c)))
	w.raw([]byte{0, 0, 0, 0, 0, 1, 0, 1})
	w.raw(c)
	var got Message
	err = got.Decode(vhFrame(w.b), key)
	vf.Assert(err != nil, "a message with damaged ciphertext is accepted")
	vf.Assert(got.Body == nil, "a message with damaged ciphertext yields a body")
}

// encryption failing at any chunk: an error, no frame
func vhC17_fails() {
	vf.CryptFails = true
	key := vf.NewKey(48)
	n := 1 + vf.Choose(13)
	m := Message{Header: Header{IccID: 7, MsgSerialNo: 5}, Body: &T808_0x0900{Type: 1, Data: make([]byte, n-1)}}
	_, err := m.Encode(&key.PublicKey)
	if err != nil {
		return
	}
	vf.Assert(vf.Encrypted == (n+5)/6, "a chunk that failed to encrypt was left out")
}

// a message without the encryption flag is decoded as it is, key or not
func vhC17_plain() {
	key := vf.NewKey(48)
	body := &T808_0x0900{Type: vf.Byte(), Data: vf.Bytes(vf.Choose(3))}
	m := Message{Header: Header{IccID: 7, MsgSerialNo: 5}, Body: body}
	var data []byte
	var err error
	if vf.Choose(2) == 0 {
		data, err = m.Encode()
	} else {
		data, err = m.Encode((*rsa.PublicKey)(nil))
	}
	vf.Assert(err == nil, "encoding fails")
	vf.Assert(!m.Header.Property.IsEnableEncrypt(), "encryption flag without a key")
	var got Message
	vf.Assert(got.Decode(data, key) == nil, "decoding a plain message fails")
	vf.Assert(vf.Equal(got.Body, body), "plain body differs")
}

// C27: compressed and media payloads

// payloads of 0-4 (thorough 0-6) bytes
func vhC27_gzip() {
	n := vhCount(4, 6)
	msg := vf.Bytes(n)
	e := &T808_0x0901{Uncompressed: append([]byte{}, msg...)}
	data, err := e.Encode()
	vf.Assert(err == nil, "encoding a compressed report fails")
	z := vf.Gzipped(msg)
	vf.Assert(len(data) == len(z)+4, "compressed report has the wrong length")
	vf.Assert(vf.EqBytes(data, append([]byte{0, 0, 0, byte(len(z))}, z...)), "compressed report is not the length and the compressed data")
	var got T808_0x0901
	c, err := got.Decode(data)
	vf.Assert(err == nil, "decoding a compressed report fails")
	vf.Assert(c == len(data), "a part of the compressed report is not consumed")
	vf.Assert(len(got.Uncompressed) == n, "compressed report has another length")
	vf.Assert(vf.EqBytes(got.Uncompressed, msg), "compressed report differs")
}

// payloads of 255, 256, 257, 512, 1000, 5000 and 70000 bytes
func vhC27_large() {
	n := []int{255, 256, 257, 512, 1000, 5000, 70000}[vf.Choose(7)]
	msg := vhFill(n)
	z := vf.Gzipped(msg)
	var w vhW
	w.u32(uint32(len(z)))
	w.raw(z)
	data, err := (&T808_0x0901{Uncompressed: msg}).Encode()
	vf.Assert(err == nil, "encoding a compressed report fails")
	vf.Assert(vf.EqBytes(data, w.b), "compressed report is not the length and the compressed data")
	var got T808_0x0901
	_, err = got.Decode(w.b)
	vf.Assert(err == nil, "decoding a compressed report fails")
	vf.Assert(len(got.Uncompressed) == n, "compressed report has another length")
	vf.Assert(vf.EqBytes(got.Uncompressed, msg), "compressed report differs")
}

// damage: compressed data cut at any place, its declared size too large by any
// amount, or any byte changed
//
//vf:covers cut,size,byte
func vhC27_damage() {
	msg := []byte{1, 2, 3}
	z := vf.Gzipped(msg)
	size := uint32(len(z))
	switch vf.Choose(3) {
	case 0:
		vf.Cover("cut")
		z = z[:vf.Choose(len(z))]
		size = uint32(len(z))
	case 1:
		vf.Cover("size")
		size = vf.U32()
		vf.Assume(size > uint32(len(z)))
	case 2:
		vf.Cover("byte")
		at := vf.Choose(len(z))
		vf.Assume(at != 3) // the flag byte of the ideal format carries nothing
		b := vf.Byte()
		vf.Assume(b != z[at])
		z[at] = b
	}
	var w vhW
	w.u32(size)
	w.raw(z)
	var e T808_0x0901
	_, err := e.Decode(w.b)
	vf.Assert(err != nil, "damaged compressed data is accepted")
	var f vhW
	f.u16(0x0901)
	f.u16(uint16(len(w.b)))
	f.raw([]byte{0, 0, 0, 0, 0, 1, 0, 1})
	f.raw(w.b)
	var got Message
	got.Decode(vhFrame(f.b))
	vf.Assert(got.Body == nil, "damaged compressed data is delivered partially")
}

// bodies of 0-3 bytes
func vhC27_short() {
	var got T808_0x0901
	_, err := got.Decode(vf.Bytes(vf.Choose(4)))
	vf.Assert(err != nil, "a compressed report without a size is accepted")
}

// media payloads of 0-4 (thorough 0-8) bytes and of 100, 963 and 987 bytes, through a whole frame
func vhC27_media() {
	n := vhCount(4, 8)
	payload := vf.Bytes(n)
	if k := vf.Choose(4); k > 0 {
		vf.Assume(n == 0)
		payload = vhFill([]int{0, 100, 963, 987}[k])
	}
	loc, lw := vhLoc1()
	e, wire := vhMk0801(loc, lw, payload)
	e.MediaID, e.Type, e.Coding, e.Event, e.ChannelID = 0x7e7d, 1, 2, 3, 4
	m := Message{Header: Header{IccID: 1, MsgSerialNo: 1}, Body: e}
	if vf.Choose(2) == 1 {
		m.Header.Packet = &Packet{3, 1}
	}
	data, err := m.Encode()
	vf.Assert(err == nil, "encoding a media message fails")
	var got Message
	vf.Assert(got.Decode(data) == nil, "decoding a media message fails")
	g, ok := got.Body.(*T808_0x0801)
	vf.Assert(ok, "media message lost")
	rest, err := ioutil.ReadAll(g.GetReader())
	vf.Assert(err == nil, "media payload cannot be read")
	vf.Assert(len(rest) == len(payload), "media payload has another length")
	vf.Assert(vf.EqBytes(rest, payload), "media payload differs")
	vf.Assert(int(got.Header.Property.GetBodySize()) == len(wire), "media message has the wrong length")
}

// media messages with any media id, type, coding, event and channel, payload of
// 0-4 (thorough 0-8) arbitrary bytes
func vhC27_fields() {
	payload := vf.Bytes(vhCount(4, 8))
	loc, lw := vhLoc1()
	e, wire := vhMk0801(loc, lw, payload)
	got := new(T808_0x0801)
	vf.Assert(got.DecodePacket(wire) == nil, "decoding a media message fails")
	rest, err := ioutil.ReadAll(got.GetReader())
	vf.Assert(err == nil, "media payload cannot be read")
	vf.Assert(len(rest) == len(payload), "media payload has another length")
	vf.Assert(vf.EqBytes(rest, payload), "media payload differs")
	data, err := e.Encode()
	vf.Assert(err == nil, "encoding a media message fails")
	vf.Assert(vf.EqBytes(data, wire), "media payload is not sent as it is")
}

// C07, C08: what the generated harnesses leave out

// bodies without fields
func vhC07_empty() {
	e := []Entity{&T808_0x0002{}, &T808_0x0003{}}[vf.Choose(2)]
	vhLayout(vhEmpty(e))
	_, err := e.Decode(nil)
	vf.Assert(err == nil, "decoding an empty body fails")
}

// bodies without fields
func vhC08_empty() {
	e := []Entity{&T808_0x8104{}, &T808_0x8107{}, &T808_0x8201{}, &T808_0x8702{}}[vf.Choose(4)]
	vhLayout(vhEmpty(e))
	_, err := e.Decode(nil)
	vf.Assert(err == nil, "decoding an empty body fails")
}

// media data: any fields, payload of 0-3 bytes, fixed location
func vhC07_0801() {
	loc, lw := vhLoc1()
	payload := vf.Bytes(vhCount(3, 6))
	e, wire := vhMk0801(loc, lw, payload)
	d, err := e.Encode()
	vf.Assert(err == nil, "encoding a media message fails")
	vf.Assert(len(d) == len(wire), "media message has the wrong length")
	vf.Assert(vf.EqBytes(d, wire), "media message differs from the documented layout")
	e2 := *e
	e2.SetReader(nil)
	var got T808_0x0801
	n, err := got.Decode(d)
	vf.Assert(err == nil, "decoding a media message fails")
	vf.Assert(n == 36, "the fixed part is not 36 bytes")
	vf.Assert(got.GetTag() == e.MediaID, "the tag is not the media id")
	got.Packet = nil
	vf.Assert(vf.Equal(&got, &e2), "media message differs")
}

// a media search reply, batch upload, query reply and control reply around a
// location with fixed coordinates, any alarm word and 0-1 extras of any kind
// (batches of 0-3 with extras on any of them)
func vhC07_location() {
	loc, _ := vhLoc1()
	loc2 := loc
	loc2.Alarm = vf.U32()
	with := func(l T808_0x0200) T808_0x0200 {
		if vf.Choose(2) == 1 {
			x := extra.NewExtra_0x01(vf.U32())
			l.Extras = []extra.Entity{x}
		}
		return l
	}
	switch vf.Choose(4) {
	case 0:
		c := &T808_0x0201{vf.U16(), with(loc2)}
		vhRoundTrip(vhCase{c, c, nil}, new(T808_0x0201))
	case 1:
		c := &T808_0x0500{vf.U16(), with(loc2)}
		vhRoundTrip(vhCase{c, c, nil}, new(T808_0x0500))
	case 2:
		c := &T808_0x0704{Type: vf.Byte(), Items: []T808_0x0200{with(loc2), with(loc), with(loc2)}[:vf.Choose(4)]}
		if len(c.Items) == 0 {
			c.Items = nil
		}
		vhRoundTrip(vhCase{c, c, nil}, new(T808_0x0704))
	case 3:
		it := T808_0x0802_Item{MediaID: vf.U32(), Type: T808_0x0800_MediaType(vf.Byte()), ChannelID: vf.Byte(), Event: vf.Byte(), Location: loc2}
		c := &T808_0x0802{ReplyMsgSerialNo: vf.U16(), Items: []T808_0x0802_Item{it, {MediaID: 3, Location: loc}, it}[:vf.Choose(4)]}
		if len(c.Items) == 0 {
			c.Items = nil
		}
		vhRoundTrip(vhCase{c, c, nil}, new(T808_0x0802))
	}
}

// vhRSA: a 1024-bit modulus: sixteen symbolic bytes spread over it, the others fixed
func vhRSA() (*rsa.PublicKey, []byte) {
	n := make([]byte, 128)
	for i := range n {
		n[i] = byte(i*7 + 1)
		if i%8 == 0 {
			n[i] = vf.Byte()
		}
	}
	vf.Assume(n[0] >= 128)
	e := vf.Range(1, 1<<31-1)
	w := vhW{}
	w.u32(uint32(e))
	w.raw(n)
	return &rsa.PublicKey{N: new(big.Int).SetBytes(n), E: e}, w.b
}

// terminal RSA key: any exponent below 2^31, moduli of 1024 bits with sixteen symbolic bytes
func vhC07_0A00() {
	k, wire := vhRSA()
	e := &T808_0x0A00{PublicKey: k}
	data, err := e.Encode()
	vf.Assert(err == nil, "encoding an RSA key fails")
	vf.Assert(len(data) == 132, "RSA key message has the wrong length")
	vf.Assert(vf.EqBytes(data, wire), "RSA key message differs from the documented layout")
	var got T808_0x0A00
	_, err = got.Decode(data)
	vf.Assert(err == nil, "decoding an RSA key fails")
	vf.Assert(got.PublicKey.E == k.E, "RSA exponent differs")
	vf.Assert(vf.EqBytes(got.PublicKey.N.Bytes(), wire[4:]), "RSA modulus differs")
}

// platform RSA key
func vhC08_8A00() {
	k, wire := vhRSA()
	e := &T808_0x8A00{PublicKey: k}
	data, err := e.Encode()
	vf.Assert(err == nil, "encoding an RSA key fails")
	vf.Assert(len(data) == 132, "RSA key message has the wrong length")
	vf.Assert(vf.EqBytes(data, wire), "RSA key message differs from the documented layout")
	var got T808_0x8A00
	_, err = got.Decode(data)
	vf.Assert(err == nil, "decoding an RSA key fails")
	vf.Assert(got.PublicKey.E == k.E, "RSA exponent differs")
	vf.Assert(vf.EqBytes(got.PublicKey.N.Bytes(), wire[4:]), "RSA modulus differs")
}

// keys of the wrong size are refused
func vhC07_badKey() {
	n := make([]byte, []int{64, 127, 129, 256}[vf.Choose(4)])
	n[0] = 0xff
	k := &rsa.PublicKey{N: new(big.Int).SetBytes(n), E: 3}
	_, err := (&T808_0x0A00{PublicKey: k}).Encode()
	vf.Assert(err != nil, "a key that is not 1024 bits is encoded")
	_, err = (&T808_0x8A00{PublicKey: k}).Encode()
	vf.Assert(err != nil, "a key that is not 1024 bits is encoded")
}

// long lists: 127, 128, 255 elements behind a one-byte count, 255, 256, 300 behind a two-byte one
func vhC07_long() {
	x := vf.U32()
	switch vf.Choose(3) {
	case 0:
		n := []int{127, 128, 255, 256, 300}[vf.Choose(5)]
		c := &T808_0x0805{ReplyMsgSerialNo: 9}
		for i := 0; i < n; i++ {
			c.MediaIDs = append(c.MediaIDs, x+uint32(i))
		}
		vhRoundTrip(vhCase{c, c, nil}, new(T808_0x0805))
	case 1:
		n := []int{127, 128, 255, 256}[vf.Choose(4)]
		c := &T808_0x0705{ReceiveTime: time.Second}
		for i := 0; i < n; i++ {
			var it T808_0x0705_CAN
			it.ID[3], it.Data[0], it.Data[7] = byte(i), byte(x), byte(i>>8)
			c.Items = append(c.Items, it)
		}
		vhRoundTrip(vhCase{c, c, nil}, new(T808_0x0705))
	case 2:
		n := []int{127, 128, 255, 256, 600}[vf.Choose(5)]
		c := &T808_0x0900{Type: byte(x), Data: vhFill(n)}
		vhRoundTrip(vhCase{c, c, nil}, new(T808_0x0900))
	}
}

// long lists: 127, 128 and 255 ids
func vhC08_long() {
	x := vf.U32()
	n := []int{127, 128, 255}[vf.Choose(3)]
	var ids []uint32
	var ids16 []uint16
	for i := 0; i < n; i++ {
		ids = append(ids, x+uint32(i))
		ids16 = append(ids16, uint16(x)+uint16(i))
	}
	switch vf.Choose(8) {
	case 0:
		c := &T808_0x8003{MsgSerialNo: 1, PacketIDs: ids16}
		vhRoundTrip(vhCase{c, c, nil}, new(T808_0x8003))
	case 1:
		c := &T808_0x8106{ids}
		vhRoundTrip(vhCase{c, c, nil}, new(T808_0x8106))
	case 2:
		c := &T808_0x8601{ids}
		vhRoundTrip(vhCase{c, c, nil}, new(T808_0x8601))
	case 3:
		c := &T808_0x8603{ids}
		vhRoundTrip(vhCase{c, c, nil}, new(T808_0x8603))
	case 4:
		c := &T808_0x8605{ids}
		vhRoundTrip(vhCase{c, c, nil}, new(T808_0x8605))
	case 5:
		c := &T808_0x8607{ids}
		vhRoundTrip(vhCase{c, c, nil}, new(T808_0x8607))
	case 6:
		c := &T808_0x8800{MediaID: 1, RetryIDs: ids16}
		vhRoundTrip(vhCase{c, c, nil}, new(T808_0x8800))
	case 7:
		c := &T808_0x8108{ManufactureID: "ABCDE", Version: "v", Size: uint32(n), Data: vhFill(n)}
		vhRoundTrip(vhCase{c, c, nil}, new(T808_0x8108))
	}
}

// long lists of texts: 127, 128 and 255 events, menu entries, contacts and
// answers, the last one with a symbolic number
func vhC08_texts() {
	x := vf.Byte()
	n := []int{127, 128, 255}[vf.Choose(3)]
	s := []string{"a", "中", ""}
	id := func(i int) byte {
		if i == n-1 {
			return x
		}
		return byte(i)
	}
	switch vf.Choose(4) {
	case 0:
		c := &T808_0x8301{}
		for i := 0; i < n; i++ {
			c.Events = append(c.Events, T808_0x8301_Event{id(i), s[i%3]})
		}
		vhRoundTrip(vhCase{c, c, nil}, new(T808_0x8301))
	case 1:
		c := &T808_0x8303{}
		for i := 0; i < n; i++ {
			c.Items = append(c.Items, T808_0x8303_Item{s[i%3]})
		}
		vhRoundTrip(vhCase{c, c, nil}, new(T808_0x8303))
	case 2:
		c := &T808_0x8401{}
		for i := 0; i < n; i++ {
			c.Contacts = append(c.Contacts, T808_0x8401_Contact{T808_0x8401_ContactFlag(id(i)), "1", s[i%3]})
		}
		vhRoundTrip(vhCase{c, c, nil}, new(T808_0x8401))
	case 3:
		c := &T808_0x8302{Question: "?"}
		for i := 0; i < n; i++ {
			c.CandidateAnswers = append(c.CandidateAnswers, T808_0x8302_Answer{id(i), s[i%3]})
		}
		vhRoundTrip(vhCase{c, c, nil}, new(T808_0x8302))
	}
}
