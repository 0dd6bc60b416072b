package protocol

import (
	"time"

	vf "gitee.com/coco/go808/zzvf"
)

func vhEmpty(e Entity) vhCase { return vhCase{e, e, nil} }

func vhMk0001() vhCase {
	e := &T808_0x0001{vf.U16(), vf.U16(), Result(vf.Byte())}
	var w vhW
	w.u16(e.ReplyMsgSerialNo)
	w.u16(e.ReplyMsgID)
	w.u8(byte(e.Result))
	return vhCase{e, e, w.b}
}

func vhMk0100() vhCase {
	lic, enc := vhText(3)
	e := &T808_0x0100{ProvinceID: vf.U16(), CityID: vf.U16(), PlateColor: vf.Byte(), LicenseNo: lic}
	switch vf.Choose(3) {
	case 0:
		e.ManufactureID, e.Model, e.TerminalID = vhASCII(5), vhASCII(20), vhASCII(7)
	case 1:
		e.ManufactureID, e.Model, e.TerminalID = vhASCII(3), vhASCII(9), vhASCII(6)
	}
	var w vhW
	w.u16(e.ProvinceID)
	w.u16(e.CityID)
	w.fix([]byte(e.ManufactureID), 5)
	w.fix([]byte(e.Model), 20)
	w.fix([]byte(e.TerminalID), 7)
	w.u8(e.PlateColor)
	w.raw(enc)
	return vhCase{e, e, w.b}
}

func vhMk0102() vhCase {
	key, enc := vhTextForm(vf.Choose(4), 3)
	e := &T808_0x0102{AuthKey: key}
	return vhCase{e, e, enc}
}

// vhParam: a parameter of any of the five kinds, with its value bytes
func vhParam() (*Param, uint32, []byte) {
	p, id := new(Param), vf.U32()
	switch vf.Choose(5) {
	case 0:
		v := vf.Byte()
		return p.SetByte(id, v), id, []byte{v}
	case 1:
		v := vf.U16()
		return p.SetUint16(id, v), id, []byte{byte(v >> 8), byte(v)}
	case 2:
		v := vf.U32()
		return p.SetUint32(id, v), id, []byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)}
	case 3:
		v := vf.Bytes(vf.Choose(4))
		return p.SetBytes(id, v), id, append([]byte{}, v...)
	}
	s, enc := vhText(2)
	return p.SetString(id, s), id, enc
}

func vhParams(w *vhW) []*Param {
	var ps []*Param
	n := vhCount(2, 3)
	if n == 0 && vf.Choose(2) == 1 {
		ps = []*Param{}
	}
	w.u8(byte(n))
	for i := 0; i < n; i++ {
		p, id, val := vhParam()
		w.u32(id)
		w.u8(byte(len(val)))
		w.raw(val)
		ps = append(ps, p)
	}
	return ps
}

func vhMk0104() vhCase {
	e := &T808_0x0104{ReplyMsgSerialNo: vf.U16()}
	var w vhW
	w.u16(e.ReplyMsgSerialNo)
	e.Params = vhParams(&w)
	return vhCase{e, e, w.b}
}

func vhMk0107() vhCase {
	e := &T808_0x0107{TerminalType: vf.U16(), GNSSProperty: vf.Byte(), COMMProperty: vf.Byte()}
	switch vf.Choose(3) {
	case 0:
		e.ManufactureID, e.Model, e.TerminalID = vhASCII(5), vhASCII(20), vhASCII(7)
		e.HardwareVersion, e.SoftwareVersion = vhASCII(4), vhASCII(2)
	case 1:
		e.ManufactureID, e.Model, e.TerminalID = vhASCII(4), vhASCII(19), vhASCII(1)
		e.HardwareVersion, e.SoftwareVersion = vhASCII(1), vhASCII(5)
	}
	// a SIM number: one to twenty digits, the first not zero
	n := []int{1, 2, 11, 19, 20}[vf.Choose(5)]
	sim := make([]byte, n)
	bcd := make([]byte, 10)
	for i := 0; i < n; i++ {
		d := vf.Range(0, 9)
		if i == 0 {
			vf.Assume(d > 0)
		}
		sim[i] = byte('0' + d)
		at := 20 - n + i
		if at%2 == 0 {
			bcd[at/2] |= byte(d << 4)
		} else {
			bcd[at/2] |= byte(d)
		}
	}
	e.Sim = string(sim)
	var w vhW
	w.u16(e.TerminalType)
	w.fix([]byte(e.ManufactureID), 5)
	w.fix([]byte(e.Model), 20)
	w.fix([]byte(e.TerminalID), 7)
	w.raw(bcd)
	w.u8(byte(len(e.HardwareVersion)))
	w.raw([]byte(e.HardwareVersion))
	w.u8(byte(len(e.SoftwareVersion)))
	w.raw([]byte(e.SoftwareVersion))
	w.u8(e.GNSSProperty)
	w.u8(e.COMMProperty)
	return vhCase{e, e, w.b}
}

func vhMk0108() vhCase {
	e := &T808_0x0108{vf.Byte(), vf.Byte()}
	return vhCase{e, e, []byte{e.Type, e.Result}}
}

func vhMk0301() vhCase {
	e := &T808_0x0301{vf.Byte()}
	return vhCase{e, e, []byte{e.EventID}}
}

func vhMk0302() vhCase {
	e := &T808_0x0302{vf.U16(), vf.Byte()}
	var w vhW
	w.u16(e.ReplyMsgSerialNo)
	w.u8(e.AnswerID)
	return vhCase{e, e, w.b}
}

func vhMk0303() vhCase {
	e := &T808_0x0303{vf.Byte(), T808_0x0303_Flag(vf.Byte())}
	return vhCase{e, e, []byte{e.Type, byte(e.Flag)}}
}

func vhMk0700() vhCase {
	e := &T808_0x0700{vf.U16(), vf.Byte(), vf.Bytes(vhCount(3, 8))}
	var w vhW
	w.u16(e.ReplyMsgSerialNo)
	w.u8(e.Cmd)
	w.raw(e.Data)
	return vhCase{e, e, w.b}
}

func vhMk0701() vhCase {
	e := &T808_0x0701{vf.U32(), vf.Bytes(vhCount(3, 8))}
	var w vhW
	w.u32(e.Size)
	w.raw(e.Content)
	return vhCase{e, e, w.b}
}

func vhMk0702() vhCase {
	t, bcd := vhTime()
	name, nameEnc := vhText(2)
	num := []string{"", vhASCIIText(20), vhASCIIText(4)}[vf.Choose(3)]
	comp, compEnc := vhShort(2)
	y, mo, d := vf.Range(0, 99), vf.Range(1, 12), vf.Range(1, 31)
	vf.Assume(vhDateOK(y, mo, d))
	e := &T808_0x0702{State: vf.Byte(), Time: t, ICCardResult: vf.Byte(), DriverName: name, Number: num, CompanyName: comp,
		ExpiryDate: time.Date(2000+y, time.Month(mo), d, 0, 0, 0, 0, time.Local)}
	var w vhW
	w.u8(e.State)
	w.raw(bcd)
	w.u8(e.ICCardResult)
	w.u8(byte(len(nameEnc)))
	w.raw(nameEnc)
	w.fix([]byte(num), 20)
	w.u8(byte(len(compEnc)))
	w.raw(compEnc)
	w.raw([]byte{0x20, vhBcd(y), vhBcd(mo), vhBcd(d)})
	return vhCase{e, e, w.b}
}

func vhASCIIText(n int) string {
	s, _ := vhTextForm(0, n)
	return s
}

func vhMk0705() vhCase {
	h, mi, s, ms := vf.Range(0, 23), vf.Range(0, 59), vf.Range(0, 59), vf.Range(0, 999)
	e := &T808_0x0705{ReceiveTime: time.Duration(h)*time.Hour + time.Duration(mi)*time.Minute + time.Duration(s)*time.Second + time.Duration(ms)*time.Millisecond}
	n := vhCount(2, 3)
	if n == 0 && vf.Choose(2) == 1 {
		e.Items = []T808_0x0705_CAN{}
	}
	var w vhW
	w.u16(uint16(n))
	w.raw([]byte{vhBcd(h), vhBcd(mi), vhBcd(s), vhBcd(ms / 100), vhBcd(ms % 100)})
	for i := 0; i < n; i++ {
		var c T808_0x0705_CAN
		copy(c.ID[:], vf.Bytes(4))
		copy(c.Data[:], vf.Bytes(8))
		w.raw(c.ID[:])
		w.raw(c.Data[:])
		e.Items = append(e.Items, c)
	}
	return vhCase{e, e, w.b}
}

func vhMk0800() vhCase {
	e := &T808_0x0800{vf.U32(), T808_0x0800_MediaType(vf.Byte()), T808_0x0800_MediaCoding(vf.Byte()), vf.Byte(), vf.Byte()}
	var w vhW
	w.u32(e.MediaID)
	w.raw([]byte{byte(e.Type), byte(e.Coding), e.Event, e.ChannelID})
	return vhCase{e, e, w.b}
}

func vhMk0805() vhCase {
	e := &T808_0x0805{ReplyMsgSerialNo: vf.U16(), Result: T808_0x0805_Result(vf.Byte())}
	n := vhCount(3, 5)
	if n == 0 && vf.Choose(2) == 1 {
		e.MediaIDs = []uint32{}
	}
	var w vhW
	w.u16(e.ReplyMsgSerialNo)
	w.u8(byte(e.Result))
	w.u16(uint16(n))
	for i := 0; i < n; i++ {
		id := vf.U32()
		w.u32(id)
		e.MediaIDs = append(e.MediaIDs, id)
	}
	return vhCase{e, e, w.b}
}

func vhMk0900() vhCase {
	e := &T808_0x0900{vf.Byte(), vf.Bytes(vhCount(3, 8))}
	return vhCase{e, e, append([]byte{e.Type}, e.Data...)}
}

func vhMk8001() vhCase {
	e := &T808_0x8001{vf.U16(), MsgID(vf.U16()), Result(vf.Byte())}
	var w vhW
	w.u16(e.ReplyMsgSerialNo)
	w.u16(uint16(e.ReplyMsgID))
	w.u8(byte(e.Result))
	return vhCase{e, e, w.b}
}

func vhMk8003() vhCase {
	e := &T808_0x8003{MsgSerialNo: vf.U16()}
	n := vhCount(3, 5)
	if n == 0 && vf.Choose(2) == 1 {
		e.PacketIDs = []uint16{}
	}
	var w vhW
	w.u16(e.MsgSerialNo)
	w.u8(byte(n))
	for i := 0; i < n; i++ {
		id := vf.U16()
		w.u16(id)
		e.PacketIDs = append(e.PacketIDs, id)
	}
	return vhCase{e, e, w.b}
}

func vhMk8100() vhCase {
	key, enc := vhText(3)
	e := &T808_0x8100{vf.U16(), T808_0x8100_Result(vf.Byte()), key}
	var w vhW
	w.u16(e.MsgSerialNo)
	w.u8(byte(e.Result))
	w.raw(enc)
	return vhCase{e, e, w.b}
}

func vhMk8103() vhCase {
	e := &T808_0x8103{}
	var w vhW
	e.Params = vhParams(&w)
	return vhCase{e, e, w.b}
}

func vhMk8105() vhCase {
	s, enc := vhText(3)
	e := &T808_0x8105{T808_0x8105_Command(vf.Byte()), s}
	return vhCase{e, e, append([]byte{byte(e.Cmd)}, enc...)}
}

// vhIDs: up to three (five) 32-bit ids behind a one-byte count
func vhIDs(w *vhW) []uint32 {
	var ids []uint32
	n := vhCount(3, 5)
	if n == 0 && vf.Choose(2) == 1 {
		ids = []uint32{}
	}
	w.u8(byte(n))
	for i := 0; i < n; i++ {
		id := vf.U32()
		w.u32(id)
		ids = append(ids, id)
	}
	return ids
}

func vhMk8106() vhCase {
	var w vhW
	e := &T808_0x8106{vhIDs(&w)}
	return vhCase{e, e, w.b}
}

func vhMk8601() vhCase {
	var w vhW
	e := &T808_0x8601{vhIDs(&w)}
	return vhCase{e, e, w.b}
}

func vhMk8603() vhCase {
	var w vhW
	e := &T808_0x8603{vhIDs(&w)}
	return vhCase{e, e, w.b}
}

func vhMk8605() vhCase {
	var w vhW
	e := &T808_0x8605{vhIDs(&w)}
	return vhCase{e, e, w.b}
}

func vhMk8607() vhCase {
	var w vhW
	e := &T808_0x8607{vhIDs(&w)}
	return vhCase{e, e, w.b}
}

func vhMk8108() vhCase {
	ver, enc := vhText(2)
	e := &T808_0x8108{Type: vf.Byte(), ManufactureID: vhASCII(5, 0, 3), Version: ver, Size: vf.U32(), Data: vf.Bytes(vhCount(3, 6))}
	var w vhW
	w.u8(e.Type)
	w.fix([]byte(e.ManufactureID), 5)
	w.u8(byte(len(enc)))
	w.raw(enc)
	w.u32(e.Size)
	w.raw(e.Data)
	return vhCase{e, e, w.b}
}

func vhMk8202() vhCase {
	e := &T808_0x8202{vf.U16(), vf.U32()}
	var w vhW
	w.u16(e.Interval)
	w.u32(e.Expire)
	return vhCase{e, e, w.b}
}

func vhMk8203() vhCase {
	e := &T808_0x8203{vf.U16(), vf.U32()}
	var w vhW
	w.u16(e.MsgSerialNo)
	w.u32(e.Type)
	return vhCase{e, e, w.b}
}

func vhMk8300() vhCase {
	s, enc := vhText(3)
	e := &T808_0x8300{vf.Byte(), s}
	return vhCase{e, e, append([]byte{e.Flag}, enc...)}
}

func vhMk8301() vhCase {
	e := &T808_0x8301{Type: vf.Byte()}
	n := vhCount(2, 3)
	if n == 0 && vf.Choose(2) == 1 {
		e.Events = []T808_0x8301_Event{}
	}
	w := vhW{[]byte{e.Type, byte(n)}}
	for i := 0; i < n; i++ {
		s, enc := vhText(2)
		ev := T808_0x8301_Event{vf.Byte(), s}
		w.u8(ev.ID)
		w.u8(byte(len(enc)))
		w.raw(enc)
		e.Events = append(e.Events, ev)
	}
	return vhCase{e, e, w.b}
}

func vhMk8302() vhCase {
	q, qenc := vhText(2)
	e := &T808_0x8302{Flag: vf.Byte(), Question: q}
	n := vhCount(2, 3)
	if n == 0 && vf.Choose(2) == 1 {
		e.CandidateAnswers = []T808_0x8302_Answer{}
	}
	w := vhW{[]byte{e.Flag, byte(len(qenc))}}
	w.raw(qenc)
	for i := 0; i < n; i++ {
		s, enc := vhText(2)
		a := T808_0x8302_Answer{vf.Byte(), s}
		w.u8(a.ID)
		w.u8(byte(len(enc)))
		w.raw(enc)
		e.CandidateAnswers = append(e.CandidateAnswers, a)
	}
	return vhCase{e, e, w.b}
}

func vhMk8303() vhCase {
	e := &T808_0x8303{Type: T808_0x8303_Type(vf.Byte())}
	n := vhCount(2, 3)
	if n == 0 && vf.Choose(2) == 1 {
		e.Items = []T808_0x8303_Item{}
	}
	w := vhW{[]byte{byte(e.Type), byte(n)}}
	for i := 0; i < n; i++ {
		s, enc := vhText(2)
		w.u16(uint16(len(enc)))
		w.raw(enc)
		e.Items = append(e.Items, T808_0x8303_Item{s})
	}
	return vhCase{e, e, w.b}
}

func vhMk8304() vhCase {
	s, enc := vhText(3)
	e := &T808_0x8304{vf.Byte(), s}
	w := vhW{[]byte{e.Type}}
	w.u16(uint16(len(enc)))
	w.raw(enc)
	return vhCase{e, e, w.b}
}

func vhMk8400() vhCase {
	s, enc := vhText(3)
	e := &T808_0x8400{T808_0x8400_Flag(vf.Byte()), s}
	return vhCase{e, e, append([]byte{byte(e.Flag)}, enc...)}
}

func vhMk8401() vhCase {
	e := &T808_0x8401{Type: T808_0x8401_Type(vf.Byte())}
	n := vhCount(2, 2)
	if n == 0 && vf.Choose(2) == 1 {
		e.Contacts = []T808_0x8401_Contact{}
	}
	w := vhW{[]byte{byte(e.Type), byte(n)}}
	for i := 0; i < n; i++ {
		num, nenc := vhTextForm(0, 2*vf.Choose(2))
		s, enc := vhText(2)
		c := T808_0x8401_Contact{T808_0x8401_ContactFlag(vf.Byte()), num, s}
		w.u8(byte(c.Flag))
		w.u8(byte(len(nenc)))
		w.raw(nenc)
		w.u8(byte(len(enc)))
		w.raw(enc)
		e.Contacts = append(e.Contacts, c)
	}
	return vhCase{e, e, w.b}
}

func vhMk8500() vhCase {
	e := &T808_0x8500{T808_0x8500_Flag(vf.Byte())}
	return vhCase{e, e, []byte{byte(e.Flag)}}
}

func vhMk8700() vhCase {
	e := &T808_0x8700{vf.Byte(), vf.Bytes(vhCount(3, 8))}
	return vhCase{e, e, append([]byte{e.Cmd}, e.Data...)}
}

func vhMk8701() vhCase {
	e := &T808_0x8701{vf.Byte(), vf.Bytes(vhCount(3, 8))}
	return vhCase{e, e, append([]byte{e.Cmd}, e.Data...)}
}

func vhMk8800() vhCase {
	e := &T808_0x8800{MediaID: vf.U32()}
	n := vhCount(3, 5)
	if n == 0 && vf.Choose(2) == 1 {
		e.RetryIDs = []uint16{}
	}
	var w vhW
	w.u32(e.MediaID)
	if n > 0 {
		w.u8(byte(n))
	}
	for i := 0; i < n; i++ {
		id := vf.U16()
		w.u16(id)
		e.RetryIDs = append(e.RetryIDs, id)
	}
	return vhCase{e, e, w.b}
}

func vhMk8801() vhCase {
	e := &T808_0x8801{vf.Byte(), vf.U16(), vf.U16(), T808_0x8801_SaveFlag(vf.Byte()), T808_0x8801_Resolution(vf.Byte()),
		vf.Byte(), vf.Byte(), vf.Byte(), vf.Byte(), vf.Byte()}
	var w vhW
	w.u8(e.ChannelID)
	w.u16(e.Cmd)
	w.u16(e.Duration)
	w.raw([]byte{byte(e.Save), byte(e.Resolution), e.Quality, e.Lighting, e.Contrast, e.Saturability, e.Chroma})
	return vhCase{e, e, w.b}
}

func vhMk8802() vhCase {
	t1, b1 := vhTime()
	t2, b2 := vhTime()
	e := &T808_0x8802{T808_0x0800_MediaType(vf.Byte()), vf.Byte(), vf.Byte(), t1, t2}
	w := vhW{[]byte{byte(e.Type), e.ChannelID, e.Event}}
	w.raw(b1)
	w.raw(b2)
	return vhCase{e, e, w.b}
}

func vhMk8803() vhCase {
	t1, b1 := vhTime()
	t2, b2 := vhTime()
	e := &T808_0x8803{T808_0x0800_MediaType(vf.Byte()), vf.Byte(), vf.Byte(), t1, t2, vf.Byte()}
	w := vhW{[]byte{byte(e.Type), e.ChannelID, e.Event}}
	w.raw(b1)
	w.raw(b2)
	w.u8(e.RemoveFlag)
	return vhCase{e, e, w.b}
}

func vhMk8804() vhCase {
	e := &T808_0x8804{vf.Byte(), vf.U16(), T808_0x8801_SaveFlag(vf.Byte()), T808_0x8804_AudioSampleRate(vf.Byte())}
	w := vhW{[]byte{e.Cmd}}
	w.u16(e.Duration)
	w.raw([]byte{byte(e.Save), byte(e.AudioSampleRate)})
	return vhCase{e, e, w.b}
}

func vhMk8805() vhCase {
	e := &T808_0x8805{vf.U32(), vf.Byte()}
	var w vhW
	w.u32(e.MediaID)
	w.u8(e.RemoveFlag)
	return vhCase{e, e, w.b}
}

func vhMk8900() vhCase {
	e := &T808_0x8900{vf.Byte(), vf.Bytes(vhCount(3, 8))}
	return vhCase{e, e, append([]byte{e.Type}, e.Data...)}
}

// the driver identity after a failed card read: the date of expiry left out, or
// in any year from 1 to 9999
func vhC07_noLicence() {
	t, bcd := vhTime()
	e := &T808_0x0702{State: vf.Byte(), Time: t, ICCardResult: vf.Byte()}
	y, mo, d := 1, 1, 1
	if vf.Choose(2) == 1 {
		c := vf.Range(0, 99)
		y, mo, d = vf.Range(0, 99), vf.Range(1, 12), vf.Range(1, 28)
		vf.Assume(c+y > 0)
		y += 100 * c
		e.ExpiryDate = time.Date(y, time.Month(mo), d, 0, 0, 0, 0, time.Local)
	}
	var w vhW
	w.u8(e.State)
	w.raw(bcd)
	w.raw([]byte{e.ICCardResult, 0})
	w.fix(nil, 20)
	w.raw([]byte{0, vhBcd(y / 100), vhBcd(y % 100), vhBcd(mo), vhBcd(d)})
	data, err := e.Encode()
	vf.Assert(err == nil, "encoding fails")
	vf.Assert(len(data) == len(w.b), "body has the wrong length")
	vf.Assert(vf.EqBytes(data, w.b), "body differs from the documented layout")
	var got T808_0x0702
	_, err = got.Decode(data)
	vf.Assert(err == nil, "decoding an encoded body fails")
	vf.Assert(vf.Equal(got.ExpiryDate, time.Date(y, time.Month(mo), d, 0, 0, 0, 0, time.Local)), "date of expiry differs")
	got.ExpiryDate = e.ExpiryDate
	vf.Assert(vf.Equal(&got, e), "decoded body differs")
}
