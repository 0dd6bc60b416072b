package protocol

import (
	"bytes"
	"io/ioutil"
	"time"

	"gitee.com/coco/go808/protocol/extra"
	vf "gitee.com/coco/go808/zzvf"
	"github.com/shopspring/decimal"
)

// vhDeg: mag millionths of a degree, as a decimal of one of several precisions
func vhDeg(mag int, neg bool, form int) decimal.Decimal {
	n, exp := int64(mag), int32(-6)
	switch form {
	case 1:
		n, exp = n*10, -7
	case 2:
		n, exp = n*100, -8
	}
	if neg {
		n = -n
	}
	return decimal.New(n, exp)
}

// vhLoc: any position without extras, the position expected back and its 28
// wire bytes. Hemisphere flags are set only on negative coordinates.
func vhLoc() (loc, want T808_0x0200, wire []byte) {
	form := vf.Choose(3)
	south, west := vf.Choose(2) == 1, vf.Choose(2) == 1
	lat, lng := vf.Range(0, 90000000), vf.Range(0, 180000000)
	status := vf.U32()
	wantStatus := status
	if south {
		vf.Assume(lat > 0)
		wantStatus |= 4
	} else {
		vf.Assume(status&4 == 0)
	}
	if west {
		vf.Assume(lng > 0)
		wantStatus |= 8
	} else {
		vf.Assume(status&8 == 0)
	}
	t, tb := vhTime()
	loc = T808_0x0200{Alarm: vf.U32(), Status: T808_0x0200_Status(status), Lat: vhDeg(lat, south, form), Lng: vhDeg(lng, west, form),
		Altitude: vf.U16(), Speed: vf.U16(), Direction: vf.U16(), Time: t}
	want = loc
	want.Status = T808_0x0200_Status(wantStatus)
	var w vhW
	w.u32(loc.Alarm)
	w.u32(wantStatus)
	w.u32(uint32(lat))
	w.u32(uint32(lng))
	w.u16(loc.Altitude)
	w.u16(loc.Speed)
	w.u16(loc.Direction)
	w.raw(tb)
	return loc, want, w.b
}

// vhLoc1: a position with fixed values
func vhLoc1() (T808_0x0200, []byte) {
	loc := T808_0x0200{Alarm: 1, Status: 3, Lat: decimal.New(31254321, -6), Lng: decimal.New(121456789, -6), Altitude: 10, Speed: 20, Direction: 30,
		Time: time.Date(2021, 3, 4, 5, 6, 7, 0, time.Local)}
	wire := []byte{0, 0, 0, 1, 0, 0, 0, 3, 0x01, 0xdc, 0xe7, 0x31, 0x07, 0x3d, 0x48, 0x95, 0, 10, 0, 20, 0, 30, 0x21, 0x03, 0x04, 0x05, 0x06, 0x07}
	return loc, wire
}

func vhMk0200() vhCase {
	loc, want, wire := vhLoc()
	return vhCase{&loc, &want, wire}
}

func vhMk0201() vhCase {
	loc, want, wire := vhLoc()
	no := vf.U16()
	return vhCase{&T808_0x0201{no, loc}, &T808_0x0201{no, want}, append([]byte{byte(no >> 8), byte(no)}, wire...)}
}

func vhMk0500() vhCase {
	loc, want, wire := vhLoc()
	no := vf.U16()
	return vhCase{&T808_0x0500{no, loc}, &T808_0x0500{no, want}, append([]byte{byte(no >> 8), byte(no)}, wire...)}
}

func vhMk0704() vhCase {
	n := vhCount(1, 2)
	e, want := &T808_0x0704{Type: vf.Byte()}, &T808_0x0704{}
	want.Type = e.Type
	if n == 0 && vf.Choose(2) == 1 {
		e.Items = []T808_0x0200{}
	}
	var w vhW
	w.u16(uint16(n))
	w.u8(e.Type)
	for i := 0; i < n; i++ {
		loc, wloc, wire := vhLoc()
		e.Items = append(e.Items, loc)
		want.Items = append(want.Items, wloc)
		w.u16(28)
		w.raw(wire)
	}
	return vhCase{e, want, w.b}
}

func vhMk0802() vhCase {
	n := vhCount(1, 2)
	e, want := &T808_0x0802{ReplyMsgSerialNo: vf.U16()}, &T808_0x0802{}
	want.ReplyMsgSerialNo = e.ReplyMsgSerialNo
	if n == 0 && vf.Choose(2) == 1 {
		e.Items = []T808_0x0802_Item{}
	}
	var w vhW
	w.u16(e.ReplyMsgSerialNo)
	w.u16(uint16(n))
	for i := 0; i < n; i++ {
		loc, wloc, wire := vhLoc()
		it := T808_0x0802_Item{MediaID: vf.U32(), Type: T808_0x0800_MediaType(vf.Byte()), ChannelID: vf.Byte(), Event: vf.Byte(), Location: loc}
		e.Items = append(e.Items, it)
		w.u32(it.MediaID)
		w.raw([]byte{byte(it.Type), it.ChannelID, it.Event})
		w.raw(wire)
		it.Location = wloc
		want.Items = append(want.Items, it)
	}
	return vhCase{e, want, w.b}
}

func vhMk0801(loc T808_0x0200, lwire []byte, payload []byte) (*T808_0x0801, []byte) {
	e := &T808_0x0801{MediaID: vf.U32(), Type: T808_0x0800_MediaType(vf.Byte()), Coding: T808_0x0800_MediaCoding(vf.Byte()), Event: vf.Byte(), ChannelID: vf.Byte(), Location: loc}
	var w vhW
	w.u32(e.MediaID)
	w.raw([]byte{byte(e.Type), byte(e.Coding), e.Event, e.ChannelID})
	w.raw(lwire)
	w.raw(payload)
	if payload != nil {
		e.Packet = bytes.NewReader(append([]byte{}, payload...))
	}
	return e, w.b
}

// vh0801RT: fields and payload survive
func vh0801RT(e *T808_0x0801, want T808_0x0200, payload []byte) {
	in := *e
	data, err := e.Encode()
	vf.Assert(err == nil, "encoding a media message fails")
	vf.Observe("wire", data)
	got := new(T808_0x0801)
	vf.Assert(got.DecodePacket(data) == nil, "decoding the encoded media message fails")
	vf.Assert(vf.And(got.MediaID == in.MediaID, got.Type == in.Type, got.Coding == in.Coding, got.Event == in.Event, got.ChannelID == in.ChannelID), "media fields differ")
	vf.Assert(vf.Equal(got.Location, want), "location of the media message differs")
	vf.Assert(got.GetReader() != nil, "payload lost")
	rest, err := ioutil.ReadAll(got.GetReader())
	vf.Assert(err == nil, "payload cannot be read")
	vf.Assert(len(rest) == len(payload), "payload has another length")
	vf.Assert(vf.EqBytes(rest, payload), "payload differs")
}

// 0x0200: any signed coordinates up to 90/180 degrees with six decimals (decimal
// exponents -6, -7, -8), any alarm, status, altitude, speed, direction, time 2000-2099
func vhC10_0200() { vhRoundTrip(vhMk0200(), new(T808_0x0200)) }

// the same position inside a location query reply
func vhC10_0201() { vhRoundTrip(vhMk0201(), new(T808_0x0201)) }

// the same position inside a vehicle control reply
func vhC10_0500() { vhRoundTrip(vhMk0500(), new(T808_0x0500)) }

// 0-1 (thorough 0-2) positions in a batch upload
func vhC10_0704() { vhRoundTrip(vhMk0704(), new(T808_0x0704)) }

// 0-1 (thorough 0-2) positions in a media search reply
func vhC10_0802() { vhRoundTrip(vhMk0802(), new(T808_0x0802)) }

// two positions in a batch upload and a media search reply: one fixed, one with
// any coordinates and status, in both orders
func vhC10_order() {
	a, _ := vhLoc1()
	b, bw, _ := vhLoc()
	if vf.Choose(2) == 1 {
		vhRoundTrip(vhCase{&T808_0x0704{Type: 1, Items: []T808_0x0200{a, b}}, &T808_0x0704{Type: 1, Items: []T808_0x0200{a, bw}}, nil}, new(T808_0x0704))
		return
	}
	i, j := T808_0x0802_Item{MediaID: 1, Location: b}, T808_0x0802_Item{MediaID: 2, Location: a}
	k := i
	k.Location = bw
	vhRoundTrip(vhCase{&T808_0x0802{Items: []T808_0x0802_Item{i, j}}, &T808_0x0802{Items: []T808_0x0802_Item{k, j}}, nil}, new(T808_0x0802))
}

// the same position inside a media upload
func vhC10_0801() {
	loc, want, wire := vhLoc()
	e, _ := vhMk0801(loc, wire, []byte{1})
	vh0801RT(e, want, []byte{1})
}

// the status word tells the hemisphere: bits and coordinate signs agree after decoding any frame bytes
func vhC10_decode() {
	_, wire := vhLoc1()
	status, lat, lng := vf.U32(), vf.U32(), vf.U32()
	w := vhW{append([]byte{}, wire[:4]...)}
	w.u32(status)
	w.u32(lat)
	w.u32(lng)
	w.raw(wire[16:])
	var got T808_0x0200
	_, err := got.Decode(w.b)
	vf.Assert(err == nil, "a valid location is refused")
	vf.Assert(uint32(got.Status) == status, "status differs")
	vf.Assert((got.Status.GetLatitudeType() == SouthLatitudeType) == (status&4 != 0), "latitude type differs from its bit")
	vf.Assert((got.Status.GetLongitudeType() == WestLongitudeType) == (status&8 != 0), "longitude type differs from its bit")
	wl, wn := decimal.New(int64(lat), -6), decimal.New(int64(lng), -6)
	if status&4 != 0 {
		wl = decimal.New(-int64(lat), -6)
	}
	if status&8 != 0 {
		wn = decimal.New(-int64(lng), -6)
	}
	vf.Assert(got.Lat.Equal(wl), "latitude differs")
	vf.Assert(got.Lng.Equal(wn), "longitude differs")
}

// extras

const vhKinds = 13

// vhExtra: an extra of the given kind with any value: the item, its id, its
// value and its data bytes
func vhExtra(kind int) (extra.Entity, byte, interface{}, []byte) {
	var w vhW
	switch kind {
	case 0:
		v := vf.U32()
		w.u32(v)
		return extra.NewExtra_0x01(v), 0x01, v, w.b
	case 1:
		v := vf.U16()
		w.u16(v)
		return extra.NewExtra_0x02(v), 0x02, v, w.b
	case 2:
		v := vf.U16()
		w.u16(v)
		return extra.NewExtra_0x03(v), 0x03, v, w.b
	case 3:
		v := vf.U16()
		w.u16(v)
		return extra.NewExtra_0x04(v), 0x04, v, w.b
	case 4:
		v := extra.Extra_0x11_Value{}
		return extra.NewExtra_0x11(v), 0x11, v, []byte{0}
	case 5:
		id := vf.U32()
		v := extra.Extra_0x11_Value{Type: vf.Byte(), AreaID: &id}
		vf.Assume(v.Type != 0)
		w.u8(v.Type)
		w.u32(id)
		return extra.NewExtra_0x11(v), 0x11, v, w.b
	case 6:
		v := extra.Extra_0x12_Value{Type: vf.Byte(), AreaID: vf.U32(), Direction: vf.Byte()}
		w.u8(v.Type)
		w.u32(v.AreaID)
		w.u8(v.Direction)
		return extra.NewExtra_0x12(v), 0x12, v, w.b
	case 7:
		v := extra.Extra_0x13_Value{RoadID: vf.U32(), Duration: vf.U16(), Result: vf.Byte()}
		w.u32(v.RoadID)
		w.u16(v.Duration)
		w.u8(v.Result)
		return extra.NewExtra_0x13(v), 0x13, v, w.b
	case 8:
		v := vf.U32()
		w.u32(v)
		return extra.NewExtra_0x25(v), 0x25, v, w.b
	case 9:
		v := vf.U16()
		w.u16(v)
		return extra.NewExtra_0x2A(v), 0x2a, v, w.b
	case 10:
		v := vf.U32()
		w.u32(v)
		return extra.NewExtra_0x2B(v), 0x2b, v, w.b
	case 11:
		v := vf.Byte()
		return extra.NewExtra_0x30(v), 0x30, v, []byte{v}
	}
	v := vf.Byte()
	return extra.NewExtra_0x31(v), 0x31, v, []byte{v}
}

func vhCheckExtra(x extra.Entity, id byte, val interface{}, data []byte) {
	vf.Assert(x.ID() == id, "extra with another id")
	vf.Assert(vf.Equal(x.Value(), val), "extra with another value")
	vf.Assert(len(x.Data()) == len(data), "extra with data of another length")
	vf.Assert(vf.EqBytes(x.Data(), data), "extra with other data")
}

// two extras of any kinds and values (169 pairs) in a location report; decoding
// and encoding again
func vhC11_pairs() {
	loc, lw := vhLoc1()
	a, ida, va, da := vhExtra(vf.Choose(vhKinds))
	b, idb, vb, db := vhExtra(vf.Choose(vhKinds))
	loc.Extras = []extra.Entity{a, b}
	w := vhW{append([]byte{}, lw...)}
	w.u8(ida)
	w.u8(byte(len(da)))
	w.raw(da)
	w.u8(idb)
	w.u8(byte(len(db)))
	w.raw(db)
	data, err := loc.Encode()
	vf.Assert(err == nil, "encoding extras fails")
	vf.Observe("wire", data)
	vf.Assert(len(data) == len(w.b), "encoded extras have the wrong length")
	vf.Assert(vf.EqBytes(data, w.b), "encoded extras differ from the documented layout")
	var got T808_0x0200
	_, err = got.Decode(data)
	vf.Assert(err == nil, "decoding encoded extras fails")
	vf.Assert(len(got.Extras) == 2, "extras lost or invented")
	vhCheckExtra(got.Extras[0], ida, va, da)
	vhCheckExtra(got.Extras[1], idb, vb, db)
	// the buffer may be used again
	for i := range data {
		data[i] = 0xee
	}
	again, err := got.Encode()
	vf.Assert(err == nil, "encoding decoded extras fails")
	vf.Assert(len(again) == len(w.b), "decoded extras are encoded to another length")
	vf.Assert(vf.EqBytes(again, w.b), "decoded extras are encoded differently")
}

// a batch of three positions with 0-2 extras each (ids 0x01 and 0x30), a query
// reply and a control reply: each position has its own extras, in order
func vhC11_batch() {
	loc, _ := vhLoc1()
	var items []T808_0x0200
	for i := 0; i < 3; i++ {
		l := loc
		l.Extras = nil
		n := vf.Choose(3)
		if n > 0 {
			l.Extras = append(l.Extras, extra.NewExtra_0x01(vf.U32()))
		}
		if n > 1 {
			l.Extras = append(l.Extras, extra.NewExtra_0x30(vf.Byte()))
		}
		items = append(items, l)
	}
	check := func(got, want []extra.Entity) {
		vf.Assert(len(got) == len(want), "extras lost or invented")
		for i := range got {
			vhCheckExtra(got[i], want[i].ID(), want[i].Value(), want[i].Data())
		}
	}
	data, err := (&T808_0x0704{Type: 1, Items: items}).Encode()
	vf.Assert(err == nil, "encoding a batch with extras fails")
	var got T808_0x0704
	_, err = got.Decode(data)
	vf.Assert(err == nil, "decoding a batch with extras fails")
	vf.Assert(len(got.Items) == 3, "positions lost or invented")
	for i := range items {
		check(got.Items[i].Extras, items[i].Extras)
	}
	if len(items[0].Extras) == 2 && len(items[1].Extras) == 0 {
		data, err = (&T808_0x0201{7, items[0]}).Encode()
		vf.Assert(err == nil, "encoding a query reply with extras fails")
		var q T808_0x0201
		_, err = q.Decode(data)
		vf.Assert(err == nil, "decoding a query reply with extras fails")
		check(q.Result.Extras, items[0].Extras)
		data, err = (&T808_0x0500{7, items[0]}).Encode()
		vf.Assert(err == nil, "encoding a control reply with extras fails")
		var c T808_0x0500
		_, err = c.Decode(data)
		vf.Assert(err == nil, "decoding a control reply with extras fails")
		check(c.Result.Extras, items[0].Extras)
	}
}

// nil entries among the extras are left out; three extras keep their order
func vhC11_nil() {
	loc, _ := vhLoc1()
	a, ida, va, da := vhExtra(vf.Choose(vhKinds))
	var none *extra.Extra_0x01
	switch vf.Choose(3) {
	case 0:
		loc.Extras = []extra.Entity{nil, a, a}
	case 1:
		loc.Extras = []extra.Entity{a, none, a}
	case 2:
		loc.Extras = []extra.Entity{a, a, nil, none}
	}
	data, err := loc.Encode()
	vf.Assert(err == nil, "encoding extras fails")
	var got T808_0x0200
	_, err = got.Decode(data)
	vf.Assert(err == nil, "decoding encoded extras fails")
	vf.Assert(len(got.Extras) == 2, "extras lost or invented")
	vhCheckExtra(got.Extras[0], ida, va, da)
	vhCheckExtra(got.Extras[1], ida, va, da)
}

func vhKnownID(id byte) bool {
	return vf.Or(vf.And(id >= 1, id <= 4), vf.And(id >= 0x11, id <= 0x13), id == 0x25, id == 0x2a, id == 0x2b, id == 0x30, id == 0x31)
}

// an unknown extra (any unknown id, 0-3 bytes of any data) before, between and
// after known ones
func vhC11_unknown() {
	_, lw := vhLoc1()
	_, ida, va, da := vhExtra(vf.Choose(vhKinds))
	_, idb, vb, db := vhExtra(1)
	u := vf.Byte()
	vf.Assume(!vhKnownID(u))
	ud := vf.Bytes(vf.Choose(4))
	w := vhW{append([]byte{}, lw...)}
	at := vf.Choose(3)
	for i := 0; i < 3; i++ {
		if i == at {
			w.u8(u)
			w.u8(byte(len(ud)))
			w.raw(ud)
		}
		switch i {
		case 0:
			w.u8(ida)
			w.u8(byte(len(da)))
			w.raw(da)
		case 1:
			w.u8(idb)
			w.u8(byte(len(db)))
			w.raw(db)
		}
	}
	var got T808_0x0200
	_, err := got.Decode(w.b)
	vf.Assert(err == nil, "an unknown extra makes the decode fail")
	vf.Assert(len(got.Extras) == 2, "an unknown extra disturbs its neighbours")
	vhCheckExtra(got.Extras[0], ida, va, da)
	vhCheckExtra(got.Extras[1], idb, vb, db)
}

// vhExtraSize: the documented data length (0x11: depends on the location type)
func vhExtraSize(id byte, data []byte) int {
	switch id {
	case 0x01, 0x25, 0x2b:
		return 4
	case 0x02, 0x03, 0x04, 0x2a:
		return 2
	case 0x11:
		if len(data) > 0 && data[0] == 0 {
			return 1
		}
		return 5
	case 0x12:
		return 6
	case 0x13:
		return 7
	case 0x30, 0x31:
		return 1
	}
	return -1
}

// any bytes (2-6, thorough 2-10) as the extras of a location report: decoded
// exactly when every length matches
//
//vf:covers good,bad
func vhC11_any() {
	_, lw := vhLoc1()
	tail := vf.Bytes(2 + vhCount(4, 8))
	ok, n, pos := true, 0, 0
	var ids []byte
	var datas [][]byte
	for pos+2 <= len(tail) {
		id, size := tail[pos], int(tail[pos+1])
		pos += 2
		if size > len(tail)-pos {
			ok = false
			break
		}
		size = vf.Pin(size)
		d := tail[pos : pos+size]
		pos += size
		if !vhKnownID(id) {
			continue
		}
		if vhExtraSize(id, d) != size {
			ok = false
			break
		}
		ids = append(ids, id)
		datas = append(datas, d)
		n++
	}
	vf.Assume(!ok || pos == len(tail)) // a lone byte at the end is nothing we specify
	var got T808_0x0200
	_, err := got.Decode(append(append([]byte{}, lw...), tail...))
	if !ok {
		vf.Cover("bad")
		vf.Assert(err != nil, "an extra of the wrong length is accepted")
		return
	}
	vf.Cover("good")
	vf.Assert(err == nil, "well-formed extras are refused")
	vf.Assert(len(got.Extras) == n, "extras lost or invented")
	for i := range ids {
		vf.Assert(got.Extras[i].ID() == ids[i], "extra with another id")
		vf.Assert(len(got.Extras[i].Data()) == len(datas[i]), "extra with data of another length")
		vf.Assert(vf.EqBytes(got.Extras[i].Data(), datas[i]), "extra with other data")
	}
}

// every known id with a declared length from 0 to 8 other than its own, data present
func vhC11_length() {
	_, lw := vhLoc1()
	id := []byte{1, 2, 3, 4, 0x11, 0x12, 0x13, 0x25, 0x2a, 0x2b, 0x30, 0x31}[vf.Choose(12)]
	d := vf.Bytes(vf.Choose(9))
	vf.Assume(vhExtraSize(id, d) != len(d))
	w := vhW{append([]byte{}, lw...)}
	if vf.Choose(2) == 1 {
		w.raw([]byte{0x30, 1, 9})
	}
	w.u8(id)
	w.u8(byte(len(d)))
	w.raw(d)
	if vf.Choose(2) == 1 {
		w.raw([]byte{0x31, 1, 9})
	}
	var got T808_0x0200
	_, err := got.Decode(w.b)
	vf.Assert(err != nil, "an extra of the wrong length is accepted")
}

// areas and routes

func vhAttr(south, west bool) (attr, want uint16) {
	attr = vf.U16()
	want = attr
	if south {
		want |= 1 << 6
	} else {
		vf.Assume(attr&(1<<6) == 0)
	}
	if west {
		want |= 1 << 7
	} else {
		vf.Assume(attr&(1<<7) == 0)
	}
	return
}

// vhLimits: the optional part
func vhLimits(w *vhW) (t1, t2 time.Time, speed uint16, dur byte) {
	var b1, b2 []byte
	t1, b1 = vhTime()
	t2, b2 = vhTime()
	speed, dur = vf.U16(), vf.Byte()
	w.raw(b1)
	w.raw(b2)
	w.u16(speed)
	w.u8(dur)
	return
}

func vhCircle(w *vhW, south, west, limits bool) (a, want CircleArea) {
	lat, lng := vf.Range(0, 90000000), vf.Range(0, 180000000)
	if south {
		vf.Assume(lat > 0)
	}
	if west {
		vf.Assume(lng > 0)
	}
	attr, wattr := vhAttr(south, west)
	vf.Assume((attr&1 == 1) == limits)
	a = CircleArea{ID: vf.U32(), Attribute: AreaAttribute(attr), Lat: vhDeg(lat, south, 0), Lng: vhDeg(lng, west, 0), Radius: vf.U32()}
	w.u32(a.ID)
	w.u16(wattr)
	w.u32(uint32(lat))
	w.u32(uint32(lng))
	w.u32(a.Radius)
	if limits {
		a.StartTime, a.EndTime, a.MaxSpeed, a.Duration = vhLimits(w)
		want = a
	} else {
		want = a
		a.StartTime, a.EndTime, a.MaxSpeed, a.Duration = time.Unix(1600000000, 0), time.Unix(1700000000, 0), 9, 8
	}
	want.Attribute = AreaAttribute(wattr)
	return
}

func vhMk8600() vhCase {
	n := 1 + vhCount(1, 2)
	e, want := &T808_0x8600{Action: AreaAction(vf.Byte())}, &T808_0x8600{}
	want.Action = e.Action
	w := &vhW{[]byte{byte(e.Action), byte(n)}}
	south, west := vf.Choose(2) == 1, vf.Choose(2) == 1
	for i := 0; i < n; i++ {
		a, b := vhCircle(w, south != (i == 1), west, vf.Choose(2) == 1)
		e.Items = append(e.Items, a)
		want.Items = append(want.Items, b)
	}
	return vhCase{e, want, w.b}
}

func vhRect(w *vhW, south, west, limits bool) (a, want RectArea) {
	la, lo, ra, ro := vf.Range(0, 90000000), vf.Range(0, 180000000), vf.Range(0, 90000000), vf.Range(0, 180000000)
	if south {
		vf.Assume(vf.Or(la > 0, ra > 0))
	}
	if west {
		vf.Assume(vf.Or(lo > 0, ro > 0))
	}
	attr, wattr := vhAttr(south, west)
	vf.Assume((attr&1 == 1) == limits)
	a = RectArea{ID: vf.U32(), Attribute: AreaAttribute(attr), LeftTopLat: vhDeg(la, south, 0), LeftTopLon: vhDeg(lo, west, 0),
		RightBottomLat: vhDeg(ra, south, 0), RightBottomLon: vhDeg(ro, west, 0)}
	w.u32(a.ID)
	w.u16(wattr)
	w.u32(uint32(la))
	w.u32(uint32(lo))
	w.u32(uint32(ra))
	w.u32(uint32(ro))
	if limits {
		a.StartTime, a.EndTime, a.MaxSpeed, a.Duration = vhLimits(w)
		want = a
	} else {
		want = a
		a.StartTime, a.EndTime, a.MaxSpeed, a.Duration = time.Unix(1600000000, 0), time.Unix(1700000000, 0), 9, 8
	}
	want.Attribute = AreaAttribute(wattr)
	return
}

func vhMk8602() vhCase {
	n := 1 + vhCount(1, 2)
	e, want := &T808_0x8602{Action: AreaAction(vf.Byte())}, &T808_0x8602{}
	want.Action = e.Action
	w := &vhW{[]byte{byte(e.Action), byte(n)}}
	south, west := vf.Choose(2) == 1, vf.Choose(2) == 1
	for i := 0; i < n; i++ {
		a, b := vhRect(w, south, west != (i == 1), vf.Choose(2) == 1)
		e.Items = append(e.Items, a)
		want.Items = append(want.Items, b)
	}
	return vhCase{e, want, w.b}
}

func vhMk8604() vhCase {
	n := 1 + vhCount(2, 3)
	south, west := vf.Choose(2) == 1, vf.Choose(2) == 1
	limits := vf.Choose(2) == 1
	attr, wattr := vhAttr(south, west)
	vf.Assume((attr&1 == 1) == limits)
	e, want := &T808_0x8604{ID: vf.U32(), Attribute: AreaAttribute(attr)}, &T808_0x8604{}
	w := &vhW{}
	w.u32(e.ID)
	w.u16(wattr)
	if limits {
		e.StartTime, e.EndTime, e.MaxSpeed, e.Duration = vhLimits(w)
		*want = *e
	} else {
		*want = *e
		e.StartTime, e.EndTime, e.MaxSpeed, e.Duration = time.Unix(1600000000, 0), time.Unix(1700000000, 0), 9, 8
	}
	want.Attribute = AreaAttribute(wattr)
	w.u16(uint16(n))
	anyLat, anyLng := false, false
	for i := 0; i < n; i++ {
		lat, lng := vf.Range(0, 90000000), vf.Range(0, 180000000)
		anyLat, anyLng = vf.Or(anyLat, lat > 0), vf.Or(anyLng, lng > 0)
		v := Vertex{vhDeg(lat, south, 0), vhDeg(lng, west, 0)}
		e.Vertexes = append(e.Vertexes, v)
		want.Vertexes = append(want.Vertexes, v)
		w.u32(uint32(lat))
		w.u32(uint32(lng))
	}
	if south {
		vf.Assume(anyLat)
	}
	if west {
		vf.Assume(anyLng)
	}
	return vhCase{e, want, w.b}
}

// vhPoint: presence of both time values and both speed values in every mixture
func vhPoint(w *vhW, south, west bool) (p, want T808_0x8606_Point) {
	lat, lng := vf.Range(0, 90000000), vf.Range(0, 180000000)
	attr := vf.Byte()
	wattr := attr &^ 3
	if south {
		vf.Assume(lat > 0)
		wattr |= 4
	} else {
		vf.Assume(attr&4 == 0)
	}
	if west {
		vf.Assume(lng > 0)
		wattr |= 8
	} else {
		vf.Assume(attr&8 == 0)
	}
	p = T808_0x8606_Point{ID: vf.U32(), SectionID: vf.U32(), Lat: vhDeg(lat, south, 0), Lng: vhDeg(lng, west, 0), Width: vf.Byte(), Attribute: T808_0x8606_SectionAttribute(attr)}
	want = p
	long, short, max, over := vf.U16(), vf.U16(), vf.U16(), vf.Byte()
	var opt vhW
	switch vf.Choose(4) {
	case 1:
		p.TimeTooLong = &long
	case 2:
		p.TimeTooShort = &short
	case 3:
		p.TimeTooLong, p.TimeTooShort = &long, &short
		want.TimeTooLong, want.TimeTooShort = &long, &short
		wattr |= 1
		opt.u16(long)
		opt.u16(short)
	}
	switch vf.Choose(4) {
	case 1:
		p.MaxSpeed = &max
	case 2:
		p.OverSpeedDuration = &over
	case 3:
		p.MaxSpeed, p.OverSpeedDuration = &max, &over
		want.MaxSpeed, want.OverSpeedDuration = &max, &over
		wattr |= 2
		opt.u16(max)
		opt.u8(over)
	}
	want.Attribute = T808_0x8606_SectionAttribute(wattr)
	w.u32(p.ID)
	w.u32(p.SectionID)
	w.u32(uint32(lat))
	w.u32(uint32(lng))
	w.u8(p.Width)
	w.u8(wattr)
	w.raw(opt.b)
	return
}

func vhMk8606() vhCase {
	n := vhCount(2, 3)
	t1, b1 := vhTime()
	t2, b2 := vhTime()
	e := &T808_0x8606{ID: vf.U32(), Attribute: vf.U16(), StartTime: t1, EndTime: t2}
	want := &T808_0x8606{}
	*want = *e
	if n == 0 && vf.Choose(2) == 1 {
		e.Points = []T808_0x8606_Point{}
	}
	w := &vhW{}
	w.u32(e.ID)
	w.u16(e.Attribute)
	w.raw(b1)
	w.raw(b2)
	w.u16(uint16(n))
	south, west := vf.Choose(2) == 1, vf.Choose(2) == 1
	for i := 0; i < n; i++ {
		a, b := vhPoint(w, south != (i == 1), west)
		e.Points = append(e.Points, a)
		want.Points = append(want.Points, b)
	}
	return vhCase{e, want, w.b}
}

// 1-2 (thorough 1-3) circles: any id, radius, attribute, coordinates, with and without limits in every mixture
func vhC12_8600() { vhRoundTrip(vhMk8600(), new(T808_0x8600)) }

// 1-2 (thorough 1-3) rectangles
func vhC12_8602() { vhRoundTrip(vhMk8602(), new(T808_0x8602)) }

// polygons of 1-3 (thorough 1-4) vertices
func vhC12_8604() { vhRoundTrip(vhMk8604(), new(T808_0x8604)) }

// routes of 0-2 (thorough 0-3) points, every mixture of optional values
func vhC12_8606() { vhRoundTrip(vhMk8606(), new(T808_0x8606)) }

// 5 (thorough: 6) circles, rectangles, vertices or route points whose
// coordinates are any of 0-1 (thorough: 0-2) degrees and whose ids are 1 or 2,
// so that any of them may coincide
func vhC12_several() {
	n := 5
	if vf.Thorough() {
		n = 6
	}
	deg := func() decimal.Decimal {
		if vf.Thorough() {
			return decimal.New(int64(vf.Range(0, 2)), 0)
		}
		return decimal.New(int64(vf.Range(0, 1)), 0)
	}
	id := func() uint32 { return uint32(vf.Range(1, 2)) }
	switch vf.Choose(4) {
	case 0:
		c := &T808_0x8600{Action: 1}
		for i := 0; i < n; i++ {
			c.Items = append(c.Items, CircleArea{ID: id(), Radius: id(), Lat: deg(), Lng: deg()})
		}
		vhRoundTrip(vhCase{c, c, nil}, new(T808_0x8600))
	case 1:
		c := &T808_0x8602{Action: 1}
		for i := 0; i < n; i++ {
			c.Items = append(c.Items, RectArea{ID: id(), LeftTopLat: deg(), LeftTopLon: deg(), RightBottomLat: deg(), RightBottomLon: deg()})
		}
		vhRoundTrip(vhCase{c, c, nil}, new(T808_0x8602))
	case 2:
		c := &T808_0x8604{ID: 1}
		for i := 0; i < n; i++ {
			c.Vertexes = append(c.Vertexes, Vertex{deg(), deg()})
		}
		vhRoundTrip(vhCase{c, c, nil}, new(T808_0x8604))
	case 3:
		c := &T808_0x8606{ID: 5, StartTime: time.Date(2020, 1, 2, 3, 4, 5, 0, time.Local), EndTime: time.Date(2021, 1, 2, 3, 4, 5, 0, time.Local)}
		for i := 0; i < n; i++ {
			c.Points = append(c.Points, T808_0x8606_Point{ID: id(), SectionID: id(), Width: 1, Lat: deg(), Lng: deg()})
		}
		vhRoundTrip(vhCase{c, c, nil}, new(T808_0x8606))
	}
}

// long lists: 127, 128 and 255 circles or rectangles, 127, 128, 255, 256 and
// 300 vertices or route points, everything fixed but one number
func vhC12_long() {
	x := vf.U32()
	pos := func(i int) (decimal.Decimal, decimal.Decimal) {
		return decimal.New(int64(i)*1001, -6), decimal.New(int64(i)*1000001%180000000, -6)
	}
	n := []int{127, 128, 255, 256, 300}[vf.Choose(5)]
	short := vf.Choose(4)
	vf.Assume(short > 1 || n <= 255)
	switch short {
	case 0:
		c := &T808_0x8600{Action: 1}
		for i := 0; i < n; i++ {
			a := CircleArea{ID: uint32(i) ^ x, Radius: uint32(i)}
			a.Lat, a.Lng = pos(i)
			c.Items = append(c.Items, a)
		}
		vhRoundTrip(vhCase{c, c, nil}, new(T808_0x8600))
	case 1:
		c := &T808_0x8602{Action: 1}
		for i := 0; i < n; i++ {
			a := RectArea{ID: uint32(i) ^ x}
			a.LeftTopLat, a.LeftTopLon = pos(i)
			a.RightBottomLat, a.RightBottomLon = pos(i + 1)
			c.Items = append(c.Items, a)
		}
		vhRoundTrip(vhCase{c, c, nil}, new(T808_0x8602))
	case 2:
		c := &T808_0x8604{ID: x}
		for i := 0; i < n; i++ {
			lat, lng := pos(i)
			c.Vertexes = append(c.Vertexes, Vertex{lat, lng})
		}
		vhRoundTrip(vhCase{c, c, nil}, new(T808_0x8604))
	case 3:
		c := &T808_0x8606{ID: 5, StartTime: time.Date(2020, 1, 2, 3, 4, 5, 0, time.Local), EndTime: time.Date(2021, 1, 2, 3, 4, 5, 0, time.Local)}
		for i := 0; i < n; i++ {
			p := T808_0x8606_Point{ID: uint32(i) ^ x, SectionID: uint32(i), Width: byte(i)}
			p.Lat, p.Lng = pos(i)
			c.Points = append(c.Points, p)
		}
		vhRoundTrip(vhCase{c, c, nil}, new(T808_0x8606))
	}
}
