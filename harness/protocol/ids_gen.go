package protocol

import (
	"crypto/rsa"
	"math/big"
	"time"

	vf "gitee.com/coco/go808/zzvf"
)

func vhAllTypes() ([]Entity, []uint16) {
	t := time.Date(2021, 3, 4, 5, 6, 7, 0, time.Local)
	d := time.Date(2030, 1, 2, 0, 0, 0, 0, time.Local)
	l := T808_0x0200{Time: t}
	n := make([]byte, 128)
	n[0] = 0xff
	k := &rsa.PublicKey{N: new(big.Int).SetBytes(n), E: 3}
	return []Entity{
		&T808_0x0001{},
		&T808_0x0002{},
		&T808_0x0003{},
		&T808_0x0100{},
		&T808_0x0102{AuthKey: "k"},
		&T808_0x0104{},
		&T808_0x0107{},
		&T808_0x0108{},
		&T808_0x0200{Time: t},
		&T808_0x0201{Result: l},
		&T808_0x0301{},
		&T808_0x0302{},
		&T808_0x0303{},
		&T808_0x0500{Result: l},
		&T808_0x0700{},
		&T808_0x0701{},
		&T808_0x0702{Time: t, CompanyName: "c", ExpiryDate: d},
		&T808_0x0704{},
		&T808_0x0705{},
		&T808_0x0800{},
		&T808_0x0801{Location: l},
		&T808_0x0802{},
		&T808_0x0805{},
		&T808_0x0900{},
		&T808_0x0901{Uncompressed: []byte{1}},
		&T808_0x0A00{PublicKey: k},
		&T808_0x8001{},
		&T808_0x8003{},
		&T808_0x8100{},
		&T808_0x8103{},
		&T808_0x8104{},
		&T808_0x8105{},
		&T808_0x8106{},
		&T808_0x8107{},
		&T808_0x8108{},
		&T808_0x8201{},
		&T808_0x8202{},
		&T808_0x8203{},
		&T808_0x8300{},
		&T808_0x8301{},
		&T808_0x8302{},
		&T808_0x8303{},
		&T808_0x8304{},
		&T808_0x8400{},
		&T808_0x8401{},
		&T808_0x8500{},
		&T808_0x8600{Items: []CircleArea{{ID: 1}}},
		&T808_0x8601{},
		&T808_0x8602{Items: []RectArea{{ID: 1}}},
		&T808_0x8603{},
		&T808_0x8604{Vertexes: []Vertex{{}}},
		&T808_0x8605{},
		&T808_0x8606{StartTime: t, EndTime: t},
		&T808_0x8607{},
		&T808_0x8700{},
		&T808_0x8701{},
		&T808_0x8702{},
		&T808_0x8800{},
		&T808_0x8801{},
		&T808_0x8802{StartTime: t, EndTime: t},
		&T808_0x8803{StartTime: t, EndTime: t},
		&T808_0x8804{},
		&T808_0x8805{},
		&T808_0x8900{},
		&T808_0x8A00{PublicKey: k},
	}, []uint16{0x0001, 0x0002, 0x0003, 0x0100, 0x0102, 0x0104, 0x0107, 0x0108, 0x0200, 0x0201, 0x0301, 0x0302, 0x0303, 0x0500, 0x0700, 0x0701, 0x0702, 0x0704, 0x0705, 0x0800, 0x0801, 0x0802, 0x0805, 0x0900, 0x0901, 0x0A00, 0x8001, 0x8003, 0x8100, 0x8103, 0x8104, 0x8105, 0x8106, 0x8107, 0x8108, 0x8201, 0x8202, 0x8203, 0x8300, 0x8301, 0x8302, 0x8303, 0x8304, 0x8400, 0x8401, 0x8500, 0x8600, 0x8601, 0x8602, 0x8603, 0x8604, 0x8605, 0x8606, 0x8607, 0x8700, 0x8701, 0x8702, 0x8800, 0x8801, 0x8802, 0x8803, 0x8804, 0x8805, 0x8900, 0x8A00}
}

// every message type is sent under its own id and decoded from it
func vhC09_ids() {
	es, ids := vhAllTypes()
	i := vf.Choose(len(es))
	vf.Assert(uint16(es[i].MsgID()) == ids[i], "message type has another id")
	m := Message{Header: Header{MsgID: 0x1234, IccID: 1, MsgSerialNo: 1}, Body: es[i]}
	data, err := m.Encode()
	vf.Assert(err == nil, "encoding a valid message fails")
	var got Message
	vf.Assert(got.Decode(data) == nil, "decoding the encoded frame fails")
	vf.Assert(uint16(got.Header.MsgID) == ids[i], "message is sent under another id")
	vf.Assert(got.Body != nil, "message type cannot be decoded from its id")
	vf.Assert(vhSameType(got.Body, i), "id is decoded as another message type")
}

// an id that no type has (any of the 65471 others) yields no body
func vhC09_others() {
	_, ids := vhAllTypes()
	id := vf.U16()
	for _, x := range ids {
		vf.Assume(id != x)
	}
	hi, lo := byte(id>>8), byte(id)
	vf.Assume(vf.And(hi != 0x7d, hi != 0x7e, lo != 0x7d, lo != 0x7e))
	sum := hi ^ lo ^ 1 ^ 1 ^ 1 ^ 9
	vf.Assume(vf.And(sum != 0x7d, sum != 0x7e))
	var got Message
	err := got.Decode([]byte{0x7e, hi, lo, 0, 1, 0, 0, 0, 0, 0, 1, 0, 1, 9, sum, 0x7e})
	vf.Assert(err == nil, "a valid frame is refused")
	vf.Assert(uint16(got.Header.MsgID) == id, "wrong message id")
	vf.Assert(got.Body == nil, "a body for an unknown id")
}

func vhSameType(b Entity, i int) bool {
	ok := false
	switch i {
	case 0:
		_, ok = b.(*T808_0x0001)
	case 1:
		_, ok = b.(*T808_0x0002)
	case 2:
		_, ok = b.(*T808_0x0003)
	case 3:
		_, ok = b.(*T808_0x0100)
	case 4:
		_, ok = b.(*T808_0x0102)
	case 5:
		_, ok = b.(*T808_0x0104)
	case 6:
		_, ok = b.(*T808_0x0107)
	case 7:
		_, ok = b.(*T808_0x0108)
	case 8:
		_, ok = b.(*T808_0x0200)
	case 9:
		_, ok = b.(*T808_0x0201)
	case 10:
		_, ok = b.(*T808_0x0301)
	case 11:
		_, ok = b.(*T808_0x0302)
	case 12:
		_, ok = b.(*T808_0x0303)
	case 13:
		_, ok = b.(*T808_0x0500)
	case 14:
		_, ok = b.(*T808_0x0700)
	case 15:
		_, ok = b.(*T808_0x0701)
	case 16:
		_, ok = b.(*T808_0x0702)
	case 17:
		_, ok = b.(*T808_0x0704)
	case 18:
		_, ok = b.(*T808_0x0705)
	case 19:
		_, ok = b.(*T808_0x0800)
	case 20:
		_, ok = b.(*T808_0x0801)
	case 21:
		_, ok = b.(*T808_0x0802)
	case 22:
		_, ok = b.(*T808_0x0805)
	case 23:
		_, ok = b.(*T808_0x0900)
	case 24:
		_, ok = b.(*T808_0x0901)
	case 25:
		_, ok = b.(*T808_0x0A00)
	case 26:
		_, ok = b.(*T808_0x8001)
	case 27:
		_, ok = b.(*T808_0x8003)
	case 28:
		_, ok = b.(*T808_0x8100)
	case 29:
		_, ok = b.(*T808_0x8103)
	case 30:
		_, ok = b.(*T808_0x8104)
	case 31:
		_, ok = b.(*T808_0x8105)
	case 32:
		_, ok = b.(*T808_0x8106)
	case 33:
		_, ok = b.(*T808_0x8107)
	case 34:
		_, ok = b.(*T808_0x8108)
	case 35:
		_, ok = b.(*T808_0x8201)
	case 36:
		_, ok = b.(*T808_0x8202)
	case 37:
		_, ok = b.(*T808_0x8203)
	case 38:
		_, ok = b.(*T808_0x8300)
	case 39:
		_, ok = b.(*T808_0x8301)
	case 40:
		_, ok = b.(*T808_0x8302)
	case 41:
		_, ok = b.(*T808_0x8303)
	case 42:
		_, ok = b.(*T808_0x8304)
	case 43:
		_, ok = b.(*T808_0x8400)
	case 44:
		_, ok = b.(*T808_0x8401)
	case 45:
		_, ok = b.(*T808_0x8500)
	case 46:
		_, ok = b.(*T808_0x8600)
	case 47:
		_, ok = b.(*T808_0x8601)
	case 48:
		_, ok = b.(*T808_0x8602)
	case 49:
		_, ok = b.(*T808_0x8603)
	case 50:
		_, ok = b.(*T808_0x8604)
	case 51:
		_, ok = b.(*T808_0x8605)
	case 52:
		_, ok = b.(*T808_0x8606)
	case 53:
		_, ok = b.(*T808_0x8607)
	case 54:
		_, ok = b.(*T808_0x8700)
	case 55:
		_, ok = b.(*T808_0x8701)
	case 56:
		_, ok = b.(*T808_0x8702)
	case 57:
		_, ok = b.(*T808_0x8800)
	case 58:
		_, ok = b.(*T808_0x8801)
	case 59:
		_, ok = b.(*T808_0x8802)
	case 60:
		_, ok = b.(*T808_0x8803)
	case 61:
		_, ok = b.(*T808_0x8804)
	case 62:
		_, ok = b.(*T808_0x8805)
	case 63:
		_, ok = b.(*T808_0x8900)
	case 64:
		_, ok = b.(*T808_0x8A00)
	}
	return ok
}
