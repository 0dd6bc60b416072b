#!/usr/bin/env python3
# Writes harness/protocol/bodies_gen.go: one round-trip (C07/C08) and one layout (C09) harness per message type.
T = "0001 0100 0102 0104 0107 0108 0301 0302 0303 0700 0701 0702 0705 0800 0805 0900".split()
P = "8001 8003 8100 8103 8105 8106 8108 8202 8203 8300 8301 8302 8303 8304 8400 8401 8500 8601 8603 8605 8607 8700 8701 8800 8801 8802 8803 8804 8805 8900".split()
BOUNDS = {
 "0104": "lists of 0-2 parameters (thorough 0-3) of every kind, values of at most 8 bytes",
 "0107": "SIM numbers of 1, 2, 11, 19 and 20 digits; strings empty, partly and fully filling their fields",
}
out = ["package protocol\n"]
for p, ids in (("C07", T), ("C08", P)):
    for i in ids:
        b = BOUNDS.get(i, "every field value; lists, texts and data of at most 2-3 elements (thorough 3-8)")
        out.append(f"// 0x{i}: {b}\nfunc vh{p}_{i}() {{ vhRoundTrip(vhMk{i}(), new(T808_0x{i})) }}\n")
for i in T + P + "0200 0201 0500 0704 0802 8600 8602 8604 8606".split():
    out.append(f"// 0x{i}: the same values as in the round trip\nfunc vhC09_{i}() {{ vhLayout(vhMk{i}()) }}\n")
out.append("""type vhMaker struct {
	mk  func() vhCase
	dst func() Entity
}

func vhMakers() []vhMaker {
	return []vhMaker{""")
for i in T + P + "0200 0201 0500 0704 0802 8600 8602 8604 8606".split():
    out[-1] += f"\n\t\t{{vhMk{i}, func() Entity {{ return new(T808_0x{i}) }}}},"
out[-1] += "\n\t}\n}\n"
open("/verif/harness/protocol/bodies_gen.go", "w").write("\n".join(out))

# C04: arbitrary bytes as the body of every registered type
MIN = {"0001":5,"0002":0,"0003":0,"0100":37,"0102":0,"0104":3,"0107":48,"0108":2,"0200":28,"0201":30,"0301":1,"0302":3,"0303":2,"0500":30,"0700":3,"0701":4,"0702":34,"0704":3,"0705":7,"0800":8,"0801":36,"0802":4,"0805":3,"0900":1,"0901":4,"0a00":132,
 "8001":5,"8003":3,"8100":3,"8103":1,"8104":0,"8105":1,"8106":1,"8107":0,"8108":11,"8201":0,"8202":4,"8203":4,"8300":1,"8301":2,"8302":2,"8303":2,"8304":3,"8400":1,"8401":1,"8500":1,"8600":20,"8601":1,"8602":24,"8603":1,"8604":16,"8605":1,"8606":20,"8607":1,"8700":1,"8701":1,"8702":0,"8800":4,"8801":12,"8802":15,"8803":16,"8804":5,"8805":3,"8900":1,"8a00":132}
FIXED = "0100 0107 0702 8108".split()
TEXT = "0100 0102 0107 0108 0702 8100 8105 8108 8300 8301 8302 8303 8304 8400 8401 8604 8606 0301 0700".split()
out = ["package protocol\n"]
for i, n in MIN.items():
    name = i.replace("a", "A")
    t = "vhHostileFixed" if i in FIXED else "vhHostileText" if i in TEXT else "vhHostile"
    lim = ", all but one (thorough two) of them below 0x80, the others below 0x81 or 0xff" + (", those below 0x80 not 0" if i in FIXED else "") if i in TEXT else ""
    more = 3 if i == "0702" else 6
    pre = f"vhMore = {more}; " if more != 6 else ""
    out.append(f"// 0x{i}: every body of 0-2 and {n}-1 to {n}+{more-2} (thorough {n}+{more+2}) bytes{lim}\nfunc vhC04_{i}() {{ {pre}{t}({n}, new(T808_0x{name})) }}\n")
open("/verif/harness/protocol/hostile_gen.go", "w").write("\n".join(out))

# C09: ids
SPECIAL = {"0102": '{AuthKey: "k"}', "0200": "{Time: t}", "0201": "{Result: l}", "0500": "{Result: l}", "0702": "{Time: t, CompanyName: \"c\", ExpiryDate: d}", "0801": "{Location: l}",
 "0901": "{Uncompressed: []byte{1}}", "0A00": "{PublicKey: k}", "8A00": "{PublicKey: k}", "8600": "{Items: []CircleArea{{ID: 1}}}", "8602": "{Items: []RectArea{{ID: 1}}}",
 "8604": "{Vertexes: []Vertex{{}}}", "8606": "{StartTime: t, EndTime: t}", "8802": "{StartTime: t, EndTime: t}", "8803": "{StartTime: t, EndTime: t}"}
out = ["""package protocol

import (
	"crypto/rsa"
	"math/big"
	"time"

	vf "gitee.com/coco/go808/zzvf"
)

func vhAllTypes() ([]Entity, []uint16) {
	t := time.Date(2021, 3, 4, 5, 6, 7, 0, time.Local)
	d := time.Date(2030, 1, 2, 0, 0, 0, 0, time.Local)
	l := T808_0x0200{Time: t}
	n := make([]byte, 128)
	n[0] = 0xff
	k := &rsa.PublicKey{N: new(big.Int).SetBytes(n), E: 3}
	return []Entity{"""]
ids = [i.upper() for i in MIN]
for i in ids:
    out.append(f"\t\t&T808_0x{i}{SPECIAL.get(i, '{}')},")
out.append("\t}, []uint16{" + ", ".join("0x" + i for i in ids) + "}\n}\n")
out.append("""// every message type is sent under its own id and decoded from it
func vhC09_ids() {
	es, ids := vhAllTypes()
	i := vf.Choose(len(es))
	vf.Assert(uint16(es[i].MsgID()) == ids[i], "message type has another id")
	m := Message{Header: Header{MsgID: 0x1234, IccID: 1, MsgSerialNo: 1}, Body: es[i]}
	data, err := m.Encode()
	vf.Assert(err == nil, "encoding a valid message fails")
	var got Message
	vf.Assert(got.Decode(data) == nil, "decoding the encoded frame fails")
	vf.Assert(uint16(got.Header.MsgID) == ids[i], "message is sent under another id")
	vf.Assert(got.Body != nil, "message type cannot be decoded from its id")
	vf.Assert(vhSameType(got.Body, i), "id is decoded as another message type")
}

// an id that no type has (any of the 65471 others) yields no body
func vhC09_others() {
	_, ids := vhAllTypes()
	id := vf.U16()
	for _, x := range ids {
		vf.Assume(id != x)
	}
	hi, lo := byte(id>>8), byte(id)
	vf.Assume(vf.And(hi != 0x7d, hi != 0x7e, lo != 0x7d, lo != 0x7e))
	sum := hi ^ lo ^ 1 ^ 1 ^ 1 ^ 9
	vf.Assume(vf.And(sum != 0x7d, sum != 0x7e))
	var got Message
	err := got.Decode([]byte{0x7e, hi, lo, 0, 1, 0, 0, 0, 0, 0, 1, 0, 1, 9, sum, 0x7e})
	vf.Assert(err == nil, "a valid frame is refused")
	vf.Assert(uint16(got.Header.MsgID) == id, "wrong message id")
	vf.Assert(got.Body == nil, "a body for an unknown id")
}

func vhSameType(b Entity, i int) bool {
	ok := false
	switch i {""")
for n, i in enumerate(ids):
    out.append(f"\tcase {n}:\n\t\t_, ok = b.(*T808_0x{i})")
out.append("\t}\n\treturn ok\n}")
open("/verif/harness/protocol/ids_gen.go", "w").write("\n".join(out) + "\n")
import subprocess
subprocess.run(["gofmt", "-w", "/verif/harness/protocol"], check=True)
