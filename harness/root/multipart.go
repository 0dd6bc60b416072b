package go808

import (
	"io/ioutil"

	"gitee.com/coco/go808/protocol"
	vf "gitee.com/coco/go808/zzvf"
)

// vhUpload is an upload with the reference for what is stored
type vhUpload struct {
	f    MultipartFile
	have []bool
	data [][]byte
}

func vhNewUpload(icc uint64, id uint16, tag uint32, sum int) *vhUpload {
	return &vhUpload{f: MultipartFile{IccID: icc, MsgID: protocol.MsgID(id), Tag: tag, Sum: uint16(sum)}, have: make([]bool, sum+1), data: make([][]byte, sum+1)}
}

func (u *vhUpload) write(seq int, data []byte) {
	err := u.f.Write(uint16(seq), append([]byte{}, data...))
	vf.Assert(err == nil, "a part cannot be stored")
	if seq >= 1 && seq < len(u.have) {
		u.have[seq], u.data[seq] = true, data
	}
}

func (u *vhUpload) full() bool {
	for _, h := range u.have[1:] {
		if !h {
			return false
		}
	}
	return true
}

func (u *vhUpload) content() []byte {
	var out []byte
	for _, d := range u.data[1:] {
		out = append(out, d...)
	}
	return out
}

func (u *vhUpload) check() {
	full := u.f.IsFull()
	vf.Assert(full || !u.full(), "an upload with all its parts is reported as incomplete")
	vf.Assert(!full || u.full(), "an upload with missing parts is reported as complete")
}

func (u *vhUpload) merge() {
	r, err := u.f.Merge()
	vf.Assert(err == nil, "a complete upload cannot be merged")
	got, err := ioutil.ReadAll(r)
	vf.Assert(err == nil, "a merged upload cannot be read")
	vf.Assert(len(got) == len(u.content()), "merged data is too short or too long")
	vf.Assert(vf.EqBytes(got, u.content()), "merged data is not the parts in order")
	vf.Assert(r.Close() == nil, "a merged upload cannot be closed")
}

// totals 1-3 (thorough: 1-4), every sequence of total+1 (thorough: total+2)
// writes of parts 1..total and one beyond, with 0-2 arbitrary bytes each;
// merged as soon as complete and again at the end
//
//vf:covers complete,incomplete
func vhC24_order() {
	sum := 1 + vf.Choose(vhDelays(3, 4))
	u := vhNewUpload(13800000001, 0x0801, 42, sum)
	u.check()
	done := false
	for k := 0; k < sum+vhDelays(1, 2); k++ {
		seq := 1 + vf.Choose(sum+1)
		n := (2*k + seq) % 3
		if seq <= sum && u.have[seq] {
			// shorter than before, if there was something, or of the same length
			n = (len(u.data[seq]) + 2 + vf.Choose(2)) % 3
		}
		vf.SetClock(int64(k))
		u.write(seq, vf.Bytes(n))
		u.check()
		if u.full() && !done {
			vf.Cover("complete")
			done = true
			u.merge()
			u.check()
		}
	}
	if done {
		u.merge()
		u.merge()
	} else {
		vf.Cover("incomplete")
	}
}

// two uploads that differ in the terminal, the message type or the tag only
// (also by numbers that are prefixes of one another), parts written in turn:
// neither disturbs the other; 2 parts each
//
//vf:covers merged
func vhC24_apart() {
	u := vhNewUpload(1, 0x0801, 4, 2)
	var o *vhUpload
	switch vf.Choose(8) {
	case 0:
		o = vhNewUpload(11, 0x0801, 4, 2)
	case 1:
		o = vhNewUpload(1, 0x0801, 41, 2)
	case 2:
		o = vhNewUpload(1, 0x0801, 1<<31, 2)
	case 3:
		o = vhNewUpload(1, 0x0100, 4, 2)
	case 4:
		o = vhNewUpload(1, 0x0801, 0, 2)
	case 5:
		o = vhNewUpload(999999999999, 0x0801, 0xffffffff, 2)
	case 6:
		o = vhNewUpload(0, 0x0801, 4, 2)
	case 7:
		o = vhNewUpload(1, 0x0802, 4, 2)
	}
	all := []*vhUpload{u, o, u, o}
	first := 1 + vf.Choose(2)
	seqs := []int{first, 3 - first, 3 - first, first}
	for k, x := range all {
		x.write(seqs[k], vf.Bytes(1+k%2))
		u.check()
		o.check()
		if u.full() {
			u.merge()
		}
	}
	u.merge()
	o.merge()
	u.merge()
	vf.Cover("merged")
}

// nothing written: incomplete, merging fails or gives nothing, and nothing
// panics; also when another upload of the terminal exists
//
//vf:covers nothing,other
func vhC24_nothing() {
	u := vhNewUpload(7, 0x0801, 4, 1+vf.Choose(3))
	if vf.Choose(2) == 1 {
		vf.Cover("other")
		vhNewUpload(7, 0x0801, 5, 1).write(1, vf.Bytes(2))
	} else {
		vf.Cover("nothing")
	}
	u.check()
	if r, err := u.f.Merge(); err == nil {
		got, _ := ioutil.ReadAll(r)
		vf.Assert(len(got) == 0, "data made up for an upload with no parts")
		r.Close()
	}
	u.check()
}

// large part numbers and many parts: 12 parts (thorough: 30) written in
// reverse order, and a total of 65535 with few parts
//
//vf:steps 200000000
func vhC24_many() {
	n := vhDelays(12, 30)
	u := vhNewUpload(13800000001, 0x0801, 42, n)
	for seq := n; seq >= 1; seq-- {
		u.check()
		u.write(seq, []byte{byte(seq), vf.Byte()})
	}
	u.check()
	u.merge()
	if vf.Thorough() {
		x := vhNewUpload(1, 0x0801, 1, 65535)
		x.write(1, []byte{1})
		x.write(65535, []byte{2})
		vf.Assert(!x.f.IsFull(), "an upload with missing parts is reported as complete")
	}
}

// 257 parts, in order or in reverse order: complete with the last one only
//
//vf:steps 400000000
func vhC24_wide() {
	n := 257
	u := vhNewUpload(13800000001, 0x0801, 42, n)
	down := vf.Choose(2) == 1
	for i := 1; i <= n; i++ {
		seq := i
		if down {
			seq = n + 1 - i
		}
		u.write(seq, []byte{byte(seq), byte(seq >> 8)})
		if i == 1 || i == n-1 {
			u.check()
		}
	}
	u.check()
	u.merge()
}

// one storage failure at any point (failed writes may store part of the data)
// while storing a part: an error and a part that does not count (or counts
// with its earlier content), or success and a part that does; then the parts
// are written again
//
//vf:covers storage failure,stored,failed
func vhC24_faults() {
	u := vhNewUpload(13800000001, 0x0801, 42, 2)
	if vf.Choose(2) == 1 {
		u.write(1, vf.Bytes(2))
	}
	u.write(2, vf.Bytes(1))
	d := vf.Bytes(2)
	vf.FSFaults(1, true)
	err := u.f.Write(1, append([]byte{}, d...))
	vf.FSFaults(0, false)
	if err == nil {
		vf.Cover("stored")
		u.have[1], u.data[1] = true, d
	} else {
		vf.Cover("failed")
	}
	u.check()
	if u.full() {
		u.merge()
	}
	d = vf.Bytes(1)
	u.write(1, d)
	u.check()
	u.merge()
}

// one storage failure while merging: an error, or the right data; merging
// again works
//
//vf:covers storage failure
func vhC24_mergeFaults() {
	u := vhNewUpload(13800000001, 0x0801, 42, 2)
	u.write(1, vf.Bytes(2))
	u.write(2, vf.Bytes(1))
	vf.FSFaults(1, true)
	r, err := u.f.Merge()
	if err == nil {
		got, err := ioutil.ReadAll(r)
		if err == nil {
			vf.Assert(len(got) == 3, "merged data is too short or too long")
			vf.Assert(vf.EqBytes(got, u.content()), "merged data is not the parts in order")
		}
		r.Close()
	}
	vf.FSFaults(0, false)
	u.check()
	u.merge()
}

// vhMedia: the body of a part: media id, fixed part and payload
func vhMedia(media uint32, payload []byte) []byte {
	b := []byte{byte(media >> 24), byte(media >> 16), byte(media >> 8), byte(media), 0, 1, 2, 3}
	b = append(b, vhLocBytes...)
	return append(b, payload...)
}

type vhDelivery struct {
	icc   uint64
	media uint32
	data  []byte
}

// vhMerging is a server with packet merging and one connection
type vhMerging struct {
	s    *Server
	c    *vf.Conn
	got  []vhDelivery
	no   uint16
	step uint16 // serial numbers go up by 1+step
	bad  bool
	fail bool // reading in the handler may fail
}

func vhNewMerging(on bool) *vhMerging {
	x := &vhMerging{c: &vf.Conn{}}
	x.s = vhServe(Options{AutoMergePacket: on})
	x.s.AddHandler(protocol.MsgT808_0x0801, func(_ *Session, m *protocol.Message) {
		e := m.Body.(*protocol.T808_0x0801)
		vf.Assert(e.Packet != nil, "delivered without a reader")
		data, err := ioutil.ReadAll(e.Packet)
		vf.Assert(err == nil || x.fail, "the delivered data cannot be read")
		x.got = append(x.got, vhDelivery{m.Header.IccID, e.MediaID, data})
		if x.bad {
			panic("handler")
		}
	})
	vhConnect(x.s, x.c)
	return x
}

// part sends one part and gives the result of its acknowledgement (-1: none)
func (x *vhMerging) part(icc uint64, media uint32, sum, seq int, payload []byte) int {
	x.no += 1 + x.step
	no := x.no
	m := vhMsg{id: 0x0801, flags: 0x2000, icc: icc, serial: no, sum: uint16(sum), seq: uint16(seq), body: vhMedia(media, payload)}
	x.c.In = append(x.c.In, m.frame())
	vf.Settle()
	vf.Assert(!x.c.Closed, "connection closed")
	out := vhWritten(x.c)
	x.c.Out = nil
	if len(out) == 0 {
		return -1
	}
	vf.Assert(len(out) == 1, "a part is acknowledged more than once")
	a := out[0]
	vf.Assert(a.id == 0x8001 && len(a.body) == 5, "not a general reply")
	vf.Assert(a.icc == icc, "acknowledgement addressed to another terminal")
	vf.Assert(vf.EqBytes(a.body[:4], []byte{byte(no >> 8), byte(no), 8, 1}), "the acknowledgement does not echo the part")
	return int(a.body[4])
}

// vhSteady gives a payload that leaves the checksum as it is: 0, 2 or 3 bytes
func vhSteady(n int) []byte {
	if n == 0 {
		return nil
	}
	b := vf.Byte()
	vf.Assume(b < 0x70)
	return append([]byte{b, b}, make([]byte, n-1)...)
}

func vhPayload(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = vhNoEsc()
	}
	return b
}

// vhPerm gives the permutations of 1..n
func vhPerm(n int) []int {
	left := make([]int, n)
	for i := range left {
		left[i] = i + 1
	}
	var out []int
	for len(left) > 0 {
		k := vf.Choose(len(left))
		out = append(out, left[k])
		left = append(append([]int{}, left[:k]...), left[k+1:]...)
	}
	return out
}

// uploads of 1-3 parts in any order, with one part (not the last to arrive)
// sent twice or not, payloads of 0-2 bytes; then the same media id again with
// 1-3 parts; handlers that panic or not
//
//vf:covers twice
func vhC25_upload() {
	x := vhNewMerging(true)
	x.bad = vf.Choose(2) == 1
	for round := 1; round <= 2; round++ {
		sum := 1 + vf.Choose(3)
		order := vhPerm(sum)
		again := -1
		if round == 1 && sum > 1 && vf.Choose(2) == 1 {
			vf.Cover("twice")
			again = vf.Choose(sum - 1)
		}
		data := make([][]byte, sum+1)
		for k, seq := range order {
			vf.Assert(len(x.got) == round-1, "delivered before all parts have arrived")
			data[seq] = vhSteady((k + seq + round) % 3)
			vf.Assert(x.part(13800000001, 42, sum, seq, data[seq]) == 0, "a stored part is not acknowledged with success")
			if k == again {
				data[seq] = vhSteady(1)
				vf.Assert(x.part(13800000001, 42, sum, seq, data[seq]) == 0, "a repeated part is not acknowledged with success")
			}
		}
		vf.Assert(len(x.got) >= round, "not delivered although all parts have arrived")
		vf.Assert(len(x.got) == round, "delivered more than once")
		g := x.got[round-1]
		vf.Assert(g.icc == 13800000001 && g.media == 42, "delivered with another header")
		var want []byte
		for _, d := range data[1:] {
			want = append(want, d...)
		}
		vf.Assert(len(g.data) == len(want), "delivered data is not that of all parts")
		vf.Assert(vf.EqBytes(g.data, want), "delivered data differs")
	}
}

// two uploads (another media id, another terminal) with 2 parts each, their
// parts in any order: each is delivered when its last part has arrived
func vhC25_mixed() {
	x := vhNewMerging(true)
	icc := []uint64{13800000001, 13800000001}
	media := []uint32{42, 4}
	if vf.Choose(2) == 1 {
		icc[1], media[1] = 1380000000, 42
	}
	data := [2][3][]byte{}
	left := []int{2, 2}
	n := 0
	for _, p := range vhPerm(4) {
		u, seq := (p-1)/2, (p-1)%2+1
		data[u][seq] = vhPayload(seq)
		vf.Assert(x.part(icc[u], media[u], 2, seq, data[u][seq]) == 0, "a stored part is not acknowledged with success")
		left[u]--
		if left[u] == 0 {
			n++
		}
		vf.Assert(len(x.got) == n, "not delivered exactly when the last part has arrived")
		if left[u] == 0 {
			g := x.got[n-1]
			vf.Assert(g.icc == icc[u] && g.media == media[u], "delivered with another header")
			vf.Assert(len(g.data) == 3, "delivered data is not that of all parts")
			vf.Assert(vf.EqBytes(g.data, append(append([]byte{}, data[u][1]...), data[u][2]...)), "delivered data differs")
		}
	}
}

// one storage failure while a part arrives that is not the last: acknowledged
// with failure and not counted, or with success and counted; failed parts are
// sent again
//
//vf:covers storage failure,failed,stored
func vhC25_faults() {
	x := vhNewMerging(true)
	first := 1 + vf.Choose(2)
	a, b := vhPayload(2), vhPayload(1)
	vf.FSFaults(1, true)
	r := x.part(13800000001, 42, 2, first, a)
	vf.FSFaults(0, false)
	vf.Assert(r == 0 || r == 1, "a part is not acknowledged")
	vf.Assert(len(x.got) == 0, "delivered before all parts have arrived")
	vf.Assert(x.part(13800000001, 42, 2, 3-first, b) == 0, "a stored part is not acknowledged with success")
	if r == 1 {
		vf.Cover("failed")
		vf.Assert(len(x.got) == 0, "a part acknowledged with failure counts as received")
		vf.Assert(x.part(13800000001, 42, 2, first, a) == 0, "a part sent again is not acknowledged with success")
	} else {
		vf.Cover("stored")
	}
	vf.Assert(len(x.got) == 1, "not delivered although all parts are acknowledged with success")
	want := append(append([]byte{}, a...), b...)
	if first == 2 {
		want = append(append([]byte{}, b...), a...)
	}
	vf.Assert(len(x.got[0].data) == 3, "delivered data is not that of all parts")
	vf.Assert(vf.EqBytes(x.got[0].data, want), "delivered data differs")
}

// one storage failure while the last part arrives: what is delivered is right,
// and at most one delivery happens; if nothing was delivered, sending the last
// part again delivers
//
//vf:covers storage failure
func vhC25_lastFault() {
	x := vhNewMerging(true)
	x.fail = true
	a, b := vhPayload(2), vhPayload(1)
	x.part(13800000001, 42, 2, 1, a)
	vf.FSFaults(1, true)
	r := x.part(13800000001, 42, 2, 2, b)
	vf.FSFaults(0, false)
	vf.Assert(r == 0 || r == 1, "a part is not acknowledged")
	vf.Assert(r == 0 || len(x.got) == 0, "delivered although the last part is acknowledged with failure")
	vf.Assert(len(x.got) <= 1, "delivered more than once")
	if len(x.got) == 0 {
		x.fail = false
		vf.Assert(x.part(13800000001, 42, 2, 2, b) == 0, "a part sent again is not acknowledged with success")
		vf.Assert(len(x.got) == 1, "not delivered although all parts have arrived")
		vf.Assert(vf.EqBytes(x.got[0].data, append(append([]byte{}, a...), b...)), "delivered data differs")
	}
}

// merging off: every part is dispatched as it is, none is acknowledged by the
// server itself; merging on: messages that are not split are dispatched as
// they are
//
//vf:covers off,whole
func vhC25_asIs() {
	off := vf.Choose(2) == 0
	x := vhNewMerging(!off)
	order := vhPerm(3)
	for k, seq := range order {
		d := vhPayload(seq - 1)
		if off {
			vf.Cover("off")
			vf.Assert(x.part(13800000001, 42, 3, seq, d) == -1, "a part is acknowledged by the server")
		} else {
			vf.Cover("whole")
			x.c.In = append(x.c.In, vhMsg{id: 0x0801, icc: 13800000001, serial: 1, body: vhMedia(42, d)}.frame())
			vf.Settle()
			vf.Assert(len(x.c.Out) == 0, "a message that is not split is acknowledged by the server")
		}
		vf.Assert(len(x.got) == k+1, "not dispatched once")
		vf.Assert(x.got[k].media == 42 && len(x.got[k].data) == len(d), "dispatched with other data")
		vf.Assert(vf.EqBytes(x.got[k].data, d), "dispatched with other data")
	}
}

// parts with numbers outside 1..total (0, total+1, 65535): never delivered as
// part of the upload
func vhC25_range() {
	x := vhNewMerging(true)
	bad := []int{0, 3, 65535}[vf.Choose(3)]
	at := vf.Choose(3)
	a, b := vhPayload(1), vhPayload(2)
	for k := 0; k < 3; k++ {
		if k == at {
			x.part(13800000001, 42, 2, bad, []byte{9})
		}
		if k == 0 {
			x.part(13800000001, 42, 2, 1, a)
		}
		if k == 1 {
			vf.Assert(len(x.got) == 0, "delivered before all parts have arrived")
			x.part(13800000001, 42, 2, 2, b)
		}
	}
	vf.Assert(len(x.got) == 1, "not delivered exactly once")
	vf.Assert(len(x.got[0].data) == 3, "delivered data is not that of the parts")
	vf.Assert(vf.EqBytes(x.got[0].data, append(append([]byte{}, a...), b...)), "delivered data differs")
}

// an upload of 12 parts in several orders, one part (any) sent twice; then
// another one with the same media id
func vhC25_many() {
	x := vhNewMerging(true)
	n := 12
	again := vf.Choose(n)
	for round := 1; round <= 2; round++ {
		step := []int{1, 5, 7, 11}[vf.Choose(4)]
		data := make([][]byte, n+1)
		for k := 0; k < n; k++ {
			seq := k*step%n + 1
			vf.Assert(len(x.got) == round-1, "delivered before all parts have arrived")
			data[seq] = []byte{byte(seq), byte(16*round + k)}
			vf.Assert(x.part(13800000001, 42, n, seq, data[seq]) == 0, "a stored part is not acknowledged with success")
			if k == again && k < n-1 {
				vf.Assert(x.part(13800000001, 42, n, seq, data[seq]) == 0, "a repeated part is not acknowledged with success")
			}
		}
		vf.Assert(len(x.got) == round, "not delivered once when all parts have arrived")
		var want []byte
		for _, d := range data[1:] {
			want = append(want, d...)
		}
		vf.Assert(len(x.got[round-1].data) == len(want), "delivered data is not that of all parts")
		vf.Assert(vf.EqBytes(x.got[round-1].data, want), "delivered data differs")
	}
}

// 2 parts that arrive over two connections of the terminal, in any order, the
// first of which may be closed in between; a third connection then uploads
// under the same media id
func vhC25_connections() {
	x := vhNewMerging(true)
	order := vhPerm(2)
	data := [][]byte{nil, vhPayload(1), vhPayload(2)}
	for k, seq := range order {
		if k == 1 {
			if vf.Choose(2) == 1 {
				x.c.EOF = true
				vf.Settle()
			}
			x.c = &vf.Conn{}
			vhConnect(x.s, x.c)
		}
		vf.Assert(len(x.got) == 0, "delivered before all parts have arrived")
		vf.Assert(x.part(13800000001, 42, 2, seq, data[seq]) == 0, "a stored part is not acknowledged with success")
	}
	vf.Assert(len(x.got) == 1, "not delivered although all parts have arrived")
	vf.Assert(len(x.got[0].data) == 3, "delivered data is not that of all parts")
	vf.Assert(vf.EqBytes(x.got[0].data, append(append([]byte{}, data[1]...), data[2]...)), "delivered data differs")
}

// uploads of 2 and of 3 parts in any order whose serial numbers are all the
// same (0 or another), go down, or skip some, a part sent twice in a row, then
// another upload: serial numbers do not matter
func vhC25_serials() {
	x := vhNewMerging(true)
	x.step = []uint16{65535, 65534, 1, 255}[vf.Choose(4)]
	x.no = []uint16{0, 5, 65535}[vf.Choose(3)]
	for k := 0; k < 2; k++ {
		sum := 2 + k
		var want []byte
		order := vhPerm(sum)
		order = append([]int{order[0]}, order...)
		for i := 1; i <= sum; i++ {
			want = append(want, byte(8*k+i))
		}
		for _, seq := range order {
			vf.Assert(len(x.got) == k, "delivered before all parts have arrived")
			vf.Assert(x.part(13800000001, uint32(42+k), sum, seq, []byte{byte(8*k + seq)}) == 0, "a stored part is not acknowledged with success")
		}
		vf.Assert(len(x.got) == k+1, "not delivered once although all parts have arrived")
		vf.Assert(vf.EqBytes(x.got[k].data, want), "delivered data differs")
	}
}

// 2 parts that arrive over two connections at the same time, or both parts on one connection and one of them on
// the other as well; schedules with at most 1 delay
//
//vf:covers resent
func vhC25_together() {
	x := vhNewMerging(true)
	c := &vf.Conn{}
	vhConnect(x.s, c)
	f := func(seq int) []byte {
		return vhMsg{id: 0x0801, flags: 0x2000, icc: 13800000001, serial: uint16(seq), sum: 2, seq: uint16(seq), body: vhMedia(42, []byte{byte(seq)})}.frame()
	}
	first, n := f(1), 1
	if vf.Choose(2) == 1 {
		vf.Cover("resent")
		first, n = append(first, f(2)...), 2
	}
	vf.SetFine(true)
	vf.SetDelays(1)
	x.c.In = append(x.c.In, first)
	c.In = append(c.In, f(2))
	vf.Settle()
	vf.SetFine(false)
	vf.SetDelays(0)
	vf.Settle()
	for i, c := range []*vf.Conn{c, x.c} {
		out := vhWritten(c)
		vf.Assert(len(out) == 1+i*(n-1), "a part is not acknowledged once")
		for _, a := range out {
			vf.Assert(a.id == 0x8001 && a.body[4] == 0, "a stored part is not acknowledged with success")
		}
	}
	vf.Assert(len(x.got) >= 1, "not delivered although all parts have arrived")
	vf.Assert(len(x.got) == 1, "delivered more than once")
	vf.Assert(vf.EqBytes(x.got[0].data, []byte{1, 2}), "delivered data differs")
}
