package protocol

import (
	"bytes"
	"io/ioutil"

	"gitee.com/coco/go808/protocol/extra"
	vf "gitee.com/coco/go808/zzvf"
	"github.com/shopspring/decimal"
)

// vhTwo gives two messages of one type: lists and texts of different sizes,
// coordinates and times fixed, all other values symbolic
func vhTwo(k int) (a, b vhCase, da, db Entity) {
	ms := vhMakers()
	vf.Shape(0)
	a = ms[k].mk()
	vf.Shape(1)
	b = ms[k].mk()
	vf.Shape(-1)
	return a, b, ms[k].dst(), ms[k].dst()
}

// vhJob encodes a body and decodes the result
type vhJob struct {
	c         vhCase
	want, dst Entity
	data      []byte
	err       error
	done      bool
}

func vhNewJob(c vhCase, dst Entity) *vhJob {
	return &vhJob{c: c, want: vf.Clone(c.want).(Entity), dst: dst}
}

func (j *vhJob) run() {
	j.data, j.err = j.c.e.Encode()
	if j.err == nil {
		_, j.err = j.dst.Decode(j.data)
	}
	j.done = true
}

func (j *vhJob) check() {
	vf.Assert(j.err == nil, "encoding or decoding fails")
	vf.Assert(len(j.data) == len(j.c.wire), "encoded body differs")
	vf.Assert(vf.EqBytes(j.data, j.c.wire), "encoded body differs")
	vf.Assert(vf.Equal(j.dst, j.want), "decoded body differs")
}

// vhTogether runs two tasks with scheduling points between the statements of the
// protocol packages; delays as given
func vhTogether(n int, f, g func()) {
	vf.Sched(n, false)
	left := 2
	vf.SetFiner(true)
	vf.Go(func() { f(); left-- })
	vf.Go(func() { g(); left-- })
	vf.WaitUntil(func() bool { return left == 0 })
	vf.SetFiner(false)
}

// two messages of the same type, encoded and decoded by two goroutines at the
// same time: every type; all schedules with 1 delay between any statements of
// the protocol packages
func vhC29_bodies() {
	a, b, da, db := vhTwo(vf.Choose(len(vhMakers())))
	x, y := vhNewJob(a, da), vhNewJob(b, db)
	vhTogether(1, x.run, y.run)
	x.check()
	y.check()
}

// a message of every type encoded by two goroutines at the same time, as a
// broadcast does; all schedules with 1 delay
func vhC29_same() {
	a, _, da, db := vhTwo(vf.Choose(len(vhMakers())))
	x, y := vhNewJob(a, da), vhNewJob(a, db)
	vhTogether(1, x.run, y.run)
	x.check()
	y.check()
}

// encoding a message of every type, another one of its type and one of another
// type, and the first one again, then decoding in the same order: what was
// returned before stays as it is, and the same comes out again
func vhC29_again() {
	k := vf.Choose(len(vhMakers()))
	a, b, da, db := vhTwo(k)
	ms := vhMakers()
	x, y := vhNewJob(a, da), vhNewJob(b, db)
	z := vhNewJob(a, ms[k].dst())
	o := &T808_0x8900{Type: vf.Byte(), Data: vf.Bytes(40)}
	for _, j := range []*vhJob{x, y, z} {
		j.data, j.err = j.c.e.Encode()
		vf.Assert(j.err == nil, "encoding fails")
		_, err := o.Encode()
		vf.Assert(err == nil, "encoding fails")
	}
	for _, j := range []*vhJob{x, y, z} {
		vf.Assert(len(j.data) == len(j.c.wire), "encoded body differs")
		vf.Assert(vf.EqBytes(j.data, j.c.wire), "encoded body differs after encoding others, or encoded again")
	}
	for _, j := range []*vhJob{x, y, z} {
		_, err := j.dst.Decode(j.data)
		vf.Assert(err == nil, "decoding fails")
	}
	for _, j := range []*vhJob{x, y, z} {
		j.check()
	}
}

// two location reports, each with one extra of the same kind (every kind), by
// two goroutines at the same time; 1 delay
func vhC29_extras() {
	kind := vf.Choose(vhKinds)
	mk := func(tag byte) *vhJob {
		loc, wire := vhLoc1()
		loc.Alarm = uint32(tag)
		wire = append([]byte{}, wire...)
		wire[3] = tag
		e, id, _, data := vhExtra(kind)
		loc.Extras = []extra.Entity{e}
		wire = append(append(wire, id, byte(len(data))), data...)
		return &vhJob{c: vhCase{e: &loc, wire: wire}, dst: new(T808_0x0200)}
	}
	x, y := mk(1), mk(2)
	vhTogether(1, x.run, y.run)
	for i, j := range []*vhJob{x, y} {
		vf.Assert(j.err == nil, "encoding or decoding fails")
		vf.Assert(len(j.data) == len(j.c.wire), "encoded body differs")
		vf.Assert(vf.EqBytes(j.data, j.c.wire), "encoded body differs")
		got := j.dst.(*T808_0x0200)
		vf.Assert(got.Alarm == uint32(i+1) && len(got.Extras) == 1, "decoded body differs")
		out, err := got.Encode()
		vf.Assert(err == nil, "encoding the decoded body fails")
		vf.Assert(len(out) == len(j.c.wire), "encoding the decoded body gives something else")
		vf.Assert(vf.EqBytes(out, j.c.wire), "encoding the decoded body gives something else")
	}
}

// two whole frames (pass-through messages of 3 and 2 bytes, none of which need
// escaping, or all; split, encrypted, or neither), encoded and decoded by two
// goroutines at the same time; at most 1 (thorough 2) delays
//
//vf:covers encrypted,split
func vhC29_frames() {
	esc, crypt, split := vf.Choose(2) == 1, vf.Choose(2) == 1, vf.Choose(2) == 1
	key := vf.NewKey(48)
	type job struct {
		m, got Message
		data   []byte
		err    error
	}
	var jobs []*job
	var wires [][]byte
	for i := 0; i < 2; i++ {
		d := make([]byte, 3-i)
		for k := range d {
			d[k] = vf.Byte()
			vf.Assume(d[k] < 0x60)
			if esc {
				d[k] = 0x7d + byte(i)
			}
		}
		e := &T808_0x0900{Type: byte(i + 1), Data: d}
		m := Message{Header: Header{MsgID: 0x0900, IccID: uint64(13800000001 + i*1111), MsgSerialNo: uint16(0x101 * (i + 1))}, Body: e}
		if split {
			vf.Cover("split")
			m.Header.Packet = &Packet{Sum: uint16(5 + i), Seq: uint16(2 + i)}
		}
		if crypt {
			vf.Cover("encrypted")
			m.Header.Property = 0x400
		}
		jobs = append(jobs, &job{m: m})
		if !crypt && !split {
			// the frame, independently
			w := vhW{[]byte{9, 0, 0, byte(4 - i)}}
			icc := []byte{0x01, 0x38, 0x00, 0x00, 0x00, 0x01}
			if i == 1 {
				icc = []byte{0x01, 0x38, 0x00, 0x00, 0x11, 0x12}
			}
			w.raw(icc)
			w.u16(m.Header.MsgSerialNo)
			w.u8(e.Type)
			w.raw(d)
			wires = append(wires, vhFrame(w.b))
		}
	}
	run := func(j *job) func() {
		return func() {
			if crypt {
				j.data, j.err = j.m.Encode(&key.PublicKey)
			} else {
				j.data, j.err = j.m.Encode()
			}
			if j.err == nil {
				j.err = j.got.Decode(j.data, key)
			}
		}
	}
	n := 1
	if vf.Thorough() {
		n = 2
	}
	vhTogether(n, run(jobs[0]), run(jobs[1]))
	for i, j := range jobs {
		vf.Assert(j.err == nil, "encoding or decoding fails")
		vf.Assert(j.got.Header.IccID == j.m.Header.IccID && j.got.Header.MsgSerialNo == j.m.Header.MsgSerialNo, "decoded header differs")
		vf.Assert((j.got.Header.Packet != nil) == split, "decoded header differs")
		if split {
			vf.Assert(*j.got.Header.Packet == *j.m.Header.Packet, "decoded packet numbers differ")
		}
		vf.Assert(vf.Equal(j.got.Body, j.m.Body), "decoded body differs")
		if wires != nil {
			vf.Assert(len(j.data) == len(wires[i]), "encoded frame differs")
			vf.Assert(vf.EqBytes(j.data, wires[i]), "encoded frame differs")
		}
	}
}

// two media messages and two compressed reports, by two goroutines at the same
// time; 1 delay
func vhC29_media() {
	type job struct {
		in, got  Entity
		data, pl []byte
		err      error
	}
	gz := vf.Choose(2) == 1
	mk := func(i int) *job {
		pl := vf.Bytes(2 + i)
		if gz {
			return &job{in: &T808_0x0901{Uncompressed: pl}, got: new(T808_0x0901), pl: pl}
		}
		loc, _ := vhLoc1()
		loc.Lat = decimal.New(int64(10+i), 0)
		return &job{in: &T808_0x0801{MediaID: uint32(i + 7), Location: loc, Packet: bytes.NewReader(pl)}, got: new(T808_0x0801), pl: pl}
	}
	run := func(j *job) func() {
		return func() {
			j.data, j.err = j.in.Encode()
			if j.err != nil {
				return
			}
			if gz {
				_, j.err = j.got.Decode(j.data)
			} else {
				j.err = j.got.(*T808_0x0801).DecodePacket(j.data)
			}
		}
	}
	x, y := mk(0), mk(1)
	vhTogether(1, run(x), run(y))
	for i, j := range []*job{x, y} {
		vf.Assert(j.err == nil, "encoding or decoding fails")
		var out []byte
		if gz {
			out = j.got.(*T808_0x0901).Uncompressed
		} else {
			e := j.got.(*T808_0x0801)
			vf.Assert(e.MediaID == uint32(i+7) && e.Location.Lat.Equal(decimal.New(int64(10+i), 0)), "media fields differ")
			out, _ = ioutil.ReadAll(e.Packet)
		}
		vf.Assert(len(out) == len(j.pl), "payload differs")
		vf.Assert(vf.EqBytes(out, j.pl), "payload differs")
	}
}
