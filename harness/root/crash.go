package go808

import (
	"io/ioutil"

	"gitee.com/coco/go808/protocol"
	vf "gitee.com/coco/go808/zzvf"
)

// uploads of 1-2 (thorough: 3) parts in any order, a part sent twice or not, a
// part of another upload stored before. The process is killed at any one
// file operation (a write perhaps stored in part) or not at all, and a new server gets
// the parts that have not been acknowledged with success (or the last one, if
// all have): it acknowledges them and delivers the upload if it had not been
// delivered before, with exactly its payloads; then the other upload as well
//
//vf:covers crash,undelivered,delivered,whole
func vhC34_server() {
	sum := 1 + vf.Choose(vhDelays(2, 3))
	order := vhPerm(sum)
	if sum > 1 && vf.Choose(2) == 1 {
		order = append([]int{order[0]}, order...)
	}
	var data [4][]byte
	var want []byte
	for i := 1; i <= sum; i++ {
		data[i] = vhPayload(2)
		want = append(want, data[i]...)
	}
	x := vhNewMerging(true)
	x.fail = true
	vf.Assert(x.part(13800000001, 77, 2, 2, []byte{9}) == 0, "a stored part is not acknowledged with success")
	var acked [4]bool
	x.c.OnWrite = func(b []byte) (int, error) {
		if !vf.FSDead() { // what a killed process would send never leaves it
			x.c.Out = append(x.c.Out, append([]byte(nil), b...))
		}
		return len(b), nil
	}
	vf.FSCrash()
	delivered := 0
	for _, seq := range order {
		r := x.part(13800000001, 42, sum, seq, data[seq])
		for ; delivered < len(x.got); delivered++ {
			vf.Assert(vf.EqBytes(x.got[delivered].data, want) || vf.FSDead(), "delivered data differs")
		}
		if r == 0 {
			acked[seq] = true
		}
		if vf.FSDead() {
			break
		}
		vf.Assert(r == 0, "a stored part is not acknowledged with success")
	}
	dead := vf.FSDead()
	x.s.Stop()
	vf.Settle()
	vf.FSRestart()
	if !dead {
		vf.Cover("whole")
		vf.Assert(len(x.got) == 1, "not delivered although all parts have arrived")
	}
	y := vhNewMerging(true)
	if len(x.got) > 0 {
		vf.Cover("delivered")
		delivered = len(x.got)
	} else {
		vf.Cover("undelivered")
		last := order[len(order)-1]
		all := true
		for i := 1; i <= sum; i++ {
			if !acked[i] {
				all = false
			}
		}
		for _, seq := range order {
			if !acked[seq] || all && seq == last {
				vf.Assert(len(y.got) == 0, "delivered before all parts have arrived")
				vf.Assert(y.part(13800000001, 42, sum, seq, data[seq]) == 0, "a part sent after the crash is not acknowledged with success")
				acked[seq] = true
				if all {
					break
				}
			}
		}
		vf.Assert(len(y.got) == 1, "an upload whose parts are all acknowledged is not delivered after a crash")
		vf.Assert(len(y.got[0].data) == 2*sum, "data delivered after a crash is not that of all parts")
		vf.Assert(vf.EqBytes(y.got[0].data, want), "data delivered after a crash differs")
	}
	y.got = nil
	vf.Assert(y.part(13800000001, 77, 2, 1, []byte{8}) == 0, "a part sent after the crash is not acknowledged with success")
	vf.Assert(len(y.got) == 1, "a part acknowledged before the crash is lost")
	vf.Assert(vf.EqBytes(y.got[0].data, []byte{8, 9}), "data delivered after a crash differs")
}

// 4 (thorough: 5) operations on an upload of 2 parts: writing a part (0-2 bytes,
// new content each time), checking, merging and reading; the process is killed
// at any one file operation. Afterwards a part is there if and only if a write
// of it had succeeded (or was under way), with the last content written
// (or that of the write under way), and nothing else
//
//vf:covers crash,full,incomplete
func vhC34_file() {
	m := MultipartFile{IccID: 13800000001, MsgID: protocol.MsgT808_0x0801, Tag: 42, Sum: 2}
	var now, next [3][]byte
	has, may := [3]bool{}, [3]bool{}
	vf.FSCrash()
	for k := 0; k < vhDelays(4, 5) && !vf.FSDead(); k++ {
		vf.SetClock(int64(k))
		switch op := vf.Choose(4); op {
		case 0, 1:
			seq := op + 1
			d := make([]byte, vf.Choose(3))
			for i := range d {
				d[i] = byte(0x10*k + 0x80 + i)
			}
			err := m.Write(uint16(seq), d)
			if vf.FSDead() {
				next[seq], may[seq] = d, true
				break
			}
			vf.Assert(err == nil, "writing a part fails")
			now[seq], has[seq] = d, true
		case 2:
			full := m.IsFull()
			vf.Assert(full == (has[1] && has[2]) || vf.FSDead(), "complete although a part is missing, or incomplete although none is")
		case 3:
			r, err := m.Merge()
			if err == nil {
				ioutil.ReadAll(r)
				r.Close()
			}
		}
	}
	vf.FSRestart()
	vf.SetClock(60)
	full := m.IsFull()
	for i := 1; i <= 2; i++ {
		vf.Assert(!full || has[i] || may[i], "a part counts that was not written")
	}
	if has[1] && has[2] {
		vf.Assert(full, "a part stored before the crash is lost")
	}
	if !full {
		vf.Cover("incomplete")
		for i := 1; i <= 2; i++ {
			if !has[i] {
				now[i], may[i] = []byte{byte(i)}, false
				vf.Assert(m.Write(uint16(i), now[i]) == nil, "writing a part after the crash fails")
			}
		}
		vf.Assert(m.IsFull(), "a part stored before the crash is lost")
	} else {
		vf.Cover("full")
	}
	r, err := m.Merge()
	vf.Assert(err == nil, "merging after the crash fails")
	got, err := ioutil.ReadAll(r)
	vf.Assert(err == nil, "the merged data cannot be read")
	r.Close()
	ok := false
	for c := 0; c < 4; c++ {
		a, b := now[1], now[2]
		if c&1 == 1 {
			if !may[1] {
				continue
			}
			a = next[1]
		} else if full && !has[1] {
			continue
		}
		if c&2 == 2 {
			if !may[2] {
				continue
			}
			b = next[2]
		} else if full && !has[2] {
			continue
		}
		ok = vf.Or(ok, string(got) == string(a)+string(b))
	}
	vf.Assert(ok, "the merged data is not that of the parts stored")
}
