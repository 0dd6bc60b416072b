package go808

import (
	"bytes"
	"io"

	"gitee.com/coco/go808/protocol"
	vf "gitee.com/coco/go808/zzvf"
)

func vhCodec(rw *vhRW) interface {
	Receive() (interface{}, error)
	Send(interface{}) error
} {
	c, err := Protocol{}.NewCodec(rw)
	vf.Assert(err == nil, "no codec")
	return c
}

// vhCut splits data at up to n places, empty pieces left out
func vhCut(data []byte, n int) [][]byte {
	var out [][]byte
	at := 0
	for i := 0; i < n && at < len(data); i++ {
		k := vf.Choose(len(data) - at + 1)
		if k > 0 {
			out = append(out, append([]byte{}, data[at:at+k]...))
			at += k
		}
	}
	if at < len(data) {
		out = append(out, append([]byte{}, data[at:]...))
	}
	return out
}

func vhGot(v interface{}, err error, body protocol.Entity, serial uint16) protocol.Message {
	vf.Assert(err == nil, "a complete frame is not received")
	m, ok := v.(protocol.Message)
	vf.Assert(ok, "received value is not a message")
	vf.Assert(m.Header.MsgSerialNo == serial, "message missing, repeated or out of order")
	vf.Assert(m.Header.IccID == 13800000001, "terminal number differs")
	vf.Assert(m.Body != nil && vf.Equal(m.Body, body), "message content differs")
	return m
}

// 3 frames (pass-through with 1, 0 and 2 symbolic bytes), split at every pair
// of places (thorough: every three places)
//
//vf:covers all
func vhC05_chunks() {
	a, fa := vhPlain(1, 1)
	b, fb := vhPlain(2, 0)
	c, fc := vhPlain(3, 2)
	data := append(append(append([]byte{}, fa...), fb...), fc...)
	cuts := 2
	if vf.Thorough() {
		cuts = 3
	}
	rw := &vhRW{chunks: vhCut(data, cuts), err: vf.ErrNet, errWithData: vf.Choose(2) == 1}
	codec := vhCodec(rw)
	v, err := codec.Receive()
	m1 := vhGot(v, err, a, 1)
	v, err = codec.Receive()
	m2 := vhGot(v, err, b, 2)
	v, err = codec.Receive()
	m3 := vhGot(v, err, c, 3)
	_, err = codec.Receive()
	vf.Assert(err != nil, "message made up at the end of the stream")
	vf.Assert(vf.And(vf.Equal(m1.Body, a), vf.Equal(m2.Body, b), vf.Equal(m3.Body, c)), "a message delivered earlier was altered")
	vf.Cover("all")
}

// 2 frames whose bytes may need escaping (3 arbitrary data bytes each), split
// at every place
func vhC05_escaped() {
	body := vf.Bytes(3)
	f1 := vhMsg{id: 0x0900, icc: 13800000001, serial: 1, body: body}.frame()
	f2 := vhMsg{id: 0x0900, icc: 13800000001, serial: 0x7d7e, body: []byte{0x7e, body[2]}}.frame()
	rw := &vhRW{chunks: vhCut(append(append([]byte{}, f1...), f2...), 1), err: vf.ErrNet}
	codec := vhCodec(rw)
	v, err := codec.Receive()
	m1 := vhGot(v, err, &protocol.T808_0x0900{Type: body[0], Data: append([]byte{}, body[1:]...)}, 1)
	v, err = codec.Receive()
	vhGot(v, err, &protocol.T808_0x0900{Type: 0x7e, Data: []byte{body[2]}}, 0x7d7e)
	vf.Assert(vf.Equal(m1.Body, &protocol.T808_0x0900{Type: body[0], Data: append([]byte{}, body[1:]...)}), "a message delivered earlier was altered")
	_, err = codec.Receive()
	vf.Assert(err == vf.ErrNet, "read error not reported")
}

// frames longer than one read: 6 (thorough: 20) frames of 100-160 bytes each arriving in one
// piece or in pieces of 1, 127, 128, 129 and 1000 bytes; and the longest frame
// (1023 body bytes, all escaped) followed by a short one
//
//vf:covers many,longest
func vhC05_long() {
	k := []int{1, 127, 128, 129, 1000, 1 << 20}[vf.Choose(6)]
	var data []byte
	var want []*protocol.T808_0x0900
	if vf.Choose(2) == 0 {
		vf.Cover("many")
		n := 6
		if vf.Thorough() {
			n = 20
		}
		for i := 0; i < n; i++ {
			d := make([]byte, 85+i*11%60)
			for j := range d {
				d[j] = byte(i + j)
			}
			want = append(want, &protocol.T808_0x0900{Type: byte(i), Data: d})
		}
	} else {
		vf.Cover("longest")
		d := bytes.Repeat([]byte{0x7e}, 1022)
		d[1021] = vf.Byte()
		want = append(want, &protocol.T808_0x0900{Type: 0x7d, Data: d}, &protocol.T808_0x0900{Type: 1, Data: []byte{}})
	}
	for i, w := range want {
		data = append(data, vhMsg{id: 0x0900, icc: 13800000001, serial: uint16(i + 1), body: append([]byte{w.Type}, w.Data...)}.frame()...)
	}
	rw := &vhRW{err: vf.ErrNet}
	for at := 0; at < len(data); at += k {
		end := at + k
		if end > len(data) {
			end = len(data)
		}
		rw.chunks = append(rw.chunks, data[at:end])
	}
	codec := vhCodec(rw)
	var got []protocol.Message
	for i, w := range want {
		v, err := codec.Receive()
		got = append(got, vhGot(v, err, w, uint16(i+1)))
	}
	_, err := codec.Receive()
	vf.Assert(err == vf.ErrNet, "read error not reported")
	for i, m := range got {
		vf.Assert(vf.Equal(m.Body, want[i]), "a message delivered earlier was altered")
	}
}

// a connection that lasts: 700 frames of 100-130 bytes, 80 kB together, arriving in
// pieces of 100 or 5000 bytes: all are delivered
//
//vf:steps 400000000
func vhC05_endless() {
	var data []byte
	var sizes []int
	for i := 0; i < 700; i++ {
		d := make([]byte, 85+i*11%30)
		for j := range d {
			d[j] = byte(i + j)
		}
		sizes = append(sizes, len(d))
		data = append(data, vhMsg{id: 0x0900, icc: 13800000001, serial: uint16(i + 1), body: append([]byte{byte(i)}, d...)}.frame()...)
	}
	k := []int{100, 5000}[vf.Choose(2)]
	rw := &vhRW{err: vf.ErrNet}
	for ; len(data) > k; data = data[k:] {
		rw.chunks = append(rw.chunks, data[:k])
	}
	rw.chunks = append(rw.chunks, data)
	codec := vhCodec(rw)
	for i, n := range sizes {
		v, err := codec.Receive()
		vf.Assert(err == nil, "a frame is refused")
		m := v.(protocol.Message)
		e := m.Body.(*protocol.T808_0x0900)
		vf.Assert(m.Header.MsgSerialNo == uint16(i+1) && e.Type == byte(i) && len(e.Data) == n, "another frame is delivered")
		for j, x := range e.Data {
			if x != byte(i+j) {
				vf.Fail("the data delivered differs")
			}
		}
	}
	_, err := codec.Receive()
	vf.Assert(err == vf.ErrNet, "read error not reported")
}

// a stream that starts with 1-3 bytes other than 0x7e (at the start or after a
// frame), split at every place: an error, and the frames around it are still
// received
func vhC05_garbage() {
	b, fb := vhPlain(1, 1)
	n := 1 + vf.Choose(3)
	junk := vf.Bytes(n)
	for _, x := range junk {
		vf.Assume(x != 0x7e)
	}
	after := vf.Choose(2) == 1
	data := append([]byte{}, junk...)
	data = append(data, fb...)
	if after {
		data = append(append([]byte{}, fb...), data...)
	}
	rw := &vhRW{chunks: vhCut(data, 1), err: vf.ErrNet}
	codec := vhCodec(rw)
	if after {
		v, err := codec.Receive()
		vhGot(v, err, b, 1)
	}
	_, err := codec.Receive()
	vf.Assert(err != nil, "data outside a frame is not reported")
	vf.Assert(err != vf.ErrNet, "data outside a frame is not reported")
	for k := 0; ; k++ { // once for every read that brought some of it
		v, err := codec.Receive()
		if err == nil || k == n {
			vhGot(v, err, b, 1)
			break
		}
	}
	_, err = codec.Receive()
	vf.Assert(err == vf.ErrNet, "another error than the read error is reported")
}

// 1-2 complete frames followed by the beginning (any number of bytes) of
// another, after which the stream ends; split at every place: the complete
// frames are delivered, then the read error is reported
func vhC05_tail() {
	a, fa := vhPlain(1, 1)
	b, fb := vhPlain(2, 0)
	_, fc := vhPlain(3, 1)
	data := append([]byte{}, fa...)
	two := vf.Choose(2) == 1
	if two {
		data = append(data, fb...)
	}
	data = append(data, fc[:vf.Choose(len(fc))]...)
	rw := &vhRW{chunks: vhCut(data, 1), err: vf.ErrNet, errWithData: vf.Choose(2) == 1}
	codec := vhCodec(rw)
	v, err := codec.Receive()
	vhGot(v, err, a, 1)
	if two {
		v, err = codec.Receive()
		vhGot(v, err, b, 2)
	}
	v, err = codec.Receive()
	vf.Assert(err == vf.ErrNet, "another error than the read error is reported")
	vf.Assert(v == nil, "a value is delivered for a truncated frame")
}

// the same frame cut off after every number of bytes: nothing but the read
// error, whatever the split
func vhC05_truncated() {
	_, fb := vhPlain(1, 2)
	n := vf.Choose(len(fb))
	rw := &vhRW{chunks: vhCut(fb[:n], 1), err: vf.ErrNet, errWithData: vf.Choose(2) == 1}
	v, err := vhCodec(rw).Receive()
	vf.Assert(err != nil, "a message is delivered for a truncated frame")
	vf.Assert(v == nil, "a value is delivered for a truncated frame")
	vf.Assert(err == vf.ErrNet, "another error than the read error is reported")
}

// a damaged frame between two good ones: an error for it, and the next Receive
// gives the following frame; damage: one changed byte of the content
func vhC05_damaged() {
	a, fa := vhPlain(1, 1)
	_, fx := vhPlain(2, 1)
	b, fb := vhPlain(3, 0)
	at := 1 + vf.Choose(len(fx)-2)
	x := vhNoEsc()
	vf.Assume(x != fx[at])
	fx[at] = x
	data := append(append(append([]byte{}, fa...), fx...), fb...)
	rw := &vhRW{chunks: vhCut(data, 1), err: vf.ErrNet}
	codec := vhCodec(rw)
	v, err := codec.Receive()
	vhGot(v, err, a, 1)
	_, err = codec.Receive()
	vf.Assert(err != nil, "a damaged frame is delivered")
	v, err = codec.Receive()
	vhGot(v, err, b, 3)
}

// bodies around the multiples of 1024 up to 5 x 1024 and around 65536: an
// error exactly when the body is longer than 1023 bytes; symbolic first and
// last bytes
//
//vf:covers sent,refused
func vhC06_encode() {
	n := []int{1, 2, 1022, 1023, 1024, 1025, 2047, 2048, 2049, 3072, 3073, 4095, 4096, 4097, 5120, 65535, 65536, 65537, 66559, 66560}[vf.Choose(20)]
	d := make([]byte, n-1)
	if n > 1 {
		d[0], d[n-2] = vf.Byte(), vf.Byte()
	}
	e := &protocol.T808_0x0900{Type: vf.Byte(), Data: d}
	m := protocol.Message{Header: protocol.Header{IccID: 5, MsgSerialNo: 1}, Body: e}
	if vf.Choose(2) == 1 {
		m.Header.Packet = &protocol.Packet{Sum: 2, Seq: 1}
	}
	data, err := m.Encode()
	if n > 1023 {
		vf.Cover("refused")
		vf.Assert(err != nil, "a body longer than 1023 bytes is encoded")
		return
	}
	vf.Cover("sent")
	vf.Assert(err == nil, "a body that fits is refused")
	p, ok := vhParseFrame(data)
	vf.Assert(ok, "malformed frame or wrong length field")
	vf.Assert(len(p.body) == n, "body cut or padded")
}

// encrypted bodies: the limit applies to the ciphertext
//
//vf:covers sent,refused
func vhC06_encrypted() {
	n := []int{1, 86, 87, 601, 602, 603, 688, 1023, 1024}[vf.Choose(9)]
	d := make([]byte, n-1)
	key := vf.NewKey(128)
	e := &protocol.T808_0x0900{Type: vf.Byte(), Data: d}
	m := protocol.Message{Header: protocol.Header{IccID: 5, MsgSerialNo: 1}, Body: e}
	data, err := m.Encode(&key.PublicKey)
	if (n+85)/86*128 > 1023 {
		vf.Cover("refused")
		vf.Assert(err != nil, "a ciphertext longer than 1023 bytes is encoded")
		return
	}
	vf.Cover("sent")
	vf.Assert(err == nil, "a body that fits is refused")
	p, ok := vhParseFrame(data)
	vf.Assert(ok, "malformed frame or wrong length field")
	vf.Assert(len(p.body) == (n+85)/86*128, "ciphertext cut or padded")
}

// a peer that never completes a frame: an error when more than 65535 bytes are
// buffered, at the latest one read (128 bytes) later; data arriving in pieces of
// 96, 100, 127 or at least 128 bytes, its first bytes symbolic
//
//vf:steps 400000000
func vhC06_unterminated() {
	data := make([]byte, 65536+128)
	data[0] = 0x7e
	for i := 1; i < 5; i++ {
		data[i] = vhNoEsc()
	}
	rw := &vhRW{chunks: [][]byte{data}, err: vf.ErrNet}
	if k := []int{0, 96, 100, 127}[vf.Choose(4)]; k > 0 {
		rw.chunks = nil
		for ; len(data) > 0; data = data[k:] {
			if k > len(data) {
				k = len(data)
			}
			rw.chunks = append(rw.chunks, data[:k])
		}
	}
	_, err := vhCodec(rw).Receive()
	vf.Assert(err != nil, "a message is made up")
	vf.Assert(err != vf.ErrNet, "a peer can make the server buffer more than 65535 bytes")
}

// the same after 1 or 3 frames that were delivered, the data arriving with them in one
// piece or in pieces of 100 bytes
//
//vf:steps 400000000
func vhC06_after() {
	var data []byte
	n := 1 + 2*vf.Choose(2)
	for i := 0; i < n; i++ {
		data = append(data, vhMsg{id: 0x0900, icc: 13800000001, serial: uint16(i + 1), body: []byte{9, 1, 2}}.frame()...)
	}
	end := make([]byte, 65536+128)
	end[0] = 0x7e
	data = append(data, end...)
	rw := &vhRW{err: vf.ErrNet}
	k := []int{len(data), 100}[vf.Choose(2)]
	for ; len(data) > k; data = data[k:] {
		rw.chunks = append(rw.chunks, data[:k])
	}
	rw.chunks = append(rw.chunks, data)
	codec := vhCodec(rw)
	for i := 0; i < n; i++ {
		v, err := codec.Receive()
		vf.Assert(err == nil, "a frame is refused")
		vf.Assert(v.(protocol.Message).Header.MsgSerialNo == uint16(i+1), "another frame is delivered")
	}
	_, err := codec.Receive()
	vf.Assert(err != nil, "a message is made up")
	vf.Assert(err != vf.ErrNet, "a peer can make the server buffer more than 65535 bytes")
}

// What is sent: a pass-through message of 0-3 arbitrary bytes, split or not,
// encrypted or not with the key set or not
//
//vf:covers plain,encrypted
func vhC26_send() {
	n := vf.Choose(4)
	e := &protocol.T808_0x0900{Type: vf.Byte(), Data: vf.Bytes(n)}
	key := vf.NewKey(48)
	rw := &vhRW{}
	c, _ := Protocol{}.NewCodec(rw)
	setKey, flag, split := vf.Choose(2) == 1, vf.Choose(2) == 1, vf.Choose(2) == 1
	if setKey {
		c.(*ProtocolCodec).SetPublicKey(&key.PublicKey)
	}
	m := protocol.Message{Header: protocol.Header{IccID: 13800000001, MsgSerialNo: uint16(vf.Range(0, 3))}, Body: e}
	if flag {
		m.Header.Property = 0x400
	}
	if split {
		m.Header.Packet = &protocol.Packet{Sum: 3, Seq: 2}
	}
	plain := append([]byte{e.Type}, e.Data...)
	err := c.Send(m)
	vf.Assert(err == nil, "sending fails")
	vf.Assert(len(rw.out) == 1, "not written in one piece")
	p, ok := vhParseFrame(rw.out[0])
	vf.Assert(ok, "malformed frame")
	vf.Assert(p.id == 0x0900, "message id differs")
	vf.Assert(p.icc == 13800000001, "terminal number differs")
	vf.Assert(p.serial == m.Header.MsgSerialNo, "serial number differs")
	vf.Assert((p.flags&0x2000 != 0) == split, "packet flag differs")
	if split {
		vf.Assert(p.sum == 3 && p.seq == 2, "packet numbers differ")
	}
	if setKey && flag {
		vf.Cover("encrypted")
		vf.Assert(p.flags&0x400 != 0, "encryption flag lost")
		vf.Assert(len(p.body) == 48, "body not encrypted")
		var got protocol.Message
		vf.Assert(got.Decode(rw.out[0], key) == nil, "what was sent cannot be decrypted")
		vf.Assert(vf.Equal(got.Body, e), "encrypted body differs")
		return
	}
	vf.Cover("plain")
	vf.Assert(vf.Encrypted == 0, "body encrypted without being asked")
	vf.Assert(vf.EqBytes(p.body, plain), "body differs")
}

// vhBusy is an error that may go away
type vhBusy struct{}

func (vhBusy) Error() string   { return "busy" }
func (vhBusy) Timeout() bool   { return true }
func (vhBusy) Temporary() bool { return true }

// what cannot be sent: not a message, body too long, encryption failing, or the
// writer failing (4 errors, after 0, 1 or 10 bytes)
//
//vf:covers value,encode,crypt,writer
func vhC26_refused() {
	rw := &vhRW{}
	c, _ := Protocol{}.NewCodec(rw)
	m := protocol.Message{Header: protocol.Header{IccID: 1, MsgSerialNo: 1}, Body: &protocol.T808_0x0900{Type: vf.Byte(), Data: vf.Bytes(2)}}
	switch vf.Choose(4) {
	case 0:
		vf.Cover("value")
		v := []interface{}{nil, "x", 5, m.Header, m.Body, (*protocol.Message)(nil), &m.Header}[vf.Choose(7)]
		err := c.Send(v)
		vf.Assert(err != nil, "a value that is no message is accepted")
	case 1:
		vf.Cover("encode")
		if vf.Choose(2) == 0 {
			m.Body = &protocol.T808_0x0900{Data: make([]byte, 1023)}
		} else {
			m.Header.Property = 0x2000 // split, but no packet numbers
		}
		vf.Assert(c.Send(m) != nil, "a message that cannot be encoded is accepted")
	case 2:
		vf.Cover("crypt")
		key := vf.NewKey(40) // too small for OAEP
		c.(*ProtocolCodec).SetPublicKey(&key.PublicKey)
		m.Header.Property = 0x400
		vf.Assert(c.Send(m) != nil, "a message that cannot be encrypted is accepted")
	case 3:
		vf.Cover("writer")
		e := []error{vf.ErrNet, io.ErrShortWrite, io.EOF, vhBusy{}}[vf.Choose(4)]
		rw.werr, rw.wpart = e, []int{0, 1, 10}[vf.Choose(3)]
		vf.Assert(c.Send(m) == e, "the writer's error is not returned")
		vf.Assert(rw.writes == 1, "written again after the writer failed")
		rw.werr = nil
	}
	vf.Assert(len(rw.out) == 0, "something is written for a message that is refused")
	// the connection is still good for the next message
	m = protocol.Message{Header: protocol.Header{IccID: 1, MsgSerialNo: 2}, Body: &protocol.T808_0x0002{}}
	vf.Assert(c.Send(m) == nil, "the next message cannot be sent")
	vf.Assert(len(rw.out) == 1, "the next message is not written")
	vf.Assert(bytes.Equal(rw.out[0], vhMsg{id: 2, icc: 1, serial: 2}.frame()), "the next message is not written whole")
}
