package go808

import (
	"io"

	"gitee.com/coco/go808/protocol"
	vf "gitee.com/coco/go808/zzvf"
)

// Frames are built and taken apart here independently of the code under test.

type vhMsg struct {
	id     uint16
	flags  uint16 // property bits other than the length
	icc    uint64
	serial uint16
	sum    uint16 // with flags&0x2000
	seq    uint16
	body   []byte
}

func vhEscape(content []byte) []byte {
	x := byte(0)
	for _, b := range content {
		x ^= b
	}
	out := []byte{0x7e}
	for _, b := range append(append([]byte{}, content...), x) {
		switch b {
		case 0x7e:
			out = append(out, 0x7d, 2)
		case 0x7d:
			out = append(out, 0x7d, 1)
		default:
			out = append(out, b)
		}
	}
	return append(out, 0x7e)
}

func (m vhMsg) content() []byte {
	prop := m.flags | uint16(len(m.body))
	var bcd [6]byte
	n := m.icc
	for i := 5; i >= 0; i-- {
		bcd[i] = byte(n/10%10)<<4 | byte(n%10)
		n /= 100
	}
	b := []byte{byte(m.id >> 8), byte(m.id), byte(prop >> 8), byte(prop)}
	b = append(b, bcd[:]...)
	b = append(b, byte(m.serial>>8), byte(m.serial))
	if m.flags&0x2000 != 0 {
		b = append(b, byte(m.sum>>8), byte(m.sum), byte(m.seq>>8), byte(m.seq))
	}
	return append(b, m.body...)
}

func (m vhMsg) frame() []byte { return vhEscape(m.content()) }

// vhParseFrame takes apart one frame; ok is false when it is not well-formed
func vhParseFrame(f []byte) (m vhMsg, ok bool) {
	if len(f) < 2 || f[0] != 0x7e || f[len(f)-1] != 0x7e {
		return
	}
	var b []byte
	for i := 1; i < len(f)-1; i++ {
		c := f[i]
		if c == 0x7e {
			return
		}
		if c == 0x7d {
			i++
			switch f[i] {
			case 1:
				b = append(b, 0x7d)
			case 2:
				b = append(b, 0x7e)
			default:
				return
			}
			continue
		}
		b = append(b, c)
	}
	if len(b) < 13 {
		return
	}
	x := byte(0)
	for _, c := range b {
		x ^= c
	}
	if x != 0 {
		return
	}
	b = b[:len(b)-1]
	prop := uint16(b[2])<<8 | uint16(b[3])
	m.id = uint16(b[0])<<8 | uint16(b[1])
	m.flags = prop &^ 0x3ff
	for _, c := range b[4:10] {
		m.icc = m.icc*100 + uint64(c>>4)*10 + uint64(c&15)
	}
	m.serial = uint16(b[10])<<8 | uint16(b[11])
	b = b[12:]
	if prop&0x2000 != 0 {
		if len(b) < 4 {
			return
		}
		m.sum = uint16(b[0])<<8 | uint16(b[1])
		m.seq = uint16(b[2])<<8 | uint16(b[3])
		b = b[4:]
	}
	m.body = b
	ok = int(prop&0x3ff) == len(b)
	return
}

// vhRW is one end of a connection: reads give the chunks one by one and then
// err (with the last chunk, when errWithData is set)
type vhRW struct {
	chunks      [][]byte
	err         error
	errWithData bool
	given       int
	out         [][]byte
	werr        error // for the next write
	wpart       int   // bytes it takes
	writes      int
}

func (r *vhRW) Read(b []byte) (int, error) {
	if len(r.chunks) == 0 {
		if r.err == nil {
			return 0, io.EOF
		}
		return 0, r.err
	}
	n := copy(b, r.chunks[0])
	if n == len(r.chunks[0]) {
		r.chunks = r.chunks[1:]
	} else {
		r.chunks[0] = r.chunks[0][n:]
	}
	r.given += n
	if r.errWithData && len(r.chunks) == 0 {
		return n, r.err
	}
	return n, nil
}

func (r *vhRW) Write(b []byte) (int, error) {
	r.writes++
	if r.werr != nil {
		e := r.werr
		r.werr = nil
		return r.wpart, e
	}
	r.out = append(r.out, append([]byte(nil), b...))
	return len(b), nil
}

// vhNoEsc: a byte that is neither 0x7e nor 0x7d
func vhNoEsc() byte {
	b := vf.Byte()
	vf.Assume(vf.And(b != 0x7e, b != 0x7d))
	return b
}

// vhPlain: a pass-through message (0x0900) with n data bytes none of which
// (nor the checksum) needs escaping, and its frame
func vhPlain(serial uint16, n int) (*protocol.T808_0x0900, []byte) {
	body := make([]byte, n+1)
	x := byte(0)
	for i := range body {
		body[i] = vhNoEsc()
	}
	m := vhMsg{id: 0x0900, icc: 13800000001, serial: serial, body: body}
	for _, b := range m.content() {
		x ^= b
	}
	vf.Assume(vf.And(x != 0x7e, x != 0x7d))
	c := m.content()
	f := append([]byte{0x7e}, c...)
	f = append(f, x, 0x7e)
	return &protocol.T808_0x0900{Type: body[0], Data: append([]byte{}, body[1:]...)}, f
}
