package protocol

import (
	"time"

	vf "gitee.com/coco/go808/zzvf"
	"github.com/shopspring/decimal"
)

// vhCase is one message: the value to encode, the value expected back and the
// wire bytes the documented layout prescribes.
type vhCase struct {
	e, want Entity
	wire    []byte
}

// vhW writes the documented layouts, independently of the code under test.
type vhW struct{ b []byte }

func (w *vhW) u8(v byte)    { w.b = append(w.b, v) }
func (w *vhW) u16(v uint16) { w.b = append(w.b, byte(v>>8), byte(v)) }
func (w *vhW) u32(v uint32) {
	w.b = append(w.b, byte(v>>24), byte(v>>16), byte(v>>8), byte(v))
}
func (w *vhW) raw(b []byte) { w.b = append(w.b, b...) }
func (w *vhW) fix(b []byte, n int) {
	for i := 0; i < n; i++ {
		if i < len(b) {
			w.b = append(w.b, b[i])
		} else {
			w.b = append(w.b, 0)
		}
	}
}

func vhBcd(n int) byte { return byte(n/10)<<4 | byte(n%10) }

func vhCount(quick, thorough int) int {
	if vf.Thorough() {
		return vf.Choose(thorough + 1)
	}
	return vf.Choose(quick + 1)
}

// vhTime: any second from 2000-01-01 to 2099-12-31 in local time, with its six BCD bytes
func vhTime() (time.Time, []byte) {
	y, mo, d := vf.Range(0, 99), vf.Range(1, 12), vf.Range(1, 31)
	h, mi, s := vf.Range(0, 23), vf.Range(0, 59), vf.Range(0, 59)
	vf.Assume(vhDateOK(y, mo, d))
	t := time.Date(2000+y, time.Month(mo), d, h, mi, s, 0, time.Local)
	return t, []byte{vhBcd(y), vhBcd(mo), vhBcd(d), vhBcd(h), vhBcd(mi), vhBcd(s)}
}

func vhDateOK(y, mo, d int) bool {
	short := vf.Or(mo == 4, mo == 6, mo == 9, mo == 11)
	feb := vf.IteInt(y&3 == 0, 29, 28)
	return d <= vf.IteInt(mo == 2, feb, vf.IteInt(short, 30, 31))
}

// vhText: a text of the given form with its GB18030 bytes. Form 0 is n
// arbitrary ASCII characters other than NUL, the others mix in Chinese
// characters (two-byte) and an emoji (four-byte).
func vhTextForm(form, n int) (string, []byte) {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(vf.Range(1, 127))
	}
	switch form {
	case 1:
		return "中" + string(b) + "文", append(append([]byte{0xd6, 0xd0}, b...), 0xce, 0xc4)
	case 2:
		return string(b) + "粤A", append(append([]byte{}, b...), 0xd4, 0xc1, 'A')
	case 3:
		return "😀" + string(b), append([]byte{0x94, 0x39, 0xfc, 0x36}, b...)
	}
	return string(b), append([]byte{}, b...)
}

// vhText: empty, ASCII or mixed, chosen by forking
func vhText(n int) (string, []byte) {
	switch vf.Choose(4) {
	case 0:
		return "", nil
	case 1:
		return vhTextForm(0, n)
	case 2:
		return vhTextForm(1, n)
	}
	return vhTextForm(3, n)
}

// vhShort: a non-empty text, ASCII or mixed
func vhShort(n int) (string, []byte) { return vhTextForm(vf.Choose(2), n) }

// vhASCII: a string of at most max bytes without NUL
func vhASCII(lens ...int) string {
	n := lens[vf.Choose(len(lens))]
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(vf.Range(1, 255))
	}
	return string(b)
}

// vhCoord: a coordinate with at most six decimals: sign and magnitude in 1e-6 degrees
func vhCoord(max int) (decimal.Decimal, bool, uint32) {
	mag := vf.Range(0, max)
	if vf.Choose(2) == 1 {
		vf.Assume(mag > 0)
		return decimal.New(-int64(mag), -6), true, uint32(mag)
	}
	return decimal.New(int64(mag), -6), false, uint32(mag)
}

func vhDigits(n int) uint64 {
	v := uint64(0)
	for i := 0; i < n; i++ {
		v = v*10 + uint64(vf.Range(0, 9))
	}
	return v
}

// vhRoundTrip: what is encoded decodes to the same value
func vhRoundTrip(c vhCase, dst Entity) {
	want := vf.Clone(c.want).(Entity)
	data, err := c.e.Encode()
	vf.Assert(err == nil, "encoding a valid body fails")
	vf.Observe("wire", data)
	_, err = dst.Decode(data)
	vf.Assert(err == nil, "decoding the encoded body fails")
	vf.Assert(vf.Equal(dst, want), "decoded body differs from what was encoded")
}

// vhLayout: the encoded body is the documented sequence of bytes
func vhLayout(c vhCase) {
	data, err := c.e.Encode()
	vf.Assert(err == nil, "encoding a valid body fails")
	vf.Observe("wire", data)
	vf.Assert(len(data) == len(c.wire), "encoded body has the wrong length")
	vf.Assert(vf.EqBytes(data, c.wire), "encoded body differs from the documented layout")
}
