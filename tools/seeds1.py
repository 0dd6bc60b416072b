PROTO = '''package protocol

import "testing"

func TestZZDemo(t *testing.T) {
%s
}
'''
seed('c01-unescape-order', 'C01', 'protocol', [
 ('protocol/message.go', '''	buffer := make([]byte, 0, len(data))
	for i := 0; i < len(data); {
		b := data[i]
		if b != EscapeByte {
			checkSum = checkSum ^ b
			buffer = append(buffer, b)
			i++
			continue
		}

		if i+1 >= len(data) {
			return errors.ErrInvalidMessage
		}

		b = data[i+1]
		if b == EscapeByteSufix1 {
			checkSum = checkSum ^ EscapeByte
			buffer = append(buffer, EscapeByte)
		} else if b == EscapeByteSufix2 {
			checkSum = checkSum ^ PrefixID
			buffer = append(buffer, PrefixID)
		} else {
			return errors.ErrInvalidMessage
		}
		i += 2
	}
''', '''	for i := 0; i < len(data); i++ {
		if data[i] != EscapeByte {
			continue
		}
		if i+1 >= len(data) || (data[i+1] != EscapeByteSufix1 && data[i+1] != EscapeByteSufix2) {
			return errors.ErrInvalidMessage
		}
		i++
	}
	buffer := bytes.ReplaceAll(data, []byte{EscapeByte, EscapeByteSufix1}, []byte{EscapeByte})
	buffer = bytes.ReplaceAll(buffer, []byte{EscapeByte, EscapeByteSufix2}, []byte{PrefixID})
	for _, b := range buffer {
		checkSum = checkSum ^ b
	}
''')],
 PROTO % '''	for _, body := range [][]byte{{1, 2}, {0x7d, 1}, {0x7e, 2}, {0x7d, 2}, {0x7d, 0x7e}} {
		m := Message{Header: Header{IccID: 13800000000, MsgSerialNo: 7}, Body: &T808_0x0900{Type: 1, Data: body}}
		data, err := m.Encode()
		if err != nil {
			t.Fatal(err)
		}
		var r Message
		if err := r.Decode(data); err != nil {
			t.Fatalf("%x: %v", body, err)
		}
		if r.Body == nil || string(r.Body.(*T808_0x0900).Data) != string(body) {
			t.Fatalf("%x: not restored", body)
		}
	}''', 'a byte 0x7d directly followed by 0x02 in the header or body', 'the frame of such a message is refused (or misread) by the decoder')
seed('c02-checksum-not-escaped', 'C02', 'protocol', [
 ('protocol/message.go', 'message.write(buffer, header).write(buffer, body).write(buffer, []byte{checkSum})', 'message.write(buffer, header).write(buffer, body)\n\tbuffer.WriteByte(checkSum)')],
 PROTO % '''	for n := 0; n < 256; n++ {
		m := Message{Header: Header{IccID: 13800000000, MsgSerialNo: uint16(n)}, Body: &T808_0x8201{}}
		data, err := m.Encode()
		if err != nil {
			t.Fatal(err)
		}
		for i, b := range data[1 : len(data)-1] {
			if b == 0x7e || b == 0x7d && data[i+2] != 1 && data[i+2] != 2 {
				t.Fatalf("%x", data)
			}
		}
	}''', 'a message whose checksum happens to be 0x7e or 0x7d', 'the checksum byte is written unescaped, which ends the frame early')
seed('c02-stale-length', 'C02', 'protocol', [
 ('protocol/property.go', '''	*property = Property(((val >> 10) << 10) | size)''', '''	*property = Property(val | size)''')],
 PROTO % '''	m := Message{Header: Header{IccID: 1}, Body: &T808_0x0900{Type: 1, Data: []byte{1, 2, 3}}}
	data, err := m.Encode()
	if err != nil {
		t.Fatal(err)
	}
	var r Message
	if err := r.Decode(data); err != nil || r.Body == nil {
		t.Fatal(err)
	}
	r.Body.(*T808_0x0900).Data = []byte{1}
	data, err = r.Encode()
	if err != nil {
		t.Fatal(err)
	}
	if n := int(data[3]&3)<<8 | int(data[4]); n != 2 {
		t.Fatal("length field", n)
	}''', 'encoding with a header whose property already holds another length (a decoded message sent on with another body, or a message encoded twice)', 'the length field is the old and new length or-ed together')
seed('c03-lenient-escape', 'C03', 'protocol', [
 ('protocol/message.go', '''			checkSum = checkSum ^ PrefixID
			buffer = append(buffer, PrefixID)
		} else {
			return errors.ErrInvalidMessage
		}
		i += 2''', '''			checkSum = checkSum ^ PrefixID
			buffer = append(buffer, PrefixID)
		} else {
			checkSum = checkSum ^ EscapeByte
			buffer = append(buffer, EscapeByte)
			i--
		}
		i += 2''')],
 PROTO % '''	m := Message{Header: Header{IccID: 1}, Body: &T808_0x0900{Type: 1, Data: []byte{9, 9}}}
	data, err := m.Encode()
	if err != nil {
		t.Fatal(err)
	}
	n := len(data)
	data[n-3], data[n-2] = 0x7d, data[n-2]^9^0x7d
	data[n-4], data[n-3] = 0x7d, 0x09
	var r Message
	if r.Decode(data) == nil {
		t.Fatalf("accepted %x", data)
	}''', 'a frame with 0x7d followed by a byte other than 1 or 2, and a checksum that fits', 'illegal escapes are taken literally instead of being refused')
seed('c04-count-capacity', 'C04', 'protocol', [
 ('protocol/t808_0x0107.go', '''	temp, err = reader.Read(int(size))
	if err != nil {
		return 0, err
	}
	entity.SoftwareVersion = bytesToString(temp[:size])
''', '''	temp = data[len(data)-reader.Len():][:size]
	if _, err = reader.Read(int(size)); err != nil {
		return 0, err
	}
	entity.SoftwareVersion = bytesToString(temp)
''')],
 PROTO % '''	data := make([]byte, 48)
	data[44] = 1
	data[46] = 200
	var e T808_0x0107
	if _, err := e.Decode(data); err == nil {
		t.Fatal("accepted")
	}''', 'a terminal property reply whose software version length exceeds the remaining bytes', 'the decoder panics, which kills the server')
seed('c05-alias', 'C05', '', [
 ('protocol/message.go', '''	checkSum := byte(0x00)
	buffer := make([]byte, 0, len(data))
	for i := 0; i < len(data); {
		b := data[i]
''', '''	checkSum := byte(0x00)
	buffer := make([]byte, 0, len(data))
	if bytes.IndexByte(data, EscapeByte) == -1 {
		buffer = data
		for _, b := range data {
			checkSum = checkSum ^ b
		}
		data = nil
	}
	for i := 0; i < len(data); {
		b := data[i]
''')],
 '''package go808

import (
	"bytes"
	"testing"

	"gitee.com/coco/go808/protocol"
)

type zzConn struct{ in [][]byte }

func (c *zzConn) Read(b []byte) (int, error) {
	n := copy(b, c.in[0])
	c.in = c.in[1:]
	return n, nil
}
func (c *zzConn) Write(b []byte) (int, error) { return len(b), nil }

func TestZZDemo(t *testing.T) {
	frame := func(x byte) []byte {
		m := protocol.Message{Header: protocol.Header{IccID: 1}, Body: &protocol.T808_0x0900{Type: 1, Data: bytes.Repeat([]byte{x}, 20)}}
		b, err := m.Encode()
		if err != nil {
			t.Fatal(err)
		}
		return b
	}
	c, _ := Protocol{}.NewCodec(&zzConn{in: [][]byte{frame(1), frame(2), frame(3)}})
	m, err := c.Receive()
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 2; i++ {
		if _, err := c.Receive(); err != nil {
			t.Fatal(err)
		}
	}
	if m.(protocol.Message).Body.(*protocol.T808_0x0900).Data[5] != 1 {
		t.Fatal("a delivered message has changed")
	}
}
''', 'a message without escaped bytes whose body keeps byte slices, still in use when more bytes arrive', 'a delivered message is overwritten by later input')
seed('c05-resume-scan', 'C05', '', [
 ('protocol.go', '''	bufferReceiving *bytes.Buffer
}''', '''	bufferReceiving *bytes.Buffer
	scanned         int
}'''),
 ('protocol.go', '''	end := 1
	for ;''', '''	// 跳过已扫描的数据
	end := codec.scanned
	if end == 0 {
		end = 1
	}
	for ;'''),
 ('protocol.go', '''	if end == len(data) {
		return protocol.Message{}, false, nil
	}
''', '''	if end == len(data) {
		codec.scanned = end
		return protocol.Message{}, false, nil
	}
'''),
 ('protocol.go', '''		return protocol.Message{}, false, err
	}
	codec.bufferReceiving.Next(end + 1)
''', '''		return protocol.Message{}, false, err
	}
	codec.bufferReceiving.Next(end + 1)
	if codec.bufferReceiving.Len() == 0 {
		codec.scanned = 0
	}
''')],
 '''package go808

import (
	"io"
	"testing"

	"gitee.com/coco/go808/protocol"
)

type zzConn struct{ in [][]byte }

func (c *zzConn) Read(b []byte) (int, error) {
	if len(c.in) == 0 {
		return 0, io.EOF
	}
	n := copy(b, c.in[0])
	c.in = c.in[1:]
	return n, nil
}
func (c *zzConn) Write(b []byte) (int, error) { return len(b), nil }

func TestZZDemo(t *testing.T) {
	frame := func(n int) []byte {
		m := protocol.Message{Header: protocol.Header{IccID: 1}, Body: &protocol.T808_0x0900{Type: 1, Data: make([]byte, n)}}
		b, err := m.Encode()
		if err != nil {
			t.Fatal(err)
		}
		return b
	}
	f1, f2 := frame(30), frame(1)
	c, _ := Protocol{}.NewCodec(&zzConn{in: [][]byte{f1[:40], append(f1[40:], f2...)}})
	for _, n := range []int{30, 1} {
		m, err := c.Receive()
		if err != nil {
			t.Fatal(err)
		}
		if len(m.(protocol.Message).Body.(*protocol.T808_0x0900).Data) != n {
			t.Fatal("another message")
		}
	}
}
''', 'a frame that arrives in two reads, the second of which also carries the next, shorter frame', 'the end of the next frame is looked for too far on, so it is not delivered or joined with its successor')
seed('c06-1024', 'C06', 'protocol', [
 ('protocol/property.go', 'size > 0x3ff', 'size > 0x400')],
 PROTO % '''	for n := 1000; n < 1100; n++ {
		m := Message{Header: Header{IccID: 1}, Body: &T808_0x0900{Type: 1, Data: make([]byte, n-1)}}
		_, err := m.Encode()
		if (err == nil) != (n <= 1023) {
			t.Fatal(n, err)
		}
	}''', 'a body of exactly 1024 bytes', 'a frame with length 0 and the encryption flag is emitted instead of an error')
seed('c07-batch-extras', 'C07', 'protocol', [
 ('protocol/t808_0x0704.go', """	for i := 0; i < int(count); i++ {
		size,""", """	var position T808_0x0200
	for i := 0; i < int(count); i++ {
		size,"""),
 ('protocol/t808_0x0704.go', """		var position T808_0x0200
		_, err""", """		_, err""")],
 """package protocol

import (
	"testing"
	"time"

	"gitee.com/coco/go808/protocol/extra"
)

func TestZZDemo(t *testing.T) {
	x := T808_0x0200{Time: time.Unix(1600000000, 0)}
	y := x
	y.Extras = []extra.Entity{extra.NewExtra_0x01(7)}
	e := T808_0x0704{Items: []T808_0x0200{y, x}}
	b, err := e.Encode()
	if err != nil {
		t.Fatal(err)
	}
	var r T808_0x0704
	if _, err := r.Decode(b); err != nil {
		t.Fatal(err)
	}
	if len(r.Items[1].Extras) != 0 {
		t.Fatal("extras of the first report on the second")
	}
}
""", 'a batch upload in which a report with extras is followed by one without', 'extras of an earlier report show up on a later one')
seed('c08-answers', 'C08', 'protocol', [
 ('protocol/t808_0x8302.go', '''	for {
		if reader.Len() == 0 {
			break
		}

		var answer''', '''	for {
		if reader.Len() <= 2 {
			break
		}

		var answer''')],
 PROTO % '''	e := T808_0x8302{Flag: 1, Question: "q", CandidateAnswers: []T808_0x8302_Answer{{ID: 1, Content: "a"}, {ID: 2, Content: ""}}}
	b, err := e.Encode()
	if err != nil {
		t.Fatal(err)
	}
	var r T808_0x8302
	if _, err := r.Decode(b); err != nil {
		t.Fatal(err)
	}
	if len(r.CandidateAnswers) != 2 {
		t.Fatal(r)
	}''', 'a last candidate answer with an empty text', 'the answer is lost')
seed('c09-section-order', 'C09', 'protocol', [
 ('protocol/t808_0x8606.go', '''		if point.TimeTooLong != nil && point.TimeTooShort != nil {
			writer.WriteUint16(*point.TimeTooLong)
			writer.WriteUint16(*point.TimeTooShort)
		}

		// 写入超速报警设置
		if point.MaxSpeed != nil && point.OverSpeedDuration != nil {
			writer.WriteUint16(*point.MaxSpeed)
			writer.WriteByte(*point.OverSpeedDuration)
		}
''', '''		if point.MaxSpeed != nil && point.OverSpeedDuration != nil {
			writer.WriteUint16(*point.MaxSpeed)
			writer.WriteByte(*point.OverSpeedDuration)
		}
		if point.TimeTooLong != nil && point.TimeTooShort != nil {
			writer.WriteUint16(*point.TimeTooLong)
			writer.WriteUint16(*point.TimeTooShort)
		}
'''),
 ('protocol/t808_0x8606.go', '''		if point.Attribute.HasTimeLimit() {
			timeTooLong, err := reader.ReadUint16()
			if err != nil {
				return 0, err
			}

			timeTooShort, err := reader.ReadUint16()
			if err != nil {
				return 0, err
			}

			point.TimeTooLong = &timeTooLong
			point.TimeTooShort = &timeTooShort
		}

		// 读取超速报警设置
		if point.Attribute.HasSpeedLimit() {
			maxSpeed, err := reader.ReadUint16()
			if err != nil {
				return 0, err
			}

			overSpeedDuration, err := reader.ReadByte()
			if err != nil {
				return 0, err
			}

			point.MaxSpeed = &maxSpeed
			point.OverSpeedDuration = &overSpeedDuration
		}
''', '''		if point.Attribute.HasSpeedLimit() {
			maxSpeed, err := reader.ReadUint16()
			if err != nil {
				return 0, err
			}

			overSpeedDuration, err := reader.ReadByte()
			if err != nil {
				return 0, err
			}

			point.MaxSpeed = &maxSpeed
			point.OverSpeedDuration = &overSpeedDuration
		}
		if point.Attribute.HasTimeLimit() {
			timeTooLong, err := reader.ReadUint16()
			if err != nil {
				return 0, err
			}

			timeTooShort, err := reader.ReadUint16()
			if err != nil {
				return 0, err
			}

			point.TimeTooLong = &timeTooLong
			point.TimeTooShort = &timeTooShort
		}
''')],
 PROTO % '''	a, b, c, d := uint16(1), uint16(2), uint16(3), byte(4)
	e := T808_0x8606{Points: []T808_0x8606_Point{{TimeTooLong: &a, TimeTooShort: &b, MaxSpeed: &c, OverSpeedDuration: &d}}}
	data, err := e.Encode()
	if err != nil {
		t.Fatal(err)
	}
	if string(data[len(data)-7:]) != "\\x00\\x01\\x00\\x02\\x00\\x03\\x04" {
		t.Fatalf("%x", data)
	}''', 'a route point with both a time and a speed limit', 'the two parts are in the wrong order on the wire, on both sides')
seed('c10-float', 'C10', 'protocol', [
 ('protocol/t808_0x0200.go', '''	lat := entity.Lat.Mul(mul).IntPart()
''', '''	degrees, _ := entity.Lat.Float64()
	lat := int64(degrees * 1000000)
''')],
 '''package protocol

import (
	"testing"
	"time"

	"github.com/shopspring/decimal"
)

func TestZZDemo(t *testing.T) {
	for n := int64(0); n < 90000000; n += 999 {
		e := T808_0x0200{Lat: decimal.New(n, -6), Time: time.Unix(1600000000, 0)}
		b, err := e.Encode()
		if err != nil {
			t.Fatal(err)
		}
		var r T808_0x0200
		if _, err := r.Decode(b); err != nil {
			t.Fatal(err)
		}
		if !r.Lat.Equal(e.Lat) {
			t.Fatal(e.Lat, r.Lat)
		}
	}
}
''', 'a latitude whose product with 1000000 is rounded down in binary floating point', 'the latitude is off by one millionth of a degree')
seed('c11-unknown-extra', 'C11', 'protocol', [
 ('protocol/t808_0x0200.go', '''			if err == errors.ErrTypeNotRegistered {
				buffer = buffer[length:]
				log''', '''			if err == errors.ErrTypeNotRegistered {
				log''')],
 '''package protocol

import (
	"testing"
	"time"
)

func TestZZDemo(t *testing.T) {
	e := T808_0x0200{Time: time.Unix(1600000000, 0)}
	b, err := e.Encode()
	if err != nil {
		t.Fatal(err)
	}
	var r T808_0x0200
	if _, err := r.Decode(append(b, 0xe1, 4, 1, 4, 0, 0, 1, 4, 0, 0, 0, 9)); err != nil {
		t.Fatal(err)
	}
	if len(r.Extras) != 1 {
		t.Fatal(r.Extras)
	}
}
''', 'an extra of unknown type with a value', 'the value of the unknown extra is read as further extras')
seed('c12-leaking-limits', 'C12', 'protocol', [
 ('protocol/t808_0x8606.go', '''	for i := 0; i < int(count); i++ {
		var point T808_0x8606_Point

''', '''	var point T808_0x8606_Point
	for i := 0; i < int(count); i++ {
''')],
 PROTO % '''	a, b := uint16(1), uint16(2)
	e := T808_0x8606{Points: []T808_0x8606_Point{{ID: 1, TimeTooLong: &a, TimeTooShort: &b}, {ID: 2}}}
	e.StartTime = e.StartTime.AddDate(2020, 0, 0)
	e.EndTime = e.EndTime.AddDate(2020, 0, 0)
	data, err := e.Encode()
	if err != nil {
		t.Fatal(err)
	}
	var r T808_0x8606
	if _, err := r.Decode(data); err != nil {
		t.Fatal(err)
	}
	if r.Points[1].TimeTooLong != nil {
		t.Fatal("limits of the first point on the second")
	}''', 'a route with a point that has limits followed by one that has none', 'limits of an earlier point show up on later ones')
seed('c13-zone', 'C13', 'protocol', [
 ('protocol/helpers.go', '	t = time.Unix(t.Unix(), 0)\n', '	t = t.Truncate(time.Second)\n')],
 '''package protocol

import (
	"testing"
	"time"
)

func TestZZDemo(t *testing.T) {
	time.Local = time.FixedZone("CST", 8*3600)
	for _, x := range []time.Time{time.Unix(1600000000, 0), time.Unix(1600000000, 0).UTC()} {
		w := NewWriter()
		w.WriteBcdTime(x)
		r := NewReader(w.Bytes())
		y, err := r.ReadBcdTime()
		if err != nil || !x.Equal(y) {
			t.Fatal(x, y, err)
		}
	}
}
''', 'a time that is not in the local time zone', 'the time is read back shifted by the zone difference')
seed('c13-can-hour', 'C13', 'protocol', [
 ('protocol/t808_0x0705.go', '''	t := time.Time{}.Add(entity.ReceiveTime)
	s := fmt.Sprintf("%02d%02d%02d%04d",
		t.Hour(), t.Minute(), t.Second(), t.Nanosecond()/int(time.Millisecond))
''', '''	ms := int64(entity.ReceiveTime.Seconds() * 1000)
	s := fmt.Sprintf("%02d%02d%02d%04d",
		ms/3600000, ms/60000%60, ms/1000%60, ms%1000)
''')],
 '''package protocol

import (
	"testing"
	"time"
)

func TestZZDemo(t *testing.T) {
	for ms := 0; ms < 86400000; ms += 977 {
		e := T808_0x0705{ReceiveTime: time.Duration(ms) * time.Millisecond}
		b, err := e.Encode()
		if err != nil {
			t.Fatal(err)
		}
		var r T808_0x0705
		if _, err := r.Decode(b); err != nil {
			t.Fatal(err)
		}
		if r.ReceiveTime != e.ReceiveTime {
			t.Fatal(r.ReceiveTime, e.ReceiveTime)
		}
	}
}
''', 'a receive time whose milliseconds are rounded down in floating point', 'the receive time is off by a millisecond')
seed('c14-trim', 'C14', 'protocol', [
 ('protocol/helpers.go', '''	n := bytes.IndexByte(data, 0)
	if n == -1 {
		return string(data)
	}
	return string(data[:n])''', '''	n := bytes.IndexByte(data, 0)
	if n == -1 {
		n = len(data)
	}
	return string(bytes.TrimRight(data[:n], " \\r\\n"))''')],
 PROTO % '''	for _, s := range []string{"abc", "abc ", " abc", "a b", "\\r\\n"} {
		e := T808_0x8300{Text: s}
		b, err := e.Encode()
		if err != nil {
			t.Fatal(err)
		}
		var r T808_0x8300
		if _, err := r.Decode(b); err != nil {
			t.Fatal(err)
		}
		if r.Text != s {
			t.Fatalf("%q %q", s, r.Text)
		}
	}''', 'a text that ends with a blank or a line break', 'the end of the text is lost')
seed('c15-alias', 'C15', 'protocol', [
 ('protocol/params.go', '''	buffer := make([]byte, len(b))
	copy(buffer, b)
	param.serialized = buffer
''', '''	param.serialized = append(param.serialized[:0], b...)
''')],
 PROTO % '''	p := new(Param).SetBytes(1, []byte{1, 2})
	q := *p
	p.SetBytes(1, []byte{3, 4})
	b, err := q.GetBytes()
	if err != nil || b[0] != 1 {
		t.Fatal(b, err)
	}
	// as for a template that is changed for each terminal
	msg := T808_0x8103{Params: []*Param{new(Param).SetBytes(7, []byte{1})}}
	data, _ := msg.Encode()
	var r T808_0x8103
	if _, err := r.Decode(data); err != nil {
		t.Fatal(err)
	}
	r.Params[0].SetBytes(7, []byte{9})
	var s T808_0x8103
	if _, err := s.Decode(data); err != nil {
		t.Fatal(err)
	}
	v, err := s.Params[0].GetByte()
	if err != nil || v != 1 {
		t.Fatal("received bytes have changed")
	}''', 'setting a parameter a second time while its first value (a copy of it, or the message it was decoded from) is still in use', 'the earlier value changes')
seed('c16-toggle', 'C16', 'protocol', [
 ('protocol/bit.go', '''func SetBitUint16(value *uint16, offset int, set bool) {
	if offset >= 32 {
		return
	}
	if set {
		*value |= 1 << offset
	} else {
		*value &= ^(1 << offset)
	}
}''', '''func SetBitUint16(value *uint16, offset int, set bool) {
	if offset >= 32 {
		return
	}
	*value |= 1 << offset
	if !set {
		*value -= 1 << (offset & 7)
	}
}''')],
 PROTO % '''	for o := 0; o < 16; o++ {
		for _, x := range []uint16{0, 0xffff} {
			v := x
			SetBitUint16(&v, o, false)
			if v != x&^(1<<o) {
				t.Fatal(o, x, v)
			}
		}
	}''', 'clearing a bit at position 8 or above of a 16-bit flag value', 'the wrong bits change')
seed('c17-partial', 'C17', 'protocol', [
 ('protocol/helpers.go', '''		plaintext, err := rsa.DecryptOAEP(hash, rand.Reader, priv, chunk, label)
		if err != nil {
			return nil, err
		}
''', '''		plaintext, err := rsa.DecryptOAEP(hash, rand.Reader, priv, chunk, label)
		if err != nil {
			if buffer.Len() > 0 {
				// 末尾为填充数据
				break
			}
			return nil, err
		}
''')],
 '''package protocol

import (
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha1"
	"testing"
)

func TestZZDemo(t *testing.T) {
	key, err := rsa.GenerateKey(rand.Reader, 1024)
	if err != nil {
		t.Fatal(err)
	}
	data, err := EncryptOAEP(sha1.New(), &key.PublicKey, make([]byte, 200), nil)
	if err != nil {
		t.Fatal(err)
	}
	data[200] ^= 1
	if _, err := DecryptOAEP(sha1.New(), key, data, nil); err == nil {
		t.Fatal("accepted")
	}
}
''', 'an encrypted body of several chunks of which a later one does not decrypt', 'part of the body is delivered instead of an error')
