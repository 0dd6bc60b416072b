IMP = '''package protocol

import (
%s	"testing"
)

func TestZZDemo(t *testing.T) {
%s
}
'''
CONN = '''package go808

import (
	"bytes"
	"io"
	"testing"

	"gitee.com/coco/go808/protocol"
)

type zzConn struct {
	in  [][]byte
	err error
	out bytes.Buffer
	n   int
	bad func(n int) (int, error)
}

func (c *zzConn) Read(b []byte) (int, error) {
	if len(c.in) == 0 {
		return 0, io.EOF
	}
	n := copy(b, c.in[0])
	if c.in[0] = c.in[0][n:]; len(c.in[0]) == 0 {
		c.in = c.in[1:]
	}
	return n, nil
}
func (c *zzConn) Write(b []byte) (int, error) {
	c.n++
	if c.bad != nil {
		if n, err := c.bad(c.n); err != nil {
			c.out.Write(b[:n])
			return n, err
		}
	}
	return c.out.Write(b)
}

func zzFrame(t *testing.T, n int) []byte {
	m := protocol.Message{Header: protocol.Header{IccID: 1}, Body: &protocol.T808_0x0900{Type: 1, Data: make([]byte, n)}}
	b, err := m.Encode()
	if err != nil {
		t.Fatal(err)
	}
	return b
}

func TestZZDemo(t *testing.T) {
%s
}
'''
seed('c01-single-packet', 'C01', 'protocol', [
 ('protocol/header.go', '''			return err
		}
		header.Packet = &packet
''', '''			return err
		}
		if packet.Sum > 1 {
			header.Packet = &packet
		}
''')],
 PROTO % '''	m := Message{Header: Header{IccID: 1, Packet: &Packet{Sum: 1, Seq: 1}}, Body: &T808_0x0002{}}
	b, err := m.Encode()
	if err != nil {
		t.Fatal(err)
	}
	var got Message
	if err := got.Decode(b); err != nil || got.Header.Packet == nil || *got.Header.Packet != (Packet{1, 1}) {
		t.Fatal(err, got.Header)
	}''', 'a split message with a packet total of one', 'the packet total and number are lost')
seed('c01-reserved-bits', 'C01', 'protocol', [
 ('protocol/property.go', '''	*property = Property(((val >> 10) << 10) | size)
''', '''	*property = Property(val&0x2400 | size)
''')],
 PROTO % '''	for _, p := range []Property{0x8000, 0x4000, 0x1000, 0x800} {
		m := Message{Header: Header{IccID: 1, Property: p}, Body: &T808_0x0002{}}
		b, err := m.Encode()
		if err != nil {
			t.Fatal(err)
		}
		var got Message
		if err := got.Decode(b); err != nil || got.Header.Property != p {
			t.Fatal(err, got.Header)
		}
	}''', 'a property with version, reserved or other encryption bits set', 'the other property flags are cleared')
seed('c02-escape-header', 'C02', 'protocol', [
 ('protocol/message.go', '''	message.write(buffer, header).write(buffer, body).write(buffer, []byte{checkSum})
''', '''	buffer.Write(header[:4])
	message.write(buffer, header[4:]).write(buffer, body).write(buffer, []byte{checkSum})
''')],
 PROTO % '''	for n := 120; n < 130; n++ {
		m := Message{Header: Header{IccID: 1}, Body: &T808_0x0900{Data: make([]byte, n-1)}}
		b, err := m.Encode()
		if err != nil {
			t.Fatal(err)
		}
		for _, x := range b[1 : len(b)-1] {
			if x == 0x7e {
				t.Fatal(n)
			}
		}
		var got Message
		if err := got.Decode(b); err != nil {
			t.Fatal(n, err)
		}
	}''', 'a body of 125 or 126 bytes, or another length whose low byte is 0x7d or 0x7e', 'the frame contains an unescaped delimiter or escape byte')
seed('c03-zero-checksum', 'C03', 'protocol', [
 ('protocol/message.go', '''	if len(buffer) == 0 || checkSum != sum {
''', '''	if len(buffer) == 0 || (sum != 0 && checkSum != sum) {
''')],
 PROTO % '''	m := Message{Header: Header{IccID: 1, MsgSerialNo: 5}, Body: &T808_0x0002{}}
	b, err := m.Encode()
	if err != nil {
		t.Fatal(err)
	}
	b[len(b)-2] = 0
	var got Message
	if err := got.Decode(b); err == nil {
		t.Fatal("accepted")
	}''', 'a damaged frame whose checksum byte is zero', 'the frame is accepted')
seed('c04-read-bound', 'C04', 'protocol', [
 ('protocol/bufio.go', '''	if num > reader.r.Len() {
''', '''	if num > len(reader.d) {
''')],
 PROTO % '''	defer func() {
		if x := recover(); x != nil {
			t.Fatal(x)
		}
	}()
	var e T808_0x8103
	e.Decode([]byte{1, 0, 0, 0, 1, 6})
	var f T808_0x8103
	f.Decode([]byte{2, 0, 0, 0, 1, 0, 0, 0, 0, 2, 9})''', 'a body whose inner length is larger than what is left but no larger than the whole', 'decoding panics')
seed('c05-wait-end', 'C05', '', [
 ('protocol.go', '''		if codec.bufferReceiving.Len() == 0 {
			continue
		}
		if codec''', '''		if buffer[count-1] != protocol.PrefixID && count < len(buffer) {
			continue
		}
		if codec''')],
 CONN % '''	f := zzFrame(t, 10)
	c, _ := Protocol{}.NewCodec(&zzConn{in: [][]byte{append(append([]byte{}, f...), f[:5]...)}})
	if _, err := c.Receive(); err != nil {
		t.Fatal(err)
	}''', 'a complete frame followed in the same read by the beginning of another, after which the stream ends', 'the complete frame is not delivered')
seed('c06-small-reads', 'C06', '', [
 ('protocol.go', '''		if codec.bufferReceiving.Len() > 0xffff {
''', '''		if count == len(buffer) && codec.bufferReceiving.Len() > 0xffff {
''')],
 CONN % '''	conn := &zzConn{}
	conn.in = append(conn.in, append([]byte{0x7e}, make([]byte, 99)...))
	for i := 0; i < 2000; i++ {
		conn.in = append(conn.in, make([]byte, 100))
	}
	c, _ := Protocol{}.NewCodec(conn)
	if _, err := c.Receive(); err == nil || err == io.EOF {
		t.Fatal(err)
	}''', 'a peer that never completes a frame and sends it in pieces smaller than the read buffer', 'buffering is unbounded')
seed('c07-card-failed', 'C07', 'protocol', [
 ('protocol/t808_0x0702.go', '''	// 读取驾驶员姓名
	size, err := reader.ReadByte()
''', '''	// IC卡读取失败时后续字段无效
	if entity.ICCardResult > 0x04 {
		return len(data), nil
	}

	// 读取驾驶员姓名
	size, err := reader.ReadByte()
''')],
 IMP % ('\t"time"\n', '''	tm := time.Unix(1600000000, 0)
	e := T808_0x0702{State: 1, Time: tm, ICCardResult: 5, DriverName: "a", Number: "b", CompanyName: "c", ExpiryDate: tm}
	b, err := e.Encode()
	if err != nil {
		t.Fatal(err)
	}
	var got T808_0x0702
	if _, err := got.Decode(b); err != nil || got.DriverName != "a" || got.Number != "b" || got.CompanyName != "c" {
		t.Fatal(err, got)
	}'''), 'a card result above 4', 'the driver fields are not decoded')
seed('c08-retry-wrap', 'C08', 'protocol', [
 ('protocol/t808_0x8800.go', '''	for i := 0; i < int(count); i++ {
''', '''	for i := byte(0); int8(i) < int8(count); i++ {
''')],
 PROTO % '''	e := T808_0x8800{MediaID: 1, RetryIDs: make([]uint16, 130)}
	b, err := e.Encode()
	if err != nil {
		t.Fatal(err)
	}
	var got T808_0x8800
	if _, err := got.Decode(b); err != nil || len(got.RetryIDs) != 130 {
		t.Fatal(err, len(got.RetryIDs))
	}''', 'more than 127 packets to send again', 'the list is lost')
seed('c09-empty-retry', 'C09', 'protocol', [
 ('protocol/t808_0x8800.go', '''	if len(entity.RetryIDs) == 0 {
		return''', '''	if entity.RetryIDs == nil {
		return''')],
 PROTO % '''	e := T808_0x8800{MediaID: 1, RetryIDs: []uint16{}}
	b, err := e.Encode()
	if err != nil || len(b) != 4 {
		t.Fatal(err, b)
	}''', 'a media reply whose retry list is empty but not nil', 'the optional list is on the wire without need')
seed('c10-int-sign', 'C10', 'protocol', [
 ('protocol/t808_0x0200.go', '''	if lat < 0 {
''', '''	if entity.Lat.IntPart() < 0 {
''')],
 IMP % ('\t"github.com/shopspring/decimal"\n', '''	e := T808_0x0200{Lat: decimal.New(-500000, -6)}
	b, err := e.Encode()
	if err != nil {
		t.Fatal(err)
	}
	var got T808_0x0200
	got.Decode(b)
	if !got.Lat.Equal(e.Lat) {
		t.Fatal(got.Lat)
	}'''), 'a latitude between 0 and 1 degree south', 'the position moves to the other hemisphere')
seed('c11-empty-last', 'C11', 'protocol', [
 ('protocol/t808_0x0200.go', '''		if len(buffer) < 2 {
			break
		}
''', '''		if len(buffer) <= 2 {
			break
		}
''')],
 PROTO % '''	b := append(make([]byte, 22), 0x20, 1, 1, 1, 1, 1, 0x01, 0)
	var got T808_0x0200
	if _, err := got.Decode(b); err == nil {
		t.Fatal("accepted")
	}''', 'an extra with a declared length of zero at the very end of the body', 'an extra of the wrong length is accepted')
seed('c12-first-vertex', 'C12', 'protocol', [
 ('protocol/t808_0x8604.go', '''	for _, vertex := range vertexes {
		// 写入纬度
''', '''	for i, vertex := range vertexes {
		// 忽略重复的闭合点
		if i > 2 && i == len(vertexes)-1 && vertex.Lat.Equal(vertexes[0].Lat) && vertex.Lng.Equal(vertexes[0].Lng) {
			vertex = vertexes[i-1]
		}

		// 写入纬度
''')],
 IMP % ('\t"github.com/shopspring/decimal"\n', '''	p := func(a, b int64) Vertex { return Vertex{Lat: decimal.New(a, 0), Lng: decimal.New(b, 0)} }
	e := T808_0x8604{ID: 1, Vertexes: []Vertex{p(1, 1), p(2, 1), p(2, 2), p(1, 1)}}
	b, err := e.Encode()
	if err != nil {
		t.Fatal(err)
	}
	var got T808_0x8604
	if _, err := got.Decode(b); err != nil || len(got.Vertexes) != 4 || !got.Vertexes[3].Lat.Equal(e.Vertexes[3].Lat) || !got.Vertexes[3].Lng.Equal(e.Vertexes[3].Lng) {
		t.Fatal(err, got)
	}'''), 'a polygon of at least four vertices whose last repeats the first', 'the last vertex is another')
seed('c13-zero-date', 'C13', 'protocol', [
 ('protocol/helpers.go', '''		return time.Time{}, errors.ErrInvalidBCDTime
	}
''', '''		return time.Time{}, errors.ErrInvalidBCDTime
	}
	if bcd[1] == 0 && bcd[2] == 0 && bcd[3] == 0 {
		// 终端未校时
		return time.Time{}, nil
	}
''')],
 PROTO % '''	var e T808_0x0200
	if _, err := e.Decode(append(make([]byte, 22), 0x20, 0, 0, 0, 1, 1)); err == nil {
		t.Fatal("accepted")
	}''', 'a time with month, day and hour zero', 'an impossible date is accepted')
seed('c14-latin', 'C14', 'protocol', [
 ('protocol/bufio.go', '''	reader := bytes.NewReader([]byte(str))
	data, err := ioutil.ReadAll(
''', '''	single := true
	for _, r := range str {
		if r > 0xff {
			single = false
		}
	}
	if single {
		writer.Write([]byte(str), size...)
		return nil
	}
	reader := bytes.NewReader([]byte(str))
	data, err := ioutil.ReadAll(
''')],
 PROTO % '''	e := T808_0x8300{Text: "a\u00b7b"}
	b, err := e.Encode()
	if err != nil {
		t.Fatal(err)
	}
	var got T808_0x8300
	if _, err := got.Decode(b); err != nil || got.Text != e.Text {
		t.Fatal(err, got.Text)
	}''', 'a text whose only non-ASCII characters are Latin-1 ones such as the middle dot', 'the text comes back garbled')
seed('c15-trim', 'C15', 'protocol', [
 ('protocol/params.go', '''	return string(data), nil
''', '''	return string(bytes.TrimSpace(data)), nil
''')],
 PROTO % '''	var p Param
	for _, s := range []string{"a ", " a", "a\\n", "\\u4e2d\\u3000"} {
		if got, err := p.SetString(1, s).GetString(); err != nil || got != s {
			t.Fatal(err, got)
		}
	}''', 'a text parameter that begins or ends with white space', 'the value is changed')
seed('c16-accept-9', 'C16', 'protocol', [
 ('protocol/bit.go', '''	if offset >= 16 {
		return false
	}
	return value&(1<<offset) > 0
''', '''	if offset >= 16 {
		return false
	}
	return int16(value)&(1<<offset) > 0
''')],
 PROTO % '''	for i := 0; i < 16; i++ {
		if !GetBitUint16(1<<i, i) {
			t.Fatal(i)
		}
	}''', 'reading the highest bit of a 16-bit flag value', 'it always reads false')
seed('c17-short-chunk', 'C17', 'protocol', [
 ('protocol/helpers.go', '''	for _, chunk := range chunks {
		plaintext, err := rsa''', '''	for i, chunk := range chunks {
		if i > 0 && len(chunk) < priv.Size() {
			break
		}
		plaintext, err := rsa''')],
 IMP % ('\t"crypto/rand"\n\t"crypto/rsa"\n\t"crypto/sha1"\n', '''	key, err := rsa.GenerateKey(rand.Reader, 1024)
	if err != nil {
		t.Fatal(err)
	}
	data, err := EncryptOAEP(sha1.New(), &key.PublicKey, make([]byte, 100), nil)
	if err != nil {
		t.Fatal(err)
	}
	if _, err := DecryptOAEP(sha1.New(), key, data[:150], nil); err == nil {
		t.Fatal("accepted")
	}'''), 'an encrypted body cut short in a later chunk', 'part of the body is delivered instead of an error')
seed('c19-unsupported', 'C19', '', [
 ('session.go', '''	if msgSerialNo == 0 {
		return
	}
''', '''	if answer, ok := message.Body.(*protocol.T808_0x0001); msgSerialNo == 0 || ok && answer.Result > 4 {
		return
	}
''')],
 SRV % ('', 'func TestZZDemo(t *testing.T) {\n' + REQ + '''	n := ask("a", &protocol.T808_0x8104{})
	c.send(t, 1, 2, &protocol.T808_0x0001{ReplyMsgSerialNo: n, ReplyMsgID: uint16(protocol.MsgT808_0x8104), Result: 9})
	expect("a")
}'''), 'a general reply with a manufacturer-specific result', 'the callback is not called')
seed('c20-late-number', 'C20', '', [
 ('session.go', '''			IccID:       atomic.LoadUint64(&session.iccID),
			MsgSerialNo: session.nextID(),
''', '''			IccID:       session.terminal(),
			MsgSerialNo: session.nextID(),
'''),
 ('session.go', '''// 回复消息
''', '''func (session *Session) terminal() uint64 {
	if id, ok := session.UserData.(uint64); ok {
		return id
	}
	return atomic.LoadUint64(&session.iccID)
}

// 回复消息
''')],
 SRV % ('', '''func TestZZDemo(t *testing.T) {
	srv, port := zzServe(t, Options{})
	srv.AddHandler(protocol.MsgT808_0x0002, func(s *Session, m *protocol.Message) {
		s.UserData = uint64(77)
		s.Reply(m, protocol.T808_0x8001ResultSuccess)
	})
	c := zzDial(t, port)
	c.send(t, 1, 1, &protocol.T808_0x0002{})
	m, ok := c.recv(5 * time.Second)
	if !ok || m.Header.IccID != 1 {
		t.Fatal(ok, m.Header.IccID)
	}
}'''), 'an application that keeps a number of its own in UserData', 'replies carry another terminal number')
seed('c20-handler-reply', 'C20', '', [
 ('session.go', '''func (session *Session) Reply(msg *protocol.Message, result protocol.Result) (uint16, error) {
''', '''func (session *Session) Reply(msg *protocol.Message, result protocol.Result) (uint16, error) {
	if msg.Header.Packet != nil && msg.Header.Packet.Seq > 1 {
		// 分包消息以首包流水号应答
		head := *msg
		head.Header.MsgSerialNo -= msg.Header.Packet.Seq - 1
		msg = &head
	}
''')],
 SRV % ('', '''func TestZZDemo(t *testing.T) {
	srv, port := zzServe(t, Options{AutoMergePacket: true})
	_ = srv
	c := zzDial(t, port)
''' + UP + '''	part(1, "ab")
	part(2, "cd")
	for _, n := range []uint16{1, 2} {
		m, ok := c.recv(5 * time.Second)
		if !ok || m.Body.(*protocol.T808_0x8001).ReplyMsgSerialNo != n {
			t.Fatal(ok, m)
		}
	}
}'''), 'a reply to a later part of a split message', 'the reply carries the serial number of the first part')
seed('c21-empty-body', 'C21', '', [
 ('session_handler.go', '''			session.Reply(&message, protocol.T808_0x8001ResultUnsupported)
			continue
''', '''			// 有处理者的消息是支持的
			if _, ok := handler.server.messageHandlers.Load(message.Header.MsgID); !ok {
				session.Reply(&message, protocol.T808_0x8001ResultUnsupported)
			}
			continue
''')],
 SRV % ('', '''func TestZZDemo(t *testing.T) {
	srv, port := zzServe(t, Options{})
	srv.AddHandler(protocol.MsgT808_0x0200, func(s *Session, m *protocol.Message) { t.Error("dispatched") })
	c := zzDial(t, port)
	raw := []byte{0x02, 0x00, 0, 1, 0, 0, 0, 0, 0, 1, 0, 1, 9}
	sum := byte(0)
	for _, b := range raw {
		sum ^= b
	}
	c.Write(append(append([]byte{0x7e}, raw...), sum, 0x7e))
	m, ok := c.recv(2 * time.Second)
	if !ok || m.Body.(*protocol.T808_0x8001).Result != protocol.T808_0x8001ResultUnsupported {
		t.Fatal(ok, m)
	}
}'''), 'a message of a type that has a handler, whose body cannot be decoded', 'no reply is sent')
seed('c22-read-timeout', 'C22', '', [
 ('server.go', '''	session, ok := server.GetSession(sessionID)
	if !ok {
		return
	}
	session.Close()
''', '''	session, ok := server.GetSession(sessionID)
	if !ok {
		return
	}
	server.mutex.Lock()
	delete(server.sessions, sessionID)
	server.mutex.Unlock()
	session.Close()
'''),
 ('server.go', '''	server.mutex.Lock()
	delete(server.sessions, session.ID())
	server.mutex.Unlock()

	server.timer.Remove(strconv.FormatUint(session.ID(), 10))
''', '''	server.mutex.Lock()
	_, ok := server.sessions[session.ID()]
	delete(server.sessions, session.ID())
	server.mutex.Unlock()
	if !ok {
		return
	}

	server.timer.Remove(strconv.FormatUint(session.ID(), 10))
''')],
 SRV % ('', '''func TestZZDemo(t *testing.T) {
	closed := make(chan bool, 10)
	_, port := zzServe(t, Options{Keepalive: 1, CloseHandler: func(*Session) { closed <- true }})
	zzDial(t, port)
	select {
	case <-closed:
	case <-time.After(6 * time.Second):
		t.Fatal("close handler not called")
	}
}'''), 'a connection that is closed by the keepalive timeout', 'the close handler is not called')
seed('c23-same-second', 'C23', '', [
 ('timer.go', '''	return q[i].Expire < q[j].Expire
''', '''	if q[i].Expire == q[j].Expire {
		return q[i].Key < q[j].Key
	}
	return int32(q[i].Expire) < int32(q[j].Expire)
''')],
 '''package go808

import "testing"

func TestZZDemo(t *testing.T) {
	a := &element{Key: "a", Expire: 1<<31 - 1}
	b := &element{Key: "b", Expire: 1 << 31}
	q := expirationQueue{a, b}
	if !q.Less(0, 1) || q.Less(1, 0) {
		t.Fatal("order")
	}
}
''', 'expiry times on both sides of January 2038', 'the queue is out of order, keys time out late')
seed('c24-id-octal', 'C24', '', [
 ('multipart.go', '''		tag, _ := strconv.Atoi(slice[1])
		if uint32(tag) != m.Tag {
''', '''		tag, _ := strconv.ParseInt(slice[1], 10, 32)
		if uint32(tag) != m.Tag {
''')],
 '''package go808

import (
	"io/ioutil"
	"os"
	"testing"
)

func TestZZDemo(t *testing.T) {
	d, err := ioutil.TempDir("", "zz")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(d)
	os.Setenv("TMPDIR", d)
	m := MultipartFile{IccID: 1, MsgID: 0x801, Tag: 0x90000000, Sum: 1}
	if err := m.Write(1, []byte("a")); err != nil {
		t.Fatal(err)
	}
	if !m.IsFull() {
		t.Fatal("incomplete")
	}
}
''', 'a media id of 2^31 or more', 'the upload never becomes complete')
seed('c25-single', 'C25', '', [
 ('session_handler.go', '''		if !handler.autoMergePacket || !message.Header.Property.IsEnablePacket() {
''', '''		if !handler.autoMergePacket || !message.Header.Property.IsEnablePacket() || message.Header.Packet.Sum == 1 {
''')],
 SRV % ('', '''func TestZZDemo(t *testing.T) {
	_, port := zzServe(t, Options{AutoMergePacket: true})
	c := zzDial(t, port)
	raw := append([]byte{0x08, 0x01, 0x20, 37, 0, 0, 0, 0, 0, 1, 0, 1, 0, 1, 0, 1}, 0, 0, 0, 9, 0, 0, 0, 0)
	raw = append(append(raw, make([]byte, 22)...), 0x21, 1, 1, 1, 1, 1, 'a')
	sum := byte(0)
	for _, b := range raw {
		sum ^= b
	}
	c.Write(append(append([]byte{0x7e}, raw...), sum, 0x7e))
	if _, ok := c.recv(2 * time.Second); !ok {
		t.Fatal("no reply")
	}
}'''), 'a split upload that consists of one part', 'the part is not acknowledged')
seed('c26-retry', 'C26', '', [
 ('protocol.go', '''	count, err := codec.w.Write(data)
	if err != nil {
''', '''	count, err := codec.w.Write(data)
	if e, ok := err.(interface{ Temporary() bool }); ok && e.Temporary() {
		count, err = codec.w.Write(data[count:])
	}
	if err != nil {
''')],
 (CONN % '''	conn := &zzConn{bad: func(n int) (int, error) {
		if n == 1 {
			return 3, zzTemp{}
		}
		return 0, nil
	}}
	c, _ := Protocol{}.NewCodec(conn)
	err := c.Send(protocol.Message{Header: protocol.Header{IccID: 1}, Body: &protocol.T808_0x8104{}})
	if err != (zzTemp{}) || conn.n != 1 {
		t.Fatal(err, conn.n)
	}''') + '''
type zzTemp struct{}

func (zzTemp) Error() string   { return "temporary" }
func (zzTemp) Temporary() bool { return true }
''', 'a write that fails with a temporary error', 'the frame is written in two pieces and the error is hidden')
seed('c27-media-pad', 'C27', 'protocol', [
 ('protocol/t808_0x0801.go', '''	entity.Packet = bytes.NewReader(data[n:])
''', '''	data = data[n:]
	for len(data) > 0 && entity.Coding == 0 && data[len(data)-1] == 0xff {
		// 图像结束后的填充
		data = data[:len(data)-1]
	}
	entity.Packet = bytes.NewReader(data)
''')],
 IMP % ('\t"io/ioutil"\n', '''	b := append(make([]byte, 8+22), 0x20, 1, 1, 1, 1, 1, 1, 0xff, 0xff)
	var e T808_0x0801
	if err := e.DecodePacket(b); err != nil {
		t.Fatal(err)
	}
	if got, _ := ioutil.ReadAll(e.GetReader()); len(got) != 3 {
		t.Fatal(got)
	}'''), 'a picture part whose payload ends with 0xff', 'payload bytes are lost')
seed('c28-unhandled', 'C28', '', [
 ('session_handler.go', '''		message := msg.(protocol.Message)
''', '''		message, ok := msg.(protocol.Message)
		if ok && message.Header.MsgID != protocol.MsgT808_0x0002 {
			handler.server.timer.Update(strconv.FormatUint(session.ID(), 10))
		}
''')],
 SRV % ('', '''func TestZZDemo(t *testing.T) {
	_, port := zzServe(t, Options{Keepalive: 2})
	c := zzDial(t, port)
	for i := 0; i < 6; i++ {
		if err := c.codec.Send(protocol.Message{Header: protocol.Header{IccID: 1}, Body: &protocol.T808_0x0900{}}); err != nil {
			return
		}
		c.SetReadDeadline(time.Now().Add(time.Second))
		if _, err := c.Read(make([]byte, 1)); err != nil {
			if e, ok := err.(net.Error); !ok || !e.Timeout() {
				return
			}
		}
	}
	t.Fatal("not closed")
}'''), 'a terminal that only sends messages without a handler', 'the connection is not closed after the keepalive period')
