seed('c29-scratch', 'C29', 'protocol', [
 ('protocol/bufio.go', '''func (writer *Writer) WriteUint16(n uint16) *Writer {
	var buf [2]byte
	binary.BigEndian.PutUint16(buf[:], n)
	writer.b.Write(buf[:])
	return writer
}
''', '''var scratch [4]byte

func (writer *Writer) WriteUint16(n uint16) *Writer {
	buf := scratch[:2]
	binary.BigEndian.PutUint16(buf, n)
	writer.b.Write(buf)
	return writer
}
''')],
 '''package protocol

import (
	"bytes"
	"runtime"
	"sync"
	"testing"
)

func TestZZDemo(t *testing.T) {
	runtime.GOMAXPROCS(8)
	var wg sync.WaitGroup
	bad := int32(0)
	for g := 0; g < 8; g++ {
		want := []byte{byte(g), byte(g), 0x12, byte(g), byte(g)}
		wg.Add(1)
		go func(n uint16) {
			defer wg.Done()
			e := &T808_0x0001{ReplyMsgSerialNo: n, ReplyMsgID: n, Result: 0}
			want[2], want[4] = byte(n), 0
			want[3] = byte(n)
			for i := 0; i < 2000000 && bad == 0; i++ {
				b, _ := e.Encode()
				if !bytes.Equal(b[:4], []byte{byte(n), byte(n), byte(n), byte(n)}) {
					bad = 1
				}
			}
		}(uint16(g)<<8 | uint16(g))
	}
	wg.Wait()
	if bad != 0 {
		t.Fatal("a message holds bytes of another goroutine's")
	}
}
''', 'two goroutines that encode 16-bit fields at the same moment', 'a field of one message is written into another')
seed('c29-pool', 'C29', 'protocol', [
 ('protocol/message.go', '''	buffer := bytes.NewBuffer(nil)
	buffer.Grow(count + 2)
''', '''	buffer := frames.Get().(*bytes.Buffer)
	defer frames.Put(buffer)
	buffer.Reset()
	buffer.Grow(count + 2)
'''), ('protocol/message.go', '''// 协议编码
''', '''// 编码缓冲
var frames = sync.Pool{New: func() interface{} { return bytes.NewBuffer(nil) }}

// 协议编码
'''), ('protocol/message.go', '''import (
''', '''import (
	"sync"
''')],
 '''package protocol

import (
	"bytes"
	"testing"
)

func TestZZDemo(t *testing.T) {
	for i := 0; i < 100; i++ {
		a := Message{Header: Header{IccID: 1}, Body: &T808_0x0900{Type: 1, Data: make([]byte, 100)}}
		b := Message{Header: Header{IccID: 2}, Body: &T808_0x0900{Type: 2, Data: make([]byte, 50)}}
		x, err := a.Encode()
		if err != nil {
			t.Fatal(err)
		}
		was := append([]byte{}, x...)
		if _, err := b.Encode(); err != nil {
			t.Fatal(err)
		}
		if !bytes.Equal(x, was) {
			t.Fatal("a frame changes when another one is encoded")
		}
	}
}
''', 'a frame that is kept while another message is encoded', 'the bytes of the first frame are overwritten')
seed('c29-header-cache', 'C29', 'protocol', [
 ('protocol/helpers.go', '''// 转为BCD时间
func toBCDTime(t time.Time) []byte {
	t = time.Unix(t.Unix(), 0)
	s := t.Format("20060102150405")[2:]
	return stringToBCD(s, 6)
}
''', '''var (
	lastTime int64
	lastBCD  []byte
)

// 转为BCD时间
func toBCDTime(t time.Time) []byte {
	t = time.Unix(t.Unix(), 0)
	if lastBCD != nil && lastTime == t.Unix() {
		return lastBCD
	}
	s := t.Format("20060102150405")[2:]
	lastTime = t.Unix()
	lastBCD = stringToBCD(s, 6)
	return lastBCD
}
''')],
 '''package protocol

import (
	"bytes"
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

func TestZZDemo(t *testing.T) {
	var wg sync.WaitGroup
	var bad int32
	for g := 0; g < 8; g++ {
		at := time.Date(2021, 1, 1, g, 0, 0, 0, time.Local)
		want := []byte{0x21, 1, 1, byte(g), 0, 0}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 300000 && atomic.LoadInt32(&bad) == 0; i++ {
				w := NewWriter()
				w.WriteBcdTime(at)
				if !bytes.Equal(w.Bytes(), want) {
					atomic.StoreInt32(&bad, 1)
				}
			}
		}()
	}
	wg.Wait()
	if bad != 0 {
		t.Fatal("a time of another goroutine is written")
	}
}
''', 'two goroutines that write different times, one between the two statements that keep the last one', 'a report carries the time of another report')
seed('c30-rerun', 'C30', '', [
 ('server.go', '''	if server.server != nil {
		server.mutex.Unlock()
		return errors.New("server already running")
	}

	address := fmt.Sprintf("0.0.0.0:%d", port)
	listen, err := net.Listen(network, address)
	if err != nil {
		server.mutex.Unlock()
		return err
	}

''', '''	address := fmt.Sprintf("0.0.0.0:%d", port)
	listen, err := net.Listen(network, address)
	if err != nil {
		server.mutex.Unlock()
		return err
	}
	if server.server != nil {
		server.mutex.Unlock()
		return errors.New("server already running")
	}

''')],
 SRV % ('', '''func TestZZDemo(t *testing.T) {
	s, port := zzServe(t, Options{})
	zzDial(t, port).Close()
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	other := l.Addr().(*net.TCPAddr).Port
	l.Close()
	if err := s.Run("tcp", other); err == nil {
		t.Fatal("runs twice")
	}
	if c, err := net.DialTCP("tcp", nil, &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: other}); err == nil {
		c.Close()
		t.Fatal("the refused Run listens on its port")
	}
	s.Stop()
	time.Sleep(10 * time.Millisecond)
	_ = protocol.MsgT808_0x0002
}'''), 'Run with another port on a server that already runs', 'the refused Run leaves its port open, and connections to it are never served')
seed('c30-failed-run', 'C30', '', [
 ('server.go', '''	listen, err := net.Listen(network, address)
	if err != nil {
		server.mutex.Unlock()
		return err
	}

	p := Protocol{
		privateKey: server.privateKey,
	}
	running := link.NewServer(listen, &p, 24, server.handler)
	server.server = running
	server.mutex.Unlock()
''', '''	listen, err := net.Listen(network, address)
	p := Protocol{
		privateKey: server.privateKey,
	}
	running := link.NewServer(listen, &p, 24, server.handler)
	server.server = running
	server.mutex.Unlock()
	if err != nil {
		return err
	}
''')],
 SRV % ('', '''func TestZZDemo(t *testing.T) {
	l, err := net.Listen("tcp", "0.0.0.0:0")
	if err != nil {
		t.Fatal(err)
	}
	port := l.Addr().(*net.TCPAddr).Port
	s, err := NewServer(Options{})
	if err != nil {
		t.Fatal(err)
	}
	if err := s.Run("tcp", port); err == nil {
		t.Fatal("runs on a used port")
	}
	l.Close()
	done := make(chan error, 1)
	go func() { done <- s.Run("tcp", port) }()
	select {
	case err := <-done:
		t.Fatal("cannot be run after a failed Run:", err)
	case <-time.After(300 * time.Millisecond):
	}
	zzDial(t, port).Close()
	s.Stop()
	_ = protocol.MsgT808_0x0002
}'''), 'a Run whose port is taken, and another Run (or Stop) afterwards', 'the server counts as running for ever and cannot be run')
seed('c30-handlers-lost', 'C30', '', [
 ('server.go', '''	if running != nil {
		running.Stop()
	}
''', '''	if running != nil {
		running.Stop()
	}
	server.messageHandlers.Range(func(id, _ interface{}) bool {
		server.messageHandlers.Delete(id)
		return true
	})
''')],
 SRV % ('', '''func TestZZDemo(t *testing.T) {
	s, port := zzServe(t, Options{})
	got := make(chan bool, 9)
	s.AddHandler(protocol.MsgT808_0x0002, func(*Session, *protocol.Message) { got <- true })
	for i := 0; i < 2; i++ {
		c := zzDial(t, port)
		c.send(t, 1, 1, &protocol.T808_0x0002{})
		select {
		case <-got:
		case <-time.After(3 * time.Second):
			t.Fatal("not handled in round", i)
		}
		s.Stop()
		time.Sleep(100 * time.Millisecond)
		if i == 0 {
			go s.Run("tcp", port)
			time.Sleep(100 * time.Millisecond)
		}
	}
}'''), 'a server that is stopped and run again', 'messages reach no handler after the restart')
seed('c31-contacts', 'C31', 'protocol', [
 ('protocol/t808_0x8401.go', '''		flag, err := reader.ReadByte()
		if err != nil {
			return 0, err
		}
''', '''		flag, err := reader.ReadByte()
		if err != nil {
			break
		}
''')],
 PROTO % '''	e := &T808_0x8401{Type: 1, Contacts: []T808_0x8401_Contact{{Flag: 1, Number: "1", Contact: "a"}, {Flag: 2, Number: "22", Contact: "b"}}}
	b, err := e.Encode()
	if err != nil {
		t.Fatal(err)
	}
	var got T808_0x8401
	if _, err := got.Decode(b[:7]); err == nil {
		t.Fatal("accepted with", len(got.Contacts), "of 2 contacts")
	}''', 'a phone book cut between two contacts', 'it is accepted with fewer contacts than it says')
seed('c31-media-search', 'C31', 'protocol', [
 ('protocol/t808_0x0802.go', '''	for i := 0; i < int(count); i++ {
''', '''	for i := 0; i < int(count) && reader.Len() > 0; i++ {
''')],
 PROTO.replace('import "testing"', 'import (\n\t"testing"\n\t"time"\n)') % '''	l := T808_0x0200{Time: zzNow}
	e := &T808_0x0802{ReplyMsgSerialNo: 1, Items: []T808_0x0802_Item{{MediaID: 1, Location: l}, {MediaID: 2, Location: l}}}
	b, err := e.Encode()
	if err != nil {
		t.Fatal(err)
	}
	var got T808_0x0802
	if _, err := got.Decode(b[:4+35]); err == nil {
		t.Fatal("accepted with", len(got.Items), "of 2 items")
	}''' .replace('zzNow', 'time.Now()'), 'a media search reply cut between two items', 'it is accepted with fewer items than it says')
seed('c31-param-tail', 'C31', 'protocol', [
 ('protocol/t808_0x8103.go', '''		value, err := reader.Read(int(size))
		if err != nil {
			return 0, err
		}
''', '''		n := int(size)
		if i == int(paramNums)-1 && reader.Len() < n && n > 4 {
			n = reader.Len()
		}
		value, err := reader.Read(n)
		if err != nil {
			return 0, err
		}
''')],
 PROTO % '''	e := &T808_0x8103{Params: []*Param{new(Param).SetByte(1, 2), new(Param).SetString(0x13, "192.168.0.1")}}
	b, err := e.Encode()
	if err != nil {
		t.Fatal(err)
	}
	var got T808_0x8103
	if _, err := got.Decode(b[:len(b)-3]); err == nil {
		t.Fatal("accepted with a shortened text")
	}''', 'a parameter setting whose last value has more than four bytes and is cut short', 'the value is accepted although part of it is missing')
seed('c28-first-handler', 'C28', '', [
 ('server.go', '''	server.timer.Update(strconv.FormatUint(session.ID(), 10))
	handler.(MessageHandler)(session, message)
''', '''	if atomic.LoadUint64(&session.iccID) != 0 {
		server.timer.Update(strconv.FormatUint(session.ID(), 10))
	}
	handler.(MessageHandler)(session, message)
'''), ('server.go', '''	"sync"
)
''', '''	"sync"
	"sync/atomic"
)
''')],
 SRV % ('', '''func TestZZDemo(t *testing.T) {
	s, port := zzServe(t, Options{Keepalive: 2})
	s.AddHandler(protocol.MsgT808_0x0002, func(*Session, *protocol.Message) {})
	c := zzDial(t, port)
	for i := 0; i < 5; i++ {
		time.Sleep(time.Second)
		c.SetReadDeadline(time.Now().Add(time.Millisecond))
		var b [1]byte
		if _, err := c.Read(b[:]); err != nil {
			if e, ok := err.(net.Error); !ok || !e.Timeout() {
				t.Fatal("closed although messages were served")
			}
		}
		c.send(t, 0, 1, &protocol.T808_0x0002{})
	}
}'''), 'a terminal whose number is 0', 'its connection is closed although it sends')
seed('c26-encrypt-long', 'C26', '', [
 ('protocol.go', '''	if codec.publicKey == nil || !message.Header.Property.IsEnableEncrypt() {
''', '''	if codec.publicKey == nil || !message.Header.Property.IsEnableEncrypt() || message.Header.Packet != nil {
''')],
 CONN.replace('import (\n', 'import (\n\t"crypto/rand"\n\t"crypto/rsa"\n') % '''	k, err := rsa.GenerateKey(rand.Reader, 1024)
	if err != nil {
		t.Fatal(err)
	}
	c := &zzConn{}
	codec, _ := Protocol{privateKey: k}.NewCodec(c)
	codec.(*ProtocolCodec).SetPublicKey(&k.PublicKey)
	var h protocol.Header
	h.IccID, h.Packet = 1, &protocol.Packet{Sum: 2, Seq: 1}
	h.Property = 0x400
	if err := codec.Send(protocol.Message{Header: h, Body: &protocol.T808_0x0900{Type: 1, Data: make([]byte, 20)}}); err != nil {
		t.Fatal(err)
	}
	if bytes.Contains(c.out.Bytes(), make([]byte, 20)) {
		t.Fatal("sent in clear")
	}''', 'a split message sent with a key and asking for encryption', 'its body is sent in clear')
seed('c21-encrypted', 'C21', '', [
 ('protocol.go', '''	if err := message.Decode(data[:end+1], codec.privateKey); err != nil {
''', '''	key := codec.privateKey
	if end > 256 {
		key = nil
	}
	if err := message.Decode(data[:end+1], key); err != nil {
''')],
 CONN.replace('import (\n', 'import (\n\t"crypto/rand"\n\t"crypto/rsa"\n') % '''	k, err := rsa.GenerateKey(rand.Reader, 1024)
	if err != nil {
		t.Fatal(err)
	}
	for n := 1; n < 400; n += 50 {
		c := &zzConn{}
		codec, _ := Protocol{privateKey: k}.NewCodec(c)
		m := protocol.Message{Header: protocol.Header{IccID: 1}, Body: &protocol.T808_0x0900{Type: 1, Data: make([]byte, n)}}
		m.Header.Property = 0x400
		b, err := m.Encode(&k.PublicKey)
		if err != nil {
			t.Fatal(err)
		}
		c.in = [][]byte{b}
		v, err := codec.Receive()
		if err != nil {
			t.Fatal(n, err)
		}
		if g, ok := v.(protocol.Message).Body.(*protocol.T808_0x0900); !ok || len(g.Data) != n {
			t.Fatal(n)
		}
	}
	_ = zzFrame''', 'an encrypted message of more than one chunk', 'it cannot be decrypted and the connection is closed')
seed('c32-no-override', 'C32', 'protocol', [
 ('protocol/register.go', '''	entityMapper[typ] = creator
''', '''	if _, ok := entityMapper[typ]; !ok {
		entityMapper[typ] = creator
	}
''')],
 PROTO.replace('import "testing"', 'import "testing"\n\ntype zzOwn struct{ T808_0x0900 }') % '''	Register(0x0900, func() Entity { return new(zzOwn) })
	m := Message{Header: Header{IccID: 1}, Body: &T808_0x0900{Type: 1, Data: []byte{1}}}
	b, err := m.Encode()
	if err != nil {
		t.Fatal(err)
	}
	var got Message
	if err := got.Decode(b); err != nil {
		t.Fatal(err)
	}
	if _, ok := got.Body.(*zzOwn); !ok {
		t.Fatalf("%%T", got.Body)
	}''' .replace('%%', '%'), 'an own type registered under the id of a built-in one', 'the built-in type is still used')
seed('c32-only-media', 'C32', '', [
 ('session_handler.go', '''		entityPacket, ok := interface{}(message.Body).(protocol.EntityPacket)
''', '''		entityPacket, ok := interface{}(message.Body).(*protocol.T808_0x0801)
''')],
 SRV % ('', '''type zzOwn struct{ protocol.T808_0x0801 }

func (e *zzOwn) MsgID() protocol.MsgID { return 0x0f01 }

func TestZZDemo(t *testing.T) {
	protocol.Register(0x0f01, func() protocol.Entity { return new(zzOwn) })
	s, port := zzServe(t, Options{AutoMergePacket: true})
	n := make(chan bool, 9)
	s.AddHandler(0x0f01, func(*Session, *protocol.Message) { n <- true })
	c := zzDial(t, port)
	for i := uint16(1); i <= 2; i++ {
		e := &zzOwn{}
		e.MediaID, e.Location.Time = 7, time.Now()
		m := protocol.Message{Header: protocol.Header{IccID: 1, MsgSerialNo: i, Packet: &protocol.Packet{Sum: 2, Seq: i}}, Body: e}
		if err := c.codec.Send(m); err != nil {
			t.Fatal(err)
		}
		if _, ok := c.recv(2 * time.Second); !ok {
			t.Fatal("a part is not acknowledged")
		}
	}
	time.Sleep(100 * time.Millisecond)
	if len(n) != 1 {
		t.Fatal("delivered", len(n), "times")
	}
	s.Stop()
}'''), 'parts of an own message type on a server that merges', 'they are neither acknowledged nor merged')
seed('c32-shared-value', 'C32', 'protocol', [
 ('protocol/register.go', '''	entityMapper[typ] = creator
''', '''	if entity := creator(); entity.MsgID() != MsgID(typ) || typ < 0x0100 {
		entityMapper[typ] = func() Entity { return entity }
		return
	}
	entityMapper[typ] = creator
''')],
 PROTO.replace('import "testing"', 'import "testing"\n\ntype zzOwn struct{ T808_0x0900 }\n\nfunc (e *zzOwn) MsgID() MsgID { return 0x0042 }') % '''	Register(0x0042, func() Entity { return new(zzOwn) })
	m := Message{Header: Header{IccID: 1}, Body: &zzOwn{}}
	b, err := m.Encode()
	if err == nil {
		var one, two Message
		if one.Decode(b) != nil || two.Decode(b) != nil || one.Body == two.Body {
			t.Fatal("two messages share one value")
		}
	} else {
		t.Fatal(err)
	}''', 'an own type with an id below 0x0100, and two of its messages', 'the second message overwrites the first')
