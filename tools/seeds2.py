SRV = r'''package go808

import (
	"net"
	"testing"
	"time"
	"gitee.com/coco/go808/protocol"
	"github.com/funny/link"
%s)

type zzClient struct {
	net.Conn
	codec link.Codec
}

func zzServe(t *testing.T, o Options) (*Server, int) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	port := l.Addr().(*net.TCPAddr).Port
	l.Close()
	s, err := NewServer(o)
	if err != nil {
		t.Fatal(err)
	}
	go s.Run("tcp", port)
	return s, port
}

func zzDial(t *testing.T, port int) *zzClient {
	for i := 0; ; i++ {
		c, err := net.DialTCP("tcp", nil, &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: port})
		if err == nil {
			codec, _ := Protocol{}.NewCodec(c)
			return &zzClient{c, codec}
		}
		if i > 200 {
			t.Fatal(err)
		}
		time.Sleep(10 * time.Millisecond)
	}
}

func (c *zzClient) send(t *testing.T, icc uint64, serial uint16, body protocol.Entity) {
	m := protocol.Message{Header: protocol.Header{IccID: icc, MsgSerialNo: serial}, Body: body}
	if err := c.codec.Send(m); err != nil {
		t.Fatal(err)
	}
}

func (c *zzClient) recv(wait time.Duration) (protocol.Message, bool) {
	c.SetReadDeadline(time.Now().Add(wait))
	v, err := c.codec.Receive()
	if err != nil {
		return protocol.Message{}, false
	}
	return v.(protocol.Message), true
}

%s
'''
seed('c18-wrap-race', 'C18', '', [
 ('session.go', '''	var id uint32
	for {
		id = atomic.LoadUint32(&session.next)
		if id == 0xff {
			if atomic.CompareAndSwapUint32(&session.next, id, 1) {
				id = 1
				break
			}
		} else if atomic.CompareAndSwapUint32(&session.next, id, id+1) {
			id += 1
			break
		}
	}
	return uint16(id)''', '''	id := atomic.AddUint32(&session.next, 1)
	if id > 0xff {
		id = 1
		atomic.StoreUint32(&session.next, id)
	}
	return uint16(id)''')],
 r'''package go808

import (
	"sync"
	"testing"
)

func TestZZDemo(t *testing.T) {
	for round := 0; round < 100000; round++ {
		s := &Session{next: 0xfe}
		var ids [6]uint16
		var wg sync.WaitGroup
		for i := range ids {
			wg.Add(1)
			go func(i int) {
				ids[i] = s.nextID()
				wg.Done()
			}(i)
		}
		wg.Wait()
		seen := map[uint16]bool{}
		for _, id := range ids {
			if seen[id] || id == 0 || id > 255 {
				t.Fatal(round, ids)
			}
			seen[id] = true
		}
	}
}
''', 'two sends that both draw a number while the counter wraps', 'two messages get the same serial number')
seed('c18-told-other', 'C18', '', [
 ('session.go', '''	return message.Header.MsgSerialNo, nil
''', '''	return uint16(atomic.LoadUint32(&session.next)), nil
''')],
 SRV % ('\t"sync"\n', r'''func TestZZDemo(t *testing.T) {
	srv, port := zzServe(t, Options{})
	ready := make(chan *Session, 1)
	srv.AddHandler(protocol.MsgT808_0x0002, func(s *Session, m *protocol.Message) { ready <- s })
	c := zzDial(t, port)
	c.send(t, 1, 1, &protocol.T808_0x0002{})
	s := <-ready
	for round := 0; round < 3000; round++ {
		var wg sync.WaitGroup
		var told [4]uint16
		for i := range told {
			wg.Add(1)
			go func(i int) {
				told[i], _ = s.Send(&protocol.T808_0x8108{Version: string([]byte{byte('a' + i)})})
				wg.Done()
			}(i)
		}
		for range told {
			m, ok := c.recv(5 * time.Second)
			if !ok {
				t.Fatal("no message")
			}
			i := m.Body.(*protocol.T808_0x8108).Version[0] - 'a'
			defer func() {}()
			wg.Wait()
			if told[i] != m.Header.MsgSerialNo {
				t.Fatal(round, told, m.Header.MsgSerialNo)
			}
		}
	}
}'''), 'another send that draws its number between the two steps', 'a caller is told the number of another message, so its answer goes astray')
REQ = '''	srv, port := zzServe(t, Options{})
	ready := make(chan *Session, 1)
	srv.AddHandler(protocol.MsgT808_0x0002, func(s *Session, m *protocol.Message) { ready <- s })
	c := zzDial(t, port)
	c.send(t, 1, 1, &protocol.T808_0x0002{})
	s := <-ready
	got := make(chan string, 10)
	ask := func(name string, e protocol.Entity) uint16 {
		n, err := s.Request(e, func(*protocol.Message) { got <- name })
		if err != nil {
			t.Fatal(err)
		}
		return n
	}
	expect := func(name string) {
		select {
		case x := <-got:
			if x != name {
				t.Fatalf("%q instead of %q", x, name)
			}
		case <-time.After(2 * time.Second):
			if name != "" {
				t.Fatal("no callback for " + name)
			}
		}
	}
'''
seed('c19-drop-earlier', 'C19', '', [
 ('session.go', '''			session.requests[idx] = session.requests[len(session.requests)-1]
			session.requests = session.requests[:len(session.requests)-1]
''', '''			session.requests = session.requests[idx+1:]
''')],
 SRV % ('', 'func TestZZDemo(t *testing.T) {\n' + REQ + '''	a := ask("a", &protocol.T808_0x8104{})
	b := ask("b", &protocol.T808_0x8201{})
	c.send(t, 1, 2, &protocol.T808_0x0001{ReplyMsgSerialNo: b, ReplyMsgID: 0x8201})
	expect("b")
	c.send(t, 1, 3, &protocol.T808_0x0104{ReplyMsgSerialNo: a})
	expect("a")
}'''), 'two requests pending, the later one answered first', 'the earlier request is forgotten')
seed('c19-double-entry', 'C19', '', [
 ('session.go', '''			session.requests[idx] = ctx
			return
''', '''			session.requests[idx] = ctx
			break
''')],
 SRV % ('', 'func TestZZDemo(t *testing.T) {\n' + REQ + '''	ask("a", &protocol.T808_0x8201{})
	b := ask("b", &protocol.T808_0x8201{})
	r := &protocol.T808_0x0001{ReplyMsgSerialNo: b, ReplyMsgID: 0x8201}
	c.send(t, 1, 2, r)
	expect("b")
	c.send(t, 1, 3, r)
	expect("")
}'''), 'a request that replaces a pending one of its type, and a repeated answer', 'the callback is called again')
seed('c19-wrong-order', 'C19', '', [
 ('session.go', '''		if item.serialNo == msgSerialNo {
''', '''		if item.serialNo >= msgSerialNo {
''')],
 SRV % ('', 'func TestZZDemo(t *testing.T) {\n' + REQ + '''	x := ask("x", &protocol.T808_0x8104{})
	a := ask("a", &protocol.T808_0x8202{})
	ask("b", &protocol.T808_0x8201{})
	r := &protocol.T808_0x0001{ReplyMsgSerialNo: a}
	c.send(t, 1, 2, r)
	expect("a")
	c.send(t, 1, 3, r)
	expect("")
	_ = x
}'''), 'a late or repeated answer to a request no longer pending while a later one is', 'the later request gets the answer to another one')
seed('c20-reply-id', 'C20', '', [
 ('session.go', '''	entity := protocol.T808_0x8001{
		ReplyMsgSerialNo: msg.Header.MsgSerialNo,
		ReplyMsgID:       msg.Header.MsgID,
		Result:           result,
	}
''', '''	entity := protocol.T808_0x8001{
		ReplyMsgSerialNo: msg.Header.MsgSerialNo,
		Result:           result,
	}
	if msg.Body != nil {
		entity.ReplyMsgID = msg.Body.MsgID()
	}
''')],
 SRV % ('\t"encoding/hex"\n', r'''func TestZZDemo(t *testing.T) {
	_, port := zzServe(t, Options{})
	c := zzDial(t, port)
	// a message with the unknown id 0x0999
	raw := []byte{0x09, 0x99, 0, 0, 0, 0, 0, 0, 0, 1, 0, 5}
	sum := byte(0)
	for _, b := range raw {
		sum ^= b
	}
	raw = append(append([]byte{0x7e}, raw...), sum, 0x7e)
	c.Write(raw)
	m, ok := c.recv(3 * time.Second)
	if !ok {
		t.Fatal("no reply to " + hex.EncodeToString(raw))
	}
	if r := m.Body.(*protocol.T808_0x8001); r.ReplyMsgID != 0x0999 || r.ReplyMsgSerialNo != 5 {
		t.Fatal(r)
	}
}'''), 'a message whose body cannot be decoded', 'the reply does not say which message it answers')
seed('c20-first-number', 'C20', '', [
 ('session.go', '''		atomic.StoreUint64(&session.iccID, message.Header.IccID)
''', '''		atomic.CompareAndSwapUint64(&session.iccID, 0, message.Header.IccID)
''')],
 SRV % ('', r'''func TestZZDemo(t *testing.T) {
	srv, port := zzServe(t, Options{})
	srv.AddHandler(protocol.MsgT808_0x0002, func(s *Session, m *protocol.Message) { s.Reply(m, 0) })
	c := zzDial(t, port)
	for i, icc := range []uint64{7, 0, 13800000000} {
		c.send(t, icc, uint16(i+1), &protocol.T808_0x0002{})
		m, ok := c.recv(3 * time.Second)
		want := icc
		if icc == 0 {
			want = 7
		}
		if !ok || m.Header.IccID != want {
			t.Fatal(m.Header, icc)
		}
	}
}'''), 'a session on which a second terminal number appears', 'replies go to the first terminal number')
seed('c21-order', 'C21', '', [
 ('session_handler.go', '''		if !handler.autoMergePacket || !message.Header.Property.IsEnablePacket() {
			session.message(&message)
			handler.server.dispatchMessage(session, &message)
''', '''		if !handler.autoMergePacket || !message.Header.Property.IsEnablePacket() {
			session.message(&message)
			go handler.server.dispatchMessage(session, &message)
''')],
 SRV % ('', r'''func TestZZDemo(t *testing.T) {
	srv, port := zzServe(t, Options{})
	got := make(chan uint16, 1000)
	srv.AddHandler(protocol.MsgT808_0x0002, func(s *Session, m *protocol.Message) {
		if m.Header.MsgSerialNo%50 == 1 {
			time.Sleep(20 * time.Millisecond)
		}
		got <- m.Header.MsgSerialNo
	})
	c := zzDial(t, port)
	for i := 1; i <= 200; i++ {
		c.send(t, 1, uint16(i), &protocol.T808_0x0002{})
	}
	for i := 1; i <= 200; i++ {
		if n := <-got; n != uint16(i) {
			t.Fatal(n, i)
		}
	}
}'''), 'a handler that is still busy when the next message arrives', 'messages are handled out of order')
seed('c21-callback-panic', 'C21', '', [
 ('session.go', '''	if ok {
		defer func() {
			if err := recover(); err != nil {
				debug.PrintStack()
			}
		}()
		ctx.callback(message)
''', '''	if ok {
		ctx.callback(message)
'''), ('session.go', '''	"runtime/debug"
''', '')],
 SRV % ('', r'''func TestZZDemo(t *testing.T) {
	srv, port := zzServe(t, Options{})
	ready := make(chan *Session, 10)
	srv.AddHandler(protocol.MsgT808_0x0002, func(s *Session, m *protocol.Message) { ready <- s })
	c := zzDial(t, port)
	c.send(t, 1, 1, &protocol.T808_0x0002{})
	s := <-ready
	n, _ := s.Request(&protocol.T808_0x8201{}, func(*protocol.Message) { panic("callback") })
	c.send(t, 1, 2, &protocol.T808_0x0001{ReplyMsgSerialNo: n})
	c.send(t, 1, 3, &protocol.T808_0x0002{})
	select {
	case <-ready:
	case <-time.After(3 * time.Second):
		t.Fatal("not served")
	}
}'''), 'an answer callback that panics', 'the server dies')
seed('c21-replace-handler', 'C21', '', [
 ('server.go', '''		server.messageHandlers.Store(msgID, handler)
''', '''		server.messageHandlers.LoadOrStore(msgID, handler)
''')],
 SRV % ('', r'''func TestZZDemo(t *testing.T) {
	srv, port := zzServe(t, Options{})
	got := make(chan int, 10)
	srv.AddHandler(protocol.MsgT808_0x0002, func(s *Session, m *protocol.Message) { got <- 1 })
	srv.AddHandler(protocol.MsgT808_0x0002, func(s *Session, m *protocol.Message) { got <- 2 })
	c := zzDial(t, port)
	c.send(t, 1, 1, &protocol.T808_0x0002{})
	if n := <-got; n != 2 {
		t.Fatal(n)
	}
}'''), 'a handler registered for an id that already had one', 'the replaced handler is still called')
seed('c22-broadcast-stop', 'C22', '', [
 ('server.go', '''		if _, err := session.Send(entity); err == nil {
			count++
		}
''', '''		if _, err := session.Send(entity); err != nil {
			break
		}
		count++
''')],
 SRV % ('\t"sync/atomic"\n', r'''
type zzNull struct{ n int32 }

func (z *zzNull) Send(interface{}) error        { atomic.AddInt32(&z.n, 1); return nil }
func (z *zzNull) Receive() (interface{}, error) { select {} }
func (z *zzNull) Close() error                  { return nil }

func TestZZDemo(t *testing.T) {
	for round := 0; round < 50; round++ {
		srv, _ := NewServer(Options{})
		var open []*zzNull
		for i := 0; i < 4; i++ {
			z := &zzNull{}
			s := link.NewSession(z, 8)
			srv.mutex.Lock()
			srv.sessions[s.ID()] = newSession(srv, s)
			srv.mutex.Unlock()
			if i == 0 {
				s.Close() // closing; not yet taken off the table
			} else {
				open = append(open, z)
			}
		}
		if n := srv.Broadcast(&protocol.T808_0x8104{}); n != 3 {
			t.Fatal(n)
		}
		time.Sleep(5 * time.Millisecond)
		for _, z := range open {
			if n := atomic.LoadInt32(&z.n); n != 1 {
				t.Fatal(n)
			}
		}
	}
}'''), 'a broadcast while one of the sessions is closing', 'sessions after the closing one get nothing')
seed('c22-late-insert', 'C22', '', [
 ('session_handler.go', '''	handler.server.mutex.Lock()
	handler.server.sessions[sess.ID()] = session
	handler.server.mutex.Unlock()
	handler.server.timer.Update(strconv.FormatUint(session.ID(), 10))
''', ''), ('session_handler.go', '''		onClose()
	}

	for {
''', '''		onClose()
	}
	handler.server.timer.Update(strconv.FormatUint(session.ID(), 10))
	handler.server.mutex.Lock()
	handler.server.sessions[sess.ID()] = session
	handler.server.mutex.Unlock()

	for {
''')],
 SRV % ('', r'''
type zzNull struct{}

func (z *zzNull) Send(interface{}) error        { return nil }
func (z *zzNull) Receive() (interface{}, error) { return nil, net.ErrWriteToConnected }
func (z *zzNull) Close() error                  { return nil }

func TestZZDemo(t *testing.T) {
	srv, _ := NewServer(Options{})
	s := link.NewSession(&zzNull{}, 8)
	s.Close() // the connection fails before it is served
	srv.handler.HandleSession(s)
	time.Sleep(200 * time.Millisecond)
	if _, ok := srv.GetSession(s.ID()); ok {
		t.Fatal("closed session is still there")
	}
}'''), 'a connection that closes before its session is entered into the table', 'the closed session stays in the table for ever')
seed('c23-no-fix', 'C23', '', [
 ('timer.go', '''	e := element{
		Key:    key,
		Expire: time.Now().Unix() + atomic.LoadInt64(&timer.seconds),
	}
''', '''	expire := time.Now().Unix() + atomic.LoadInt64(&timer.seconds)
	if old, ok := timer.mapper[key]; ok && old.Index == timer.q.Len()-1 {
		// 已在队尾，无需调整
		old.Expire = expire
		return
	}
	e := element{Key: key, Expire: expire}
''')],
 r'''package go808

import (
	"testing"
	"time"
)

func TestZZDemo(t *testing.T) {
	fired := make(chan string, 10)
	timer := NewCountdownTimer(5, func(k string) { fired <- k })
	for _, k := range []string{"a", "b", "c"} {
		timer.Update(k)
	}
	timer.SetExpiration(1)
	timer.Update("c") // now the shortest
	select {
	case k := <-fired:
		if k != "c" {
			t.Fatal(k)
		}
	case <-time.After(3500 * time.Millisecond):
		t.Fatal("no timeout")
	}
}
''', 'a shorter period set while a key is last in the queue', 'its timeout waits for the longer ones before it')
seed('c23-swap-index', 'C23', '', [
 ('timer.go', '''	q[i].Index, q[j].Index = i, j
''', '''	if q[i].Expire != q[j].Expire {
		q[i].Index, q[j].Index = i, j
	}
''')],
 r'''package go808

import (
	"testing"
	"time"
)

func TestZZDemo(t *testing.T) {
	fired := make(chan string, 10)
	timer := NewCountdownTimer(1, func(k string) { fired <- k })
	for _, k := range []string{"a", "b", "c"} {
		timer.Update(k)
	}
	timer.Remove("a")
	timer.Remove("b")
	got := map[string]int{}
	for end := time.After(3500 * time.Millisecond); ; {
		select {
		case k := <-fired:
			got[k]++
			continue
		case <-end:
		}
		break
	}
	if len(got) != 1 || got["c"] != 1 {
		t.Fatal(got)
	}
}
''', 'three keys updated in the same second, two of them removed', 'the wrong key is removed')
seed('c23-late', 'C23', '', [
 ('timer.go', '''				if top == nil || top.Expire > now {
''', '''				if top == nil || top.Expire >= now {
''')],
 r'''package go808

import (
	"testing"
	"time"
)

func TestZZDemo(t *testing.T) {
	fired := make(chan time.Time, 10)
	// the checks fall into the middle of each second
	time.Sleep(time.Until(time.Now().Truncate(time.Second).Add(1500 * time.Millisecond)))
	timer := NewCountdownTimer(1, func(k string) { fired <- time.Now() })
	timer.Update("a")
	start := time.Now().Unix()
	if d := (<-fired).Unix() - start; d != 1 {
		t.Fatal(d)
	}
}
''', 'a check in the very second the period ends', 'the timeout is a second late')
seed('c24-unsorted', 'C24', '', [
 ('multipart.go', '''	sort.Sort(inputs)
''', '''	if !sort.IsSorted(inputs) {
		sort.Slice(inputs, func(i, j int) bool { return inputs[i].path < inputs[j].path })
	}
''')],
 r'''package go808

import (
	"io/ioutil"
	"testing"
)

func TestZZDemo(t *testing.T) {
	m := MultipartFile{IccID: 1, MsgID: 0x0801, Tag: 5, Sum: 11}
	want := ""
	for i := 1; i <= 11; i++ {
		m.Write(uint16(i), []byte{byte('a' + i)})
		want += string([]byte{byte('a' + i)})
	}
	r, err := m.Merge()
	if err != nil {
		t.Fatal(err)
	}
	b, _ := ioutil.ReadAll(r)
	if string(b) != want {
		t.Fatal(string(b))
	}
}
''', 'ten or more parts', 'part 10 comes before part 2')
seed('c24-tag-prefix', 'C24', '', [
 ('multipart.go', '''		tag, _ := strconv.Atoi(slice[1])
		if uint32(tag) != m.Tag {
			return nil
		}
''', '''		if !strings.HasPrefix(slice[1], strconv.FormatUint(uint64(m.Tag), 10)) {
			return nil
		}
''')],
 r'''package go808

import "testing"

func TestZZDemo(t *testing.T) {
	a := MultipartFile{IccID: 1, MsgID: 0x0801, Tag: 1, Sum: 2}
	b := MultipartFile{IccID: 1, MsgID: 0x0801, Tag: 12, Sum: 2}
	a.Write(1, []byte("x"))
	b.Write(2, []byte("y"))
	if a.IsFull() || b.IsFull() {
		t.Fatal("complete")
	}
}
''', 'another upload whose media id starts with the digits of this one', 'its parts are taken for parts of this one')
UP = '''	part := func(seq uint16, b string) {
		raw := []byte{0x08, 0x01, 0x20, byte(36 + len(b)), 0, 0, 0, 0, 0, 1, 0, byte(seq), 0, 2, 0, byte(seq)}
		raw = append(raw, 0, 0, 0, 9, 0, 0, 0, 0)
		raw = append(raw, make([]byte, 22)...)
		raw = append(raw, 0x21, 1, 1, 1, 1, 1)
		raw = append(raw, b...)
		sum := byte(0)
		for _, b := range raw {
			sum ^= b
		}
		c.Write(append(append([]byte{0x7e}, raw...), sum, 0x7e))
	}
'''
seed('c25-early-reply', 'C25', '', [
 ('session_handler.go', '''		err = multipartFile.Write(message.Header.Packet.Seq, buf)
''', '''		session.Reply(&message, protocol.T808_0x8001ResultSuccess)
		err = multipartFile.Write(message.Header.Packet.Seq, buf)
'''), ('session_handler.go', '''			session.Reply(&message, protocol.T808_0x8001ResultFail)
			continue
		}

		session.Reply(&message, protocol.T808_0x8001ResultSuccess)
		if''', '''			continue
		}

		if''')],
 SRV % ('\t"io/ioutil"\n\t"os"\n', r'''func TestZZDemo(t *testing.T) {
	_, port := zzServe(t, Options{AutoMergePacket: true})
	c := zzDial(t, port)
''' + UP + r'''	part(1, "ab")
	if m, ok := c.recv(3 * time.Second); !ok || m.Body.(*protocol.T808_0x8001).Result != 0 {
		t.Fatal("part not accepted")
	}
	os.RemoveAll(os.TempDir() + "/go808")
	ioutil.WriteFile(os.TempDir()+"/go808", nil, 0644) // parts cannot be stored
	part(2, "cd")
	if m, ok := c.recv(3 * time.Second); !ok || m.Body.(*protocol.T808_0x8001).Result == 0 {
		t.Fatal("a part that was not stored is acknowledged")
	}
}'''), 'a part that cannot be stored', 'the terminal is told that the part is there')
seed('c26-always-encrypt', 'C26', '', [
 ('protocol.go', '''	if codec.publicKey == nil || !message.Header.Property.IsEnableEncrypt() {
''', '''	if codec.publicKey == nil && !message.Header.Property.IsEnableEncrypt() {
''')],
 r'''package go808

import (
	"bytes"
	"crypto/rand"
	"crypto/rsa"
	"testing"
	"gitee.com/coco/go808/protocol"
)

func TestZZDemo(t *testing.T) {
	key, err := rsa.GenerateKey(rand.Reader, 1024)
	if err != nil {
		t.Fatal(err)
	}
	var b bytes.Buffer
	c, _ := Protocol{}.NewCodec(&b)
	c.(*ProtocolCodec).SetPublicKey(&key.PublicKey)
	m := protocol.Message{Body: &protocol.T808_0x8104{}}
	m.Body = &protocol.T808_0x0900{Type: 1, Data: []byte{1}}
	if err := c.Send(m); err != nil {
		t.Fatal(err)
	}
	var r protocol.Message
	if err := r.Decode(b.Bytes()); err != nil || r.Header.Property.IsEnableEncrypt() {
		t.Fatal(err, r)
	}
}
''', 'a session with a public key and a message that does not ask for encryption', 'the body is encrypted all the same')
seed('c26-pieces', 'C26', '', [
 ('protocol.go', '''	count, err := codec.w.Write(data)
	if err != nil {
''', '''	count, err := codec.w.Write(data)
	for err == io.ErrShortWrite {
		var n int
		n, err = codec.w.Write(data[count:])
		count += n
	}
	if err != nil {
''')],
 r'''package go808

import (
	"io"
	"testing"
	"gitee.com/coco/go808/protocol"
)

type zzShort struct{ n int }

func (z *zzShort) Read([]byte) (int, error) { return 0, io.EOF }
func (z *zzShort) Write(b []byte) (int, error) {
	z.n++
	if z.n == 1 {
		return len(b) / 2, io.ErrShortWrite
	}
	return len(b), nil
}

func TestZZDemo(t *testing.T) {
	z := &zzShort{}
	c, _ := Protocol{}.NewCodec(z)
	if err := c.Send(protocol.Message{Body: &protocol.T808_0x8104{}}); err != io.ErrShortWrite || z.n != 1 {
		t.Fatal(err, z.n)
	}
}
''', 'a writer that reports a short write', 'the error is swallowed and the frame goes out in pieces, between which others can come')
seed('c27-trim', 'C27', 'protocol', [
 ('protocol/t808_0x0801.go', '''	entity.Packet = bytes.NewReader(data[n:])
''', '''	entity.Packet = bytes.NewReader(bytes.TrimRight(data[n:], "\\x00"))
''')],
 r'''package protocol

import (
	"io/ioutil"
	"testing"
	"time"
	"github.com/shopspring/decimal"
	"bytes"
)

func TestZZDemo(t *testing.T) {
	for _, p := range [][]byte{{1, 2}, {0, 1}, {1, 0}, {0}} {
		m := T808_0x0801{MediaID: 1, Location: T808_0x0200{Lat: decimal.New(1, 0), Lng: decimal.New(1, 0), Time: time.Now()}, Packet: bytes.NewReader(p)}
		b, err := m.Encode()
		if err != nil {
			t.Fatal(err)
		}
		var r T808_0x0801
		if err := r.DecodePacket(b); err != nil {
			t.Fatal(err)
		}
		q, _ := ioutil.ReadAll(r.Packet)
		if !bytes.Equal(p, q) {
			t.Fatal(p, q)
		}
	}
}
''', 'a payload that ends with a zero byte', 'the end of the payload is lost')
seed('c27-lenient-size', 'C27', 'protocol', [
 ('protocol/t808_0x0901.go', '''	compressed, err := reader.Read(int(size))
''', '''	if int(size) > reader.Len() {
		size = uint32(reader.Len())
	}
	compressed, err := reader.Read(int(size))
'''), ('protocol/t808_0x0901.go', '''		if err != nil && err != io.EOF {
''', '''		if err == io.ErrUnexpectedEOF {
			// 末尾缺失，保留已解压数据
			err = io.EOF
		}
		if err != nil && err != io.EOF {
''')],
 r'''package protocol

import "testing"

func TestZZDemo(t *testing.T) {
	e := T808_0x0901{Uncompressed: []byte("some text, some text, some text")}
	b, err := e.Encode()
	if err != nil {
		t.Fatal(err)
	}
	for n := 0; n < len(b); n++ {
		var r T808_0x0901
		if _, err := r.Decode(b[:n]); err == nil {
			t.Fatal(n, string(r.Uncompressed))
		}
	}
}
''', 'compressed data that is cut off', 'partial data is delivered')
seed('c28-after-handler', 'C28', '', [
 ('server.go', '''	server.timer.Update(strconv.FormatUint(session.ID(), 10))
	handler.(MessageHandler)(session, message)
''', '''	handler.(MessageHandler)(session, message)
	server.timer.Update(strconv.FormatUint(session.ID(), 10))
''')],
 SRV % ('', r'''func TestZZDemo(t *testing.T) {
	srv, port := zzServe(t, Options{Keepalive: 2})
	srv.AddHandler(protocol.MsgT808_0x0002, func(s *Session, m *protocol.Message) { panic("handler") })
	c := zzDial(t, port)
	for i := 1; i <= 6; i++ {
		c.send(t, 1, uint16(i), &protocol.T808_0x0002{})
		c.SetReadDeadline(time.Now().Add(time.Second))
		if _, err := c.Read(make([]byte, 1)); err == nil || !err.(net.Error).Timeout() {
			t.Fatal("closed though active")
		}
	}
}'''), 'a handler that panics, or that closes the session', 'an active connection is closed, or a closed one keeps a timer')
seed('c28-default', 'C28', '', [
 ('server.go', '''	if options.Keepalive <= 0 {
		options.Keepalive = 60
	}
''', '''	if options.Keepalive <= 1 {
		options.Keepalive = 60
	}
''')],
 SRV % ('', r'''func TestZZDemo(t *testing.T) {
	_, port := zzServe(t, Options{Keepalive: 1})
	c := zzDial(t, port)
	c.SetReadDeadline(time.Now().Add(6 * time.Second))
	if _, err := c.Read(make([]byte, 1)); err == nil {
		t.Fatal("data")
	} else if e, ok := err.(net.Error); ok && e.Timeout() {
		t.Fatal("not closed")
	}
}'''), 'a keepalive period of one second', 'idle connections stay for a minute')
