CRASH = r'''package go808

import (
	"os"
	"os/exec"
	"path/filepath"
	"syscall"
	"testing"
	"time"
)

// zzKilled runs this test again with ZZ set and kills it after a second
func zzKilled() {
	cmd := exec.Command(os.Args[0], "-test.run=TestZZDemo")
	cmd.Env = append(os.Environ(), "ZZ=1")
	cmd.Start()
	time.Sleep(time.Second)
	cmd.Process.Kill()
	cmd.Wait()
}

// zzStall makes writing the file block
func zzStall(name string) string {
	p := filepath.Join(os.TempDir(), "go808", "1", name)
	syscall.Mkfifo(p, 0644)
	return p
}

func TestZZDemo(t *testing.T) {
	m := MultipartFile{IccID: 1, MsgID: 0x0801, Tag: 3, Sum: 2}
%s
}
'''
seed('c34-remove-first', 'C34', '', [
 ('multipart.go', '''	name := fmt.Sprintf("%s%c%d-%d-%d.part", dir, sep, m.MsgID, m.Tag, seq)
''', '''	file := fmt.Sprintf("%d-%d-%d.part", m.MsgID, m.Tag, seq)
	name := fmt.Sprintf("%s%c%s", dir, sep, file)
	if _, err := os.Stat(name); err == nil {
		// Windows下不能覆盖已存在的文件
		if err = os.Remove(name); err != nil {
			return err
		}
	}
''')],
 CRASH % r'''	if os.Getenv("ZZ") != "" {
		m.Write(1, []byte("two"))
		return
	}
	m.Write(1, []byte("one"))
	m.Write(2, []byte("two"))
	p := zzStall("2049-3-1.part.tmp")
	zzKilled()
	os.Remove(p)
	if !m.IsFull() {
		t.Fatal("part lost")
	}''', 'a process killed while it stores a part that had been stored before', 'the part acknowledged before is lost')
seed('c34-temp-counts', 'C34', '', [
 ('multipart.go', '''		if filepath.Ext(info.Name()) != ".part" {
			return nil
		}

		slice := strings.Split(strings.Split(info.Name(), ".")[0], "-")
''', '''		name := strings.SplitN(info.Name(), ".", 2)
		if len(name) != 2 || !strings.HasPrefix(name[1], "part") {
			return nil
		}

		slice := strings.Split(name[0], "-")
''')],
 CRASH % r'''	if os.Getenv("ZZ") != "" {
		m.Write(1, []byte("two"))
		return
	}
	m.Write(2, []byte("two"))
	zzStall("2049-3-1.part.tmp")
	zzKilled()
	if m.IsFull() {
		t.Fatal("the unfinished part counts")
	}''', 'a process killed while it stores a part', 'the half written file counts as the part')
seed('c34-reuse-full', 'C34', '', [
 ('multipart.go', '''	inputs := make(partFileSlice, 0)
	err := m.walkParts(''', '''	if info, err := os.Stat(m.fullPath()); err == nil {
		// 分包未变化时使用已合并的文件
		changed := false
		err = m.walkParts(func(path string, seq uint16) error {
			part, err := os.Stat(path)
			changed = changed || err != nil || !part.ModTime().Before(info.ModTime())
			return nil
		})
		if err == nil && !changed {
			return os.OpenFile(m.fullPath(), os.O_RDONLY, 0644)
		}
	}

	inputs := make(partFileSlice, 0, m.Sum)
	err := m.walkParts(''')],
 CRASH % r'''	m.Write(1, []byte("one"))
	m.Write(2, []byte("two"))
	time.Sleep(50 * time.Millisecond)
	if os.Getenv("ZZ") != "" {
		return
	}
	p := filepath.Join(os.TempDir(), "go808", "1", "2049-3-2.part")
	os.Rename(p, p+".bak")
	syscall.Mkfifo(p, 0644)
	go func() {
		// the second part cannot be read to its end
		w, _ := os.OpenFile(p, os.O_WRONLY, 0)
		w.Write([]byte("t"))
		w.Close()
	}()
	if r, err := m.Merge(); err == nil {
		r.Close()
	}
	old := time.Now().Add(-time.Minute)
	os.Chtimes(p+".bak", old, old)
	os.Rename(p+".bak", p)
	r, err := m.Merge()
	if err != nil {
		t.Fatal(err)
	}
	defer r.Close()
	b := make([]byte, 9)
	n, _ := r.Read(b)
	if string(b[:n]) != "onetwo" {
		t.Fatal(string(b[:n]))
	}''', 'a merge that was broken off (the process was killed) before the parts were copied, and no part written since', 'the incomplete merged file is delivered')
seed('c21-handler-lock', 'C21', '', [
 ('server.go', '''	messageHandlers sync.Map
}
''', '''	handlerMutex    sync.RWMutex
	messageHandlers map[protocol.MsgID]MessageHandler
}
'''),
 ('server.go', '''		sessions:     make(map[uint64]*Session),
		privateKey:   options.PrivateKey,
''', '''		sessions:     make(map[uint64]*Session),
		privateKey:   options.PrivateKey,

		messageHandlers: make(map[protocol.MsgID]MessageHandler),
'''),
 ('server.go', '''		server.messageHandlers.Store(msgID, handler)
''', '''		server.handlerMutex.Lock()
		defer server.handlerMutex.Unlock()
		server.messageHandlers[msgID] = handler
'''),
 ('server.go', '''	if _, ok := server.messageHandlers.Load(msgID); ok {
''', '''	server.handlerMutex.RLock()
	defer server.handlerMutex.RUnlock()
	if _, ok := server.messageHandlers[msgID]; ok {
'''),
 ('server.go', '''	handler, ok := server.messageHandlers.Load(message.Header.MsgID)
''', '''	server.handlerMutex.RLock()
	defer server.handlerMutex.RUnlock()
	handler, ok := server.messageHandlers[message.Header.MsgID]
'''),
 ('server.go', '''	handler.(MessageHandler)(session, message)
''', '''	handler(session, message)
''')],
 SRV % ('', '''func TestZZDemo(t *testing.T) {
	srv, port := zzServe(t, Options{})
	done := make(chan bool, 1)
	srv.AddHandler(protocol.MsgT808_0x0002, func(s *Session, _ *protocol.Message) {
		s.GetServer().AddHandler(protocol.MsgT808_0x0200, func(*Session, *protocol.Message) {})
		done <- true
	})
	c := zzDial(t, port)
	c.send(t, 1, 1, &protocol.T808_0x0002{})
	select {
	case <-done:
	case <-time.After(3 * time.Second):
		t.Fatal("the handler hangs")
	}
}'''), 'a handler that registers another handler', 'the connection, and soon every other, is never served again')
seed('c05-garbage-rest', 'C05', '', [
 ('protocol.go', '''		codec.bufferReceiving.Next(i)
''', '''		if i < len(data)-1 && data[i+1] == protocol.PrefixID {
			// 前一帧的结束标识
			i++
		}
		codec.bufferReceiving.Next(len(data) - len(data[i:]))
		if i <= 2 {
			codec.bufferReceiving.Reset()
		}
''')],
 CONN % '''	f := zzFrame(t, 10)
	c, _ := Protocol{}.NewCodec(&zzConn{in: [][]byte{append([]byte{0, 0}, f...)}})
	if _, err := c.Receive(); err == nil {
		t.Fatal("no error")
	}
	if _, err := c.Receive(); err != nil {
		t.Fatal(err)
	}''', 'one or two bytes outside a frame that arrive in the same read as the frame after them', 'the frame is dropped with them')
seed('c24-same-size', 'C24', '', [
 ('multipart.go', '''	name := fmt.Sprintf("%s%c%d-%d-%d.part", dir, sep, m.MsgID, m.Tag, seq)
''', '''	file := fmt.Sprintf("%d-%d-%d.part", m.MsgID, m.Tag, seq)
	name := dir + string(sep) + file
	if info, err := os.Stat(name); err == nil && info.Size() == int64(len(data)) {
		// 重传的分包
		return nil
	}
''')],
 '''package go808

import (
	"io/ioutil"
	"testing"
)

func TestZZDemo(t *testing.T) {
	m := MultipartFile{IccID: 1, MsgID: 0x0801, Tag: 3, Sum: 1}
	for _, s := range []string{"one", "two"} {
		if err := m.Write(1, []byte(s)); err != nil {
			t.Fatal(err)
		}
	}
	r, err := m.Merge()
	if err != nil {
		t.Fatal(err)
	}
	defer r.Close()
	if b, _ := ioutil.ReadAll(r); string(b) != "two" {
		t.Fatal(string(b))
	}
}
''', 'a part written again with other content of the same length', 'the earlier content stays')
seed('c25-repeated-serial', 'C25', '', [
 ('session_handler.go', '''	for {
		// 接收消息
''', '''	stored := -1
	for {
		// 接收消息
'''),
 ('session_handler.go', '''		err = multipartFile.Write(message.Header.Packet.Seq, buf)
		if err != nil {
''', '''		if int(message.Header.MsgSerialNo) != stored {
			// 重传的消息不再写入
			err = multipartFile.Write(message.Header.Packet.Seq, buf)
		}
		stored = int(message.Header.MsgSerialNo)
		if err != nil {
			stored = -1
''')],
 SRV % ('', r'''func TestZZDemo(t *testing.T) {
	srv, port := zzServe(t, Options{AutoMergePacket: true})
	got := make(chan bool, 9)
	srv.AddHandler(protocol.MsgT808_0x0801, func(_ *Session, m *protocol.Message) { got <- true })
	c := zzDial(t, port)
	for seq := byte(1); seq <= 2; seq++ {
		raw := []byte{0x08, 0x01, 0x20, 37, 0, 0, 0, 0, 0, 1, 0, 7, 0, 2, 0, seq}
		raw = append(raw, 0, 0, 0, 9, 0, 0, 0, 0)
		raw = append(raw, make([]byte, 22)...)
		raw = append(raw, 0x21, 1, 1, 1, 1, 1, 9)
		sum := byte(0)
		for _, b := range raw {
			sum ^= b
		}
		c.Write(append(append([]byte{0x7e}, raw...), sum, 0x7e))
	}
	select {
	case <-got:
	case <-time.After(3 * time.Second):
		t.Fatal("not delivered")
	}
}'''), 'a terminal that numbers all parts of an upload alike', 'parts are acknowledged but not stored')
seed('c05-total-count', 'C05', '', [
 ('protocol.go', '''	bufferReceiving *bytes.Buffer
}
''', '''	bufferReceiving *bytes.Buffer
	received        int
}
'''),
 ('protocol.go', '''		codec.bufferReceiving.Write(buffer[:count])
''', '''		codec.bufferReceiving.Write(buffer[:count])
		codec.received += count
'''),
 ('protocol.go', '''		if codec.bufferReceiving.Len() > 0xffff {
''', '''		if codec.received > 0xffff {
''')],
 CONN % '''	f := zzFrame(t, 10)
	var in [][]byte
	for i := 0; i < 3000; i++ {
		in = append(in, f)
	}
	c, _ := Protocol{}.NewCodec(&zzConn{in: in})
	for i := 0; i < 3000; i++ {
		if _, err := c.Receive(); err != nil {
			t.Fatal(i, err)
		}
	}''', 'a connection that lasts for more than 65535 bytes of complete frames', 'the frames after them are refused and the connection is closed')
seed('c06-read-first', 'C06', '', [
 ('protocol.go', '''		if codec.bufferReceiving.Len() == 0 {
			continue
		}
		if codec.bufferReceiving.Len() > 0xffff {
			return nil, errors.ErrBodyTooLong
		}
''', '''		if codec.bufferReceiving.Len() == 0 {
			continue
		}
		if codec.messages == 0 && codec.bufferReceiving.Len() > 0xffff {
			return nil, errors.ErrBodyTooLong
		}
'''),
 ('protocol.go', '''	bufferReceiving *bytes.Buffer
}
''', '''	bufferReceiving *bytes.Buffer
	messages        int
}
'''),
 ('protocol.go', '''	codec.bufferReceiving.Next(end + 1)

	log''', '''	codec.bufferReceiving.Next(end + 1)
	codec.messages++

	log''')],
 CONN % '''	in := [][]byte{zzFrame(t, 10), {0x7e}}
	for i := 0; i < 2000; i++ {
		in = append(in, make([]byte, 100))
	}
	conn := &zzConn{in: in}
	c, _ := Protocol{}.NewCodec(conn)
	if _, err := c.Receive(); err != nil {
		t.Fatal(err)
	}
	if _, err := c.Receive(); err == nil {
		t.Fatal("no error")
	}
	if len(conn.in) == 0 {
		t.Fatal("everything was read")
	}''', 'a peer that sends a complete frame before one that never ends', 'buffering is unbounded from then on')
seed('c27-limit', 'C27', 'protocol', [
 ('protocol/t808_0x0901.go', '''	var temp [256]byte
	for {
		n, err := gzipReader.Read(temp[:])
''', '''	var temp [256]byte
	limited := io.LimitReader(gzipReader, 0xffff)
	for {
		n, err := limited.Read(temp[:])
''')],
 r'''package protocol

import (
	"bytes"
	"testing"
)

func TestZZDemo(t *testing.T) {
	for _, n := range []int{10, 65535, 65536, 70000} {
		msg := bytes.Repeat([]byte("report"), n)[:n]
		b, err := (&T808_0x0901{Uncompressed: msg}).Encode()
		if err != nil {
			t.Fatal(err)
		}
		var r T808_0x0901
		if _, err := r.Decode(b); err != nil {
			t.Fatal(n, err)
		}
		if !bytes.Equal(r.Uncompressed, msg) {
			t.Fatal(n, len(r.Uncompressed))
		}
	}
}
''', 'a report of more than 65535 bytes that compresses well', 'the rest of it is dropped without an error')
