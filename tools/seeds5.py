LEAK = '''
func zzCount(want int, get func() int) int {
	n := get()
	for i := 0; i < 60 && n > want; i++ {
		time.Sleep(50 * time.Millisecond)
		n = get()
	}
	return n
}
'''
seed('c33-worker', 'C33', '', [
 ('session_handler.go', '''	for {
		// 接收消息
		msg, err := sess.Receive()
		if err != nil {
			sess.Close()
			break
		}
''', '''	frames := make(chan interface{})
	failed := make(chan struct{})
	go func() {
		// 读取消息
		for {
			msg, err := sess.Receive()
			if err != nil {
				sess.Close()
				failed <- struct{}{}
				return
			}
			frames <- msg
		}
	}()

	for {
		// 接收消息
		var msg interface{}
		select {
		case msg = <-frames:
		case <-failed:
			return
		}
		if sess.IsClosed() {
			break
		}
''')],
 SRV % ('	"runtime"\n', LEAK + '''
func TestZZDemo(t *testing.T) {
	srv, port := zzServe(t, Options{})
	srv.AddHandler(protocol.MsgT808_0x0002, func(s *Session, m *protocol.Message) {
		if m.Header.MsgSerialNo == 1 {
			time.Sleep(300 * time.Millisecond)
			s.Close()
			time.Sleep(100 * time.Millisecond)
		}
	})
	c := zzDial(t, port)
	time.Sleep(200 * time.Millisecond)
	c.Close()
	time.Sleep(200 * time.Millisecond)
	base := runtime.NumGoroutine()
	for i := 0; i < 20; i++ {
		c := zzDial(t, port)
		c.send(t, 1, 1, &protocol.T808_0x0002{})
		c.send(t, 1, 2, &protocol.T808_0x0002{})
		defer c.Close()
	}
	time.Sleep(time.Second)
	if n := zzCount(base, runtime.NumGoroutine); n > base+5 {
		t.Fatal(base, n)
	}
}'''), 'a session that the application closes in a handler while more messages have arrived', 'the reading goroutine is blocked for ever')
seed('c33-answer-wait', 'C33', '', [
 ('session.go', '''	if cb != nil {
		session.addRequestContext(requestContext{
			msgID:    uint16(entity.MsgID()),
			serialNo: serialNo,
			callback: cb,
		})
	}
''', '''	if cb != nil {
		done := make(chan *protocol.Message, 1)
		go func() {
			cb(<-done)
		}()
		session.addRequestContext(requestContext{
			msgID:    uint16(entity.MsgID()),
			serialNo: serialNo,
			callback: func(answer *protocol.Message) { done <- answer },
		})
	}
''')],
 SRV % ('	"runtime"\n', LEAK + '''
func TestZZDemo(t *testing.T) {
	srv, port := zzServe(t, Options{})
	asked := make(chan bool, 100)
	srv.AddHandler(protocol.MsgT808_0x0002, func(s *Session, m *protocol.Message) {
		s.Request(&protocol.T808_0x8104{}, func(*protocol.Message) {})
		asked <- true
	})
	c := zzDial(t, port)
	time.Sleep(200 * time.Millisecond)
	c.Close()
	time.Sleep(200 * time.Millisecond)
	base := runtime.NumGoroutine()
	for i := 0; i < 20; i++ {
		c := zzDial(t, port)
		c.send(t, 1, 1, &protocol.T808_0x0002{})
		<-asked
		c.Close()
	}
	if n := zzCount(base, runtime.NumGoroutine); n > base+5 {
		t.Fatal(base, n)
	}
}'''), 'a connection that closes before a request on it has been answered', 'a goroutine waits for the answer for ever')
FDS = '''
func zzFiles() int {
	l, _ := ioutil.ReadDir("/proc/self/fd")
	n := 0
	for _, f := range l {
		if p, _ := os.Readlink("/proc/self/fd/" + f.Name()); strings.Contains(p, os.TempDir()) {
			n++
		}
	}
	return n
}
'''
seed('c33-merge-open', 'C33', '', [
 ('multipart.go', '''	defer func() {
		for _, item := range inputs {
			item.f.Close()
		}
	}()

	if err != nil {
		return nil, err
	}
''', '''	if err != nil {
		return nil, err
	}

	defer func() {
		for _, item := range inputs {
			item.f.Close()
		}
	}()
''')],
 '''package go808

import (
	"io/ioutil"
	"os"
	"strings"
	"testing"
)
''' + FDS + '''
func TestZZDemo(t *testing.T) {
	m := MultipartFile{IccID: 1, MsgID: 0x0801, Tag: 3, Sum: 2}
	m.Write(1, []byte{1})
	m.Write(2, []byte{2})
	p := m.rootDir() + "/2049-3-2.part"
	os.Remove(p)
	os.Symlink(p+".gone", p)
	if _, err := m.Merge(); err == nil {
		t.Fatal("merged")
	}
	if n := zzFiles(); n != 0 {
		t.Fatal(n)
	}
}
''', 'a part that cannot be opened while an upload is merged', 'the parts opened before it stay open')
seed('c33-stop-listener', 'C33', '', [
 ('server.go', '''	return running.Serve()
''', '''	go func() {
		// 连接数统计
		t := time.NewTicker(time.Minute)
		defer t.Stop()
		for range t.C {
			server.mutex.Lock()
			n := len(server.sessions)
			server.mutex.Unlock()
			log.Infof("[JT/T 808] %d sessions", n)
		}
	}()
	return running.Serve()
'''), ('server.go', '''	"sync"
)''', '''	"sync"
	"time"
)''')],
 SRV % ('	"runtime"\n', LEAK + '''
func TestZZDemo(t *testing.T) {
	srv, port := zzServe(t, Options{})
	zzDial(t, port).Close()
	time.Sleep(200 * time.Millisecond)
	srv.Stop()
	time.Sleep(200 * time.Millisecond)
	base := runtime.NumGoroutine()
	for i := 0; i < 20; i++ {
		l, _ := net.Listen("tcp", "127.0.0.1:0")
		port := l.Addr().(*net.TCPAddr).Port
		l.Close()
		go srv.Run("tcp", port)
		c := zzDial(t, port)
		time.Sleep(20 * time.Millisecond)
		srv.Stop()
		c.Close()
	}
	if n := zzCount(base, runtime.NumGoroutine); n > base+5 {
		t.Fatal(base, n)
	}
}'''), 'a server that is stopped, perhaps again and again', 'a goroutine of every run stays')
