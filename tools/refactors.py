# behaviour-preserving edits: ref(id, [(file, old, new)...], checks); old None: the whole file is replaced
ref('message', [
 ('protocol/message.go', '''	sum := data[len(data)-1]
	if len(data) < 2 || data[len(data)-2] != EscapeByte {
		if sum == EscapeByte {
			return errors.ErrInvalidMessage
		}
		data = data[:len(data)-1]
	} else {
		if (data[len(data)-1]) == EscapeByteSufix1 {
			sum = EscapeByte
		} else if data[len(data)-1] == EscapeByteSufix2 {
			sum = PrefixID
		} else {
			return errors.ErrInvalidMessage
		}
		data = data[:len(data)-2]
	}

	// 二进制转义
	checkSum := byte(0x00)
	buffer := make([]byte, 0, len(data))
	for i := 0; i < len(data); {
		b := data[i]
		if b != EscapeByte {
			checkSum = checkSum ^ b
			buffer = append(buffer, b)
			i++
			continue
		}

		if i+1 >= len(data) {
			return errors.ErrInvalidMessage
		}

		b = data[i+1]
		if b == EscapeByteSufix1 {
			checkSum = checkSum ^ EscapeByte
			buffer = append(buffer, EscapeByte)
		} else if b == EscapeByteSufix2 {
			checkSum = checkSum ^ PrefixID
			buffer = append(buffer, PrefixID)
		} else {
			return errors.ErrInvalidMessage
		}
		i += 2
	}

	// 检查校验和
	if len(buffer) == 0 || checkSum != sum {
		return errors.ErrInvalidCheckSum
	}
''', '''	plain, ok := unescape(data)
	if !ok {
		return errors.ErrInvalidMessage
	}

	// 检查校验和
	last := len(plain) - 1
	buffer := plain[:last]
	var checkSum byte
	for _, b := range buffer {
		checkSum ^= b
	}
	if last == 0 || checkSum != plain[last] {
		return errors.ErrInvalidCheckSum
	}
'''),
 ('protocol/message.go', '''// 写入二进制数据
''', '''// 还原转义
func unescape(data []byte) ([]byte, bool) {
	var out bytes.Buffer
	escaped := false
	for _, b := range data {
		switch {
		case escaped && b == EscapeByteSufix1:
			out.WriteByte(EscapeByte)
			escaped = false
		case escaped && b == EscapeByteSufix2:
			out.WriteByte(PrefixID)
			escaped = false
		case escaped:
			return nil, false
		case b == EscapeByte:
			escaped = true
		default:
			out.WriteByte(b)
		}
	}
	return out.Bytes(), !escaped
}

// 写入二进制数据
'''),
 ('protocol/message.go', '''	for _, b := range data {
		if b == PrefixID {
			buffer.WriteByte(EscapeByte)
			buffer.WriteByte(EscapeByteSufix2)
		} else if b == EscapeByte {
			buffer.WriteByte(EscapeByte)
			buffer.WriteByte(EscapeByteSufix1)
		} else {
			buffer.WriteByte(b)
		}
	}
	return message
''', '''	data = bytes.ReplaceAll(data, []byte{EscapeByte}, []byte{EscapeByte, EscapeByteSufix1})
	data = bytes.ReplaceAll(data, []byte{PrefixID}, []byte{EscapeByte, EscapeByteSufix2})
	buffer.Write(data)
	return message
'''),
], 'C01 C02 C03 C04 C05 C06 C17 C26')
ref('header', [
 ('protocol/header.go', '''	writer.Write(stringToBCD(strconv.FormatUint(header.IccID, 10), 6))
''', '''	writer.Write(encodeIccID(header.IccID))
'''),
 ('protocol/header.go', '''// 协议解码
''', '''// 编码终端号码
func encodeIccID(id uint64) []byte {
	bcd := make([]byte, 6)
	for i := len(bcd) - 1; i >= 0; i-- {
		bcd[i] = byte(id%10) | byte(id/10%10)<<4
		id /= 100
	}
	return bcd
}

// 协议解码
'''),
 ('protocol/header.go', '''	iccID, err := strconv.ParseUint(bcdToString(temp, true), 10, 64)
	if err != nil {
		return err
	}
''', '''	var iccID uint64
	for _, b := range temp {
		high, low := b>>4, b&0x0f
		if high > 9 || low > 9 {
			return errors.ErrInvalidHeader
		}
		iccID = iccID*100 + uint64(high)*10 + uint64(low)
	}
'''),
 ('protocol/header.go', '''	"gitee.com/coco/go808/errors"
	"strconv"
''', '''	"gitee.com/coco/go808/errors"
'''),
], 'C01 C02 C03 C04 C13')
ref('geo', [
 ('protocol/helpers.go', '''	div := decimal.NewFromFloat(1000000)
	fLat := decimal.NewFromInt(int64(lat)).Div(div)
	fLon := decimal.NewFromInt(int64(lng)).Div(div)
	if south {
		fLat = decimal.Zero.Sub(fLat)
	}
	if west {
		fLon = decimal.Zero.Sub(fLon)
	}
	return fLat.Truncate(6), fLon.Truncate(6)
''', '''	return toDegrees(lat, south), toDegrees(lng, west)
}

func toDegrees(v uint32, negative bool) decimal.Decimal {
	d := decimal.New(int64(v), -6)
	if negative {
		return d.Neg()
	}
	return d
'''),
], 'C10 C12 C07')
ref('geo2', [
 ('protocol/helpers.go', '''	div := decimal.NewFromFloat(1000000)
	fLat := decimal.NewFromInt(int64(lat)).Div(div)
	fLon := decimal.NewFromInt(int64(lng)).Div(div)
	if south {
		fLat = decimal.Zero.Sub(fLat)
	}
	if west {
		fLon = decimal.Zero.Sub(fLon)
	}
	return fLat.Truncate(6), fLon.Truncate(6)
''', '''	fLat := decimal.NewFromInt(int64(lat)).Shift(-6)
	fLon := decimal.NewFromInt(int64(lng)).Mul(decimal.NewFromFloat(0.000001))
	if south {
		fLat = fLat.Mul(decimal.NewFromInt(-1))
	}
	if west {
		fLon = fLon.Neg()
	}
	return fLat.Round(6), fLon.Truncate(6)
'''),
], 'C10 C12 C07')
ref('bcdtime', [
 ('protocol/helpers.go', '''	t = time.Unix(t.Unix(), 0)
	s := t.Format("20060102150405")[2:]
	return stringToBCD(s, 6)
''', '''	t = t.Local()
	parts := [6]int{t.Year() % 100, int(t.Month()), t.Day(), t.Hour(), t.Minute(), t.Second()}
	bcd := make([]byte, len(parts))
	for i, v := range parts {
		bcd[i] = byte(v/10<<4 | v%10)
	}
	return bcd
'''),
], 'C13 C10 C07 C12')
ref('bcdtime2', [
 ('protocol/helpers.go', '''	t = time.Unix(t.Unix(), 0)
	s := t.Format("20060102150405")[2:]
	return stringToBCD(s, 6)
''', '''	return stringToBCD(t.In(time.Local).Format("060102150405"), 6)
'''),
 ('protocol/helpers.go', '''	t, err := time.ParseInLocation(
		"20060102150405", "20"+bcdToString(bcd, true), time.Local)
	if err != nil {
		return time.Time{}, err
	}
	return t, nil
''', '''	const layout = "20060102150405"
	return time.ParseInLocation(layout, "20"+bcdToString(bcd, true), time.Local)
'''),
], 'C13 C10 C07 C12')
ref('bcdtime3', [
 ('protocol/helpers.go', '''	t = time.Unix(t.Unix(), 0)
	s := t.Format("20060102150405")[2:]
	return stringToBCD(s, 6)
''', '''	year, month, day := t.Local().Date()
	hour, min, sec := t.Local().Clock()
	s := fmt.Sprintf("%02d%02d%02d%02d%02d%02d", year%100, month, day, hour, min, sec)
	return stringToBCD(s, 6)
'''),
 ('protocol/helpers.go', '''	"bytes"
''', '''	"bytes"
	"fmt"
'''),
], 'C13 C10 C07 C12')
ref('split', [
 ('protocol/helpers.go', '''	var chunk []byte
	chunks := make([][]byte, 0, len(data)/limit+1)
	for len(data) >= limit {
		chunk, data = data[:limit], data[limit:]
		chunks = append(chunks, chunk)
	}
	if len(data) > 0 {
		chunks = append(chunks, data[:len(data)])
	}
	return chunks
''', '''	var chunks [][]byte
	for begin := 0; begin < len(data); begin += limit {
		end := begin + limit
		if end > len(data) {
			end = len(data)
		}
		chunks = append(chunks, data[begin:end])
	}
	return chunks
'''),
 ('protocol/helpers.go', '''	n := bytes.IndexByte(data, 0)
	if n == -1 {
		return string(data)
	}
	return string(data[:n])
''', '''	if n := bytes.IndexByte(data, 0); n >= 0 {
		data = data[:n]
	}
	return string(data)
'''),
], 'C17 C14 C08')
ref('session', [
 ('session.go', '''	var id uint32
	for {
		id = atomic.LoadUint32(&session.next)
		if id == 0xff {
			if atomic.CompareAndSwapUint32(&session.next, id, 1) {
				id = 1
				break
			}
		} else if atomic.CompareAndSwapUint32(&session.next, id, id+1) {
			id += 1
			break
		}
	}
	return uint16(id)
''', '''	for {
		old := atomic.LoadUint32(&session.next)
		id := old%0xff + 1
		if atomic.CompareAndSwapUint32(&session.next, old, id) {
			return uint16(id)
		}
	}
'''),
 ('session.go', '''	for idx, item := range session.requests {
		if item.serialNo == msgSerialNo {
			session.requests[idx] = session.requests[len(session.requests)-1]
			session.requests = session.requests[:len(session.requests)-1]
			return item, true
		}
	}
	return requestContext{}, false
''', '''	for idx := range session.requests {
		if ctx := session.requests[idx]; ctx.serialNo == msgSerialNo {
			session.requests = append(session.requests[:idx], session.requests[idx+1:]...)
			return ctx, true
		}
	}
	return requestContext{}, false
'''),
], 'C18 C19 C20 C21 C33')
ref('session2', [
 ('session.go', '''	var id uint32
	for {
		id = atomic.LoadUint32(&session.next)
		if id == 0xff {
			if atomic.CompareAndSwapUint32(&session.next, id, 1) {
				id = 1
				break
			}
		} else if atomic.CompareAndSwapUint32(&session.next, id, id+1) {
			id += 1
			break
		}
	}
	return uint16(id)
''', '''	session.idMux.Lock()
	defer session.idMux.Unlock()
	session.next++
	if session.next > 0xff {
		session.next = 1
	}
	return uint16(session.next)
'''),
 ('session.go', '''	mux      sync.Mutex
	requests []requestContext
''', '''	idMux sync.Mutex

	mux      sync.Mutex
	requests map[uint16]requestContext // 以流水号为键
'''),
 ('session.go', '''	return &Session{
		server:  server,
		session: sess,
	}
''', '''	return &Session{
		server:   server,
		session:  sess,
		requests: make(map[uint16]requestContext),
	}
'''),
 ('session.go', '''	for idx, item := range session.requests {
		if item.serialNo == msgSerialNo {
			session.requests[idx] = session.requests[len(session.requests)-1]
			session.requests = session.requests[:len(session.requests)-1]
			return item, true
		}
	}
	return requestContext{}, false
''', '''	ctx, ok := session.requests[msgSerialNo]
	delete(session.requests, msgSerialNo)
	return ctx, ok
'''),
 ('session.go', '''	for idx, item := range session.requests {
		if item.msgID == ctx.msgID {
			session.requests[idx] = ctx
			return
		}
	}
	session.requests = append(session.requests, ctx)
''', '''	for serialNo, item := range session.requests {
		if item.msgID == ctx.msgID {
			delete(session.requests, serialNo)
			break
		}
	}
	session.requests[ctx.serialNo] = ctx
'''),
], 'C18 C19 C20 C21 C33')
ref('session3', [
 ('session.go', '''	next    uint32
	iccID   uint64
''', '''	next    atomic.Uint32
	iccID   atomic.Uint64
'''),
 ('session.go', '''			IccID:       atomic.LoadUint64(&session.iccID),
''', '''			IccID:       session.iccID.Load(),
'''),
 ('session.go', '''		id = atomic.LoadUint32(&session.next)
		if id == 0xff {
			if atomic.CompareAndSwapUint32(&session.next, id, 1) {
				id = 1
				break
			}
		} else if atomic.CompareAndSwapUint32(&session.next, id, id+1) {
			id += 1
			break
		}
''', '''		id = session.next.Load()
		if id == 0xff {
			if session.next.CompareAndSwap(id, 1) {
				id = 1
				break
			}
		} else if session.next.CompareAndSwap(id, id+1) {
			id += 1
			break
		}
'''),
 ('session.go', '''		old := atomic.LoadUint64(&session.iccID)
''', '''		old := session.iccID.Load()
'''),
 ('session.go', '''		atomic.StoreUint64(&session.iccID, message.Header.IccID)
''', '''		session.iccID.Store(message.Header.IccID)
'''),
], 'C18 C19 C20 C21 C33')
ref('server', [
 ('server.go', '''	mutex    sync.Mutex
''', '''	mutex    sync.RWMutex
'''),
 ('server.go', '''	server.mutex.Lock()
	defer server.mutex.Unlock()
	session, ok := server.sessions[id]
	if !ok {
		return nil, false
	}
	return session, true
''', '''	server.mutex.RLock()
	session, ok := server.sessions[id]
	server.mutex.RUnlock()
	return session, ok
'''),
 ('server.go', '''	server.mutex.Lock()
	sessions := make([]*Session, 0, len(server.sessions))
	for _, session := range server.sessions {
		sessions = append(sessions, session)
	}
	server.mutex.Unlock()

	count := 0
	for _, session := range sessions {
''', '''	count := 0
	for _, session := range server.allSessions() {
'''),
 ('server.go', '''// 广播消息
''', '''// 获取全部Session
func (server *Server) allSessions() []*Session {
	server.mutex.RLock()
	defer server.mutex.RUnlock()
	var sessions []*Session
	for id := range server.sessions {
		sessions = append(sessions, server.sessions[id])
	}
	return sessions
}

// 广播消息
'''),
 ('server.go', '''	server.timer.Remove(strconv.FormatUint(session.ID(), 10))
	if server.closeHandler != nil {
		func() {
			defer func() {
				if err := recover(); err != nil {
					debug.PrintStack()
				}
			}()
			server.closeHandler(session)
		}()
	}
''', '''	server.timer.Remove(fmt.Sprintf("%d", session.ID()))
	server.notifyClose(session)
'''),
 ('server.go', '''// 处理读超时
''', '''func (server *Server) notifyClose(session *Session) {
	if server.closeHandler == nil {
		return
	}
	defer func() {
		if err := recover(); err != nil {
			debug.PrintStack()
		}
	}()
	server.closeHandler(session)
}

// 处理读超时
'''),
], 'C19 C21 C22 C25 C28')
ref('server2', [
 ('server.go', '''	mutex    sync.Mutex
	sessions map[uint64]*Session
''', '''	mutex    sync.Mutex
	sessions sync.Map
'''),
 ('server.go', '''		sessions:     make(map[uint64]*Session),
''', ''),
 ('server.go', '''	server.mutex.Lock()
	defer server.mutex.Unlock()
	session, ok := server.sessions[id]
	if !ok {
		return nil, false
	}
	return session, true
''', '''	session, ok := server.sessions.Load(id)
	if !ok {
		return nil, false
	}
	return session.(*Session), true
'''),
 ('server.go', '''	server.mutex.Lock()
	sessions := make([]*Session, 0, len(server.sessions))
	for _, session := range server.sessions {
		sessions = append(sessions, session)
	}
	server.mutex.Unlock()

	count := 0
	for _, session := range sessions {
		if _, err := session.Send(entity); err == nil {
			count++
		}
	}
	return count
''', '''	count := 0
	server.sessions.Range(func(_, value interface{}) bool {
		if _, err := value.(*Session).Send(entity); err == nil {
			count++
		}
		return true
	})
	return count
'''),
 ('server.go', '''	server.mutex.Lock()
	delete(server.sessions, session.ID())
	server.mutex.Unlock()
''', '''	server.sessions.Delete(session.ID())
'''),
 ('session_handler.go', '''	handler.server.mutex.Lock()
	handler.server.sessions[sess.ID()] = session
	handler.server.mutex.Unlock()
''', '''	handler.server.sessions.Store(sess.ID(), session)
'''),
 ('server.go', '''	messageHandlers sync.Map
}
''', '''	handlerMutex    sync.RWMutex
	messageHandlers map[protocol.MsgID]MessageHandler
}
'''),
 ('server.go', '''		server.messageHandlers.Store(msgID, handler)
''', '''		server.handlerMutex.Lock()
		defer server.handlerMutex.Unlock()
		if server.messageHandlers == nil {
			server.messageHandlers = make(map[protocol.MsgID]MessageHandler)
		}
		server.messageHandlers[msgID] = handler
'''),
 ('server.go', '''	if _, ok := server.messageHandlers.Load(msgID); ok {
		server.timer''', '''	server.handlerMutex.RLock()
	_, ok := server.messageHandlers[msgID]
	server.handlerMutex.RUnlock()
	if ok {
		server.timer'''),
 ('server.go', '''	handler, ok := server.messageHandlers.Load(message.Header.MsgID)
''', '''	server.handlerMutex.RLock()
	handler, ok := server.messageHandlers[message.Header.MsgID]
	server.handlerMutex.RUnlock()
'''),
 ('server.go', '''	handler.(MessageHandler)(session, message)
''', '''	handler(session, message)
'''),
], 'C19 C21 C22 C25 C28 C30 C32 C33 C34')
ref('handler', [
 ('session_handler.go', '''		// 处理分包消息
		entityPacket, ok := interface{}(message.Body).(protocol.EntityPacket)
		if !ok {
			session.message(&message)
			handler.server.dispatchMessage(session, &message)
			continue
		}

		// 分包不一定会分派，收到即刷新保活时间
		handler.server.refreshTimeout(session, message.Header.MsgID)
		multipartFile''', '''		// 处理分包消息
		entityPacket, ok := interface{}(message.Body).(protocol.EntityPacket)
		if !ok {
			session.message(&message)
			handler.server.dispatchMessage(session, &message)
			continue
		}
		handler.handlePacket(session, message, entityPacket)
	}
}

// 处理分包消息
func (handler sessionHandler) handlePacket(session *Session, message protocol.Message, entityPacket protocol.EntityPacket) {
		handler.server.refreshTimeout(session, message.Header.MsgID)
		multipartFile'''),
 ('session_handler.go', '''			session.Reply(&message, protocol.T808_0x8001ResultFail)
			continue
		}

		unlock :=''', '''			session.Reply(&message, protocol.T808_0x8001ResultFail)
			return
		}

		unlock :='''),
 ('session_handler.go', '''			session.Reply(&message, protocol.T808_0x8001ResultFail)
			continue
		}

		session.Reply''', '''			session.Reply(&message, protocol.T808_0x8001ResultFail)
			return
		}

		session.Reply'''),
 ('session_handler.go', '''		if !multipartFile.IsFull() {
			unlock()
			continue
''', '''		if !multipartFile.IsFull() {
			return
'''),
 ('session_handler.go', '''			}).Warn("[JT/T 808] failed to merge packet file parts")
			continue
''', '''			}).Warn("[JT/T 808] failed to merge packet file parts")
			return
'''),
 ('session_handler.go', '''			}).Warn("[JT/T 808] failed to remove packet file parts")
		}
		unlock()
	}
}
''', '''			}).Warn("[JT/T 808] failed to remove packet file parts")
		}
}
'''),
 ('session_handler.go', '''		unlock := multipartFile.lock()
		err = multipartFile.Write(message.Header.Packet.Seq, buf)
		if err != nil {
			unlock()
''', '''		defer multipartFile.lock()()
		err = multipartFile.Write(message.Header.Packet.Seq, buf)
		if err != nil {
'''),
 ('session_handler.go', '''		reader, err := multipartFile.Merge()
		if err != nil {
			unlock()
''', '''		reader, err := multipartFile.Merge()
		if err != nil {
'''),
], 'C19 C21 C22 C25 C28 C32 C33 C34')
ref('timer', [
 ('timer.go', '''	t := time.NewTicker(time.Second * 1)

	for {
		select {
		case <-t.C:
			now := time.Now().Unix()
			keys := make([]string, 0)

			timer.mutex.Lock()
			for {
				if timer.q.Len() == 0 {
					break
				}

				top := timer.q.Top()
				if top == nil || top.Expire > now {
					break
				}
				timer.q.Remove(top)
				delete(timer.mapper, top.Key)
				keys = append(keys, top.Key)
			}
			timer.mutex.Unlock()

			if timer.callback != nil {
				for _, key := range keys {
					timer.callback(key)
				}
			}
		}
	}
}
''', '''	ticker := time.NewTicker(time.Second)
	defer ticker.Stop()

	for range ticker.C {
		for _, key := range timer.expired(time.Now().Unix()) {
			if timer.callback != nil {
				timer.callback(key)
			}
		}
	}
}

// 取出已过期的键
func (timer *CountdownTimer) expired(now int64) (keys []string) {
	timer.mutex.Lock()
	defer timer.mutex.Unlock()
	for top := timer.q.Top(); top != nil && now >= top.Expire; top = timer.q.Top() {
		heap.Pop(timer.q)
		delete(timer.mapper, top.Key)
		keys = append(keys, top.Key)
	}
	return keys
}
'''),
 ('timer.go', '''	e := element{
		Key:    key,
		Expire: time.Now().Unix() + atomic.LoadInt64(&timer.seconds),
	}
	timer.remove(key)
	heap.Push(timer.q, &e)
	timer.mapper[key] = &e
''', '''	expire := time.Now().Unix() + atomic.LoadInt64(&timer.seconds)
	if e, ok := timer.mapper[key]; ok {
		timer.q.Update(e, expire)
		return
	}
	e := &element{Key: key, Expire: expire}
	timer.mapper[key] = e
	heap.Push(timer.q, e)
'''),
], 'C22 C23 C28')
ref('timer2', [('timer.go', None, '''package go808

import (
	"sync"
	"time"
)

// 倒计时器
type CountdownTimer struct {
	mutex    sync.Mutex
	seconds  int64
	expire   map[string]int64
	callback func(string)
}

// 创建倒计时器
func NewCountdownTimer(seconds int64, callback func(string)) *CountdownTimer {
	timer := &CountdownTimer{seconds: seconds, callback: callback, expire: map[string]int64{}}
	go timer.run()
	return timer
}

// 更新时间
func (timer *CountdownTimer) Update(key string) {
	timer.mutex.Lock()
	timer.expire[key] = time.Now().Unix() + timer.seconds
	timer.mutex.Unlock()
}

// 删除计时
func (timer *CountdownTimer) Remove(key string) {
	timer.mutex.Lock()
	delete(timer.expire, key)
	timer.mutex.Unlock()
}

// 设置过期时间
func (timer *CountdownTimer) SetExpiration(seconds int64) {
	if seconds <= 0 {
		return
	}
	timer.mutex.Lock()
	timer.seconds = seconds
	timer.mutex.Unlock()
}

func (timer *CountdownTimer) run() {
	for {
		time.Sleep(time.Second)
		now := time.Now()
		var keys []string
		timer.mutex.Lock()
		for key, at := range timer.expire {
			if now.Unix() >= at {
				keys = append(keys, key)
				delete(timer.expire, key)
			}
		}
		timer.mutex.Unlock()
		for _, key := range keys {
			if timer.callback != nil {
				timer.callback(key)
			}
		}
	}
}
''')], 'C22 C23 C28')
ref('codec', [
 ('protocol.go', '''		i := 0
		for ; i < len(data); i++ {
			if data[i] == protocol.PrefixID {
				break
			}
		}
''', '''		i := bytes.IndexByte(data, protocol.PrefixID)
		if i < 0 {
			i = len(data)
		}
'''),
 ('protocol.go', '''	end := 1
	for ; end < len(data); end++ {
		if data[end] == protocol.PrefixID {
			break
		}
	}
	if end == len(data) {
		return protocol.Message{}, false, nil
	}
''', '''	end := bytes.IndexByte(data[1:], protocol.PrefixID)
	if end == -1 {
		return protocol.Message{}, false, nil
	}
	end++
'''),
 ('protocol.go', '''	var buffer [128]byte
	for {
		count, err := io.ReadAtLeast(codec.r, buffer[:], 1)
		if err != nil {
			return nil, err
		}
		codec.bufferReceiving.Write(buffer[:count])
''', '''	buffer := make([]byte, 4096)
	for {
		count, err := io.ReadAtLeast(codec.r, buffer, 1)
		if err != nil {
			return nil, err
		}
		codec.bufferReceiving.Write(buffer[:count])
'''),
 ('protocol.go', '''	var err error
	var data []byte
	if codec.publicKey == nil || !message.Header.Property.IsEnableEncrypt() {
		data, err = message.Encode()
	} else {
		data, err = message.Encode(codec.publicKey)
	}
''', '''	var key *rsa.PublicKey
	if message.Header.Property.IsEnableEncrypt() {
		key = codec.publicKey
	}
	data, err := message.Encode(key)
'''),
], 'C05 C06 C26 C21')
ref('multipart', [
 ('multipart.go', '''	set := make(map[uint16]struct{})
	for i := 1; i <= int(m.Sum); i++ {
		set[uint16(i)] = struct{}{}
	}

	err := m.walkParts(func(path string, seq uint16) error {
		delete(set, seq)
		return nil
	})
	return err == nil && len(set) == 0
''', '''	count := 0
	err := m.walkParts(func(path string, seq uint16) error {
		count++
		return nil
	})
	return err == nil && count == int(m.Sum)
'''),
 ('multipart.go', '''	return filepath.Walk(dir, func(path string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if info.IsDir() {
			return nil
		}

		if''', '''	infos, err := ioutil.ReadDir(dir)
	if err != nil {
		return err
	}
	for _, info := range infos {
		if info.IsDir() {
			continue
		}
		if err := m.walkPart(filepath.Join(dir, info.Name()), id, info, walkFn); err != nil {
			return err
		}
	}
	return nil
}

func (m MultipartFile) walkPart(path, id string, info os.FileInfo, walkFn func(path string, seq uint16) error) error {
		if'''),
 ('multipart.go', '''		return walkFn(path, uint16(seq))
	})
}
''', '''		return walkFn(path, uint16(seq))
}
'''),
 ('multipart.go', '''	sort.Sort(inputs)
	for _, part := range inputs {
		if _, err = io.Copy(w, part.f); err != nil {
			return nil, err
		}
	}
''', '''	sort.Slice(inputs, func(i, j int) bool { return inputs[i].seq < inputs[j].seq })
	for i := range inputs {
		data, err := ioutil.ReadAll(inputs[i].f)
		if err != nil {
			return nil, err
		}
		if _, err := w.Write(data); err != nil {
			return nil, err
		}
	}
'''),
], 'C24 C25 C33 C34')
ref('multipart2', [
 ('multipart.go', '''	inputs := make(partFileSlice, 0)
	err := m.walkParts(func(path string, seq uint16) error {
		f, err := os.OpenFile(path, os.O_RDONLY, 0644)
		if err != nil {
			return err
		}
		inputs = append(inputs, partFile{f: f, seq: seq, path: path})
		return nil
	})

	defer func() {
		for _, item := range inputs {
			item.f.Close()
		}
	}()

	if err != nil {
		return nil, err
	}
''', '''	var inputs []partFile
	if err := m.walkParts(func(path string, seq uint16) error {
		inputs = append(inputs, partFile{seq: seq, path: path})
		return nil
	}); err != nil {
		return nil, err
	}
'''),
 ('multipart.go', '''	defer w.Close()

	sort.Sort(inputs)
	for _, part := range inputs {
		if _, err = io.Copy(w, part.f); err != nil {
			return nil, err
		}
	}
	return os.OpenFile(full, os.O_RDONLY, 0644)
''', '''	defer w.Close()

	sort.Slice(inputs, func(i, j int) bool { return inputs[i].seq < inputs[j].seq })
	bw := bufio.NewWriter(w)
	for _, part := range inputs {
		data, err := os.ReadFile(part.path)
		if err != nil {
			return nil, err
		}
		if _, err = bw.Write(data); err != nil {
			return nil, err
		}
	}
	if err := bw.Flush(); err != nil {
		return nil, err
	}
	return os.Open(full)
'''),
 ('multipart.go', '''	f    *os.File
	seq  uint16
	path string
}

type partFileSlice []partFile

func (p partFileSlice) Len() int           { return len(p) }
func (p partFileSlice) Less(i, j int) bool { return p[i].seq < p[j].seq }
func (p partFileSlice) Swap(i, j int)      { p[i], p[j] = p[j], p[i] }
''', '''	seq  uint16
	path string
}
'''),
 ('multipart.go', '''import (
''', '''import (
	"bufio"
'''),
 ('multipart.go', '''	return fmt.Sprintf("%s%c%d-%d.full", m.rootDir(), filepath.Separator, m.MsgID, m.Tag)
''', '''	return filepath.Join(m.rootDir(), fmt.Sprintf("%d-%d.full", m.MsgID, m.Tag))
'''),
 ('multipart.go', '''	sep := filepath.Separator
	dir := fmt.Sprintf("%s%cgo808%c%d", os.TempDir(), sep, sep, m.IccID)
	return dir
''', '''	return filepath.Join(os.TempDir(), "go808", strconv.FormatUint(m.IccID, 10))
'''),
 ('multipart.go', '''	sep := filepath.Separator
	name := fmt.Sprintf("%s%c%d-%d-%d.part", dir, sep, m.MsgID, m.Tag, seq)
''', '''	name := filepath.Join(dir, fmt.Sprintf("%d-%d-%d.part", m.MsgID, m.Tag, seq))
'''),
 ('multipart.go', '''	err := ioutil.WriteFile(temp, data, 0644)
	if err == nil {
''', '''	err := os.WriteFile(temp, data, 0644)
	if err == nil {
'''),
 ('multipart.go', '''	"io/ioutil"
''', ''),
 ('multipart.go', '''		slice := strings.Split(strings.Split(info.Name(), ".")[0], "-")
		if len(slice) != 3 || slice[0] != id {
			return nil
		}

		tag, _ := strconv.Atoi(slice[1])
		if uint32(tag) != m.Tag {
			return nil
		}

		seq, _ := strconv.Atoi(slice[2])
		if seq < 1''', '''		prefix := fmt.Sprintf("%s-%d-", id, m.Tag)
		name := strings.TrimSuffix(info.Name(), ".part")
		if !strings.HasPrefix(name, prefix) {
			return nil
		}

		seq, err := strconv.Atoi(name[len(prefix):])
		if err != nil {
			return nil
		}
		if seq < 1'''),
], 'C24 C25 C33')
ref('multipart3', [
 ('multipart.go', '''	temp := name + ".tmp"
	err := ioutil.WriteFile(temp, data, 0644)
	if err == nil {
		err = os.Rename(temp, name)
	}
	if err != nil {
		os.Remove(temp)
	}
	return err
''', '''	f, err := ioutil.TempFile(dir, "upload")
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if e := f.Close(); err == nil {
		err = e
	}
	if err == nil {
		err = os.Rename(f.Name(), name)
	}
	if err != nil {
		os.Remove(f.Name())
	}
	return err
'''),
 ('multipart.go', '''	set := make(map[uint16]struct{})
	for i := 1; i <= int(m.Sum); i++ {
		set[uint16(i)] = struct{}{}
	}

	err := m.walkParts(func(path string, seq uint16) error {
		delete(set, seq)
		return nil
	})
	return err == nil && len(set) == 0
''', '''	for seq := 1; seq <= int(m.Sum); seq++ {
		if _, err := os.Stat(m.partPath(uint16(seq))); err != nil {
			return false
		}
	}
	return true
'''),
 ('multipart.go', '''	name := fmt.Sprintf("%s%c%d-%d-%d.part", dir, sep, m.MsgID, m.Tag, seq)
''', '''	name := m.partPath(seq)
'''),
 ('multipart.go', '''	sep := filepath.Separator
	name''', '''	name'''),
 ('multipart.go', '''// 写入分包文件
''', '''// 分包文件路径
func (m MultipartFile) partPath(seq uint16) string {
	return fmt.Sprintf("%s%c%d-%d-%d.part", m.rootDir(), filepath.Separator, m.MsgID, m.Tag, seq)
}

// 写入分包文件
'''),
], 'C24 C25 C33')
ref('bufio', [
 ('protocol/bufio.go', '''	if len(p) >= size[0] {
		writer.b.Write(p[:size[0]])
	} else {
		writer.b.Write(p)
		end := size[0] - len(p)
		for i := 0; i < end; i++ {
			writer.b.WriteByte(0)
		}
	}
	return writer
''', '''	fixed := make([]byte, size[0])
	copy(fixed, p)
	writer.b.Write(fixed)
	return writer
'''),
 ('protocol/bufio.go', '''	var buf [2]byte
	binary.BigEndian.PutUint16(buf[:], n)
	writer.b.Write(buf[:])
	return writer
''', '''	binary.Write(writer.b, binary.BigEndian, n)
	return writer
'''),
 ('protocol/bufio.go', '''	var buf [4]byte
	binary.BigEndian.PutUint32(buf[:], n)
	writer.b.Write(buf[:])
	return writer
''', '''	return writer.WriteUint16(uint16(n >> 16)).WriteUint16(uint16(n))
'''),
 ('protocol/bufio.go', '''	reader := bytes.NewReader([]byte(str))
	data, err := ioutil.ReadAll(
		transform.NewReader(reader, simplifiedchinese.GB18030.NewEncoder()))
	if err != nil {
		return err
	}
	writer.Write(data, size...)
''', '''	data, err := simplifiedchinese.GB18030.NewEncoder().Bytes([]byte(str))
	if err != nil {
		return err
	}
	writer.Write(data, size...)
'''),
 ('protocol/bufio.go', '''	text, err := ioutil.ReadAll(transform.NewReader(
		bytes.NewReader(data), simplifiedchinese.GB18030.NewDecoder()))
	if err != nil {
		return "", err
	}
	return bytesToString(text), nil
''', '''	text, _, err := transform.Bytes(simplifiedchinese.GB18030.NewDecoder(), data)
	if err != nil {
		return "", err
	}
	return bytesToString(text), nil
'''),
 ('protocol/bufio.go', '''	if reader.r.Len() < 2 {
		return 0, io.ErrUnexpectedEOF
	}

	var buf [2]byte
	n, err := reader.r.Read(buf[:])
	if err != nil {
		return 0, err
	}
	if n != len(buf) {
		return 0, io.ErrUnexpectedEOF
	}
	return binary.BigEndian.Uint16(buf[:]), nil
''', '''	buf, err := reader.Read(2)
	if err != nil {
		return 0, err
	}
	return uint16(buf[0])<<8 | uint16(buf[1]), nil
'''),
 ('protocol/bufio.go', '''	var buf [4]byte
	n, err := reader.r.Read(buf[:])
	if err != nil {
		return 0, err
	}
	if n != len(buf) {
		return 0, io.ErrUnexpectedEOF
	}
	return binary.BigEndian.Uint32(buf[:]), nil
''', '''	var n uint32
	if err := binary.Read(reader.r, binary.BigEndian, &n); err != nil {
		return 0, err
	}
	return n, nil
'''),
 ('protocol/bufio.go', '''	var buf [6]byte
	n, err := reader.r.Read(buf[:])
	if err != nil {
		return time.Time{}, err
	}
	if n != len(buf) {
		return time.Time{}, io.ErrUnexpectedEOF
	}
	return fromBCDTime(buf[:])
''', '''	buf := make([]byte, 6)
	if _, err := io.ReadFull(reader.r, buf); err != nil {
		return time.Time{}, err
	}
	return fromBCDTime(buf)
'''),
 ('protocol/bufio.go', '''	"io/ioutil"
''', ''),
], 'C01 C03 C04 C07 C08 C09 C10 C11 C12 C13 C14 C15 C27')
ref('bufio2', [('protocol/bufio.go', None, '''package protocol

import (
	"encoding/binary"
	"io"
	"time"

	"golang.org/x/text/encoding/simplifiedchinese"
)

type Writer struct {
	b *[]byte
}

func NewWriter() Writer {
	return Writer{b: new([]byte)}
}

func (writer *Writer) Bytes() []byte {
	return *writer.b
}

func (writer *Writer) Write(p []byte, size ...int) *Writer {
	n := len(p)
	if len(size) > 0 {
		n = size[0]
	}
	for i := 0; i < n; i++ {
		if i < len(p) {
			*writer.b = append(*writer.b, p[i])
		} else {
			*writer.b = append(*writer.b, 0)
		}
	}
	return writer
}

func (writer *Writer) WriteByte(b byte) *Writer {
	*writer.b = append(*writer.b, b)
	return writer
}

func (writer *Writer) WriteUint16(n uint16) *Writer {
	*writer.b = append(*writer.b, byte(n>>8), byte(n))
	return writer
}

func (writer *Writer) WriteUint32(n uint32) *Writer {
	*writer.b = binary.BigEndian.AppendUint32(*writer.b, n)
	return writer
}

func (writer *Writer) WriteBcdTime(t time.Time) *Writer {
	return writer.Write(toBCDTime(t))
}

func (writer *Writer) WritString(str string, size ...int) error {
	data, err := simplifiedchinese.GB18030.NewEncoder().String(str)
	if err == nil {
		writer.Write([]byte(data), size...)
	}
	return err
}

type Reader struct {
	d *[]byte
}

func NewReader(data []byte) Reader {
	return Reader{&data}
}

func (reader *Reader) Len() int {
	return len(*reader.d)
}

func (reader *Reader) Read(size ...int) ([]byte, error) {
	num := len(*reader.d)
	if len(size) > 0 {
		num = size[0]
	}
	if num < 0 || num > len(*reader.d) {
		return nil, io.ErrUnexpectedEOF
	}
	buf := (*reader.d)[:num]
	*reader.d = (*reader.d)[num:]
	return buf, nil
}

func (reader *Reader) ReadByte() (byte, error) {
	if reader.Len() == 0 {
		return 0, io.EOF
	}
	buf, err := reader.Read(1)
	if err != nil {
		return 0, err
	}
	return buf[0], nil
}

func (reader *Reader) ReadUint16() (uint16, error) {
	buf, err := reader.Read(2)
	if err != nil {
		return 0, err
	}
	return binary.BigEndian.Uint16(buf), nil
}

func (reader *Reader) ReadUint32() (uint32, error) {
	buf, err := reader.Read(4)
	if err != nil {
		return 0, err
	}
	return binary.BigEndian.Uint32(buf), nil
}

func (reader *Reader) ReadBcdTime() (time.Time, error) {
	buf, err := reader.Read(6)
	if err != nil {
		return time.Time{}, err
	}
	return fromBCDTime(buf)
}

func (reader *Reader) ReadString(size ...int) (string, error) {
	data, err := reader.Read(size...)
	if err != nil {
		return "", err
	}
	text, err := simplifiedchinese.GB18030.NewDecoder().Bytes(data)
	if err != nil {
		return "", err
	}
	return bytesToString(text), nil
}
''')], 'C01 C03 C04 C07 C08 C09 C10 C11 C12 C13 C14 C15 C27')
ref('loc', [
 ('protocol/t808_0x0200.go', '''	mul := decimal.NewFromFloat(1000000)
	lat := entity.Lat.Mul(mul).IntPart()
	if lat < 0 {
		entity.Status.SetSouthLatitude(true)
	}
	lng := entity.Lng.Mul(mul).IntPart()
	if lng < 0 {
		entity.Status.SetWestLongitude(true)
	}
''', '''	lat, south := scaleDegrees(entity.Lat)
	if south {
		entity.Status.SetSouthLatitude(true)
	}
	lng, west := scaleDegrees(entity.Lng)
	if west {
		entity.Status.SetWestLongitude(true)
	}
'''),
 ('protocol/t808_0x0200.go', '''	writer.WriteUint32(uint32(math.Abs(float64(lat))))
''', '''	writer.WriteUint32(lat)
'''),
 ('protocol/t808_0x0200.go', '''	writer.WriteUint32(uint32(math.Abs(float64(lng))))
''', '''	writer.WriteUint32(lng)
'''),
 ('protocol/t808_0x0200.go', '''func (entity *T808_0x0200) Decode(''', '''// 换算为百万分之一度
func scaleDegrees(d decimal.Decimal) (uint32, bool) {
	v := d.Shift(6).IntPart()
	if v < 0 {
		return uint32(-v), true
	}
	return uint32(v), false
}

func (entity *T808_0x0200) Decode('''),
 ('protocol/t808_0x0200.go', '''	"math"
''', ''),
 ('protocol/t808_0x0200.go', '''		full := make([]byte, len(data)+2)
		full[0], full[1] = ext.ID(), byte(len(data))
		copy(full[2:], data)
		writer.Write(full)
''', '''		writer.WriteByte(ext.ID())
		writer.WriteByte(byte(len(data)))
		writer.Write(data)
'''),
 ('protocol/t808_0x0200.go', '''	for {
		if len(buffer) < 2 {
			break
		}
		id, length''', '''	for len(buffer) >= 2 {
		id, length'''),
 ('protocol/t808_0x0200.go', '''		extraEntity, count, err := extra.Decode(id, buffer[:length])
		if err != nil {
			if err == errors.ErrTypeNotRegistered {
				buffer = buffer[length:]
				log.WithFields(log.Fields{
					"id": fmt.Sprintf("0x%x", id),
				}).Warn("[JT/T808] unknown T808_0x0200 extra type")
				continue
			}
			return 0, err
		}
		if count != length {
			return 0, errors.ErrInvalidExtraLength
		}
		extras = append(extras, extraEntity)
		buffer = buffer[length:]
''', '''		item := buffer[:length]
		buffer = buffer[length:]
		extraEntity, count, err := extra.Decode(id, item)
		switch {
		case err == errors.ErrTypeNotRegistered:
			log.WithField("id", fmt.Sprintf("0x%x", id)).Warn("[JT/T808] unknown T808_0x0200 extra type")
		case err != nil:
			return 0, err
		case count != length:
			return 0, errors.ErrInvalidExtraLength
		default:
			extras = append(extras, extraEntity)
		}
'''),
], 'C04 C07 C10 C11 C12')
ref('gzip', [
 ('protocol/t808_0x0901.go', '''	buffer := bytes.NewBuffer(nil)
	gzipReader, err''', '''	gzipReader, err'''),
 ('protocol/t808_0x0901.go', '''	var temp [256]byte
	for {
		n, err := gzipReader.Read(temp[:])
		if err != nil && err != io.EOF {
			return 0, err
		}

		if n > 0 {
			buffer.Write(temp[:n])
		}

		if err == io.EOF {
			break
		}
	}
	entity.Uncompressed = buffer.Bytes()
''', '''	entity.Uncompressed, err = ioutil.ReadAll(gzipReader)
	if err != nil {
		return 0, err
	}
'''),
 ('protocol/t808_0x0901.go', '''	"io"
''', '''	"io/ioutil"
'''),
], 'C04 C07 C27')

# --- third set: parameters, flags, areas, extras, lists, registration, server ---
ref('params', [('protocol/params.go', None, '''package protocol

import (
	"encoding/binary"
	"golang.org/x/text/encoding/simplifiedchinese"
)

// 终端参数
type Param struct {
	id         uint32
	serialized []byte
}

func (param *Param) ID() uint32 { return param.id }

func (param *Param) store(id uint32, data []byte) *Param {
	param.id, param.serialized = id, data
	return param
}

func (param *Param) fixed(size int) ([]byte, error) {
	if size > len(param.serialized) {
		return nil, ErrInvalidBody
	}
	return param.serialized[:size], nil
}

func (param *Param) SetByte(id uint32, b byte) *Param { return param.store(id, append([]byte(nil), b)) }

func (param *Param) SetBytes(id uint32, b []byte) *Param {
	return param.store(id, append(make([]byte, 0, len(b)), b...))
}

func (param *Param) SetUint16(id uint32, n uint16) *Param {
	return param.store(id, []byte{byte(n >> 8), byte(n)})
}

func (param *Param) SetUint32(id uint32, n uint32) *Param {
	data := make([]byte, 4)
	binary.BigEndian.PutUint32(data, n)
	return param.store(id, data)
}

func (param *Param) SetString(id uint32, s string) *Param {
	data, err := simplifiedchinese.GB18030.NewEncoder().Bytes([]byte(s))
	if err != nil {
		data = nil
	}
	return param.SetBytes(id, data)
}

func (param *Param) GetByte() (byte, error) {
	data, err := param.fixed(1)
	if err != nil {
		return 0, err
	}
	return data[0], nil
}

func (param *Param) GetBytes() ([]byte, error) {
	return append([]byte{}, param.serialized...), nil
}

func (param *Param) GetUint16() (uint16, error) {
	data, err := param.fixed(2)
	if err != nil {
		return 0, err
	}
	return uint16(data[0])<<8 | uint16(data[1]), nil
}

func (param *Param) GetUint32() (uint32, error) {
	data, err := param.fixed(4)
	if err != nil {
		return 0, err
	}
	var n uint32
	for _, b := range data {
		n = n<<8 + uint32(b)
	}
	return n, nil
}

func (param *Param) GetString() (string, error) {
	data, err := simplifiedchinese.GB18030.NewDecoder().Bytes(param.serialized)
	if err != nil {
		return "", err
	}
	return string(data), nil
}
''')], 'C15 C14 C07 C08 C09 C04')

ref('bit', [('protocol/bit.go', None, '''package protocol

func bitOf(value uint32, width, offset int) bool {
	return offset < width && (value>>uint(offset))&1 == 1
}

func withBit(value uint32, width, offset int, set bool) uint32 {
	if offset >= width {
		return value
	}
	mask := uint32(1) << uint(offset)
	value &^= mask
	if set {
		value += mask
	}
	return value
}

func GetBitByte(value byte, offset int) bool { return bitOf(uint32(value), 8, offset) }

func SetBitByte(value *byte, offset int, set bool) {
	*value = byte(withBit(uint32(*value), 8, offset, set))
}

func GetBitUint16(value uint16, offset int) bool { return bitOf(uint32(value), 16, offset) }

func SetBitUint16(value *uint16, offset int, set bool) {
	*value = uint16(withBit(uint32(*value), 16, offset, set))
}

func GetBitUint32(value uint32, offset int) bool { return bitOf(value, 32, offset) }

func SetBitUint32(value *uint32, offset int, set bool) {
	*value = withBit(*value, 32, offset, set)
}
'''), ('protocol/property.go', None, '''package protocol

import (
	"gitee.com/coco/go808/errors"
)

// 消息体属性
type Property uint16

const (
	propertySize    Property = 1<<10 - 1
	propertyEncrypt Property = 1 << 10
	propertyPacket  Property = 1 << 13
)

// 启用分包
func (property *Property) enablePacket() { *property |= propertyPacket }

// 启用加密
func (property *Property) enableEncrypt() { *property |= propertyEncrypt }

// 是否分包
func (property Property) IsEnablePacket() bool { return property&propertyPacket != 0 }

// 是否加密
func (property Property) IsEnableEncrypt() bool { return property&propertyEncrypt == propertyEncrypt }

// 获取消息体长度
func (property *Property) GetBodySize() uint16 { return uint16(*property & propertySize) }

// 设置消息体长度
func (property *Property) SetBodySize(size uint16) error {
	if Property(size)&^propertySize != 0 {
		return errors.ErrBodyTooLong
	}
	*property = *property&^propertySize + Property(size)
	return nil
}
''')], 'C16 C01 C02 C03 C10 C12 C17 C06')

ref('area', [('protocol/t808_0x8600.go', '''		// 计算经纬度
		mul := decimal.NewFromFloat(1000000)
		lat := item.Lat.Mul(mul).IntPart()
		if lat < 0 {
			item.Attribute.SetSouthLatitude(true)
		}
		lng := item.Lng.Mul(mul).IntPart()
		if lng < 0 {
			item.Attribute.SetWestLongitude(true)
		}

		// 写入区域属性
		writer.WriteUint16(uint16(item.Attribute))

		// 写入中心点纬度
		writer.WriteUint32(uint32(math.Abs(float64(lat))))

		// 写入中心点经度
		writer.WriteUint32(uint32(math.Abs(float64(lng))))
''', '''		lat, south := microDegrees(item.Lat)
		lng, west := microDegrees(item.Lng)
		if south {
			item.Attribute.SetSouthLatitude(south)
		}
		if west {
			item.Attribute.SetWestLongitude(west)
		}
		writer.WriteUint16(uint16(item.Attribute))
		writer.WriteUint32(lat)
		writer.WriteUint32(lng)
'''), ('protocol/t808_0x8600.go', '''// 区域动作
''', '''// 百万分之一度及其方向
func microDegrees(v decimal.Decimal) (uint32, bool) {
	n := v.Mul(decimal.New(1, 6)).IntPart()
	if n < 0 {
		return uint32(-n), true
	}
	return uint32(n), false
}

// 区域动作
'''), ('protocol/t808_0x8600.go', '''		// 写入时间参数
		if item.Attribute&1 == 0 {
			continue
		}

		// 写入开始时间
		writer.WriteBcdTime(item.StartTime)

		// 写入结束时间
		writer.WriteBcdTime(item.EndTime)

		// 写入最高速度
		writer.WriteUint16(item.MaxSpeed)

		// 写入持续时间
		writer.WriteByte(item.Duration)
''', '''		if GetBitUint16(uint16(item.Attribute), 0) {
			writer.WriteBcdTime(item.StartTime).WriteBcdTime(item.EndTime)
			writer.WriteUint16(item.MaxSpeed).WriteByte(item.Duration)
		}
'''), ('protocol/t808_0x8600.go', '''	"math"
''', ''), ('protocol/t808_0x8606.go', '''	// 写入拐点列表
	for _, point := range entity.Points {
''', '''	// 写入拐点列表
	for i := 0; i < len(entity.Points); i++ {
		point := entity.Points[i]
		timed := point.TimeTooLong != nil && point.TimeTooShort != nil
		limited := !(point.MaxSpeed == nil || point.OverSpeedDuration == nil)
'''), ('protocol/t808_0x8606.go', '''SetTimeLimit(point.TimeTooLong != nil && point.TimeTooShort != nil)
''', '''SetTimeLimit(timed)
'''), ('protocol/t808_0x8606.go', '''SetSpeedLimit(point.MaxSpeed != nil && point.OverSpeedDuration != nil)
''', '''SetSpeedLimit(limited)
'''), ('protocol/t808_0x8606.go', '''		if point.TimeTooLong != nil && point.TimeTooShort != nil {
			writer''', '''		if point.Attribute.HasTimeLimit() {
			writer'''), ('protocol/t808_0x8606.go', '''		if point.MaxSpeed != nil && point.OverSpeedDuration != nil {
			writer''', '''		if limited {
			writer'''), ('protocol/t808_0x8606.go', '''	// 读取拐点列表
	for i''', '''	// 读取拐点列表
	if max := reader.Len() / 18; int(count) < max {
		max = int(count)
		entity.Points = make([]T808_0x8606_Point, 0, max)
	}
	for i''')], 'C12 C08 C09 C04 C16')

ref('lists', [('protocol/t808_0x0704.go', '''	for i := 0; i < int(count); i++ {
		size, err := reader.ReadUint16()
		if err != nil {
			return 0, err
		}

		buf, err := reader.Read(int(size))
		if err != nil {
			return 0, err
		}

		var position T808_0x0200
		_, err = position.Decode(buf)
		if err != nil {
			return 0, err
		}
		entity.Items = append(entity.Items, position)
	}
''', '''	for ; count > 0; count-- {
		size, err := reader.ReadUint16()
		if err != nil {
			return 0, err
		}
		buf, err := reader.Read(int(size))
		if err != nil {
			return 0, err
		}
		entity.Items = append(entity.Items, T808_0x0200{})
		if _, err = entity.Items[len(entity.Items)-1].Decode(buf); err != nil {
			return 0, err
		}
	}
'''), ('protocol/t808_0x0705.go', '''	t := time.Time{}.Add(entity.ReceiveTime)
	s := fmt.Sprintf("%02d%02d%02d%04d",
		t.Hour(), t.Minute(), t.Second(), t.Nanosecond()/int(time.Millisecond))
	writer.Write(stringToBCD(s), 5)
''', '''	ms := int64(entity.ReceiveTime / time.Millisecond)
	s := fmt.Sprintf("%02d%02d%02d%04d",
		ms/3600000%24, ms/60000%60, ms/1000%60, ms%1000)
	writer.Write(stringToBCD(s), 5)
'''), ('protocol/t808_0x0705.go', '''	for _, item := range entity.Items {
		writer.Write(item.ID[:])
		writer.Write(item.Data[:])
	}
''', '''	for i := range entity.Items {
		writer.Write(append(append([]byte{}, entity.Items[i].ID[:]...), entity.Items[i].Data[:]...))
	}
'''), ('protocol/t808_0x0705.go', '''		id, err := reader.Read(4)
		if err != nil {
			return 0, err
		}

		data, err := reader.Read(8)
		if err != nil {
			return 0, err
		}

		var item T808_0x0705_CAN
		copy(item.ID[:], id)
		copy(item.Data[:], data)
''', '''		buf, err := reader.Read(12)
		if err != nil {
			return 0, err
		}
		var item T808_0x0705_CAN
		copy(item.Data[:], buf[copy(item.ID[:], buf):])
'''), ('protocol/t808_0x8800.go', '''	if len(entity.RetryIDs) == 0 {
		return writer.Bytes(), nil
	}

	// 写入重传消息数
	writer.WriteByte(byte(len(entity.RetryIDs)))
''', '''	// 写入重传消息数
	if n := len(entity.RetryIDs); n > 0 {
		writer.WriteByte(byte(n))
	}
'''), ('protocol/t808_0x8103.go', '''		params = append(params, &Param{
			id:         id,
			serialized: value,
		})
''', '''		params = append(params, new(Param).SetBytes(id, value))
''')], 'C07 C08 C09 C10 C11 C13 C15 C04')

ref('texts', [('protocol/t808_0x8302.go', None, '''package protocol

// 提问下发
type T808_0x8302 struct {
	// 标志
	Flag byte
	// 问题
	Question string
	// 候选答案列表
	CandidateAnswers []T808_0x8302_Answer
}

// 问题答案
type T808_0x8302_Answer struct {
	// 答案 ID
	ID byte
	// 答案内容
	Content string
}

func (entity *T808_0x8302) MsgID() MsgID {
	return MsgT808_0x8302
}

func writeSized(writer *Writer, s string) error {
	text := NewWriter()
	if err := text.WritString(s); err != nil {
		return err
	}
	writer.WriteByte(byte(len(text.Bytes()))).Write(text.Bytes())
	return nil
}

func readSized(reader *Reader) (string, error) {
	size, err := reader.ReadByte()
	if err != nil {
		return "", err
	}
	return reader.ReadString(int(size))
}

func (entity *T808_0x8302) Encode() ([]byte, error) {
	writer := NewWriter()
	writer.WriteByte(entity.Flag)
	if err := writeSized(&writer, entity.Question); err != nil {
		return nil, err
	}
	for _, answer := range entity.CandidateAnswers {
		writer.WriteByte(answer.ID)
		if err := writeSized(&writer, answer.Content); err != nil {
			return nil, err
		}
	}
	return writer.Bytes(), nil
}

func (entity *T808_0x8302) Decode(data []byte) (int, error) {
	if len(data) < 2 {
		return 0, ErrInvalidBody
	}
	reader := NewReader(data)
	var err error
	if entity.Flag, err = reader.ReadByte(); err != nil {
		return 0, err
	}
	if entity.Question, err = readSized(&reader); err != nil {
		return 0, err
	}
	for reader.Len() > 0 {
		var answer T808_0x8302_Answer
		if answer.ID, err = reader.ReadByte(); err == nil {
			answer.Content, err = readSized(&reader)
		}
		if err != nil {
			return 0, err
		}
		entity.CandidateAnswers = append(entity.CandidateAnswers, answer)
	}
	return len(data) - reader.Len(), nil
}
'''), ('protocol/t808_0x0702.go', '''	writer.Write(stringToBCD(entity.ExpiryDate.Format("20060102"), 4))
''', '''	y, m, d := entity.ExpiryDate.Date()
	writer.Write(stringToBCD(fmt.Sprintf("%04d%02d%02d", y, int(m), d)), 4)
'''), ('protocol/t808_0x0702.go', '''	"bytes"
''', '''	"bytes"
	"fmt"
'''), ('protocol/t808_0x0702.go', '''	entity.ExpiryDate, err = time.ParseInLocation(
		"20060102150405", bcdToString(bcd)+"000000", time.Local)
''', '''	entity.ExpiryDate, err = time.ParseInLocation("20060102", bcdToString(bcd), time.Local)
''')], 'C07 C08 C09 C14 C13 C04')

ref('extras', [('protocol/extra/0x11.go', '''	buffer := bytes.NewBuffer(nil)
	buffer.WriteByte(value.Type)

	if value.Type != 0 && value.AreaID != nil {
		var temp [4]byte
		binary.BigEndian.PutUint32(temp[:], uint32(*value.AreaID))
		buffer.Write(temp[:])
	}
	extra.serialized = buffer.Bytes()
	return &extra
''', '''	data := []byte{value.Type}
	if id := value.AreaID; id != nil && value.Type > 0 {
		data = append(data, byte(*id>>24), byte(*id>>16), byte(*id>>8), byte(*id))
	}
	extra.serialized = data
	return &extra
'''), ('protocol/extra/0x11.go', '''	"bytes"
''', ''), ('protocol/extra/0x11.go', '''	extra.value.AreaID = nil
	extra.value.Type = data[0]
	if extra.value.Type == 0 {
		extra.serialized = append([]byte(nil), data[:1]...)
		return 1, nil
	}

	if len(data[1:]) < 4 {
		return 0, errors.ErrInvalidExtraLength
	}
	areaID := binary.BigEndian.Uint32(data[1:])
	extra.value.AreaID = &areaID
	extra.serialized = append([]byte(nil), data[:5]...)
	return 5, nil
''', '''	size := 1
	if data[0] != 0 {
		size += 4
	}
	if size > len(data) {
		return 0, errors.ErrInvalidExtraLength
	}
	extra.value = Extra_0x11_Value{Type: data[0]}
	if size > 1 {
		extra.value.AreaID = new(uint32)
		*extra.value.AreaID = binary.BigEndian.Uint32(data[1:size])
	}
	extra.serialized = make([]byte, size)
	return copy(extra.serialized, data), nil
'''), ('protocol/extra/0x2b.go', '''	extra := Extra_0x2B{
		value: val,
	}

	var temp [4]byte
	binary.BigEndian.PutUint32(temp[:4], val)
	extra.serialized = temp[:4]
	return &extra
''', '''	temp := make([]byte, 4)
	binary.BigEndian.PutUint32(temp, val)
	return &Extra_0x2B{serialized: temp, value: val}
'''), ('protocol/extra/extra.go', '''	entity := creator()
	count, err := entity.Decode(data)
	if err != nil {
''', '''	entity := creator()
	if count, err := entity.Decode(data); err == nil {
		return entity, count, nil
	} else {
'''), ('protocol/extra/extra.go', '''		return nil, 0, err
	}
	return entity, count, nil
}''', '''		return nil, 0, err
	}
}''')], 'C11 C04 C07')

ref('run', [('server.go', '''	address := fmt.Sprintf("0.0.0.0:%d", port)
	listen, err := net.Listen(network, address)
	if err != nil {
		return err
	}

	p := Protocol{
		privateKey: server.privateKey,
	}
	server.server = link.NewServer(listen, &p, 24, server.handler)
	log.Infof("[JT/T 808] protocol server started on %s", address)
	return server.server.Serve()
''', '''	listen, err := server.listen(network, port)
	if err != nil {
		return err
	}
	s := link.NewServer(listen, &Protocol{privateKey: server.privateKey}, 24, server.handler)
	server.server = s
	return s.Serve()
}

func (server *Server) listen(network string, port int) (net.Listener, error) {
	address := net.JoinHostPort("0.0.0.0", strconv.Itoa(port))
	listen, err := net.Listen(network, address)
	if err == nil {
		log.Infof("[JT/T 808] protocol server started on %s", address)
	}
	return listen, err
'''), ('server.go', '''	if options.Keepalive <= 0 {
		options.Keepalive = 60
	}
''', '''	keepalive := options.Keepalive
	if keepalive <= 0 {
		keepalive = 60
	}
'''), ('server.go', '''NewCountdownTimer(options.Keepalive, server''', '''NewCountdownTimer(keepalive, server'''),
 ('server.go', '''	session, ok := server.sessions[id]
	if !ok {
		return nil, false
	}
	return session, true
''', '''	session, found := server.sessions[id]
	return session, found
'''), ('server.go', '''	mutex    sync.Mutex
	sessions''', '''	mutex    sync.RWMutex
	sessions'''), ('server.go', '''func (server *Server) GetSession(id uint64) (*Session, bool) {
	server.mutex.Lock()
	defer server.mutex.Unlock()
''', '''func (server *Server) GetSession(id uint64) (*Session, bool) {
	server.mutex.RLock()
	defer server.mutex.RUnlock()
''')], 'C05 C20 C21 C22 C25 C28 C26')

ref('nextid', [('session.go', '''	var id uint32
	for {
		id = atomic.LoadUint32(&session.next)
		if id == 0xff {
			if atomic.CompareAndSwapUint32(&session.next, id, 1) {
				id = 1
				break
			}
		} else if atomic.CompareAndSwapUint32(&session.next, id, id+1) {
			id += 1
			break
		}
	}
	return uint16(id)
''', '''	n := atomic.AddUint32(&session.next, 1)
	return uint16((n-1)%255 + 1)
'''), ('session.go', '''	for idx, item := range session.requests {
		if item.serialNo == msgSerialNo {
			session.requests[idx] = session.requests[len(session.requests)-1]
			session.requests = session.requests[:len(session.requests)-1]
			return item, true
		}
	}
	return requestContext{}, false
''', '''	var found requestContext
	rest := make([]requestContext, 0, len(session.requests))
	for _, item := range session.requests {
		if found.callback == nil && item.serialNo == msgSerialNo {
			found = item
		} else {
			rest = append(rest, item)
		}
	}
	session.requests = rest
	return found, found.callback != nil
'''), ('session.go', '''	for idx, item := range session.requests {
		if item.msgID == ctx.msgID {
			session.requests[idx] = ctx
			return
		}
	}
	session.requests = append(session.requests, ctx)
''', '''	for idx := range session.requests {
		if session.requests[idx].msgID == ctx.msgID {
			session.requests = append(session.requests[:idx], session.requests[idx+1:]...)
			break
		}
	}
	session.requests = append(session.requests, ctx)
''')], 'C18 C19 C20 C21 C22 C26')

ref('handler2', [('session_handler.go', '''		unlock := multipartFile.lock()
		err = multipartFile.Write(message.Header.Packet.Seq, buf)
		if err != nil {
			unlock()
			log.WithFields(log.Fields{
				"iccid":  message.Header.IccID,
				"msgid":  fmt.Sprintf("0x%x", message.Header.MsgID),
				"seq":    message.Header.Packet.Seq,
				"reason": err,
			}).Warn("[JT/T 808] failed to write packet data to file")
			session.Reply(&message, protocol.T808_0x8001ResultFail)
			continue
		}

		session.Reply(&message, protocol.T808_0x8001ResultSuccess)
		if !multipartFile.IsFull() {
			unlock()
			continue
		}
''', '''		unlock := multipartFile.lock()
		var result protocol.Result = protocol.T808_0x8001ResultSuccess
		if err = multipartFile.Write(message.Header.Packet.Seq, buf); err != nil {
			result = protocol.T808_0x8001ResultFail
			log.WithField("reason", err).WithField("seq", message.Header.Packet.Seq).Warn(
				"[JT/T 808] failed to write packet data to file")
		}
		session.Reply(&message, result)
		if err != nil || !multipartFile.IsFull() {
			unlock()
			continue
		}
'''), ('session_handler.go', '''		if !handler.autoMergePacket || !message.Header.Property.IsEnablePacket() {
			session.message(&message)
			handler.server.dispatchMessage(session, &message)
			continue
		}

		// 处理分包消息
		entityPacket, ok := interface{}(message.Body).(protocol.EntityPacket)
		if !ok {
			session.message(&message)
			handler.server.dispatchMessage(session, &message)
			continue
		}
''', '''		// 处理分包消息
		var entityPacket protocol.EntityPacket
		if handler.autoMergePacket && message.Header.Property.IsEnablePacket() {
			entityPacket, _ = message.Body.(protocol.EntityPacket)
		}
		if entityPacket == nil {
			session.message(&message)
			handler.server.dispatchMessage(session, &message)
			continue
		}
'''), ('session_handler.go', '''		msg, err := sess.Receive()
		if err != nil {
			sess.Close()
			break
		}
''', '''		msg, err := sess.Receive()
		if err != nil {
			break
		}
'''), ('session_handler.go', '''	for {
		// 接收消息''', '''	defer sess.Close()
	for {
		// 接收消息''')], 'C19 C20 C21 C22 C25 C28 C32 C33')

ref('reqmap', [('session.go', '''	requests []requestContext
''', '''	requests map[uint16]requestContext
'''), ('session.go', '''	for idx, item := range session.requests {
		if item.msgID == ctx.msgID {
			session.requests[idx] = ctx
			return
		}
	}
	session.requests = append(session.requests, ctx)
''', '''	if session.requests == nil {
		session.requests = make(map[uint16]requestContext)
	}
	session.requests[ctx.msgID] = ctx
'''), ('session.go', '''	for idx, item := range session.requests {
		if item.serialNo == msgSerialNo {
			session.requests[idx] = session.requests[len(session.requests)-1]
			session.requests = session.requests[:len(session.requests)-1]
			return item, true
		}
	}
	return requestContext{}, false
''', '''	for msgID, item := range session.requests {
		if item.serialNo == msgSerialNo {
			delete(session.requests, msgID)
			return item, true
		}
	}
	return requestContext{}, false
'''), ('session.go', '''		old := atomic.LoadUint64(&session.iccID)
		if old != 0''', '''		old := atomic.SwapUint64(&session.iccID, message.Header.IccID)
		if old != 0'''), ('session.go', '''		atomic.StoreUint64(&session.iccID, message.Header.IccID)
	}''', '''	}''')], 'C18 C19 C20 C21 C33')

ref('handlers', [('server.go', '''	messageHandlers sync.Map
''', '''	handlersMux     sync.RWMutex
	messageHandlers map[protocol.MsgID]MessageHandler
'''), ('server.go', '''		sessions:     make(map[uint64]*Session),
''', '''		sessions:     make(map[uint64]*Session),

		messageHandlers: make(map[protocol.MsgID]MessageHandler),
'''), ('server.go', '''	if handler != nil {
		server.messageHandlers.Store(msgID, handler)
	}
''', '''	if handler == nil {
		return
	}
	server.handlersMux.Lock()
	server.messageHandlers[msgID] = handler
	server.handlersMux.Unlock()
}

func (server *Server) handlerOf(msgID protocol.MsgID) (MessageHandler, bool) {
	server.handlersMux.RLock()
	defer server.handlersMux.RUnlock()
	handler, ok := server.messageHandlers[msgID]
	return handler, ok
'''), ('server.go', '''	if _, ok := server.messageHandlers.Load(msgID); ok {
		server.timer''', '''	if _, ok := server.handlerOf(msgID); ok {
		server.timer'''), ('server.go', '''	handler, ok := server.messageHandlers.Load(message.Header.MsgID)
''', '''	handler, ok := server.handlerOf(message.Header.MsgID)
'''), ('server.go', '''	handler.(MessageHandler)(session, message)
''', '''	handler(session, message)
'''), ('server.go', '''	count := 0
	for _, session := range sessions {
		if _, err := session.Send(entity); err == nil {
			count++
		}
	}
	return count
''', '''	failed := 0
	for i := range sessions {
		if _, err := sessions[i].Send(entity); err != nil {
			failed++
		}
	}
	return len(sessions) - failed
''')], 'C21 C22 C28 C25 C29 C30 C32 C33')

ref('bcd', [('protocol/helpers.go', '''	keepPadding := len(ignorePadding) > 0 && ignorePadding[0]
	for !keepPadding {
		if len(data) == 0 {
			return ""
		}
		if data[0] != 0 {
			break
		}
		data = data[1:]
	}

	buf := make([]byte, 0, len(data)*2)
	for i := 0; i < len(data); i++ {
		buf = append(buf, data[i]&0xf0>>4+'0')
		buf = append(buf, data[i]&0x0f+'0')
	}

	if !keepPadding {
		for idx := range buf {
			if buf[idx] != '0' {
				return string(buf[idx:])
			}
		}
	}
	return string(buf)
''', '''	digits := make([]byte, 2*len(data))
	for i, b := range data {
		digits[2*i], digits[2*i+1] = '0'+b>>4, '0'+b%16
	}
	if len(ignorePadding) == 0 || !ignorePadding[0] {
		digits = bytes.TrimLeft(digits, "0")
	}
	return string(digits)
'''), ('protocol/helpers.go', '''	ret := make([]byte, size[0])
	if size[0] < len(bcd) {
		copy(ret, bcd)
	} else {
		copy(ret[len(ret)-len(bcd):], bcd)
	}
	return ret
''', '''	if n := size[0]; n < len(bcd) {
		return append([]byte(nil), bcd[:n]...)
	}
	return append(make([]byte, size[0]-len(bcd)), bcd...)
''')], 'C13 C01 C02 C03 C07 C09 C10 C17 C18')

ref('walk', [('multipart.go', '''	dir := m.rootDir()
	id := strconv.Itoa(int(m.MsgID))
	return filepath.Walk(dir, func(path string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if info.IsDir() {
			return nil
		}

		if filepath.Ext(info.Name()) != ".part" {
			return nil
		}

		slice := strings.Split(strings.Split(info.Name(), ".")[0], "-")
		if len(slice) != 3 || slice[0] != id {
			return nil
		}

		tag, _ := strconv.Atoi(slice[1])
		if uint32(tag) != m.Tag {
			return nil
		}

		seq, _ := strconv.Atoi(slice[2])
		if seq < 1 || seq > int(m.Sum) {
			return nil
		}
		return walkFn(path, uint16(seq))
	})
''', '''	dir := m.rootDir()
	infos, err := ioutil.ReadDir(dir)
	if err != nil {
		return err
	}
	prefix := fmt.Sprintf("%d-%d-", m.MsgID, m.Tag)
	for _, info := range infos {
		name := info.Name()
		if info.IsDir() || !strings.HasPrefix(name, prefix) || !strings.HasSuffix(name, ".part") {
			continue
		}
		seq, err := strconv.ParseUint(name[len(prefix):len(name)-len(".part")], 10, 16)
		if err != nil || seq == 0 || seq > uint64(m.Sum) {
			continue
		}
		if err := walkFn(filepath.Join(dir, name), uint16(seq)); err != nil {
			return err
		}
	}
	return nil
''')], 'C24 C25 C33')

ref('codec2', [('protocol.go', '''	data := codec.bufferReceiving.Bytes()
	if data[0] != protocol.PrefixID {
		i := 0
		for ; i < len(data); i++ {
			if data[i] == protocol.PrefixID {
				break
			}
		}
		codec.bufferReceiving.Next(i)
''', '''	data := codec.bufferReceiving.Bytes()
	if !bytes.HasPrefix(data, []byte{protocol.PrefixID}) {
		if i := bytes.IndexByte(data, protocol.PrefixID); i < 0 {
			codec.bufferReceiving.Reset()
		} else {
			codec.bufferReceiving.Next(i)
		}
'''), ('protocol.go', '''	var message protocol.Message
	if err := message.Decode(data[:end+1], codec.privateKey); err != nil {
		codec.bufferReceiving.Next(end + 1)
		log.WithFields(log.Fields{
			"data":   fmt.Sprintf("0x%x", hex.EncodeToString(data[:end+1])),
			"reason": err,
		}).Error("[JT/T 808] failed to receive message")
		return protocol.Message{}, false, err
	}
	codec.bufferReceiving.Next(end + 1)
''', '''	frame := codec.bufferReceiving.Next(end + 1)
	var message protocol.Message
	err := message.Decode(frame, codec.privateKey)
	if err != nil {
		log.WithField("reason", err).Errorf("[JT/T 808] failed to receive message %x", frame)
		return protocol.Message{}, false, err
	}
'''), ('protocol.go', '''	message, ok, err := codec.readFromBuffer()
	if ok {
		return message, nil
	}
	if err != nil {
		return nil, err
	}

	var buffer [128]byte
	for {
		count, err := io.ReadAtLeast(codec.r, buffer[:], 1)
		if err != nil {
			return nil, err
		}
		codec.bufferReceiving.Write(buffer[:count])

		if codec.bufferReceiving.Len() == 0 {
			continue
		}
		if codec.bufferReceiving.Len() > 0xffff {
			return nil, errors.ErrBodyTooLong
		}

		message, ok, err := codec.readFromBuffer()
		if ok {
			return message, nil
		}
		if err != nil {
			return nil, err
		}
	}
''', '''	chunk := make([]byte, 128)
	for {
		message, ok, err := codec.readFromBuffer()
		switch {
		case err != nil:
			return nil, err
		case ok:
			return message, nil
		}

		n, err := io.ReadAtLeast(codec.r, chunk, 1)
		if err != nil {
			return nil, err
		}
		codec.bufferReceiving.Write(chunk[:n])
		if codec.bufferReceiving.Len() > 0xffff {
			return nil, errors.ErrBodyTooLong
		}
	}
''')], 'C05 C06 C21 C26 C29 C22')

ref('route', [('protocol/t808_0x8606.go', '''		if point.Attribute.HasTimeLimit() {
			timeTooLong, err := reader.ReadUint16()
			if err != nil {
				return 0, err
			}

			timeTooShort, err := reader.ReadUint16()
			if err != nil {
				return 0, err
			}

			point.TimeTooLong = &timeTooLong
			point.TimeTooShort = &timeTooShort
		}
''', '''		if point.Attribute.HasTimeLimit() {
			limits := make([]uint16, 2)
			for k := range limits {
				if limits[k], err = reader.ReadUint16(); err != nil {
					return 0, err
				}
			}
			point.TimeTooLong, point.TimeTooShort = &limits[0], &limits[1]
		}
''')], 'C12 C04 C31')

ref('lifecycle', [
 ('server.go', '''	server.mutex.Lock()
	if server.server != nil {
		server.mutex.Unlock()
		return errors.New("server already running")
	}

	address := fmt.Sprintf("0.0.0.0:%d", port)
	listen, err := net.Listen(network, address)
	if err != nil {
		server.mutex.Unlock()
		return err
	}

	p := Protocol{
		privateKey: server.privateKey,
	}
	running := link.NewServer(listen, &p, 24, server.handler)
	server.server = running
	server.mutex.Unlock()
	log.Infof("[JT/T 808] protocol server started on %s", address)
	return running.Serve()
}
''', '''	running, err := server.start(network, "0.0.0.0:"+strconv.Itoa(port))
	if err != nil {
		return err
	}
	return running.Serve()
}

func (server *Server) start(network, address string) (*link.Server, error) {
	server.mutex.Lock()
	defer server.mutex.Unlock()
	if server.server != nil {
		return nil, errors.New("server already running")
	}
	listener, err := net.Listen(network, address)
	if err != nil {
		return nil, err
	}
	server.server = link.NewServer(listen(listener), &Protocol{privateKey: server.privateKey}, 24, server.handler)
	log.WithFields(log.Fields{"address": address}).Info("[JT/T 808] protocol server started")
	return server.server, nil
}

func listen(l net.Listener) net.Listener { return l }

// 取出正在运行的服务
func (server *Server) take() (running *link.Server) {
	server.mutex.Lock()
	defer server.mutex.Unlock()
	running, server.server = server.server, nil
	return
}
'''),
 ('server.go', '''	server.mutex.Lock()
	running := server.server
	server.server = nil
	server.mutex.Unlock()
	if running != nil {
		running.Stop()
	}
''', '''	if running := server.take(); running != nil {
		running.Stop()
	}
'''),
 ('session.go', '''	// 流水号循环使用后，此前未应答的同号请求作废
	for idx, item := range session.requests {
		if item.serialNo == ctx.serialNo && item.msgID != ctx.msgID {
			session.requests[idx] = session.requests[len(session.requests)-1]
			session.requests = session.requests[:len(session.requests)-1]
			break
		}
	}

	for idx, item := range session.requests {
		if item.msgID == ctx.msgID {
			session.requests[idx] = ctx
			return
		}
	}
	session.requests = append(session.requests, ctx)
''', '''	requests := make([]requestContext, 0, len(session.requests)+1)
	for _, item := range session.requests {
		if item.serialNo != ctx.serialNo && item.msgID != ctx.msgID {
			requests = append(requests, item)
		}
	}
	session.requests = append(requests, ctx)
'''),
], 'C19 C22 C30 C33')

ref('store', [
 ('multipart.go', '''	temp := name + ".tmp"
	err := ioutil.WriteFile(temp, data, 0644)
	if err == nil {
		err = os.Rename(temp, name)
	}
	if err != nil {
		os.Remove(temp)
	}
	return err
''', '''	temp, err := ioutil.TempFile(dir, "writing")
	if err != nil {
		return err
	}
	_, err = temp.Write(data)
	if err == nil {
		err = temp.Sync()
	}
	if e := temp.Close(); err == nil {
		err = e
	}
	if err == nil {
		err = os.Rename(temp.Name(), name)
	}
	if err != nil {
		os.Remove(temp.Name())
	}
	return err
'''),
 ('multipart.go', '''	w, err := os.OpenFile(full, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0644)
	if err != nil {
		return nil, err
	}
	defer w.Close()

	sort.Sort(inputs)
	for _, part := range inputs {
		if _, err = io.Copy(w, part.f); err != nil {
			return nil, err
		}
	}
	return os.OpenFile(full, os.O_RDONLY, 0644)
''', '''	w, err := os.Create(full + ".new")
	if err != nil {
		return nil, err
	}
	defer w.Close()

	sort.Slice(inputs, func(i, j int) bool { return inputs[i].seq < inputs[j].seq })
	readers := make([]io.Reader, 0, len(inputs))
	for _, part := range inputs {
		readers = append(readers, part.f)
	}
	if _, err = io.Copy(w, io.MultiReader(readers...)); err != nil {
		return nil, err
	}
	if err = os.Rename(full+".new", full); err != nil {
		return nil, err
	}
	return os.Open(full)
'''),
], 'C24 C25 C33 C34')
