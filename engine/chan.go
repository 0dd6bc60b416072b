package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Channels. Undo logging covers the state reachable from globals only when a channel is
// created during a path, so channel mutations are not logged: channels made by package
// initialisers are not used by the code under test.

func (m *Machine) elemZero(ch *ChanV, t types.Type) Value {
	return m.zero(t.Underlying().(*types.Chan).Elem())
}

func (m *Machine) block(th *Thread) {
	th.blocked = true
}

func (m *Machine) recv(th *Thread, f *Frame, ci *cinstr, x Value, commaOk bool) {
	ch, ok := x.(*ChanV)
	if !ok {
		unsup("receive from %T", x)
	}
	dst := ci.dst
	set := func(v Value, ok bool) {
		if commaOk {
			f.regs[dst] = Tuple{v, m.tt.Bool(ok)}
		} else {
			f.regs[dst] = v
		}
	}
	if ch == nil {
		m.block(th)
		return
	}
	in := ci.in.(*ssa.UnOp)
	if v, ok, ready := m.tryRecv(ch, in.X.Type()); ready {
		set(v, ok)
		return
	}
	done := false
	w := &waiter{th: th, done: &done}
	ch.recvq = append(ch.recvq, w)
	zt := in.X.Type()
	th.wake = func() {
		v := w.val
		if !w.ok {
			v = m.elemZero(ch, zt)
		}
		set(v, w.ok)
	}
	m.block(th)
}

func (m *Machine) tryRecv(ch *ChanV, t types.Type) (Value, bool, bool) {
	if len(ch.buf) > 0 {
		v := ch.buf[0]
		ch.buf = ch.buf[1:]
		// a blocked sender can now put its value
		for len(ch.sendq) > 0 {
			w := ch.sendq[0]
			ch.sendq = ch.sendq[1:]
			if *w.done {
				continue
			}
			*w.done = true
			w.ok = true
			ch.buf = append(ch.buf[:len(ch.buf):len(ch.buf)], w.val)
			m.wakeUp(w)
			break
		}
		return v, true, true
	}
	for len(ch.sendq) > 0 {
		w := ch.sendq[0]
		ch.sendq = ch.sendq[1:]
		if *w.done {
			continue
		}
		*w.done = true
		w.ok = true
		m.wakeUp(w)
		return w.val, true, true
	}
	if ch.closed {
		return m.elemZero(ch, t), false, true
	}
	return nil, false, false
}

func (m *Machine) trySend(ch *ChanV, v Value) bool {
	if ch.closed {
		panic(goPanic{Iface{m.errStrT, Str{s: "send on closed channel"}}, "send on closed channel"})
	}
	for len(ch.recvq) > 0 {
		w := ch.recvq[0]
		ch.recvq = ch.recvq[1:]
		if *w.done {
			continue
		}
		*w.done = true
		w.val, w.ok = copyVal(v), true
		m.wakeUp(w)
		return true
	}
	if len(ch.buf) < ch.cap {
		ch.buf = append(ch.buf[:len(ch.buf):len(ch.buf)], copyVal(v))
		return true
	}
	return false
}

func (m *Machine) wakeUp(w *waiter) {
	th := w.th
	th.blocked = false
	if w.sel {
		th.wakeIdx = w
	}
	if th.wake != nil {
		fn := th.wake
		th.wake = nil
		fn()
	}
}

func (m *Machine) send(th *Thread, f *Frame, x, v Value) {
	ch, ok := x.(*ChanV)
	if !ok {
		unsup("send to %T", x)
	}
	if ch == nil {
		m.block(th)
		return
	}
	if m.trySend(ch, v) {
		return
	}
	done := false
	w := &waiter{th: th, done: &done, val: copyVal(v)}
	ch.sendq = append(ch.sendq, w)
	th.wake = nil
	m.block(th)
}

func (m *Machine) closeChan(ch *ChanV) {
	if ch == nil {
		panic(goPanic{Iface{m.errStrT, Str{s: "close of nil channel"}}, "close of nil channel"})
	}
	if ch.closed {
		panic(goPanic{Iface{m.errStrT, Str{s: "close of closed channel"}}, "close of closed channel"})
	}
	ch.closed = true
	q := ch.recvq
	ch.recvq = nil
	for _, w := range q {
		if !*w.done {
			*w.done = true
			w.ok = false
			m.wakeUp(w)
		}
	}
	if len(ch.sendq) > 0 {
		unsup("close of a channel with blocked senders")
	}
}

func (m *Machine) sel(th *Thread, f *Frame, ci *cinstr, in *ssa.Select) {
	// operands: for each state Chan, Send (nil included)
	type st struct {
		ch  *ChanV
		val Value
		dir types.ChanDir
		typ types.Type
	}
	states := make([]st, len(in.States))
	k := 0
	for i, s := range in.States {
		c, ok := f.val(ci.ops[k]).(*ChanV)
		if !ok {
			unsup("select on %T", f.val(ci.ops[k]))
		}
		k++
		states[i] = st{ch: c, dir: s.Dir, typ: s.Chan.Type()}
		if s.Dir == types.SendOnly {
			states[i].val = f.val(ci.ops[k])
		}
		k++
	}
	nrecv := 0
	for _, s := range in.States {
		if s.Dir == types.RecvOnly {
			nrecv++
		}
	}
	result := func(idx int, v Value, ok bool) {
		t := make(Tuple, 2+nrecv)
		t[0], t[1] = m.int(idx), m.tt.Bool(ok)
		r := 2
		for i, s := range states {
			if s.dir == types.RecvOnly {
				if i == idx && ok {
					t[r] = v
				} else {
					t[r] = m.elemZero(s.ch, s.typ)
				}
				r++
			}
		}
		f.regs[ci.dst] = t
	}
	for i, s := range states {
		if s.ch == nil {
			continue
		}
		if s.dir == types.SendOnly {
			if m.trySend(s.ch, s.val) {
				result(i, nil, false)
				return
			}
		} else if v, ok, ready := m.tryRecv(s.ch, s.typ); ready {
			result(i, v, ok)
			return
		}
	}
	if !in.Blocking {
		result(-1, nil, false)
		return
	}
	done := false
	for i, s := range states {
		if s.ch == nil {
			continue
		}
		w := &waiter{th: th, done: &done, sel: true, idx: i}
		if s.dir == types.SendOnly {
			w.val = copyVal(s.val)
			s.ch.sendq = append(s.ch.sendq, w)
		} else {
			s.ch.recvq = append(s.ch.recvq, w)
		}
	}
	th.wake = func() {
		w := th.wakeIdx
		if states[w.idx].dir == types.SendOnly {
			result(w.idx, nil, false)
		} else {
			result(w.idx, w.val, w.ok)
		}
	}
	m.block(th)
}
