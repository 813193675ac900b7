package simrt

import (
	"unsafe"
)

// Channels keep the semantics of the Go runtime: FIFO wait queues, direct
// hand-off, panics on send to / close of a closed channel. The real channel
// value only serves as identity and capacity.

type waiter struct {
	t    *Task
	val  unsafe.Pointer // *T
	ok   bool
	done bool
	sel  *selState
	idx  int
	vc   vclock
	pan  bool // woken by close while sending
}

type selState struct {
	fired bool
	w     *waiter
}

type chanState struct {
	cap    int
	buf    []unsafe.Pointer
	recvq  []*waiter
	sendq  []*waiter
	closed bool
	vc     vclock
}

func chanPtr[T any](ch chan T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }

func (s *Sim) chanOf(p unsafe.Pointer, c int) *chanState {
	st := s.chans[p]
	if st == nil {
		st = &chanState{cap: c}
		s.chans[p] = st
	}
	return st
}

func (s *Sim) chAcq(st *chanState) { s.cur.vc.join(st.vc) }
func (s *Sim) chRel(st *chanState) {
	st.vc.join(s.cur.vc)
	s.cur.vc.tick(s.cur.ID)
}

func pop(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if w.t.Killed {
			continue
		}
		if w.sel != nil {
			if w.sel.fired {
				continue
			}
			w.sel.fired = true
			w.sel.w = w
		}
		return w
	}
	return nil
}

func hasLive(q []*waiter) bool {
	for _, w := range q {
		if !w.t.Killed && (w.sel == nil || !w.sel.fired) {
			return true
		}
	}
	return false
}

func (st *chanState) canSend() bool { return st.closed || hasLive(st.recvq) || len(st.buf) < st.cap }
func (st *chanState) canRecv() bool { return len(st.buf) > 0 || hasLive(st.sendq) || st.closed }

// trySend performs a send that canSend.
func (s *Sim) doSend(st *chanState, v unsafe.Pointer) {
	if st.closed {
		panic("send on closed channel")
	}
	s.chAcq(st)
	s.chRel(st)
	if w := pop(&st.recvq); w != nil {
		w.val, w.ok, w.done = v, true, true
		w.t.vc.join(st.vc)
		return
	}
	st.buf = append(st.buf, v)
}

func (s *Sim) doRecv(st *chanState) (unsafe.Pointer, bool) {
	s.chAcq(st)
	if len(st.buf) > 0 {
		v := st.buf[0]
		st.buf = st.buf[1:]
		if w := pop(&st.sendq); w != nil {
			st.buf = append(st.buf, w.val)
			st.vc.join(w.vc)
			w.done = true
			w.t.vc.join(s.cur.vc)
		}
		s.chRel(st)
		return v, true
	}
	if w := pop(&st.sendq); w != nil {
		w.done = true
		s.cur.vc.join(w.vc)
		w.t.vc.join(s.cur.vc)
		s.chRel(st)
		return w.val, true
	}
	if st.closed {
		return nil, false
	}
	panic("simrt: doRecv on a channel that is not ready")
}

func mustSim() *Sim {
	if S == nil || S.cur == nil {
		panic("simrt: channel operation outside of a simulation")
	}
	S.cur.touch = true
	return S
}

func Send[T any](ch chan<- T) func(T) {
	return func(v T) {
		s := mustSim()
		s.syncPoint()
		c := *(*chan T)(unsafe.Pointer(&ch))
		if c == nil {
			s.Block("send on nil channel", func() bool { return false })
		}
		st := s.chanOf(chanPtr(c), cap(c))
		pv := unsafe.Pointer(&v)
		if st.canSend() {
			s.doSend(st, pv)
			return
		}
		w := &waiter{t: s.cur, val: pv, vc: s.cur.vc.clone()}
		st.sendq = append(st.sendq, w)
		s.Block("channel send", func() bool { return w.done })
		if w.pan {
			panic("send on closed channel")
		}
	}
}

func Recv2[T any](ch <-chan T) (T, bool) {
	s := mustSim()
	s.syncPoint()
	c := *(*chan T)(unsafe.Pointer(&ch))
	var zero T
	if c == nil {
		s.Block("receive from nil channel", func() bool { return false })
	}
	st := s.chanOf(chanPtr(c), cap(c))
	if st.canRecv() {
		v, ok := s.doRecv(st)
		if !ok {
			return zero, false
		}
		return *(*T)(v), true
	}
	w := &waiter{t: s.cur}
	st.recvq = append(st.recvq, w)
	s.Block("channel receive", func() bool { return w.done })
	if !w.ok {
		return zero, false
	}
	return *(*T)(w.val), true
}

func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

func Close[T any](ch chan<- T) {
	s := mustSim()
	s.syncPoint()
	c := *(*chan T)(unsafe.Pointer(&ch))
	if c == nil {
		panic("close of nil channel")
	}
	st := s.chanOf(chanPtr(c), cap(c))
	if st.closed {
		panic("close of closed channel")
	}
	st.closed = true
	s.chAcq(st)
	s.chRel(st)
	for {
		w := pop(&st.recvq)
		if w == nil {
			break
		}
		w.ok, w.done = false, true
		w.t.vc.join(st.vc)
	}
	for {
		w := pop(&st.sendq)
		if w == nil {
			break
		}
		w.pan, w.done = true, true
	}
}

func ChanLen[T any](ch <-chan T) int {
	s := mustSim()
	s.syncPoint()
	c := *(*chan T)(unsafe.Pointer(&ch))
	if c == nil {
		return 0
	}
	return len(s.chanOf(chanPtr(c), cap(c)).buf)
}

// ---- select

type selCase interface {
	state(s *Sim) *chanState
	ready(s *Sim) bool
	fire(s *Sim)
	enqueue(s *Sim, sel *selState, idx int)
	complete(w *waiter)
}

type RecvCase[T any] struct {
	ch  chan T
	Val T
	Ok  bool
}

type SendCase[T any] struct {
	ch chan T
	v  T
}

func CaseRecv[T any](ch <-chan T) *RecvCase[T] {
	return &RecvCase[T]{ch: *(*chan T)(unsafe.Pointer(&ch))}
}

func CaseSend[T any](ch chan<- T) func(T) *SendCase[T] {
	return func(v T) *SendCase[T] { return &SendCase[T]{*(*chan T)(unsafe.Pointer(&ch)), v} }
}

func (c *RecvCase[T]) state(s *Sim) *chanState {
	if c.ch == nil {
		return nil
	}
	return s.chanOf(chanPtr(c.ch), cap(c.ch))
}
func (c *RecvCase[T]) ready(s *Sim) bool { st := c.state(s); return st != nil && st.canRecv() }
func (c *RecvCase[T]) fire(s *Sim) {
	v, ok := s.doRecv(c.state(s))
	c.Ok = ok
	if ok {
		c.Val = *(*T)(v)
	}
}
func (c *RecvCase[T]) enqueue(s *Sim, sel *selState, idx int) {
	if st := c.state(s); st != nil {
		st.recvq = append(st.recvq, &waiter{t: s.cur, sel: sel, idx: idx})
	}
}
func (c *RecvCase[T]) complete(w *waiter) {
	c.Ok = w.ok
	if w.ok {
		c.Val = *(*T)(w.val)
	}
}

func (c *SendCase[T]) state(s *Sim) *chanState {
	if c.ch == nil {
		return nil
	}
	return s.chanOf(chanPtr(c.ch), cap(c.ch))
}
func (c *SendCase[T]) ready(s *Sim) bool { st := c.state(s); return st != nil && st.canSend() }
func (c *SendCase[T]) fire(s *Sim)       { s.doSend(c.state(s), unsafe.Pointer(&c.v)) }
func (c *SendCase[T]) enqueue(s *Sim, sel *selState, idx int) {
	if st := c.state(s); st != nil {
		st.sendq = append(st.sendq, &waiter{t: s.cur, sel: sel, idx: idx, val: unsafe.Pointer(&c.v), vc: s.cur.vc.clone()})
	}
}
func (c *SendCase[T]) complete(w *waiter) {
	if w.pan {
		panic("send on closed channel")
	}
}

// Select returns the index of the case that fired, -1 for default.
func Select(hasDefault bool, cases ...selCase) int {
	s := mustSim()
	s.syncPoint()
	var rdy []int
	for i, c := range cases {
		if c.ready(s) {
			rdy = append(rdy, i)
		}
	}
	if len(rdy) > 0 {
		i := rdy[s.Src.Intn(len(rdy))]
		cases[i].fire(s)
		return i
	}
	if hasDefault {
		return -1
	}
	sel := &selState{}
	for i, c := range cases {
		c.enqueue(s, sel, i)
	}
	s.Block("select", func() bool { return sel.fired })
	cases[sel.w.idx].complete(sel.w)
	return sel.w.idx
}

// RangeChan and RangeMap start rewritten range loops.
func RangeChan[T any](ch <-chan T) (c <-chan T, ok bool, v T) { return ch, false, v }

func RangeMap[M ~map[K]V, K comparable, V any](m M, site int32) (mm M, ks []K, i int, ok bool, k K, v V) {
	return m, MapKeys(m, site), 0, false, k, v
}
