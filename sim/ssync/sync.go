// Package ssync stands in for package sync inside the simulation.
package ssync

import (
	"unsafe"

	"verif.local/sim/simrt"
)

type Locker interface {
	Lock()
	Unlock()
}

type Mutex struct {
	locked bool
	_      byte
}

func (m *Mutex) Lock() {
	s := simrt.SyncPoint()
	if s == nil || s.Cur() == nil {
		m.locked = true
		return
	}
	if m.locked {
		s.Block("mutex", func() bool { return !m.locked })
		for m.locked {
			s.Block("mutex", func() bool { return !m.locked })
		}
	}
	m.locked = true
	s.Hold(1)
	s.Acquire(unsafe.Pointer(m))
}

func (m *Mutex) TryLock() bool {
	s := simrt.SyncPoint()
	if m.locked {
		return false
	}
	m.locked = true
	if s != nil {
		s.Hold(1)
		s.Acquire(unsafe.Pointer(m))
	}
	return true
}

func (m *Mutex) Unlock() {
	s := simrt.SyncPoint()
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	if s != nil {
		s.Hold(-1)
		s.Release(unsafe.Pointer(m))
	}
	m.locked = false
	simrt.SyncPoint()
}

// RWMutex follows the runtime's rules: a waiting writer blocks new readers;
// readers blocked by a writer are all admitted when it unlocks.
type RWMutex struct {
	wHeld   bool // writer mutex
	pending bool // a writer waits for or holds the lock: new readers block
	writing bool
	readers int // active readers
	blocked int // readers waiting for the pending writer
	gen     int // generation: blocked readers of an older generation are admitted
	wvc     byte
	rvc     byte
}

func (m *RWMutex) RLock() {
	s := simrt.SyncPoint()
	if s == nil || s.Cur() == nil {
		m.readers++
		return
	}
	if m.pending {
		g := m.gen
		m.blocked++
		s.Block("rwmutex read lock", func() bool { return m.gen != g })
		// counted as reader by Unlock
	} else {
		m.readers++
	}
	s.Hold(1)
	s.Acquire(unsafe.Pointer(&m.wvc))
}

func (m *RWMutex) TryRLock() bool {
	s := simrt.SyncPoint()
	if m.pending {
		return false
	}
	m.readers++
	if s != nil {
		s.Hold(1)
		s.Acquire(unsafe.Pointer(&m.wvc))
	}
	return true
}

func (m *RWMutex) RUnlock() {
	s := simrt.SyncPoint()
	if m.readers <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	if s != nil {
		s.Hold(-1)
		s.Release(unsafe.Pointer(&m.rvc))
	}
	m.readers--
	simrt.SyncPoint()
}

func (m *RWMutex) Lock() {
	s := simrt.SyncPoint()
	if s == nil || s.Cur() == nil {
		m.wHeld, m.pending, m.writing = true, true, true
		return
	}
	for m.wHeld {
		s.Block("rwmutex write lock", func() bool { return !m.wHeld })
	}
	m.wHeld = true
	s.Hold(1)
	m.pending = true
	for m.readers > 0 {
		s.Block("rwmutex readers", func() bool { return m.readers == 0 })
	}
	m.writing = true
	s.Acquire(unsafe.Pointer(&m.wvc))
	s.Acquire(unsafe.Pointer(&m.rvc))
}

func (m *RWMutex) TryLock() bool {
	s := simrt.SyncPoint()
	if m.wHeld || m.readers > 0 || m.pending {
		return false
	}
	m.wHeld, m.pending, m.writing = true, true, true
	if s != nil {
		s.Hold(1)
		s.Acquire(unsafe.Pointer(&m.wvc))
		s.Acquire(unsafe.Pointer(&m.rvc))
	}
	return true
}

func (m *RWMutex) Unlock() {
	s := simrt.SyncPoint()
	if !m.writing {
		panic("sync: Unlock of unlocked RWMutex")
	}
	if s != nil {
		s.Hold(-1)
		s.Release(unsafe.Pointer(&m.wvc))
	}
	m.writing = false
	m.pending = false
	m.readers += m.blocked
	m.blocked = 0
	m.gen++
	m.wHeld = false
	simrt.SyncPoint()
}

type rlocker RWMutex

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }
func (r *rlocker) Lock()           { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock()         { (*RWMutex)(r).RUnlock() }

type WaitGroup struct {
	n  int
	vc byte
}

func (w *WaitGroup) Add(d int) {
	s := simrt.SyncPoint()
	if s != nil && d < 0 {
		s.Release(unsafe.Pointer(&w.vc))
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	s := simrt.SyncPoint()
	if s == nil {
		return
	}
	if w.n != 0 {
		// a waiter is released once the counter reaches zero, even if it is
		// raised again before the waiter runs
		s.Block("waitgroup", func() bool { return w.n == 0 })
	}
	s.Acquire(unsafe.Pointer(&w.vc))
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	simrt.Go(func() {
		defer w.Done()
		f()
	})
}

type Cond struct {
	L       Locker
	waiters []*condWaiter
	vc      byte
}

type condWaiter struct{ woken bool }

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	s := simrt.SyncPoint()
	w := &condWaiter{}
	c.waiters = append(c.waiters, w)
	c.L.Unlock()
	s.WaitUntil("cond", func() bool { return w.woken })
	c.L.Lock()
}

func (c *Cond) Signal() {
	simrt.SyncPoint()
	if len(c.waiters) > 0 {
		c.waiters[0].woken = true
		c.waiters = c.waiters[1:]
	}
	simrt.SyncPoint()
}

func (c *Cond) Broadcast() {
	simrt.SyncPoint()
	for _, w := range c.waiters {
		w.woken = true
	}
	c.waiters = nil
	simrt.SyncPoint()
}

type Once struct {
	m    Mutex
	done bool
	vc   byte
}

func (o *Once) Do(f func()) {
	s := simrt.SyncPoint()
	if o.done {
		if s != nil {
			s.Acquire(unsafe.Pointer(&o.vc))
		}
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() {
			o.done = true
			if s != nil {
				s.Release(unsafe.Pointer(&o.vc))
			}
		}()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var a T1
	var b T2
	return func() (T1, T2) {
		o.Do(func() { a, b = f() })
		return a, b
	}
}

type Map struct {
	m    map[any]any
	keys []any
	vc   byte
}

func (m *Map) sync() {
	if s := simrt.SyncPoint(); s != nil {
		s.Acquire(unsafe.Pointer(&m.vc))
		s.Release(unsafe.Pointer(&m.vc))
	}
	if m.m == nil {
		m.m = map[any]any{}
	}
}
func (m *Map) Load(k any) (any, bool) { m.sync(); v, ok := m.m[k]; return v, ok }
func (m *Map) Store(k, v any) {
	m.sync()
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.sync()
	if x, ok := m.m[k]; ok {
		return x, true
	}
	m.keys = append(m.keys, k)
	m.m[k] = v
	return v, false
}
func (m *Map) del(k any) {
	delete(m.m, k)
	for i, x := range m.keys {
		if x == k {
			m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
			break
		}
	}
}
func (m *Map) Delete(k any) { m.sync(); m.del(k) }
func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.sync()
	v, ok := m.m[k]
	m.del(k)
	return v, ok
}
func (m *Map) Swap(k, v any) (any, bool) {
	m.sync()
	old, ok := m.m[k]
	if !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
	return old, ok
}
func (m *Map) CompareAndSwap(k, o, n any) bool {
	m.sync()
	if v, ok := m.m[k]; ok && v == o {
		m.m[k] = n
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, o any) bool {
	m.sync()
	if v, ok := m.m[k]; ok && v == o {
		m.del(k)
		return true
	}
	return false
}
func (m *Map) Clear() { m.sync(); m.m, m.keys = map[any]any{}, nil }
func (m *Map) Range(f func(k, v any) bool) {
	m.sync()
	for _, k := range append([]any(nil), m.keys...) {
		if v, ok := m.m[k]; ok {
			if !f(k, v) {
				return
			}
		}
	}
}

// Pool may drop or hand out any item, as the real one may.
type Pool struct {
	New   func() any
	items []any
	vc    byte
}

func (p *Pool) Get() any {
	s := simrt.SyncPoint()
	if s != nil {
		s.Acquire(unsafe.Pointer(&p.vc))
	}
	if len(p.items) > 0 && (s == nil || s.Cur() == nil || !s.Src.OneIn(8)) {
		i := len(p.items) - 1
		x := p.items[i]
		p.items = p.items[:i]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	if s := simrt.SyncPoint(); s != nil {
		s.Release(unsafe.Pointer(&p.vc))
	}
	if x != nil {
		p.items = append(p.items, x)
	}
}
