package simrt

import (
	"fmt"
	"reflect"
	"unsafe"
)

// vclock is a vector clock indexed by task id.
type vclock []uint32

func (v *vclock) tick(i int) {
	for len(*v) <= i {
		*v = append(*v, 0)
	}
	(*v)[i]++
}

func (v vclock) get(i int) uint32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}

func (v *vclock) join(o vclock) {
	for len(*v) < len(o) {
		*v = append(*v, 0)
	}
	for i, x := range o {
		if x > (*v)[i] {
			(*v)[i] = x
		}
	}
}

func (v vclock) clone() vclock { return append(vclock(nil), v...) }

type epoch struct {
	task  int32
	clock uint32
	site  int32
}

// cell is the shadow state of one memory location (FastTrack style).
type cell struct {
	w    epoch
	r    epoch
	rs   []epoch // more than one concurrent reader
	wset bool
	rset bool
}

// SiteName is filled in by the generated site table.
var SiteName = func(id int32) string { return fmt.Sprintf("site %d", id) }

func (s *Sim) access(p unsafe.Pointer, site int32, write bool) {
	s.Stats.MemAcc++
	t := s.cur
	c := s.shadow[p]
	if c == nil {
		c = &cell{}
		s.shadow[p] = c
	}
	me := epoch{int32(t.ID), t.vc.get(t.ID), site}
	if c.wset && int(c.w.task) != t.ID && c.w.clock > t.vc.get(int(c.w.task)) {
		s.race(c.w, true, me, write)
	}
	if write {
		if c.rset {
			if len(c.rs) > 0 {
				for _, r := range c.rs {
					if int(r.task) != t.ID && r.clock > t.vc.get(int(r.task)) {
						s.race(r, false, me, true)
					}
				}
			} else if int(c.r.task) != t.ID && c.r.clock > t.vc.get(int(c.r.task)) {
				s.race(c.r, false, me, true)
			}
		}
		c.w, c.wset = me, true
		c.rset = false
		c.rs = c.rs[:0]
		return
	}
	if !c.rset {
		c.r, c.rset = me, true
		return
	}
	if len(c.rs) == 0 {
		if c.r.task == me.task || c.r.clock <= t.vc.get(int(c.r.task)) {
			c.r = me
			return
		}
		c.rs = append(c.rs, c.r, me)
		return
	}
	for i := range c.rs {
		if c.rs[i].task == me.task {
			c.rs[i] = me
			return
		}
	}
	c.rs = append(c.rs, me)
}

func rw(w bool) string {
	if w {
		return "write"
	}
	return "read"
}

func (s *Sim) race(a epoch, aw bool, b epoch, bw bool) {
	s.Fail("data-race", "unsynchronised %s by t%d at %s and %s by t%d at %s", rw(aw), a.task, SiteName(a.site), rw(bw), b.task, SiteName(b.site))
}

// R records a read of *p and is a preemption point.
func R[T any](p *T, site int32) *T {
	if s := S; s != nil && s.cur != nil {
		s.mem(unsafe.Pointer(p), unsafe.Sizeof(*new(T)), site, false)
	}
	return p
}

// W records a write of *p and is a preemption point before the write.
func W[T any](p *T, site int32) *T {
	if s := S; s != nil && s.cur != nil {
		s.mem(unsafe.Pointer(p), unsafe.Sizeof(*new(T)), site, true)
	}
	return p
}

func (s *Sim) mem(p unsafe.Pointer, size uintptr, site int32, write bool) {
	s.point()
	if s.Cfg.Race && size != 0 && p != nil && len(s.tasks) > 1 && s.quiet == 0 {
		s.access(p, site, write)
	}
}

// MapR / MapW record accesses to a map as a whole.
func MapR[M ~map[K]V, K comparable, V any](m M, site int32) M {
	if s := S; s != nil && s.cur != nil {
		s.mem(*(*unsafe.Pointer)(unsafe.Pointer(&m)), 1, site, false)
	}
	return m
}

func MapW[M ~map[K]V, K comparable, V any](m M, site int32) M {
	if s := S; s != nil && s.cur != nil {
		s.mem(*(*unsafe.Pointer)(unsafe.Pointer(&m)), 1, site, true)
	}
	return m
}

// AppendTo replaces the append builtin: writes into spare capacity are writes
// to memory that may be shared.
func AppendTo[L ~[]E, E any](l L, site int32) func(...E) L {
	return func(es ...E) L {
		if s := S; s != nil && s.cur != nil {
			s.point()
			n := len(l)
			if n+len(es) <= cap(l) && len(es) > 0 && s.Cfg.Race && len(s.tasks) > 1 && s.quiet == 0 && unsafe.Sizeof(*new(E)) != 0 {
				full := l[:n+len(es)]
				for i := range es {
					s.access(unsafe.Pointer(&full[n+i]), site, true)
				}
			}
		}
		return append(l, es...)
	}
}

// Copy replaces the copy builtin for slices.
func Copy[D ~[]E, F ~[]E, E any](d D, f F, site int32) int {
	if s := S; s != nil && s.cur != nil {
		s.point()
		n := len(d)
		if len(f) < n {
			n = len(f)
		}
		if s.Cfg.Race && len(s.tasks) > 1 && s.quiet == 0 && unsafe.Sizeof(*new(E)) != 0 {
			for i := 0; i < n; i++ {
				s.access(unsafe.Pointer(&f[i]), site, false)
			}
			for i := 0; i < n; i++ {
				s.access(unsafe.Pointer(&d[i]), site, true)
			}
		}
	}
	return copy(d, f)
}

// RangeR records reads of all elements of a slice that is ranged over.
func RangeR[L ~[]E, E any](l L, site int32) L {
	if s := S; s != nil && s.cur != nil {
		s.point()
		if s.Cfg.Race && len(s.tasks) > 1 && s.quiet == 0 && unsafe.Sizeof(*new(E)) != 0 {
			for i := range l {
				s.access(unsafe.Pointer(&l[i]), site, false)
			}
		}
	}
	return l
}

// Outside records that a slice is handed to a function of the standard
// library, which reads or writes its first max elements (0: all of them, of
// which a prefix is recorded).
func Outside[L ~[]E, E any](l L, write bool, max int, site int32) L {
	if s := S; s != nil && s.cur != nil {
		s.point()
		if s.Cfg.Race && len(s.tasks) > 1 && s.quiet == 0 && unsafe.Sizeof(*new(E)) != 0 {
			if max == 0 {
				max = 8
			}
			for i := 0; i < len(l) && i < max; i++ {
				s.access(unsafe.Pointer(&l[i]), site, write)
			}
		}
	}
	return l
}

// Object is a preemption point before a method of an object of the standard
// library, with the effect it has on that object (1: reads, 2: writes).
func Object[T any](x T, effect int, site int32) T {
	if s := S; s != nil && s.cur != nil {
		s.point()
		if effect != 0 && s.Cfg.Race && len(s.tasks) > 1 && s.quiet == 0 {
			if v := reflect.ValueOf(x); v.Kind() == reflect.Pointer && !v.IsNil() {
				s.access(v.UnsafePointer(), site, effect == 2)
			}
		}
	}
	return x
}

// HarnessAccess lets the harness record its own accesses to memory it shares
// with the code under test (a caller's buffer, for instance).
func HarnessAccess[E any](l []E, write bool) {
	if s := S; s != nil && s.cur != nil && s.Cfg.Race && len(s.tasks) > 1 {
		for i := range l {
			s.access(unsafe.Pointer(&l[i]), -1, write)
		}
	}
}

// ---- happens-before edges of synchronisation objects

func (s *Sim) vcOf(p unsafe.Pointer) *vclock {
	v := s.syncVC[p]
	if v == nil {
		v = &vclock{}
		s.syncVC[p] = v
	}
	return v
}

// Acquire/Release: p identifies the synchronisation object.
func (s *Sim) Acquire(p unsafe.Pointer) {
	if s.cur != nil {
		s.cur.vc.join(*s.vcOf(p))
	}
}

func (s *Sim) Release(p unsafe.Pointer) {
	if s.cur != nil {
		s.vcOf(p).join(s.cur.vc)
		s.cur.vc.tick(s.cur.ID)
	}
}

// SyncPoint is a preemption point of a synchronisation operation.
func SyncPoint() *Sim {
	s := S
	if s == nil {
		return nil
	}
	s.syncPoint()
	return s
}
