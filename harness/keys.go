package main

import (
	"fmt"

	"github.com/timtadh/data-structures/types"
	"verif.local/sim/simrt"
)

// Key is a caller-supplied key type. It is a pointer type so that two equal
// keys are different objects; its methods are scheduling points and can be
// made to panic in a chosen task (fault injection through the caller's code).
type Key struct {
	v int // identity and order
	h int // hash code
}

type injectedPanic struct{ n int }

var (
	panicIn  map[int]int // task id -> comparisons until the injected panic
	keyCalls uint64
)

func resetKeys() { panicIn = map[int]int{}; keyCalls = 0 }

func keyPoint() {
	s := simrt.S
	if s == nil || s.Cur() == nil {
		return
	}
	keyCalls++
	simrt.Yield()
	if len(panicIn) > 0 {
		id := s.Cur().ID
		if n, ok := panicIn[id]; ok {
			if n == 0 {
				delete(panicIn, id)
				s.Logf("FAULT panic in key comparison")
				panic(injectedPanic{id})
			}
			panicIn[id] = n - 1
		}
	}
}

func (k *Key) Equals(o types.Equatable) bool {
	keyPoint()
	x, ok := o.(*Key)
	return ok && x.v == k.v
}

func (k *Key) Less(o types.Sortable) bool {
	keyPoint()
	x, ok := o.(*Key)
	return ok && k.v < x.v
}

func (k *Key) Hash() int {
	keyPoint()
	return k.h
}

func (k *Key) String() string { return fmt.Sprintf("k%d", k.v) }

// guarded runs f with a comparison panic armed after n comparisons and
// reports whether the injected panic came out of f.
func guarded(h *H, n int, f func()) (fired bool) {
	id := h.S.Cur().ID
	panicIn[id] = n
	defer func() {
		delete(panicIn, id)
		if r := recover(); r != nil {
			if ip, ok := r.(injectedPanic); ok && ip.n == id {
				h.Inject("comparison-panic")
				fired = true
				return
			}
			panic(r)
		}
	}()
	f()
	return false
}
