package simrt

import (
	"container/heap"
	"fmt"
	"sort"
)

type timerEv struct {
	at  int64
	seq uint64
	f   func()
	off bool
}

type timerHeap []*timerEv

func (h timerHeap) Len() int { return len(h) }
func (h timerHeap) Less(i, j int) bool {
	return h[i].at < h[j].at || (h[i].at == h[j].at && h[i].seq < h[j].seq)
}
func (h timerHeap) Swap(i, j int) { h[i], h[j] = h[j], h[i] }
func (h *timerHeap) Push(x any)   { *h = append(*h, x.(*timerEv)) }
func (h *timerHeap) Pop() any {
	o := *h
	x := o[len(o)-1]
	*h = o[:len(o)-1]
	return x
}

func (s *Sim) Now() int64 { return s.now }

// At schedules f (run on the scheduler, must not block) after d nanoseconds.
func (s *Sim) At(d int64, f func()) (cancel func() bool) {
	if d < 0 {
		d = 0
	}
	s.tseq++
	e := &timerEv{at: s.now + d, seq: s.tseq, f: f}
	heap.Push(&s.timers, e)
	return func() bool {
		was := !e.off
		e.off = true
		return was
	}
}

// advanceTime jumps the clock to the next event when nothing is runnable.
func (s *Sim) advanceTime() bool {
	for len(s.timers) > 0 {
		e := heap.Pop(&s.timers).(*timerEv)
		if e.off {
			continue
		}
		e.off = true
		if e.at > s.now {
			s.now = e.at
		}
		e.f()
		return true
	}
	return false
}

func (s *Sim) Sleep(d int64) {
	if s.cur == nil {
		return
	}
	fired := false
	s.At(d, func() { fired = true })
	s.Block("sleep", func() bool { return fired })
}

// MapKeys returns the keys of a map in a deterministic order: sorted by
// rendering, then rotated by a recorded choice (Go leaves the order open).
func MapKeys[M ~map[K]V, K comparable, V any](m M, site int32) []K {
	ks := make([]K, 0, len(m))
	names := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
		names = append(names, fmt.Sprintf("%T/%v", k, k))
	}
	idx := make([]int, len(ks))
	for i := range idx {
		idx[i] = i
	}
	sort.SliceStable(idx, func(a, b int) bool { return names[idx[a]] < names[idx[b]] })
	out := make([]K, len(ks))
	off := 0
	if S != nil && S.cur != nil {
		MapR(m, site)
		if len(ks) > 1 {
			off = S.Src.Intn(len(ks))
		}
	}
	for i := range idx {
		out[i] = ks[idx[(i+off)%len(idx)]]
	}
	return out
}
