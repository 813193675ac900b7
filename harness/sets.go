package main

import (
	"fmt"
	"math"
	"sort"
	"strings"

	"github.com/timtadh/data-structures/hashtable"
	"github.com/timtadh/data-structures/heap"
	"github.com/timtadh/data-structures/set"
	"github.com/timtadh/data-structures/tree/avl"
	"github.com/timtadh/data-structures/tree/bptree"
	"github.com/timtadh/data-structures/types"
)

// ---- C17: sets

type setOfInts struct {
	s       types.Set
	kind    string
	m       []int // sorted
	ordered bool
}

func (s *setOfInts) has(k int) bool {
	i := sort.SearchInts(s.m, k)
	return i < len(s.m) && s.m[i] == k
}

// setSubject: a few sets over one key space, all holding the same kind of items
type setSubject struct {
	h    *H
	ks   *keySpace
	sets []*setOfInts
}

func newMap(h *H) types.Map {
	switch h.N(5) {
	case 0:
		return hashtable.NewLinearHash()
	case 1:
		return hashtable.NewHashTable(Pick(h, 4, 1, 16))
	case 2:
		return avl.NewAvlTree()
	case 3:
		return avl.NewImmutableAvlTree()
	}
	return bptree.NewBpMap(Pick(h, 4, 3, 8))
}

func (s *setSubject) fresh(entries bool) *setOfInts {
	h := s.h
	switch h.N(3) {
	case 0:
		return &setOfInts{s: set.NewSortedSet(Pick(h, 4, 0, 1)), kind: "SortedSet", ordered: true}
	case 1:
		return &setOfInts{s: set.NewSetMap(newMap(h)), kind: "SetMap"}
	}
	if !entries {
		return &setOfInts{s: set.NewSortedSet(4), kind: "SortedSet", ordered: true}
	}
	if h.OneIn(3) {
		return &setOfInts{s: set.NewMapSet(set.NewSetMap(newMap(h))), kind: "MapSet/SetMap"}
	}
	return &setOfInts{s: set.NewMapSet(set.NewSortedSet(4)), kind: "MapSet", ordered: true}
}

func (s *setSubject) op(t *setOfInts, k int, add bool) {
	h := s.h
	i := sort.SearchInts(t.m, k)
	had := t.has(k)
	if add {
		var err error
		if h.OneIn(5) {
			n := h.N(3)
			xs := []types.Hashable{s.ks.mk(k)}
			for ; n > 0; n-- {
				k2 := h.N(s.ks.size)
				xs = append(xs, s.ks.mk(k2))
				if !t.has(k2) && k2 != k {
					t.m = insertInt(t.m, sort.SearchInts(t.m, k2), k2)
				}
			}
			i = sort.SearchInts(t.m, k)
			err = t.s.Extend(sliceIter(xs))
		} else {
			err = t.s.Add(s.ks.mk(k))
		}
		h.Check(err == nil, "add", "%s: Add(%d) fails: %v", t.kind, k, err)
		if !had {
			t.m = insertInt(t.m, i, k)
		}
	} else {
		err := t.s.Delete(s.ks.mk(k))
		h.Check((err == nil) == had, "delete", "%s: Delete(%d) gives %v", t.kind, k, err)
		if had {
			t.m = removeInt(t.m, i)
		}
	}
	if h.OneIn(3) {
		h.Check(t.s.Size() == len(t.m), "size", "%s: Size() = %d instead of %d", t.kind, t.s.Size(), len(t.m))
		h.Check(t.s.Has(s.ks.mk(k)) == t.has(k), "has", "%s: Has(%d) wrong", t.kind, k)
	}
}

func (s *setSubject) content(what string, x types.Set, want []int, ordered bool) {
	h := s.h
	var items []types.Hashable
	for it, next := x.Items()(); next != nil; it, next = next() {
		items = append(items, it)
		h.Check(len(items) <= len(want), "enumeration", "%s has more than %d items", what, len(want))
	}
	var got []int
	for _, it := range items {
		got = append(got, s.ks.id(it))
	}
	if !ordered {
		sort.Ints(got)
	}
	h.Check(len(got) == len(want), "enumeration", "%s has %d items instead of %d: %v, %v", what, len(got), len(want), got, want)
	for i := range want {
		h.Check(got[i] == want[i], "enumeration", "%s holds %d where %d is expected", what, got[i], want[i])
	}
	h.Check(x.Size() == len(want), "size", "%s: Size() = %d instead of %d", what, x.Size(), len(want))
}

func (s *setSubject) full() {
	for _, t := range s.sets {
		s.content(t.kind, t.s, t.m, t.ordered)
		for i := 0; i < 4; i++ {
			k := someKey(s.h, s.ks, t.m)
			s.h.Check(t.s.Has(s.ks.mk(k)) == t.has(k), "has", "%s: Has(%d) wrong", t.kind, k)
			s.item(t, k)
		}
	}
	for i := 0; i < 4; i++ {
		s.algebra()
	}
}

func (s *setSubject) algebra() {
	h := s.h
	a, b := s.sets[h.N(len(s.sets))], s.sets[h.N(len(s.sets))]
	switch h.N(9) {
	case 0:
		var want []int
		for k := 0; k <= s.ks.size; k++ {
			if a.has(k) || b.has(k) {
				want = append(want, k)
			}
		}
		r, err := a.s.Union(b.s)
		h.Check(err == nil, "union", "%s.Union(%s) fails: %v", a.kind, b.kind, err)
		s.content(a.kind+" union "+b.kind, r, want, false)
	case 1:
		var want []int
		for _, k := range a.m {
			if b.has(k) {
				want = append(want, k)
			}
		}
		r, err := a.s.Intersect(b.s)
		h.Check(err == nil, "intersect", "%s.Intersect(%s) fails: %v", a.kind, b.kind, err)
		s.content(a.kind+" intersect "+b.kind, r, want, false)
	case 2:
		var want []int
		for _, k := range a.m {
			if !b.has(k) {
				want = append(want, k)
			}
		}
		r, err := a.s.Subtract(b.s)
		h.Check(err == nil, "subtract", "%s.Subtract(%s) fails: %v", a.kind, b.kind, err)
		s.content(a.kind+" minus "+b.kind, r, want, false)
	case 3:
		x, ok1 := a.s.(*set.SortedSet)
		y, ok2 := b.s.(*set.SortedSet)
		if ok1 && ok2 {
			want := false
			for _, k := range a.m {
				want = want || b.has(k)
			}
			h.Check(x.Overlap(y) == want, "overlap", "Overlap = %v for %v and %v", x.Overlap(y), a.m, b.m)
			h.Check(x.Equals(y) == (cmpSeq(a.m, b.m) == 0), "equals", "Equals = %v for %v and %v", x.Equals(y), a.m, b.m)
		}
		if a.kind == "MapSet" && b.kind == "MapSet" {
			h.Check(a.s.Equals(b.s) == (cmpSeq(a.m, b.m) == 0), "equals", "MapSet.Equals = %v for %v and %v", a.s.Equals(b.s), a.m, b.m)
		}
		if ok1 && len(a.m) > 0 {
			r, err := x.Random()
			h.Check(err == nil && a.has(s.ks.id(r)), "random", "Random of %v = %v, %v", a.m, r, err)
		}
		if ok1 && len(a.m) == 0 {
			_, err := x.Random()
			h.Check(err != nil, "random", "Random of an empty set gives no error")
		}
	case 4:
		n := set.SortedFromSet(a.s)
		s.content("SortedFromSet("+a.kind+")", n, a.m, true)
	default:
		sub := true
		for _, k := range a.m {
			sub = sub && b.has(k)
		}
		sup := true
		for _, k := range b.m {
			sup = sup && a.has(k)
		}
		switch h.N(4) {
		case 0:
			h.Check(a.s.Subset(b.s) == sub, "subset", "%s.Subset(%s) wrong for %v and %v", a.kind, b.kind, a.m, b.m)
		case 1:
			h.Check(a.s.ProperSubset(b.s) == (sub && !sup), "subset", "%s.ProperSubset(%s) wrong for %v and %v", a.kind, b.kind, a.m, b.m)
		case 2:
			h.Check(a.s.Superset(b.s) == sup, "superset", "%s.Superset(%s) wrong for %v and %v", a.kind, b.kind, a.m, b.m)
		default:
			h.Check(a.s.ProperSuperset(b.s) == (sup && !sub), "superset", "%s.ProperSuperset(%s) wrong for %v and %v", a.kind, b.kind, a.m, b.m)
		}
	}
}

// item: the stored item that equals a given one (not provided by SetMap)
func (s *setSubject) item(t *setOfInts, k int) {
	if strings.HasSuffix(t.kind, "SetMap") {
		return
	}
	if _, ok := t.s.(*set.SetMap); ok {
		return
	}
	h := s.h
	x, err := t.s.Item(s.ks.mk(k))
	h.Check((err == nil) == t.has(k), "item", "%s: Item(%d) = %v, %v", t.kind, k, x, err)
	h.Check(err != nil || s.ks.id(x) == k, "item", "%s: Item(%d) gives another item", t.kind, k)
}

func (s *setSubject) read() {
	h := s.h
	t := s.sets[h.N(len(s.sets))]
	switch h.N(9) {
	case 0:
		k := someKey(h, s.ks, t.m)
		h.Check(t.s.Has(s.ks.mk(k)) == t.has(k), "has", "%s: Has(%d) wrong", t.kind, k)
	case 1:
		s.content(t.kind, t.s, t.m, t.ordered)
	case 2:
		n := h.N(5)
		for x, next := t.s.Items()(); next != nil && n > 0; x, next = next() {
			h.Check(t.has(s.ks.id(x)), "enumeration", "%s: Items gives %d", t.kind, s.ks.id(x))
			n--
		}
		h.Inject("iterator-abandoned")
	case 3:
		if c, ok := t.s.(fmt.Stringer); ok {
			text(h, c, s.ks, t.m)
		}
	case 4:
		s.item(t, someKey(h, s.ks, t.m))
	default:
		s.algebra()
	}
}

// keep uses the result of an operation as one more set (or instead of one)
func (s *setSubject) keep() {
	h := s.h
	a, b := s.sets[h.N(len(s.sets))], s.sets[h.N(len(s.sets))]
	r := &setOfInts{kind: "kept result"}
	var err error
	switch x, ok := a.s.(*set.SortedSet); h.N(4) {
	case 0:
		r.m = sortedInts(append(append([]int(nil), a.m...), b.m...), false)
		r.s, err = a.s.Union(b.s)
	case 1:
		for _, k := range a.m {
			if b.has(k) {
				r.m = append(r.m, k)
			}
		}
		r.s, err = a.s.Intersect(b.s)
	case 2:
		for _, k := range a.m {
			if !b.has(k) {
				r.m = append(r.m, k)
			}
		}
		r.s, err = a.s.Subtract(b.s)
	default:
		r.m = append([]int(nil), a.m...)
		if ok && h.OneIn(2) {
			r.s = x.Copy()
		} else {
			r.s = set.SortedFromSet(a.s)
		}
	}
	h.Check(err == nil, "algebra", "an operation on %s and %s fails: %v", a.kind, b.kind, err)
	_, r.ordered = r.s.(*set.SortedSet)
	if _, ok := r.s.(*set.SetMap); ok {
		r.kind = "kept SetMap"
	}
	if len(s.sets) < 4 {
		s.sets = append(s.sets, r)
	} else {
		s.sets[h.N(len(s.sets))] = r
	}
}

func (s *setSubject) write() {
	h := s.h
	if h.OneIn(6) {
		s.keep()
		return
	}
	t := s.sets[h.N(len(s.sets))]
	s.op(t, h.N(s.ks.size), h.N(2) == 0)
}

func setRun(h *H) {
	s := &setSubject{h: h}
	s.ks = pickKeys(h, Pick(h, 4, 1, 12, 40))
	n := large(h)
	if n > 0 {
		n = min(n, 800)
		s.ks = spreadKeys(h, n)
	}
	entries := h.OneIn(2)
	if entries {
		// items are map entries, as MapSet requires
		mk, id := s.ks.mk, s.ks.id
		s.ks.mk = func(v int) types.Hashable { return &types.MapEntry{Key: mk(v), Value: v} }
		s.ks.id = func(x types.Hashable) int { return id(x.(*types.MapEntry).Key) }
	}
	h.S.Quiet(func() {
		for n := h.Range(1, 3); n > 0; n-- {
			s.sets = append(s.sets, s.fresh(entries))
		}
		fill(h, n, func(k int, add bool) { s.op(s.sets[h.N(len(s.sets))], k, add) }, s.full)
		drive(h, histLen(h, 120), s.ks.size, func(k int, add bool) {
			if h.OneIn(20) {
				s.keep()
			}
			s.op(s.sets[h.N(len(s.sets))], k, add)
		}, s.full)
	})
	share(h, &subject{write: s.write, read: s.read, full: s.full})
}

// mapsetRun: MapSet used as a map
func mapsetRun(h *H) {
	t := set.NewMapSet(set.NewSortedSet(4))
	s := newMapSubject(h, t, true, 8, 3, 30, 100)
	s.extra = func() {
		k := h.N(s.ks.size + 1)
		want, had := s.model.get(k)
		x, err := t.Item(s.ks.mk(k))
		h.Check((err == nil) == had, "item", "Item(%d) = %v, %v", k, x, err)
		if had {
			e, ok := x.(*types.MapEntry)
			h.Check(ok && s.ks.id(e.Key) == k && eqVal(e.Value, want), "item", "Item(%d) = %v instead of (%d,%v)", k, x, k, mkVal(want))
		}
		var ks []int
		for _, e := range s.model.s {
			ks = append(ks, e.k)
		}
		text(h, t, s.ks, ks)
	}
	s.run(200)
}

// setmapRun: SetMap seen as the map it is made of
func setmapRun(h *H) {
	m := newMap(h)
	s := newMapSubject(h, set.NewSetMap(m), false, 8, 3, 30)
	s.keyItems = true
	s.run(100)
}

// ---- C18: heaps

type heapEntry struct{ prio, id int }

type heapSubject struct {
	h      *H
	ks     *keySpace
	q      heap.PriorityQueue
	u      *heap.UniquePQ
	hp     *heap.Heap
	min    bool
	m      []heapEntry
	next   int
	prios  int
	spread int
}

func (s *heapSubject) best() int {
	b := s.m[0].prio
	for _, e := range s.m {
		if s.min && e.prio < b || !s.min && e.prio > b {
			b = e.prio
		}
	}
	return b
}

func (s *heapSubject) idOf(x interface{}) int {
	if s.u != nil {
		return s.ks.id(x.(types.Hashable))
	}
	return someVal(x)
}

// top checks what Peek or Pop returned and gives its place in the model
func (s *heapSubject) top(what string, x interface{}) int {
	h := s.h
	if len(s.m) == 0 {
		h.Check(x == nil, "empty", "%s of an empty queue gives %v", what, x)
		return -1
	}
	h.Check(x != nil, "lost", "%s gives nil, %d items are queued", what, len(s.m))
	id := s.idOf(x)
	for i, e := range s.m {
		if e.id == id && e.prio == s.best() {
			return i
		}
	}
	for _, e := range s.m {
		h.Check(e.id != id, "order", "%s gives priority %d, but %d is queued", what, e.prio, s.best())
	}
	h.Fail("unknown", "%s gives %d, which is not queued", what, id)
	return -1
}

func (s *heapSubject) prio() int {
	if s.spread > 53 && s.h.OneIn(6) {
		return Pick(s.h, math.MaxInt, math.MinInt)
	}
	p := s.h.N(s.prios) - s.prios/2
	return p << uint(s.spread)
}

func (s *heapSubject) op(k int, add bool) {
	h := s.h
	if add {
		p := s.prio()
		if s.u != nil {
			if h.OneIn(2) {
				s.u.Add(p, s.ks.mk(k))
			} else {
				s.u.Push(p, s.ks.mk(k))
			}
			for _, e := range s.m {
				if e.id == k {
					return
				}
			}
			s.m = append(s.m, heapEntry{p, k})
		} else {
			id := s.next
			if len(s.m) > 0 && h.OneIn(8) {
				id = s.m[h.N(len(s.m))].id // the same item once more
			} else {
				s.next++
			}
			s.q.Push(p, mkSome(id))
			s.m = append(s.m, heapEntry{p, id})
		}
	} else {
		x := s.q.Peek()
		s.top("Peek", x)
		y := s.q.Pop()
		i := s.top("Pop", y)
		if i >= 0 {
			h.Check(s.idOf(x) == s.idOf(y), "peek", "Peek gave %v, Pop gives %v", x, y)
			s.m = append(s.m[:i], s.m[i+1:]...)
		}
	}
	h.Check(s.q.Size() == len(s.m), "size", "Size() = %d instead of %d", s.q.Size(), len(s.m))
}

func (s *heapSubject) items() {
	if s.hp == nil {
		return
	}
	h := s.h
	left := map[int]int{}
	for _, e := range s.m {
		left[e.id]++
	}
	n := 0
	for x, next := s.hp.Items()(); next != nil; x, next = next() {
		id := s.idOf(x)
		left[id]--
		n++
		h.Check(left[id] >= 0, "enumeration", "Items gives %d too often", id)
	}
	h.Check(n == len(s.m), "enumeration", "Items gives %d items instead of %d", n, len(s.m))
	err := s.hp.Verify()
	h.Check(err == nil, "verify", "Verify fails: %v", err)
	h.Check(s.hp.MinHeap() == s.min && s.hp.MaxHeap() == !s.min, "kind", "MinHeap() = %v", s.hp.MinHeap())
}

func (s *heapSubject) read() {
	h := s.h
	switch h.N(4) {
	case 0:
		h.Check(s.q.Size() == len(s.m), "size", "Size() = %d instead of %d", s.q.Size(), len(s.m))
	case 1:
		s.items()
	case 2:
		if s.hp != nil {
			n := h.N(4)
			for _, next := s.hp.Items()(); next != nil && n > 0; _, next = next() {
				n--
			}
			h.Inject("iterator-abandoned")
		}
	default:
		s.top("Peek", s.q.Peek())
	}
}

func (s *heapSubject) full() {
	s.h.Check(s.q.Size() == len(s.m), "size", "Size() = %d instead of %d", s.q.Size(), len(s.m))
	s.top("Peek", s.q.Peek())
	s.items()
}

// drainAll pops everything at the end of a run
func (s *heapSubject) drainAll() {
	for len(s.m) > 0 {
		s.op(0, false)
	}
	s.op(0, false)
	if s.u != nil {
		// items can come back after they were popped
		s.op(0, true)
		s.op(0, false)
	}
}

func heapRun(unique bool) func(h *H) {
	return func(h *H) {
		s := &heapSubject{h: h, ks: pickKeys(h, Pick(h, 8, 1, 3, 30)), min: h.OneIn(2), next: 1}
		s.prios = Pick(h, 4, 1, 2, 20, 1000)
		s.spread = Pick(h, 0, 0, 40, 53, 54)
		switch h.N(3) {
		case 0:
			s.hp = heap.NewHeap(Pick(h, 4, 0, 50), s.min)
		case 1:
			if s.min {
				s.hp = heap.NewMinHeap(Pick(h, 4, 0, 50))
			} else {
				s.hp = heap.NewMaxHeap(Pick(h, 4, 0, 50))
			}
		default:
			s.hp = heap.NewHeap(0, s.min)
		}
		s.q = s.hp
		if unique {
			s.u = heap.NewUnique(s.hp)
			s.q = s.u
			if h.OneIn(60) {
				s.ks = spreadKeys(h, 600)
			}
		}
		h.S.Quiet(func() {
			if s.ks.size == 600 {
				for k := 0; k < 450; k++ {
					s.op(k, true)
				}
			}
			if n := large(h); n > 0 && s.ks.size != 600 {
				s.ks = spreadKeys(h, n)
				fill(h, n, s.op, s.full)
			}
			drive(h, histLen(h, 200), s.ks.size, s.op, s.full)
		})
		share(h, &subject{
			write: func() { s.op(h.N(s.ks.size), h.N(2) == 0) },
			read:  s.read,
			full:  func() { s.full(); s.drainAll() },
		})
	}
}

func init() {
	register(&Scenario{Prop: "C17", Name: "sets", Weight: 3, Race: true, Stalls: true, Steps: 200_000_000, Run: hugeOr(setRun, hugeBag(1, 2), hugeSetOps)})
	register(&Scenario{Prop: "C17", Name: "map-set", Race: true, Stalls: true, Steps: 200_000_000, Run: hugeOr(mapsetRun, hugeBag(3))})
	register(&Scenario{Prop: "C17", Name: "set-map", Race: true, Stalls: true, Steps: 200_000_000, Run: hugeOr(setmapRun, hugeBag(2), hugeSetOps)})
	register(&Scenario{Prop: "C18", Name: "heap", Race: true, Stalls: true, Steps: 200_000_000, Run: hugeOr(heapRun(false), hugeHeap(false))})
	register(&Scenario{Prop: "C18", Name: "unique-queue", Race: true, Stalls: true, Steps: 200_000_000, Run: hugeOr(heapRun(true), hugeHeap(true))})
}
