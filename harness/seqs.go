package main

import (
	"sort"

	"github.com/timtadh/data-structures/linked"
	"github.com/timtadh/data-structures/list"
	"github.com/timtadh/data-structures/types"
)

// ---- sequences: array lists (C16), linked lists (C19), comparisons (C24)

// seqItems compares an enumeration of items with the model.
func seqItems(h *H, ks *keySpace, what string, it types.KIterator, want []int) {
	xs := make([]types.Hashable, 0, len(want))
	for i := range want {
		var x types.Hashable
		x, it = it()
		h.Check(it != nil, "enumeration", "%s ends after %d of %d items", what, i, len(want))
		xs = append(xs, x)
	}
	for i, w := range want {
		h.Check(ks.id(xs[i]) == w, "enumeration", "%s gives %d at position %d instead of %d", what, ks.id(xs[i]), i, w)
	}
	_, it = it()
	h.Check(it == nil, "enumeration", "%s gives more than %d items", what, len(want))
}

func revInts(s []int) []int {
	out := make([]int, len(s))
	for i := range s {
		out[len(s)-1-i] = s[i]
	}
	return out
}

func hasInt(s []int, k int) bool {
	for _, x := range s {
		if x == k {
			return true
		}
	}
	return false
}

func insertInt(s []int, i, k int) []int {
	s = append(s, 0)
	copy(s[i+1:], s[i:])
	s[i] = k
	return s
}

func removeInt(s []int, i int) []int { return append(s[:i], s[i+1:]...) }

// sliceIter enumerates items for Extend.
func sliceIter(xs []types.Hashable) (it types.KIterator) {
	i := 0
	it = func() (types.Hashable, types.KIterator) {
		if i >= len(xs) {
			return nil, nil
		}
		i++
		return xs[i-1], it
	}
	return it
}

// someKey: one of the model, or any
func someKey(h *H, ks *keySpace, m []int) int {
	if len(m) > 0 && h.OneIn(2) {
		return m[h.N(len(m))]
	}
	return h.N(ks.size + 1)
}

func badIndex(h *H, n int) int { return Pick(h, n, -1, n+1, n+100, -100) }

type seqContainer interface {
	types.Sortable
	types.Hashable
	types.IterableContainer
}

// other builds another sequence holding the given items.
func other(h *H, ks *keySpace, items []int) seqContainer {
	switch h.N(3) {
	case 0:
		l := list.New(len(items))
		for _, k := range items {
			l.Append(ks.mk(k))
		}
		return l
	case 1:
		l := linked.New()
		for _, k := range items {
			l.Push(ks.mk(k))
		}
		return l
	}
	ok := true
	for i := 1; i < len(items); i++ {
		ok = ok && items[i-1] <= items[i]
	}
	if !ok {
		var xs []types.Hashable
		for _, k := range items {
			xs = append(xs, ks.mk(k))
		}
		return list.FromSlice(xs)
	}
	l := list.NewSorted(4, true)
	for _, k := range items {
		l.Add(ks.mk(k))
	}
	return l
}

func cmpSeq(a, b []int) int {
	if len(a) != len(b) {
		return len(a) - len(b)
	}
	for i := range a {
		if a[i] != b[i] {
			return a[i] - b[i]
		}
	}
	return 0
}

// compareSeq checks Equals, Less (and Hash) of c, holding m, against another
// sequence that is equal or differs slightly.
func compareSeq(h *H, ks *keySpace, c types.Sortable, m []int, hash bool) {
	o := append([]int(nil), m...)
	if h.N(3) > 0 {
		// up to three differences: in an item, two items exchanged, the length
		for n := h.Range(1, 3); n > 0; n-- {
			switch h.N(4) {
			case 0:
				if len(o) > 0 {
					o[h.N(len(o))] = h.N(ks.size)
				}
			case 1:
				if len(o) > 0 {
					i, j := h.N(len(o)), h.N(len(o))
					o[i], o[j] = o[j], o[i]
				}
			case 2:
				if len(o) > 0 {
					o = o[:len(o)-1]
				}
			default:
				o = append(o, h.N(ks.size))
			}
		}
	}
	b := other(h, ks, o)
	d := cmpSeq(m, o)
	h.Check(c.Equals(b) == (d == 0), "equals", "Equals = %v for %v and %v", c.Equals(b), m, o)
	h.Check(b.Equals(c) == (d == 0), "equals", "Equals = %v for %v and %v", b.Equals(c), o, m)
	h.Check(c.Less(b) == (d < 0), "less", "Less = %v for %v and %v", c.Less(b), m, o)
	h.Check(b.Less(c) == (d > 0), "less", "Less = %v for %v and %v", b.Less(c), o, m)
	if hash && d == 0 {
		h.Check(c.(types.Hashable).Hash() == b.Hash(), "hash", "equal sequences %v have different hash codes (%T and %T)", m, c, b)
	}
}

// ---- List

type listSubject struct {
	h   *H
	ks  *keySpace
	l   *list.List
	m   []int
	cap int // fixed size, or -1
}

func (s *listSubject) add(i, k int) {
	h := s.h
	var err error
	if i == len(s.m) && h.N(3) > 0 {
		if h.OneIn(2) {
			err = s.l.Append(s.ks.mk(k))
		} else {
			err = s.l.Push(s.ks.mk(k))
		}
	} else {
		err = s.l.Insert(i, s.ks.mk(k))
	}
	if s.cap >= 0 && len(s.m) >= s.cap {
		h.Check(err != nil, "full", "adding to a full list of %d gives no error", s.cap)
		return
	}
	h.Check(err == nil, "add", "adding at %d of %d fails: %v", i, len(s.m), err)
	s.m = insertInt(s.m, i, k)
}

func (s *listSubject) remove(i int) {
	h := s.h
	if i == len(s.m)-1 && h.OneIn(2) {
		x, err := s.l.Pop()
		h.Check(err == nil && s.ks.id(x) == s.m[i], "pop", "Pop = %v, %v instead of %d", x, err, s.m[i])
	} else {
		err := s.l.Remove(i)
		h.Check(err == nil, "remove", "Remove(%d) of %d fails: %v", i, len(s.m), err)
	}
	s.m = removeInt(s.m, i)
}

func (s *listSubject) op(k int, add bool) {
	h := s.h
	switch h.N(12) {
	case 0: // out of range
		i := badIndex(h, len(s.m))
		h.Check(s.l.Set(i, s.ks.mk(k)) != nil, "range", "Set(%d) of %d gives no error", i, len(s.m))
		h.Check(s.l.Remove(i) != nil, "range", "Remove(%d) of %d gives no error", i, len(s.m))
		if i != len(s.m) {
			h.Check(s.l.Insert(i, s.ks.mk(k)) != nil, "range", "Insert(%d) of %d gives no error", i, len(s.m))
		}
		if len(s.m) == 0 {
			_, err := s.l.Pop()
			h.Check(err != nil, "range", "Pop of an empty list gives no error")
		}
	case 1:
		if len(s.m) > 0 {
			i := h.N(len(s.m))
			err := s.l.Set(i, s.ks.mk(k))
			h.Check(err == nil, "set", "Set(%d) of %d fails: %v", i, len(s.m), err)
			s.m[i] = k
		}
	case 2:
		var xs []types.Hashable
		var ks []int
		for n := h.N(5); n > 0; n-- {
			k := h.N(s.ks.size)
			ks = append(ks, k)
			xs = append(xs, s.ks.mk(k))
		}
		err := s.l.Extend(sliceIter(xs))
		if s.cap >= 0 && len(s.m)+len(ks) > s.cap {
			h.Check(err != nil, "full", "extending beyond the fixed size gives no error")
			n := s.l.Size() - len(s.m)
			h.Check(n >= 0 && len(s.m)+n <= s.cap, "full", "extending a fixed list of %d gives size %d", s.cap, s.l.Size())
			s.m = append(s.m, ks[:n]...)
		} else {
			h.Check(err == nil, "extend", "Extend fails: %v", err)
			s.m = append(s.m, ks...)
		}
	case 3:
		if h.OneIn(4) {
			if h.OneIn(2) {
				s.l.Clear()
				s.m = s.m[:0]
			} else {
				sort.Sort(list.NewSortable(s.l))
				sort.Ints(s.m)
			}
		}
	case 4:
		if h.OneIn(3) {
			s.l = s.l.Copy()
		}
	default:
		if add {
			s.add(Pick(h, len(s.m), h.N(len(s.m)+1), 0), k)
		} else if len(s.m) > 0 {
			s.remove(Pick(h, len(s.m)-1, h.N(len(s.m)), 0))
		}
	}
	h.Check(s.l.Size() == len(s.m), "size", "Size() = %d instead of %d", s.l.Size(), len(s.m))
}

func (s *listSubject) full() {
	h := s.h
	h.Check(s.l.Size() == len(s.m), "size", "Size() = %d instead of %d", s.l.Size(), len(s.m))
	h.Check(s.l.Empty() == (len(s.m) == 0), "empty", "Empty() = %v with %d items", s.l.Empty(), len(s.m))
	h.Check(s.l.Full() == (s.cap >= 0 && len(s.m) == s.cap), "full", "Full() = %v with %d items of %d", s.l.Full(), len(s.m), s.cap)
	seqItems(h, s.ks, "Items", s.l.Items(), s.m)
	seqItems(h, s.ks, "ItemsInReverse", s.l.ItemsInReverse(), revInts(s.m))
	for i, k := range s.m {
		x, err := s.l.Get(i)
		h.Check(err == nil && s.ks.id(x) == k, "get", "Get(%d) = %v, %v instead of %d", i, x, err, k)
	}
}

func (s *listSubject) read() {
	h := s.h
	switch h.N(7) {
	case 0:
		k := someKey(h, s.ks, s.m)
		h.Check(s.l.Has(s.ks.mk(k)) == hasInt(s.m, k), "has", "Has(%d) wrong", k)
		if h.OneIn(20) {
			x := foreign(h, s.ks)
			h.Check(!s.l.Has(x), "foreign", "an item of another type (%T) is found", x)
		}
	case 1:
		i := badIndex(h, len(s.m))
		_, err := s.l.Get(i)
		h.Check(err != nil, "range", "Get(%d) of %d gives no error", i, len(s.m))
	case 2:
		compareSeq(h, s.ks, s.l, s.m, false)
	case 3:
		n := h.N(5)
		i := 0
		for x, next := s.l.Items()(); next != nil && i < n; x, next = next() {
			h.Check(s.ks.id(x) == s.m[i], "enumeration", "Items gives %d at position %d instead of %d", s.ks.id(x), i, s.m[i])
			i++
		}
		h.Inject("iterator-abandoned")
	case 4:
		_ = s.l.Hash()
		c := s.l.Copy()
		seqItems(h, s.ks, "items of the copy", c.Items(), s.m)
		h.Check(c.Full() == s.l.Full(), "full", "a copy has Full() = %v", c.Full())
	case 5:
		text(h, s.l, s.ks, s.m)
	default:
		s.full()
	}
}

func (s *listSubject) write() { s.op(s.h.N(s.ks.size), s.h.N(2) == 0) }

func listRun(h *H) {
	s := &listSubject{h: h, ks: pickKeys(h, Pick(h, 4, 1, 20, 200)), cap: -1}
	h.S.Quiet(func() {
		switch h.N(4) {
		case 0:
			s.cap = Pick(h, 3, 0, 1, 10, 100)
			s.l = list.Fixed(s.cap)
		case 1:
			var xs []types.Hashable
			for n := h.N(30); n > 0; n-- {
				k := h.N(s.ks.size)
				s.m = append(s.m, k)
				xs = append(xs, s.ks.mk(k))
			}
			s.l = list.FromSlice(xs)
		default:
			s.l = list.New(Pick(h, 4, 0, 1, 20, 100))
		}
		if s.cap < 0 {
			fill(h, min(large(h), 1000), func(k int, add bool) {
				if add {
					s.add(len(s.m), k%s.ks.size)
				} else {
					s.remove(Pick(h, len(s.m)-1, len(s.m)-1, 0, len(s.m)/2))
				}
			}, s.full)
		}
		drive(h, histLen(h, 500), s.ks.size, s.op, s.full)
	})
	share(h, &subject{write: s.write, read: s.read, full: s.full})
}

// ---- Sorted

type sortedSubject struct {
	h    *H
	ks   *keySpace
	l    *list.Sorted
	m    []int
	cap  int
	dups bool
}

func (s *sortedSubject) op(k int, add bool) {
	h := s.h
	i := sort.SearchInts(s.m, k)
	had := i < len(s.m) && s.m[i] == k
	switch {
	case h.OneIn(12):
		if len(s.m) > 0 {
			j := h.N(len(s.m))
			err := s.l.Remove(j)
			h.Check(err == nil, "remove", "Remove(%d) of %d fails: %v", j, len(s.m), err)
			s.m = removeInt(s.m, j)
		}
		j := badIndex(h, len(s.m))
		h.Check(s.l.Remove(j) != nil, "range", "Remove(%d) of %d gives no error", j, len(s.m))
	case h.OneIn(20):
		if h.OneIn(3) {
			s.l.Clear()
			s.m = s.m[:0]
		} else {
			s.l = s.l.Copy()
		}
	case add:
		err := error(nil)
		if h.OneIn(5) {
			err = s.l.Extend(sliceIter([]types.Hashable{s.ks.mk(k)}))
		} else {
			err = s.l.Add(s.ks.mk(k))
		}
		grow := !had || s.dups
		if grow && s.cap >= 0 && len(s.m) >= s.cap {
			h.Check(err != nil, "full", "adding to a full list of %d gives no error", s.cap)
		} else {
			h.Check(err == nil, "add", "Add(%d) fails: %v", k, err)
			if grow {
				s.m = insertInt(s.m, i, k)
			}
		}
	default:
		err := s.l.Delete(s.ks.mk(k))
		h.Check((err == nil) == had, "delete", "Delete(%d) gives %v", k, err)
		if had {
			s.m = removeInt(s.m, i)
		}
	}
	h.Check(s.l.Size() == len(s.m), "size", "Size() = %d instead of %d", s.l.Size(), len(s.m))
	if h.OneIn(4) {
		s.lookup(k)
	}
}

func (s *sortedSubject) lookup(k int) {
	h := s.h
	i := sort.SearchInts(s.m, k)
	had := i < len(s.m) && s.m[i] == k
	idx, has, err := s.l.Find(s.ks.mk(k))
	h.Check(err == nil && has == had && idx == i, "find", "Find(%d) = %d, %v, %v instead of %d, %v", k, idx, has, err, i, had)
	h.Check(s.l.Has(s.ks.mk(k)) == had, "has", "Has(%d) wrong", k)
	if h.OneIn(20) {
		x := foreign(h, s.ks)
		h.Check(!s.l.Has(x), "foreign", "an item of another type (%T) is found", x)
	}
	x, err := s.l.Item(s.ks.mk(k))
	h.Check((err == nil) == had && (!had || s.ks.id(x) == k), "item", "Item(%d) = %v, %v", k, x, err)
}

func (s *sortedSubject) full() {
	h := s.h
	h.Check(s.l.Size() == len(s.m), "size", "Size() = %d instead of %d", s.l.Size(), len(s.m))
	h.Check(s.l.Empty() == (len(s.m) == 0), "empty", "Empty() = %v with %d items", s.l.Empty(), len(s.m))
	h.Check(s.l.Full() == (s.cap >= 0 && len(s.m) == s.cap), "full", "Full() = %v with %d items of %d", s.l.Full(), len(s.m), s.cap)
	seqItems(h, s.ks, "Items", s.l.Items(), s.m)
	seqItems(h, s.ks, "ItemsInReverse", s.l.ItemsInReverse(), revInts(s.m))
	for i, k := range s.m {
		x, err := s.l.Get(i)
		h.Check(err == nil && s.ks.id(x) == k, "get", "Get(%d) = %v, %v instead of %d", i, x, err, k)
		if i == 0 || s.m[i-1] != k {
			s.lookup(k)
		}
	}
	s.lookup(h.N(s.ks.size + 1))
}

func (s *sortedSubject) read() {
	h := s.h
	switch h.N(7) {
	case 0, 1:
		s.lookup(someKey(h, s.ks, s.m))
	case 2:
		i := badIndex(h, len(s.m))
		_, err := s.l.Get(i)
		h.Check(err != nil, "range", "Get(%d) of %d gives no error", i, len(s.m))
	case 3:
		compareSeq(h, s.ks, s.l, s.m, false)
	case 4:
		c := s.l.Copy()
		seqItems(h, s.ks, "items of the copy", c.Items(), s.m)
	case 5:
		text(h, s.l, s.ks, s.m)
	default:
		s.full()
	}
}

func (s *sortedSubject) write() { s.op(s.h.N(s.ks.size), s.h.N(2) == 0) }

func sortedRun(h *H) {
	s := &sortedSubject{h: h, ks: pickKeys(h, Pick(h, 4, 1, 20, 200)), cap: -1, dups: h.OneIn(2)}
	h.S.Quiet(func() {
		switch h.N(4) {
		case 0:
			s.cap = Pick(h, 3, 0, 1, 10, 100)
			s.l = list.NewFixedSorted(s.cap, s.dups)
		case 1:
			var xs []types.Hashable
			for n := h.N(20); n > 0; n-- {
				k := h.N(s.ks.size)
				xs = append(xs, s.ks.mk(k))
				i := sort.SearchInts(s.m, k)
				if s.dups || i == len(s.m) || s.m[i] != k {
					s.m = insertInt(s.m, i, k)
				}
			}
			s.l = list.SortedFromSlice(xs, s.dups)
		default:
			s.l = list.NewSorted(Pick(h, 4, 0, 1, 20), s.dups)
		}
		if n := min(large(h), 1000); n > 0 && s.cap < 0 && len(s.m) == 0 {
			s.ks = pickKeys(h, n)
			fill(h, n, s.op, s.full)
		}
		drive(h, histLen(h, 500), s.ks.size, s.op, s.full)
	})
	share(h, &subject{write: s.write, read: s.read, full: s.full})
}

// ---- linked lists and unique deques

type deque interface {
	types.Sortable
	types.Linked
	Hash() int
	String() string
	Backwards() types.KIterator
}

type dequeSubject struct {
	h      *H
	ks     *keySpace
	l      deque
	m      []int
	unique bool
}

func (s *dequeSubject) op(k int, add bool) {
	h := s.h
	had := hasInt(s.m, k)
	if add {
		front := h.OneIn(2)
		var err error
		switch {
		case front:
			err = s.l.EnqueFront(s.ks.mk(k))
		case h.OneIn(2):
			err = s.l.EnqueBack(s.ks.mk(k))
		default:
			err = s.l.Push(s.ks.mk(k))
		}
		h.Check(err == nil, "add", "adding %d fails: %v", k, err)
		if !(s.unique && had) {
			if front {
				s.m = insertInt(s.m, 0, k)
			} else {
				s.m = append(s.m, k)
			}
		}
	} else {
		front := h.OneIn(2)
		var x types.Hashable
		var err error
		switch {
		case front:
			x, err = s.l.DequeFront()
		case h.OneIn(2):
			x, err = s.l.DequeBack()
		default:
			x, err = s.l.Pop()
		}
		if len(s.m) == 0 {
			h.Check(err != nil, "empty", "taking from an empty deque gives %v and no error", x)
		} else {
			i := 0
			if !front {
				i = len(s.m) - 1
			}
			h.Check(err == nil && s.ks.id(x) == s.m[i], "take", "taking (front %v) gives %v, %v instead of %d", front, x, err, s.m[i])
			s.m = removeInt(s.m, i)
		}
	}
	if h.OneIn(4) {
		s.ends()
		h.Check(s.l.Has(s.ks.mk(k)) == hasInt(s.m, k), "has", "Has(%d) wrong", k)
		if h.OneIn(20) {
			x := foreign(h, s.ks)
			h.Check(!s.l.Has(x), "foreign", "an item of another type (%T) is found", x)
		}
	}
}

func (s *dequeSubject) ends() {
	h := s.h
	h.Check(s.l.Size() == len(s.m), "size", "Size() = %d instead of %d", s.l.Size(), len(s.m))
	f, l := s.l.First(), s.l.Last()
	if len(s.m) == 0 {
		h.Check(f == nil && l == nil, "ends", "First and Last of an empty deque are %v and %v", f, l)
	} else {
		h.Check(f != nil && l != nil && s.ks.id(f) == s.m[0] && s.ks.id(l) == s.m[len(s.m)-1], "ends", "First and Last are %v and %v instead of %d and %d", f, l, s.m[0], s.m[len(s.m)-1])
	}
}

func (s *dequeSubject) full() {
	s.ends()
	seqItems(s.h, s.ks, "Items", s.l.Items(), s.m)
	seqItems(s.h, s.ks, "Backwards", s.l.Backwards(), revInts(s.m))
	s.nodes()
	for i := 0; i < 4; i++ {
		k := someKey(s.h, s.ks, s.m)
		s.h.Check(s.l.Has(s.ks.mk(k)) == hasInt(s.m, k), "has", "Has(%d) wrong", k)
	}
}

// nodes walks the links of a linked list, which are public.
func (s *dequeSubject) nodes() {
	l, ok := s.l.(*linked.LinkedList)
	if !ok {
		return
	}
	h := s.h
	i := 0
	var last *linked.Node
	for n := l.Head; n != nil; last, n = n, n.Next {
		h.Check(i < len(s.m) && s.ks.id(n.Data) == s.m[i], "links", "the node at position %d of %d holds %v", i, len(s.m), n.Data)
		h.Check(n.Prev == last, "links", "the node at position %d does not lead back", i)
		if h.OneIn(4) {
			k := someKey(h, s.ks, s.m)
			o := &linked.Node{Data: s.ks.mk(k)}
			h.Check(n.Equals(o) == (s.m[i] == k) && n.Equals(o.Data) == (s.m[i] == k), "node", "the node of %d compares wrongly with %d", s.m[i], k)
			h.Check(n.Less(o) == (s.m[i] < k) && n.Less(o.Data) == (s.m[i] < k), "node", "the node of %d compares wrongly with %d", s.m[i], k)
			h.Check(n.Hash() == n.Data.Hash(), "node", "the node of %d has another hash code than its item", s.m[i])
		}
		i++
	}
	h.Check(i == len(s.m), "links", "%d nodes are linked instead of %d", i, len(s.m))
	h.Check(l.Tail == last, "links", "the tail is not the last node")
}

func (s *dequeSubject) read() {
	h := s.h
	switch h.N(8) {
	case 0, 1:
		k := someKey(h, s.ks, s.m)
		h.Check(s.l.Has(s.ks.mk(k)) == hasInt(s.m, k), "has", "Has(%d) wrong", k)
		if h.OneIn(20) {
			x := foreign(h, s.ks)
			h.Check(!s.l.Has(x), "foreign", "an item of another type (%T) is found", x)
		}
	case 2:
		s.ends()
	case 3:
		compareSeq(h, s.ks, s.l, s.m, false)
	case 4:
		n := h.N(5)
		i := 0
		for x, next := s.l.Backwards()(); next != nil && i < n; x, next = next() {
			h.Check(s.ks.id(x) == s.m[len(s.m)-1-i], "enumeration", "Backwards gives %d at position %d", s.ks.id(x), i)
			i++
		}
		h.Inject("iterator-abandoned")
		_ = s.l.Hash()
	case 5:
		text(h, s.l, s.ks, s.m)
	case 6:
		s.nodes()
	default:
		s.full()
	}
}

func (s *dequeSubject) write() { s.op(s.h.N(s.ks.size), s.h.N(2) == 0) }

func dequeRun(unique bool) func(h *H) {
	return func(h *H) {
		s := &dequeSubject{h: h, ks: pickKeys(h, Pick(h, 4, 1, 20, 100)), unique: unique}
		long := 200
		if unique {
			s.l = linked.NewUniqueDeque()
			if h.OneIn(60) {
				s.ks = spreadKeys(h, 600) // beyond the growth threshold of its index
				long = 600
			}
		} else {
			s.l = linked.New()
		}
		h.S.Quiet(func() {
			n := histLen(h, long)
			if s.ks.size == 600 {
				for k := 0; k < 450; k++ {
					s.op(k, true)
				}
			}
			if n := large(h); n > 0 && len(s.m) == 0 {
				s.ks = spreadKeys(h, n)
				fill(h, n, s.op, s.full)
			}
			drive(h, n, s.ks.size, s.op, s.full)
		})
		share(h, &subject{write: s.write, read: s.read, full: s.full})
	}
}

// ---- C24: comparing sequences of all kinds

func compareRun(h *H) {
	size, n := Pick(h, 3, 1, 10), Pick(h, 2, 0, 1, 5, 20)
	if h.OneIn(400) {
		size, n = Pick(h, 10, 2, 300), Pick(h, 60, 130, 300)
	}
	ks := pickKeys(h, size)
	items := make([]int, n)
	for i := range items {
		items[i] = h.N(ks.size)
	}
	var c seqContainer
	var grow func(k int)
	var m []int
	h.S.Quiet(func() {
		kind := h.N(5)
		switch kind {
		case 0:
			l := list.New(2)
			c, grow = l, func(k int) { l.Append(ks.mk(k)); m = append(m, k) }
		case 1:
			l := linked.New()
			c, grow = l, func(k int) { l.EnqueFront(ks.mk(k)); m = insertInt(m, 0, k) }
		case 2:
			l := list.NewSorted(2, true)
			c, grow = l, func(k int) { l.Add(ks.mk(k)); m = insertInt(m, sort.SearchInts(m, k), k) }
		case 3:
			l := list.NewSorted(2, false)
			c, grow = l, func(k int) {
				l.Add(ks.mk(k))
				if !hasInt(m, k) {
					m = insertInt(m, sort.SearchInts(m, k), k)
				}
			}
		default:
			l := linked.NewUniqueDeque()
			c, grow = l, func(k int) {
				l.Push(ks.mk(k))
				if !hasInt(m, k) {
					m = append(m, k)
				}
			}
		}
		for _, k := range items {
			grow(k)
		}
	})
	read := func() {
		compareSeq(h, ks, c, m, true)
		if h.OneIn(4) {
			// a container never equals something that is no container
			h.Check(!c.Equals(types.Int(1)), "equals", "a sequence equals an integer")
		}
	}
	share(h, &subject{
		write: func() { grow(h.N(ks.size)) },
		read:  read,
		full: func() {
			for i := 0; i < 6; i++ {
				read()
			}
		},
	})
}

func init() {
	register(&Scenario{Prop: "C16", Name: "list", Race: true, Stalls: true, Steps: 200_000_000, Run: hugeOr(listRun, hugeList)})
	register(&Scenario{Prop: "C16", Name: "sorted-list", Race: true, Stalls: true, Steps: 200_000_000, Run: hugeOr(sortedRun, hugeBag(0))})
	register(&Scenario{Prop: "C19", Name: "linked-list", Race: true, Stalls: true, Steps: 200_000_000, Run: hugeOr(dequeRun(false), hugeDeque(false))})
	register(&Scenario{Prop: "C19", Name: "unique-deque", Race: true, Stalls: true, Steps: 200_000_000, Run: hugeOr(dequeRun(true), hugeDeque(true))})
	register(&Scenario{Prop: "C24", Name: "compare", Race: true, Stalls: true, Steps: 200_000_000, Run: hugeOr(compareRun, hugeList)})
}
