package main

import (
	"sort"

	"github.com/timtadh/data-structures/list"
	"github.com/timtadh/data-structures/set"
	"github.com/timtadh/data-structures/tree/avl"
	"github.com/timtadh/data-structures/tree/bptree"
	"github.com/timtadh/data-structures/types"
	"verif.local/sim/simrt"
)

// ---- C26: failures of the caller's code inside a modification

// broken counts calls of the caller's code in each task until one fails.
type broken struct {
	h  *H
	in map[int]int
}

type brokenCall struct{ task int }

func (e brokenCall) Error() string { return "the caller's code fails" }

func (b *broken) now() bool {
	id := b.h.S.Cur().ID
	n, ok := b.in[id]
	if !ok {
		return false
	}
	if n > 0 {
		b.in[id] = n - 1
		return false
	}
	delete(b.in, id)
	b.h.Logf("FAULT the caller's code fails")
	return true
}

func (b *broken) err(kind string) error {
	if b.now() {
		b.h.Inject(kind)
		return brokenCall{b.h.S.Cur().ID}
	}
	return nil
}

func (b *broken) panic(kind string) {
	if b.now() {
		b.h.Inject(kind)
		panic(brokenCall{b.h.S.Cur().ID})
	}
}

// try runs f with the failure armed at the n-th call (never if n < 0) and
// reports whether f ended in that panic, and whether the failure happened.
func (b *broken) try(n int, f func()) (panicked, fired bool) {
	id := b.h.S.Cur().ID
	if n >= 0 {
		b.in[id] = n
	}
	defer func() {
		_, left := b.in[id]
		fired = n >= 0 && !left
		delete(b.in, id)
		if r := recover(); r != nil {
			if bc, ok := r.(brokenCall); ok && bc.task == id {
				panicked = true
				return
			}
			panic(r)
		}
	}()
	f()
	return
}

func (b *broken) iter(xs []types.Hashable) types.KIterator {
	i := 0
	var it types.KIterator
	it = func() (types.Hashable, types.KIterator) {
		simrt.Yield()
		b.panic("iterator-panic")
		if i >= len(xs) {
			return nil, nil
		}
		i++
		return xs[i-1], it
	}
	return it
}

func sameInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// sortedItems is what sorted lists and sorted sets have in common.
type sortedItems interface {
	Size() int
	Has(types.Hashable) bool
	Add(types.Hashable) error
	Delete(types.Hashable) error
	Extend(types.KIterator) error
	Items() types.KIterator
}

// sortedFaults: comparisons panic inside Add, Delete and Extend; iterators
// panic inside Extend.
func sortedFaults(h *H) {
	ks := keysOf(h, Pick(h, 4, 1, 10, 30), h.N(4))
	b := &broken{h, map[int]int{}}
	var s sortedItems
	dups := false
	room := 1 << 30
	switch h.N(3) {
	case 0:
		dups = h.OneIn(2)
		s = list.NewSorted(Pick(h, 2, 0, 20), dups)
	case 1:
		dups = h.OneIn(2)
		room = Pick(h, 3, 8, 20)
		s = list.NewFixedSorted(room, dups)
	default:
		s = set.NewSortedSet(Pick(h, 2, 0))
	}
	var m []int
	put := func(k int) bool {
		i := sort.SearchInts(m, k)
		if !dups && i < len(m) && m[i] == k {
			return true
		}
		if len(m) == room {
			return false
		}
		m = insertInt(m, i, k)
		return true
	}
	content := func(most int) (got []int) {
		for x, next := s.Items()(); next != nil; x, next = next() {
			got = append(got, ks.id(x))
			h.Check(len(got) <= most, "content", "more than %d items", most)
		}
		return
	}
	full := func() {
		got := content(len(m))
		h.Check(sameInts(got, m) && s.Size() == len(m), "content", "the items are %v, size %d, instead of %v", got, s.Size(), m)
	}
	write := func() {
		k := h.N(ks.size)
		i := sort.SearchInts(m, k)
		had := i < len(m) && m[i] == k
		var err error
		switch h.N(5) {
		case 0, 1:
			if !guarded(h, h.N(8), func() { err = s.Add(ks.mk(k)) }) {
				h.Check(put(k) == (err == nil), "add", "Add(%d) gives %v", k, err)
			}
		case 2, 3:
			if !guarded(h, h.N(8), func() { err = s.Delete(ks.mk(k)) }) {
				h.Check((err == nil) == had, "delete", "Delete(%d) gives %v", k, err)
				if had {
					m = removeInt(m, i)
				}
			}
		default:
			var ids []int
			var xs []types.Hashable
			for n := h.N(5); n > 0; n-- {
				ids = append(ids, h.N(ks.size))
				xs = append(xs, ks.mk(ids[len(ids)-1]))
			}
			n := h.N(6)
			panicked, _ := b.try(n, func() { err = s.Extend(b.iter(xs)) })
			// after a panic any prefix of the items handed out may be in already
			var got []int
			if panicked {
				got = content(len(m) + n)
			}
			ok := true
			for j, id := range ids {
				if !ok || panicked && (j >= n || sameInts(got, m)) {
					break
				}
				ok = put(id)
			}
			h.Check(!panicked || sameInts(got, m), "extend", "after a panic in Extend the items are %v, but at most %v can be there", got, m)
			h.Check(panicked == (ok && n <= len(xs)), "extend", "Extend of %d items, whose iterator panics in call %d: panicked = %v", len(xs), n, panicked)
			h.Check(panicked || ok == (err == nil), "extend", "Extend gives %v", err)
		}
		if h.OneIn(2) {
			full()
		}
	}
	h.S.Quiet(func() {
		for n := h.N(12); n > 0; n-- {
			write()
		}
		full()
	})
	share(h, &subject{write: write, full: full, read: func() {
		k := someKey(h, ks, m)
		i := sort.SearchInts(m, k)
		h.Check(s.Has(ks.mk(k)) == (i < len(m) && m[i] == k), "has", "Has(%d) wrong", k)
		if h.OneIn(2) {
			full()
		}
	}})
}

// handleFaults: comparisons panic inside operations of one immutable AVL tree
// that several tasks modify without locks, each its own keys.
func handleFaults(h *H) {
	ks := keysOf(h, Pick(h, 8, 4, 20, 40), h.N(4))
	tr := avl.NewImmutableAvlTree()
	nc := Pick(h, 2, 3)
	ms := make([]omap, nc)
	next := 1
	check := func(c int, what string) {
		k := h.N(ks.size/nc)*nc + c
		want, had := ms[c].get(k)
		v, err := tr.Get(ks.mk(k))
		h.Check((err == nil) == had && (!had || isVal(v, want)), "content", "after %s: Get(%d) = %v, %v instead of %v, %v", what, k, v, err, want, had)
	}
	op := func(c int) {
		k := h.N(ks.size/nc)*nc + c
		_, had := ms[c].get(k)
		var err error
		switch h.N(3) {
		case 0, 1:
			v := next
			next++
			if guarded(h, h.N(10), func() { err = tr.Put(ks.mk(k), mkSome(v)) }) {
				check(c, "a panic in Put")
				return
			}
			h.Check(err == nil, "put", "Put(%d) gives %v", k, err)
			ms[c].put(k, v)
		default:
			if guarded(h, h.N(10), func() { _, err = tr.Remove(ks.mk(k)) }) {
				check(c, "a panic in Remove")
				return
			}
			h.Check((err == nil) == had, "remove", "Remove(%d) gives %v", k, err)
			ms[c].del(k)
		}
		check(c, "an operation")
	}
	h.S.Quiet(func() {
		for n := h.N(30); n > 0; n-- {
			op(h.N(nc))
		}
	})
	var cs []*simrt.Task
	for c := 0; c < nc; c++ {
		c := c
		n := h.Range(1, 6)
		cs = append(cs, h.S.Spawn("client", func() {
			for i := 0; i < n; i++ {
				op(c)
			}
		}))
	}
	h.S.Join(cs...)
	h.S.Quiet(func() {
		var got, want []int
		for k, _, next := tr.Iterate()(); next != nil; k, _, next = next() {
			got = append(got, ks.id(k))
		}
		for i := range ms {
			for _, e := range ms[i].s {
				want = append(want, e.k)
			}
		}
		sort.Ints(want)
		h.Check(sameInts(got, want) && tr.Size() == len(want), "content", "the tree holds %v, size %d, instead of %v", got, tr.Size(), want)
	})
}

// predicateFaults: the predicates given to a B+ tree panic.
func predicateFaults(h *H) {
	ks := pickKeys(h, Pick(h, 2, 1, 4, 10))
	t := bptree.NewBpTree(Pick(h, 2, 3, 4, 8))
	b := &broken{h, map[int]int{}}
	m := map[int]int{} // value -> key
	next := 1
	content := func() map[int]int {
		got := map[int]int{}
		n := 0
		last := -1
		for k, v, it := t.Iterate()(); it != nil; k, v, it = it() {
			id := ks.id(k)
			h.Check(id >= last, "content", "the keys are not in order")
			last = id
			got[v.(int)] = id
			n++
			h.Check(n <= len(m), "content", "more than %d pairs", len(m))
		}
		h.Check(n == len(got), "content", "a value appears twice")
		h.Check(n == t.Size(), "size", "Size() = %d, %d pairs", t.Size(), n)
		return got
	}
	full := func() {
		got := content()
		h.Check(len(got) == len(m), "content", "%d pairs instead of %d", len(got), len(m))
		for v, k := range m {
			g, ok := got[v]
			h.Check(ok && g == k, "content", "the pair (%d,%d) is lost", k, v)
		}
		n := 0
		k := h.N(ks.size)
		for _, x := range m {
			if x == k {
				n++
			}
		}
		h.Check(t.Count(ks.mk(k)) == n && t.Has(ks.mk(k)) == (n > 0), "count", "Count(%d) = %d instead of %d", k, t.Count(ks.mk(k)), n)
	}
	write := func() {
		k := h.N(ks.size)
		var err error
		switch h.N(4) {
		case 0, 1:
			err = t.Add(ks.mk(k), next)
			h.Check(err == nil, "add", "Add(%d) gives %v", k, err)
			m[next] = k
			next++
		default:
			yes := map[int]bool{}
			called := map[int]bool{}
			mod, rest := h.Range(1, 3), h.N(3)
			where := func(v interface{}) bool {
				simrt.Yield()
				x, ok := v.(int)
				h.Check(ok && m[x] == k, "predicate", "the predicate for %d is asked about %v", k, v)
				called[x] = true
				b.panic("predicate-panic")
				yes[x] = x%mod != rest
				return yes[x]
			}
			replace := h.OneIn(3)
			v := next
			panicked, fired := b.try(h.N(6), func() {
				if replace {
					// at most one pair gets the new value
					one := h.Range(1, next)
					err = t.Replace(ks.mk(k), func(v interface{}) bool {
						where(v)
						yes[v.(int)] = v == one
						return v == one
					}, v)
				} else {
					err = t.RemoveWhere(ks.mk(k), where)
				}
			})
			h.Check(panicked == fired, "swallowed", "the panic of a predicate does not reach the caller")
			h.Check(panicked || err == nil, "remove", "removing or replacing gives %v", err)
			if !panicked {
				for x, kx := range m {
					h.Check(kx != k || called[x], "predicate", "the predicate for %d is not asked about %d", k, x)
				}
			}
			// pairs the predicate had not approved are untouched; after a panic
			// the approved ones may be changed already or not
			got := content()
			for x, kx := range m {
				g, ok := got[x]
				h.Check(!ok || g == kx, "content", "the value %d moved to key %d", x, g)
				if ok && yes[x] {
					h.Check(panicked, "content", "the approved value %d is unchanged", x)
				}
				if !ok {
					h.Check(yes[x], "content", "the value %d of key %d is lost", x, kx)
					delete(m, x)
					if replace {
						g, ok := got[v]
						h.Check(ok && g == k, "content", "the value %d of key %d is not replaced but lost", x, kx)
						m[v] = k
						next++
						break
					}
				}
			}
			h.Check(len(got) == len(m), "content", "%d pairs instead of %d", len(got), len(m))
		}
		if h.OneIn(2) {
			full()
		}
	}
	h.S.Quiet(func() {
		for n := Pick(h, 5, 0, 12, 40); n > 0; n-- {
			write()
		}
		full()
	})
	share(h, &subject{write: write, full: full, read: full})
}

// ---- sets on top of sets or maps of the caller that fail

type brokenSet struct {
	types.Set
	b *broken
}

func (s *brokenSet) Add(x types.Hashable) error {
	if err := s.b.err("set-error"); err != nil {
		return err
	}
	return s.Set.Add(x)
}

func (s *brokenSet) Delete(x types.Hashable) error {
	if err := s.b.err("set-error"); err != nil {
		return err
	}
	return s.Set.Delete(x)
}

func (s *brokenSet) Item(x types.Hashable) (types.Hashable, error) {
	if err := s.b.err("set-error"); err != nil {
		return nil, err
	}
	return s.Set.Item(x)
}

type brokenMap struct {
	types.Map
	b *broken
}

func (m *brokenMap) Put(k types.Hashable, v interface{}) error {
	if err := m.b.err("map-error"); err != nil {
		return err
	}
	return m.Map.Put(k, v)
}

func (m *brokenMap) Remove(k types.Hashable) (interface{}, error) {
	if err := m.b.err("map-error"); err != nil {
		return nil, err
	}
	return m.Map.Remove(k)
}

func partFaults(h *H) {
	ks := pickKeys(h, Pick(h, 4, 1, 10))
	b := &broken{h, map[int]int{}}
	var ms *set.MapSet
	var s types.Set
	if h.OneIn(2) {
		ms = set.NewMapSet(&brokenSet{set.NewSortedSet(4), b})
		s = ms
	} else {
		s = set.NewSetMap(&brokenMap{newMap(h), b})
	}
	var m omap
	next := 1
	item := func(k, v int) types.Hashable {
		if ms != nil {
			return &types.MapEntry{Key: ks.mk(k), Value: v}
		}
		return ks.mk(k)
	}
	full := func() {
		n := 0
		for x, next := s.Items()(); next != nil; x, next = next() {
			var k int
			if ms != nil {
				e := x.(*types.MapEntry)
				k = ks.id(e.Key)
				v, had := m.get(k)
				h.Check(had && e.Value == v, "content", "the pair (%d,%v) is stored instead of %v, %v", k, e.Value, v, had)
			} else {
				k = ks.id(x)
				_, had := m.get(k)
				h.Check(had, "content", "%d is a member", k)
			}
			n++
			h.Check(n <= len(m.s), "content", "more than %d members", len(m.s))
		}
		h.Check(n == len(m.s) && s.Size() == n, "content", "%d members, Size() = %d, instead of %d", n, s.Size(), len(m.s))
	}
	write := func() {
		k, v := h.N(ks.size), next
		next++
		old, had := m.get(k)
		n := h.N(5) - 1
		var err error
		var got interface{}
		what := ""
		op := h.N(4)
		if ms != nil {
			op = h.N(7)
		}
		panicked, fired := b.try(n, func() {
			switch op {
			case 0, 1:
				what = "Add"
				err = s.Add(item(k, v))
			case 2:
				what = "Delete"
				err = s.Delete(item(k, v))
			case 3:
				what = "Extend"
				var xs []types.Hashable
				for j := 0; j < 4; j++ {
					xs = append(xs, item((k+j)%ks.size, v+j))
				}
				err = s.Extend(sliceIter(xs))
			case 4:
				what = "Put"
				err = ms.Put(ks.mk(k), v)
			case 5:
				what = "Remove"
				got, err = ms.Remove(ks.mk(k))
			default:
				what = "Get"
				got, err = ms.Get(ks.mk(k))
			}
		})
		h.Check(!panicked, "panic", "%s panics", what)
		h.Check(!fired || err != nil, "swallowed", "%s gives no error although the set or map underneath failed", what)
		switch op {
		case 0, 1:
			h.Check(fired || err == nil, "add", "Add gives %v", err)
			if !fired && (!had || ms == nil) {
				m.put(k, v)
			}
		case 2:
			h.Check(fired || (err == nil) == had, "delete", "Delete gives %v", err)
			if !fired {
				m.del(k)
			}
		case 3:
			h.Check(fired || err == nil, "extend", "Extend gives %v", err)
			for j := 0; j < 4; j++ {
				kj := (k + j) % ks.size
				if _, had := m.get(kj); !had {
					if fired && !s.Has(item(kj, 0)) {
						break // and none of the later ones, which full checks
					}
					m.put(kj, v+j)
				}
			}
			next += 3
		case 4:
			h.Check(fired || err == nil, "put", "Put gives %v", err)
			if !fired {
				m.put(k, v)
			} else if had && !ms.Has(ks.mk(k)) {
				// the old pair was taken out before storing the new one failed
				m.del(k)
			}
		case 5, 6:
			h.Check(fired || (err == nil) == had, "get", "%s gives %v", what, err)
			h.Check(err != nil || got == old, "get", "%s gives %v instead of %v", what, got, old)
			if op == 5 && !fired {
				m.del(k)
			}
		}
		if h.OneIn(2) {
			full()
		}
	}
	mixed := func() {
		// a MapSet holds only entries, so joining it with other things fails
		if ms == nil {
			return
		}
		o := set.NewSortedSet(2)
		for n := h.N(3); n > 0; n-- {
			o.Add(ks.mk(h.N(ks.size)))
		}
		_, err := ms.Union(o)
		h.Check((err != nil) == (o.Size() > 0), "union", "Union of a MapSet with %d items that are no entries gives %v", o.Size(), err)
	}
	h.S.Quiet(func() {
		for n := h.N(12); n > 0; n-- {
			write()
		}
		full()
	})
	share(h, &subject{write: write, full: full, read: func() {
		if h.OneIn(3) {
			mixed()
			return
		}
		full()
	}})
}

// listFaults: iterators panic while a list is extended.
func listFaults(h *H) {
	ks := pickKeys(h, 20)
	b := &broken{h, map[int]int{}}
	room := 1 << 30
	l := list.New(Pick(h, 2, 0, 20))
	if h.OneIn(3) {
		room = Pick(h, 3, 10)
		l = list.Fixed(room)
	}
	var m []int
	content := func(most int) (got []int) {
		for x, next := l.Items()(); next != nil; x, next = next() {
			got = append(got, ks.id(x))
			h.Check(len(got) <= most, "content", "more than %d items", most)
		}
		return
	}
	full := func() {
		got := content(len(m))
		h.Check(sameInts(got, m) && l.Size() == len(m), "content", "the items are %v, size %d, instead of %v", got, l.Size(), m)
	}
	write := func() {
		if len(m) > 0 && h.OneIn(3) {
			x, err := l.Pop()
			h.Check(err == nil && ks.id(x) == m[len(m)-1], "pop", "Pop gives %v, %v", x, err)
			m = m[:len(m)-1]
			return
		}
		var ids []int
		var xs []types.Hashable
		for n := h.N(6); n > 0; n-- {
			ids = append(ids, h.N(ks.size))
			xs = append(xs, ks.mk(ids[len(ids)-1]))
		}
		var err error
		n := h.N(8)
		panicked, _ := b.try(n, func() { err = l.Extend(b.iter(xs)) })
		var got []int
		if panicked {
			got = content(len(m) + n)
		}
		ok := true
		for j, id := range ids {
			if panicked && (j >= n || sameInts(got, m)) {
				break
			}
			if len(m) == room {
				ok = false
				break
			}
			m = append(m, id)
		}
		h.Check(panicked == (ok && n <= len(xs)), "extend", "Extend of %d items, whose iterator panics in call %d: panicked = %v", len(xs), n, panicked)
		h.Check(panicked || ok == (err == nil), "extend", "Extend gives %v", err)
		full()
	}
	h.S.Quiet(func() {
		for n := h.N(6); n > 0; n-- {
			write()
		}
	})
	share(h, &subject{write: write, full: full, read: full})
}

func init() {
	register(&Scenario{Prop: "C26", Name: "sorted", Weight: 2, Race: true, Stalls: true, Steps: 50_000_000, Run: sortedFaults})
	register(&Scenario{Prop: "C26", Name: "shared-tree", Weight: 2, Race: true, Stalls: true, Steps: 50_000_000, Run: handleFaults})
	register(&Scenario{Prop: "C26", Name: "predicates", Weight: 2, Race: true, Stalls: true, Steps: 50_000_000, Run: predicateFaults})
	register(&Scenario{Prop: "C26", Name: "parts", Weight: 2, Race: true, Stalls: true, Steps: 50_000_000, Run: partFaults})
	register(&Scenario{Prop: "C26", Name: "lists", Race: true, Stalls: true, Steps: 50_000_000, Run: listFaults})
}
