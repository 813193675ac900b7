package main

import (
	"fmt"
	mrand "math/rand"
	"sort"

	"github.com/timtadh/data-structures/hashtable"
	"github.com/timtadh/data-structures/heap"
	"github.com/timtadh/data-structures/linked"
	"github.com/timtadh/data-structures/list"
	trand "github.com/timtadh/data-structures/rand"
	"github.com/timtadh/data-structures/set"
	"github.com/timtadh/data-structures/tree/avl"
	"github.com/timtadh/data-structures/tree/bptree"
	"github.com/timtadh/data-structures/trie"
	"github.com/timtadh/data-structures/types"
	"verif.local/sim/simrt"
)

// ---- C28: separate objects are independent

// an object of the library used by one goroutine only
type object struct {
	name  string
	op    func(k int, add bool)
	write func()
	read  func()
	full  func()
}

const objectKinds = 16

func mapObject(h *H, ks *keySpace, name string, m types.Map, ordered bool) *object {
	s := &mapSubject{h: h, ks: ks, m: m, ordered: ordered, next: 1}
	if t, ok := m.(*avl.AvlTree); ok {
		s.extra = func() { s.traversals(t.Root()) }
	}
	return &object{name, s.op, s.write, s.read, s.full}
}

func listObject(h *H, ks *keySpace, l *list.List, m []int) *object {
	s := &listSubject{h: h, ks: ks, l: l, m: append([]int(nil), m...), cap: -1}
	return &object{"list", s.op, s.write, s.read, s.full}
}

func sortedObject(h *H, ks *keySpace, l *list.Sorted, m []int, dups bool) *object {
	s := &sortedSubject{h: h, ks: ks, l: l, m: append([]int(nil), m...), cap: -1, dups: dups}
	return &object{"sorted list", s.op, s.write, s.read, s.full}
}

func setObject(h *H, ks *keySpace, sets ...*setOfInts) *object {
	s := &setSubject{h: h, ks: ks, sets: sets}
	op := func(k int, add bool) { s.op(s.sets[h.N(len(s.sets))], k, add) }
	read := func() {
		if x, ok := s.sets[0].s.(*set.SortedSet); ok && h.OneIn(4) {
			it, err := x.Random()
			h.Check((err == nil) == (len(s.sets[0].m) > 0), "random-error", "Random gives the error %v", err)
			h.Check(err != nil || s.sets[0].has(ks.id(it)), "random-foreign", "Random gives %v, not a member", it)
			return
		}
		s.read()
	}
	return &object{s.sets[0].kind, op, s.write, read, s.full}
}

func newObject(h *H, ks *keySpace, kind int) *object {
	switch kind {
	case 0:
		return listObject(h, ks, list.New(Pick(h, 4, 0, 1)), nil)
	case 1:
		dups := h.OneIn(2)
		return sortedObject(h, ks, list.NewSorted(Pick(h, 4, 0, 1), dups), nil, dups)
	case 2:
		sets := []*setOfInts{{s: set.NewSortedSet(4), kind: "sorted set", ordered: true}}
		if h.OneIn(2) {
			sets = append(sets, &setOfInts{s: set.NewSetMap(newMap(h)), kind: "map as set"})
		}
		return setObject(h, ks, sets...)
	case 3:
		return mapObject(h, ks, "hash table", hashtable.NewHashTable(Pick(h, 4, 1, 16)), false)
	case 4:
		return mapObject(h, ks, "linear hash table", hashtable.NewLinearHash(), false)
	case 5:
		return mapObject(h, ks, "AVL tree", avl.NewAvlTree(), true)
	case 6:
		return mapObject(h, ks, "immutable AVL tree", avl.NewImmutableAvlTree(), true)
	case 7:
		return mapObject(h, ks, "B+ tree map", bptree.NewBpMap(nodeSize(h, 0)), true)
	case 8:
		m := &mmSubject{h: h, ks: ks, t: bptree.NewBpTree(nodeSize(h, 0)), next: 1}
		return &object{"B+ tree", m.op, m.write, m.read, m.full}
	case 9:
		return mapObject(h, ks, "set as map", set.NewMapSet(set.NewSortedSet(4)), true)
	case 10, 11:
		s := &dequeSubject{h: h, ks: ks, unique: kind == 11}
		if s.unique {
			s.l = linked.NewUniqueDeque()
		} else {
			s.l = linked.New()
		}
		return &object{"deque", s.op, s.write, s.read, s.full}
	case 12:
		s := &heapSubject{h: h, ks: ks, min: h.OneIn(2), next: 1, prios: Pick(h, 4, 1, 20)}
		s.hp = heap.NewHeap(Pick(h, 4, 0), s.min)
		s.q = s.hp
		if h.OneIn(2) {
			s.u = heap.NewUnique(s.hp)
			s.q = s.u
		}
		return &object{"heap", s.op, func() { s.op(h.N(ks.size), h.OneIn(2)) }, s.read, func() { s.full(); s.drainAll() }}
	case 13:
		s := &tstSubject{h: h, t: trie.New(), next: 1, alpha: Pick(h, "ab", "a", "\x01a\xff"), maxl: Pick(h, 3, 1, 8)}
		return &object{"trie", func(k int, add bool) { s.op(s.key(), add) }, s.write, s.read, s.full}
	case 14:
		return generatorObject(h)
	}
	return codecObject(h)
}

// generatorObject: a generator gives what math/rand gives for its seed.
func generatorObject(h *H) *object {
	seed := seedOf(h.N(40) + 1)
	r, ref := trand.ThreadSafeRand(seed), mrand.New(mrand.NewSource(seed))
	draw := func() {
		var got, want interface{}
		switch h.N(6) {
		case 0:
			got, want = r.Int63(), ref.Int63()
		case 1:
			n := 1 + h.N(1000)
			got, want = r.Intn(n), ref.Intn(n)
		case 2:
			got, want = r.Float64(), ref.Float64()
		case 3:
			n := h.N(6)
			got, want = fmt.Sprint(r.Perm(n)), fmt.Sprint(ref.Perm(n))
		case 4:
			b, c := make([]byte, h.N(12)), make([]byte, 12)
			r.Read(b)
			ref.Read(c[:len(b)])
			got, want = string(b), string(c[:len(b)])
		default:
			got, want = r.Uint64(), ref.Uint64()
		}
		h.Check(got == want, "draw", "the generator seeded with %d gives %v instead of %v", seed, got, want)
	}
	seedIt := func() {
		seed = seedOf(h.N(40) + 1)
		r.Seed(seed)
		ref.Seed(seed)
	}
	return &object{"generator", func(int, bool) { draw() }, seedIt, draw, draw}
}

// codecObject: a container written and read back between modifications.
func codecObject(h *H) *object {
	cd := codecs[h.N(len(codecs))]
	var items []types.Hashable
	kind := h.N(3)
	l, s, ss := list.New(4), list.NewSorted(4, true), set.NewSortedSet(4)
	add := func() {
		x := cd.gen(h)
		for _, y := range items {
			if kind == 2 && x.Equals(y) {
				return
			}
		}
		items = append(items, x)
		if kind > 0 {
			sort.SliceStable(items, func(i, j int) bool { return items[i].Less(items[j]) })
		}
		var err error
		switch kind {
		case 0:
			err = l.Append(x)
		case 1:
			err = s.Add(x)
		default:
			err = ss.Add(x)
		}
		h.Check(err == nil, "add", "adding an item fails: %v", err)
	}
	trip := func() {
		mf, uf := cd.mk()
		b, err := mkCont(kind, l, s, ss, mf, uf).marshal()
		h.Check(err == nil, "encode", "%s: encoding fails: %v", cd.name, err)
		d := mkCont(kind, list.New(4), list.NewSorted(4, true), set.NewSortedSet(4), mf, uf)
		err = d.unmar(b)
		h.Check(err == nil, "decode", "%s: decoding fails: %v", cd.name, err)
		var want []string
		for _, x := range items {
			want = append(want, render(x))
		}
		h.Check(same(d.items(), want), "roundtrip-items", "%s: items differ: %.300v instead of %.300v", cd.name, d.items(), want)
	}
	return &object{"codec", func(int, bool) { add() }, add, trip, trip}
}

// objectsRun: every client has objects of its own and knows nothing of the
// others. Some die or leave half-way through an operation that panics.
func objectsRun(h *H) {
	nc := Pick(h, 2, 3, 4)
	kind := -1
	if h.N(3) > 0 {
		kind = h.N(objectKinds)
	}
	var ks *keySpace
	if h.OneIn(2) {
		ks = sharedKeys(h)
	}
	// up to the growth threshold of the larger tables
	near := (kind == 4 || kind == 11 || kind == 12) && h.OneIn(20)
	if near {
		ks = spreadKeys(h, 600)
	}
	work := clientWork(h)
	var cs []*simrt.Task
	for c := 0; c < nc; c++ {
		k := kind
		if k < 0 {
			k = h.N(objectKinds)
		}
		kill := -1
		if h.OneIn(6) {
			kill = h.N(400)
		}
		t := h.S.Spawn("client", func() {
			keys := ks
			if keys == nil {
				keys = pickKeys(h, Pick(h, 4, 1, 12, 40))
			}
			o := newObject(h, keys, k)
			if near {
				h.S.Quiet(func() {
					for i, n := 0, h.Range(360, 385); i < n; i++ {
						o.op(i, true)
					}
				})
			}
			work(o, keys)
		})
		if kill >= 0 {
			h.S.KillAfter(t, kill)
		}
		cs = append(cs, t)
	}
	h.S.Join(cs...)
}

// sharedKeys: the very same key objects are used by everyone
func sharedKeys(h *H) *keySpace {
	ks := pickKeys(h, Pick(h, 4, 1, 12, 40))
	mk, made := ks.mk, map[int]types.Hashable{}
	ks.mk = func(v int) types.Hashable {
		x, ok := made[v]
		if !ok {
			x = mk(v)
			made[v] = x
		}
		return x
	}
	return ks
}

func clientWork(h *H) func(o *object, ks *keySpace) {
	most := Pick(h, 10, 25, 60)
	panics := h.OneIn(3)
	return func(o *object, ks *keySpace) {
		h.Logf("%s", o.name)
		doomed := -1
		n := h.Range(1, most)
		if panics && h.OneIn(2) {
			doomed = h.N(n)
		}
		step := func() {
			switch h.N(4) {
			case 0:
				o.read()
			case 1:
				o.write()
			default:
				o.op(h.N(ks.size), h.N(3) > 0)
			}
		}
		for i := 0; i < n; i++ {
			if i == doomed && guarded(h, h.N(12), step) {
				return // this one may be damaged, the others must not be
			}
			if i != doomed {
				step()
			}
		}
		o.full()
	}
}

// derivedRun: objects made from one another are separate, too.
func derivedRun(h *H) {
	ks := sharedKeys(h)
	var first *object
	var derive func() *object
	var shared []types.Hashable
	h.S.Quiet(func() {
		n := Pick(h, 3, 0, 1, 8, 20)
		switch h.N(4) {
		case 0:
			s := &listSubject{h: h, ks: ks, l: list.New(Pick(h, 4, 0, 100)), cap: -1}
			drive(h, n, ks.size, s.op, s.full)
			m := append([]int(nil), s.m...)
			first = &object{"list", s.op, s.write, s.read, s.full}
			derive = func() *object {
				if h.OneIn(3) {
					l := list.New(0)
					if err := l.Extend(s.l.Items()); err != nil {
						h.Fail("extend", "Extend fails: %v", err)
					}
					return listObject(h, ks, l, m)
				}
				return listObject(h, ks, s.l.Copy(), m)
			}
		case 1:
			dups := h.OneIn(2)
			s := &sortedSubject{h: h, ks: ks, l: list.NewSorted(Pick(h, 4, 0, 100), dups), cap: -1, dups: dups}
			drive(h, n, ks.size, s.op, s.full)
			m := append([]int(nil), s.m...)
			first = &object{"sorted list", s.op, s.write, s.read, s.full}
			derive = func() *object { return sortedObject(h, ks, s.l.Copy(), m, dups) }
		case 2:
			entries := h.OneIn(2)
			if entries {
				mk, id := ks.mk, ks.id
				made := map[int]types.Hashable{}
				ks.mk = func(v int) types.Hashable {
					if made[v] == nil {
						made[v] = &types.MapEntry{Key: mk(v), Value: v}
					}
					return made[v]
				}
				ks.id = func(x types.Hashable) int { return id(x.(*types.MapEntry).Key) }
			}
			s := &setSubject{h: h, ks: ks}
			a, b := s.fresh(entries), s.fresh(entries)
			s.sets = []*setOfInts{a, b}
			drive(h, n, ks.size, func(k int, add bool) { s.op(s.sets[h.N(2)], k, add) }, s.full)
			if h.OneIn(4) {
				b = a
				first = setObject(h, ks, a)
			} else {
				first = setObject(h, ks, a, b)
			}
			am, bm := append([]int(nil), a.m...), append([]int(nil), b.m...)
			ax, bx := &setOfInts{m: am}, &setOfInts{m: bm}
			derive = func() *object {
				r := &setOfInts{kind: "result"}
				for k := 0; k < ks.size; k++ {
					r.m = append(r.m, k)
				}
				var err error
				keep := func(f func(k int) bool) {
					var m []int
					for _, k := range r.m {
						if f(k) {
							m = append(m, k)
						}
					}
					r.m = m
				}
				if c, ok := a.s.(*set.SortedSet); ok && h.OneIn(4) {
					r.s = c.Copy()
					keep(ax.has)
				} else if h.OneIn(5) {
					r.s = set.SortedFromSet(b.s)
					keep(bx.has)
				} else {
					switch h.N(3) {
					case 0:
						r.s, err = a.s.Union(b.s)
						keep(func(k int) bool { return ax.has(k) || bx.has(k) })
					case 1:
						r.s, err = a.s.Intersect(b.s)
						keep(func(k int) bool { return ax.has(k) && bx.has(k) })
					default:
						r.s, err = a.s.Subtract(b.s)
						keep(func(k int) bool { return ax.has(k) && !bx.has(k) })
					}
				}
				h.Check(err == nil, "algebra", "a set operation fails: %v", err)
				return setObject(h, ks, r)
			}
		default:
			// lists and sets filled from one slice of the caller's
			var ms []int
			for ; n > 0; n-- {
				k := h.N(ks.size)
				ms = append(ms, k)
				shared = append(shared, ks.mk(k))
			}
			sorted := append([]int(nil), ms...)
			sort.Ints(sorted)
			uniq := sorted[:0:0]
			for i, k := range sorted {
				if i == 0 || k != sorted[i-1] {
					uniq = append(uniq, k)
				}
			}
			derive = func() *object {
				switch h.N(3) {
				case 0:
					return listObject(h, ks, list.FromSlice(shared), ms)
				case 1:
					return sortedObject(h, ks, list.SortedFromSlice(shared, true), sorted, true)
				}
				return setObject(h, ks, &setOfInts{s: set.FromSlice(shared), kind: "sorted set", m: append([]int(nil), uniq...), ordered: true})
			}
			first = derive()
		}
	})
	work := clientWork(h)
	var objs []*object
	nc := Pick(h, 2, 3, 4)
	if h.OneIn(2) {
		// the copies are made at the same time
		var ts []*simrt.Task
		for c := 1; c < nc; c++ {
			ts = append(ts, h.S.Spawn("maker", func() { objs = append(objs, derive()) }))
		}
		h.S.Join(ts...)
	} else {
		h.S.Quiet(func() {
			for c := 1; c < nc; c++ {
				objs = append(objs, derive())
			}
		})
	}
	objs = append(objs, first)
	var cs []*simrt.Task
	for _, o := range objs {
		o := o
		kill := -1
		if h.OneIn(6) {
			kill = h.N(400)
		}
		t := h.S.Spawn("client", func() { work(o, ks) })
		if kill >= 0 {
			h.S.KillAfter(t, kill)
		}
		cs = append(cs, t)
	}
	h.S.Join(cs...)
}

func init() {
	register(&Scenario{Prop: "C28", Name: "objects", Weight: 3, Race: true, Stalls: true, Steps: 200_000_000, Run: objectsRun})
	register(&Scenario{Prop: "C28", Name: "derived", Weight: 2, Race: true, Stalls: true, Steps: 200_000_000, Run: derivedRun})
}
