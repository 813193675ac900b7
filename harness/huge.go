package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	"github.com/timtadh/data-structures/hashtable"
	"github.com/timtadh/data-structures/heap"
	"github.com/timtadh/data-structures/linked"
	"github.com/timtadh/data-structures/list"
	"github.com/timtadh/data-structures/set"
	"github.com/timtadh/data-structures/tree/avl"
	"github.com/timtadh/data-structures/tree/bptree"
	"github.com/timtadh/data-structures/trie"
	"github.com/timtadh/data-structures/types"

	"verif.local/sim/simrt"
)

// Containers with so many items that small counters overflow. A run in ten
// thousand is of this kind; it has a simple history and a simple model.

// hugeOr runs big instead of usual once in a while.
func hugeOr(usual func(h *H), big ...func(h *H)) func(h *H) {
	return func(h *H) {
		if !h.OneIn(10000) {
			usual(h)
			return
		}
		h.S.Cfg.MaxOp *= 100
		h.S.Cfg.MaxSteps *= 20
		h.S.Cfg.MeanGap *= 300
		big[h.N(len(big))](h)
	}
}

// hugeBox is a container of the numbers below n.
type hugeBox struct {
	name    string
	add     func(k int) error
	del     func(k int) error
	has     func(k int) bool
	size    func() int
	each    func(yield func(k int) bool) // in order if ordered
	ordered bool
	ends    bool // add and delete only at the end
	slow    bool // operations take more than logarithmic time
}

func hugeKeys(h *H) *keySpace {
	switch h.N(3) {
	case 0:
		return &keySpace{mk: func(v int) types.Hashable { return types.Int(v) }, id: func(x types.Hashable) int { return int(x.(types.Int)) }}
	case 1:
		return &keySpace{
			mk: func(v int) types.Hashable { return types.String(fmt.Sprintf("%06d", v)) },
			id: func(x types.Hashable) int { v, _ := strconv.Atoi(string(x.(types.String))); return v },
		}
	}
	return &keySpace{mk: func(v int) types.Hashable { return &Key{v: v, h: v} }, id: func(x types.Hashable) int { return x.(*Key).v }}
}

func hugeRun(mk func(h *H) *hugeBox) func(h *H) {
	return func(h *H) {
		b := mk(h)
		n := Pick(h, 5000, 40000, 70000)
		if b.slow {
			n = 5000
		}
		have := make([]bool, n)
		held := 0
		sample := func(m int) {
			k := h.N(n)
			for i := 0; i < m; i++ {
				k = (k + 7919) % n
				h.Check(b.has(k) == have[k], "has", "%s of %d items: %d is there: %v", b.name, held, k, !have[k])
			}
			h.Check(b.size() == held, "size", "%s: size %d instead of %d", b.name, b.size(), held)
		}
		check := func() {
			sample(200)
			seen := make([]bool, n)
			m, last := 0, -1
			b.each(func(k int) bool {
				h.Check(k >= 0 && k < n && have[k] && !seen[k], "enumeration", "%s of %d items: the iteration gives %d", b.name, held, k)
				h.Check(!b.ordered || k > last, "order", "%s of %d items: the iteration gives %d after %d", b.name, held, k, last)
				seen[k], last = true, k
				m++
				return true
			})
			h.Check(m == held, "enumeration", "%s: the iteration gives %d items instead of %d", b.name, m, held)
		}
		pass := func(m int, add bool) {
			order := h.N(3)
			if b.ends {
				order = 0
				if !add {
					order = 1
				}
			}
			for i := 0; i < m; i++ {
				k := i
				switch order {
				case 1:
					k = n - 1 - i
				case 2:
					k = i * 1009 % n
				}
				if have[k] == add {
					continue
				}
				if add {
					h.Check(b.add(k) == nil, "add", "%s of %d items: adding %d fails", b.name, held, k)
					held++
				} else {
					h.Check(b.del(k) == nil, "remove", "%s of %d items: removing %d fails", b.name, held, k)
					held--
				}
				have[k] = add
			}
			check()
		}
		h.S.Quiet(func() {
			pass(n, true)
			if h.OneIn(2) {
				pass(Pick(h, n/2, n-1, n), false)
			}
		})
		var cs []*simrt.Task
		for c := 0; c < 2; c++ {
			cs = append(cs, h.S.Spawn("reader", func() { sample(20) }))
		}
		h.S.Join(cs...)
	}
}

type anyMap interface {
	Put(types.Hashable, interface{}) error
	Get(types.Hashable) (interface{}, error)
	Has(types.Hashable) bool
	Remove(types.Hashable) (interface{}, error)
	Size() int
	Iterate() types.KVIterator
}

func hugeMap(mk func(h *H) (anyMap, string, bool)) func(h *H) {
	return hugeRun(func(h *H) *hugeBox {
		m, name, ordered := mk(h)
		ks := hugeKeys(h)
		return &hugeBox{
			name: name, ordered: ordered, size: m.Size, slow: name == "AVL tree",
			add: func(k int) error { return m.Put(ks.mk(k), mkSome(k)) },
			del: func(k int) error {
				v, err := m.Remove(ks.mk(k))
				h.Check(err != nil || isVal(v, k), "remove", "%s: Remove(%d) = %v", name, k, v)
				return err
			},
			has: func(k int) bool {
				v, err := m.Get(ks.mk(k))
				h.Check(err != nil || isVal(v, k), "get", "%s: Get(%d) = %v", name, k, v)
				h.Check(m.Has(ks.mk(k)) == (err == nil), "has", "%s: Has(%d) and Get(%d) disagree", name, k, k)
				return err == nil
			},
			each: func(yield func(k int) bool) {
				for k, v, next := m.Iterate()(); next != nil; k, v, next = next() {
					h.Check(isVal(v, ks.id(k)), "enumeration", "%s: the iteration gives (%d,%v)", name, ks.id(k), v)
					yield(ks.id(k))
				}
			},
		}
	})
}

var (
	hugeHash = hugeMap(func(h *H) (anyMap, string, bool) {
		return hashtable.NewHashTable(Pick(h, 4, 1000)), "hash table", false
	})
	hugeLinear = hugeMap(func(h *H) (anyMap, string, bool) { return hashtable.NewLinearHash(), "linear hash table", false })
	hugeAvl    = hugeMap(func(h *H) (anyMap, string, bool) { return avl.NewAvlTree(), "AVL tree", true })
	hugeBpMap  = hugeMap(func(h *H) (anyMap, string, bool) {
		return bptree.NewBpMap(nodeSize(h, 5000)), "B+ map", true
	})
)

func hugeBpTree(h *H) {
	hugeRun(func(h *H) *hugeBox {
		t := bptree.NewBpTree(nodeSize(h, 5000))
		ks := hugeKeys(h)
		back := h.OneIn(2)
		return &hugeBox{
			name: "B+ tree", ordered: true, size: t.Size,
			add: func(k int) error { return t.Add(ks.mk(k), mkSome(k)) },
			del: func(k int) error { return t.RemoveWhere(ks.mk(k), func(v interface{}) bool { return isVal(v, k) }) },
			has: func(k int) bool {
				n := t.Count(ks.mk(k))
				h.Check(n <= 1 && t.Has(ks.mk(k)) == (n == 1), "has", "Has(%d) = %v, Count(%d) = %d", k, t.Has(ks.mk(k)), k, n)
				for _, v, next := t.Find(ks.mk(k))(); next != nil; _, v, next = next() {
					h.Check(isVal(v, k), "get", "Find(%d) gives %v", k, v)
					n--
				}
				h.Check(n == 0, "get", "Find(%d) and Count(%d) disagree", k, k)
				return t.Has(ks.mk(k))
			},
			each: func(yield func(k int) bool) {
				var rev []int
				it := t.Iterate()
				if back {
					it = t.Backward()
				}
				for k, v, next := it(); next != nil; k, v, next = next() {
					h.Check(isVal(v, ks.id(k)), "enumeration", "the iteration gives (%d,%v)", ks.id(k), v)
					if back {
						rev = append(rev, ks.id(k))
					} else {
						yield(ks.id(k))
					}
				}
				for i := len(rev) - 1; i >= 0; i-- {
					yield(rev[i])
				}
			},
		}
	})(h)
}

func hugeTrie(h *H) {
	hugeRun(func(h *H) *hugeBox {
		t := trie.New()
		n := 0
		form := Pick(h, "%06d", "%05x", "%017b")
		mk := func(k int) []byte { return []byte(fmt.Sprintf(form, k)) }
		return &hugeBox{
			name: "trie", ordered: true, size: func() int { return n },
			add: func(k int) error { n++; return t.Put(mk(k), mkSome(k)) },
			del: func(k int) error {
				n--
				v, err := t.Remove(mk(k))
				h.Check(err != nil || isVal(v, k), "remove", "Remove(%d) = %v", k, v)
				return err
			},
			has: func(k int) bool {
				v, err := t.Get(mk(k))
				h.Check(err != nil || isVal(v, k), "get", "Get(%d) = %v", k, v)
				h.Check(t.Has(mk(k)) == (err == nil), "has", "Has(%d) and Get(%d) disagree", k, k)
				return err == nil
			},
			each: func(yield func(k int) bool) {
				for x, v, next := t.Iterate()(); next != nil; x, v, next = next() {
					k := someVal(v)
					h.Check(string(x.(types.ByteSlice)) == string(mk(k)), "enumeration", "the iteration gives (%s,%d)", x, k)
					yield(k)
				}
			},
		}
	})(h)
}

// hugeWords: a few very long keys, many of them prefixes of others.
func hugeWords(h *H) {
	t := trie.New()
	n := Pick(h, 600, 3000, 70000)
	m := map[string]int{}
	base := strings.Repeat(Pick(h, "a", "ab", "\x01\xff"), n)[:n]
	word := func() string {
		switch h.N(4) {
		case 0:
			return base[:1+h.N(n)]
		case 1:
			return base + strings.Repeat("b", h.N(4))
		case 2:
			return base[:h.N(n)] + "c"
		}
		return base[:n/2] + "c" + base[:h.N(n)]
	}
	check := func(w string) {
		v, err := t.Get([]byte(w))
		want, had := m[w]
		h.Check((err == nil) == had && (!had || isVal(v, want)), "get", "Get of a key of %d bytes gives %v, %v", len(w), v, err == nil)
		h.Check(t.Has([]byte(w)) == had, "has", "Has of a key of %d bytes gives %v", len(w), !had)
	}
	h.S.Quiet(func() {
		next := 0
		for i := 0; i < 12; i++ {
			w := word()
			if h.N(3) > 0 {
				next++
				h.Check(t.Put([]byte(w), mkSome(next)) == nil, "put", "Put of a key of %d bytes fails", len(w))
				m[w] = next
			} else {
				_, err := t.Remove([]byte(w))
				_, had := m[w]
				h.Check((err == nil) == had, "remove", "Remove of a key of %d bytes gives %v", len(w), err == nil)
				delete(m, w)
			}
			check(w)
			check(word())
		}
		var words []string
		for w := range m {
			words = append(words, w)
		}
		sort.Strings(words)
		p := word()
		for _, w := range words {
			check(w)
		}
		each := func(what string, it types.KVIterator, in func(w string) bool) {
			i := 0
			for k, v, next := it(); next != nil; k, v, next = next() {
				for i < len(words) && !in(words[i]) {
					i++
				}
				h.Check(i < len(words) && string(k.(types.ByteSlice)) == words[i] && isVal(v, m[words[i]]), "enumeration", "%s gives a wrong pair with a key of %d bytes", what, len(k.(types.ByteSlice)))
				i++
			}
			for ; i < len(words); i++ {
				h.Check(!in(words[i]), "enumeration", "%s misses a key of %d bytes", what, len(words[i]))
			}
		}
		each("Iterate", t.Iterate(), func(string) bool { return true })
		each("PrefixFind", t.PrefixFind([]byte(p)), func(w string) bool { return strings.HasPrefix(w, p) })
		each("PrefixFind", t.PrefixFind([]byte(base[:n/2])), func(w string) bool { return strings.HasPrefix(w, base[:n/2]) })
	})
}

// hugeBag: sorted lists and sets
func hugeBag(kinds ...int) func(h *H) {
	return hugeRun(func(h *H) *hugeBox {
		ks := hugeKeys(h)
		b := &hugeBox{ordered: true, ends: true}
		var has func(types.Hashable) bool
		var items func() types.KIterator
		var add, del func(types.Hashable) error
		switch Pick(h, kinds...) {
		case 0:
			l := list.NewSorted(4, h.OneIn(2))
			b.name, b.size, has, items, add, del = "sorted list", l.Size, l.Has, l.Items, l.Add, l.Delete
		case 1:
			l := set.NewSortedSet(4)
			b.name, b.size, has, items, add, del = "sorted set", l.Size, l.Has, l.Items, l.Add, l.Delete
		case 2:
			l := set.NewSetMap(hashtable.NewLinearHash())
			b.ordered, b.ends = false, false
			b.name, b.size, has, items, add, del = "set of a map", l.Size, l.Has, l.Items, l.Add, l.Delete
		default:
			l := set.NewMapSet(set.NewSortedSet(4))
			b.name, b.size, has, items = "map of a set", l.Size, l.Has, l.Keys
			add = func(x types.Hashable) error { return l.Put(x, 1) }
			del = func(x types.Hashable) error { _, err := l.Remove(x); return err }
		}
		b.has = func(k int) bool { return has(ks.mk(k)) }
		b.add = func(k int) error { return add(ks.mk(k)) }
		b.del = func(k int) error { return del(ks.mk(k)) }
		b.each = func(yield func(k int) bool) {
			for x, next := items()(); next != nil; x, next = next() {
				yield(ks.id(x))
			}
		}
		return b
	})
}

// hugeSetOps: union, intersection and difference of the multiples of two numbers.
func hugeSetOps(h *H) {
	ks := hugeKeys(h)
	n := Pick(h, 5000, 40000, 100000)
	mk := func(step int) types.Set {
		var s types.Set = set.NewSortedSet(4)
		if n == 5000 && h.OneIn(2) {
			s = set.NewSetMap(hashtable.NewLinearHash())
		}
		for k := 0; k < n; k += step {
			h.Check(s.Add(ks.mk(k)) == nil, "add", "adding %d fails", k)
		}
		return s
	}
	p, q := Pick(h, 2, 1, 3), Pick(h, 3, 1, 7)
	same := func(what string, s types.Set, err error, in func(k int) bool) {
		h.Check(err == nil, "error", "%s fails", what)
		want, got := 0, 0
		for k := 0; k < n; k++ {
			if in(k) {
				want++
			}
		}
		for x, next := s.Items()(); next != nil; x, next = next() {
			h.Check(in(ks.id(x)), "content", "%s holds %d", what, ks.id(x))
			got++
		}
		h.Check(got == want && s.Size() == want, "content", "%s holds %d items, size %d, instead of %d", what, got, s.Size(), want)
	}
	h.S.Quiet(func() {
		a, b := mk(p), mk(q)
		inA, inB := func(k int) bool { return k%p == 0 }, func(k int) bool { return k%q == 0 }
		s, err := a.Union(b)
		same("the union", s, err, func(k int) bool { return inA(k) || inB(k) })
		s, err = a.Intersect(b)
		same("the intersection", s, err, func(k int) bool { return inA(k) && inB(k) })
		s, err = a.Subtract(b)
		same("the difference", s, err, func(k int) bool { return inA(k) && !inB(k) })
		h.Check(a.Subset(b) == (p%q == 0), "subset", "the multiples of %d are a subset of those of %d: %v", p, q, p%q != 0)
		h.Check(a.Superset(b) == (q%p == 0), "subset", "the multiples of %d are a superset of those of %d: %v", p, q, q%p != 0)
		same("the first operand", a, nil, inA)
		same("the second operand", b, nil, inB)
	})
}

func hugeHeap(unique bool) func(h *H) {
	return func(h *H) {
		ks := hugeKeys(h)
		min := h.OneIn(2)
		hp := heap.NewHeap(Pick(h, 0, 100), min)
		var q heap.PriorityQueue = hp
		if unique {
			q = heap.NewUnique(hp)
		}
		n := Pick(h, 5000, 40000, 70000)
		span := Pick(h, n, 100, 1)
		prio := func(k int) int { return (k*7919%span - span/2) * 3 }
		h.S.Quiet(func() {
			for k := 0; k < n; k++ {
				q.Push(prio(k), ks.mk(k))
			}
			h.Check(q.Size() == n, "size", "Size() = %d instead of %d", q.Size(), n)
			seen := make([]bool, n)
			last := 0
			for i := 0; i < n; i++ {
				top := ks.id(q.Peek().(types.Hashable))
				k := ks.id(q.Pop().(types.Hashable))
				h.Check(k == top && !seen[k], "content", "Pop gives %d, Peek %d, of %d items", k, top, n-i)
				seen[k] = true
				p := prio(k)
				h.Check(i == 0 || min && p >= last || !min && p <= last, "order", "Pop gives priority %d after %d, of %d items", p, last, n-i)
				last = p
			}
			h.Check(q.Size() == 0 && q.Pop() == nil, "size", "Size() = %d after all were popped", q.Size())
		})
	}
}

func hugeDeque(unique bool) func(h *H) {
	return func(h *H) {
		ks := hugeKeys(h)
		var l deque = linked.New()
		if unique {
			l = linked.NewUniqueDeque()
		}
		n := Pick(h, 5000, 40000, 70000)
		h.S.Quiet(func() {
			// ..., 5, 3, 1, 0, 2, 4, ...
			for k := 0; k < n; k++ {
				if k%2 == 0 {
					h.Check(l.EnqueBack(ks.mk(k)) == nil, "add", "EnqueBack fails")
				} else {
					h.Check(l.EnqueFront(ks.mk(k)) == nil, "add", "EnqueFront fails")
				}
			}
			at := func(i int) int {
				if i < n/2 {
					return 2*(n/2-i) - 1
				}
				return 2 * (i - n/2)
			}
			i := 0
			for x, next := l.Items()(); next != nil; x, next = next() {
				h.Check(i < n && ks.id(x) == at(i), "enumeration", "item %d of %d is %d", i, n, ks.id(x))
				i++
			}
			h.Check(i == n && l.Size() == n, "enumeration", "%d items, Size() = %d, instead of %d", i, l.Size(), n)
			for x, next := l.Backwards()(); next != nil; x, next = next() {
				i--
				h.Check(i >= 0 && ks.id(x) == at(i), "enumeration", "item %d of %d is %d from behind", i, n, ks.id(x))
			}
			h.Check(i == 0, "enumeration", "%d items are missing from behind", i)
			h.Check(l.Has(ks.mk(n-1)) && l.Has(ks.mk(n-2)) && l.Has(ks.mk(0)) && !l.Has(ks.mk(n)), "has", "Has of a deque of %d items is wrong", n)
			lo, hi := 0, n
			for lo < hi {
				var x types.Hashable
				var err error
				want := 0
				if h.OneIn(100) || lo%3 == 0 {
					x, err = l.DequeBack()
					hi--
					want = at(hi)
				} else {
					x, err = l.DequeFront()
					want = at(lo)
					lo++
				}
				h.Check(err == nil && ks.id(x) == want, "remove", "%v, %v is taken instead of %d", x, err, want)
			}
			h.Check(l.Size() == 0 && l.First() == nil, "size", "Size() = %d after all were taken", l.Size())
		})
	}
}

// hugeList: lists of many items, compared with each other.
func hugeList(h *H) {
	ks := hugeKeys(h)
	n := Pick(h, 5000, 40000, 70000)
	h.S.Quiet(func() {
		l := list.New(Pick(h, 4, 0, 100))
		ll := linked.New()
		for k := 0; k < n; k++ {
			h.Check(l.Append(ks.mk(k)) == nil && ll.EnqueBack(ks.mk(k)) == nil, "add", "Append fails")
		}
		check := func(l *list.List, n int) {
			h.Check(l.Size() == n, "size", "Size() = %d instead of %d", l.Size(), n)
			i := 0
			for x, next := l.Items()(); next != nil; x, next = next() {
				h.Check(i < n && ks.id(x) == i, "enumeration", "item %d of %d is %d", i, n, ks.id(x))
				i++
			}
			h.Check(i == n, "enumeration", "%d items instead of %d", i, n)
			for x, next := l.ItemsInReverse()(); next != nil; x, next = next() {
				i--
				h.Check(i >= 0 && ks.id(x) == i, "enumeration", "item %d of %d is %d from behind", i, n, ks.id(x))
			}
			for j := 0; j < 100; j++ {
				i := j * 7919 % n
				x, err := l.Get(i)
				h.Check(err == nil && ks.id(x) == i, "get", "Get(%d) = %v, %v", i, x, err)
			}
			h.Check(l.Has(ks.mk(n-1)) && !l.Has(ks.mk(n)) && !l.Has(ks.mk(n+5)), "has", "Has of a list of %d items is wrong", n)
			_, err := l.Get(n)
			h.Check(err != nil, "get", "Get(%d) of %d items gives no error", n, n)
		}
		check(l, n)
		c := l.Copy()
		check(c, n)
		h.Check(l.Equals(c) && c.Equals(l) && l.Equals(ll) && ll.Equals(l), "equals", "lists of the same %d items are not Equal", n)
		h.Check(l.Hash() == c.Hash() && l.Hash() == ll.Hash(), "hash", "lists of the same %d items have different hashes", n)
		h.Check(!l.Less(c) && !c.Less(ll), "less", "one of two equal lists is Less")
		i := Pick(h, n-1, n-2, n/2, 0)
		h.Check(c.Set(i, ks.mk(n)) == nil, "set", "Set fails")
		h.Check(!l.Equals(c) && !c.Equals(ll), "equals", "lists that differ in item %d are Equal", i)
		h.Check(l.Less(c) && ll.Less(c) && !c.Less(l), "less", "Less of lists that differ in item %d is wrong", i)
		check(l, n)
		for j := 0; j < 3; j++ {
			i := Pick(h, n/2, 0, n-1)
			h.Check(l.Insert(i, ks.mk(n)) == nil, "insert", "Insert fails")
			x, err := l.Get(i)
			h.Check(err == nil && ks.id(x) == n, "insert", "Get(%d) after Insert(%d) gives %v, %v", i, i, x, err)
			x, err = l.Get(n)
			h.Check(err == nil && ks.id(x) == n-1, "insert", "the last item after Insert(%d) is %v, %v", i, x, err)
			h.Check(l.Remove(i) == nil, "remove", "Remove fails")
		}
		check(l, n)
		for k := n - 1; k >= n/3; k-- {
			x, err := l.Pop()
			h.Check(err == nil && ks.id(x) == k, "pop", "Pop gives %v, %v instead of %d", x, err, k)
		}
		check(l, n/3)
		m := min(n, 5000)
		s := list.New(4)
		for i := 0; i < m; i++ {
			s.Append(ks.mk(i * 1009 % m))
		}
		sort.Sort(list.NewSortable(s))
		check(s, m)
		h.Check(l.Less(c) && !c.Less(l) && !l.Equals(ll), "less", "Less or Equals of lists that differ in length is wrong")
	})
}
