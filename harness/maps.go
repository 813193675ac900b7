package main

import (
	"sort"

	"github.com/timtadh/data-structures/hashtable"
	"github.com/timtadh/data-structures/tree"
	"github.com/timtadh/data-structures/tree/avl"
	"github.com/timtadh/data-structures/types"
)

type itemser interface{ Items() types.KIterator }

// mapSubject checks any map of the library against the sorted model.
type mapSubject struct {
	h        *H
	ks       *keySpace
	m        types.Map
	model    omap
	ordered  bool
	next     int
	extra    func() // further reads of the concrete container
	keyItems bool   // Items enumerates keys, not pairs
	large    int    // items put in first
}

// sameKVs compares an enumeration with the model.
func (s *mapSubject) sameKVs(got []kvx, what string) {
	h := s.h
	h.Check(len(got) == len(s.model.s), "enumeration", "%s gives %d pairs instead of %d", what, len(got), len(s.model.s))
	if !s.ordered {
		sort.SliceStable(got, func(i, j int) bool { return got[i].k < got[j].k })
	}
	for i, e := range s.model.s {
		h.Check(got[i].k == e.k, "enumeration", "%s: key %d where %d is expected", what, got[i].k, e.k)
		h.Check(eqVal(got[i].v, e.v), "enumeration", "%s: value of %d is %v instead of %v", what, e.k, got[i].v, mkVal(e.v))
	}
}

type kvx struct {
	k int
	v interface{}
}

// drain looks at what was handed out only at the end.
func (s *mapSubject) drain(it types.KVIterator) (out []kvx) {
	var ks []types.Hashable
	for k, v, next := it(); next != nil; k, v, next = next() {
		out = append(out, kvx{v: v})
		ks = append(ks, k)
		s.h.Check(len(out) <= len(s.model.s), "enumeration", "iteration gives more than the %d pairs", len(s.model.s))
	}
	for i, k := range ks {
		out[i].k = s.ks.id(k)
	}
	return out
}

func (s *mapSubject) lookup(k int) {
	h := s.h
	want, had := s.model.get(k)
	v, err := s.m.Get(s.ks.mk(k))
	if had {
		h.Check(err == nil, "get", "Get(%d) fails: %v", k, err)
		h.Check(eqVal(v, want), "get", "Get(%d) = %v instead of %v", k, v, mkVal(want))
	} else {
		h.Check(err != nil, "get-absent", "Get of absent %d gives %v and no error", k, v)
	}
	has := s.m.Has(s.ks.mk(k))
	h.Check(has == had, "has", "Has(%d) = %v", k, has)
	if h.OneIn(20) {
		x := foreign(h, s.ks)
		v, err := s.m.Get(x)
		h.Check(err != nil && !s.m.Has(x), "foreign", "a key of another type (%T) is found with the value %v", x, v)
	}
}

func (s *mapSubject) op(k int, add bool) {
	h := s.h
	want, had := s.model.get(k)
	if add {
		v := s.next
		s.next++
		err := s.m.Put(s.ks.mk(k), mkVal(v))
		h.Check(err == nil, "put", "Put(%d) fails: %v", k, err)
		s.model.put(k, v)
	} else {
		v, err := s.m.Remove(s.ks.mk(k))
		if had {
			h.Check(err == nil, "remove", "Remove(%d) fails: %v", k, err)
			h.Check(eqVal(v, want), "remove", "Remove(%d) = %v instead of %v", k, v, mkVal(want))
		} else {
			h.Check(err != nil, "remove-absent", "Remove of absent %d gives no error", k)
		}
		s.model.del(k)
	}
	if h.OneIn(4) && s.large == 0 || s.large > 0 && h.OneIn(100) {
		h.Check(s.m.Size() == len(s.model.s), "size", "Size() = %d instead of %d", s.m.Size(), len(s.model.s))
		s.lookup(k)
	}
}

func (s *mapSubject) write() {
	h := s.h
	k := h.N(s.ks.size)
	if len(s.model.s) > 0 && h.OneIn(2) {
		k = s.model.s[h.N(len(s.model.s))].k
	}
	s.op(k, h.N(2) == 0)
}

func (s *mapSubject) full() {
	h := s.h
	h.Check(s.m.Size() == len(s.model.s), "size", "Size() = %d instead of %d", s.m.Size(), len(s.model.s))
	s.sameKVs(s.drain(s.m.Iterate()), "Iterate")
	for _, e := range s.model.s {
		v, err := s.m.Get(s.ks.mk(e.k))
		h.Check(err == nil && eqVal(v, e.v), "get", "Get(%d) = %v, %v instead of %v", e.k, v, err, mkVal(e.v))
	}
	for i := 0; i < 4; i++ {
		s.lookup(h.N(s.ks.size + 1))
	}
	if s.extra != nil {
		s.extra()
	}
}

func (s *mapSubject) read() {
	h := s.h
	switch h.N(9) {
	case 0, 1:
		k := h.N(s.ks.size + 1)
		if len(s.model.s) > 0 && h.OneIn(2) {
			k = s.model.s[h.N(len(s.model.s))].k
		}
		s.lookup(k)
	case 2:
		h.Check(s.m.Size() == len(s.model.s), "size", "Size() = %d instead of %d", s.m.Size(), len(s.model.s))
	case 3:
		s.sameKVs(s.drain(s.m.Iterate()), "Iterate")
	case 4: // two enumerations interleaved
		a, b := s.m.Iterate(), s.m.Iterate()
		var ga, gb []kvx
		for a != nil || b != nil {
			if a != nil && (b == nil || h.OneIn(2)) {
				var k types.Hashable
				var v interface{}
				if k, v, a = a(); a != nil {
					ga = append(ga, kvx{s.ks.id(k), v})
				}
			} else {
				var k types.Hashable
				var v interface{}
				if k, v, b = b(); b != nil {
					gb = append(gb, kvx{s.ks.id(k), v})
				}
			}
			h.Check(len(ga) <= len(s.model.s) && len(gb) <= len(s.model.s), "enumeration", "interleaved iteration gives more than the %d pairs", len(s.model.s))
		}
		s.sameKVs(ga, "first of two interleaved iterations")
		s.sameKVs(gb, "second of two interleaved iterations")
	case 5: // abandoned enumeration
		n := h.N(8)
		i := 0
		for k, v, next := s.m.Iterate()(); next != nil && i < n; k, v, next = next() {
			want, had := s.model.get(s.ks.id(k))
			h.Check(had && eqVal(v, want), "enumeration", "iteration gives (%d,%v)", s.ks.id(k), v)
			h.Check(!s.ordered || s.model.s[i].k == s.ks.id(k), "enumeration", "iteration gives key %d at position %d", s.ks.id(k), i)
			i++
		}
		h.Inject("iterator-abandoned")
	case 6:
		var keys []types.Hashable
		for k, next := s.m.Keys()(); next != nil; k, next = next() {
			keys = append(keys, k)
			h.Check(len(keys) <= len(s.model.s), "enumeration", "Keys gives more than the %d keys", len(s.model.s))
		}
		var ks []int
		for _, k := range keys {
			ks = append(ks, s.ks.id(k))
		}
		if !s.ordered {
			sort.Ints(ks)
		}
		h.Check(len(ks) == len(s.model.s), "enumeration", "Keys gives %d keys instead of %d", len(ks), len(s.model.s))
		for i, e := range s.model.s {
			h.Check(ks[i] == e.k, "enumeration", "Keys gives %d where %d is expected", ks[i], e.k)
		}
	case 7:
		var vs []interface{}
		for v, next := s.m.Values()(); next != nil; v, next = next() {
			vs = append(vs, v)
			h.Check(len(vs) <= len(s.model.s), "enumeration", "Values gives more than the %d values", len(s.model.s))
		}
		h.Check(len(vs) == len(s.model.s), "enumeration", "Values gives %d values instead of %d", len(vs), len(s.model.s))
		if s.ordered {
			for i, e := range s.model.s {
				h.Check(eqVal(vs[i], e.v), "enumeration", "Values gives %v where %v is expected", vs[i], mkVal(e.v))
			}
		} else {
			n := map[int]int{}
			for _, v := range vs {
				n[vid(v)]++
			}
			for _, e := range s.model.s {
				n[vid(mkVal(e.v))]--
				h.Check(n[vid(mkVal(e.v))] >= 0, "enumeration", "Values misses %v", mkVal(e.v))
			}
		}
	default:
		if it, ok := s.m.(itemser); ok && !s.keyItems && h.OneIn(2) {
			var xs []types.Hashable
			for x, next := it.Items()(); next != nil; x, next = next() {
				xs = append(xs, x)
				h.Check(len(xs) <= len(s.model.s), "enumeration", "Items gives more than the %d pairs", len(s.model.s))
			}
			var got []kvx
			for _, x := range xs {
				e := x.(*types.MapEntry)
				got = append(got, kvx{s.ks.id(e.Key), e.Value})
			}
			s.sameKVs(got, "Items")
		} else if s.extra != nil {
			s.extra()
		} else {
			s.sameKVs(s.drain(s.m.Iterate()), "Iterate")
		}
	}
}

func (s *mapSubject) run(long int) {
	h := s.h
	h.S.Quiet(func() {
		fill(h, s.large, s.op, s.full)
		drive(h, max(histLen(h, long), s.large/2), s.ks.size, s.op, s.full)
	})
	share(h, &subject{write: s.write, read: s.read, full: s.full})
}

func newMapSubject(h *H, m types.Map, ordered bool, sizes ...int) *mapSubject {
	if n := large(h); n > 0 {
		return &mapSubject{h: h, ks: spreadKeys(h, n), m: m, ordered: ordered, next: 1, large: n}
	}
	size := Pick(h, sizes...)
	return &mapSubject{h: h, ks: pickKeys(h, size), m: m, ordered: ordered, next: 1}
}

// ---- C12

func hashRun(h *H) {
	t := hashtable.NewHashTable(Pick(h, 4, 0, 1, 2, 3, 16, 100))
	s := newMapSubject(h, t, false, 8, 3, 5, 30, 100, 300)
	if s.ks.size <= 8 && h.OneIn(2) {
		s.ks = keysOf(h, s.ks.size, 1)
	} else if h.OneIn(10) {
		s.ks = mixedKeys(s.ks.size)
	}
	s.run(400)
}

func linhashRun(h *H) {
	t := hashtable.NewLinearHash()
	if h.OneIn(25) {
		// grow beyond the split thresholds
		s := newMapSubject(h, t, false, 500, 900, 1700)
		s.ks = spreadKeys(h, s.ks.size)
		h.S.Quiet(func() {
			n := h.Range(350, s.ks.size)
			rev := h.OneIn(2)
			for i := 0; i < n; i++ {
				k := i
				if rev {
					k = n - 1 - i
				}
				s.op(k, true)
			}
			if h.OneIn(3) {
				// shrink and grow again
				first, step := h.N(n), Pick(h, 1, 7, 997)
				for i := Pick(h, n/2, n-n/10, n); i > 0; i-- {
					s.op((first+i*step)%n, false)
				}
				for i := 0; i < n/2; i++ {
					s.op(h.N(s.ks.size), true)
				}
			}
			s.full()
		})
		s.run(100)
		return
	}
	newMapSubject(h, t, false, 8, 3, 30, 100, 300).run(600)
}

// ---- C13

// nodeMap drives the tree nodes' own methods, as the linear hash does.
type nodeMap struct{ *avl.AvlNode }

func (n *nodeMap) Put(k types.Hashable, v interface{}) error {
	n.AvlNode, _ = n.AvlNode.Put(k, v)
	return nil
}
func (n *nodeMap) Remove(k types.Hashable) (v interface{}, err error) {
	n.AvlNode, v, err = n.AvlNode.Remove(k)
	return v, err
}

type node interface {
	types.BinaryTreeNode
	Key() types.Hashable
	Value() interface{}
}

func (s *mapSubject) traversals(root types.TreeNode) {
	h := s.h
	var rec func(n types.TreeNode, pre, post *[]types.TreeNode)
	rec = func(n types.TreeNode, pre, post *[]types.TreeNode) {
		h.Check(len(*pre) <= len(s.model.s), "traversal", "the tree has more than %d nodes", len(s.model.s))
		*pre = append(*pre, n)
		b := n.(types.BinaryTreeNode)
		var kids []types.TreeNode
		if l := b.Left(); l != nil && !types.IsNil(l) {
			kids = append(kids, l)
		}
		if r := b.Right(); r != nil && !types.IsNil(r) {
			kids = append(kids, r)
		}
		h.Check(n.ChildCount() == len(kids), "traversal", "ChildCount is %d instead of %d", n.ChildCount(), len(kids))
		for i, k := range kids {
			h.Check(n.GetChild(i) == k, "traversal", "GetChild(%d) is not that child", i)
			rec(k, pre, post)
		}
		i := 0
		for c, next := n.Children()(); next != nil; c, next = next() {
			h.Check(i < len(kids) && c == kids[i], "traversal", "Children gives a wrong node")
			i++
		}
		h.Check(i == len(kids), "traversal", "Children gives %d of %d", i, len(kids))
		*post = append(*post, n)
	}
	var pre, post []types.TreeNode
	if root != nil && !types.IsNil(root) {
		rec(root, &pre, &post)
	}
	h.Check(len(pre) == len(s.model.s), "traversal", "the tree has %d nodes instead of %d", len(pre), len(s.model.s))
	walk := func(what string, it types.TreeNodeIterator, want []types.TreeNode) {
		i := 0
		for n, next := it(); next != nil; n, next = next() {
			h.Check(i < len(want), "traversal", "%s visits more than %d nodes", what, len(want))
			h.Check(want[i] == n, "traversal", "%s visits a wrong node at position %d", what, i)
			i++
		}
		h.Check(i == len(want), "traversal", "%s visits %d of %d nodes", what, i, len(want))
	}
	walk("pre-order traversal", tree.TraverseTreePreOrder(root), pre)
	walk("post-order traversal", tree.TraverseTreePostOrder(root), post)
	br, _ := root.(types.BinaryTreeNode)
	var got []kvx
	for n, next := tree.TraverseBinaryTreeInOrder(br)(); next != nil; n, next = next() {
		got = append(got, kvx{s.ks.id(n.(node).Key()), n.(node).Value()})
		h.Check(len(got) <= len(s.model.s), "traversal", "in-order traversal visits more than %d nodes", len(s.model.s))
	}
	s.sameKVs(got, "in-order traversal")
}

func avlRun(h *H) {
	switch h.N(5) {
	case 0, 1:
		t := avl.NewAvlTree()
		s := newMapSubject(h, t, true, 8, 3, 16, 40, 200)
		s.extra = func() { s.traversals(t.Root()) }
		s.run(500)
	case 2, 3:
		t := avl.NewImmutableAvlTree()
		s := newMapSubject(h, t, true, 8, 3, 16, 40, 200)
		s.extra = func() { s.traversals(t.Root()) }
		s.run(500)
	default:
		n := &nodeMap{}
		s := newMapSubject(h, n, true, 8, 3, 16, 40)
		s.extra = func() { s.traversals(n.AvlNode) }
		s.run(200)
	}
}

func init() {
	register(&Scenario{Prop: "C12", Name: "hash", Race: true, Stalls: true, Steps: 200_000_000, Run: hugeOr(hashRun, hugeHash)})
	register(&Scenario{Prop: "C12", Name: "linear-hash", Race: true, Stalls: true, Steps: 200_000_000, Run: hugeOr(linhashRun, hugeLinear)})
	register(&Scenario{Prop: "C13", Name: "avl", Race: true, Stalls: true, Steps: 200_000_000, Run: hugeOr(avlRun, hugeAvl)})
}
