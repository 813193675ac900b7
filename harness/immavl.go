package main

import (
	"fmt"
	"sort"
	"unsafe"

	"github.com/timtadh/data-structures/tree"
	"github.com/timtadh/data-structures/tree/avl"
	"github.com/timtadh/data-structures/types"
	"verif.local/sim/simrt"
)

// kv is a model entry; values are unique ints.
type kv struct{ k, v int }

// smap is a small persistent model map: sorted slice, copied on change.
type smap []kv

func (m smap) find(k int) (int, bool) {
	i := sort.Search(len(m), func(i int) bool { return m[i].k >= k })
	return i, i < len(m) && m[i].k == k
}
func (m smap) get(k int) (int, bool) {
	i, ok := m.find(k)
	if !ok {
		return 0, false
	}
	return m[i].v, true
}
func (m smap) put(k, v int) smap {
	i, ok := m.find(k)
	n := append(smap(nil), m...)
	if ok {
		n[i].v = v
		return n
	}
	n = append(n, kv{})
	copy(n[i+1:], n[i:])
	n[i] = kv{k, v}
	return n
}
func (m smap) del(k int) smap {
	i, ok := m.find(k)
	if !ok {
		return m
	}
	return append(append(smap(nil), m[:i]...), m[i+1:]...)
}
func (m smap) hash() uint64 {
	h := uint64(len(m))
	for _, e := range m {
		h = mix(h, uint64(e.k)<<32^uint64(e.v))
	}
	return h
}

func mkKey(v int) *Key { return &Key{v: v, h: v} }

// version is one published root with the content it must have for ever.
type version struct {
	root *avl.ImmutableAvlNode
	m    smap
	id   int
	hb   byte
}

func immCheck(h *H, v *version, full bool) {
	// complete enumeration
	it := v.root.Iterate()
	i := 0
	for k, val, next := it(); next != nil; k, val, next = next() {
		h.Check(i < len(v.m), "version-extra", "version %d enumerates more than its %d pairs (extra key %v)", v.id, len(v.m), k)
		h.Check(k.(*Key).v == v.m[i].k && isVal(val, v.m[i].v), "version-changed", "version %d: pair %d is (%v,%v), expected (k%d,%d)", v.id, i, k, val, v.m[i].k, v.m[i].v)
		i++
	}
	h.Check(i == len(v.m), "version-missing", "version %d enumerates %d of its %d pairs", v.id, i, len(v.m))
	h.Check(v.root.Size() == len(v.m), "version-size", "version %d has size %d, expected %d", v.id, v.root.Size(), len(v.m))
	if full {
		for _, e := range v.m {
			val, err := v.root.Get(mkKey(e.k))
			h.Check(err == nil && isVal(val, e.v), "version-get", "version %d: Get(k%d) = %v, %v; expected %d", v.id, e.k, val, err, e.v)
		}
	}
}

func immRun(h *H) {
	var vs []*version
	keyspace := Pick(h, 4, 8, 16, 40, 100)
	if h.Big && h.OneIn(10) {
		keyspace = 400
	}
	most := large(h)
	if most > 0 {
		most = min(most, 1000)
		keyspace = most
	}
	nextVal := 1
	// initial history, through the tree handle
	tr := avl.NewImmutableAvlTree()
	var m smap
	pub := func(root *avl.ImmutableAvlNode, m smap) *version {
		v := &version{root: root, m: m, id: len(vs)}
		h.S.Release(unsafe.Pointer(&v.hb))
		vs = append(vs, v)
		return v
	}
	rootOf := func() *avl.ImmutableAvlNode {
		r, _ := tr.Root().(*avl.ImmutableAvlNode)
		return r
	}
	h.S.Quiet(func() {
		n := Pick(h, 0, 1, 3, 7, 15, 40, 120)
		if most > 0 {
			n = most
		}
		order := h.N(3)
		for i := 0; i < n; i++ {
			k := 0
			switch order {
			case 0:
				k = i % keyspace
			case 1:
				k = keyspace - 1 - i%keyspace
			default:
				k = h.N(keyspace)
			}
			if order == 2 && h.OneIn(4) {
				tr.Remove(mkKey(k))
				m = m.del(k)
			} else {
				tr.Put(mkKey(k), mkSome(nextVal))
				m = m.put(k, nextVal)
				nextVal++
			}
			if h.OneIn(12 + most/10) {
				pub(rootOf(), m)
			}
		}
		pub(rootOf(), m)
	})
	nc := Pick(h, 2, 3, 4)
	kills := h.OneIn(4)
	panics := h.OneIn(3)
	type op struct{ kind, pick, key, aux int }
	var cs []*simrt.Task
	for c := 0; c < nc; c++ {
		ops := make([]op, h.Range(1, 8))
		for i := range ops {
			ops[i] = op{h.N(10), h.N(1000), h.N(keyspace + 1), h.N(16)}
		}
		kill := -1
		if kills && h.OneIn(2) {
			kill = h.N(400)
		}
		t := h.S.Spawn("client", func() {
			for _, o := range ops {
				// newer versions first: pick 0 is the latest
				v := vs[len(vs)-1-o.pick%len(vs)]
				h.S.Acquire(unsafe.Pointer(&v.hb))
				switch {
				case o.kind < 3: // derive by Put
					var nr *avl.ImmutableAvlNode
					var upd bool
					val := nextVal
					nextVal++
					body := func() { nr, upd = v.root.Put(mkKey(o.key), mkSome(val)) }
					if panics && o.aux < 6 {
						if guarded(h, o.aux, body) {
							continue
						}
					} else {
						body()
					}
					_, had := v.m.get(o.key)
					h.Check(upd == had, "put-updated", "Put of k%d on version %d reports updated=%v", o.key, v.id, upd)
					n := pub(nr, v.m.put(o.key, val))
					h.Logf("version %d = %d + k%d", n.id, v.id, o.key)
				case o.kind < 6: // derive by Remove
					var nr *avl.ImmutableAvlNode
					var val interface{}
					var err error
					body := func() { nr, val, err = v.root.Remove(mkKey(o.key)) }
					if panics && o.aux < 6 {
						if guarded(h, o.aux, body) {
							continue
						}
					} else {
						body()
					}
					want, had := v.m.get(o.key)
					if had {
						h.Check(err == nil && isVal(val, want), "remove-value", "Remove of k%d from version %d = %v, %v; expected %d", o.key, v.id, val, err, want)
					} else {
						h.Check(err != nil, "remove-absent", "Remove of absent k%d from version %d gave no error", o.key, v.id)
					}
					n := pub(nr, v.m.del(o.key))
					h.Logf("version %d = %d - k%d", n.id, v.id, o.key)
				case o.kind < 8: // read everything
					immCheck(h, v, o.aux == 0)
					h.Logf("read version %d", v.id)
				case o.kind == 8: // lookups
					val, err := v.root.Get(mkKey(o.key))
					want, had := v.m.get(o.key)
					h.Check((err == nil) == had && (!had || isVal(val, want)), "version-get", "version %d: Get(k%d) = %v, %v; expected %d,%v", v.id, o.key, val, err, want, had)
					h.Check(v.root.Has(mkKey(o.key)) == had, "version-has", "version %d: Has(k%d) wrong", v.id, o.key)
				default: // abandoned traversal
					n := 0
					var last *Key
					for node, next := tree.TraverseBinaryTreeInOrder(v.root)(); next != nil && n <= o.aux; node, next = next() {
						k := node.(*avl.ImmutableAvlNode).Key().(*Key)
						h.Check(last == nil || last.v < k.v, "version-order", "version %d: traversal not in order", v.id)
						last = k
						n++
					}
					h.Inject("iterator-abandoned")
				}
			}
		})
		cs = append(cs, t)
		if kill >= 0 {
			h.S.KillAfter(t, kill)
		}
	}
	h.S.Join(cs...)
	h.S.Quiet(func() {
		for _, v := range vs {
			immCheck(h, v, true)
		}
	})
}

// ---- C08: one handle shared without locks

func handleRun(h *H) {
	keyspace := Pick(h, 2, 4, 8, 20)
	size := 20
	if h.OneIn(200) {
		keyspace = Pick(h, 60, 200)
		size = Pick(h, 60, 300)
	}
	tr := avl.NewImmutableAvlTree()
	var m smap
	nextVal := 1
	h.S.Quiet(func() {
		n := Pick(h, 0, 1, 3, 8, size)
		for i := 0; i < n; i++ {
			k := h.N(keyspace)
			tr.Put(mkKey(k), mkSome(nextVal))
			m = m.put(k, nextVal)
			nextVal++
		}
	})
	nc := Pick(h, 2, 3, 4)
	seq := uint64(0)
	hist := make([][]*linOp[smap], nc)
	pending := make([]*linOp[smap], nc) // modifications in progress
	kills := h.OneIn(4)
	type op struct{ kind, key int }
	var cs []*simrt.Task
	for c := 0; c < nc; c++ {
		ops := make([]op, h.Range(1, 5))
		for i := range ops {
			ops[i] = op{h.N(12), h.N(keyspace)}
		}
		cs = append(cs, h.S.Spawn("client", func() {
			for _, o := range ops {
				lo := &linOp[smap]{}
				seq++
				lo.inv = seq
				var part func(smap) (smap, bool)
				pending[c] = nil
				switch {
				case o.kind < 3:
					val := nextVal
					nextVal++
					lo.desc = fmt.Sprintf("Put(k%d,%d)", o.key, val)
					h.Logf("call %s", lo.desc)
					part = func(s smap) (smap, bool) { return s.put(o.key, val), true }
					pending[c] = &linOp[smap]{inv: seq, maybe: true, desc: lo.desc + " cut off", parts: []func(smap) (smap, bool){part}}
					err := tr.Put(mkKey(o.key), mkSome(val))
					h.Check(err == nil, "put-error", "Put returned an error")
				case o.kind < 5:
					lo.desc = fmt.Sprintf("Remove(k%d)", o.key)
					h.Logf("call %s", lo.desc)
					pending[c] = &linOp[smap]{inv: seq, maybe: true, desc: lo.desc + " cut off", parts: []func(smap) (smap, bool){
						func(s smap) (smap, bool) { return s.del(o.key), true }}}
					val, err := tr.Remove(mkKey(o.key))
					lo.desc += fmt.Sprintf("=%v,%v", val, err != nil)
					part = func(s smap) (smap, bool) {
						want, had := s.get(o.key)
						if err != nil {
							return s, !had
						}
						return s.del(o.key), had && isVal(val, want)
					}
				case o.kind < 7:
					lo.desc = fmt.Sprintf("Get(k%d)", o.key)
					h.Logf("call %s", lo.desc)
					val, err := tr.Get(mkKey(o.key))
					lo.desc += fmt.Sprintf("=%v,%v", val, err != nil)
					part = func(s smap) (smap, bool) {
						want, had := s.get(o.key)
						if err != nil {
							return s, !had
						}
						return s, had && isVal(val, want)
					}
				case o.kind < 8:
					lo.desc = fmt.Sprintf("Has(k%d)", o.key)
					h.Logf("call %s", lo.desc)
					r := tr.Has(mkKey(o.key))
					lo.desc += fmt.Sprintf("=%v", r)
					part = func(s smap) (smap, bool) { _, had := s.get(o.key); return s, had == r }
				case o.kind < 9:
					lo.desc = "Size()"
					h.Logf("call %s", lo.desc)
					r := tr.Size()
					lo.desc += fmt.Sprintf("=%d", r)
					part = func(s smap) (smap, bool) { return s, len(s) == r }
				default:
					lo.desc = "Iterate()"
					h.Logf("call %s", lo.desc)
					var got smap
					if o.kind == 11 {
						lo.desc = Pick(h, "Keys()", "Values()", "Items()")
						switch lo.desc {
						case "Keys()":
							for k, next := tr.Keys()(); next != nil; k, next = next() {
								got = append(got, kv{k: k.(*Key).v})
							}
						case "Values()":
							for v, next := tr.Values()(); next != nil; v, next = next() {
								got = append(got, kv{v: someVal(v)})
							}
						default:
							var xs []types.Hashable
							for x, next := tr.Items()(); next != nil; x, next = next() {
								xs = append(xs, x)
							}
							for _, x := range xs {
								e := x.(*types.MapEntry)
								got = append(got, kv{e.Key.(*Key).v, someVal(e.Value)})
							}
						}
					} else if o.kind == 9 {
						for k, v, next := tr.Iterate()(); next != nil; k, v, next = next() {
							got = append(got, kv{k.(*Key).v, someVal(v)})
						}
					} else {
						r, _ := tr.Root().(*avl.ImmutableAvlNode)
						if r != nil {
							var walk func(n types.BinaryTreeNode)
							walk = func(n types.BinaryTreeNode) {
								if n == nil {
									return
								}
								x := n.(*avl.ImmutableAvlNode)
								walk(x.Left())
								got = append(got, kv{x.Key().(*Key).v, someVal(x.Value())})
								walk(x.Right())
							}
							walk(r)
						}
					}
					lo.desc += fmt.Sprintf("=%v", got)
					part = func(s smap) (smap, bool) {
						if len(s) != len(got) {
							return s, false
						}
						what := lo.desc[:4]
						for i := range s {
							if what != "Valu" && s[i].k != got[i].k || what != "Keys" && s[i].v != got[i].v {
								return s, false
							}
						}
						return s, true
					}
				}
				seq++
				lo.ret = seq
				lo.parts = []func(smap) (smap, bool){part}
				h.Logf("ret %s", lo.desc)
				hist[c] = append(hist[c], lo)
				pending[c] = nil
			}
		}))
		if kills && h.OneIn(2) {
			h.S.KillAfter(cs[c], h.N(300))
		}
	}
	h.S.Join(cs...)
	for c, lo := range pending {
		if lo != nil {
			hist[c] = append(hist[c], lo)
		}
	}
	// the final content closes the history
	fin := &linOp[smap]{inv: seq + 1, ret: seq + 2}
	var got smap
	for k, v, next := tr.Iterate()(); next != nil; k, v, next = next() {
		got = append(got, kv{k.(*Key).v, someVal(v)})
	}
	fin.desc = fmt.Sprintf("final=%v", got)
	fin.parts = []func(smap) (smap, bool){func(s smap) (smap, bool) { return s, s.hash() == got.hash() }}
	hist = append(hist, []*linOp[smap]{fin})
	if !linearizable(hist, m, smap.hash) {
		h.Fail("not-linearizable", "history of the shared tree is not linearizable: initial %v %s", m, describe(hist))
	}
}

func init() {
	register(&Scenario{Prop: "C07", Name: "versions", Weight: 1, Race: true, Stalls: true, Steps: 3_000_000, Run: immRun})
	register(&Scenario{Prop: "C08", Name: "handle", Weight: 4, Race: true, Stalls: true, Steps: 1_000_000, Run: handleRun})
	register(&Scenario{Prop: "C08", Name: "handle-norace", Weight: 2, Race: false, Stalls: true, Steps: 1_000_000, Run: handleRun})
}
