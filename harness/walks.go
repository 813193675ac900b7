package main

import (
	"github.com/timtadh/data-structures/tree"
	"github.com/timtadh/data-structures/types"
	"verif.local/sim/simrt"
)

// ---- C27: traversals of trees of the caller

// wnode is a node of any number of children.
type wnode struct {
	h      *H
	b      *broken
	id     int
	kids   []*wnode
	counts bool // can tell the number of its children and get them by index
	plain  bool // handed out as a struct, not as a pointer
}

// vnode is a node that is no pointer.
type vnode struct{ *wnode }

func (n *wnode) handle() types.TreeNode {
	if n != nil && n.plain {
		return vnode{n}
	}
	return n
}

func (n *wnode) Key() types.Hashable { return types.Int(n.id) }
func (n *wnode) Value() interface{}  { return n }
func (n *wnode) ChildCount() int {
	simrt.Yield()
	if !n.counts {
		return -1
	}
	return len(n.kids)
}
func (n *wnode) GetChild(i int) types.TreeNode {
	simrt.Yield()
	n.h.Check(n.counts, "get-child", "GetChild is called on a node that cannot tell the number of its children")
	n.b.panic("node-panic")
	return n.kids[i].handle()
}
func (n *wnode) Children() types.TreeNodeIterator {
	simrt.Yield()
	n.b.panic("node-panic")
	i := 0
	var it types.TreeNodeIterator
	it = func() (types.TreeNode, types.TreeNodeIterator) {
		if i >= len(n.kids) {
			return nil, nil
		}
		i++
		return n.kids[i-1].handle(), it
	}
	return it
}

// bnode is a binary node built with the helpers for such nodes.
type bnode struct {
	b           *broken
	id          int
	left, right *bnode
	typed       bool // absent children are nil pointers, not nil interfaces
	plain       bool
}

type vbnode struct{ *bnode }

func (n *bnode) Key() types.Hashable { return types.Int(n.id) }
func (n *bnode) Value() interface{}  { return n }
func (n *bnode) side(k *bnode) types.BinaryTreeNode {
	simrt.Yield()
	n.b.panic("node-panic")
	if k == nil && !n.typed {
		return nil
	}
	return k.handle()
}
func (n *bnode) handle() types.BinaryTreeNode {
	if n != nil && n.plain {
		return vbnode{n}
	}
	return n
}
func (n *bnode) Left() types.BinaryTreeNode       { return n.side(n.left) }
func (n *bnode) Right() types.BinaryTreeNode      { return n.side(n.right) }
func (n *bnode) ChildCount() int                  { return types.DoChildCount(n) }
func (n *bnode) GetChild(i int) types.TreeNode    { return types.DoGetChild(n, i) }
func (n *bnode) Children() types.TreeNodeIterator { return types.MakeChildrenIterator(n) }

func walkRun(h *H) {
	b := &broken{h, map[int]int{}}
	size := Pick(h, 5, 0, 1, 2, 3, 10, 30, 100)
	if h.OneIn(50) {
		size = 3000
	}
	shape := h.N(4)
	parent := func(i int) int {
		switch shape {
		case 0:
			return h.N(i)
		case 1:
			return i - 1 // a path
		case 2:
			return 0 // a star
		}
		return i - 1 - h.N(min(i, 3))
	}
	var wroot *wnode
	var broot *bnode
	var pre, in, post []int
	binary := h.OneIn(2)
	counts := h.N(3) > 0
	plain := h.OneIn(3)
	h.S.Quiet(func() {
		if binary {
			typed := h.OneIn(2)
			var nodes []*bnode
			for i := 0; i < size; i++ {
				n := &bnode{b: b, id: i, typed: typed, plain: plain}
				if i == 0 {
					broot = n
				} else {
					at := nodes[parent(i)]
					for {
						side := &at.left
						if h.OneIn(2) {
							side = &at.right
						}
						if *side == nil {
							*side = n
							break
						}
						at = *side
					}
				}
				nodes = append(nodes, n)
			}
			var rec func(n *bnode)
			rec = func(n *bnode) {
				if n == nil {
					return
				}
				pre = append(pre, n.id)
				rec(n.left)
				in = append(in, n.id)
				rec(n.right)
				post = append(post, n.id)
			}
			rec(broot)
			return
		}
		var nodes []*wnode
		for i := 0; i < size; i++ {
			n := &wnode{h: h, b: b, id: i, counts: counts, plain: plain}
			if i == 0 {
				wroot = n
			} else {
				at := nodes[parent(i)]
				at.kids = append(at.kids, n)
			}
			nodes = append(nodes, n)
		}
		var rec func(n *wnode)
		rec = func(n *wnode) {
			if n == nil {
				return
			}
			pre = append(pre, n.id)
			for _, k := range n.kids {
				rec(k)
			}
			post = append(post, n.id)
		}
		rec(wroot)
	})

	start := func() (types.TreeNodeIterator, []int, string) {
		var root types.TreeNode = wroot.handle()
		k := h.N(2)
		if binary {
			root = broot.handle()
			k = h.N(3)
			if k == 2 {
				return tree.TraverseBinaryTreeInOrder(broot.handle()), in, "in-order"
			}
		} else if !counts {
			k = 0 // the other one needs the count
		}
		if size == 0 && h.OneIn(2) {
			root = nil
		}
		if k == 1 {
			return tree.TraverseTreePostOrder(root), post, "post-order"
		}
		return tree.TraverseTreePreOrder(root), pre, "pre-order"
	}
	walk := func() {
		it, want, what := start()
		if h.OneIn(4) {
			// several traversals one after the other
			its := []types.TreeNodeIterator{it}
			want = append([]int(nil), want...)
			for n := h.N(3); n > 0; n-- {
				i, w, _ := start()
				its, want = append(its, i), append(want, w...)
			}
			it, what = types.ChainTreeNodeIterators(its...), "chained"
		}
		stop := -1
		if h.OneIn(4) {
			stop = h.N(len(want) + 1)
		}
		n := 0
		seen := func(id int) {
			h.Check(n < len(want), "order", "the %s traversal visits more than %d nodes", what, len(want))
			h.Check(id == want[n], "order", "the %s traversal visits node %d instead of %d at position %d of %d", what, id, want[n], n, len(want))
			n++
		}
		if h.OneIn(4) {
			for k, v, next := types.MakeKVIteratorFromTreeNodeIterator(it)(); next != nil && n != stop; k, v, next = next() {
				id := int(k.(types.Int))
				if binary {
					h.Check(v.(*bnode).id == id, "value", "the value of node %d belongs to another", id)
				} else {
					h.Check(v.(*wnode).id == id, "value", "the value of node %d belongs to another", id)
				}
				seen(id)
			}
		} else {
			for t, next := it(); next != nil && n != stop; t, next = next() {
				seen(int(t.Key().(types.Int)))
			}
		}
		if n != stop {
			h.Check(n == len(want), "order", "the %s traversal visits %d nodes instead of %d", what, n, len(want))
		}
	}
	kills, panics := h.OneIn(3), h.OneIn(3)
	var cs []*simrt.Task
	for c := Pick(h, 2, 1, 3, 4); c > 0; c-- {
		n := h.Range(1, 4)
		t := h.S.Spawn("client", func() {
			for i := 0; i < n; i++ {
				h.Logf("walk")
				at := -1
				if panics && h.OneIn(2) {
					at = h.N(size + 2)
				}
				panicked, fired := b.try(at, walk)
				h.Check(panicked == fired, "swallowed", "the panic of a node does not reach the caller")
			}
		})
		if kills && h.OneIn(2) {
			h.S.KillAfter(t, h.N(300))
		}
		cs = append(cs, t)
	}
	h.S.Join(cs...)
	h.S.Quiet(walk)
}

func init() {
	register(&Scenario{Prop: "C27", Name: "walks", Race: true, Stalls: true, Steps: 50_000_000, Run: walkRun})
}
