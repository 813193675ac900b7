package main

import (
	"sort"

	"github.com/timtadh/data-structures/tree/bptree"
	"github.com/timtadh/data-structures/types"
)

// ---- C14: B+ trees

type ment struct {
	k  int
	vs []int
}

// mmSubject checks the multimap against sorted keys with bags of values.
type mmSubject struct {
	h    *H
	ks   *keySpace
	t    *bptree.BpTree
	s    []ment
	n    int
	next int
}

func (m *mmSubject) at(k int) (int, bool) {
	i := sort.Search(len(m.s), func(i int) bool { return m.s[i].k >= k })
	return i, i < len(m.s) && m.s[i].k == k
}

func (m *mmSubject) vals(k int) []int {
	if i, ok := m.at(k); ok {
		return m.s[i].vs
	}
	return nil
}

// vid turns a stored value back into a comparable number
func vid(x interface{}) int {
	if x == nil {
		return -1
	}
	return someVal(x)
}

func vids(vs []int) []int {
	out := make([]int, len(vs))
	for i, v := range vs {
		out[i] = vid(mkVal(v))
	}
	sort.Ints(out)
	return out
}

// runs compares an enumeration with the expected runs of equal keys.
func (m *mmSubject) runs(what string, it types.KVIterator, want []ment) {
	h := m.h
	var keys []types.Hashable
	for _, w := range want {
		var got []int
		for range w.vs {
			var k types.Hashable
			var v interface{}
			k, v, it = it()
			h.Check(it != nil, "enumeration", "%s ends early, pairs of key %d are missing", what, w.k)
			h.Check(m.ks.id(k) == w.k, "enumeration", "%s: key %d where %d is expected", what, m.ks.id(k), w.k)
			got = append(got, vid(v))
			keys = append(keys, k)
		}
		sort.Ints(got)
		for i, x := range vids(w.vs) {
			h.Check(got[i] == x, "enumeration", "%s: values of key %d are %v instead of %v", what, w.k, got, vids(w.vs))
		}
	}
	k, _, next := it()
	if next != nil {
		h.Fail("enumeration", "%s: extra pair with key %d", what, m.ks.id(k))
	}
	for _, w := range want {
		for range w.vs {
			h.Check(m.ks.id(keys[0]) == w.k, "handed-out", "%s: key %d became %d later", what, w.k, m.ks.id(keys[0]))
			keys = keys[1:]
		}
	}
}

func reversed(s []ment) []ment {
	out := make([]ment, len(s))
	for i := range s {
		out[len(s)-1-i] = s[i]
	}
	return out
}

func (m *mmSubject) pred() (func(v int) bool, types.WhereFunc, string) {
	h := m.h
	var f func(v int) bool
	name := ""
	switch h.N(4) {
	case 0:
		f, name = func(int) bool { return true }, "any"
	case 1:
		p := h.N(2)
		f, name = func(v int) bool { return v%2 == p }, "parity"
	case 2:
		x := h.N(m.next + 1)
		f, name = func(v int) bool { return v >= x }, "at least"
	default:
		x := h.N(m.next + 1)
		f, name = func(v int) bool { return v == x }, "exactly"
	}
	g := func(v int) bool { return f(vid(mkVal(v))) }
	return g, func(x interface{}) bool { return f(vid(x)) }, name
}

func (m *mmSubject) op(k int, add bool) {
	h := m.h
	i, had := m.at(k)
	switch {
	case add:
		v := m.next
		m.next++
		err := m.t.Add(m.ks.mk(k), mkVal(v))
		h.Check(err == nil, "add", "Add(%d) fails: %v", k, err)
		if !had {
			m.s = append(m.s, ment{})
			copy(m.s[i+1:], m.s[i:])
			m.s[i] = ment{k: k}
		}
		m.s[i].vs = append(m.s[i].vs, v)
		m.n++
	case h.OneIn(5):
		f, w, name := m.pred()
		v := m.next
		m.next++
		err := m.t.Replace(m.ks.mk(k), w, mkVal(v))
		h.Check(err == nil, "replace", "Replace(%d, %s) fails: %v", k, name, err)
		if had {
			for j, x := range m.s[i].vs {
				if f(x) {
					m.s[i].vs[j] = v
				}
			}
		}
	default:
		f, w, name := m.pred()
		err := m.t.RemoveWhere(m.ks.mk(k), w)
		h.Check(err == nil || !had, "remove", "RemoveWhere(%d, %s) fails: %v", k, name, err)
		if had {
			var keep []int
			for _, x := range m.s[i].vs {
				if !f(x) {
					keep = append(keep, x)
				}
			}
			m.n -= len(m.s[i].vs) - len(keep)
			if len(keep) == 0 {
				m.s = append(m.s[:i], m.s[i+1:]...)
			} else {
				m.s[i].vs = keep
			}
		}
		if h.OneIn(3) {
			m.lookup(k)
		}
	}
	if m.n < 400 || h.OneIn(50) {
		h.Check(m.t.Size() == m.n, "size", "Size() = %d instead of %d", m.t.Size(), m.n)
	}
}

func (m *mmSubject) write() {
	k := m.h.N(m.ks.size)
	if len(m.s) > 0 && m.h.OneIn(2) {
		k = m.s[m.h.N(len(m.s))].k
	}
	m.op(k, m.h.N(2) == 0)
}

func (m *mmSubject) lookup(k int) {
	h := m.h
	vs := m.vals(k)
	n := m.t.Count(m.ks.mk(k))
	h.Check(n == len(vs), "count", "Count(%d) = %d instead of %d", k, n, len(vs))
	if h := m.h; h.OneIn(20) {
		x := foreign(h, m.ks)
		h.Check(!m.t.Has(x) && m.t.Count(x) == 0, "foreign", "a key of another type (%T) is found", x)
	}
	has := m.t.Has(m.ks.mk(k))
	h.Check(has == (len(vs) > 0), "has", "Has(%d) = %v", k, has)
	var want []ment
	if len(vs) > 0 {
		want = []ment{{k, vs}}
	}
	m.runs("Find", m.t.Find(m.ks.mk(k)), want)
}

func (m *mmSubject) rng() {
	from, to := m.h.N(m.ks.size+1), m.h.N(m.ks.size+1)
	var want []ment
	for _, e := range m.s {
		if from <= to && e.k >= from && e.k <= to || from > to && e.k >= to && e.k <= from {
			want = append(want, e)
		}
	}
	if from > to {
		want = reversed(want)
		m.runs("descending Range", m.t.Range(m.ks.mk(from), m.ks.mk(to)), want)
	} else {
		m.runs("Range", m.t.Range(m.ks.mk(from), m.ks.mk(to)), want)
	}
}

func (m *mmSubject) keys() {
	i := 0
	for k, next := m.t.Keys()(); next != nil; k, next = next() {
		m.h.Check(i < len(m.s) && m.s[i].k == m.ks.id(k), "enumeration", "Keys gives %d at position %d", m.ks.id(k), i)
		i++
	}
	m.h.Check(i == len(m.s), "enumeration", "Keys gives %d keys instead of %d", i, len(m.s))
}

func (m *mmSubject) full() {
	m.h.Check(m.t.Size() == m.n, "size", "Size() = %d instead of %d", m.t.Size(), m.n)
	m.runs("Iterate", m.t.Iterate(), m.s)
	m.runs("Backward", m.t.Backward(), reversed(m.s))
	m.keys()
	for _, e := range m.s {
		m.lookup(e.k)
	}
	for i := 0; i < 3; i++ {
		m.rng()
		m.lookup(m.h.N(m.ks.size + 1))
	}
}

func (m *mmSubject) read() {
	h := m.h
	switch h.N(9) {
	case 0, 1:
		k := h.N(m.ks.size + 1)
		if len(m.s) > 0 && h.OneIn(2) {
			k = m.s[h.N(len(m.s))].k
		}
		m.lookup(k)
	case 2:
		h.Check(m.t.Size() == m.n, "size", "Size() = %d instead of %d", m.t.Size(), m.n)
		m.keys()
	case 3, 4:
		m.rng()
	case 5:
		m.runs("Iterate", m.t.Iterate(), m.s)
	case 6:
		m.runs("Backward", m.t.Backward(), reversed(m.s))
	case 7: // values and items, interleaved
		vi, ii := m.t.Values(), m.t.Items()
		var es []*types.MapEntry
		var vs []interface{}
		for n := 0; n < m.n; n++ {
			var v interface{}
			var x types.Hashable
			v, vi = vi()
			x, ii = ii()
			h.Check(vi != nil && ii != nil, "enumeration", "Values or Items ends after %d of %d", n, m.n)
			e := x.(*types.MapEntry)
			es, vs = append(es, e), append(vs, v)
			h.Check(vid(v) == vid(e.Value), "enumeration", "Values and Items disagree at position %d", n)
			ok := false
			for _, w := range m.vals(m.ks.id(e.Key)) {
				ok = ok || vid(mkVal(w)) == vid(v)
			}
			h.Check(ok, "enumeration", "Items gives (%d,%v)", m.ks.id(e.Key), v)
		}
		_, vi = vi()
		_, ii = ii()
		h.Check(vi == nil && ii == nil, "enumeration", "Values or Items gives more than %d", m.n)
		for i, e := range es {
			h.Check(vid(e.Value) == vid(vs[i]), "handed-out", "item %d changed later", i)
		}
	default:
		n := h.N(6)
		it := m.t.Iterate()
		if h.OneIn(2) {
			it = m.t.Backward()
		}
		for _, v, next := it(); next != nil && n > 0; _, v, next = next() {
			_ = v
			n--
		}
		h.Inject("iterator-abandoned")
	}
}

// trees of very small nodes can get as deep as they are large
func nodeSize(h *H, items int) int {
	if items > 500 {
		return Pick(h, 4, 5, 8, 23, 64)
	}
	return Pick(h, 2, 3, 4, 5, 7, 8, 16, 23, 64)
}

func bptreeRun(h *H) {
	m := &mmSubject{h: h, next: 1}
	m.ks = pickKeys(h, Pick(h, 4, 2, 8, 20, 60, 1))
	n := large(h)
	if n > 0 {
		if h.OneIn(3) {
			n = min(n, 1000) // many equal keys
			m.ks = pickKeys(h, Pick(h, 2, 10, 50))
		} else {
			m.ks = pickKeys(h, n)
		}
	}
	m.t = bptree.NewBpTree(nodeSize(h, n))
	h.S.Quiet(func() {
		fill(h, n, func(k int, add bool) { m.op(k%m.ks.size, add) }, m.full)
		drive(h, histLen(h, 400), m.ks.size, m.op, m.full)
	})
	share(h, &subject{write: m.write, read: m.read, full: m.full})
}

func bpmapRun(h *H) {
	s := newMapSubject(h, nil, true, 8, 3, 16, 40, 200)
	s.m = bptree.NewBpMap(nodeSize(h, s.large))
	s.run(500)
}

func init() {
	register(&Scenario{Prop: "C14", Name: "multimap", Race: true, Stalls: true, Steps: 200_000_000, Run: hugeOr(bptreeRun, hugeBpTree)})
	register(&Scenario{Prop: "C14", Name: "map", Race: true, Stalls: true, Steps: 200_000_000, Run: hugeOr(bpmapRun, hugeBpMap)})
}
