package main

import (
	"sort"
	"strings"

	"github.com/timtadh/data-structures/list"
	"github.com/timtadh/data-structures/set"
	"github.com/timtadh/data-structures/trie"
	"github.com/timtadh/data-structures/types"
	"verif.local/sim/simrt"
)

// ---- C20: containers own their data, and leave the caller's alone

// appendTo appends to a key the trie handed out, as a caller may.
func appendTo(k types.ByteSlice) {
	if cap(k) > len(k) {
		simrt.HarnessAccess(k[len(k):len(k)+1], true)
	}
	k = append(k, 0xee)
	_ = append(k, 0xee)
}

// tstSharedBuffer: several tries (or one that is only read) get their keys as
// parts of one buffer, which nothing may write.
func tstSharedBuffer(h *H) {
	proto := &tstSubject{h: h, alpha: Pick(h, "ab", "a", "abc", "\x01a\xff"), maxl: Pick(h, 3, 1, 6, 12)}
	var buf []byte
	type word struct {
		off int
		w   string
	}
	var words []word
	for n := h.Range(1, 8); n > 0; n-- {
		w := proto.key()
		words = append(words, word{len(buf), w})
		buf = append(buf, w...)
	}
	buf = append(buf, 0xdd, 0xdd)
	buf = buf[:len(buf):len(buf)]
	orig := string(buf)
	whole := func(when string) {
		h.Check(string(buf) == orig, "caller-memory", "%s changed the caller's buffer from %x to %x", when, orig, buf)
	}
	sub := func() *tstSubject {
		s := &tstSubject{h: h, t: trie.New(), next: 1, alpha: proto.alpha, maxl: proto.maxl, given: appendTo}
		s.bs = func(k string) []byte {
			c := h.N(len(words))
			for i := range words {
				w := words[(i+c)%len(words)]
				if strings.HasPrefix(w.w, k) {
					return buf[w.off : w.off+len(k)]
				}
			}
			return []byte(k)
		}
		return s
	}
	nc := Pick(h, 2, 3)
	var one *tstSubject
	if h.OneIn(2) {
		one = sub()
		h.S.Quiet(func() {
			for n := h.N(12); n > 0; n-- {
				one.op(words[h.N(len(words))].w, h.N(4) > 0)
			}
			whole("a history of calls")
		})
	}
	var cs []*simrt.Task
	for c := 0; c < nc; c++ {
		n := h.Range(1, 6)
		s := one
		if s == nil {
			s = sub()
		}
		t := h.S.Spawn("client", func() {
			for i := 0; i < n; i++ {
				if one == nil && h.N(3) > 0 {
					w := s.key()
					if h.OneIn(2) {
						w = words[h.N(len(words))].w
					}
					s.op(w, h.N(3) > 0)
				} else {
					s.read()
				}
				whole("an operation of the trie")
			}
			if one == nil {
				s.full()
			}
		})
		if one != nil && h.OneIn(5) {
			h.S.KillAfter(t, h.N(200))
		}
		cs = append(cs, t)
	}
	h.S.Join(cs...)
	if one != nil {
		h.S.Quiet(one.full)
	}
	whole("using tries")
}

// tstReuse: callers reuse the memory of the keys after each call, while
// others use the trie.
func tstReuse(h *H) {
	s := &tstSubject{h: h, t: trie.New(), next: 1, alpha: Pick(h, "ab", "a", "abc", "\x01a\xff"), maxl: Pick(h, 3, 1, 6, 12), given: appendTo}
	scratch := map[int][][]byte{}
	s.bs = func(k string) []byte {
		b := make([]byte, len(k), len(k)+3)
		copy(b, k)
		id := h.S.Cur().ID
		scratch[id] = append(scratch[id], b)
		return b
	}
	reuse := func() {
		id := h.S.Cur().ID
		for _, b := range scratch[id] {
			b = b[:cap(b)]
			simrt.HarnessAccess(b, true)
			for i := range b {
				b[i] = "b\xffz"[i%3]
			}
		}
		scratch[id] = nil
		h.Inject("key-memory-reused")
	}
	h.S.Quiet(func() {
		for n := h.N(20); n > 0; n-- {
			s.write()
			if h.OneIn(2) {
				reuse()
			}
		}
		s.full()
		reuse()
	})
	l := &rwlock{h: h, readers: map[int]bool{}}
	h.S.OnKill = func(t *simrt.Task) { l.drop(t.ID) }
	var cs []*simrt.Task
	for c := Pick(h, 2, 3); c > 0; c-- {
		n := h.Range(1, 6)
		writes := h.OneIn(2)
		t := h.S.Spawn("client", func() {
			for i := 0; i < n; i++ {
				if writes && h.OneIn(2) {
					l.lock()
					s.write()
					l.unlock()
				} else {
					l.rlock()
					s.read()
					l.drop(h.S.Cur().ID)
				}
				if h.N(3) > 0 {
					reuse()
				}
			}
		})
		if !writes && h.OneIn(5) {
			h.S.KillAfter(t, h.N(200))
		}
		cs = append(cs, t)
	}
	h.S.Join(cs...)
	h.S.OnKill = nil
	h.S.Quiet(s.full)
}

// owned is a container with its model, used by one task alone.
type owned struct {
	subject
	what string
}

func ownList(h *H, ks *keySpace, l *list.List, m []int, cap int, what string) *owned {
	s := &listSubject{h: h, ks: ks, l: l, m: append([]int(nil), m...), cap: cap}
	return &owned{subject{write: s.write, read: s.read, full: s.full}, what}
}

func ownSorted(h *H, ks *keySpace, l *list.Sorted, m []int, cap int, dups bool, what string) *owned {
	s := &sortedSubject{h: h, ks: ks, l: l, m: append([]int(nil), m...), cap: cap, dups: dups}
	return &owned{subject{write: s.write, read: s.read, full: s.full}, what}
}

func ownSet(h *H, ks *keySpace, x types.Set, m []int, what string) *owned {
	s := &setSubject{h: h, ks: ks, sets: []*setOfInts{{s: x, kind: what, m: append([]int(nil), m...)}}}
	return &owned{subject{write: s.write, read: s.read, full: s.full}, what}
}

// useAll: every container has its own task; nobody uses any lock
func useAll(h *H, os []*owned, more ...func()) {
	var cs []*simrt.Task
	for _, o := range os {
		o := o
		n := h.Range(1, 6)
		writes := h.N(4) > 0
		t := h.S.Spawn("owner of "+o.what, func() {
			for i := 0; i < n; i++ {
				if writes && h.N(3) > 0 {
					o.write()
				} else {
					o.read()
				}
			}
		})
		cs = append(cs, t)
	}
	for _, f := range more {
		cs = append(cs, h.S.Spawn("caller", f))
	}
	h.S.Join(cs...)
	h.S.Quiet(func() {
		for _, o := range os {
			o.full()
		}
	})
}

func sortedInts(m []int, dups bool) []int {
	m = append([]int(nil), m...)
	sort.Ints(m)
	if dups {
		return m
	}
	var out []int
	for i, k := range m {
		if i == 0 || m[i-1] != k {
			out = append(out, k)
		}
	}
	return out
}

func fromSlice(h *H, ks *keySpace, xs []types.Hashable, m []int) *owned {
	switch h.N(4) {
	case 0:
		return ownList(h, ks, list.FromSlice(xs), m, -1, "list.FromSlice")
	case 1:
		return ownSorted(h, ks, list.SortedFromSlice(xs, true), sortedInts(m, true), -1, true, "list.SortedFromSlice")
	case 2:
		return ownSorted(h, ks, list.SortedFromSlice(xs, false), sortedInts(m, false), -1, false, "list.SortedFromSlice")
	}
	return ownSet(h, ks, set.FromSlice(xs), sortedInts(m, false), "set.FromSlice")
}

// slicesRun: containers made from slices of one array
func slicesRun(h *H) {
	ks := pickKeys(h, Pick(h, 4, 1, 20, 60))
	n := Pick(h, 4, 0, 1, 12, 40)
	m := make([]int, n)
	spare := Pick(h, 4, 0)
	xs := make([]types.Hashable, n, n+spare)
	for i := range xs {
		m[i] = h.N(ks.size)
		xs[i] = ks.mk(m[i])
	}
	if h.OneIn(2) {
		sort.Slice(xs, func(i, j int) bool { return ks.id(xs[i]) < ks.id(xs[j]) })
		sort.Ints(m)
	}
	part := func() (int, int, []types.Hashable) {
		i := h.N(n + 1)
		j := i + h.N(n-i+1)
		if h.OneIn(3) { // without room behind it
			return i, j, xs[i:j:j]
		}
		return i, j, xs[i:j]
	}
	intact := func() {
		for i := range xs {
			h.Check(ks.id(xs[i]) == m[i], "caller-memory", "the caller's slice changed at %d", i)
		}
		for _, x := range xs[n : n+spare] {
			h.Check(x == nil, "caller-memory", "the memory behind the caller's slice was written")
		}
	}
	if h.OneIn(2) { // all construct from the same array at once
		var os []*owned
		var cs []*simrt.Task
		for c := Pick(h, 2, 3, 4); c > 0; c-- {
			i, j, p := part()
			nops := h.Range(0, 5)
			cs = append(cs, h.S.Spawn("client", func() {
				o := fromSlice(h, ks, p, m[i:j])
				os = append(os, o)
				for ; nops > 0; nops-- {
					if h.N(3) > 0 {
						o.write()
					} else {
						o.read()
					}
				}
			}))
		}
		h.S.Join(cs...)
		h.S.Quiet(func() {
			for _, o := range os {
				o.full()
			}
			intact()
		})
		return
	}
	var os []*owned
	h.S.Quiet(func() {
		for c := Pick(h, 1, 2, 3); c > 0; c-- {
			i, j, p := part()
			os = append(os, fromSlice(h, ks, p, m[i:j]))
		}
		intact()
	})
	useAll(h, os, func() {
		for i := range xs {
			simrt.HarnessAccess(xs[i:i+1], true)
			xs[i] = ks.mk(h.N(ks.size))
			simrt.Yield()
		}
		h.Inject("slice-memory-reused")
	})
}

// copiesRun: a container and others derived from it, modified independently
func copiesRun(h *H) {
	ks := pickKeys(h, Pick(h, 4, 1, 20, 60))
	var os []*owned
	h.S.Quiet(func() {
		grow := func(f func(k int)) {
			for n := Pick(h, 4, 0, 1, 2, 12, 40); n > 0; n-- {
				f(h.N(ks.size))
			}
		}
		cp := Pick(h, -1, -1, 4, 60)
		switch h.N(4) {
		case 0:
			l := list.New(Pick(h, 4, 0, 60))
			if cp >= 0 {
				l = list.Fixed(cp)
			}
			var m []int
			grow(func(k int) {
				if l.Append(ks.mk(k)) == nil {
					m = append(m, k)
				}
			})
			for n := h.Range(1, 2); n > 0; n-- {
				os = append(os, ownList(h, ks, l.Copy(), m, cp, "Copy of a List"))
			}
			os = append(os, ownList(h, ks, l, m, cp, "List"))
		case 1:
			dups := h.OneIn(2)
			l := list.NewSorted(Pick(h, 4, 0, 60), dups)
			if cp >= 0 {
				l = list.NewFixedSorted(cp, dups)
			}
			var m []int
			grow(func(k int) {
				if !dups && hasInt(m, k) {
					return
				}
				if l.Add(ks.mk(k)) == nil {
					m = append(m, k)
				}
			})
			sort.Ints(m)
			for n := h.Range(1, 2); n > 0; n-- {
				os = append(os, ownSorted(h, ks, l.Copy(), m, cp, dups, "Copy of a Sorted"))
			}
			os = append(os, ownSorted(h, ks, l, m, cp, dups, "Sorted"))
		default:
			s := &setSubject{h: h, ks: ks}
			entries := h.OneIn(2)
			if entries {
				mk, id := ks.mk, ks.id
				ks.mk = func(v int) types.Hashable { return &types.MapEntry{Key: mk(v), Value: v} }
				ks.id = func(x types.Hashable) int { return id(x.(*types.MapEntry).Key) }
			}
			a, b := s.fresh(entries), s.fresh(entries)
			for _, t := range []*setOfInts{a, b} {
				t := t
				grow(func(k int) { s.op(t, k, true) })
			}
			if h.OneIn(4) {
				b = a
			}
			for n := h.Range(1, 3); n > 0; n-- {
				var r types.Set
				var err error
				var m []int
				what := ""
				switch h.N(5) {
				case 0:
					what = "Union"
					m = sortedInts(append(append([]int(nil), a.m...), b.m...), false)
					r, err = a.s.Union(b.s)
				case 1:
					what = "Intersect"
					for _, k := range a.m {
						if b.has(k) {
							m = append(m, k)
						}
					}
					r, err = a.s.Intersect(b.s)
				case 2:
					what = "Subtract"
					for _, k := range a.m {
						if !b.has(k) {
							m = append(m, k)
						}
					}
					r, err = a.s.Subtract(b.s)
				case 3:
					what, m, r = "SortedFromSet", a.m, set.SortedFromSet(a.s)
				default:
					if x, ok := a.s.(*set.SortedSet); ok {
						what, m, r = "Copy", a.m, x.Copy()
					} else {
						what, m, r = "SortedFromSet", b.m, set.SortedFromSet(b.s)
					}
				}
				h.Check(err == nil, "set-operation", "%s of %s and %s fails: %v", what, a.kind, b.kind, err)
				os = append(os, ownSet(h, ks, r, m, what))
			}
			os = append(os, ownSet(h, ks, a.s, a.m, a.kind))
			if b != a {
				os = append(os, ownSet(h, ks, b.s, b.m, b.kind))
			}
		}
	})
	useAll(h, os)
}

func init() {
	register(&Scenario{Prop: "C20", Name: "key-buffer", Race: true, Stalls: true, Steps: 200_000_000, Run: tstSharedBuffer})
	register(&Scenario{Prop: "C20", Name: "key-reuse", Race: true, Stalls: true, Steps: 200_000_000, Run: tstReuse})
	register(&Scenario{Prop: "C20", Name: "slices", Race: true, Stalls: true, Steps: 200_000_000, Run: slicesRun})
	register(&Scenario{Prop: "C20", Name: "copies", Race: true, Stalls: true, Steps: 200_000_000, Run: copiesRun})
}
