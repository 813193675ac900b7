package main

import (
	"strings"

	"github.com/timtadh/data-structures/tree/avl"
	"github.com/timtadh/data-structures/trie"
	"github.com/timtadh/data-structures/types"
	"verif.local/sim/simrt"
)

// ---- C29: iterations over tries and immutable AVL trees are snapshots

// cursor is an iteration in progress, with what it has to give.
type cursor struct {
	what string
	step func() (k types.Hashable, v interface{}, more bool)
	key  func(k types.Hashable) string
	keys bool // gives keys
	vals bool // gives values
	want []sent
	at   int
	out  []types.Hashable // keys given so far
	done bool
}

// advance takes up to n steps.
func (c *cursor) advance(h *H, n int) {
	for ; n > 0 && !c.done; n-- {
		k, v, more := c.step()
		if !more {
			h.Check(c.at == len(c.want), "snapshot-short", "%s ends after %d of %d pairs", c.what, c.at, len(c.want))
			c.done = true
			break
		}
		h.Check(c.at < len(c.want), "snapshot-long", "%s gives more than the %d pairs it had to give", c.what, len(c.want))
		e := c.want[c.at]
		if c.keys {
			h.Check(c.key(k) == e.k, "snapshot-key", "%s gives %x where %x is expected", c.what, c.key(k), e.k)
			c.out = append(c.out, k)
		}
		if c.vals {
			h.Check(eqVal(v, e.v), "snapshot-value", "%s gives the value %v for %x instead of %v", c.what, v, e.k, mkVal(e.v))
		}
		c.at++
	}
}

func (c *cursor) finish(h *H) {
	c.advance(h, len(c.want)+2)
	if c.keys && c.done {
		for i, k := range c.out {
			h.Check(c.key(k) == c.want[i].k, "handed-out", "the key %x given by %s became %x later", c.want[i].k, c.what, c.key(k))
		}
	}
}

type snapMap interface {
	types.MapIterable
	Items() types.KIterator
}

// openCursor wraps one of the iterations of a map.
func openCursor(kind int, what string, m snapMap, key func(k types.Hashable) string, want []sent) *cursor {
	c := &cursor{what: what, key: key, keys: true, vals: true, want: append([]sent(nil), want...)}
	switch kind {
	case 0:
		it := m.Keys()
		c.what, c.vals = what+".Keys", false
		c.step = func() (k types.Hashable, v interface{}, more bool) {
			k, it = it()
			return k, nil, it != nil
		}
	case 1:
		it := m.Values()
		c.what, c.keys = what+".Values", false
		c.step = func() (k types.Hashable, v interface{}, more bool) {
			v, it = it()
			return nil, v, it != nil
		}
	case 2:
		it := m.Items()
		c.what = what + ".Items"
		c.step = func() (k types.Hashable, v interface{}, more bool) {
			k, it = it()
			if it == nil {
				return nil, nil, false
			}
			e := k.(*types.MapEntry)
			return e.Key, e.Value, true
		}
	default:
		c.what = what + ".Iterate"
		c.step = pairSteps(m.Iterate())
	}
	return c
}

func pairSteps(it types.KVIterator) func() (k types.Hashable, v interface{}, more bool) {
	return func() (k types.Hashable, v interface{}, more bool) {
		k, v, it = it()
		return k, v, it != nil
	}
}

// snapsRun: clients hold iterations open, and advance them without a lock,
// while the container is modified.
func snapsRun(h *H) {
	var open func() *cursor
	var write func(k string)
	var full func()
	var build func()
	trieRun := h.OneIn(2) || h.OneIn(2)
	if trieRun {
		s := &tstSubject{h: h, t: trie.New(), next: 1}
		s.alpha = Pick(h, "ab", "a", "abc", "\x01a\xff", "\x01\x02\x7f\x80\xfe\xff", "abcdefghijklmnopqrstuvwxyz")
		s.maxl = Pick(h, 3, 1, 2, 6, 12)
		build = func() {
			for n := histLen(h, 200); n > 0; n-- {
				s.op(s.key(), h.N(4) > 0)
			}
		}
		key := func(k types.Hashable) string { return string(k.(types.ByteSlice)) }
		open = func() *cursor {
			if h.OneIn(3) {
				p := s.key()
				p = p[:1+h.N(len(p))]
				var want []sent
				for _, e := range s.m {
					if strings.HasPrefix(e.k, p) {
						want = append(want, e)
					}
				}
				b := []byte(p)
				c := &cursor{what: "PrefixFind(" + hex(p) + ")", keys: true, vals: true, want: want, key: key}
				c.step = pairSteps(s.t.PrefixFind(b))
				for i := range b {
					b[i]++
				}
				return c
			}
			return openCursor(h.N(5), "trie", s.t, key, s.m)
		}
		write = func(k string) {
			if k != "" {
				_, had := s.at(k)
				s.op(k, !had || h.OneIn(3))
				return
			}
			if len(s.m) > 0 && h.OneIn(2) {
				// a key that is there
				s.op(s.m[h.N(len(s.m))].k, h.OneIn(3))
				return
			}
			s.op(s.key(), h.N(3) > 0)
		}
		full = s.full
	} else {
		ks := pickKeys(h, Pick(h, 8, 3, 20, 60))
		t := avl.NewImmutableAvlTree()
		m := &omap{}
		next := 1
		op := func(k int, add bool) {
			if add {
				h.Check(t.Put(ks.mk(k), mkVal(next)) == nil, "put", "Put fails")
				m.put(k, next)
				next++
				return
			}
			_, had := m.get(k)
			_, err := t.Remove(ks.mk(k))
			h.Check((err == nil) == had, "remove", "Remove(%d) gives %v", k, err)
			m.del(k)
		}
		name := func(k int) string { return string(rune('0' + k)) }
		model := func() (want []sent) {
			for _, e := range m.s {
				want = append(want, sent{name(e.k), e.v})
			}
			return
		}
		build = func() {
			for n := histLen(h, 150); n > 0; n-- {
				op(h.N(ks.size), h.N(4) > 0)
			}
		}
		key := func(k types.Hashable) string { return name(ks.id(k)) }
		open = func() *cursor { return openCursor(h.N(5), "tree", t, key, model()) }
		write = func(k string) {
			i := h.N(ks.size)
			if k != "" {
				i = int([]rune(k)[0] - '0')
			} else if len(m.s) > 0 && h.OneIn(2) {
				i = m.s[h.N(len(m.s))].k
			}
			op(i, h.OneIn(2))
		}
		full = func() {
			for kind := 0; kind < 4; kind++ {
				openCursor(kind, "tree", t, key, model()).finish(h)
			}
		}
	}
	h.S.Quiet(build)
	l := &rwlock{h: h, readers: map[int]bool{}}
	h.S.OnKill = func(t *simrt.Task) { l.drop(t.ID) }
	var cs []*simrt.Task
	var left []*cursor // opened by one client, to be finished by another
	nc := Pick(h, 2, 3, 4)
	for c := 0; c < nc; c++ {
		n := h.Range(1, 8)
		writes := Pick(h, 2, 1, 4, 0)
		self := h.OneIn(3) // modifies what its own iterations are at
		kill := -1
		if writes == 0 && h.OneIn(2) {
			kill = h.N(300)
		}
		t := h.S.Spawn("client", func() {
			var mine []*cursor
			for i := 0; i < n; i++ {
				if writes > 0 && h.OneIn(writes) {
					l.lock()
					k := ""
					if self && len(mine) > 0 {
						if c := mine[h.N(len(mine))]; len(c.want) > 0 {
							k = c.want[min(max(c.at-h.N(2), 0), len(c.want)-1)].k
						}
					}
					h.Logf("write")
					write(k)
					l.unlock()
				}
				switch {
				case len(mine) == 0 || h.OneIn(3):
					l.rlock()
					c := open()
					h.Logf("open %s", c.what)
					l.drop(h.S.Cur().ID)
					mine = append(mine, c)
				case h.OneIn(8):
					// another client goes on with it
					j := h.N(len(mine))
					l.lock()
					left = append(left, mine[j])
					l.unlock()
					mine = append(mine[:j:j], mine[j+1:]...)
				case h.OneIn(8):
					var c *cursor
					l.lock()
					if len(left) > 0 {
						c = left[len(left)-1]
						left = left[:len(left)-1]
					}
					l.unlock()
					if c != nil {
						mine = append(mine, c)
					}
				default:
					mine[h.N(len(mine))].advance(h, 1+h.N(6))
				}
			}
			for _, c := range mine {
				if h.OneIn(4) {
					h.Inject("iterator-abandoned")
					continue
				}
				c.finish(h)
			}
		})
		if kill >= 0 {
			h.S.KillAfter(t, kill)
		}
		cs = append(cs, t)
	}
	h.S.Join(cs...)
	h.S.OnKill = nil
	h.S.Quiet(func() {
		for _, c := range left {
			c.finish(h)
		}
		full()
	})
}

func init() {
	register(&Scenario{Prop: "C29", Name: "snapshots", Race: true, Stalls: true, Steps: 200_000_000, Run: snapsRun})
}
