package main

import (
	"bytes"
	"fmt"
	"log"
	"strings"

	"github.com/timtadh/data-structures/errors"
	"github.com/timtadh/data-structures/exc"
	"github.com/timtadh/data-structures/hashtable"
	"github.com/timtadh/data-structures/linked"
	"github.com/timtadh/data-structures/list"
	"github.com/timtadh/data-structures/pool"
	"github.com/timtadh/data-structures/set"
	"github.com/timtadh/data-structures/tree/avl"
	"github.com/timtadh/data-structures/tree/bptree"
	"github.com/timtadh/data-structures/trie"
	"github.com/timtadh/data-structures/types"
	"verif.local/sim/simrt"
)

// ---- C25: the errors that operations return belong to the caller

type failing struct {
	name string
	call func() error
	// instead of call: gives the error and what changes the arguments of the
	// call afterwards
	spoil func() (error, func())
}

type changing struct{ s string }

func (c *changing) String() string { return c.s }

func err2[T any](_ T, err error) error { return err }

// failures lists calls that must fail. Those on the shared containers only
// read, the others work on containers of the calling task alone.
func failures(h *H, shared bool) []failing {
	ks := pickKeys(h, 6)
	absent := ks.mk(ks.size)
	n := h.N(6)
	maps := []types.Map{hashtable.NewHashTable(Pick(h, 4, 1)), hashtable.NewLinearHash(), avl.NewAvlTree(), avl.NewImmutableAvlTree(), bptree.NewBpMap(Pick(h, 2, 4))}
	l, fixed := list.New(n), list.Fixed(n)
	sorted, ss, ms := list.NewSorted(n, h.OneIn(2)), set.NewSortedSet(n), set.NewMapSet(set.NewSortedSet(n))
	t := trie.New()
	for i := 0; i < n; i++ {
		for _, m := range maps {
			m.Put(ks.mk(i), i)
		}
		l.Append(ks.mk(i))
		fixed.Append(ks.mk(i))
		sorted.Add(ks.mk(i))
		ss.Add(ks.mk(i))
		ms.Put(ks.mk(i), i)
		t.Put([]byte(strings.Repeat("a", i+1)), i)
	}
	var out []failing
	add := func(name string, call func() error) { out = append(out, failing{name: name, call: call}) }
	spoil := func(name string, f func() (error, func())) { out = append(out, failing{name: name, spoil: f}) }
	for _, m := range maps {
		m := m
		add(fmt.Sprintf("%T.Get of an absent key", m), func() error { return err2(m.Get(absent)) })
		if _, imm := m.(*avl.ImmutableAvlTree); imm || !shared {
			add(fmt.Sprintf("%T.Remove of an absent key", m), func() error { return err2(m.Remove(absent)) })
		}
	}
	add("List.Get out of range", func() error { return err2(l.Get(Pick(h, -1, n, n+5))) })
	add("Sorted.Item of an absent item", func() error { return err2(sorted.Item(absent)) })
	add("MapSet.Get of an absent key", func() error { return err2(ms.Get(absent)) })
	add("SortedSet.Random of an empty set", func() error { return err2(set.NewSortedSet(0).Random()) })
	add("TST.Get of an absent key", func() error { return err2(t.Get([]byte(Pick(h, "b", "aab", "aaaaaaaaa")))) })
	add("TST.Get of an invalid key", func() error { return err2(t.Get(Pick(h, nil, []byte{}, []byte("a\x00")))) })
	add("errors.Errorf", func() error { return errors.Errorf("%d is wrong", n) })
	bytesKey := func(what, key string, f func(b []byte) error) {
		spoil(what, func() (error, func()) {
			b := []byte(key)
			return f(b), func() {
				for i := range b {
					b[i] = 'z'
				}
			}
		})
	}
	bytesKey("TST.Get of an invalid key", "ab\x00c", func(b []byte) error { return err2(t.Get(b)) })
	bytesKey("ValidateKey of an invalid key", "ab\x00c", func(b []byte) error { return t.ValidateKey(b) })
	bytesKey("Item of an absent item", "absent", func(b []byte) error { return err2(set.NewSortedSet(0).Item(types.ByteSlice(b))) })
	bytesKey("Delete of an absent item", "absent", func(b []byte) error { return list.NewSorted(0, true).Delete(types.ByteSlice(b)) })
	spoil("errors.Errorf of an object", func() (error, func()) {
		c := &changing{"good"}
		return errors.Errorf("%v is wrong", c), func() { c.s = "bad" }
	})
	name := Pick(h, "not-found", "not-found-in-bucket", "invalid-key", "negative-size")
	add("errors.Errors["+name+"]", func() error { return errors.Errors[name](absent) })
	name2 := Pick(h, "tst-error", "bptree-error")
	add("errors.Errors["+name2+"]", func() error { return errors.Errors[name2]("depth %d", n) })
	if shared {
		return out
	}
	add("List.Set out of range", func() error { return l.Set(Pick(h, -1, n, n+5), absent) })
	add("List.Insert out of range", func() error { return l.Insert(Pick(h, -1, n+1), absent) })
	add("List.Remove out of range", func() error { return l.Remove(Pick(h, -1, n)) })
	add("List.Pop of an empty list", func() error { return err2(list.New(2).Pop()) })
	add("Append to a full list", func() error { return fixed.Append(absent) })
	add("Sorted.Delete of an absent item", func() error { return sorted.Delete(absent) })
	add("SortedSet.Delete of an absent item", func() error { return ss.Delete(absent) })
	add("MapSet.Remove of an absent key", func() error { return err2(ms.Remove(absent)) })
	add("MapSet.Add of something else", func() error { return ms.Add(absent) })
	add("TST.Remove of an absent key", func() error { return err2(t.Remove([]byte(Pick(h, "b", "aab", "aaaaaaaaa")))) })
	add("TST.Put of an invalid key", func() error { return t.Put(Pick(h, nil, []byte{}, []byte("a\x00")), 1) })
	add("DequeFront of an empty list", func() error { return err2(linked.New().DequeFront()) })
	add("DequeBack of an empty deque", func() error { return err2(linked.NewUniqueDeque().DequeBack()) })
	add("UnmarshalBinary of a truncated list", func() error {
		m, u := types.IntMarshals()
		return list.NewMList(list.New(0), m, u).UnmarshalBinary(make([]byte, h.N(9)))
	})
	add("Errorf", func() error {
		m := Pick(h, "<plain>", "<100%>", "<%d %s>", "<"+strings.Repeat("long ", 30)+">")
		err := errors.Errorf("%s", m)
		h.Check(strings.Contains(err.Error(), m), "text", "Errorf(%q) gives %q", m, strings.SplitN(err.Error(), "\n", 2)[0])
		return err
	})
	add("Do of a stopped pool", func() error {
		p := pool.New(1)
		p.Stop()
		return p.Do(func() {})
	})
	return out
}

// listError is an error that cannot be compared
type listError []string

func (l listError) Error() string { return strings.Join(l, ",") }

// kept is an error its owner holds on to, with what they added to it.
type kept struct {
	what  string
	err   error
	base  string
	marks []string
}

func (k *kept) check(h *H, others []*kept) {
	msg := k.err.Error()
	h.Check(!strings.Contains(msg, "\x00"), "text", "the text of the error of %s contains zero bytes", k.what)
	h.Check(msg == fmt.Sprint(k.err), "text", "the error of %s describes itself in two ways", k.what)
	h.Check(strings.Contains(msg, k.base), "text", "the error of %s lost its message %q", k.what, k.base)
	for _, m := range k.marks {
		h.Check(strings.Contains(msg, m), "text", "the error of %s lost %q, which was chained onto it", k.what, m)
	}
	for _, o := range others {
		if o != k {
			for _, m := range o.marks {
				h.Check(!strings.Contains(msg, m), "shared", "the error of %s changed when another one (of %s) was chained onto", k.what, o.what)
			}
		}
	}
	if e, ok := k.err.(*errors.Error); ok {
		h.Check(len(e.Errs) == 1+len(k.marks), "chain", "the error of %s holds %d errors instead of %d", k.what, len(e.Errs), 1+len(k.marks))
		for i, m := range k.marks {
			h.Check(e.Errs[i+1].Error() == m, "chain", "the error of %s holds %q where %q was chained", k.what, e.Errs[i+1], m)
		}
	}
}

func errsRun(h *H) {
	var all []*kept
	var common []failing
	h.S.Quiet(func() { common = failures(h, true) })
	var cs []*simrt.Task
	nc := Pick(h, 2, 3, 4)
	for c := 0; c < nc; c++ {
		c := c
		n := h.Range(1, 8)
		fs := common
		if h.OneIn(2) {
			h.S.Quiet(func() { fs = failures(h, false) })
		}
		cs = append(cs, h.S.Spawn("client", func() {
			var mine []*kept
			for i := 0; i < n; i++ {
				if len(mine) == 0 || h.N(3) == 0 {
					f := fs[h.N(len(fs))]
					var err error
					after := func() {}
					if f.spoil != nil {
						err, after = f.spoil()
					} else {
						err = f.call()
					}
					h.Logf("%s", f.name)
					h.Check(err != nil, "missing", "%s gives no error", f.name)
					k := &kept{what: f.name, err: err, base: strings.SplitN(err.Error(), "\n", 2)[0]}
					h.Check(k.base != "", "text", "the error of %s has no text", f.name)
					after()
					k.check(h, nil)
					mine = append(mine, k)
					all = append(all, k)
					continue
				}
				k := mine[h.N(len(mine))]
				if e, ok := k.err.(*errors.Error); ok && h.N(3) > 0 {
					m := fmt.Sprintf("<mark %d.%d>", c, i)
					if h.OneIn(4) {
						m = fmt.Sprintf("<mark %d.%d 100%% %%d %%!s(x)>", c, i)
					}
					var r error
					if h.OneIn(4) {
						r = e.Chain(listError{m})
					} else {
						r = e.Chain(fmt.Errorf("%s", m))
					}
					k.marks = append(k.marks, m)
					h.Inject("error-extended")
					h.Check(r == error(e), "chain", "Chain returns another error")
				}
				k.check(h, mine)
			}
			for _, k := range mine {
				k.check(h, mine)
			}
		}))
	}
	h.S.Join(cs...)
	h.S.Quiet(func() {
		for _, k := range all {
			k.check(h, all)
		}
	})
}

// excErrsRun: exceptions collect errors; joining gives a new exception and
// leaves its parts alone.
func excErrsRun(h *H) {
	type rec struct {
		e    *exc.Exception
		errs []*exc.Error
	}
	check := func(r *rec) {
		h.Check(len(r.e.Errors) == len(r.errs), "exception", "an exception holds %d errors instead of %d", len(r.e.Errors), len(r.errs))
		msg := r.e.Error()
		for i, e := range r.errs {
			h.Check(r.e.Errors[i] == e, "exception", "error %d of an exception is another one", i)
			h.Check(strings.Contains(msg, e.Err.Error()), "text", "the text of an exception misses %q", e.Err)
		}
		h.Check(!strings.Contains(msg, "\x00"), "text", "the text of an exception contains zero bytes")
		h.Check(r.e.String() == msg, "text", "String and Error of an exception differ")
		h.Check(r.e.Exc() == r.e, "exception", "Exc of an exception gives another one")
	}
	serial := 0
	fresh := func() *exc.Error {
		serial++
		if h.OneIn(2) {
			if h.OneIn(3) {
				cause := listError{fmt.Sprintf("<cause %d 100%% %%d>", serial)}
				e := exc.FromError(cause)
				got, ok := e.Err.(listError)
				h.Check(ok && &got[0] == &cause[0], "exception", "FromError holds another error")
				return e
			}
			cause := fmt.Errorf("<cause %d>", serial)
			e := exc.FromError(cause)
			h.Check(e.Err == cause, "exception", "FromError holds another error")
			return e
		}
		id := serial
		e := exc.Errorf("<error %d>", id)
		h.Check(e.Err.Error() == fmt.Sprintf("<error %d>", id), "text", "Errorf(%q) gives %q", id, e.Err)
		h.Check(strings.Contains(e.Error(), e.Err.Error()) && e.String() == e.Error(), "text", "the text of an error misses its message")
		return e
	}
	// common parts: everybody joins them, nobody may change them
	var common []*rec
	h.S.Quiet(func() {
		for i := 0; i < 2; i++ {
			r := &rec{e: &exc.Exception{}}
			for n := h.N(5); n > 0; n-- {
				e := fresh()
				if r.errs == nil && h.OneIn(2) {
					r.e = e.Exception()
				} else {
					r.e.Chain(e)
				}
				r.errs = append(r.errs, e)
			}
			check(r)
			common = append(common, r)
		}
	})
	var cs []*simrt.Task
	for c := Pick(h, 2, 3); c > 0; c-- {
		n := h.Range(1, 8)
		cs = append(cs, h.S.Spawn("client", func() {
			var mine []*rec
			any := func() *rec {
				i := h.N(len(common) + len(mine))
				if i < len(common) {
					return common[i]
				}
				return mine[i-len(common)]
			}
			for i := 0; i < n; i++ {
				switch k := h.N(4); {
				case k < 2 || len(mine) == 0:
					a, b := any(), any()
					r := &rec{e: a.e.Join(b.e)}
					r.errs = append(append(r.errs, a.errs...), b.errs...)
					check(r)
					mine = append(mine, r)
				case k == 2:
					r := mine[h.N(len(mine))]
					e := fresh()
					if len(r.errs) > 0 && h.OneIn(4) {
						e = r.errs[h.N(len(r.errs))] // the same error once more
					}
					t := r.e.Chain(e)
					r.errs = append(r.errs, e)
					h.Check(t == exc.Throwable(r.e), "exception", "Chain returns another exception")
					h.Inject("error-extended")
				default:
					check(any())
				}
			}
			for _, r := range mine {
				check(r)
			}
		}))
	}
	h.S.Join(cs...)
	for _, r := range common {
		check(r)
	}
}

// logRun: log lines are complete and belong to one call each; silenced levels
// give none.
func logRun(h *H) {
	var buf bytes.Buffer
	log.SetOutput(&buf)
	defer log.SetOutput(log.Writer())
	levels := []string{"DEBUG", "INFO", "ERROR", "debug", "INF"}
	for _, l := range levels {
		delete(errors.SkipLogging, l)
	}
	skip := map[string]bool{}
	for _, l := range levels {
		if h.OneIn(2) {
			skip[l] = true
			errors.SkipLogging[l] = true
		}
	}
	var want []string
	var cs []*simrt.Task
	for c := Pick(h, 2, 3); c > 0; c-- {
		c := c
		n := h.Range(1, 6)
		cs = append(cs, h.S.Spawn("client", func() {
			for i := 0; i < n; i++ {
				l := levels[h.N(len(levels))]
				m := fmt.Sprintf("<%d.%d>", c, i)
				switch h.N(6) {
				case 0:
					m = fmt.Sprintf("<%d.%d_100%%_%%d_%%s>", c, i)
				case 1:
					m = fmt.Sprintf("<%d.%d_%s>", c, i, strings.Repeat("long", 100))
				}
				if !skip[l] {
					want = append(want, l+" "+m)
				}
				if h.OneIn(2) && !strings.Contains(m, "%") {
					errors.Logf(l, m)
				} else {
					errors.Logf(l, "%s", m)
				}
			}
		}))
	}
	h.S.Join(cs...)
	got := strings.Split(strings.TrimSuffix(buf.String(), "\n"), "\n")
	if buf.Len() == 0 {
		got = nil
	}
	h.Check(len(got) == len(want), "log", "%d lines are logged instead of %d", len(got), len(want))
	for _, w := range want {
		f := strings.Fields(w)
		n := 0
		for _, g := range got {
			if strings.Contains(g, f[1]) {
				n++
				h.Check(strings.Contains(g, f[0]), "log", "a line of level %s is logged as %q", f[0], g)
			}
		}
		h.Check(n == 1, "log", "the message %q is logged %d times", w, n)
	}
	for l := range skip {
		delete(errors.SkipLogging, l)
	}
}

func init() {
	register(&Scenario{Prop: "C25", Name: "errors", Weight: 4, Race: true, Stalls: true, Steps: 20_000_000, Run: errsRun})
	register(&Scenario{Prop: "C25", Name: "exceptions", Weight: 2, Race: true, Stalls: true, Steps: 20_000_000, Run: excErrsRun})
	register(&Scenario{Prop: "C25", Name: "log", Race: true, Stalls: true, Steps: 20_000_000, Run: logRun})
}
