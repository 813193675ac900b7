package main

import (
	"sort"
	"strings"

	"github.com/timtadh/data-structures/trie"
	"github.com/timtadh/data-structures/types"
)

// ---- C15: ternary search trie

type sent struct {
	k string
	v int
}

type tstSubject struct {
	h     *H
	t     *trie.TST
	m     []sent
	alpha string
	maxl  int
	next  int

	// set where the memory of keys matters (C20)
	bs    func(k string) []byte   // the memory a key is passed in
	given func(k types.ByteSlice) // called with every key handed out
}

func (s *tstSubject) b(k string) []byte {
	if s.bs != nil {
		return s.bs(k)
	}
	return []byte(k)
}

func (s *tstSubject) at(k string) (int, bool) {
	i := sort.Search(len(s.m), func(i int) bool { return s.m[i].k >= k })
	return i, i < len(s.m) && s.m[i].k == k
}

// key draws a key: fresh, or related to one that is present
func (s *tstSubject) key() string {
	h := s.h
	if len(s.m) > 0 && h.OneIn(3) {
		k := s.m[h.N(len(s.m))].k
		switch h.N(4) {
		case 0:
			return k
		case 1:
			return k[:1+h.N(len(k))]
		case 2:
			return k + string(s.alpha[h.N(len(s.alpha))])
		default:
			b := []byte(k)
			b[len(b)-1] = s.alpha[h.N(len(s.alpha))]
			return string(b)
		}
	}
	b := make([]byte, 1+h.N(s.maxl))
	for i := range b {
		b[i] = s.alpha[h.N(len(s.alpha))]
	}
	return string(b)
}

func (s *tstSubject) lookup(k string) {
	h := s.h
	i, had := s.at(k)
	v, err := s.t.Get(s.b(k))
	if had {
		h.Check(err == nil, "get", "Get(%x) fails: %v", k, err)
		h.Check(eqVal(v, s.m[i].v), "get", "Get(%x) = %v instead of %v", k, v, mkVal(s.m[i].v))
	} else {
		h.Check(err != nil, "get-absent", "Get of absent %x gives %v and no error", k, v)
	}
	has := s.t.Has(s.b(k))
	h.Check(has == had, "has", "Has(%x) = %v", k, has)
}

func (s *tstSubject) invalid() []byte {
	h := s.h
	switch h.N(4) {
	case 0:
		return nil
	case 1:
		return []byte{}
	case 2:
		return []byte{0}
	}
	b := []byte(s.key())
	b[h.N(len(b))] = 0
	return b
}

func (s *tstSubject) op(k string, add bool) {
	h := s.h
	i, had := s.at(k)
	if h.OneIn(15) {
		b := s.invalid()
		h.Check(s.t.ValidateKey(b) != nil, "invalid-key", "ValidateKey(%x) gives no error", b)
		h.Check(s.t.Put(b, 1) != nil, "invalid-key", "Put(%x) gives no error", b)
		_, err := s.t.Remove(b)
		h.Check(err != nil, "invalid-key", "Remove(%x) gives no error", b)
		_, err = s.t.Get(b)
		h.Check(err != nil && !s.t.Has(b), "invalid-key", "Get(%x) gives no error", b)
	}
	if add {
		v := s.next
		s.next++
		h.Check(s.t.ValidateKey(s.b(k)) == nil, "valid-key", "ValidateKey(%x) fails", k)
		err := s.t.Put(s.b(k), mkVal(v))
		h.Check(err == nil, "put", "Put(%x) fails: %v", k, err)
		if had {
			s.m[i].v = v
		} else {
			s.m = append(s.m, sent{})
			copy(s.m[i+1:], s.m[i:])
			s.m[i] = sent{k, v}
		}
	} else {
		v, err := s.t.Remove(s.b(k))
		if had {
			h.Check(err == nil, "remove", "Remove(%x) fails: %v", k, err)
			h.Check(eqVal(v, s.m[i].v), "remove", "Remove(%x) = %v instead of %v", k, v, mkVal(s.m[i].v))
			s.m = append(s.m[:i], s.m[i+1:]...)
		} else {
			h.Check(err != nil, "remove-absent", "Remove of absent %x gives no error", k)
		}
	}
	if h.OneIn(3) {
		s.lookup(k)
	}
}

func (s *tstSubject) pairs(what string, it types.KVIterator, want []sent) {
	h := s.h
	var keys []types.ByteSlice
	for _, e := range want {
		var k types.Hashable
		var v interface{}
		k, v, it = it()
		h.Check(it != nil, "enumeration", "%s ends early, %x is missing", what, e.k)
		h.Check(string(k.(types.ByteSlice)) == e.k, "enumeration", "%s gives %x where %x is expected", what, []byte(k.(types.ByteSlice)), e.k)
		keys = append(keys, k.(types.ByteSlice))
		if s.given != nil {
			s.given(k.(types.ByteSlice))
		}
		h.Check(eqVal(v, e.v), "enumeration", "%s gives the value %v for %x instead of %v", what, v, e.k, mkVal(e.v))
	}
	k, _, next := it()
	h.Check(next == nil, "enumeration", "%s gives an extra key %x", what, k)
	for i, e := range want {
		h.Check(string(keys[i]) == e.k, "handed-out", "the key %x given by %s became %x later", e.k, what, []byte(keys[i]))
	}
}

func (s *tstSubject) prefix() {
	h := s.h
	p := ""
	switch h.N(8) {
	case 0:
	case 1:
		p = s.key() + s.key()
	case 2:
		p = string(s.invalid())
	default:
		p = s.key()
		p = p[:1+h.N(len(p))]
	}
	var want []sent
	for _, e := range s.m {
		if strings.HasPrefix(e.k, p) {
			want = append(want, e)
		}
	}
	s.pairs("PrefixFind("+hex(p)+")", s.t.PrefixFind(s.b(p)), want)
}

func hex(s string) string {
	const d = "0123456789abcdef"
	var b []byte
	for i := 0; i < len(s); i++ {
		b = append(b, d[s[i]>>4], d[s[i]&15])
	}
	return string(b)
}

func (s *tstSubject) full() {
	s.pairs("Iterate", s.t.Iterate(), s.m)
	for _, e := range s.m {
		s.lookup(e.k)
	}
	for i := 0; i < 4; i++ {
		s.prefix()
		s.lookup(s.key())
	}
}

func (s *tstSubject) read() {
	h := s.h
	switch h.N(9) {
	case 0, 1:
		s.lookup(s.key())
	case 2, 3:
		s.prefix()
	case 4:
		s.pairs("Iterate", s.t.Iterate(), s.m)
	case 5:
		ki, vi, ii := s.t.Keys(), s.t.Values(), s.t.Items()
		var ks, xs []types.Hashable
		for _, e := range s.m {
			var k, x types.Hashable
			var v interface{}
			k, ki = ki()
			v, vi = vi()
			x, ii = ii()
			h.Check(ki != nil && vi != nil && ii != nil, "enumeration", "Keys, Values or Items ends early")
			ks, xs = append(ks, k), append(xs, x)
			h.Check(string(k.(types.ByteSlice)) == e.k && eqVal(v, e.v), "enumeration", "Keys and Values give (%x,%v) where (%x,%v) is expected", k, v, e.k, mkVal(e.v))
			me := x.(*types.MapEntry)
			h.Check(string(me.Key.(types.ByteSlice)) == e.k && eqVal(me.Value, e.v), "enumeration", "Items gives %v where (%x,%v) is expected", me, e.k, mkVal(e.v))
		}
		_, ki = ki()
		_, vi = vi()
		_, ii = ii()
		h.Check(ki == nil && vi == nil && ii == nil, "enumeration", "Keys, Values or Items gives too many")
		for i, e := range s.m {
			h.Check(string(ks[i].(types.ByteSlice)) == e.k && string(xs[i].(*types.MapEntry).Key.(types.ByteSlice)) == e.k, "handed-out", "a key or item of %x changed later", e.k)
		}
	case 6:
		b := s.invalid()
		_, err := s.t.Get(b)
		h.Check(err != nil && !s.t.Has(b), "invalid-key", "Get(%x) gives no error", b)
	case 7:
		a, b := s.t.String(), s.t.Dotty()
		h.Check(s.t.String() == a && s.t.Dotty() == b, "text", "two descriptions of an unmodified trie differ")
	default:
		n := h.N(6)
		i := 0
		for k, _, next := s.t.Iterate()(); next != nil && i < n; k, _, next = next() {
			h.Check(i < len(s.m) && string(k.(types.ByteSlice)) == s.m[i].k, "enumeration", "Iterate gives %x at position %d", k, i)
			i++
		}
		h.Inject("iterator-abandoned")
	}
}

func (s *tstSubject) write() { s.op(s.key(), s.h.N(2) == 0) }

func tstRun(h *H) {
	s := &tstSubject{h: h, t: trie.New(), next: 1}
	s.alpha = Pick(h, "ab", "a", "abc", "\x01a\xff", "\x01\x02\x7f\x80\xfe\xff", "abcdefghijklmnopqrstuvwxyz")
	s.maxl = Pick(h, 3, 1, 2, 6, 20)
	if h.OneIn(20) {
		s.maxl = 300
	}
	h.S.Quiet(func() {
		n := histLen(h, 400)
		if k := large(h); k > 0 {
			s.maxl = Pick(h, 6, 20)
			n = 2 * k
		}
		// a pool of recurring keys, so that removals hit
		words := make([]string, 1+h.N(n+2))
		for i := range words {
			words[i] = s.key()
		}
		sort.Strings(words)
		drive(h, n, len(words), func(k int, add bool) {
			w := words[k]
			if h.OneIn(6) {
				w = s.key()
			}
			s.op(w, add)
		}, s.full)
	})
	share(h, &subject{write: s.write, read: s.read, full: s.full})
}

func init() {
	register(&Scenario{Prop: "C15", Name: "trie", Race: true, Stalls: true, Steps: 200_000_000, Run: hugeOr(tstRun, hugeTrie, hugeWords)})
}
