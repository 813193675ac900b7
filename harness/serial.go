package main

import (
	"bytes"
	"errors"
	"fmt"
	"math"

	"github.com/timtadh/data-structures/list"
	"github.com/timtadh/data-structures/set"
	"github.com/timtadh/data-structures/types"
	"verif.local/sim/simrt"
)

// mItem is an application type with its own binary form.
type mItem struct{ v int }

func (m *mItem) Equals(o types.Equatable) bool { x, ok := o.(*mItem); return ok && x.v == m.v }
func (m *mItem) Less(o types.Sortable) bool    { x, ok := o.(*mItem); return ok && m.v < x.v }
func (m *mItem) Hash() int                     { return m.v }
func (m *mItem) MarshalBinary() ([]byte, error) {
	simrt.Yield()
	return []byte(fmt.Sprintf("%d", m.v)), nil
}
func (m *mItem) UnmarshalBinary(b []byte) error {
	simrt.Yield()
	_, err := fmt.Sscanf(string(b), "%d", &m.v)
	return err
}

type codec struct {
	name string
	gen  func(h *H) types.Hashable
	mk   func() (types.ItemMarshal, types.ItemUnmarshal)
}

func pickInt(h *H, bits uint) int64 {
	switch h.N(6) {
	case 0:
		return int64(h.N(10))
	case 1:
		return -int64(h.N(10)) - 1
	case 2:
		return 1<<(bits-1) - 1 - int64(h.N(3))
	case 3:
		return -1<<(bits-1) + int64(h.N(3))
	case 4:
		return int64(1) << uint(h.N(int(bits)-1))
	}
	return int64(mix(uint64(h.N(1<<30)), 7)) >> (64 - bits)
}

var codecs = []codec{
	{"Int", func(h *H) types.Hashable { return types.Int(pickInt(h, 64)) }, types.IntMarshals},
	{"String", func(h *H) types.Hashable { return types.String(genBytes(h)) }, types.StringMarshals},
	{"ByteSlice", func(h *H) types.Hashable { return types.ByteSlice(genBytes(h)) }, types.ByteSliceMarshals},
	{"UInt", func(h *H) types.Hashable { return types.UInt(pickInt(h, 64)) }, types.UIntMarshals},
	{"Int8", func(h *H) types.Hashable { return types.Int8(pickInt(h, 8)) }, types.Int8Marshals},
	{"UInt8", func(h *H) types.Hashable { return types.UInt8(pickInt(h, 8)) }, types.UInt8Marshals},
	{"Int16", func(h *H) types.Hashable { return types.Int16(pickInt(h, 16)) }, types.Int16Marshals},
	{"UInt16", func(h *H) types.Hashable { return types.UInt16(pickInt(h, 16)) }, types.UInt16Marshals},
	{"Int32", func(h *H) types.Hashable { return types.Int32(pickInt(h, 32)) }, types.Int32Marshals},
	{"UInt32", func(h *H) types.Hashable { return types.UInt32(pickInt(h, 32)) }, types.UInt32Marshals},
	{"Int64", func(h *H) types.Hashable { return types.Int64(pickInt(h, 64)) }, types.Int64Marshals},
	{"UInt64", func(h *H) types.Hashable { return types.UInt64(pickInt(h, 64)) }, types.UInt64Marshals},
	{"own", func(h *H) types.Hashable { return &mItem{int(pickInt(h, 40))} }, func() (types.ItemMarshal, types.ItemUnmarshal) {
		return types.MakeMarshals(func() types.MHashable { return &mItem{} })
	}},
}

func genBytes(h *H) []byte {
	n := Pick(h, 1, 2, 3, 0, 8, 300)
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(h.N(4))
		if n > 10 {
			b[i] = byte(i)
		}
	}
	return b
}

// itemPtr: a fresh variable holding the item, with its own binary form
func itemPtr(x types.Hashable) types.Marshaler {
	switch v := x.(type) {
	case types.Int:
		return &v
	case types.UInt:
		return &v
	case types.Int8:
		return &v
	case types.UInt8:
		return &v
	case types.Int16:
		return &v
	case types.UInt16:
		return &v
	case types.Int32:
		return &v
	case types.UInt32:
		return &v
	case types.Int64:
		return &v
	case types.UInt64:
		return &v
	case types.String:
		return &v
	case types.ByteSlice:
		return &v
	}
	return &mItem{x.(*mItem).v}
}

func itemOf(m types.Marshaler) types.Hashable {
	switch v := m.(type) {
	case *types.Int:
		return *v
	case *types.UInt:
		return *v
	case *types.Int8:
		return *v
	case *types.UInt8:
		return *v
	case *types.Int16:
		return *v
	case *types.UInt16:
		return *v
	case *types.Int32:
		return *v
	case *types.UInt32:
		return *v
	case *types.Int64:
		return *v
	case *types.UInt64:
		return *v
	case *types.String:
		return *v
	case *types.ByteSlice:
		return *v
	}
	return m.(*mItem)
}

// render gives a comparable, alias-free image of an item
func render(x types.Hashable) string {
	switch v := x.(type) {
	case types.ByteSlice:
		return fmt.Sprintf("b%x", []byte(v))
	case types.String:
		return fmt.Sprintf("s%x", string(v))
	case *mItem:
		return fmt.Sprintf("m%d", v.v)
	case nil:
		return "nil"
	}
	return fmt.Sprintf("%T%v", x, x)
}

var errCodec = errors.New("codec failure")

// mcont abstracts over the three serializable containers
type mcont struct {
	kind    int // 0 list, 1 sorted list, 2 sorted set
	ml      *list.MList
	ms      *list.MSorted
	mset    *set.MSortedSet
	marshal func() ([]byte, error)
	unmar   func([]byte) error
}

func (c *mcont) size() int {
	switch c.kind {
	case 0:
		return c.ml.Size()
	case 1:
		return c.ms.Sorted().Size()
	}
	return c.mset.SortedSet().Size()
}

func (c *mcont) items() []string {
	var it types.KIterator
	switch c.kind {
	case 0:
		it = c.ml.Items()
	case 1:
		it = c.ms.Sorted().Items()
	default:
		it = c.mset.SortedSet().Items()
	}
	var out []string
	for x, next := it(); next != nil; x, next = next() {
		out = append(out, render(x))
	}
	return out
}

func (c *mcont) equals(o *mcont) bool {
	switch c.kind {
	case 0:
		return c.ml.Equals(&o.ml.List) && o.ml.Equals(&c.ml.List)
	case 1:
		return c.ms.Sorted().Equals(o.ms.Sorted()) && o.ms.Sorted().Equals(c.ms.Sorted())
	}
	return c.mset.SortedSet().Equals(o.mset.SortedSet())
}

func mkCont(kind int, l *list.List, s *list.Sorted, ss *set.SortedSet, m types.ItemMarshal, u types.ItemUnmarshal) *mcont {
	c := &mcont{kind: kind}
	switch kind {
	case 0:
		c.ml = list.NewMList(l, m, u)
		c.marshal, c.unmar = c.ml.MarshalBinary, c.ml.UnmarshalBinary
	case 1:
		c.ms = list.NewMSorted(s, m, u)
		c.marshal, c.unmar = c.ms.MarshalBinary, c.ms.UnmarshalBinary
	default:
		c.mset = set.NewMSortedSet(ss, m, u)
		c.marshal, c.unmar = c.mset.MarshalBinary, c.mset.UnmarshalBinary
	}
	return c
}

func same(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func serialRun(h *H) {
	cd := codecs[h.N(len(codecs))]
	kind := h.N(3)
	fixed := kind < 2 && h.OneIn(3)
	dups := kind == 0 || (kind == 1 && h.OneIn(2))
	n := Pick(h, 3, 1, 0, 2, 8, 25)
	if h.OneIn(60) {
		n = Pick(h, 100, 127, 128, 255, 256, 257, 300)
	}
	if kind == 0 && len(cd.name) < 6 && cd.name != "own" && h.OneIn(1000) {
		n = Pick(h, 65535, 65536, 65600) // more items than a small count can say
		h.S.Cfg.MaxOp *= 20
	}
	extra := 0
	if fixed {
		extra = Pick(h, 0, 1, 5)
	}
	items := make([]types.Hashable, n)
	for i := range items {
		if i < 400 {
			items[i] = cd.gen(h)
		} else {
			items[i] = items[i-400]
		}
	}
	if kind == 0 && n > 0 && n <= 3 && h.OneIn(60) {
		// an item longer than any small length field can say
		b := bytes.Repeat([]byte{byte(h.N(256))}, Pick(h, 256, 65535, 65536, 65537, 70000))
		switch items[0].(type) {
		case types.String:
			items[h.N(n)] = types.String(b)
		case types.ByteSlice:
			items[h.N(n)] = types.ByteSlice(b)
		}
	}
	var img []string
	var orig *mcont
	m0, u0 := cd.mk()
	fresh := func(mf types.ItemMarshal, uf types.ItemUnmarshal, dirty bool) *mcont {
		l, s, ss := list.New(4), list.NewSorted(4, !dups), set.NewSortedSet(4)
		if dirty {
			l = list.FromSlice([]types.Hashable{types.Int(1), types.Int(2)})
			if h.OneIn(2) {
				l = list.Fixed(Pick(h, 2, 1, 40))
				l.Append(types.Int(1))
				s = list.NewFixedSorted(Pick(h, 2, 1, 40), !dups)
			}
			s.Add(types.Int(9))
			ss.Add(types.Int(9))
		}
		return mkCont(kind, l, s, ss, mf, uf)
	}
	h.S.Quiet(func() {
		var l *list.List
		var s *list.Sorted
		var ss *set.SortedSet
		switch kind {
		case 0:
			if fixed {
				l = list.Fixed(n + extra)
			} else {
				l = list.New(Pick(h, 0, 4, 100))
			}
			for _, x := range items {
				if err := l.Append(x); err != nil {
					h.Fail("append", "Append failed: %v", err)
				}
			}
		case 1:
			if fixed {
				s = list.NewFixedSorted(n+extra, dups)
			} else {
				s = list.NewSorted(4, dups)
			}
			for _, x := range items {
				if err := s.Add(x); err != nil {
					h.Fail("append", "Add failed: %v", err)
				}
			}
		default:
			ss = set.NewSortedSet(4)
			for _, x := range items {
				ss.Add(x)
			}
		}
		orig = mkCont(kind, l, s, ss, m0, u0)
		img = orig.items()
	})
	capacity := n + extra

	verify := func(c *mcont, what string) {
		got := c.items()
		h.Check(c.size() == len(img), "roundtrip-size", "%s %s: %d items instead of %d", cd.name, what, c.size(), len(img))
		h.Check(same(got, img), "roundtrip-items", "%s %s: items differ: %.300v instead of %.300v", cd.name, what, got, img)
		h.Check(c.equals(orig), "roundtrip-equal", "%s %s: not Equal to the original", cd.name, what)
	}
	flags := func(c *mcont) {
		switch kind {
		case 0:
			free := 0
			if fixed {
				for free <= capacity+2 && c.ml.Append(types.Int(1)) == nil {
					free++
				}
				h.Check(free == capacity-len(img), "roundtrip-fixed", "decoded fixed list accepts %d more items, the original %d", free, capacity-len(img))
			} else {
				for i := 0; i < 3; i++ {
					h.Check(c.ml.Append(types.Int(1)) == nil, "roundtrip-fixed", "decoded growable list refuses to grow")
				}
			}
		case 1:
			s := c.ms.Sorted()
			h.Check(c.ms.AllowDups == dups, "roundtrip-dups", "decoded list has AllowDups=%v", c.ms.AllowDups)
			if len(img) > 0 && (!fixed || extra > 0) {
				x, err := s.Get(len(img) / 2)
				h.Check(err == nil, "roundtrip-get", "Get on the decoded list failed")
				err = s.Add(x)
				h.Check(err == nil, "roundtrip-add", "Add of a duplicate failed: %v", err)
				want := len(img)
				if dups {
					want++
				}
				h.Check(s.Size() == want, "roundtrip-dups", "adding a duplicate to the decoded list gives size %d instead of %d", s.Size(), want)
			}
		default:
			s := c.mset.SortedSet()
			if len(img) > 0 {
				x, _ := s.Get(0)
				s.Add(x)
				h.Check(s.Size() == len(img), "roundtrip-dups", "decoded set holds duplicates")
			}
		}
	}

	var data []byte
	var outs [][]byte
	var cs []*simrt.Task
	nc := Pick(h, 2, 1, 3)
	for c := 0; c < nc; c++ {
		failAt := -1
		if h.OneIn(4) {
			failAt = h.N(n + 1)
		}
		cs = append(cs, h.S.Spawn("encoder", func() {
			if failAt >= 0 {
				// a second wrapper over the same content with a failing codec
				k := 0
				mf := func(x types.Hashable) ([]byte, error) {
					k++
					if k-1 == failAt {
						h.Inject("codec-error")
						return nil, errCodec
					}
					return m0(x)
				}
				var f *mcont
				switch kind {
				case 0:
					f = mkCont(kind, &orig.ml.List, nil, nil, mf, u0)
				case 1:
					f = mkCont(kind, nil, orig.ms.Sorted(), nil, mf, u0)
				default:
					f = mkCont(kind, nil, nil, orig.mset.SortedSet(), mf, u0)
				}
				b, err := f.marshal()
				h.Check((err != nil) == (failAt < len(img)), "codec-error", "encoding with the codec failing at item %d of %d: err=%v", failAt, len(img), err)
				if err != nil {
					h.Check(errors.Is(err, errCodec) && len(b) == 0, "codec-error", "encoding error is %v, %d bytes returned", err, len(b))
				}
				return
			}
			b, err := orig.marshal()
			h.Check(err == nil, "marshal-error", "MarshalBinary failed: %v", err)
			h.Logf("encoded %d bytes", len(b))
			outs = append(outs, b)
		}))
	}
	h.S.Join(cs...)
	for _, b := range outs {
		h.Check(bytes.Equal(b, outs[0]), "marshal-unstable", "concurrent encodings of one container differ")
	}
	verify(orig, "the original after encoding")
	if len(outs) == 0 {
		b, err := orig.marshal()
		h.Check(err == nil, "marshal-error", "MarshalBinary failed: %v", err)
		outs = append(outs, b)
	}
	data = outs[0]
	pristine := append([]byte(nil), data...)

	cs = nil
	nd := Pick(h, 2, 1, 3)
	for c := 0; c < nd; c++ {
		mode := h.N(7)
		dirty := h.OneIn(3)
		arg := h.N(1 << 20)
		arg2 := h.N(256)
		reps := 1 + h.N(4)
		cs = append(cs, h.S.Spawn("decoder", func() {
			switch mode {
			case 0, 1: // decode the shared buffer
				d := fresh(m0, u0, dirty)
				err := d.unmar(data)
				h.Check(err == nil, "unmarshal-error", "%s: decoding failed: %v", cd.name, err)
				verify(d, "decoded")
				h.Logf("decoded ok")
				flags(d)
			case 2: // decode a private buffer that somebody overwrites afterwards
				buf := append([]byte(nil), pristine...)
				d := fresh(m0, u0, dirty)
				err := d.unmar(buf)
				h.Check(err == nil, "unmarshal-error", "%s: decoding failed: %v", cd.name, err)
				w := h.S.Spawn("overwriter", func() {
					for i := range buf {
						buf[i] ^= byte(arg2 | 1)
						if i%16 == 0 {
							simrt.Yield()
						}
					}
				})
				h.Inject("buffer-overwritten")
				verify(d, "decoded, buffer being overwritten")
				h.S.Join(w)
				verify(d, "decoded, buffer overwritten")
			case 3: // truncation
				for i := 0; i < reps; i++ {
					l := (arg + i*7919) % len(pristine)
					if i == 1 {
						l = len(pristine) - 1
					}
					d := fresh(m0, u0, dirty)
					h.Inject("truncated-input")
					buf := append([]byte(nil), pristine[:l]...)
					err := d.unmar(buf)
					h.Check(err != nil, "prefix-accepted", "%s: decoding %d of %d bytes gave no error", cd.name, l, len(pristine))
				}
			case 4: // corruption
				for i := 0; i < reps; i++ {
					buf := append([]byte(nil), pristine...)
					p := (arg + i*104729) % len(buf)
					buf[p] ^= byte(1 + (arg2+i*31)%255)
					if i == 2 {
						buf = append(buf, byte(arg2))
					}
					if hugeFixed(buf, kind) {
						continue
					}
					h.Inject("corrupted-input")
					d := fresh(m0, u0, dirty)
					if err := d.unmar(buf); err == nil {
						// whatever was accepted must be a usable container
						h.Check(d.size() == len(d.items()), "corrupt-container", "accepted corrupted input: size %d but %d items", d.size(), len(d.items()))
						for _, x := range d.items() {
							h.Check(x != "nil", "corrupt-container", "accepted corrupted input holds a nil item")
						}
						b2, err := d.marshal()
						h.Check(err == nil, "corrupt-container", "accepted corrupted input cannot be encoded again: %v", err)
						d2 := fresh(m0, u0, false)
						err = d2.unmar(b2)
						h.Check(err == nil && same(d2.items(), d.items()), "corrupt-container", "accepted corrupted input does not round trip")
					}
				}
			case 5: // the item types' own methods
				if len(items) == 0 {
					return
				}
				it := items[arg%len(items)]
				m, d := itemPtr(it), itemPtr(items[(arg+arg2)%len(items)])
				b, err := m.MarshalBinary()
				h.Check(err == nil, "marshal-error", "%s: an item's MarshalBinary failed: %v", cd.name, err)
				buf := append([]byte(nil), b...)
				err = d.UnmarshalBinary(buf)
				h.Check(err == nil, "unmarshal-error", "%s: an item's UnmarshalBinary failed: %v", cd.name, err)
				h.Check(render(itemOf(d)) == render(it), "item-roundtrip", "%s: %s came back from %s", cd.name, render(itemOf(d)), render(it))
				for i := range buf {
					buf[i] ^= byte(arg2 | 1)
				}
				h.Inject("buffer-overwritten")
				h.Check(render(itemOf(d)) == render(it), "item-aliasing", "%s: %s became %s when its buffer was overwritten", cd.name, render(it), render(itemOf(d)))
				// the encoding of a number cut short is an error (4 bytes of
				// an Int or UInt are an older form of it)
				cut := arg % (len(b) + 1)
				_, cutErr := u0(append([]byte(nil), b[:cut]...))
				if _, str := it.(types.String); !str && cut < len(b) {
					if _, bs := it.(types.ByteSlice); !bs && (cd.name != "own" || cut == 0) && !(cut == 4 && (cd.name == "Int" || cd.name == "UInt")) {
						h.Check(cutErr != nil, "prefix-accepted", "%s: the codec decodes %d of %d bytes of an item without error", cd.name, cut, len(b))
						err := itemPtr(it).UnmarshalBinary(append([]byte(nil), b[:cut]...))
						h.Check(err != nil, "prefix-accepted", "%s: an item decodes %d of its %d bytes without error", cd.name, cut, len(b))
					}
				}
				// no length of input may make it panic
				d.UnmarshalBinary(buf[:arg%(len(buf)+1)])
				d.UnmarshalBinary(append(buf, 1, 2, 3)[:len(buf)+arg%4])
				h.Inject("truncated-input")
			default: // failing codec
				k, at := 0, arg%(n+1)
				uf := func(b []byte) (types.Hashable, error) {
					k++
					if k-1 == at {
						h.Inject("codec-error")
						return nil, errCodec
					}
					return u0(b)
				}
				d := fresh(m0, uf, dirty)
				err := d.unmar(data)
				h.Check((err != nil) == (at < len(img)), "codec-error", "decoding with the codec failing at item %d of %d: err=%v", at, len(img), err)
				h.Check(err == nil || errors.Is(err, errCodec), "codec-error", "decoding error is %v", err)
			}
		}))
	}
	h.S.Join(cs...)
	h.Check(bytes.Equal(data, pristine), "input-modified", "decoding modified its input")
	verify(orig, "the original at the end")
	if kind == 0 && n > 1 && h.OneIn(4) {
		// what was encoded stays, and what is encoded next is the new content
		h.S.Quiet(func() {
			i := h.N(n - 1)
			orig.ml.Remove(i)
			img = orig.items()
			h.Check(len(img) == n-1, "remove", "removing an item of %d leaves %d", n, len(img))
			if n > 2 && h.OneIn(2) {
				orig.ml.Set(0, items[n-1])
				img = orig.items()
			}
			b, err := orig.marshal()
			h.Check(err == nil, "marshal-error", "MarshalBinary failed: %v", err)
			h.Check(bytes.Equal(data, pristine), "output-modified", "a later encoding modified an earlier one")
			d := fresh(m0, u0, false)
			err = d.unmar(b)
			h.Check(err == nil, "unmarshal-error", "%s: decoding failed: %v", cd.name, err)
			verify(d, "decoded after a modification")
		})
	}
}

// hugeFixed: the declared capacity of a fixed-size list is taken at its word;
// corrupted capacities beyond what the machine can hold are not explored.
func hugeFixed(b []byte, kind int) bool {
	if kind > 0 {
		if len(b) < 1 {
			return false
		}
		b = b[1:]
	}
	if len(b) < 5 || b[0] != 1 {
		return false
	}
	c := uint32(b[1]) | uint32(b[2])<<8 | uint32(b[3])<<16 | uint32(b[4])<<24
	return c > 1<<16 && c < math.MaxUint32
}

func init() {
	register(&Scenario{Prop: "C11", Name: "serialize", Weight: 1, Race: true, Stalls: true, Steps: 400_000_000, Run: serialRun})
}
