package main

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"
	"unsafe"

	"github.com/timtadh/data-structures/types"
	"verif.local/sim/simrt"
)

// ---- keys of several kinds, all ordered like the int they stand for

type keySpace struct {
	name string
	size int
	mk   func(v int) types.Hashable
	id   func(x types.Hashable) int
}

var (
	wordTable []string
	wordIndex = map[string]int{}
)

func init() {
	// all words over three letters up to length 6, in order: many prefixes of each other
	var rec func(p string)
	rec = func(p string) {
		wordTable = append(wordTable, p)
		if len(p) < 6 {
			for _, c := range []string{"\x01", "a", "\xff"} {
				rec(p + c)
			}
		}
	}
	rec("")
	sort.Strings(wordTable)
	for i, w := range wordTable {
		wordIndex[w] = i
	}
}

func pickKeys(h *H, size int) *keySpace { return keysOf(h, size, h.N(9)) }

// spreadKeys: hash codes spread over the buckets
func spreadKeys(h *H, size int) *keySpace { return keysOf(h, size, Pick(h, 0, 2, 4, 5, 6, 8)) }

func keysOf(h *H, size, kind int) *keySpace {
	ks := &keySpace{size: size}
	ks.id = func(x types.Hashable) int { return x.(*Key).v }
	switch kind {
	case 0:
		ks.name = "key"
		ks.mk = func(v int) types.Hashable { return &Key{v: v, h: v} }
	case 1:
		ks.name = "key/colliding"
		m := h.Range(1, 5)
		ks.mk = func(v int) types.Hashable { return &Key{v: v, h: v%m - m/2} }
	case 2:
		ks.name = "key/negative"
		ks.mk = func(v int) types.Hashable { return &Key{v: v, h: -v} }
	case 3:
		ks.name = "key/extreme"
		s := uint(h.N(60))
		ks.mk = func(v int) types.Hashable {
			x := v << s
			switch v % 7 {
			case 0:
				x = math.MinInt64 + v/7
			case 1:
				x = math.MaxInt64 - v/7
			}
			return &Key{v: v, h: x}
		}
	case 4:
		ks.name = "Int"
		off := h.N(size + 1)
		if h.OneIn(4) {
			// up to the ends of the range
			ks.name = "Int/extreme"
			ks.mk = func(v int) types.Hashable {
				if v < off {
					return types.Int(math.MinInt64 + v)
				}
				return types.Int(math.MaxInt64 - 1000000 + v)
			}
			ks.id = func(x types.Hashable) int {
				if i := int(x.(types.Int)); i < 0 {
					return i - math.MinInt64
				} else {
					return i - (math.MaxInt64 - 1000000)
				}
			}
			break
		}
		ks.mk = func(v int) types.Hashable { return types.Int(v - off) }
		ks.id = func(x types.Hashable) int { return int(x.(types.Int)) + off }
	case 5:
		ks.name = "String"
		if size <= len(wordTable) {
			step := len(wordTable) / size
			ks.mk = func(v int) types.Hashable {
				if v >= size {
					return types.String(fmt.Sprintf("\xff\xff\xff\xff\xff\xff%05d", v))
				}
				return types.String(wordTable[v*step])
			}
			ks.id = func(x types.Hashable) int { return wordIndex[string(x.(types.String))] / step }
		} else {
			ks.mk = func(v int) types.Hashable { return types.String(fmt.Sprintf("%05d", v)) }
			ks.id = func(x types.Hashable) int { n := 0; fmt.Sscanf(string(x.(types.String)), "%d", &n); return n }
		}
	case 6:
		ks.name = "ByteSlice"
		if size+1 < len(wordTable) && h.OneIn(2) {
			ks.mk = func(v int) types.Hashable { return types.ByteSlice(wordTable[v]) }
			ks.id = func(x types.Hashable) int { return wordIndex[string(x.(types.ByteSlice))] }
			break
		}
		ks.mk = func(v int) types.Hashable { return types.ByteSlice{byte(v >> 8), byte(v)} }
		ks.id = func(x types.Hashable) int { b := x.(types.ByteSlice); return int(b[0])<<8 | int(b[1]) }
	case 7:
		ks.name = "Int64"
		ks.mk = func(v int) types.Hashable { return types.Int64(v - 3) }
		ks.id = func(x types.Hashable) int { return int(x.(types.Int64)) + 3 }
	default:
		n := 6
		if size < 100 {
			n = 8
		}
		k := h.N(n)
		ks.name = []string{"UInt32", "Int32", "UInt64", "UInt", "Int16", "UInt16", "Int8", "UInt8"}[k]
		ks.mk = func(v int) types.Hashable {
			switch k {
			case 0:
				return types.UInt32(v)
			case 1:
				return types.Int32(v - 2)
			case 2:
				return types.UInt64(v)
			case 3:
				return types.UInt(v)
			case 4:
				return types.Int16(v - 2)
			case 5:
				return types.UInt16(v)
			case 6:
				return types.Int8(v - 2)
			}
			return types.UInt8(v)
		}
		ks.id = func(x types.Hashable) int {
			switch k {
			case 0:
				return int(x.(types.UInt32))
			case 1:
				return int(x.(types.Int32)) + 2
			case 2:
				return int(x.(types.UInt64))
			case 3:
				return int(x.(types.UInt))
			case 4:
				return int(x.(types.Int16)) + 2
			case 5:
				return int(x.(types.UInt16))
			case 6:
				return int(x.(types.Int8)) + 2
			}
			return int(x.(types.UInt8))
		}
	}
	return ks
}

// mixedKeys: keys of three types that have the same hash codes but are never
// equal (nor ordered among each other)
func mixedKeys(size int) *keySpace {
	return &keySpace{name: "mixed", size: size,
		mk: func(v int) types.Hashable {
			switch v % 3 {
			case 0:
				return types.Int(v / 3)
			case 1:
				return types.UInt16(v / 3)
			}
			return types.Int32(v / 3)
		},
		id: func(x types.Hashable) int {
			switch x := x.(type) {
			case types.Int:
				return 3 * int(x)
			case types.UInt16:
				return 3*int(x) + 1
			default:
				return 3*int(x.(types.Int32)) + 2
			}
		},
	}
}

// foreign: a key of another type, which no container of ks holds
func foreign(h *H, ks *keySpace) types.Hashable {
	i := h.N(3)
	xs := []types.Hashable{types.Int(i), types.String(""), types.ByteSlice{}, types.Int8(i), types.UInt8(i), types.Int16(i), types.UInt16(i),
		types.Int32(i), types.UInt32(i), types.Int64(i), types.UInt64(i), types.UInt(i)}
	x := xs[h.N(len(xs))]
	switch k := ks.mk(0); {
	case reflect.TypeOf(k) != reflect.TypeOf(x) && ks.name != "mixed":
		return x
	default:
		return &Key{v: i, h: i}
	}
}

// text: describing a container is a read like any other; the text names
// every item.
func text(h *H, c fmt.Stringer, ks *keySpace, m []int) {
	delete(panicIn, h.S.Cur().ID) // fmt catches panics
	a := c.String()
	for i := 0; i < 4 && len(m) > 0; i++ {
		w := fmt.Sprintf("%v", ks.mk(m[h.N(len(m))]))
		h.Check(strings.Contains(a, w), "text", "the text %.200q does not name %q", a, w)
	}
	h.Check(c.String() == a, "text", "two descriptions of an unmodified container differ")
}

// ---- mutable sorted model

type omap struct{ s smap }

func (m *omap) get(k int) (int, bool) { return m.s.get(k) }
func (m *omap) put(k, v int) {
	i, ok := m.s.find(k)
	if ok {
		m.s[i].v = v
		return
	}
	m.s = append(m.s, kv{})
	copy(m.s[i+1:], m.s[i:])
	m.s[i] = kv{k, v}
}
func (m *omap) del(k int) {
	if i, ok := m.s.find(k); ok {
		m.s = append(m.s[:i], m.s[i+1:]...)
	}
}

// ---- values: unique ints, some of them stored as nil and some inside a type
// that Go cannot compare

func mkVal(v int) interface{} {
	if v%13 == 12 {
		return nil
	}
	return mkSome(v)
}

func eqVal(x interface{}, v int) bool {
	if v%13 == 12 {
		return x == nil
	}
	return isVal(x, v)
}

// mkSome, isVal and someVal: the same without nil.
func mkSome(v int) interface{} {
	if v%7 == 3 {
		return []int{v}
	}
	return v
}

func isVal(x interface{}, v int) bool {
	if v%7 == 3 {
		b, ok := x.([]int)
		return ok && len(b) == 1 && b[0] == v
	}
	i, ok := x.(int)
	return ok && i == v
}

func someVal(x interface{}) int {
	if b, ok := x.([]int); ok {
		return b[0]
	}
	return x.(int)
}

// ---- a container shared by clients that follow the rule of the properties:
// modifications are exclusive, reads may overlap with reads.

type subject struct {
	write func() // one modification, checked against the model
	read  func() // one read, checked against the model
	full  func() // everything, checked against the model
}

type rwlock struct {
	h       *H
	readers map[int]bool
	writer  bool
	hb      byte
}

func (l *rwlock) rlock() {
	for l.writer {
		l.h.S.Block("caller's lock", func() bool { return !l.writer })
	}
	l.readers[l.h.S.Cur().ID] = true
	l.h.S.Acquire(unsafe.Pointer(&l.hb))
}
func (l *rwlock) drop(id int) {
	if l.readers[id] {
		l.h.S.Release(unsafe.Pointer(&l.hb))
		delete(l.readers, id)
	}
}
func (l *rwlock) lock() {
	for l.writer || len(l.readers) > 0 {
		l.h.S.Block("caller's lock", func() bool { return !l.writer && len(l.readers) == 0 })
	}
	l.writer = true
	l.h.S.Acquire(unsafe.Pointer(&l.hb))
}
func (l *rwlock) unlock() {
	l.h.S.Release(unsafe.Pointer(&l.hb))
	l.writer = false
}

// share runs the concurrent part of a scenario over a container whose history
// has been built already.
func share(h *H, s *subject) {
	wOneIn := Pick(h, 0, 0, 4, 2)
	l := &rwlock{h: h, readers: map[int]bool{}}
	h.S.OnKill = func(t *simrt.Task) { l.drop(t.ID) }
	kills := h.OneIn(3)
	panics := h.OneIn(3)
	var cs []*simrt.Task
	most := Pick(h, 6, 15)
	nc := Pick(h, 2, 3, 4)
	for c := 0; c < nc; c++ {
		n := h.Range(1, most)
		writes := wOneIn > 0 && h.OneIn(2)
		kill := -1
		if kills && !writes && h.OneIn(2) {
			kill = h.N(300)
		}
		t := h.S.Spawn("client", func() {
			for i := 0; i < n; i++ {
				if writes && h.OneIn(wOneIn) {
					l.lock()
					h.Logf("write")
					s.write()
					l.unlock()
					continue
				}
				if wOneIn > 0 {
					l.rlock()
				}
				h.Logf("read")
				if panics && h.OneIn(2) {
					guarded(h, h.N(12), s.read)
				} else {
					s.read()
				}
				if wOneIn > 0 {
					l.drop(h.S.Cur().ID)
				}
			}
		})
		if kill >= 0 {
			h.S.KillAfter(t, kill)
		}
		cs = append(cs, t)
	}
	h.S.Join(cs...)
	h.S.OnKill = nil
	h.S.Quiet(s.full)
}

// history length: mostly short, sometimes long enough to cross every growth
// threshold of the containers
func histLen(h *H, long int) int {
	n := Pick(h, 3, 0, 1, 5, 8, 12, 8, 20, 60, 150)
	if h.OneIn(40) {
		n = long
		if h.Big {
			n = 2 * long
		}
	}
	return n
}

// large gives the size of the few runs with many items, 0 for the others.
func large(h *H) int {
	if !h.OneIn(2000) {
		return 0
	}
	h.S.Cfg.MaxOp *= 20
	h.S.Cfg.MaxSteps *= 10
	h.S.Cfg.MeanGap *= 30
	return Pick(h, 500, 1000, 2000)
}

// fill adds n keys in ascending, descending or mixed order; sometimes it then
// removes most or all of them, and adds some again.
func fill(h *H, n int, op func(k int, add bool), full func()) {
	if n == 0 {
		return
	}
	pass := func(m int, add bool) {
		order := h.N(3)
		for i := 0; i < m; i++ {
			k := i
			switch order {
			case 1:
				k = n - 1 - i
			case 2:
				k = i * 1009 % n
			}
			op(k, add)
		}
		full()
	}
	pass(n, true)
	if h.OneIn(2) {
		pass(Pick(h, n, n-1, n-n/20, n-n/5, n/2), false)
		if h.OneIn(2) {
			pass(Pick(h, n/3, n), true)
		}
	}
}

// drive builds a history: phases of growing, shrinking or mixed modification
// in ascending, descending or random key order; op gets the next key and
// whether to add or to remove.
func drive(h *H, total, keyspace int, op func(k int, add bool), full func()) {
	done := 0
	fullEvery := 1 + total/4
	for done < total {
		n := 1 + h.N(total)
		order := h.N(3)
		bias := h.N(4) // 0 add, 1 remove, 2,3 mixed
		start, step := h.N(keyspace), 1
		if h.OneIn(3) {
			step = 1 + h.N(5)
		}
		for i := 0; i < n && done < total; i++ {
			k := 0
			switch order {
			case 0:
				k = (start + i*step) % keyspace
			case 1:
				k = keyspace - 1 - (start+i*step)%keyspace
			default:
				k = h.N(keyspace)
			}
			add := bias == 0
			if bias >= 2 {
				add = h.N(bias+1) > 0
			}
			op(k, add)
			done++
			if done%fullEvery == 0 || h.OneIn(30) && total < 100 {
				full()
			}
		}
	}
	full()
}
