package main

import (
	"fmt"
	mrand "math/rand"

	trand "github.com/timtadh/data-structures/rand"
	"github.com/timtadh/data-structures/set"
	"github.com/timtadh/data-structures/types"
	"verif.local/sim/simrt"
)

// stream is the sequential reference: which seed is active and how many
// source draws have been made since.
type stream struct {
	seed int64
	pos  int
}

type streams map[int64][]uint64

func (ss streams) at(s stream) uint64 {
	v := ss[s.seed]
	if s.pos < len(v) {
		return v[s.pos]
	}
	src := mrand.NewSource(s.seed).(mrand.Source64)
	v = v[:0]
	for len(v) <= s.pos+64 {
		v = append(v, src.Uint64())
	}
	ss[s.seed] = v
	return v[s.pos]
}

// one atomic draw whose 64-bit value must satisfy pred
func drawPart(ss streams, pred func(u uint64) bool) func(stream) (stream, bool) {
	return func(s stream) (stream, bool) {
		u := ss.at(s)
		return stream{s.seed, s.pos + 1}, pred(u)
	}
}

const m63 = 1<<63 - 1

func refInt31n(u uint64, n int32) (int32, bool) { // false: rejected, needs another draw
	v := int32(int64(u&m63) >> 32)
	if n&(n-1) == 0 {
		return v & (n - 1), true
	}
	max := int32((1 << 31) - 1 - (1<<31)%uint32(n))
	return v % n, v <= max
}

// seedOf: small, negative, zero and large seeds
func seedOf(n int) int64 {
	switch n % 8 {
	case 5:
		return -int64(n)
	case 6:
		return int64(n) << 53
	case 7:
		return int64(n-7) >> 9
	}
	return int64(n)
}

func randRun(h *H) {
	seed0 := seedOf(h.N(1000) + 1)
	r := trand.ThreadSafeRand(seed0)
	nc := Pick(h, 2, 3, 4)
	ss := streams{}
	first := stream{seed: seed0}
	if h.OneIn(25) {
		// far into the stream
		first.pos = h.N(Pick(h, 70, 300, 1300))
		h.S.Quiet(func() {
			for i := 0; i < first.pos; i++ {
				v := r.Uint64()
				h.Check(v == ss.at(stream{seed0, i}), "draw", "draw %d of the stream of seed %d is %d", i, seed0, v)
			}
		})
	}
	seq := uint64(0)
	hist := make([][]*linOp[stream], nc)
	seeder := -1
	if h.OneIn(2) {
		seeder = h.N(nc)
	}
	reader := -1 // Read keeps a remainder: only one task reads (see scenario "read")
	if seeder < 0 && h.OneIn(2) {
		reader = h.N(nc)
	}
	var carry []byte
	perms := 0
	var cs []*simrt.Task
	for c := 0; c < nc; c++ {
		k := h.Range(2, 8)
		kinds := make([]int, k)
		args := make([]int, k)
		for i := range kinds {
			kinds[i] = h.N(10)
			if kinds[i] == 9 && c != reader {
				kinds[i] = 0
			}
			if kinds[i] == 7 && c != seeder {
				kinds[i] = 0
			}
			if kinds[i] == 8 {
				if perms >= 2 {
					kinds[i] = 1
				}
				perms++
			}
			args[i] = 1 + h.N(1000)
		}
		c := c
		cs = append(cs, h.S.Spawn("client", func() {
			for i, kind := range kinds {
				o := &linOp[stream]{}
				seq++
				o.inv = seq
				arg := args[i]
				h.Logf("call %d(%d)", kind, arg)
				var res string
				switch kind {
				case 0:
					v := r.Int63()
					res = fmt.Sprint(v)
					o.parts = []func(stream) (stream, bool){drawPart(ss, func(u uint64) bool { return int64(u&m63) == v })}
				case 1:
					v := r.Uint64()
					res = fmt.Sprint(v)
					o.parts = []func(stream) (stream, bool){drawPart(ss, func(u uint64) bool { return u == v })}
				case 2:
					v := r.Uint32()
					res = fmt.Sprint(v)
					o.parts = []func(stream) (stream, bool){drawPart(ss, func(u uint64) bool { return uint32((u&m63)>>31) == v })}
				case 3:
					v := r.Intn(arg)
					res = fmt.Sprint(v)
					// values above the largest multiple of arg are drawn again
					o.parts = []func(stream) (stream, bool){func(s stream) (stream, bool) {
						w, ok := refInt31n(ss.at(s), int32(arg))
						s.pos++
						return s, !ok || int(w) == v
					}}
					o.again = func(s stream, _ int) bool { _, ok := refInt31n(ss.at(s), int32(arg)); return !ok }
				case 4:
					v := r.Float64()
					res = fmt.Sprint(v)
					o.parts = []func(stream) (stream, bool){func(s stream) (stream, bool) {
						for {
							f := float64(int64(ss.at(s)&m63)) / (1 << 63)
							s.pos++
							if f != 1 {
								return s, f == v
							}
						}
					}}
				case 5:
					v := r.Int31()
					res = fmt.Sprint(v)
					o.parts = []func(stream) (stream, bool){drawPart(ss, func(u uint64) bool { return int32((u&m63)>>32) == v })}
				case 6:
					v := r.Int63n(1 << 40)
					res = fmt.Sprint(v)
					o.parts = []func(stream) (stream, bool){drawPart(ss, func(u uint64) bool { return int64(u&m63)&(1<<40-1) == v })}
				case 7:
					sd := seedOf(arg)
					r.Seed(sd)
					h.Inject("reseed")
					res = "ok"
					o.parts = []func(stream) (stream, bool){func(s stream) (stream, bool) { return stream{sd, 0}, true }}
				case 9:
					b := make([]byte, arg%20)
					n, err := r.Read(b)
					h.Check(n == len(b) && err == nil, "read-count", "Read of %d bytes returned %d, %v", len(b), n, err)
					res = fmt.Sprintf("%x", b)
					o.parts = append(o.parts, func(s stream) (stream, bool) { return s, true })
					k := len(carry)
					if k > len(b) {
						k = len(b)
					}
					// bytes left over from the previous draw are not compared
					rest := b[k:]
					for len(rest) > 0 {
						w := rest
						if len(w) > 7 {
							w = w[:7]
						}
						rest = rest[len(w):]
						o.parts = append(o.parts, drawPart(ss, func(u uint64) bool {
							for i := range w {
								if w[i] != byte((u&m63)>>(8*uint(i))) {
									return false
								}
							}
							return true
						}))
						if len(rest) == 0 {
							carry = make([]byte, 7-len(w))
						}
					}
					if k == len(b) {
						carry = carry[k:]
					}
				case 8:
					n := arg%4 + 2
					p := r.Perm(n)
					res = fmt.Sprint(p)
					// several draws, each atomic: the i-th inserts at a random place
					want := undoPerm(p)
					for i := 0; i < n; i++ {
						i := i
						o.parts = append(o.parts, func(s stream) (stream, bool) {
							w, ok := refInt31n(ss.at(s), int32(i+1))
							s.pos++
							return s, !ok || int(w) == want[i]
						})
					}
					o.again = func(s stream, i int) bool { _, ok := refInt31n(ss.at(s), int32(i+1)); return !ok }
				}
				seq++
				o.ret = seq
				o.desc = fmt.Sprintf("%d(%d)=%s", kind, arg, res)
				h.Logf("ret %s", o.desc)
				hist[c] = append(hist[c], o)
			}
		}))
	}
	h.S.Join(cs...)
	// afterwards the stream continues where the draws left it
	v := r.Uint64()
	last := &linOp[stream]{inv: seq + 1, ret: seq + 2, desc: fmt.Sprintf("then %d", v)}
	last.parts = []func(stream) (stream, bool){drawPart(ss, func(u uint64) bool { return u == v })}
	hist = append(hist, []*linOp[stream]{last})
	if !linearizable(hist, first, func(s stream) uint64 { return mix(uint64(s.seed), uint64(s.pos)) }) {
		h.Fail("not-linearizable", "the values drawn concurrently are not an interleaving of the sequential stream: %s", describe(hist))
	}
}

// undoPerm returns the insertion positions j_i that produce p by the inside-out shuffle.
func undoPerm(p []int) []int {
	q := append([]int(nil), p...)
	n := len(q)
	js := make([]int, n)
	for i := n - 1; i >= 0; i-- {
		// m[i] = m[j]; m[j] = i
		j := 0
		for k := 0; k <= i; k++ {
			if q[k] == i {
				j = k
			}
		}
		js[i] = j
		if j != i {
			q[j] = q[i]
		}
	}
	return js
}

func describe[S any](hist [][]*linOp[S]) string {
	out := ""
	for c, ops := range hist {
		out += fmt.Sprintf("[client %d:", c)
		for _, o := range ops {
			out += fmt.Sprintf(" %s@%d-%d", o.desc, o.inv, o.ret)
		}
		out += "] "
	}
	if len(out) > 1500 {
		out = out[:1500] + "..."
	}
	return out
}

func readRun(h *H) {
	seed0 := seedOf(h.N(1000) + 1)
	r := trand.ThreadSafeRand(seed0)
	var cs []*simrt.Task
	n := Pick(h, 2, 3)
	var got [][]byte
	for c := 0; c < n; c++ {
		k := 1 + h.N(3)
		sizes := make([]int, k)
		for i := range sizes {
			sizes[i] = 1 + h.N(12)
		}
		reseed := h.OneIn(4)
		cs = append(cs, h.S.Spawn("reader", func() {
			for _, z := range sizes {
				b := make([]byte, z)
				r.Read(b)
				h.Logf("Read %x", b)
				got = append(got, b)
			}
			if reseed {
				r.Seed(5)
			}
		}))
	}
	h.S.Join(cs...)
	_ = got
}

func randomRun(h *H) {
	var ss []*set.SortedSet
	var sizes []int
	ns := Pick(h, 1, 2)
	h.S.Quiet(func() {
		for i := 0; i < ns; i++ {
			n := Pick(h, 2, 3, 1, 7, 20, 0)
			if h.OneIn(4) {
				n = h.Range(0, 40)
			}
			if h.OneIn(300) {
				n = h.Range(40, 300)
			}
			s := set.NewSortedSet(n)
			for k := 0; k < n; k++ {
				s.Add(types.Int(k * 3))
			}
			ss = append(ss, s)
			sizes = append(sizes, n)
		}
	})
	var cs []*simrt.Task
	nc := Pick(h, 2, 3, 4)
	for c := 0; c < nc; c++ {
		k := h.Range(1, 5)
		cs = append(cs, h.S.Spawn("client", func() {
			for i := 0; i < k; i++ {
				w := (i + k) % ns
				it, err := ss[w].Random()
				h.Logf("Random = %v %v", it, err != nil)
				if sizes[w] == 0 {
					h.Check(err != nil, "random-empty", "Random of an empty set returned no error")
					continue
				}
				h.Check(err == nil, "random-error", "Random of a non-empty set failed")
				v, ok := it.(types.Int)
				h.Check(ok && int(v)%3 == 0 && int(v) >= 0 && int(v) < 3*sizes[w], "random-foreign", "Random returned %v, not a member", it)
			}
		}))
	}
	h.S.Join(cs...)
	if w := h.N(ns); sizes[w] > 1 && h.OneIn(10) {
		// whatever the seed, a member misses all of these draws with
		// probability below e^-60
		h.S.Quiet(func() {
			seen := map[int]bool{}
			for i := 0; i < 60*sizes[w] && len(seen) < sizes[w]; i++ {
				it, err := ss[w].Random()
				h.Check(err == nil, "random-error", "Random of a non-empty set failed")
				seen[int(it.(types.Int))] = true
			}
			h.Check(len(seen) == sizes[w], "random-never", "%d draws from %d members give only %d of them", 60*sizes[w], sizes[w], len(seen))
		})
	}
}

func init() {
	register(&Scenario{Prop: "C06", Name: "draws", Weight: 6, Race: true, Stalls: true, Steps: 400_000, Run: randRun})
	register(&Scenario{Prop: "C06", Name: "set-random", Weight: 2, Race: true, Stalls: true, Steps: 4_000_000, Run: randomRun})
	register(&Scenario{Prop: "C06", Name: "read", Weight: 1, Race: true, Stalls: true, Steps: 400_000, Run: readRun})
}
