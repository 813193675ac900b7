// Package srandv2 stands in for the top-level functions of math/rand/v2.
package srandv2

import "verif.local/sim/simrt"

func Uint64() uint64   { simrt.SyncPoint(); return simrt.EnvRand() }
func Int() int         { return int(Uint64() >> 1) }
func Int64() int64     { return int64(Uint64() >> 1) }
func Uint32() uint32   { return uint32(Uint64() >> 32) }
func Float64() float64 { return float64(Uint64()>>11) / (1 << 53) }
func IntN(n int) int {
	if n <= 0 {
		panic("invalid argument to IntN")
	}
	return int(Uint64() % uint64(n))
}
func Int64N(n int64) int64 { return int64(IntN(int(n))) }
func Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	Shuffle(n, func(i, j int) { p[i], p[j] = p[j], p[i] })
	return p
}
func Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, IntN(i+1))
	}
}
