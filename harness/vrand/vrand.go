// Package vrand stands in for math/rand in the load-test tool: the first
// numbers drawn are any (symbolic), the later ones fixed.
package vrand

import "vibe-lsm/zzverif/vrt"

// Symbolic is how many of the next draws are symbolic.
var Symbolic int

var drawn int
var state uint64

// Reset starts a new sequence.
func Reset(symbolic int) { Symbolic, drawn, state = symbolic, 0, 12345 }

type Source interface {
	Int63() int64
	Seed(seed int64)
}

type source struct{}

func (source) Int63() int64    { return int64(bits() >> 1) }
func (source) Seed(seed int64) {}

type Rand struct{ s Source }

func NewSource(seed int64) Source { return source{} }
func New(src Source) *Rand        { return &Rand{src} }

func bits() uint64 {
	drawn++
	if drawn <= Symbolic {
		return vrt.U64("rnd", drawn)
	}
	state = state*6364136223846793005 + 1442695040888963407
	return state>>33 ^ state<<20
}

// below is a number of [0,n), among the smallest or the largest when symbolic.
func below(n uint64) uint64 {
	if drawn < Symbolic {
		drawn++
		v := uint64(vrt.U8("rnd", drawn))
		vrt.Assume(v < n)
		if vrt.Choose("end"+string(rune('0'+drawn)), 2) == 1 {
			return n - 1 - v
		}
		return v
	}
	return bits() % n
}

func (r *Rand) Seed(seed int64) {}
func (r *Rand) Uint64() uint64  { return bits() }
func (r *Rand) Uint32() uint32  { return uint32(bits() >> 32) }
func (r *Rand) Int63() int64    { return int64(bits() >> 1) }
func (r *Rand) Int31() int32    { return int32(bits() >> 33) }
func (r *Rand) Int() int        { return int(bits() >> 1) }

func (r *Rand) Int63n(n int64) int64 {
	if n <= 0 {
		panic("invalid argument to Int63n")
	}
	return int64(below(uint64(n)))
}

func (r *Rand) Int31n(n int32) int32 {
	if n <= 0 {
		panic("invalid argument to Int31n")
	}
	return int32(below(uint64(n)))
}

func (r *Rand) Intn(n int) int {
	if n <= 0 {
		panic("invalid argument to Intn")
	}
	return int(below(uint64(n)))
}

// Float64 is one of a few numbers of [0,1) when symbolic.
func (r *Rand) Float64() float64 {
	if drawn < Symbolic {
		drawn++
		return []float64{0, 0.5, 0.8, 0.95}[vrt.Choose("float"+string(rune('0'+drawn)), 4)]
	}
	return float64(bits()>>11) / (1 << 53)
}

func (r *Rand) Float32() float32 { return float32(r.Float64()) }

func (r *Rand) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	r.Shuffle(n, func(i, j int) { p[i], p[j] = p[j], p[i] })
	return p
}

func (r *Rand) Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, r.Intn(i+1))
	}
}

var global = &Rand{source{}}

func Seed(seed int64)          {}
func Uint64() uint64           { return global.Uint64() }
func Uint32() uint32           { return global.Uint32() }
func Int63() int64             { return global.Int63() }
func Int() int                 { return global.Int() }
func Int63n(n int64) int64     { return global.Int63n(n) }
func Int31n(n int32) int32     { return global.Int31n(n) }
func Intn(n int) int           { return global.Intn(n) }
func Float64() float64         { return global.Float64() }
func Perm(n int) []int         { return global.Perm(n) }
func Shuffle(n int, swap func(i, j int)) { global.Shuffle(n, swap) }
