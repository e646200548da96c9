//go:build zznative

package vrt

import (
	"errors"
	"fmt"
	"math"
	"os"
	"reflect"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"
)

var (
	Vals    map[string]uint64
	Tier    bool
	TmpDir  string
	mu      sync.Mutex
	Fails   []string
	Obs     []string
	Covers  []string
	iomu    sync.Mutex
	Limit   uint64
)

type AssumeFail struct{}
type ExitCall struct{ Code int }

func nm(name string, idx []int) string {
	for _, i := range idx {
		name += "#" + strconv.Itoa(i)
	}
	return name
}

func get(n string) uint64 {
	mu.Lock()
	defer mu.Unlock()
	return Vals[n]
}

func U64(name string, idx ...int) uint64 { return get(nm(name, idx)) }
func I64(name string, idx ...int) int64  { return int64(get(nm(name, idx))) }
func U32(name string, idx ...int) uint32 { return uint32(get(nm(name, idx))) }
func U16(name string, idx ...int) uint16 { return uint16(get(nm(name, idx))) }
func U8(name string, idx ...int) uint8   { return uint8(get(nm(name, idx))) }
func Bool(name string, idx ...int) bool  { return get(nm(name, idx)) != 0 }
func Range(name string, lo, hi int) int {
	v := int(get(name))
	if v < lo || v > hi {
		panic(AssumeFail{})
	}
	return v
}
func Choose(name string, n int) int {
	if n <= 1 {
		return 0
	}
	return int(get(name))
}
func Concrete(v uint64) uint64 { return v }
func ConcreteInt(v int) int    { return v }
func Assume(b bool) {
	if !b {
		panic(AssumeFail{})
	}
}
func Assert(b bool, msg string) {
	if !b {
		mu.Lock()
		Fails = append(Fails, msg)
		mu.Unlock()
	}
}
func Cover(msg string)              { mu.Lock(); Covers = append(Covers, msg); mu.Unlock() }
func Observe(name string, v uint64) { mu.Lock(); Obs = append(Obs, fmt.Sprintf("%s=%d", name, v)); mu.Unlock() }
func ObserveS(name, v string)       { mu.Lock(); Obs = append(Obs, name+"="+v); mu.Unlock() }
func Thorough() bool                { return Tier }
func Native() bool                  { return true }
// AllocLimit: the driver compares Limit with the bytes allocated by the run.
func AllocLimit(n uint64)           { Limit = n }
func StepLimit(n int, msg string)   {}
func Preempt(n int)                  {}
func SetProcs(n int)                { runtime.GOMAXPROCS(max(n, 1)) }
func MergeOff(b bool)               {}
func Yield()                        { runtime.Gosched() }
func Touch(b []byte, write bool)     {}
func SameMem(a, b []byte) bool       { return string(a) == string(b) }
func Goroutines() int               { return runtime.NumGoroutine() }

// Settled waits until no more goroutines are left than before.
func Settled(before int) bool {
	for i := 0; i < 4000; i++ {
		if runtime.NumGoroutine() <= before {
			return true
		}
		time.Sleep(time.Millisecond)
	}
	return false
}

func And(a, b bool) bool            { return a && b }
func Or(a, b bool) bool             { return a || b }
func IteU(c bool, a, b uint64) uint64 {
	if c {
		return a
	}
	return b
}
func IteI(c bool, a, b int64) int64 {
	if c {
		return a
	}
	return b
}
func B2I(b bool) int {
	if b {
		return 1
	}
	return 0
}
func SameFloat(a, b float64) bool {
	return math.Float64bits(a) == math.Float64bits(b) || (a != a && b != b)
}
func Known(b bool) bool        { return true }
func IsConcrete(v uint64) bool { return true }
func Exit(code int)            { panic(ExitCall{code}) }
func RunExit(f func()) (code int) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(ExitCall); ok {
				code = e.Code
				return
			}
			panic(r)
		}
	}()
	f()
	return -1
}

// Lines splits s into lines. The engine's keeps formatted symbolic numbers whole.
func Lines(s string) []string {
	r := strings.Split(s, "\n")
	if r[len(r)-1] == "" {
		r = r[:len(r)-1]
	}
	return r
}

// HasByte tells whether c, which is not part of a number, occurs in s.
func HasByte(s string, c byte) bool { return strings.IndexByte(s, c) >= 0 }

func Sprintf(f string, a []any) string { return fmt.Sprintf(f, a...) }
func AsOne(err error, target any) bool {
	t := reflect.TypeOf(target).Elem()
	if reflect.TypeOf(err).AssignableTo(t) {
		reflect.ValueOf(target).Elem().Set(reflect.ValueOf(err))
		return true
	}
	return false
}
func SameErr(a, b error) bool { return errors.Is(a, b) }
func LockIO()                 { iomu.Lock() }
func UnlockIO()               { iomu.Unlock() }
func Dir() string {
	if TmpDir == "" {
		d, err := os.MkdirTemp("", "zvnat")
		if err != nil {
			panic(err)
		}
		TmpDir = d
	}
	return TmpDir
}
