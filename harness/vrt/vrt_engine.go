//go:build !zznative

package vrt

func no() { panic("vrt: not intercepted") }

func U64(name string, idx ...int) uint64 { no(); return 0 }
func I64(name string, idx ...int) int64  { no(); return 0 }
func U32(name string, idx ...int) uint32 { no(); return 0 }
func U16(name string, idx ...int) uint16 { no(); return 0 }
func U8(name string, idx ...int) uint8   { no(); return 0 }
func Bool(name string, idx ...int) bool  { no(); return false }

// Range is a symbolic int in [lo,hi]; Choose forks concretely over [0,n).
func Range(name string, lo, hi int) int { no(); return 0 }
func Choose(name string, n int) int     { no(); return 0 }

// Concrete forks over the feasible values of v.
func Concrete(v uint64) uint64      { no(); return 0 }
func ConcreteInt(v int) int         { no(); return 0 }
func Assume(b bool)                 { no() }
func Assert(b bool, msg string)     { no() }
func Cover(msg string)              { no() }
func Observe(name string, v uint64) { no() }
func ObserveS(name, v string)       { no() }
func Thorough() bool                { no(); return false }
func Native() bool                  { no(); return false }
func AllocLimit(n uint64)           { no() }
func StepLimit(n int, msg string)   { no() }
func Preempt(n int)                 { no() }
func SetProcs(n int)                { no() }
func MergeOff(b bool)               { no() }
func Yield()                        { no() }
func Touch(b []byte, write bool)     { no() }
// SameMem tells whether two slices hold the same values, symbolic ones being the same terms.
func SameMem(a, b []byte) bool       { no(); return true }
func Goroutines() int               { no(); return 0 }
func Settled(before int) bool       { no(); return true }

// Non-forking boolean and selection operators.
func And(a, b bool) bool                { no(); return false }
func Or(a, b bool) bool                 { no(); return false }
func IteU(c bool, a, b uint64) uint64   { no(); return 0 }
func IteI(c bool, a, b int64) int64     { no(); return 0 }
func B2I(b bool) int                    { no(); return 0 }
func SameFloat(a, b float64) bool       { no(); return false }
func Known(b bool) bool                 { no(); return false }
func IsConcrete(v uint64) bool          { no(); return false }
func Exit(code int)                     { no() }
func RunExit(f func()) int              { no(); return 0 }
func Sprintf(f string, a []any) string  { no(); return "" }
func AsOne(err error, target any) bool  { no(); return false }
func Lines(s string) []string          { no(); return nil }
func HasByte(s string, c byte) bool    { no(); return false }
func SameErr(a, b error) bool           { no(); return false }
func LockIO()                           {}
func UnlockIO()                         {}

// Dir is the directory harness files live in.
func Dir() string { return "/v" }
