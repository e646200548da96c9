package h

import (
	"vibe-lsm/pkg/col"
	"vibe-lsm/zzverif/vrt"
)

func minimalLen(v uint64) int {
	n := 1
	for k := uint(7); k < 64; k += 7 {
		n += vrt.B2I(v>>k != 0)
	}
	return n
}

func bytesEq(a, b []byte) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = vrt.And(ok, a[i] == b[i])
	}
	return ok
}

func tail(e []byte) []byte {
	d := append([]byte(nil), e...)
	for i, n := 0, vrt.Choose("tail", 4); i < n; i++ {
		d = append(d, vrt.U8("t", i))
	}
	return d
}

// C08_Unsigned: the plain variable-length code.
// Bound: every 64-bit number, followed by 0 to 3 arbitrary bytes.
func C08_Unsigned() {
	v := vrt.U64("v")
	e := col.ZV_EncodeVarInt(v)
	vrt.Assert(len(e) >= 1 && len(e) <= 10, "an encoding is not 1 to 10 bytes long")
	vrt.Assert(len(e) == minimalLen(v), "an encoding is not the shortest")
	vrt.Assert(bytesEq(e, encVar(nil, v)), "an encoding is not little-endian base 128")
	d := tail(e)
	was := append([]byte(nil), d...)
	x, n := col.ZV_DecodeVarInt(d)
	vrt.Assert(x == v, "decoding does not give the number encoded")
	vrt.Assert(n == len(e), "decoding does not consume exactly the bytes produced")
	vrt.Assert(bytesEq(d, was), "decoding changes its input")
	vrt.Observe("len", uint64(len(e)))
	vrt.Observe("v", x)
	vrt.Cover("decoded")
}

// C08_Signed: the zig-zag code.
// Bound: every signed 64-bit number, followed by 0 to 3 arbitrary bytes.
func C08_Signed() {
	v := vrt.I64("v")
	e := col.ZV_EncodeSignedVarInt(v)
	vrt.Assert(len(e) >= 1 && len(e) <= 10, "an encoding is not 1 to 10 bytes long")
	vrt.Assert(len(e) == minimalLen(zig(v)), "an encoding is not the shortest")
	vrt.Assert(bytesEq(e, encVar(nil, zig(v))), "an encoding is not zig-zag base 128")
	x, n := col.ZV_DecodeSignedVarInt(tail(e))
	vrt.Assert(x == v, "decoding does not give the number encoded")
	vrt.Assert(n == len(e), "decoding does not consume exactly the bytes produced")
	vrt.Observe("len", uint64(len(e)))
	vrt.Observe("v", uint64(x))
	vrt.Cover("decoded")
}

// C08_Series: several numbers in a row, decoded in turn.
// Bound: two unsigned and two signed numbers over the full range.
func C08_Series() {
	a, b := vrt.U64("a"), vrt.U64("b")
	c := vrt.I64("c")
	d := append(append(col.ZV_EncodeVarInt(a), col.ZV_EncodeSignedVarInt(c)...), col.ZV_EncodeVarInt(b)...)
	x, n := col.ZV_DecodeVarInt(d)
	y, m := col.ZV_DecodeSignedVarInt(d[n:])
	z, k := col.ZV_DecodeVarInt(d[n+m:])
	vrt.Assert(x == a && y == c && z == b, "a series of numbers is not decoded as encoded")
	vrt.Assert(n+m+k == len(d), "a series is not consumed exactly")
	vrt.Observe("x", x)
	vrt.Cover("decoded")
}

// C08_Delta: delta coding of sequences.
// Bound: sequences of 0 to 6 numbers (thorough: 24) over the full range, both types.
func C08_Delta() {
	max := 7
	if vrt.Thorough() {
		max = 25
	}
	n := vrt.Choose("n", max)
	a := symU("a", n)
	v := symI("v", n)
	a0, v0 := cpU(a), cpI(v)
	e, f := col.ZV_DeltaEncode(a), col.ZV_DeltaEncodeInt64(v)
	vrt.Assert(len(e) == n && len(f) == n, "delta coding changes the length")
	if len(e) != n || len(f) != n {
		return
	}
	for i := range e {
		if i > 0 {
			vrt.Assert(e[i] == a[i]-a[i-1] && f[i] == v[i]-v[i-1], "a delta is not the difference to its predecessor")
		} else {
			vrt.Assert(e[i] == a[i] && f[i] == v[i], "the first number of a delta sequence is not itself")
		}
	}
	vrt.Assert(sameU(col.ZV_DeltaDecode(e), a0), "delta coding of ids is not undone by decoding")
	vrt.Assert(sameI(col.ZV_DeltaDecodeInt64(f), v0), "delta coding of values is not undone by decoding")
	vrt.Assert(sameU(col.ZV_DeltaEncode(col.ZV_DeltaDecode(a)), a0), "delta decoding of ids is not undone by coding")
	vrt.Assert(sameI(col.ZV_DeltaEncodeInt64(col.ZV_DeltaDecodeInt64(v)), v0), "delta decoding of values is not undone by coding")
	vrt.Assert(vrt.And(sameU(a, a0), sameI(v, v0)), "delta coding changes its input")
	for i := range e {
		vrt.Observe("e", e[i])
	}
	vrt.Cover("delta")
}

// C08_Sign: the stored form of signed numbers.
// Bound: every signed 64-bit number and every stored form but negative zero, which
// stands for the smallest number.
func C08_Sign() {
	v, w := vrt.I64("v"), vrt.I64("w")
	s, t := col.ZV_Int64ToUint64(v), col.ZV_Int64ToUint64(w)
	vrt.Assert(col.ZV_Uint64ToInt64(s) == v, "a signed number does not survive its stored form")
	vrt.Assert(imp(s == t, v == w), "two numbers share a stored form")
	u := vrt.U64("u")
	vrt.Assert(col.ZV_Int64ToUint64(col.ZV_Uint64ToInt64(u)) == u, "a stored form does not survive conversion")
	vrt.Observe("s", s)
	vrt.Cover("converted")
}

// C08_Bytes: arbitrary input.
// Bound: every byte string of 0 to 12 bytes.
func C08_Bytes() {
	n := vrt.Choose("n", 13)
	d := make([]byte, n, n)
	for i := range d {
		d[i] = vrt.U8("d", i)
	}
	x, k := col.ZV_DecodeVarInt(d)
	y, m := col.ZV_DecodeSignedVarInt(d)
	vrt.Assert(k <= n && k <= 10 && m <= n && m <= 10, "decoding reads past its input or more than ten bytes")
	vrt.Assert(k == m, "the two decoders consume different numbers of bytes")
	whole := false
	for i := 0; i < n && i < 10; i++ {
		whole = vrt.Or(whole, d[i]&0x80 == 0)
	}
	vrt.Assert(vrt.Or(k > 0, !whole), "a number is not decoded")
	if k <= 0 {
		vrt.Cover("cut short")
		return
	}
	done := false
	for i := 0; i < k; i++ {
		vrt.Assert(vrt.Or(i == k-1, d[i]&0x80 != 0), "decoding reads beyond the end of a number")
		done = vrt.Or(done, d[i]&0x80 == 0)
	}
	vrt.Assert(vrt.Or(done, k == n || k == 10), "decoding stops within a number")
	vrt.Assert(y == unzig(x), "the signed decoder is not the unsigned one with zig-zag")
	vrt.Observe("k", uint64(k))
	vrt.Observe("x", x)
	vrt.Cover("decoded")
}
