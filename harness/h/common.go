// Package h holds the harness entry points. Each drives the public API of the
// code under test with symbolic inputs and asserts one property.
package h

import (
	"vibe-lsm/pkg/col"
	"vibe-lsm/zzverif/vrt"
)

type blk struct {
	ids  []uint64
	vals []int64
}

func path(name string) string { return vrt.Dir() + "/" + name }

func symU(name string, n int) []uint64 {
	r := make([]uint64, n)
	for i := range r {
		r[i] = vrt.U64(name, i)
	}
	return r
}

func symI(name string, n int) []int64 {
	r := make([]int64, n)
	for i := range r {
		r[i] = vrt.I64(name, i)
	}
	return r
}

func cpU(a []uint64) []uint64 { return append([]uint64(nil), a...) }
func cpI(a []int64) []int64   { return append([]int64(nil), a...) }

func noErr(err error, msg string) {
	vrt.Assert(err == nil, msg)
}

const (
	nEnc = 8
	page = 4096
)

func idsDelta(enc uint32) bool  { return enc == 1 || enc == 3 || enc == 5 || enc == 7 }
func valsDelta(enc uint32) bool { return enc == 2 || enc == 3 || enc == 6 || enc == 7 }
func idsVar(enc uint32) bool    { return enc == 4 || enc == 5 || enc == 7 }
func valsVar(enc uint32) bool   { return enc == 4 || enc == 6 || enc == 7 }

// write stores blocks, one WriteBlock call each, and finalizes; every call must succeed.
// All rows are handed over in one pair of slices, as a caller would that reuses its buffers.
func write(fn string, enc uint32, target uint32, blocks []blk) {
	w, err := newWriter(fn, enc, target)
	noErr(err, "creating a file fails")
	if err != nil {
		return
	}
	var buf reused
	for i := range blocks {
		err := w.WriteBlock(buf.fill(blocks[i]))
		noErr(err, "writing a block that fits fails")
	}
	buf.clear()
	noErr(w.FinalizeAndClose(), "finalizing fails")
}

// reused is a pair of slices that carries one block after the other.
type reused struct {
	ids  []uint64
	vals []int64
}

func (b *reused) fill(r blk) ([]uint64, []int64) {
	if len(r.ids) > len(b.ids) {
		b.ids, b.vals = make([]uint64, len(r.ids)), make([]int64, len(r.ids))
	}
	n := copy(b.ids, r.ids)
	copy(b.vals, r.vals)
	return b.ids[:n], b.vals[:n]
}

func (b *reused) clear() {
	for i := range b.ids {
		b.ids[i], b.vals[i] = 424242, -424242
	}
}

func newWriter(fn string, enc, target uint32) (*col.Writer, error) {
	if target > 0 {
		return col.NewWriter(fn, col.WithEncoding(enc), col.WithBlockSize(target))
	}
	return col.NewWriter(fn, col.WithEncoding(enc))
}

func open(fn string) *col.Reader {
	r, err := col.NewReader(fn)
	noErr(err, "opening a finalized file fails")
	if err != nil {
		return nil
	}
	return r
}

func sameU(a, b []uint64) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = vrt.And(ok, a[i] == b[i])
	}
	return ok
}

func sameI(a, b []int64) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = vrt.And(ok, a[i] == b[i])
	}
	return ok
}

// expectBlocks asserts that the file holds exactly the given blocks.
func expectBlocks(r *col.Reader, blocks []blk) {
	vrt.Assert(r.BlockCount() == uint64(len(blocks)), "the number of blocks read differs from the number written")
	if r.BlockCount() != uint64(len(blocks)) {
		return
	}
	for i := range blocks {
		ids, vals, err := r.GetPairs(uint64(i))
		noErr(err, "reading a written block fails")
		if err != nil {
			continue
		}
		vrt.Assert(len(ids) == len(blocks[i].ids) && len(vals) == len(blocks[i].vals), "a block is read with a different number of rows")
		if len(ids) != len(blocks[i].ids) || len(vals) != len(blocks[i].vals) {
			continue
		}
		for k := range ids {
			vrt.Assert(ids[k] == blocks[i].ids[k], "an id read differs from the id written")
			vrt.Assert(vals[k] == blocks[i].vals[k], "a value read differs from the value written")
			vrt.Observe("id", ids[k])
			vrt.Observe("val", uint64(vals[k]))
		}
	}
}

// lcg is a fixed pseudo-random sequence for concrete filler rows.
type lcg struct{ s uint64 }

func (l *lcg) next() uint64 {
	l.s = l.s*6364136223846793005 + 1442695040888963407
	x := l.s
	x ^= x >> 31
	return x
}

// filler makes n concrete rows. kind 0: ascending small ids; 1: arbitrary
// 64-bit ids and values; 2: descending ids, negative values.
func filler(n, kind int, seed uint64) blk {
	l := &lcg{seed*977 + 13}
	b := blk{make([]uint64, n), make([]int64, n)}
	for i := 0; i < n; i++ {
		switch kind {
		case 0:
			b.ids[i] = uint64(i)*3 + seed
			b.vals[i] = int64(l.next()%2000) - 1000
		case 1:
			b.ids[i] = l.next() >> (l.next() % 64)
			b.vals[i] = int64(l.next()) >> (l.next() % 64)
		default:
			b.ids[i] = uint64(100*n - 7*i)
			b.vals[i] = -int64(i) * 12345
		}
	}
	return b
}

// narrow confines values so that each encodes in one byte, deltas included.
func narrow(vals []int64) {
	for _, v := range vals {
		vrt.Assume(v >= -16 && v < 16)
	}
}

// narrowU does the same for ascending ids.
func narrowU(ids []uint64) {
	for i, v := range ids {
		vrt.Assume(v < 128)
		if i > 0 {
			vrt.Assume(v >= ids[i-1])
		}
	}
}

func openCheck(fn string, b []blk) {
	r := open(fn)
	if r == nil {
		return
	}
	expectBlocks(r, b)
	noErr(r.Close(), "closing the reader fails")
	vrt.Cover("read back")
}

// ordered makes n rows with distinct ids; descending unless up.
func ordered(n int, up bool, base uint64) blk {
	b := filler(n, 0, base)
	for i := range b.ids {
		x := base + uint64(i)*2
		if !up {
			x = base + uint64(n-1-i)*2
		}
		b.ids[i] = x
	}
	return b
}

func newSimple(fn string, enc, target uint32) *col.SimpleWriter {
	var sw *col.SimpleWriter
	var err error
	if target > 0 {
		sw, err = col.NewSimpleWriter(fn, col.WithEncoding(enc), col.WithBlockSize(target))
	} else {
		sw, err = col.NewSimpleWriter(fn, col.WithEncoding(enc))
	}
	noErr(err, "creating a simple writer fails")
	return sw
}

func submit(sw *col.SimpleWriter, batches []blk) {
	var buf reused
	for _, b := range batches {
		noErr(sw.Write(buf.fill(b)), "the simple writer rejects a batch")
	}
	buf.clear()
}

// readRows reads all rows of a file in order, by the code under test.
func readRows(fn string) (ids []uint64, vals []int64, ok bool) {
	r := open(fn)
	if r == nil {
		return nil, nil, false
	}
	n := r.BlockCount()
	for i := uint64(0); i < n; i++ {
		a, v, err := r.GetPairs(i)
		noErr(err, "reading a written block fails")
		if err != nil {
			return nil, nil, false
		}
		vrt.Assert(len(a) == len(v), "a block is read with different numbers of ids and values")
		if len(a) != len(v) {
			return nil, nil, false
		}
		ids, vals = append(ids, a...), append(vals, v...)
	}
	noErr(r.Close(), "closing the reader fails")
	return ids, vals, true
}

func simpleClose(sw *col.SimpleWriter, rows int) {
	noErr(sw.Close(), "closing the simple writer fails")
	vrt.Assert(sw.IsClosed(), "the simple writer does not report that it is closed")
	vrt.Assert(sw.TotalItems() == uint64(rows), "the reported item total differs from the number of rows")
	noErr(sw.Close(), "closing a closed simple writer fails")
	vrt.Assert(sw.TotalItems() == uint64(rows), "the reported item total changes on a second close")
}

func rowsOf(batches []blk) int {
	n := 0
	for _, b := range batches {
		n += len(b.ids)
	}
	return n
}

// writeSplit writes a block, resubmitting what a full block left over, and
// returns the rows of the blocks written.
func writeSplit(w *col.Writer, b blk) []blk {
	var out []blk
	for len(b.ids) > 0 {
		err := w.WriteBlock(b.ids, b.vals)
		n := len(b.ids)
		if err != nil {
			full, ok := err.(*col.BlockFullError)
			vrt.Assert(ok, "writing a block fails")
			if !ok {
				return out
			}
			n = full.ItemsWritten
			vrt.Assert(n >= 1 && n < len(b.ids), "a full block reports an impossible number of rows")
			if n < 1 || n >= len(b.ids) {
				return out
			}
		}
		out = append(out, blk{b.ids[:n], b.vals[:n]})
		b = blk{b.ids[n:], b.vals[n:]}
	}
	return out
}

// hasLine tells whether a line of the output is as wanted.
func hasLine(out, want string) bool {
	ok := false
	for _, l := range vrt.Lines(out) {
		ok = vrt.Or(ok, l == want)
	}
	return ok
}
