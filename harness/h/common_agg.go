package h

import (
	"vibe-lsm/pkg/col"
	"vibe-lsm/zzverif/vrt"

	"github.com/weaviate/sroar"
)

// ref accumulates the expected aggregate over admitted rows, without forking.
type ref struct {
	n        int
	min, max int64
	sum      int64
	have     bool
}

func (r *ref) add(v int64, in bool) {
	r.n += vrt.B2I(in)
	r.sum += vrt.IteI(in, v, 0)
	r.min = vrt.IteI(vrt.And(in, vrt.Or(!r.have, v < r.min)), v, r.min)
	r.max = vrt.IteI(vrt.And(in, vrt.Or(!r.have, v > r.max)), v, r.max)
	r.have = vrt.Or(r.have, in)
}

func imp(a, b bool) bool { return vrt.Or(!a, b) }

// match asserts that an aggregate is the expected one.
func (r *ref) match(a col.AggregateResult, what string) {
	vrt.Assert(a.Count == r.n, what+": the count is wrong")
	vrt.Assert(a.Sum == r.sum, what+": the sum is wrong")
	vrt.Assert(imp(r.have, a.Min == r.min), what+": the minimum is wrong")
	vrt.Assert(imp(r.have, a.Max == r.max), what+": the maximum is wrong")
	ownAvg(a, what)
	vrt.Observe("count", uint64(a.Count))
	vrt.Observe("sum", uint64(a.Sum))
}

func same(a, b col.AggregateResult, what string) {
	vrt.Assert(vrt.And(vrt.And(a.Count == b.Count, a.Sum == b.Sum), vrt.And(a.Min == b.Min, a.Max == b.Max)), what)
	ownAvg(a, what)
	ownAvg(b, what)
}

// ownAvg asserts that an average is the quotient of the result's own sum and count.
func ownAvg(a col.AggregateResult, what string) {
	if a.Count > 0 {
		vrt.Assert(vrt.SameFloat(a.Avg, float64(a.Sum)/float64(a.Count)), what+": the average is wrong")
	} else {
		vrt.Assert(a.Avg == 0, what+": the average of no rows is not zero")
	}
}

func refAll(bl []blk) *ref {
	r := &ref{}
	for _, b := range bl {
		for _, v := range b.vals {
			r.add(v, true)
		}
	}
	return r
}

// in reports membership without forking.
func in(set []uint64, x uint64) bool {
	r := false
	for _, s := range set {
		r = vrt.Or(r, s == x)
	}
	return r
}

// filt is a filter; nil when absent.
type filt struct {
	set []uint64
	bm  *sroar.Bitmap
}

func newFilt(set []uint64) *filt {
	f := &filt{set: set, bm: sroar.NewBitmap()}
	for _, s := range set {
		f.bm.Set(s)
	}
	return f
}

func (f *filt) bitmap() *sroar.Bitmap {
	if f == nil {
		return nil
	}
	return f.bm
}

func admitted(allow, deny *filt, id uint64) bool {
	ok := true
	if allow != nil {
		ok = in(allow.set, id)
	}
	if deny != nil {
		ok = vrt.And(ok, !in(deny.set, id))
	}
	return ok
}

func refFiltered(bl []blk, allow, deny *filt) *ref {
	r := &ref{}
	for _, b := range bl {
		for i := range b.vals {
			r.add(b.vals[i], admitted(allow, deny, b.ids[i]))
		}
	}
	return r
}

// split cuts rows into blocks of the given sizes.
func split(ids []uint64, vals []int64, shape []int) []blk {
	var bl []blk
	k := 0
	for _, n := range shape {
		bl = append(bl, blk{ids[k : k+n], vals[k : k+n]})
		k += n
	}
	return bl
}

func total(shape []int) int {
	n := 0
	for _, s := range shape {
		n += s
	}
	return n
}

// symBlocks makes symbolic blocks; sections of variable length hold one-byte numbers.
func symBlocks(enc uint32, shape []int, tag string) []blk {
	n := total(shape)
	ids, vals := symU(tag+"id", n), symI(tag+"val", n)
	if idsVar(enc) {
		k := 0
		for _, s := range shape {
			narrowU(ids[k : k+s])
			k += s
		}
	}
	if valsVar(enc) {
		narrow(vals)
	}
	return split(ids, vals, shape)
}

// match2 compares the reader's unfiltered aggregate (both modes).
func (r *ref) match2(rd *col.Reader, blocks int) {
	r.match(rd.Aggregate(), "aggregate from statistics")
	o := col.DefaultAggregateOptions()
	o.SkipPreCalculated = true
	r.match(rd.AggregateWithOptions(o), "aggregate from rows")
}

// filters makes an allow and a deny filter from symbolic ids.
func symFilter(name string, n int) *filt {
	if n < 0 {
		return nil
	}
	return newFilt(symU(name, n))
}

// manyBlocks makes a file of so many blocks that the index spans pages (74) or
// their number takes more than a byte (260) or the index 64 KiB (1200): small
// blocks with id ranges in no order, one value symbolic, and one id if asked.
func manyBlocks(symID bool) []blk {
	ns := []int{74, 260}
	if vrt.Thorough() {
		ns = append(ns, 1200)
	}
	n := ns[vrt.Choose("blocks", len(ns))]
	var bl []blk
	for i := 0; i < n; i++ {
		b := filler(1+i%2, 0, uint64(i*37%n)*10)
		bl = append(bl, b)
	}
	k := []int{0, n / 2, n - 1}[vrt.Choose("where", 3)]
	bl[k].vals[0] = vrt.I64("val")
	if symID {
		bl[k].ids[0] = vrt.U64("id")
	}
	return bl
}

// change moves an id of a filter: the same object then admits other rows.
func (f *filt) change(i int, to uint64) {
	f.bm.Remove(f.set[i])
	f.set = cpU(f.set)
	f.set[i] = to
	for _, x := range f.set {
		f.bm.Set(x)
	}
}

func filtered(r *col.Reader, allow, deny *filt, skip bool, par int) col.AggregateResult {
	return r.AggregateWithOptions(col.AggregateOptions{SkipPreCalculated: skip, Filter: allow.bitmap(), DenyFilter: deny.bitmap(), Parallel: par})
}
