package h

import (
	"fmt"

	"vibe-lsm/pkg/col"
	"vibe-lsm/pkg/multicol"
	"vibe-lsm/zzverif/vrt"
)

// newestWins is the reference: rows whose id is in no newer file and admitted.
func newestWins(files [][]blk, allow *filt) *ref {
	want := &ref{}
	for i := range files {
		for _, b := range files[i] {
			for k := range b.ids {
				ok := admitted(allow, nil, b.ids[k])
				for j := i + 1; j < len(files); j++ {
					for _, nb := range files[j] {
						ok = vrt.And(ok, !in(nb.ids, b.ids[k]))
					}
				}
				want.add(b.vals[k], ok)
			}
		}
	}
	return want
}

// multiCheck aggregates files (oldest first) and compares with the newest-wins reference.
func multiCheck(files [][]blk, encs []uint32, allow *filt, skip bool) {
	var rs []*col.Reader
	for i := range files {
		fn := path(string(rune('a' + i)))
		write(fn, encs[i], 0, files[i])
		r := open(fn)
		if r == nil {
			return
		}
		rs = append(rs, r)
	}
	want := newestWins(files, allow)
	mr := multicol.NewMultiReader(rs)
	opts := multicol.AggregateOptions{SkipPreCalculated: skip}
	if allow != nil {
		opts.Filter = allow.bm
	}
	a, err := mr.Aggregate(opts)
	noErr(err, "a multi-file aggregate fails")
	if err == nil {
		want.match(a, "multi-file aggregate")
	}
	noErr(mr.Close(), "closing the readers fails")
	vrt.Cover("aggregated")
}

func symFiles(counts []int) [][]blk {
	n := total(counts)
	ids, vals := symU("id", n), symI("val", n)
	var fs [][]blk
	k := 0
	for _, c := range counts {
		var bl []blk
		if c > 0 {
			bl = []blk{{ids[k : k+c], vals[k : k+c]}}
		}
		k += c
		fs = append(fs, bl)
	}
	return fs
}

// C07_Overlap: zero to three files with any ids.
// Bound: up to 4 rows in all, one block per file; filter absent or of up to 2 symbolic ids.
func C07_Overlap() {
	counts := [][]int{{}, {0}, {1}, {2}, {1, 1}, {0, 1}, {1, 0}, {2, 1}, {1, 2}, {1, 1, 1}, {1, 0, 1}}
	if vrt.Thorough() {
		counts = append(counts, []int{2, 2}, []int{1, 1, 2}, []int{2, 1, 1}, []int{1, 1, 1, 1})
	}
	c := counts[vrt.Choose("files", len(counts))]
	na := vrt.Choose("allow", 3) - 1
	skip := vrt.Choose("skip", 2) == 1
	multiCheck(symFiles(c), make([]uint32, len(c)), symFilter("allow", na), skip)
}

// C07_Chains: longer chains of updates over concrete ids with symbolic values and one symbolic id.
// Bound: 4 files, 2 blocks each, mixed encodings.
func C07_Chains() {
	vals := symI("val", 12)
	for i := range vals[:11] {
		if i != 0 && i != 6 {
			narrow(vals[i : i+1])
		}
	}
	files := [][]blk{
		{{[]uint64{1, 2, 3}, vals[0:3]}, {[]uint64{7, 1 << 40}, vals[3:5]}},
		{{[]uint64{2, 9}, vals[5:7]}},
		{},
		{{[]uint64{vrt.U64("id"), 3}, vals[7:9]}, {[]uint64{1 << 40}, vals[9:10]}},
		{{[]uint64{9, 1}, vals[10:12]}},
	}
	files = files[vrt.Choose("from", 2) : 3+vrt.Choose("n", 3)]
	encs := make([]uint32, len(files))
	for i := range encs {
		encs[i] = []uint32{0, 3, 1, 2, 0}[i]
	}
	var allow *filt
	if k := vrt.Choose("allow", 3); k == 1 {
		allow = newFilt([]uint64{2, 3, 1 << 40, 9})
	} else if k == 2 {
		allow = newFilt([]uint64{1, vrt.U64("allowed")})
	}
	multiCheck(files, encs, allow, vrt.Choose("skip", 2) == 1)
}

// C07_Repeat: aggregating twice, and after caching the bitmaps, gives the same answer.
// Bound: 2 or 3 files of one symbolic row.
func C07_Repeat() {
	n := 2 + vrt.Choose("n", 2)
	c := make([]int, n)
	for i := range c {
		c[i] = 1
	}
	fs := symFiles(c)
	var rs []*col.Reader
	for i := range fs {
		fn := path(string(rune('a' + i)))
		write(fn, 0, 0, fs[i])
		r := open(fn)
		if r == nil {
			return
		}
		if vrt.Choose("cache"+string(rune('0'+i)), 2) == 1 {
			r.EnableGlobalIDBitmapCaching()
		}
		rs = append(rs, r)
	}
	mr := multicol.NewMultiReader(rs)
	a, err := mr.Aggregate(multicol.AggregateOptions{})
	noErr(err, "a multi-file aggregate fails")
	b, err := mr.Aggregate(multicol.AggregateOptions{SkipPreCalculated: true})
	noErr(err, "a multi-file aggregate fails")
	same(a, b, "a repeated multi-file aggregate differs")
	for i, r := range rs {
		bitmapIs(r, fs[i])
	}
	noErr(mr.Close(), "closing the readers fails")
	vrt.Cover("repeated")
}

func bitmapIs(r *col.Reader, bl []blk) {
	bm, err := r.GetGlobalIDBitmap()
	noErr(err, "fetching the id bitmap fails")
	if err != nil {
		return
	}
	x := vrt.U64("probe")
	want := false
	for _, b := range bl {
		want = vrt.Or(want, in(b.ids, x))
	}
	vrt.Assert(bm.Contains(x) == want, "a multi-file aggregate changes a file's id bitmap")
}

// C07_Long: long lists of files.
// Bound: 5 to 20 (thorough: 70) files of 1 to 3 rows of fixed ids, each file superseding rows of several others; one symbolic value
// and, in one file, one symbolic id; filter absent or of 4 ids.
func C07_Long() {
	n := []int{5, 8, 12, 20, 40, 70}[vrt.Choose("n", 4+2*vrt.B2I(vrt.Thorough()))]
	var files [][]blk
	for i := 0; i < n; i++ {
		ids := []uint64{uint64(i), uint64(i*7) % 12, 100 + uint64(i)/2}[:1+i%3]
		files = append(files, []blk{{ids, filler(len(ids), 1, uint64(i)).vals}})
	}
	k := []int{0, 2, n - 1}[vrt.Choose("where", 3)]
	files[k][0].vals[0] = vrt.I64("val")
	files[1][0].ids[0] = vrt.U64("id")
	var allow *filt
	if vrt.Choose("allow", 2) == 1 {
		allow = newFilt([]uint64{2, 7, 101, uint64(n - 1)})
	}
	multiCheck(files, make([]uint32, n), allow, vrt.Choose("skip", 2) == 1)
}

// C07_Middle: files that agree in number, smallest and largest of their ids.
// Bound: 2 or 3 files of 3 rows in one or two blocks; the ids at the ends are shared, the one between is any id
// (symbolic) of each file; filter absent, of the shared ids, or of one symbolic id and a shared one.
func C07_Middle() {
	n := 2 + vrt.Choose("n", 2)
	xs := symU("x", n)
	cut := vrt.Choose("cut", 2) == 1
	var files [][]blk
	for i, x := range xs {
		b := blk{[]uint64{3, x, 1 << 33}, []int64{int64(i) + 1, vrt.I64(fmt.Sprint("val", i)), int64(-7 * i)}}
		if i == 2 {
			b = blk{b.ids[:2], b.vals[:2]}
		}
		if cut {
			files = append(files, split(b.ids, b.vals, []int{1, len(b.ids) - 1}))
		} else {
			files = append(files, []blk{b})
		}
	}
	var allow *filt
	switch vrt.Choose("allow", 3) {
	case 1:
		allow = newFilt([]uint64{3, 1 << 33})
	case 2:
		allow = newFilt([]uint64{vrt.U64("allowed"), 3})
	}
	multiCheck(files, make([]uint32, n), allow, vrt.Choose("skip", 2) == 1)
}

// C07_Changed: one multi-file reader asked with filters that are changed between the queries.
// Bound: 3 files of fixed ids and symbolic values; a filter of two ids, of which one becomes any id (symbolic) and
// then a stored one, or a query without filter between; with and without bitmap caching.
func C07_Changed() {
	vals := symI("val", 6)
	files := [][]blk{
		{{[]uint64{3, 5, 9}, vals[:3]}},
		{{[]uint64{5}, vals[3:4]}},
		{{[]uint64{9, 20}, vals[4:]}},
	}
	cache := vrt.Choose("cache", 2) == 1
	var rs []*col.Reader
	for i := range files {
		fn := path(string(rune('a' + i)))
		write(fn, 0, 0, files[i])
		r := open(fn)
		if r == nil {
			return
		}
		if cache {
			r.EnableGlobalIDBitmapCaching()
		}
		rs = append(rs, r)
	}
	x := []uint64{3, vrt.U64("x"), 20}
	allow := newFilt([]uint64{x[0], 5})
	between := vrt.Choose("between", 2) == 1
	skip := vrt.Choose("skip", 2) == 1
	mr := multicol.NewMultiReader(rs)
	for i := 0; ; i++ {
		a, err := mr.Aggregate(multicol.AggregateOptions{Filter: allow.bm, SkipPreCalculated: skip})
		noErr(err, "a multi-file aggregate fails")
		newestWins(files, allow).match(a, "multi-file aggregate with a filter in use before")
		if i == 2 {
			break
		}
		allow.change(0, x[i+1])
		if between {
			a, err = mr.Aggregate(multicol.AggregateOptions{SkipPreCalculated: skip})
			noErr(err, "a multi-file aggregate fails")
			newestWins(files, nil).match(a, "multi-file aggregate after a filtered one")
		}
	}
	noErr(mr.Close(), "closing the readers fails")
	vrt.Cover("changed")
}
