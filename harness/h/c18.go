package h

import (
	"vibe-lsm/pkg/col"
	"vibe-lsm/zzverif/vrt"
)

// shared is an open file and what it holds.
type shared struct {
	r     *col.Reader
	bl    []blk
	allow *filt
}

func newShared(sym bool) *shared {
	s := &shared{}
	if sym {
		s.bl = symBlocks(0, []int{1, 2}, "")
		s.allow = symFilter("allow", 1)
	} else {
		s.bl = []blk{{[]uint64{4}, []int64{vrt.I64("v", 0)}}, {[]uint64{9, 11}, []int64{-3, vrt.I64("v", 1)}}}
		s.allow = newFilt([]uint64{9, 4})
	}
	fn := path("a")
	enc := uint32(0)
	if !sym {
		enc = []uint32{0, 3}[vrt.Choose("as", 2)]
	}
	write(fn, enc, 0, s.bl)
	s.r = open(fn)
	return s
}

const nQueries = 10

// query runs one query and asserts that it gives what it must.
func (s *shared) query(k int, tag string) {
	r := s.r
	switch k {
	case 0, 1:
		ids, vals, err := r.GetPairs(uint64(k))
		vrt.Assert(err == nil && sameU(ids, s.bl[k].ids) && sameI(vals, s.bl[k].vals), tag+" a block read gives other rows")
	case 2:
		refAll(s.bl).match(r.Aggregate(), tag+" an aggregate")
	case 3:
		refAll(s.bl).match(r.AggregateWithOptions(col.AggregateOptions{SkipPreCalculated: true}), tag+" an aggregate from rows")
	case 4:
		refFiltered(s.bl, s.allow, nil).match(r.AggregateWithOptions(col.AggregateOptions{Filter: s.allow.bm}), tag+" a filtered aggregate")
	case 5:
		bm, err := r.GetGlobalIDBitmap()
		vrt.Assert(err == nil, tag+" a bitmap fetch fails")
		if err == nil {
			for _, b := range s.bl {
				for _, id := range b.ids {
					vrt.Assert(bm.Contains(id), tag+" a fetched bitmap misses an id")
				}
			}
			vrt.Assert(bm.GetCardinality() <= 3, tag+" a fetched bitmap has too many ids")
		}
	case 6:
		refAll(s.bl).match(r.AggregateWithOptions(col.AggregateOptions{SkipPreCalculated: true, Parallel: 2}), tag+" a parallel aggregate")
	case 7:
		x := r.FilteredBlockIterator(s.allow.bm, nil)
		vrt.Assert(len(x) <= 2, tag+" a block listing is too long")
		for i := range s.bl {
			listed := false
			for _, b := range x {
				listed = listed || b == uint64(i)
			}
			need := false
			for _, id := range s.bl[i].ids {
				need = vrt.Or(need, in(s.allow.set, id))
			}
			vrt.Assert(imp(need, listed), tag+" a block listing misses a block")
		}
	case 8:
		refFiltered(s.bl, nil, s.allow).match(r.AggregateWithOptions(col.AggregateOptions{DenyFilter: s.allow.bm}), tag+" a filtered aggregate")
	case 9:
		_, _, err := r.GetPairs(2)
		vrt.Assert(err != nil && r.BlockCount() == 2 && r.EncodingType() <= 3, tag+" a rejected read")
	}
}

func pair(name string) (int, int) {
	a := vrt.Choose(name, nQueries)
	return a, a + vrt.Choose(name+"2", nQueries-a)
}

// C18_Two: two goroutines query one reader.
// Bound: every pair of 10 kinds of query on a file of 2 blocks with symbolic values, caching on
// or off; every interleaving of their file accesses and synchronisation with up
// to 2 (thorough: 4) deviations from run-to-completion; memory accesses checked for races.
func C18_Two() {
	s := newShared(false)
	if s.r == nil {
		return
	}
	if vrt.Choose("cache", 2) == 1 {
		s.r.EnableGlobalIDBitmapCaching()
	}
	a, b := pair("q")
	vrt.Preempt(2 + 2*vrt.B2I(vrt.Thorough()))
	done := make(chan bool, 2)
	go func() {
		s.query(a, "concurrently")
		done <- true
	}()
	go func() {
		s.query(b, "concurrently")
		done <- true
	}()
	<-done
	<-done
	s.query(a, "afterwards")
	vrt.Cover("both done")
}

// C18_Three: three goroutines, one after the other fetching, reading and aggregating.
// Bound: 3 goroutines each running 2 of 5 kinds of query, caching on; up to one deviation
// from run-to-completion (thorough: 2).
func C18_Three() {
	s := newShared(false)
	if s.r == nil {
		return
	}
	s.r.EnableGlobalIDBitmapCaching()
	kinds := []int{0, 1, 3, 5, 6}
	k := vrt.Choose("k", 5)
	vrt.Preempt(1 + vrt.B2I(vrt.Thorough()))
	done := make(chan bool, 3)
	for g := 0; g < 3; g++ {
		go func(g int) {
			s.query(kinds[(k+g)%5], "concurrently")
			s.query(kinds[(k+2*g+1)%5], "concurrently")
			done <- true
		}(g)
	}
	for g := 0; g < 3; g++ {
		<-done
	}
	vrt.Cover("all done")
}

// C18_Toggle: caching is switched while others fetch.
// Bound: one goroutine enables and disables caching, two fetch the bitmap; up to 2
// deviations from run-to-completion (thorough: 3).
func C18_Toggle() {
	s := newShared(false)
	if s.r == nil {
		return
	}
	vrt.Preempt(2 + vrt.B2I(vrt.Thorough()))
	done := make(chan bool, 3)
	go func() {
		s.r.EnableGlobalIDBitmapCaching()
		s.r.DisableGlobalIDBitmapCaching()
		done <- true
	}()
	for g := 0; g < 2; g++ {
		go func() {
			s.query(5, "while caching is switched")
			done <- true
		}()
	}
	for g := 0; g < 3; g++ {
		<-done
	}
	vrt.Cover("all done")
}

// C18_Repeat: sequences of queries.
// Bound: every sequence of 2 of 10 queries, the first repeated (thorough: 3), on 2 blocks of 1 and 2
// symbolic rows and a filter of one symbolic id, caching off, on, or switched on or off within.
func C18_Repeat() {
	s := newShared(true)
	if s.r == nil {
		return
	}
	vrt.Preempt(0)
	mode := vrt.Choose("cache", 4)
	if mode == 1 || mode == 3 {
		s.r.EnableGlobalIDBitmapCaching()
	}
	a, b := vrt.Choose("a", nQueries), vrt.Choose("b", nQueries)
	s.query(a, "in a sequence")
	if mode == 2 {
		s.r.EnableGlobalIDBitmapCaching()
	}
	s.query(b, "in a sequence")
	if mode == 3 {
		s.r.DisableGlobalIDBitmapCaching()
	}
	if vrt.Thorough() {
		s.query(vrt.Choose("c", nQueries), "in a sequence")
	}
	s.query(a, "repeated")
	vrt.Cover("sequence done")
}

// C18_Large: blocks far larger than a page, read at the same time.
// Bound: 2 blocks of 300 or 4200 rows (64 KiB) with one symbolic value each; 2 goroutines, each reading
// a block or aggregating the rows; up to 2 deviations from run-to-completion.
func C18_Large() {
	n := []int{300, 4200}[vrt.Choose("rows", 2)]
	bl := []blk{filler(n, 0, 1), filler(n, 0, 50000)}
	bl[0].vals[n-1], bl[1].vals[n/2] = vrt.I64("v", 0), vrt.I64("v", 1)
	write(path("a"), 0, 1<<20, bl)
	s := &shared{r: open(path("a")), bl: bl}
	if s.r == nil {
		return
	}
	k := vrt.Choose("k", 2)
	vrt.Preempt(2)
	done := make(chan bool, 2)
	go func() {
		s.query(0, "concurrently")
		done <- true
	}()
	go func() {
		s.query(1+2*k, "concurrently")
		done <- true
	}()
	<-done
	<-done
	vrt.Cover("both done")
}
