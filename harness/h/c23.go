package h

import (
	"vibe-lsm/pkg/col"
	"vibe-lsm/pkg/multicol"
	"vibe-lsm/zzverif/vrt"
)

// asked is an open file and what it holds.
type asked struct {
	r     *col.Reader
	bl    []blk
	allow *filt
}

// holds asserts that an open file answers every kind of question from its own rows.
func holds(r *col.Reader, bl []blk, what string) {
	s := &asked{r: r, bl: bl}
	vrt.Assert(r.BlockCount() == uint64(len(bl)), what+": the number of blocks is wrong")
	if r.BlockCount() != uint64(len(bl)) {
		return
	}
	for i := range bl {
		s.rows(i, what)
	}
	s.bitmap(what)
	refAll(bl).match(r.Aggregate(), what+": an aggregate")
	refAll(bl).match(r.AggregateWithOptions(col.AggregateOptions{SkipPreCalculated: true}), what+": an aggregate from rows")
}

func (s *asked) rows(i int, what string) {
	ids, vals, err := s.r.GetPairs(uint64(i))
	vrt.Assert(err == nil && sameU(ids, s.bl[i].ids) && sameI(vals, s.bl[i].vals), what+": a block read gives other rows")
}

func (s *asked) bitmap(what string) {
	bm, err := s.r.GetGlobalIDBitmap()
	vrt.Assert(err == nil, what+": a bitmap fetch fails")
	if err != nil {
		return
	}
	var all []uint64
	for _, b := range s.bl {
		for _, id := range b.ids {
			vrt.Assert(bm.Contains(id), what+": the bitmap misses an id")
			all = append(all, id)
		}
	}
	n := 0
	for i := range all {
		n += vrt.B2I(!in(all[:i], all[i]))
	}
	vrt.Assert(bm.GetCardinality() == n, what+": the bitmap holds other ids")
}

// ask asks one kind of question.
func (s *asked) ask(k int, what string) {
	switch k {
	case 0, 1:
		s.rows(k, what)
	case 2:
		s.bitmap(what)
	case 3:
		refAll(s.bl).match(s.r.Aggregate(), what+": an aggregate")
	case 4:
		refAll(s.bl).match(s.r.AggregateWithOptions(col.AggregateOptions{SkipPreCalculated: true}), what+": an aggregate from rows")
	case 5:
		refFiltered(s.bl, s.allow, nil).match(s.r.AggregateWithOptions(col.AggregateOptions{Filter: s.allow.bm}), what+": a filtered aggregate")
	case 6:
		refFiltered(s.bl, s.allow, nil).match(s.r.AggregateWithOptions(col.AggregateOptions{Filter: s.allow.bm, Parallel: 2}), what+": a parallel aggregate")
	}
}

const nAsk = 7

// alike makes blocks that look like those of another tag but for their last id and their values.
func alike(enc uint32, shape []int, tag string) []blk {
	n := total(shape)
	ids, vals := make([]uint64, n), symI(tag+"val", n)
	for i := range ids {
		ids[i] = uint64(4 + 5*i)
	}
	ids[n-1] = vrt.U64(tag + "id")
	if idsVar(enc) {
		vrt.Assume(ids[n-1] > 20 && ids[n-1] < 120)
	}
	if valsVar(enc) {
		narrow(vals)
	}
	return split(ids, vals, shape)
}

func twoBlocks(enc uint32, tag string, n int) []blk {
	return alike(enc, []int{1, n}, tag)
}

// C23_Writers: two writers take turns.
// Bound: 2 writers of 2 blocks each (1 to 2 rows, symbolic values and one symbolic id), every order of their block writes, each pair of 4
// encodings; finalized in either order, then compared with the
// same file written alone and read by two readers in turn.
func C23_Writers() {
	encs := []uint32{0, 3, 4, 7}
	e := [2]uint32{encs[vrt.Choose("ea", 4)], encs[vrt.Choose("eb", 4)]}
	n := [2]int{1 + vrt.Choose("na", 2), 1}
	var bl [2][]blk
	var w [2]*col.Writer
	fn := [2]string{path("a"), path("b")}
	for i := range w {
		bl[i] = twoBlocks(e[i], []string{"a", "b"}[i], n[i])
		write(fn[i]+"-alone", e[i], 0, bl[i])
	}
	for i := range w {
		var err error
		w[i], err = newWriter(fn[i], e[i], 0)
		noErr(err, "creating a file fails")
		if err != nil {
			return
		}
	}
	order := [][]int{{0, 0, 1, 1}, {0, 1, 0, 1}, {0, 1, 1, 0}, {1, 0, 0, 1}}[vrt.Choose("order", 4)]
	var at [2]int
	var buf reused
	for _, i := range order {
		noErr(w[i].WriteBlock(buf.fill(bl[i][at[i]])), "writing a block that fits fails")
		at[i]++
	}
	buf.clear()
	first := vrt.Choose("first", 2)
	noErr(w[first].FinalizeAndClose(), "finalizing fails")
	noErr(w[1-first].FinalizeAndClose(), "finalizing fails")
	a, b := open(fn[0]), open(fn[1])
	if a == nil || b == nil {
		return
	}
	for i := range fn {
		sameFiles(fn[i], fn[i]+"-alone", "a file written while another is differs from the same file written alone")
	}
	holds(a, bl[0], "the first of two files")
	holds(b, bl[1], "the second of two files")
	holds(a, bl[0], "the first of two files, again")
	vrt.Assert(a.EncodingType() == e[0] && b.EncodingType() == e[1], "a file reports another file's encoding")
	vrt.Cover("both read")
}

// C23_Simple: a simple writer and another, of another encoding and block size, take turns.
// Bound: 2 simple writers, 2 batches of 1 or 2 rows each (symbolic values, one symbolic id), alternating; the block size of the second
// is small, so that its batch of 600 rows is split; either is created and closed first. The files are compared
// with the same files written alone.
func C23_Simple() {
	e := [2]uint32{[]uint32{0, 1, 6}[vrt.Choose("ea", 3)], []uint32{0, 2, 5}[vrt.Choose("eb", 3)]}
	bl := [2][]blk{twoBlocks(e[0], "a", 2), twoBlocks(e[1], "b", 1)}
	vrt.Assume(bl[0][1].ids[0] <= bl[0][1].ids[1])
	bl[1] = append(bl[1], filler(600, 0, 7))
	fn := [2]string{path("a"), path("b")}
	for i := range fn {
		w := newSimple(fn[i]+"-alone", e[i], uint32(4096*i))
		if w == nil {
			return
		}
		submit(w, bl[i])
		simpleClose(w, rowsOf(bl[i]))
	}
	k := vrt.Choose("created first", 2)
	var sw [2]*col.SimpleWriter
	for _, i := range []int{k, 1 - k} {
		sw[i] = newSimple(fn[i], e[i], uint32(4096*i))
	}
	if sw[0] == nil || sw[1] == nil {
		return
	}
	var buf reused
	for i := 0; i < 3; i++ {
		for k := range sw {
			if i < len(bl[k]) {
				noErr(sw[k].Write(buf.fill(bl[k][i])), "the simple writer rejects a batch")
			}
		}
	}
	buf.clear()
	first := vrt.Choose("first", 2)
	for _, k := range []int{first, 1 - first} {
		simpleClose(sw[k], rowsOf(bl[k]))
	}
	for k := range sw {
		sameFiles(fn[k], fn[k]+"-alone", "a file written while another is differs from the same file written alone")
		ids, vals, ok := readRows(fn[k])
		if !ok {
			return
		}
		var want blk
		for _, b := range bl[k] {
			want.ids, want.vals = append(want.ids, b.ids...), append(want.vals, b.vals...)
		}
		vrt.Assert(sameU(ids, want.ids) && sameI(vals, want.vals), "a file of one of two simple writers holds other rows")
	}
	vrt.Cover("both read")
}

// C23_Rewrite: a file is replaced by another of the same name.
// Bound: 2 blocks of 1 and 1 or 2 rows (symbolic values and one symbolic id), then another 1, 2 or 3 blocks under the same name, in each pair
// of 3 encodings; before that the first is read in full with bitmap caching on or off, and closed or
// left open; the second is read in full.
func C23_Rewrite() {
	encs := []uint32{0, 3, 7}
	ea, eb := encs[vrt.Choose("ea", 3)], encs[vrt.Choose("eb", 3)]
	old := twoBlocks(ea, "a", 1+vrt.Choose("na", 2))
	bl := alike(eb, [][]int{{1}, {1, 1}, {1, 2}, {1, 1, 1}}[vrt.Choose("shape", 4)], "b")
	fn := path("a")
	write(fn, ea, 0, old)
	r := open(fn)
	if r == nil {
		return
	}
	cache := vrt.Choose("cache", 2) == 1
	if cache {
		r.EnableGlobalIDBitmapCaching()
	}
	holds(r, old, "a file")
	left := vrt.Choose("left", 2) == 1
	if !left {
		noErr(r.Close(), "closing the reader fails")
	}
	write(fn, eb, 0, bl)
	n := open(fn)
	if n == nil {
		return
	}
	if cache {
		n.EnableGlobalIDBitmapCaching()
	}
	holds(n, bl, "a file written under a used name")
	vrt.Assert(n.EncodingType() == eb, "a file written under a used name reports the former encoding")
	if left {
		noErr(r.Close(), "closing the reader fails")
		holds(n, bl, "a file written under a used name, after the former reader is closed")
	}
	vrt.Cover("rewritten")
}

// C23_Readers: two readers take turns.
// Bound: readers of 2 different files that look alike (2 blocks of 1 and 2 rows, symbolic values, one symbolic id) or of one file;
// every sequence of 2 of 7 kinds of question, each put to one reader and then the other; caching off,
// on for one, or on for both; then one is closed and the questions are put to the other again.
func C23_Readers() {
	bl := [2][]blk{
		{{[]uint64{4}, []int64{vrt.I64("v", 0)}}, {[]uint64{9, 14}, []int64{vrt.I64("v", 1), vrt.I64("v", 2)}}},
		{{[]uint64{5}, []int64{vrt.I64("v", 3)}}, {[]uint64{9, vrt.U64("x")}, []int64{vrt.I64("v", 4), 7}}},
	}
	fn := [2]string{path("a"), path("b")}
	same := vrt.Choose("same", 2) == 1
	if same {
		fn[1], bl[1] = fn[0], bl[0]
	}
	write(fn[0], 0, 0, bl[0])
	if !same {
		write(fn[1], 0, 0, bl[1])
	}
	var s [2]*asked
	for i := range s {
		s[i] = &asked{r: open(fn[i]), bl: bl[i], allow: newFilt([]uint64{9, 14, 5})}
		if s[i].r == nil {
			return
		}
	}
	vrt.Preempt(0)
	cache := vrt.Choose("cache", 3)
	for i := 0; i < cache; i++ {
		s[i].r.EnableGlobalIDBitmapCaching()
	}
	a, b := vrt.Choose("qa", nAsk), vrt.Choose("qb", nAsk)
	for _, k := range []int{a, b} {
		for i := range s {
			s[i].ask(k, "one of two readers")
		}
	}
	c := vrt.Choose("close", 2)
	noErr(s[c].r.Close(), "closing a reader fails")
	s[1-c].ask(a, "the reader left open")
	s[1-c].ask(b, "the reader left open")
	vrt.Cover("asked")
}

// C23_WriteTogether: two goroutines write a file each.
// Bound: 1 or 2 blocks of 1 or 2 rows with symbolic values each, 4 pairs of encodings, or through simple
// writers; up to 1 (thorough: 2) deviations from run-to-completion, any file access being a point to deviate;
// memory accesses checked for races.
func C23_WriteTogether() {
	k := vrt.Choose("enc", 4)
	e := [2]uint32{[]uint32{0, 3, 4, 7}[k], []uint32{0, 1, 6, 7}[k]}
	simple := vrt.Choose("simple", 2) == 1
	var bl [2][]blk
	for i := range bl {
		v := vrt.I64("v", i)
		narrow([]int64{v})
		bl[i] = []blk{{[]uint64{4 + uint64(i), 9}, []int64{3, v}}, {[]uint64{30}, []int64{-7 - int64(i)}}}
	}
	fn := [2]string{path("a"), path("b")}
	vrt.Preempt(1 + vrt.B2I(vrt.Thorough()))
	done := make(chan bool, 2)
	for i := 0; i < 2; i++ {
		go func(i int) {
			if simple {
				if sw := newSimple(fn[i], e[i], 0); sw != nil {
					submit(sw, bl[i])
					noErr(sw.Close(), "closing the simple writer fails")
				}
			} else {
				write(fn[i], e[i], 0, bl[i])
			}
			done <- true
		}(i)
	}
	<-done
	<-done
	for i := range fn {
		ids, vals, ok := readRows(fn[i])
		if !ok {
			return
		}
		vrt.Assert(sameU(ids, []uint64{bl[i][0].ids[0], 9, 30}) && sameI(vals, []int64{3, bl[i][0].vals[1], bl[i][1].vals[0]}),
			"a file written while another is holds other rows")
	}
	vrt.Cover("both written")
}

// C23_ReadTogether: two goroutines use a reader each, or one reads while the other writes.
// Bound: 2 readers of 2 different files that look alike or of one file, opened by the goroutines; each
// asks one of 7 questions (every pair), the second may write and read a third file instead; caching off or on;
// up to 1 (thorough: 2) deviations from run-to-completion; memory accesses checked for races.
func C23_ReadTogether() {
	var bl [3][]blk
	for i := range bl {
		bl[i] = []blk{{[]uint64{4 + uint64(i)}, []int64{vrt.I64("v", i)}}, {[]uint64{9, 11 + uint64(i)}, []int64{-3, 5}}}
	}
	fn := [3]string{path("a"), path("b"), path("c")}
	a := vrt.Choose("qa", nAsk)
	b := vrt.Choose("qb", nAsk+1)
	two := 1
	if b == nAsk {
		two = 2
	} else if vrt.Choose("same", 2) == 1 {
		two = 0
	}
	for i := 0; i <= two && i < 2; i++ {
		write(fn[i], 0, 0, bl[i])
	}
	cache := vrt.Choose("cache", 2) == 1
	vrt.Preempt(1 + vrt.B2I(vrt.Thorough()))
	use := func(i, k int) {
		r := open(fn[i])
		if r == nil {
			return
		}
		if cache {
			r.EnableGlobalIDBitmapCaching()
		}
		s := &asked{r: r, bl: bl[i], allow: newFilt([]uint64{9, 4})}
		s.ask(k, "one of two readers used at the same time")
		noErr(r.Close(), "closing a reader fails")
	}
	done := make(chan bool, 2)
	go func() {
		use(0, a)
		done <- true
	}()
	go func() {
		k := b
		if two == 2 {
			write(fn[2], 3, 0, bl[2])
			k = a
		}
		use(two, k)
		done <- true
	}()
	<-done
	<-done
	vrt.Cover("both asked")
}

// C23_Multi: two multi-readers share their readers.
// Bound: 2 files of 2 rows (a shared id, symbolic values, one symbolic id), one multi-reader with the files in one order, the other
// in the other, and one over one file only, some made from one slice; aggregated in turn in 3 orders, with and without a filter, or at the same time by two
// goroutines with up to 1 (thorough: 2) deviations from run-to-completion; then the first reader answers by itself.
func C23_Multi() {
	x := vrt.U64("x")
	bl := [2][]blk{
		{{[]uint64{4, 9}, []int64{vrt.I64("v", 0), 100}}},
		{{[]uint64{9, x}, []int64{vrt.I64("v", 1), 7}}},
	}
	var r [2]*col.Reader
	for i := range r {
		fn := path([]string{"a", "b"}[i])
		write(fn, 0, 0, bl[i])
		r[i] = open(fn)
		if r[i] == nil {
			return
		}
	}
	rs := r[:]
	ms := []*multicol.MultiReader{
		multicol.NewMultiReader(rs),
		multicol.NewMultiReader([]*col.Reader{r[1], r[0]}),
		multicol.NewMultiReader(rs[:1]),
		multicol.NewMultiReader(rs),
	}
	var allow *filt
	if vrt.Choose("filter", 2) == 1 {
		allow = newFilt([]uint64{9})
	}
	if vrt.Choose("cache", 2) == 1 {
		r[0].EnableGlobalIDBitmapCaching()
	}
	ask := func(k int) {
		w := &ref{}
		add := func(i int, hide bool) {
			b := bl[i][0]
			for j := range b.ids {
				ok := admitted(allow, nil, b.ids[j])
				if hide {
					ok = vrt.And(ok, !in(bl[1-i][0].ids, b.ids[j]))
				}
				w.add(b.vals[j], ok)
			}
		}
		if k != 2 {
			add(k%3, true)
			add(1-k%3, false)
		} else {
			add(0, false)
		}
		a, err := ms[k].Aggregate(multicol.AggregateOptions{Filter: allow.bitmap()})
		noErr(err, "a multi-file aggregate fails")
		if err == nil {
			w.match(a, "one of several multi-file aggregates")
		}
	}
	mode := vrt.Choose("mode", 5)
	if mode < 3 {
		vrt.Preempt(0)
		for _, k := range [][]int{{0, 1, 3, 2}, {1, 2, 3, 0}, {2, 3, 0, 1}}[mode] {
			ask(k)
		}
	} else {
		vrt.Preempt(1 + vrt.B2I(vrt.Thorough()))
		done := make(chan bool, 2)
		for _, k := range [][]int{{0, 1}, {0, 2}}[mode-3] {
			go func(k int) {
				ask(k)
				done <- true
			}(k)
		}
		<-done
		<-done
	}
	holds(r[0], bl[0], "a reader that multi-readers share")
	vrt.Cover("aggregated")
}
