package h

import (
	"os"

	"vibe-lsm/pkg/col"
	"vibe-lsm/pkg/multicol"
	"vibe-lsm/zzverif/vos"
	"vibe-lsm/zzverif/vrt"
)

// readArmed sets up a failing read operation, alone or with the next one or all later
// ones: an error or a short read, after some of the bytes.
func readArmed(max int) {
	vos.Counting, vos.Journing = true, false
	vos.Reads = nil
	vos.WOps, vos.ROps, vos.Faulted = 0, 0, false
	vos.Strikes = 0
	drawn, part := false, 0
	vos.PickPartial = func(n int) int {
		if n == 0 {
			return 0
		}
		if !drawn {
			drawn, part = true, vrt.Choose("partial", 3)
		}
		return []int{0, n - 1, n / 2}[part]
	}
	vos.Times = []int{1, 2, 1000}[vrt.Choose("times", 3)]
	vos.ShortRead = vrt.Choose("short", 2) == 1
	vos.RFault = vrt.Range("rfault", -1, max)
}

// failed judges a call during which a fault may have struck: it must fail if a
// read failed, and otherwise either fail or give right results, which the caller
// checks if this returns true.
func failed(before int, err error, call string) bool {
	struck := vos.Strikes > before
	if struck {
		vrt.Cover("fault in " + call)
		vrt.ObserveS("failed", vos.FaultOp)
		if !vos.ShortRead && (vos.FaultOp == "read" || vos.FaultOp == "readat" || vos.FaultOp == "open") {
			vrt.Assert(err != nil, call+" reports no error though a read it issued failed")
		}
	} else {
		noErr(err, call+" fails though its reads succeed")
	}
	return err == nil
}

var readFiles = [][]blk{
	nil,
	{{[]uint64{4}, []int64{0}}},
	{{[]uint64{9, 3}, []int64{0, 0}}, {[]uint64{1 << 40, 5}, []int64{0, 0}}},
}

// C19V_Reader: a failing read at any point of opening, reading and fetching.
// Bound: files of 0 to 2 blocks of 1 or 2 rows with symbolic values, encodings 0 and 7 (thorough: all);
// one failing read operation of the first 250, or two or all from there on, an error or a short read, after none, half or all but
// one of the bytes; caching on or off; calls after the fault are checked too.
func C19V_Reader() {
	vos.Reset()
	encs := []uint32{0, 7}
	if vrt.Thorough() {
		encs = []uint32{0, 1, 2, 3, 4, 5, 6, 7}
	}
	enc := encs[vrt.Choose("enc", len(encs))]
	var bl []blk
	var all []uint64
	for i, b := range readFiles[vrt.Choose("file", len(readFiles))] {
		v := symI("val", 2*i+len(b.ids))[2*i:]
		if valsVar(enc) {
			narrow(v)
		}
		bl = append(bl, blk{b.ids, v})
		all = append(all, b.ids...)
	}
	write("/a", enc, 0, bl)
	readArmed(250)
	r, err := col.NewReader("/a")
	if !failed(0, err, "NewReader") {
		vrt.Assert(r == nil, "NewReader fails and returns a reader")
		return
	}
	vrt.Assert(r.BlockCount() == uint64(len(bl)) && r.EncodingType() == enc, "NewReader yields another file after a failed read")
	if vrt.Choose("cache", 2) == 1 {
		r.EnableGlobalIDBitmapCaching()
	}
	for round := 0; round < 2; round++ {
		for i, b := range bl {
			was := vos.Strikes
			ids, vals, err := r.GetPairs(uint64(i))
			if failed(was, err, "GetPairs") {
				vrt.Assert(sameU(ids, b.ids) && sameI(vals, b.vals), "GetPairs returns other rows after a failed read")
			} else {
				vrt.Assert(len(ids) == 0 && len(vals) == 0, "GetPairs fails and returns rows")
			}
		}
		was := vos.Strikes
		bm, err := r.GetGlobalIDBitmap()
		if failed(was, err, "GetGlobalIDBitmap") {
			vrt.Assert(bm.GetCardinality() == len(all), "GetGlobalIDBitmap returns other ids after a failed read")
			for _, id := range all {
				vrt.Assert(bm.Contains(id), "GetGlobalIDBitmap returns other ids after a failed read")
			}
		} else {
			vrt.Assert(bm == nil, "GetGlobalIDBitmap fails and returns a bitmap")
		}
	}
	vrt.Cover("done")
}

// C19V_Multi: a failing read during a multi-file aggregate.
// Bound: 2 or 3 files of one block of 1 or 2 rows with symbolic values, the newest of which
// supersedes rows of the others; caching off or on; failing reads as above while
// aggregating. Reads of blocks are excluded: a block aggregate has no way to report them.
func C19V_Multi() {
	vos.Reset()
	files := [][]blk{
		{{[]uint64{1, 2}, symI("v0", 2)}},
		{{[]uint64{2}, symI("v1", 1)}},
		{{[]uint64{1, 7}, symI("v2", 2)}},
	}
	nf := 2 + vrt.Choose("files", 2)
	files = files[:nf]
	var rs []*col.Reader
	names := []string{"/a", "/b", "/c"}
	cache := vrt.Choose("cache", 2) == 1
	offs := make([]int64, nf)
	for i := range files {
		write(names[i], 0, 0, files[i])
		d := vdata(names[i])
		offs[i] = int64(le64(d, 44))
		r := open(names[i])
		if r == nil {
			return
		}
		if cache {
			r.EnableGlobalIDBitmapCaching()
		}
		rs = append(rs, r)
	}
	readArmed(60)
	mr := multicol.NewMultiReader(rs)
	a, err := mr.Aggregate(multicol.AggregateOptions{SkipPreCalculated: vrt.Choose("skip", 2) == 1})
	if vos.Faulted {
		bitmap := false
		for i := range offs {
			if vos.FaultName == names[i] && vos.FaultOff >= offs[i] {
				bitmap = true
			}
		}
		if !bitmap {
			vrt.Cover("fault in a block")
			return
		}
		vrt.Cover("fault in a bitmap")
		if !vos.ShortRead && vos.FaultOp != "seek" {
			vrt.Assert(err != nil, "a multi-file aggregate reports no error though a bitmap read failed")
		}
		if err != nil {
			// The same readers work again once reads do.
			vos.Times = 1
			a, err = mr.Aggregate(multicol.AggregateOptions{})
			noErr(err, "a multi-file aggregate fails though its reads succeed")
			if err != nil {
				return
			}
		}
	} else {
		noErr(err, "a multi-file aggregate fails though its reads succeed")
		if err != nil {
			return
		}
	}
	want := &ref{}
	for i := range files {
		for k, id := range files[i][0].ids {
			keep := true
			for j := i + 1; j < nf; j++ {
				keep = keep && !in(files[j][0].ids, id)
			}
			want.add(files[i][0].vals[k], keep)
		}
	}
	want.match(a, "a multi-file aggregate around a failed read")
	vrt.Cover("aggregated")
}

// C19_Cut: the file is cut short after it was opened.
// Bound: a file of 2 blocks of 2 and 1 rows with symbolic values, encodings 0, 3 and 7, cut to each length
// up to 200 bytes and around every page boundary (thorough: every 41st in between too).
func C19_Cut() {
	enc := []uint32{0, 3, 7}[vrt.Choose("as", 3)]
	vals := symI("val", 3)
	if valsVar(enc) {
		narrow(vals)
	}
	bl := []blk{{[]uint64{3, 500}, vals[:2]}, {[]uint64{77}, vals[2:]}}
	fn := path("a")
	write(fn, enc, 0, bl)
	data, err := os.ReadFile(fn)
	noErr(err, "the file cannot be read back")
	f := decodeFile(data)
	r := open(fn)
	if r == nil || len(f.blocks) != 2 {
		return
	}
	var cuts []int
	for n := 0; n < len(data); n++ {
		m := n % page
		if n < 200 || m < 4 || m > page-4 || (m >= 64 && m < 140 && n < 3*page) || vrt.Thorough() && n%41 == 0 {
			cuts = append(cuts, n)
		}
	}
	cut := cuts[vrt.Choose("cut", len(cuts))]
	w, err := os.OpenFile(fn, os.O_RDWR, 0644)
	noErr(err, "the file cannot be opened")
	noErr(w.Truncate(int64(cut)), "the file cannot be cut")
	noErr(w.Close(), "the file cannot be closed")
	for i, b := range bl {
		ids, vals, err := r.GetPairs(uint64(i))
		if err != nil {
			vrt.Cover("read fails")
			vrt.Assert(len(ids) == 0 && len(vals) == 0, "a read of a block that was cut off fails and returns rows")
			continue
		}
		vrt.Assert(sameU(ids, b.ids) && sameI(vals, b.vals), "a read of a block that was cut off returns other rows")
		vrt.Cover("read succeeds")
	}
	bm, err := r.GetGlobalIDBitmap()
	if err == nil {
		vrt.Assert(bm.GetCardinality() == 3 && bm.Contains(3) && bm.Contains(500) && bm.Contains(77), "a fetch of a bitmap that was cut off returns other ids")
	}
}
