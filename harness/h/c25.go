package h

import (
	"fmt"
	"os"

	"vibe-lsm/zzverif/clirun"
	"vibe-lsm/zzverif/vos"
	"vibe-lsm/zzverif/vrand"
	"vibe-lsm/zzverif/vrt"
)

// aggLines asserts that the aggregate command prints the aggregates of the blocks.
func aggLines(fn string, bl []blk, args ...string) {
	out, said, code := clirun.Run(append([]string{"aggregate", "-file", fn}, args...)...)
	if code != 0 {
		vrt.Assert(vos.Faulted, "the load-test tool fails to aggregate a finalized file")
		vrt.Assert(said, "the load-test tool fails without a message")
		vrt.Cover("fails")
		return
	}
	r := refAll(bl)
	other := "the load-test tool prints other aggregates than the file has"
	vrt.Assert(hasLine(out, fmt.Sprintf("Count: %d", r.n)), other)
	vrt.Assert(hasLine(out, fmt.Sprintf("Sum: %d", r.sum)), other)
	if len(bl) > 0 {
		vrt.Assert(hasLine(out, fmt.Sprintf("Min: %d", r.min)), other)
		vrt.Assert(hasLine(out, fmt.Sprintf("Max: %d", r.max)), other)
		vrt.Assert(hasLine(out, fmt.Sprintf("Average: %.2f", float64(r.sum)/float64(r.n))), other)
	}
	vrt.Assert(hasLine(out, fmt.Sprintf("Block count: %d", len(bl))), "the load-test tool prints another number of blocks than the file has")
	vrt.Cover("aggregated")
}

// C25_Aggregate: the aggregate command on any file.
// Bound: 0 to 3 blocks of up to 3 symbolic rows, encodings 0 and 7; cached or not; -1, 0, 1, 2 and 7 workers in the
// default schedule.
func C25_Aggregate() {
	enc := []uint32{0, 7}[vrt.Choose("as", 2)]
	sh := [][]int{{}, {1}, {3}, {1, 1}, {2, 1, 1}}[vrt.Choose("shape", 5)]
	bl := symBlocks(enc, sh, "")
	fn := path("r")
	write(fn, enc, 0, bl)
	vrt.Preempt(0)
	vrt.SetProcs(3)
	opts := [][]string{{}, {"-skip-cache=false"}, {"--skip-cache", "-parallel", "-1"}, {"-skip-cache=false", "-parallel", "2"}, {"-parallel=1"}, {"-parallel=7"}}
	aggLines(fn, bl, opts[vrt.Choose("options", len(opts))]...)
}

// C25_Usage: wrong command lines.
// Bound: 6 fixed command lines that must fail, 2 of them for a missing or a damaged file.
func C25_Usage() {
	fn := path("w")
	bad := [][]string{{}, {"erase"}, {"aggregate", "-file", path("none")}, {"aggregate", "-file", fn}, {"import", "-n", "x"}, {"aggregate", "-parallel"}}
	k := vrt.Choose("line", len(bad))
	if k == 3 {
		noErr(os.WriteFile(fn, []byte("no column file at all, and too short for one"), 0644), "writing a scratch file failed")
	}
	_, said, code := clirun.Run(bad[k]...)
	vrt.Assert(code != 0 && said, "a wrong command line succeeds or fails without a message")
	vrt.Cover("rejected")
}

// imports runs the import command and checks what comes of it; bl is nil after a failure.
func imports(fn string, n int, args ...string) (bl []blk) {
	out, said, code := clirun.Run(append([]string{"import", "-file", fn, "-n", fmt.Sprint(n)}, args...)...)
	if code != 0 {
		vrt.Assert(vos.Faulted && said, "the load-test tool fails to import, or without a message")
		vrt.Cover("import fails")
		return nil
	}
	vrt.Assert(!vos.Faulted, "the load-test tool reports success though a file operation it issued failed")
	vrt.Assert(hasLine(out, fmt.Sprintf("Total values: %d", n)), "the load-test tool prints another number of values than asked for")
	vrt.Assert(hasLine(out, fmt.Sprintf("Total items written: %d", n)), "the load-test tool prints another number of items than asked for")
	r := open(fn)
	if r == nil {
		return nil
	}
	rows := 0
	bl = []blk{}
	for i := uint64(0); i < r.BlockCount(); i++ {
		ids, vals, err := r.GetPairs(i)
		noErr(err, "a block of the imported file cannot be read")
		rows += len(ids)
		bl = append(bl, blk{ids, vals})
	}
	vrt.Assert(rows == n, "the import leaves another number of rows than asked for")
	noErr(r.Close(), "closing the reader fails")
	vrt.Cover("imported")
	return bl
}

// C25V_Import: importing any rows, and aggregating what was imported (of one row).
// Bound: 0 to 3 rows with the first random numbers drawn any (4 for one row, 3 for two, 2 for three; fractions out of 4) and the rest fixed; block
// sizes of 1, 5000 and the default one; value limits 1<<20 and 32, id limits of 1, 20000000 and 1<<40.
func C25V_Import() {
	vos.Reset()
	n := vrt.Choose("n", 4)
	vrand.Reset([]int{0, 4, 3, 2}[n])
	args := []string{"-max-value", "1048576"}
	if k := vrt.Choose("size", 3); k > 0 {
		args = append(args, "-block-size", []string{"", "1", "5000"}[k])
	}
	if vrt.Choose("limits", 2) == 1 {
		args = []string{"-max-value", "32", "-max-id", "1", "-seed", "3"}
	} else if vrt.Choose("large", 2) == 1 {
		args = append(args, "-max-id=1099511627776")
	}
	if bl := imports("/d/w", n, args...); bl != nil && n == 1 {
		aggLines("/d/w", bl, []string{"-skip-cache=false", "-skip-cache"}[vrt.Choose("agg", 2)])
	}
}

// C25V_Batches: imports of more rows than one batch.
// Bound: 1000, 1001, 9999, 10000, 10001 and 20003 rows of fixed random numbers, block size 1 MiB.
func C25V_Batches() {
	vos.Reset()
	vrand.Reset(0)
	n := []int{1000, 1001, 9999, 10000, 10001, 20003}[vrt.Choose("n", 6)]
	imports("/w", n, "-block-size", "1048576")
}

// C25V_Fault: failing file operations.
// Bound: importing 2 rows with one failing operation of any kind, or aggregating 2 rows with one failing read while
// the file is opened.
func C25V_Fault() {
	vrand.Reset(0)
	if vrt.Choose("op", 2) == 0 {
		armed(300)
		imports("/w", 2)
		return
	}
	vos.Reset()
	bl := []blk{{[]uint64{3, 9}, []int64{-5, 6}}}
	write("/w", 0, 0, bl)
	vos.ROps, vos.Faulted = 0, false
	vos.ShortRead = vrt.Choose("short", 2) == 1
	vos.RFault = vrt.Range("rfault", 0, 20)
	aggLines("/w", bl, "-skip-cache=false")
}
