prop = 'C22'
kind = 'fos'
needs = 'A block write that fails at its sync and is not repeated, followed by a successful finalize.'
what = 'Statistics of a block are recorded before it is written, so after a failed write the index pairs blocks with the wrong statistics.'
edits = [('pkg/col/writer_block_io.go', '''	count := uint32(len(ids))

''', '''	count := uint32(len(ids))
	w.blockStats = append(w.blockStats, BlockStats{
		MinID:    minID,
		MaxID:    maxID,
		MinValue: minValue,
		MaxValue: maxValue,
		Sum:      sum,
		Count:    count,
	})

'''), ('pkg/col/writer_block_io.go', '''	// Store block statistics for footer
	w.blockStats = append(w.blockStats, BlockStats{
		MinID:    minID,
		MaxID:    maxID,
		MinValue: minValue,
		MaxValue: maxValue,
		Sum:      sum,
		Count:    count,
	})

''', '')]
demo = '''
import (
	"errors"
	"vibe-lsm/pkg/col"
	"vibe-lsm/zzfos"
)

func demo() {
	w, err := col.NewWriter(file("a"))
	must(err)
	zzfos.Hook = func(op string, off int64, l int) error {
		if op == "sync" {
			return errors.New("EIO")
		}
		return nil
	}
	if w.WriteBlock([]uint64{1}, []int64{100}) == nil {
		bad("write succeeded")
	}
	zzfos.Hook = nil
	must(w.WriteBlock([]uint64{2}, []int64{7}))
	must(w.FinalizeAndClose())
	eq(open(file("a")).Aggregate().Sum, 7, "sum")
}
'''
