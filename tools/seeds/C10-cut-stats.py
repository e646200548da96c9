prop = 'C10'
kind = ''
needs = 'A submission cut at the target whose largest value lies in the part not stored.'
what = 'A block cut from a larger submission keeps the largest value of the whole submission in its statistics.'
edits = [('pkg/col/writer_block_io.go', '''		if err := w.writeBlockInternal(ids[:optimal], values[:optimal]); err != nil {
			return err
		}
''', '''		if err := w.writeBlockInternal(ids[:optimal], values[:optimal]); err != nil {
			return err
		}
		// Statistics were taken over the submission when it was estimated
		_, w.blockStats[len(w.blockStats)-1].MaxValue = calculateMinMaxInt64(values[:optimal+1])
''')]
demo = '''
import (
	"errors"
	"vibe-lsm/pkg/col"
)

func demo() {
	w, err := col.NewWriter(file("a"), col.WithBlockSize(4096))
	must(err)
	var b B
	for i := 0; i < 2000; i++ {
		b.ids = append(b.ids, uint64(i))
		b.vals = append(b.vals, int64(i))
	}
	var f *col.BlockFullError
	if !errors.As(w.WriteBlock(b.ids, b.vals), &f) {
		bad("not cut")
	}
	must(w.FinalizeAndClose())
	eq(open(file("a")).Aggregate().Max, f.ItemsWritten-1, "maximum")
}
'''
