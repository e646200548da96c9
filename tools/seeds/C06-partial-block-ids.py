prop = 'C06'
needs = 'A block cut short by the size target whose caller does not write the remaining rows.'
what = 'All ids handed to a partially written block enter the id bitmap, also those not stored.'
edits = [('pkg/col/writer_block_io.go', '''		// Return a BlockFullError with the number of items written
		return''', '''		// The remaining rows follow in the next block: record all ids at once
		w.globalIDs.SetMany(ids)

		// Return a BlockFullError with the number of rows written
		return''')]
demo = '''
import (
	"errors"
	"vibe-lsm/pkg/col"
)

func demo() {
	w, err := col.NewWriter(file("a"), col.WithBlockSize(4096))
	must(err)
	var b B
	for i := 0; i < 400; i++ {
		b.ids = append(b.ids, uint64(i))
		b.vals = append(b.vals, 1)
	}
	var full *col.BlockFullError
	if err := w.WriteBlock(b.ids, b.vals); !errors.As(err, &full) {
		bad("block not full: %v", err)
	}
	must(w.FinalizeAndClose())
	g, err := open(file("a")).GetGlobalIDBitmap()
	must(err)
	eq(g.GetCardinality(), full.ItemsWritten, "ids in the bitmap")
}
'''
