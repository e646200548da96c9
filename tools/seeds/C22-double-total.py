prop = 'C22'
kind = 'fos'
needs = 'A close whose block write fails, then a close that succeeds.'
what = 'The simple writer counts the rows of a block before writing it, so rows of a failed write count twice when they are written again.'
edits = [('pkg/col/simple_writer.go', '''		// All items were written successfully
		sw.totalItems += uint64(len(sw.pendingIDs))
''', '''		// All items were written successfully
'''), ('pkg/col/simple_writer.go', '''			itemsWritten := blockFullErr.ItemsWritten
			sw.totalItems += uint64(itemsWritten)
''', '''			itemsWritten := blockFullErr.ItemsWritten
			sw.totalItems -= uint64(len(sw.pendingIDs) - itemsWritten)
'''), ('pkg/col/simple_writer.go', '''		err := sw.writer.WriteBlock(sw.pendingIDs, sw.pendingValues)
''', '''		sw.totalItems += uint64(len(sw.pendingIDs))
		err := sw.writer.WriteBlock(sw.pendingIDs, sw.pendingValues)
''')]
demo = '''
import (
	"errors"
	"vibe-lsm/pkg/col"
	"vibe-lsm/zzfos"
)

func demo() {
	w, err := col.NewSimpleWriter(file("a"))
	must(err)
	must(w.Write([]uint64{5, 6}, []int64{5, 6}))
	zzfos.Hook = func(op string, off int64, l int) error {
		if op == "write" {
			return errors.New("ENOSPC")
		}
		return nil
	}
	if w.Close() == nil {
		bad("close succeeded")
	}
	zzfos.Hook = nil
	if w.Close() == nil {
		eq(w.TotalItems(), 2, "items")
	}
}
'''
