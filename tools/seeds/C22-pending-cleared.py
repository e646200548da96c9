prop = 'C22'
kind = 'fos'
needs = 'A block write of the simple writer fails on an I/O error and a repeated close succeeds.'
what = 'Pending rows are forgotten when their block write fails.'
edits = [('pkg/col/simple_writer.go', '''			// Some other error occurred
			return''', '''			// Some other error occurred: do not write the rows twice
			if sw.writer.blockCount > 0 {
				sw.pendingIDs, sw.pendingValues = nil, nil
			}
			return''')]
demo = '''
import (
	"errors"
	"vibe-lsm/pkg/col"
	"vibe-lsm/zzfos"
)

func demo() {
	w, err := col.NewSimpleWriter(file("a"))
	must(err)
	var b B
	for i := 0; i < 1000; i++ {
		b.ids = append(b.ids, uint64(i))
		b.vals = append(b.vals, 1)
	}
	must(w.Write(b.ids, b.vals))
	must(w.Write([]uint64{5000}, []int64{5}))
	zzfos.Hook = func(op string, off int64, l int) error {
		if op == "write" {
			return errors.New("ENOSPC")
		}
		return nil
	}
	if w.Close() == nil {
		bad("close succeeded")
	}
	zzfos.Hook = nil
	if w.Close() == nil {
		eq(open(file("a")).Aggregate().Count, 1001, "rows stored")
	}
}
'''
