prop = 'C01'
needs = 'A file of more than 4 GiB.'
what = 'Block offsets are recorded in 32 bits, so blocks beyond 4 GiB are read from the wrong place.'
edits = [('pkg/col/writer_finalize.go', '''			blockOffset := w.blockPositions[blockIdx]
''', '''			blockOffset := w.blockPositions[blockIdx] & 0xffffffff
''')]
demo = '''
import (
	"os"
	"vibe-lsm/pkg/col"
)

func demo() {
	w, err := col.NewWriter(file("a"))
	must(err)
	x, y := B{[]uint64{1}, []int64{5}}, B{[]uint64{2}, []int64{7}}
	must(w.WriteBlock(x.ids, x.vals))
	must(os.Truncate(file("a"), 5<<30)) // as if many blocks had been written; takes no space
	must(w.WriteBlock(y.ids, y.vals))
	must(w.FinalizeAndClose())
	same(rows(open(file("a"))), []B{x, y})
}
'''
