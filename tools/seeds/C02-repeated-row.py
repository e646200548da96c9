prop = 'C02'
needs = 'An unsorted batch in which an id occurs twice with different values, next to a following write that leaves the batch pending.'
what = 'Rows whose id equals the previous pending id are dropped as already present.'
edits = [('pkg/col/simple_writer.go', '''	// Add to pending data
	sw.pendingIDs = append(sw.pendingIDs, newIDs...)
	sw.pendingValues = append(sw.pendingValues, newValues...)
''', '''	// Add to pending data, once
	if n := len(sw.pendingIDs); n > 0 && sw.pendingIDs[n-1] == newIDs[0] && sw.pendingValues[n-1] == newValues[0] {
		// The batch repeats the last row: keep one copy
		newIDs, newValues = newIDs[1:], newValues[1:]
	}
	sw.pendingIDs = append(sw.pendingIDs, newIDs...)
	sw.pendingValues = append(sw.pendingValues, newValues...)
''')]
demo = '''
import "vibe-lsm/pkg/col"

func demo() {
	w, err := col.NewSimpleWriter(file("a"))
	must(err)
	must(w.Write([]uint64{1, 7}, []int64{10, 70}))
	must(w.Write([]uint64{8, 7}, []int64{80, 70}))
	must(w.Close())
	eq(open(file("a")).Aggregate().Count, 4, "rows stored")
}
'''
