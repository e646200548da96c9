prop = 'C02'
needs = 'Two batches still pending together, the second with a smaller id than the last of the first.'
what = 'All pending rows are sorted together instead of each batch on its own, so batches do not stay in submission order.'
edits = [('pkg/col/simple_writer.go', '''	// Sort the data by ID if necessary
	if !isSorted(newIDs) {
		sortByID(newIDs, newValues)
	}

''', ''), ('pkg/col/simple_writer.go', '''	sw.pendingValues = append(sw.pendingValues, newValues...)
''', '''	sw.pendingValues = append(sw.pendingValues, newValues...)

	// Sort the data by ID if necessary
	if !isSorted(sw.pendingIDs) {
		sortByID(sw.pendingIDs, sw.pendingValues)
	}
''')]
demo = '''
import "vibe-lsm/pkg/col"

func demo() {
	w, err := col.NewSimpleWriter(file("a"))
	must(err)
	must(w.Write([]uint64{20, 10}, []int64{2, 1}))
	must(w.Write([]uint64{15, 5}, []int64{4, 3}))
	must(w.Close())
	same(rows(open(file("a"))), []B{{[]uint64{10, 20, 5, 15}, []int64{1, 2, 3, 4}}})
}
'''
