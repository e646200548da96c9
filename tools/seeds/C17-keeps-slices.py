prop = 'C17'
needs = 'A sorted batch that stays pending and is changed by the caller before the block is written.'
what = 'A sorted batch is kept by reference while it is pending, so later changes of the caller are stored.'
edits = [('pkg/col/simple_writer.go', '''	sw.pendingIDs = append(sw.pendingIDs, newIDs...)
	sw.pendingValues = append(sw.pendingValues, newValues...)
''', '''	if len(sw.pendingIDs) == 0 && isSorted(ids) {
		// No copy needed
		newIDs, newValues = ids, values
		sw.pendingIDs, sw.pendingValues = ids[:len(ids):len(ids)], values[:len(values):len(values)]
	} else {
		sw.pendingIDs = append(sw.pendingIDs, newIDs...)
		sw.pendingValues = append(sw.pendingValues, newValues...)
	}
''')]
demo = '''
import "vibe-lsm/pkg/col"

func demo() {
	w, err := col.NewSimpleWriter(file("a"))
	must(err)
	ids, vals := []uint64{1, 2}, []int64{10, 20}
	must(w.Write(ids, vals))
	ids[0], vals[0] = 7, 70
	must(w.Write(ids, vals))
	must(w.Close())
	same(rows(open(file("a"))), []B{{[]uint64{1, 2, 2, 7}, []int64{10, 20, 20, 70}}})
}
'''
