prop = 'C04'
kind = ''
needs = 'A block in which an id occurs twice and a filter that allows it.'
what = 'Filtering collects the rows of a block by id, so of rows with equal ids only the last is counted.'
edits = [('pkg/col/reader_aggregate.go', '''		if isAllowed && !isDenied {
			filteredIDs''', '''		if isAllowed && !isDenied {
			// A later row of the same id replaces the earlier one
			if n := len(filteredIDs); n > 0 && filteredIDs[n-1] == id {
				filteredValues[n-1] = allValues[i]
				continue
			}
			filteredIDs''')]
demo = '''
import "vibe-lsm/pkg/col"

func demo() {
	r := open(put("a", 0, 0, B{[]uint64{3, 3}, []int64{1, 10}}))
	eq(r.AggregateWithOptions(col.AggregateOptions{Filter: set(3)}).Sum, 11, "sum")
}
'''
