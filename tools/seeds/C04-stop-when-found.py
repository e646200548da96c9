prop = 'C04'
needs = 'A block holding an allowed id several times, and a later allowed id in the same block.'
what = 'Filtering a block stops when as many rows were found as the filter has ids, which loses rows when ids repeat.'
edits = [('pkg/col/reader_aggregate.go', '''		if isAllowed && !isDenied {
			filteredIDs = append(filteredIDs, id)
			filteredValues = append(filteredValues, allValues[i])
		}
''', '''		if !isDenied && isAllowed {
			filteredIDs = append(filteredIDs, id)
			filteredValues = append(filteredValues, allValues[i])
			if filter != nil && len(filteredIDs) >= filter.GetCardinality() {
				break // every id of the filter was found
			}
		}
''')]
demo = '''
import "vibe-lsm/pkg/col"

func demo() {
	r := open(put("a", 0, 0, B{[]uint64{4, 4, 5}, []int64{1, 2, 3}}))
	a := r.AggregateWithOptions(col.AggregateOptions{Filter: set(4, 5)})
	eq(a.Count, 3, "rows admitted")
}
'''
