prop = 'C04'
needs = 'An allow filter of one id and a block whose ids are not in ascending order.'
what = 'A filter of a single id is looked up by binary search in the block, which misses it in a block whose ids are not ascending.'
edits = [('pkg/col/reader_aggregate.go', '''	for i, id := range allIDs {
		// Check if ID is allowed''', '''	first := 0
	if filter != nil && filter.GetCardinality() == 1 {
		// Start at the only id there is
		want := filter.Minimum()
		first = sort.Search(len(allIDs), func(k int) bool { return allIDs[k] >= want })
	}

	for i := first; i < len(allIDs); i++ {
		id := allIDs[i]
		// Check if ID is allowed'''), ('pkg/col/reader_aggregate.go', '''	"runtime"
	"sync"
''', '''	"runtime"
	"sort"
	"sync"
''')]
demo = '''
import "vibe-lsm/pkg/col"

func demo() {
	put("a", 0, 0, B{[]uint64{5, 9, 2, 1}, []int64{1, 2, 3, 4}})
	eq(open(file("a")).AggregateWithOptions(col.AggregateOptions{Filter: set(5)}).Count, 1, "count")
}
'''
