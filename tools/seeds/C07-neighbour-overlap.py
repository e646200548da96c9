prop = 'C07'
needs = 'Three files where the oldest shares ids with the newest but its id range is apart from that of the middle one.'
what = 'The deny list is skipped when a file shares no id with the next newer file, although a still newer one replaces its rows.'
edits = [('pkg/multicol/aggregate.go', '''	// Process readers from newest to oldest
	for i := len(mr.readers) - 1; i >= 0; i-- {
		reader := mr.readers[i]
''', '''	var newer *sroar.Bitmap // ids of the next newer file

	// Process readers from newest to oldest
	for i := len(mr.readers) - 1; i >= 0; i-- {
		reader := mr.readers[i]
'''), ('pkg/multicol/aggregate.go', '''		// Aggregate this reader with the current deny filter
		readerResult := reader.AggregateWithOptions(readerOpts)

''', ''), ('pkg/multicol/aggregate.go', '''		// Add all IDs from this reader to the deny bitmap for older readers
''', '''		// Files without updated rows can use their statistics
		if newer != nil && sroar.And(newer, globalIDs).IsEmpty() {
			readerOpts.DenyFilter = nil
		}
		newer = globalIDs

		// Aggregate this reader with the current deny filter
		readerResult := reader.AggregateWithOptions(readerOpts)

		// Add all IDs from this reader to the deny bitmap for older readers
''')]
demo = '''
import (
	"vibe-lsm/pkg/col"
	"vibe-lsm/pkg/multicol"
)

func demo() {
	m := multicol.NewMultiReader([]*col.Reader{
		open(put("a", 0, 0, B{[]uint64{1, 2}, []int64{10, 20}})),
		open(put("b", 0, 0, B{[]uint64{8, 9}, []int64{1, 1}})),
		open(put("c", 0, 0, B{[]uint64{1}, []int64{100}})),
	})
	r, err := m.Aggregate(multicol.AggregateOptions{})
	must(err)
	eq(r.Sum, 122, "sum")
}
'''
