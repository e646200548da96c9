prop = 'C07'
needs = 'An allow filter and a newer file holding one allowed id several times, so that as many rows as the filter has ids are counted before all ids were found.'
what = 'Older files are skipped once as many rows were counted as the filter has ids, although an id may repeat.'
edits = [('pkg/multicol/aggregate.go', '''		// Merge the results
		if result.Count == 0 {''', '''		// Merge the result
		if result.Count == 0 {'''), ('pkg/multicol/aggregate.go', '''			result = mergeAggregateResults(result, readerResult)
		}
''', '''			result = mergeAggregateResults(result, readerResult)
		}

		// Every allowed id was found: older files cannot contribute
		if opts.Filter != nil && result.Count >= opts.Filter.GetCardinality() {
			break
		}
''')]
demo = '''
import (
	"vibe-lsm/pkg/col"
	"vibe-lsm/pkg/multicol"
)

func demo() {
	a := open(put("a", 0, 0, B{[]uint64{1, 2}, []int64{10, 20}}))
	b := open(put("b", 0, 0, B{[]uint64{1, 1, 8}, []int64{11, 70, 80}}))
	r, err := multicol.NewMultiReader([]*col.Reader{a, b}).Aggregate(multicol.AggregateOptions{Filter: set(1, 2)})
	must(err)
	eq(r.Count, 3, "rows")
}
'''
