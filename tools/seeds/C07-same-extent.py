prop = 'C07'
kind = ''
needs = 'Two files of equally many ids with the same smallest and largest id that differ in an id between.'
what = 'An older file whose ids have the same number and extent as those of the newer files is passed over as replaced.'
edits = [('pkg/multicol/aggregate.go', '''		// Add all IDs from this reader to the deny bitmap for older readers
''', '''		// Every row of the reader is replaced by newer ones: nothing to merge
		if n := globalIDs.GetCardinality(); n > 0 && n == denyBitmap.GetCardinality() &&
			globalIDs.Minimum() == denyBitmap.Minimum() && globalIDs.Maximum() == denyBitmap.Maximum() {
			continue
		}

		// Add all IDs from this reader to the deny bitmap for older readers
''')]
demo = '''
import (
	"vibe-lsm/pkg/col"
	"vibe-lsm/pkg/multicol"
)

func demo() {
	rs := []*col.Reader{open(put("a", 0, 0, B{[]uint64{3, 5, 9}, []int64{1, 10, 100}})), open(put("b", 0, 0, B{[]uint64{3, 6, 9}, []int64{1000, 10000, 100000}}))}
	a, err := multicol.NewMultiReader(rs).Aggregate(multicol.AggregateOptions{})
	must(err)
	eq(a.Sum, 111010, "sum")
}
'''
