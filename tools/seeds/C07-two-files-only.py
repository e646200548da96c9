prop = 'C07'
needs = 'Three or more files, an id in the oldest and the newest but not in the middle one.'
what = 'Only the ids of the next newer file deny a row, not those of all newer files.'
edits = [('pkg/multicol/aggregate.go', 'denyBitmap = denyBitmap.Or(globalIDs)', '''if i == len(mr.readers)-1 || globalIDs.GetCardinality() >= denyBitmap.GetCardinality() {
			denyBitmap = globalIDs
		} else {
			denyBitmap = denyBitmap.Or(globalIDs)
		}''')]
demo = '''
import (
	"vibe-lsm/pkg/col"
	"vibe-lsm/pkg/multicol"
)

func demo() {
	a := open(put("a", 0, 0, B{[]uint64{1, 2}, []int64{10, 20}}))
	b := open(put("b", 0, 0, B{[]uint64{5, 6}, []int64{50, 60}}))
	c := open(put("c", 0, 0, B{[]uint64{1}, []int64{11}}))
	r, err := multicol.NewMultiReader([]*col.Reader{a, b, c}).Aggregate(multicol.AggregateOptions{})
	must(err)
	eq(r.Count, 4, "rows")
	eq(r.Sum, 11+50+60+20, "sum")
}
'''
