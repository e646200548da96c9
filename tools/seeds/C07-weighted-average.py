prop = 'C07'
needs = 'Files whose averages do not combine exactly in floating point, or whose sums wrap around.'
what = 'The average of several files is combined from their averages instead of the exact sum.'
edits = [('pkg/multicol/aggregate.go', 'merged.Avg = float64(merged.Sum) / float64(merged.Count)', 'merged.Avg = (a.Avg*float64(a.Count) + b.Avg*float64(b.Count)) / float64(merged.Count)')]
demo = '''
import (
	"vibe-lsm/pkg/col"
	"vibe-lsm/pkg/multicol"
)

func demo() {
	a := open(put("a", 0, 0, B{[]uint64{1}, []int64{1<<62 + 1}}))
	b := open(put("b", 0, 0, B{[]uint64{2}, []int64{1 << 62}}))
	r, err := multicol.NewMultiReader([]*col.Reader{a, b}).Aggregate(multicol.AggregateOptions{})
	must(err)
	eq(r.Avg, float64(r.Sum)/float64(r.Count), "average")
}
'''
