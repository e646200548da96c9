prop = 'C23'
kind = ''
needs = 'Two multi-readers made from one slice of readers, or one slice used again after making a multi-reader.'
what = 'A multi-reader orders the slice it is given from newest to oldest in place, so a second multi-reader made from the slice takes the oldest file for the newest.'
edits = [('pkg/multicol/aggregate.go', '''	return &MultiReader{
		readers: readers,
	}
''', '''	// Newest first, the order in which they are processed
	for i, j := 0, len(readers)-1; i < j; i, j = i+1, j-1 {
		readers[i], readers[j] = readers[j], readers[i]
	}
	return &MultiReader{
		readers: readers,
	}
'''), ('pkg/multicol/aggregate.go', '''	for i := len(mr.readers) - 1; i >= 0; i-- {
''', '''	for i := 0; i < len(mr.readers); i++ {
''')]
demo = '''
import (
	"vibe-lsm/pkg/col"
	"vibe-lsm/pkg/multicol"
)

func demo() {
	rs := []*col.Reader{open(put("a", 0, 0, B{[]uint64{3}, []int64{1}})), open(put("b", 0, 0, B{[]uint64{3}, []int64{10}}))}
	for i := 0; i < 2; i++ {
		a, err := multicol.NewMultiReader(rs).Aggregate(multicol.AggregateOptions{})
		must(err)
		eq(a.Sum, 10, "sum")
	}
}
'''
