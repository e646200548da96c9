prop = 'C07'
needs = 'Three files of which a newer one has no blocks and an older one has rows.'
what = 'A file without blocks ends the walk from newest to oldest instead of being passed over, so older files are not counted.'
edits = [('pkg/multicol/aggregate.go', '''	for i := len(mr.readers) - 1; i >= 0; i-- {
''', '''	for i := len(mr.readers) - 1; i >= 0 && mr.readers[i].BlockCount() > 0; i-- {
''')]
demo = '''
import (
	"vibe-lsm/pkg/col"
	"vibe-lsm/pkg/multicol"
)

func demo() {
	put("a", 0, 0, B{[]uint64{1}, []int64{5}})
	put("b", 0, 0)
	put("c", 0, 0, B{[]uint64{2}, []int64{7}})
	m := multicol.NewMultiReader([]*col.Reader{open(file("a")), open(file("b")), open(file("c"))})
	g, err := m.Aggregate(multicol.AggregateOptions{})
	must(err)
	eq(g.Count, 2, "count")
}
'''
