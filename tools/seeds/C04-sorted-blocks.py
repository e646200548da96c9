prop = 'C04'
needs = 'A file whose blocks are not in id order and an allow filter met by a block after one that starts beyond the filter.'
what = 'The search for candidate blocks stops at the first block that starts beyond the filter.'
edits = [('pkg/col/reader_aggregate.go', '''			if entry.MaxID < filterMin || entry.MinID > filterMax {
				continue
			}
''', '''			if entry.MaxID < filterMin {
				continue
			}
			if entry.MinID > filterMax {
				break
			}
''')]
demo = '''
import "vibe-lsm/pkg/col"

func demo() {
	r := open(put("a", 0, 0, B{[]uint64{100, 101}, []int64{1, 2}}, B{[]uint64{5, 6}, []int64{3, 4}}))
	a := r.AggregateWithOptions(col.AggregateOptions{Filter: set(5, 7)})
	eq(a.Count, 1, "rows admitted")
}
'''
