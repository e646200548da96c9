prop = 'C12'
needs = 'Block ids on both sides of 2^63 and a filter there.'
what = 'Block ranges are compared with the filter as signed numbers, so blocks with ids of 2^63 and above are left out or wrongly kept.'
edits = [('pkg/col/reader_aggregate.go', '''			if entry.MaxID < filterMin || entry.MinID > filterMax {
''', '''			if int64(entry.MaxID-filterMin) < 0 || int64(filterMax-entry.MinID) < 0 {
''')]
demo = '''
func demo() {
	put("a", 0, 0, B{[]uint64{1, 1<<63 + 9}, []int64{5, 6}})
	r := open(file("a"))
	eq(r.FilteredBlockIterator(set(1), nil), []uint64{0}, "blocks")
	eq(r.FilteredBlockIterator(set(1<<63+9), nil), []uint64{0}, "blocks")
	eq(r.FilteredBlockIterator(set(1, 1<<63+9), nil), []uint64{0}, "blocks")
}
'''
