prop = 'C12'
needs = 'A block holding the largest possible id, 2^64-1.'
what = 'The range check of the candidate search overflows for a block whose largest id is 2^64-1, and skips it.'
edits = [('pkg/col/reader_aggregate.go', 'if entry.MaxID < filterMin || entry.MinID > filterMax {', 'if end := entry.MaxID + 1; end <= filterMin || entry.MinID > filterMax {')]
demo = '''
func demo() {
	r := open(put("a", 0, 0, B{[]uint64{5, 1<<64 - 1}, []int64{1, 2}}, B{[]uint64{7}, []int64{1}}))
	eq(r.FilteredBlockIterator(set(5), nil), []uint64{0}, "candidates")
}
'''
