prop = 'C10'
needs = 'A second block whose smallest id is above that of the first and a repeated first id.'
what = 'The smallest id of a block whose ids ascend is taken from the end of the previous block when they meet.'
edits = [('pkg/col/writer_block_io.go', '''	sum := calculateSumInt64(values)
''', '''	if n := len(w.blockStats); n > 0 && minID > 0 && w.blockStats[n-1].MaxID == minID-1 {
		minID = w.blockStats[n-1].MaxID // blocks of one run share their border
	}
	sum := calculateSumInt64(values)
''')]
demo = '''
func demo() {
	r := open(put("a", 0, 0, B{[]uint64{1, 2}, []int64{1, 2}}, B{[]uint64{3, 4}, []int64{1, 2}}))
	eq(r.FilteredBlockIterator(set(2), nil), []uint64{0}, "blocks that can hold id 2")
}
'''
