prop = 'C16'
needs = 'A block number of 2^32 or more.'
what = 'The block number is cut to 32 bits, so an out-of-range read returns the rows of another block.'
edits = [('pkg/col/reader.go', 'return r.readBlock(int(blockIdx))', 'return r.readBlock(int(uint32(blockIdx)))')]
demo = '''
func demo() {
	r := open(put("a", 0, 0, B{[]uint64{1}, []int64{2}}))
	if ids, _, err := r.GetPairs(1 << 32); err == nil {
		bad("block 2^32 was read: %v", ids)
	}
}
'''
