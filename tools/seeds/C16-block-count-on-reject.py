prop = 'C16'
needs = 'A block read with an index of 2^63 or more.'
what = 'Block indices are reduced to 32 bits before the range check, so a huge index reads block 0.'
edits = [('pkg/col/reader.go', '	return r.readBlock(int(blockIdx))\n', '	return r.readBlock(int(int32(blockIdx)))\n')]
demo = '''
func demo() {
	r := open(put("a", 0, 0, B{[]uint64{3, 4}, []int64{10, 20}}))
	if ids, _, err := r.GetPairs(1 << 32); err == nil {
		bad("block 2^32 has ids %v", ids)
	}
}
'''
