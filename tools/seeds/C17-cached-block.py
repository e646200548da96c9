prop = 'C17'
needs = 'The slices of a block read are changed by the caller and the same block is then read or aggregated again.'
what = 'The last block read is cached and handed out without a copy.'
edits = [('pkg/col/reader.go', '	return r.readBlock(int(blockIdx))\n', '''	r.globalIDsMu.Lock()
	defer r.globalIDsMu.Unlock()
	if r.lastIDs != nil && r.lastBlock == blockIdx {
		return r.lastIDs, r.lastValues, nil
	}
	ids, values, err := r.readBlock(int(blockIdx))
	if err == nil {
		r.lastBlock, r.lastIDs, r.lastValues = blockIdx, ids, values
	}
	return ids, values, err
'''), ('pkg/col/reader.go', '	header         FileHeader\n', '''	header         FileHeader

	// The last block read
	lastBlock  uint64
	lastIDs    []uint64
	lastValues []int64

''')]
demo = '''
func demo() {
	r := open(put("a", 0, 0, B{[]uint64{1, 2}, []int64{1, 2}}))
	ids, vals, err := r.GetPairs(0)
	must(err)
	ids[0], vals[1] = 100, 100
	same(rows(r), []B{{[]uint64{1, 2}, []int64{1, 2}}})
}
'''
