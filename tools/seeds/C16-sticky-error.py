prop = 'C16'
kind = ''
needs = 'A read of a block that does not exist, then a valid read of the same reader.'
what = 'A reader remembers that a block index was out of range and refuses the next reads at or beyond it, also valid ones.'
edits = [('pkg/col/reader.go', '''	return r.readBlock(int(blockIdx))
''', '''	// Indices that were found to be out of range are not looked at again
	r.globalIDsMu.Lock()
	bad := r.badIndex
	r.globalIDsMu.Unlock()
	if bad > 0 && uint32(blockIdx) >= bad {
		return nil, nil, fmt.Errorf("invalid block index: %d", blockIdx)
	}
	if int(blockIdx) >= len(r.blockIndex) {
		r.globalIDsMu.Lock()
		r.badIndex = uint32(blockIdx)
		r.globalIDsMu.Unlock()
	}
	return r.readBlock(int(blockIdx))
'''), ('pkg/col/reader.go', '''	cacheGlobalIDs bool // Whether''', '''	badIndex       uint32
	cacheGlobalIDs bool // Whether''')]
demo = '''
func demo() {
	r := open(put("a", 0, 0, B{[]uint64{3}, []int64{1}}, B{[]uint64{4}, []int64{1}}))
	if _, _, err := r.GetPairs(1<<32 + 1); err == nil {
		bad("accepted")
	}
	_, _, err := r.GetPairs(1)
	must(err)
}
'''
