prop = 'C23'
kind = ''
needs = 'Two files of one size read in turn, or one rewritten under its name, block 0 being the one read last.'
what = 'The rows of the block read last are remembered for all readers by file name length, size and block number.'
edits = [('pkg/col/reader_block.go', '''	// Get block information from the index
	blockOffset := int64(r.blockIndex[blockIndex].BlockOffset)
''', '''	// The block read last is often read again
	entry := r.blockIndex[blockIndex]
	lastMu.Lock()
	if lastIDs != nil && lastSize == r.fileSize && lastBlock == blockIndex && lastEntry == entry {
		ids, values := append([]uint64(nil), lastIDs...), append([]int64(nil), lastValues...)
		lastMu.Unlock()
		return ids, values, nil
	}
	lastMu.Unlock()

	// Get block information from the index
	blockOffset := int64(r.blockIndex[blockIndex].BlockOffset)
'''), ('pkg/col/reader_block.go', '''	// Decode IDs and values
	ids, values, err := decodeBlockData(idBytes, valueBytes, count, r.header.EncodingType)
	if err != nil {
		return nil, nil, err
	}

	return ids, values, nil
}''', '''	// Decode IDs and values
	ids, values, err := decodeBlockData(idBytes, valueBytes, count, r.header.EncodingType)
	if err != nil {
		return nil, nil, err
	}

	lastMu.Lock()
	lastSize, lastBlock, lastEntry = r.fileSize, blockIndex, entry
	lastIDs, lastValues = append([]uint64(nil), ids...), append([]int64(nil), values...)
	lastMu.Unlock()

	return ids, values, nil
}

// The rows of the block read last
var (
	lastMu     sync.Mutex
	lastSize   int64
	lastBlock  int
	lastEntry  FooterEntry
	lastIDs    []uint64
	lastValues []int64
)'''), ('pkg/col/reader_block.go', '''	"fmt"
)''', '''	"fmt"
	"sync"
)''')]
demo = '''
func demo() {
	a := B{[]uint64{1, 2, 3, 4}, []int64{0, 5, 5, 10}}
	b := B{[]uint64{1, 3, 2, 4}, []int64{0, 4, 6, 10}}
	r, s := open(put("a", 0, 0, a)), open(put("b", 0, 0, b))
	same(rows(r), []B{a})
	same(rows(s), []B{b})
}
'''
