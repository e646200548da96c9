prop = 'C23'
kind = ''
needs = 'A writer with a small block size target is created before one without a target, which is given more rows than fit the small one.'
what = 'The block size option changes the default of writers created later.'
edits = [('pkg/col/writer.go', '''		blockSizeTarget: defaultBlockSize,
''', '''		blockSizeTarget: lastBlockSize,
'''), ('pkg/col/writer.go', '''	// Apply options
	for _, option := range options {
		option(writer)
	}
''', '''	// Apply options
	for _, option := range options {
		option(writer)
	}
	if writer.blockSizeTarget < lastBlockSize && int64(writer.blockSizeTarget) >= PageSize {
		lastBlockSize = writer.blockSizeTarget
	}
'''), ('pkg/col/writer.go', '''// NewWriter creates a new column file writer
''', '''// lastBlockSize is the target block size in use
var lastBlockSize uint32 = defaultBlockSize

// NewWriter creates a new column file writer
''')]
demo = '''
func demo() {
	put("a", 0, 4096, B{[]uint64{1}, []int64{1}})
	b := B{make([]uint64, 500), make([]int64, 500)}
	r := open(put("b", 0, 0, b))
	eq(r.BlockCount(), 1, "blocks")
	same(rows(r), []B{b})
}
'''
