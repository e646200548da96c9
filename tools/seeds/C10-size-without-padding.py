prop = 'C10'
needs = 'Any block that does not end on a page boundary, looked at through the index by something that relies on the recorded size.'
what = 'The size recorded for a block leaves out its padding.'
edits = [('pkg/col/writer_block_io.go', '''		blockSize += uint64(padding)
''', ''), ('pkg/col/writer_block_io.go', 'blockSizeDifference := (blockSize - uint64(padding)) - expectedBlockSize', 'blockSizeDifference := blockSize - expectedBlockSize')]
demo = '''
import "strings"

func demo() {
	i := open(put("a", 0, 0, B{[]uint64{1}, []int64{-7}})).DebugInfo()
	if !strings.Contains(i, "Size=4032") {
		bad("block size without padding: %s", i)
	}
}
'''
