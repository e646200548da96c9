prop = 'C21'
kind = ''
needs = 'A block size target above a page that is no multiple of 512.'
what = 'The block size option rounds the target down, so the header does not report the configured one.'
edits = [('pkg/col/writer_options.go', '''		w.blockSizeTarget = blockSize
''', '''		// Whole multiples of a page only, from a page on
		if blockSize > 4096 {
			blockSize -= blockSize % 512
		}
		w.blockSizeTarget = blockSize
''')]
demo = '''
import (
	"encoding/binary"
	"os"
)

func demo() {
	d, err := os.ReadFile(put("a", 0, 5000, B{[]uint64{3}, []int64{1}}))
	must(err)
	eq(binary.LittleEndian.Uint32(d[24:]), 5000, "block size target")
}
'''
