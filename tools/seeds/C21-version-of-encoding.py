prop = 'C21'
needs = 'A block size target of 2^16 or more that is not a multiple of 2^16... any target above 64 KiB.'
what = 'The block size target in the header is capped at 64 KiB when the file is finalized.'
edits = [('pkg/col/writer_finalize.go', '''	header.BitmapOffset = bitmapOffset
''', '''	if header.BlockSizeTarget > 1<<16 && w.blockCount > 0 {
		header.BlockSizeTarget = 1 << 16 // the largest block written
	}
	header.BitmapOffset = bitmapOffset
''')]
demo = '''
import (
	"encoding/binary"
	"os"
)

func demo() {
	b, err := os.ReadFile(put("a", 0, 1<<20, B{[]uint64{3, 4}, []int64{10, 20}}))
	must(err)
	eq(binary.LittleEndian.Uint32(b[24:28]), 1<<20, "target")
}
'''
