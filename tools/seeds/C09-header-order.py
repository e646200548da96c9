prop = 'C09'
needs = 'A file handed to, or taken from, another implementation of the documented format, with the delta of target and compression visible.'
what = 'Writer and reader agree on a file header whose block size target and compression fields are swapped against the format document.'
edits = [('pkg/col/writer_header.go', '''		header.BlockSizeTarget,
		header.CompressionType,
''', '''		header.CompressionType,
		header.BlockSizeTarget,
'''), ('pkg/col/writer_finalize.go', '''		header.BlockSizeTarget,
		header.CompressionType,
''', '''		header.CompressionType,
		header.BlockSizeTarget,
'''), ('pkg/col/reader_header.go', '''	// Read block size target
	r.header.BlockSizeTarget = readBufferedUint32(headerBuf, offset)
	offset += 4

	// Read compression type
	r.header.CompressionType = readBufferedUint32(headerBuf, offset)
	offset += 4
''', '''	// Read compression type
	r.header.CompressionType = readBufferedUint32(headerBuf, offset)
	offset += 4

	// Read block size target
	r.header.BlockSizeTarget = readBufferedUint32(headerBuf, offset)
	offset += 4
''')]
demo = '''
import (
	"encoding/binary"
	"os"
)

func demo() {
	b, err := os.ReadFile(put("a", 0, 8192, B{[]uint64{1}, []int64{2}}))
	must(err)
	eq(binary.LittleEndian.Uint32(b[24:]), 8192, "block size target at offset 24")
}
'''
