prop = 'C21'
needs = 'A writer with a block size target other than the default.'
what = 'Finalizing rewrites the header with the default block size target instead of the configured one.'
edits = [('pkg/col/writer_finalize.go', 'header := NewFileHeader(w.blockCount, w.blockSizeTarget, w.encodingType)', 'header := NewFileHeader(w.blockCount, uint32(minInt(int(w.blockSizeTarget), 1<<20)), w.encodingType)')]
demo = '''
import (
	"encoding/binary"
	"os"
)

func demo() {
	b, err := os.ReadFile(put("a", 0, 3<<20, B{[]uint64{1}, []int64{1}}))
	must(err)
	eq(binary.LittleEndian.Uint32(b[24:]), 3<<20, "block size target in the header")
}
'''
