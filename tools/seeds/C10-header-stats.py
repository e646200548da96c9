prop = 'C10'
needs = 'A block with a negative minimum, looked at through its own header.'
what = 'The minimum in the block header is stored in another form than the one in the index.'
edits = [('pkg/col/writer_block_io.go', '	minValueU64 := int64ToUint64(minValue)\n', '	minValueU64 := uint64(minValue)\n')]
demo = '''
import (
	"encoding/binary"
	"os"
)

func demo() {
	b, err := os.ReadFile(put("a", 0, 0, B{[]uint64{1}, []int64{-7}}))
	must(err)
	eq(binary.LittleEndian.Uint64(b[64+16:]), uint64(1<<63|7), "minimum in the block header")
}
'''
