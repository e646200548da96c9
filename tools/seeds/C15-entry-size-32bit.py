prop = 'C15'
kind = ''
needs = 'A damaged footer whose block count times 56 wraps around 32 bits to a size inside the file.'
what = 'The size of the block index is computed in 32 bits, so a damaged block count passes the check and the reader panics.'
edits = [('pkg/col/reader_header.go', '''	blockIndexSize := int(blockIndexCount) * 56
''', '''	blockIndexSize := int(blockIndexCount * 56)
''')]
demo = '''
import (
	"encoding/binary"
	"os"
	"vibe-lsm/pkg/col"
)

func demo() {
	p := put("a", 0, 0, B{[]uint64{3}, []int64{1}})
	d, err := os.ReadFile(p)
	must(err)
	n := len(d) - 24 - int(binary.LittleEndian.Uint64(d[len(d)-24:]))
	binary.LittleEndian.PutUint32(d[n:], 76695845)
	must(os.WriteFile(p, d, 0o644))
	if r, err := col.NewReader(p); err == nil {
		r.Close()
		bad("opened")
	}
}
'''
