prop = 'C15'
needs = 'A damaged block layout whose id section reaches beyond the block while the value section lies within it.'
what = 'Only the end of the value section is checked, so a damaged id section makes the reader panic.'
edits = [('pkg/col/reader_block.go', 'if idEnd > len(blockData) || valueEnd > len(blockData) {', 'if max(valueEnd, min(idEnd, valueEnd)) > len(blockData) {')]
demo = '''
import (
	"encoding/binary"
	"os"
)

func demo() {
	for _, id := range []uint32{4000, 4100, 1 << 30} {
		p := put("a", 0, 0, B{[]uint64{11, 12}, []int64{21, 22}})
		b, err := os.ReadFile(p)
		must(err)
		binary.LittleEndian.PutUint32(b[128+4:], id)
		must(os.WriteFile(p, b, 0o644))
		r := open(p)
		r.GetPairs(0)
		r.Close()
	}
}
'''
