prop = 'C08'
needs = 'A section that ends within a number, after its first byte.'
what = 'The two-byte fast path of the varint decoder looks at the second byte without checking that it is there.'
edits = [('pkg/col/encoding.go', '''	var result uint64
	var shift uint
	var bytesRead int

''', '''	// Most numbers take one or two bytes
	if len(data) > 0 && data[0] >= 0x80 && data[1] < 0x80 {
		return uint64(data[0]&0x7F) | uint64(data[1])<<7, 2
	}

	var (
		result    uint64
		shift     uint
		bytesRead int
	)

''')]
demo = '''
import (
	"encoding/binary"
	"os"
)

func demo() {
	p := put("a", 4, 0, B{[]uint64{1}, []int64{3}})
	b, err := os.ReadFile(p)
	must(err)
	v := 144 + int(binary.LittleEndian.Uint32(b[128+8:]))
	b[v] = 0x80 // the only value is cut short, and so is the block
	binary.LittleEndian.PutUint32(b[len(b)-24-56+8:], uint32(v+1-64))
	must(os.WriteFile(p, b, 0o644))
	if _, _, err := open(p).GetPairs(0); err == nil {
		bad("a value cut short was read")
	}
}
'''
