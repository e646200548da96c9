prop = 'C08'
needs = 'A number of 2^29 to 2^56 whose bit length is a multiple of seven.'
what = 'Large numbers whose bit length is a multiple of seven are encoded in one byte more than needed.'
edits = [('pkg/col/encoding.go', '''	// Break the number into 7-bit chunks
	for value > 0 {
''', '''	// The size of large numbers is known from their bit length
	if value >= 1<<29 && value < 1<<56 {
		n := (bits.Len64(value) + 7) / 7
		for i := 1; i < n; i++ {
			result = append(result, byte(value)|0x80)
			value >>= 7
		}
		return append(result, byte(value))
	}

	// Break other numbers into 7-bit chunks
	for value > 0 {
'''), ('pkg/col/encoding.go', 'package col\n', 'package col\n\nimport "math/bits"\n')]
demo = '''
import (
	"encoding/binary"
	"os"
)

func demo() {
	b, err := os.ReadFile(put("a", 4, 0, B{[]uint64{1<<35 - 1}, []int64{3}}))
	must(err)
	eq(binary.LittleEndian.Uint32(b[128+4:]), 5, "size of the id section")
}
'''
