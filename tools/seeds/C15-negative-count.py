prop = 'C15'
needs = 'An id section holding a number of more than ten bytes, for which the decoder returns a negative count.'
what = 'Only a zero result of the number decoder counts as an error: an overlong number moves the offset backwards.'
edits = [('pkg/col/reader_decode.go', '		if n <= 0 {\n			return nil, fmt.Errorf("failed to decode uvarint', '		if n == 0 {\n			return nil, fmt.Errorf("failed to decode uvarint')]
demo = '''
import (
	"encoding/binary"
	"os"
)

func demo() {
	p := put("a", 4, 0, B{[]uint64{1, 2}, []int64{3, 4}})
	b, err := os.ReadFile(p)
	must(err)
	binary.LittleEndian.PutUint32(b[128+4:], 12)
	binary.LittleEndian.PutUint32(b[128+8:], 12)
	for i := 0; i < 12; i++ {
		b[144+i] = 0xff
	}
	must(os.WriteFile(p, b, 0o644))
	if ids, _, err := open(p).GetPairs(0); err == nil {
		bad("invented ids %v", ids)
	}
}
'''
