prop = 'C09'
needs = 'A file written elsewhere with the value section placed before the id section, or read elsewhere: the recorded section offsets matter.'
what = 'The reader takes the value section to follow the id section and ignores the recorded offset.'
edits = [('pkg/col/reader_block.go', '''	valueStart := 16 + int(valueSectionOffset)
''', '''	valueStart := idEnd // the value section follows the ID section
	_ = valueSectionOffset
''')]
demo = '''
import (
	"encoding/binary"
	"os"
)

func demo() {
	p := put("a", 0, 0, B{[]uint64{11, 12}, []int64{21, 22}})
	b, err := os.ReadFile(p)
	must(err)
	// the same block with the value section first: layout at 64+64, data at +16
	l := b[128:]
	d := b[144:]
	var s [32]byte
	copy(s[:16], d[16:32])
	copy(s[16:], d[:16])
	copy(d, s[:])
	binary.LittleEndian.PutUint32(l[0:], 16)
	binary.LittleEndian.PutUint32(l[8:], 0)
	must(os.WriteFile(p, b, 0o644))
	same(rows(open(p)), []B{{[]uint64{11, 12}, []int64{21, 22}}})
}
'''
