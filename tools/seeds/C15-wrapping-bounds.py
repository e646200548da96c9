prop = 'C15'
needs = 'A damaged block whose section offset and size add up to more than 2^32.'
what = 'Section bounds are computed in 32 bits and wrap around, so the reader panics on a damaged layout.'
edits = [('pkg/col/reader_block.go', '''	idStart := 16 + int(idSectionOffset)
	idEnd := idStart + int(idSectionSize)

	valueStart := 16 + int(valueSectionOffset)
	valueEnd := valueStart + int(valueSectionSize)
''', '''	idStart := int(16 + idSectionOffset)
	idEnd := int(16 + idSectionOffset + idSectionSize)

	valueStart := int(16 + valueSectionOffset)
	valueEnd := int(16 + valueSectionOffset + valueSectionSize)
''')]
demo = '''
import (
	"encoding/binary"
	"os"
)

func demo() {
	p := put("a", 0, 0, B{[]uint64{3, 4}, []int64{10, 20}})
	b, err := os.ReadFile(p)
	must(err)
	binary.LittleEndian.PutUint32(b[136:140], 0xffffff00)
	binary.LittleEndian.PutUint32(b[140:144], 0x200)
	must(os.WriteFile(p, b, 0o600))
	ids, vals, err := open(p).GetPairs(0)
	if err == nil {
		bad("got %v %v", ids, vals)
	}
}
'''
