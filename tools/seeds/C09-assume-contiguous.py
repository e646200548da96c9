prop = 'C09'
needs = 'A conforming file of another encoder whose value section does not directly follow the id section.'
what = 'The reader ignores the recorded offset of the value section and assumes it follows the ids.'
edits = [('pkg/col/reader_block.go', '	valueStart := 16 + int(valueSectionOffset)\n	valueEnd', '''	valueStart := idEnd // the value section follows the ids
	if valueSectionOffset < idSectionOffset {
		valueStart = 16 + int(valueSectionOffset)
	}
	valueEnd''')]
demo = '''
import (
	"encoding/binary"
	"os"
)

func demo() {
	p := put("a", 0, 0, B{[]uint64{3, 4}, []int64{10, 20}})
	b, err := os.ReadFile(p)
	must(err)
	// move the values 8 bytes up, as the section layout allows
	lay := b[128:144]
	if binary.LittleEndian.Uint32(lay[8:12]) != 16 {
		bad("layout moved")
	}
	binary.LittleEndian.PutUint32(lay[8:12], 24)
	copy(b[144+24:144+40], append([]byte(nil), b[144+16:144+32]...))
	must(os.WriteFile(p, b, 0o600))
	same(rows(open(p)), []B{{[]uint64{3, 4}, []int64{10, 20}}})
}
'''
