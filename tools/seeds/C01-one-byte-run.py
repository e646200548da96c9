prop = 'C01'
kind = ''
needs = 'A variable-length block of at least 100 rows whose values all take one byte each, one of them negative.'
what = 'Sections in which every value takes one byte are decoded by a short cut that forgets the sign.'
edits = [('pkg/col/reader_decode.go', '''		values = make([]int64, count)
		offset := 0
		for i := 0; i < count; i++ {
			var bytesRead int
''', '''		values = make([]int64, count)
		offset := 0
		if count >= 100 && len(valueBytes) == count {
			// Every value takes a single byte
			for i, b := range valueBytes {
				values[i] = int64(b >> 1)
			}
			offset = count
		}
		for i := offset; i < count; i++ {
			var bytesRead int
''')]
demo = '''
import "vibe-lsm/pkg/col"

func demo() {
	var b B
	for i := 0; i < 130; i++ {
		b.ids = append(b.ids, uint64(i))
		b.vals = append(b.vals, int64(i%50)-25)
	}
	same(rows(open(put("a", col.EncodingVarInt, 0, b))), []B{b})
}
'''
