prop = 'C15'
needs = 'A footer that claims billions of blocks.'
what = 'The block index is allocated for the claimed number of blocks before that number is checked against the file.'
edits = [('pkg/col/reader_header.go', '''	// Read the entire block index in one call
	blockIndexBuf''', '''	// Read the whole block index in one call
	r.blockIndex = make([]FooterEntry, blockIndexCount)
	blockIndexBuf'''), ('pkg/col/reader_header.go', '''	// Parse the block index entries
	r.blockIndex = make([]FooterEntry, blockIndexCount)
	for''', '''	// Parse the block index entries
	for''')]
demo = '''
import (
	"encoding/binary"
	"os"
	"runtime"
	"vibe-lsm/pkg/col"
)

func demo() {
	p := put("a", 0, 0, B{[]uint64{1}, []int64{2}})
	b, err := os.ReadFile(p)
	must(err)
	binary.LittleEndian.PutUint32(b[len(b)-24-60:], 20000000)
	must(os.WriteFile(p, b, 0o644))
	var x, y runtime.MemStats
	runtime.ReadMemStats(&x)
	_, err = col.NewReader(p)
	runtime.ReadMemStats(&y)
	if err == nil || y.TotalAlloc-x.TotalAlloc > 1<<26 {
		bad("opening a file of %d bytes allocated %d bytes", len(b), y.TotalAlloc-x.TotalAlloc)
	}
}
'''
