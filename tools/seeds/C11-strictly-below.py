prop = 'C11'
needs = 'A block that is cut although a longer prefix would occupy exactly the target size.'
what = 'A prefix that exactly reaches the target does not count as fitting, so the stored prefix is not the longest.'
edits = [('pkg/col/writer_block_io.go', '''			if size <= uint64(w.blockSizeTarget) {
				optimal = i
''', '''			if size < uint64(w.blockSizeTarget) {
				optimal = i
''')]
demo = '''
import (
	"errors"
	"vibe-lsm/pkg/col"
)

func demo() {
	w, err := col.NewWriter(file("a"), col.WithBlockSize(4032))
	must(err)
	var b B
	for i := 0; i < 400; i++ {
		b.ids = append(b.ids, uint64(i))
		b.vals = append(b.vals, 1)
	}
	var full *col.BlockFullError
	if err := w.WriteBlock(b.ids, b.vals); !errors.As(err, &full) {
		bad("block not full: %v", err)
	}
	eq(full.ItemsWritten, (4032-80)/16, "rows stored")
}
'''
