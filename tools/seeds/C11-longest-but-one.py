prop = 'C11'
needs = 'A submission of which all rows but the last fit the target.'
what = 'The longest proper prefix is never tried, so one row less than possible is stored when all but the last fit.'
edits = [('pkg/col/writer_block_io.go', 'for i := 1; i < len(ids); i++ {\n			size, err', 'for i := 1; i+1 < len(ids); i++ {\n			size, err')]
demo = '''
import (
	"errors"
	"vibe-lsm/pkg/col"
)

func demo() {
	w, err := col.NewWriter(file("a"), col.WithBlockSize(4032))
	must(err)
	var b B
	for i := 0; i < 248; i++ {
		b.ids = append(b.ids, uint64(i))
		b.vals = append(b.vals, 1)
	}
	var full *col.BlockFullError
	if err := w.WriteBlock(b.ids, b.vals); !errors.As(err, &full) {
		bad("block not full: %v", err)
	}
	eq(full.ItemsWritten, 247, "rows stored")
}
'''
