prop = 'C11'
needs = 'A first block that ends within 64 bytes of a page boundary.'
what = 'The estimate pads the size of the block instead of its end, which is wrong for a block that does not start on a page.'
edits = [('pkg/col/writer_block_io.go', '	padding := calculatePadding(blockEnd, PageSize)\n	if padding > 0 {\n		totalSize', '	padding := calculatePadding(int64(totalSize), PageSize)\n	if blockEnd%PageSize > 64 {\n		padding = calculatePadding(blockEnd, PageSize)\n	}\n	if padding > 0 {\n		totalSize')]
demo = '''
import "vibe-lsm/pkg/col"

func demo() {
	for n := 245; n < 255; n++ {
		w, err := col.NewWriter(file("a"), col.WithBlockSize(1<<20))
		must(err)
		var b B
		for i := 0; i < n; i++ {
			b.ids = append(b.ids, uint64(i))
			b.vals = append(b.vals, 1)
		}
		e, err := w.EstimateBlockSize(b.ids, b.vals)
		must(err)
		must(w.WriteBlock(b.ids, b.vals))
		after, err := w.EstimateBlockSize(b.ids[:1], b.vals[:1])
		must(err)
		eq(after, 4096, "later estimate")
		must(w.FinalizeAndClose())
		end := uint64(64+80+16*n+4095) &^ 4095
		eq(e, end-64, "estimate")
	}
}
'''
