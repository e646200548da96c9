prop = 'C01'
needs = 'A block of more than 65535 rows, which takes a block size target above 128 KiB.'
what = 'The row count of a block is cut to 16 bits in its footer entry, so later rows of a large block are lost on reading.'
edits = [('pkg/col/writer_block_io.go', '	count := uint32(len(ids))\n', '	count := uint32(uint16(len(ids)))\n')]
demo = '''
func demo() {
	b := B{}
	for i := 0; i < 70000; i++ {
		b.ids = append(b.ids, uint64(i))
		b.vals = append(b.vals, int64(i%5))
	}
	same(rows(open(put("a", 7, 1<<24, b))), []B{b})
}
'''
