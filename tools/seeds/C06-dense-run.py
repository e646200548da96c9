prop = 'C06'
needs = 'A block with a repeated id and as many rows as its id range is wide.'
what = 'A block with as many rows as its id range is wide is taken to hold every id of the range, also when an id repeats and another is missing.'
edits = [('pkg/col/writer_block_io.go', '''	// Store block statistics for footer
''', '''	if maxID-minID == uint64(len(ids))-1 && maxID > minID {
		// Consecutive ids: one run
		for id := minID + 1; id < maxID; id++ {
			w.globalIDs.Set(id)
		}
	}

	// Store block statistics for footer
''')]
demo = '''
func demo() {
	b, err := open(put("a", 0, 0, B{[]uint64{5, 5, 7}, []int64{1, 2, 3}})).GetGlobalIDBitmap()
	must(err)
	eq(b.ToArray(), []uint64{5, 7}, "ids")
}
'''
