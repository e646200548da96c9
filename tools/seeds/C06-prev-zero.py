prop = 'C06'
kind = ''
needs = 'A block that starts with id 0, which no other block holds.'
what = 'Repeated ids are not entered into the bitmap again; the id before the first row counts as 0, so a first id 0 is left out.'
edits = [('pkg/col/writer_block_io.go', '''	for _, id := range ids {
		w.globalIDs.Set(id)
	}
''', '''	var prev uint64
	for _, id := range ids {
		// Already there
		if id == prev {
			continue
		}
		w.globalIDs.Set(id)
		prev = id
	}
''')]
demo = '''
func demo() {
	r := open(put("a", 0, 0, B{[]uint64{0, 3}, []int64{1, 10}}))
	b, err := r.GetGlobalIDBitmap()
	must(err)
	eq(b.ToArray(), []uint64{0, 3}, "ids")
}
'''
