prop = 'C17'
kind = ''
needs = 'A bitmap fetched without caching that the caller changes, and another fetch.'
what = 'The bytes of the id bitmap are kept and each fetched bitmap lives in them, so a change the caller makes to its bitmap shows in the next one.'
edits = [('pkg/col/reader.go', '''	bitmapBuf, err := r.readBytesAt(int64(r.header.BitmapOffset)+4, int(bitmapSize))
	if err != nil {
		return nil, fmt.Errorf("failed to read bitmap data: %w", err)
	}
''', '''	if r.bitmapBytes == nil {
		r.bitmapBytes, err = r.readBytesAt(int64(r.header.BitmapOffset)+4, int(bitmapSize))
		if err != nil {
			return nil, fmt.Errorf("failed to read bitmap data: %w", err)
		}
	}
	bitmapBuf := r.bitmapBytes
'''), ('pkg/col/reader.go', '''	cacheGlobalIDs bool // Whether''', '''	bitmapBytes    []byte
	cacheGlobalIDs bool // Whether''')]
demo = '''
func demo() {
	r := open(put("a", 0, 0, B{[]uint64{3, 4, 5}, []int64{1, 2, 3}}))
	b, err := r.GetGlobalIDBitmap()
	must(err)
	b.Remove(4)
	b, err = r.GetGlobalIDBitmap()
	must(err)
	eq(b.ToArray(), []uint64{3, 4, 5}, "ids")
}
'''
