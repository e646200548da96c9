prop = 'C23'
kind = ''
needs = 'A file is replaced by one of the same name and size, and both are read with bitmap caching.'
what = 'Cached id bitmaps are shared between readers of the same name and size: the new file is given the ids of the former.'
edits = [('pkg/col/reader.go', '''	// Only cache if enabled
	if r.cacheGlobalIDs {
		r.globalIDs = bitmap
	}

	return bitmap, nil
}''', '''	// Only cache if enabled
	if r.cacheGlobalIDs {
		r.globalIDs = bitmap
		sharedIDs.Store(bitmapKey{r.file.Name(), r.fileSize}, bitmap)
	}

	return bitmap, nil
}

// bitmapKey identifies a file whose bitmap has been read
type bitmapKey struct {
	name string
	size int64
}

// sharedIDs holds the bitmaps read by caching readers
var sharedIDs sync.Map
'''), ('pkg/col/reader.go', '''	// Read the bitmap size (first 4 bytes)
''', '''	// Another reader of the file may have read it
	if r.cacheGlobalIDs {
		if b, ok := sharedIDs.Load(bitmapKey{r.file.Name(), r.fileSize}); ok {
			r.globalIDs = b.(*sroar.Bitmap)
			return r.globalIDs, nil
		}
	}

	// Read the bitmap size (first 4 bytes)
''')]
demo = '''
func demo() {
	for _, id := range []uint64{3, 5} {
		r := open(put("a", 0, 0, B{[]uint64{id, 9}, []int64{1, 2}}))
		r.EnableGlobalIDBitmapCaching()
		b, err := r.GetGlobalIDBitmap()
		must(err)
		if !b.Contains(id) {
			bad("id %d is missing", id)
		}
		must(r.Close())
	}
}
'''
