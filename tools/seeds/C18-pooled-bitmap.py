prop = 'C18'
kind = 'race'
needs = 'Two id bitmaps fetched from one or several readers and used at the same time.'
what = 'The buffer of a fetched id bitmap goes back to a pool although the bitmap lives in it, so the next fetch overwrites it.'
edits = [('pkg/col/reader.go', '''	bitmapBuf, err := r.readBytesAt(int64(r.header.BitmapOffset)+4, int(bitmapSize))
	if err != nil {
		return nil, fmt.Errorf("failed to read bitmap data: %w", err)
	}

	// Create a bitmap from the buffer
	bitmap := sroar.FromBuffer(bitmapBuf)
''', '''	if int64(r.header.BitmapOffset) < 0 || int64(bitmapSize) > r.fileSize-int64(r.header.BitmapOffset)-4 {
		return nil, fmt.Errorf("failed to read bitmap data: outside the file")
	}
	scratch, _ := bitmapBuffers.Get().([]byte)
	if cap(scratch) < int(bitmapSize) {
		scratch = make([]byte, bitmapSize)
	}
	bitmapBuf := scratch[:bitmapSize]
	defer bitmapBuffers.Put(scratch)
	if _, err := r.file.ReadAt(bitmapBuf, int64(r.header.BitmapOffset)+4); err != nil {
		return nil, fmt.Errorf("failed to read bitmap data: %w", err)
	}

	// Create a bitmap from the buffer
	bitmap := sroar.FromBuffer(bitmapBuf)
'''), ('pkg/col/reader.go', '''// Reader reads a column file
''', '''// bitmapBuffers holds buffers for reading id bitmaps
var bitmapBuffers sync.Pool

// Reader reads a column file
''')]
demo = '''
import "sync"

func demo() {
	a, b := open(put("a", 0, 0, B{[]uint64{3}, []int64{1}})), open(put("b", 0, 0, B{[]uint64{4}, []int64{1}}))
	for round := 0; round < 50; round++ {
		x, err := a.GetGlobalIDBitmap()
		must(err)
		y, err := b.GetGlobalIDBitmap()
		must(err)
		var wg sync.WaitGroup
		wg.Add(1)
		go func() { defer wg.Done(); eq(y.ToArray(), []uint64{4}, "ids") }()
		wg.Wait()
		eq(x.ToArray(), []uint64{3}, "ids")
	}
}
'''
