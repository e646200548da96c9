prop = 'C19'
kind = 'fos'
needs = 'The first bitmap fetch of a caching reader fails and the bitmap is fetched again.'
what = 'With caching, the bitmap is loaded once: after a failed load later fetches return an empty bitmap and no error.'
edits = [('pkg/col/reader.go', '''	// Read the bitmap size (first 4 bytes)
''', '''	// Load a cached bitmap only once
	if r.cacheGlobalIDs {
		if r.loaded {
			return sroar.NewBitmap(), nil
		}
		r.loaded = true
	}

	// Read the bitmap size (first 4 bytes)
'''), ('pkg/col/reader.go', '''	cacheGlobalIDs bool // Whether to cache the global ID bitmap
''', '''	cacheGlobalIDs bool // Whether to cache the global ID bitmap
	loaded         bool
''')]
demo = '''
import (
	"errors"
	"vibe-lsm/pkg/col"
	"vibe-lsm/zzfos"
)

func demo() {
	r, err := col.NewReader(put("a", 0, 0, B{[]uint64{3, 4}, []int64{10, 20}}))
	must(err)
	r.EnableGlobalIDBitmapCaching()
	zzfos.Hook = func(op string, off int64, k int) error { return errors.New("EIO") }
	if _, err := r.GetGlobalIDBitmap(); err == nil {
		bad("a failed read gave a bitmap")
	}
	if b, err := r.GetGlobalIDBitmap(); err == nil && b.GetCardinality() != 2 {
		bad("a failed read gave a bitmap of %d ids", b.GetCardinality())
	}
}
'''
