prop = 'C18'
kind = 'race'
needs = 'Two goroutines fetching the id bitmap of a caching reader at the same time.'
what = 'The cached bitmap is looked at before the lock is taken.'
edits = [('pkg/col/reader.go', '''func (r *Reader) GetGlobalIDBitmap() (*sroar.Bitmap, error) {
''', '''func (r *Reader) GetGlobalIDBitmap() (*sroar.Bitmap, error) {
	// Fast path: cached already
	if ids := r.globalIDs; ids != nil && r.cacheGlobalIDs {
		return ids, nil
	}
''')]
demo = '''
import "sync"

func demo() {
	for k := 0; k < 50; k++ {
		r := open(put("a", 7, 0, B{[]uint64{1, 2, 3}, []int64{1, 2, 3}}))
		r.EnableGlobalIDBitmapCaching()
		var wg sync.WaitGroup
		for g := 0; g < 4; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				b, err := r.GetGlobalIDBitmap()
				must(err)
				eq(b.GetCardinality(), 3, "ids")
			}()
		}
		wg.Wait()
	}
}
'''
