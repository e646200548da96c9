prop = 'C12'
needs = 'A reader with bitmap caching enabled, aggregated without filters before the bitmap was fetched.'
what = 'An aggregate from the stored statistics reads the id bitmap from the file to warm the cache.'
edits = [('pkg/col/reader_aggregate.go', '''	// If parallel aggregation is enabled, use it
''', '''	// Deny lists are built from the bitmap next: have it ready
	if r.cacheGlobalIDs && r.globalIDs == nil && opts.Filter == nil && opts.DenyFilter == nil {
		_, _ = r.GetGlobalIDBitmap()
	}

	// If parallel aggregation is enabled, use it
''')]
kind = 'fos'
demo = '''
import (
	"vibe-lsm/pkg/col"
	"vibe-lsm/zzfos"
)

func demo() {
	p := put("a", 0, 0, B{[]uint64{3, 4}, []int64{10, 20}})
	r, err := col.NewReader(p)
	must(err)
	r.EnableGlobalIDBitmapCaching()
	n := 0
	zzfos.Hook = func(op string, off int64, k int) error {
		n++
		return nil
	}
	r.Aggregate()
	eq(n, 0, "file operations of an aggregate from statistics")
}
'''
