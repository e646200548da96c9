prop = 'C06'
needs = 'Bitmap caching enabled on a reader, a multi-file aggregate over it, and the bitmap fetched again afterwards.'
what = 'The ids of newer files are merged in place into the bitmap a reader caches, so its id bitmap no longer is the set of its ids.'
edits = [('pkg/multicol/aggregate.go', 'denyBitmap = denyBitmap.Or(globalIDs)', 'denyBitmap = globalIDs.Or(denyBitmap)')]
demo = '''
import (
	"vibe-lsm/pkg/col"
	"vibe-lsm/pkg/multicol"
)

func demo() {
	a := open(put("a", 0, 0, B{[]uint64{1}, []int64{1}}))
	b := open(put("b", 0, 0, B{[]uint64{2}, []int64{2}}))
	a.EnableGlobalIDBitmapCaching()
	_, err := multicol.NewMultiReader([]*col.Reader{a, b}).Aggregate(multicol.AggregateOptions{})
	must(err)
	g, err := a.GetGlobalIDBitmap()
	must(err)
	eq(g.ToArray(), []uint64{1}, "ids of the first file")
}
'''
