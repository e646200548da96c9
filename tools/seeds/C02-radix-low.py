prop = 'C02'
needs = 'An unsorted batch whose ids lie close together on both sides of a multiple of 2^32.'
what = 'Batches whose ids span less than 2^32 are ordered by the low 32 bits of their ids, which is wrong where the ids cross a multiple of 2^32.'
edits = [('pkg/col/simple_writer.go', '''	// Sort the pairs by ID
	sort.Slice(pairs, func(i, j int) bool {
		return pairs[i].ID < pairs[j].ID
	})
''', '''	// Sort the pairs by ID; narrow ranges compare as 32-bit numbers
	lo, hi := calculateMinMaxUint64(ids)
	narrow := hi-lo < 1<<32
	sort.Slice(pairs, func(i, j int) bool {
		if narrow {
			return uint32(pairs[i].ID) < uint32(pairs[j].ID)
		}
		return pairs[i].ID < pairs[j].ID
	})
''')]
demo = '''
import "vibe-lsm/pkg/col"

func demo() {
	w, err := col.NewSimpleWriter(file("a"))
	must(err)
	b := uint64(1) << 32
	must(w.Write([]uint64{b + 5, b - 2, b + 1}, []int64{1, 2, 3}))
	must(w.Close())
	same(rows(open(file("a"))), []B{{[]uint64{b - 2, b + 1, b + 5}, []int64{2, 3, 1}}})
}
'''
