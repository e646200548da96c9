prop = 'C02'
needs = 'One unsorted batch with ids on both sides of 2^63.'
what = 'The simple writer orders ids as signed integers, so rows of a batch are not stored in ascending id order.'
edits = [('pkg/col/simple_writer.go', 'return pairs[i].ID < pairs[j].ID', 'return int64(pairs[i].ID) < int64(pairs[j].ID)')]
demo = '''
import "vibe-lsm/pkg/col"

func demo() {
	w, err := col.NewSimpleWriter(file("a"))
	must(err)
	must(w.Write([]uint64{9, 1 << 63, 3}, []int64{90, 1, 30}))
	must(w.Close())
	same(rows(open(file("a"))), []B{{[]uint64{3, 9, 1 << 63}, []int64{30, 90, 1}}})
}
'''
