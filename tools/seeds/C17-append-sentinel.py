prop = 'C17'
needs = 'A caller that passes a slice with spare capacity, such as a part of a longer one.'
what = 'The simple writer appends a sentinel to the batch it is given, which overwrites the element behind it in the caller\'s array.'
edits = [('pkg/col/simple_writer.go', '''	// Create a copy of the input data to avoid modifying the caller's slices
	newIDs := make([]uint64, len(ids))
	newValues := make([]int64, len(values))
	copy(newIDs, ids)
	copy(newValues, values)
''', '''	// Create a copy of the input data to avoid modifying the caller's slices,
	// with room for the sentinel of the pending rows
	newIDs := append(ids, ^uint64(0))[:len(ids)]
	newIDs = append([]uint64(nil), newIDs...)
	newValues := make([]int64, len(values))
	copy(newValues, values)
''')]
demo = '''
import "vibe-lsm/pkg/col"

func demo() {
	w, err := col.NewSimpleWriter(file("a"))
	must(err)
	ids, vals := []uint64{1, 2, 3, 4}, []int64{1, 2, 3, 4}
	must(w.Write(ids[:2], vals[:2]))
	must(w.Write(ids[2:], vals[2:]))
	must(w.Close())
	eq(ids, []uint64{1, 2, 3, 4}, "the caller's ids")
}
'''
