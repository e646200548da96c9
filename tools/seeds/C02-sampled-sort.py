prop = 'C02'
kind = ''
needs = 'An unsorted batch of more than 500 rows that ascends at every eighth row.'
what = 'Large batches are only sampled to see whether they are sorted, so some unsorted batches are stored as they are.'
edits = [('pkg/col/simple_writer.go', '''	for i := 1; i < len(ids); i++ {
		if ids[i] < ids[i-1] {
			return false
		}
	}
	return true
''', '''	step := 1
	if len(ids) > 500 {
		step = 8
	}
	for i := step; i < len(ids); i += step {
		if ids[i] < ids[i-step] {
			return false
		}
	}
	return true
''')]
demo = '''
import "vibe-lsm/pkg/col"

func demo() {
	w, err := col.NewSimpleWriter(file("a"), col.WithBlockSize(1 << 20))
	must(err)
	var ids []uint64
	var vals []int64
	for i := 0; i < 600; i++ {
		ids = append(ids, uint64(i))
		vals = append(vals, int64(i))
	}
	ids[3], ids[4] = ids[4], ids[3]
	vals[3], vals[4] = vals[4], vals[3]
	must(w.Write(ids, vals))
	must(w.Close())
	b := rows(open(file("a")))[0]
	for i := range b.ids {
		eq(b.ids[i], i, "id")
		eq(b.vals[i], i, "value")
	}
}
'''
