prop = 'C16'
needs = 'A batch with more values than ids.'
what = 'Values beyond the ids are silently dropped instead of being rejected.'
edits = [('pkg/col/simple_writer.go', '''	if len(ids) != len(values) {
		return''', '''	if n := len(ids); n > 0 && n < len(values) && sw.totalItems > 0 {
		values = values[:n]
	}
	if len(values) != len(ids) {
		return''')]
demo = '''
import "vibe-lsm/pkg/col"

func demo() {
	w, err := col.NewSimpleWriter(file("a"))
	must(err)
	var b B
	for i := 0; i < 1000; i++ {
		b.ids = append(b.ids, uint64(i))
		b.vals = append(b.vals, 1)
	}
	must(w.Write(b.ids, b.vals))
	if w.Write([]uint64{1}, []int64{1, 2}) == nil {
		bad("mismatched slices were accepted")
	}
}
'''
