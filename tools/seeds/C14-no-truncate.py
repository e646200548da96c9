prop = 'C14'
needs = 'A longer complete file under the same name, rewritten by a writer that dies before it reaches the old footer.'
what = 'Creating a file does not truncate what was there: after a crash the old footer serves a mixture of old and new data.'
edits = [('pkg/col/writer.go', 'file, err := os.Create(filename)', 'file, err := os.OpenFile(filename, os.O_RDWR|os.O_CREATE, 0o666)')]
demo = '''
import "vibe-lsm/pkg/col"

func demo() {
	p := put("a", 0, 0, B{[]uint64{1, 2}, []int64{1, 2}}, B{[]uint64{3}, []int64{3}}, B{[]uint64{4}, []int64{4}})
	w, err := col.NewWriter(p)
	must(err)
	w.Close() // died here
	if r, err := col.NewReader(p); err == nil {
		bad("an unfinished file opens with %d blocks", r.BlockCount())
	}
}
'''
