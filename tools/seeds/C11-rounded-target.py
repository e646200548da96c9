prop = 'C11'
needs = 'SetTargetBlockSize of a simple writer with a size that is not a multiple of the page.'
what = 'A target block size set on a simple writer is rounded up to a page in the file, not in the answer.'
edits = [('pkg/col/simple_writer.go', '''	sw.writer.blockSizeTarget = uint32(size)
''', '''	sw.writer.blockSizeTarget = uint32(int64(size) + calculatePadding(int64(size), PageSize))
''')]
demo = '''
import "vibe-lsm/pkg/col"

func demo() {
	w, err := col.NewSimpleWriter(file("a"))
	must(err)
	must(w.SetTargetBlockSize(5000))
	b := B{}
	for i := uint64(0); i < 400; i++ {
		b.ids, b.vals = append(b.ids, i), append(b.vals, 1)
	}
	must(w.Write(b.ids, b.vals))
	must(w.Close())
	n := len(rows(open(file("a")))[0].ids)
	if n > 308 {
		bad("%d rows in the first block", n)
	}
}
'''
