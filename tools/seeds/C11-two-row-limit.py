prop = 'C11'
needs = 'A submission of which exactly all but the last row fit, with a target below one row.'
what = 'The search for the longest prefix starts at two rows, so a target that only one row fits (or none) gets two.'
edits = [('pkg/col/writer_block_io.go', '''		var optimal int = 1

		// Try each size from 1 to len(ids)-1
		for i := 1; i < len(ids); i++ {
''', '''		var optimal int = 2

		// Try each size from 2 to len(ids)-1
		for i := 2; i < len(ids); i++ {
''')]
demo = '''
import "vibe-lsm/pkg/col"

func demo() {
	w, err := col.NewWriter(file("a"), col.WithBlockSize(100))
	must(err)
	err = w.WriteBlock([]uint64{1, 2, 3}, []int64{1, 2, 3})
	e, ok := err.(*col.BlockFullError)
	if !ok || e.ItemsWritten != 1 {
		bad("%v", err)
	}
}
'''
