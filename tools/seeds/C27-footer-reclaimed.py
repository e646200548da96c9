prop = 'C27'
needs = 'A reader opened after one finalization that fetches the id bitmap after the writer went on.'
what = 'The bitmap and footer of the former stage are cut off before the next block is written, so a reader opened at that stage finds something else in their place.'
edits = [('pkg/col/writer_block_io.go', '''	// Calculate statistics for the block using ORIGINAL values, not encoded values
''', '''	// A former finalization left a footer behind the last block: reuse its space
	if n := len(w.blockPositions); n > 0 {
		end := int64(w.blockPositions[n-1]) + int64(w.blockSizes[n-1])
		if at, err := w.file.Seek(0, io.SeekEnd); err == nil && at > end {
			if err := w.file.Truncate(end); err != nil {
				return fmt.Errorf("failed to reclaim footer space: %w", err)
			}
		}
	}

	// Statistics for the block are of ORIGINAL values, not encoded values
''')]
demo = '''
import "vibe-lsm/pkg/col"

func demo() {
	w, err := col.NewWriter(file("a"))
	must(err)
	must(w.WriteBlock([]uint64{1}, []int64{1}))
	must(w.Finalize())
	r := open(file("a"))
	must(w.WriteBlock([]uint64{2}, []int64{2}))
	must(w.FinalizeAndClose())
	bm, err := r.GetGlobalIDBitmap()
	must(err)
	eq(bm.GetCardinality(), 1, "ids")
	eq(bm.Contains(1), true, "id 1")
}
'''
