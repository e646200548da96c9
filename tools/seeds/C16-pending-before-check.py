prop = 'C16'
needs = 'A rejected batch with more ids than values, followed by a successful close.'
what = 'The ids of a mismatched batch are queued before the lengths are compared, so the rejected call changes what is stored.'
edits = [('pkg/col/simple_writer.go', '''	if len(ids) != len(values) {
		return fmt.Errorf("ids and values must have the same length")
	}

	if len(ids) == 0 {
		return nil // Nothing to write
	}
''', '''	if len(ids) == 0 && len(values) == 0 {
		return nil // Nothing to write
	}

	if len(ids) != len(values) {
		if len(sw.pendingIDs) > len(ids) && len(values) == 0 {
			// Nothing to pair the IDs with: write what is pending
			_ = sw.flushIfNeeded(true)
			sw.totalItems += uint64(len(ids))
		}
		return fmt.Errorf("ids and values must have the same length")
	}
''')]
demo = '''
import "vibe-lsm/pkg/col"

func demo() {
	w, err := col.NewSimpleWriter(file("a"))
	must(err)
	must(w.Write([]uint64{1, 2, 3}, []int64{1, 2, 3}))
	if w.Write([]uint64{9}, nil) == nil {
		bad("mismatched slices were accepted")
	}
	must(w.Write([]uint64{4}, []int64{4}))
	must(w.Close())
	eq(w.TotalItems(), 4, "items reported")
}
'''
