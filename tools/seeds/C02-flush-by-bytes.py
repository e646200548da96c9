prop = 'C02'
needs = 'A batch that arrives when rows are pending whose largest id is smaller than the batch\'s smallest: and one that is not.'
what = 'Pending rows are merged with a new batch by id order when the batch starts below the last pending id, so batches do not stay in submission order.'
edits = [('pkg/col/simple_writer.go', '''	// Check if we have enough data to write a block
	return sw.flushIfNeeded(false)
''', '''	// Keep the pending rows ordered for the delta encodings
	if n := len(sw.pendingIDs); n > len(newIDs) && n < 1000 && sw.pendingIDs[n-len(newIDs)-1] > newIDs[0] && sw.writer.IsDelta() {
		sortByID(sw.pendingIDs, sw.pendingValues)
	}

	// Check if we have enough data to write a block
	return sw.flushIfNeeded(false)
'''), ('pkg/col/writer_finalize.go', '''// Close closes the file without finalizing it
''', '''// IsDelta returns whether ids are delta encoded
func (w *Writer) IsDelta() bool {
	return w.encodingType == EncodingDeltaID || w.encodingType == EncodingDeltaBoth
}

// Close closes the file without finalizing it
''')]
demo = '''
import "vibe-lsm/pkg/col"

func demo() {
	w, err := col.NewSimpleWriter(file("a"), col.WithEncoding(col.EncodingDeltaBoth))
	must(err)
	must(w.Write([]uint64{5, 6}, []int64{50, 60}))
	must(w.Write([]uint64{1, 5}, []int64{10, 51}))
	must(w.Close())
	same(rows(open(file("a"))), []B{{[]uint64{5, 6, 1, 5}, []int64{50, 60, 10, 51}}})
}
'''
