prop = 'C01'
needs = 'A caller that reuses one pair of slices for two blocks of the same length and estimates or writes them in turn.'
what = 'The encoded ids are remembered per slice address and length, so a block written from a reused slice gets the ids of the previous block.'
edits = [('pkg/col/writer_block_io.go', '''	encodedIDs, encodedIdBytes, idSectionSize, err := w.encodeIDs(ids)
''', '''	encodedIDs, encodedIdBytes, idSectionSize, err := w.encodeIDsOnce(ids)
'''), ('pkg/col/writer_block_io.go', '''	_, _, idSectionSize, err := w.encodeIDs(ids)
''', '''	_, _, idSectionSize, err := w.encodeIDsOnce(ids)
'''), ('pkg/col/writer_block_io.go', '''// EstimateBlockSize calculates the exact''', '''// encodeIDsOnce encodes ids for the estimate and again for the write, once
func (w *Writer) encodeIDsOnce(ids []uint64) ([]uint64, [][]byte, uint32, error) {
	if len(ids) > 0 && w.lastIDs != nil && &ids[0] == &w.lastIDs[0] && len(ids) == len(w.lastIDs) {
		return w.lastEncoded, w.lastBytes, w.lastSize, nil
	}
	enc, bytes, size, err := w.encodeIDs(ids)
	if err == nil && len(ids) > 0 {
		w.lastIDs, w.lastEncoded, w.lastBytes, w.lastSize = ids, enc, bytes, size
	}
	return enc, bytes, size, err
}

// EstimateBlockSize calculates the exact'''), ('pkg/col/writer.go', '''	globalIDs       *sroar.Bitmap // Bitmap of all IDs in the file
}
''', '''	globalIDs       *sroar.Bitmap // Bitmap of all IDs in the file
	lastIDs         []uint64      // IDs encoded last
	lastEncoded     []uint64
	lastBytes       [][]byte
	lastSize        uint32
}
''')]
demo = '''
import "vibe-lsm/pkg/col"

func demo() {
	for _, e := range []uint32{0, 3, 7} {
		w, err := col.NewWriter(file("a"), col.WithEncoding(e))
		must(err)
		ids, vals := []uint64{1, 2, 3}, []int64{7, 8, 9}
		must(w.WriteBlock(ids, vals))
		copy(ids, []uint64{11, 12, 13})
		must(w.WriteBlock(ids, vals))
		must(w.FinalizeAndClose())
		same(rows(open(file("a"))), []B{{[]uint64{1, 2, 3}, vals}, {ids, vals}})
	}
}
'''
