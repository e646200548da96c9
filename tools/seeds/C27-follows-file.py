prop = 'C27'
needs = 'A reader opened after one finalization fetches the id bitmap after the next one.'
what = 'The place of the id bitmap is looked up in the file at every fetch, so a reader of an earlier stage gets the ids of a later one.'
edits = [('pkg/col/reader.go', 'r.readBytesAt(int64(r.header.BitmapOffset)+4, int(bitmapSize))', 'r.readBytesAt(int64(where)+4, int(bitmapSize))'), ('pkg/col/reader.go', '''	sizeBuf, err := r.readBytesAt(int64(r.header.BitmapOffset), 4)
''', '''	where, err := r.readUint64At(44)
	if err != nil {
		return nil, fmt.Errorf("failed to read bitmap offset: %w", err)
	}
	if err := r.refresh(); err != nil {
		return nil, fmt.Errorf("failed to get file info: %w", err)
	}
	sizeBuf, err := r.readBytesAt(int64(where), 4)
'''), ('pkg/col/reader.go', '''// GetGlobalIDBitmap returns the global ID bitmap from the file
''', '''// refresh learns the size of a file that has grown
func (r *Reader) refresh() error {
	info, err := r.file.Stat()
	if err == nil {
		r.fileSize = info.Size()
	}
	return err
}

// GetGlobalIDBitmap returns the global ID bitmap from the file
''')]
demo = '''
import "vibe-lsm/pkg/col"

func demo() {
	w, err := col.NewWriter(file("a"))
	must(err)
	must(w.WriteBlock([]uint64{1}, []int64{1}))
	must(w.Finalize())
	r := open(file("a"))
	must(w.WriteBlock([]uint64{2}, []int64{2}))
	must(w.FinalizeAndClose())
	bm, err := r.GetGlobalIDBitmap()
	must(err)
	if bm.Contains(2) || !bm.Contains(1) {
		bad("a reader of the first stage has the ids %v", bm.ToArray())
	}
}
'''
