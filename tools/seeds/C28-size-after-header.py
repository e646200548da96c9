prop = 'C28'
needs = 'The writer finalizes between the read of the header and the query of the file size.'
what = 'The file size is asked for after the header is read, so a file finalized in between opens with the header of an unfinished one: it has no id bitmap.'
edits = [('pkg/col/reader.go', '''	// Get file size immediately as we'll need it for various offset calculations
	fileInfo, err := file.Stat()
	if err != nil {
		file.Close()
		return nil, fmt.Errorf("failed to get file info: %w", err)
	}
	fileSize := fileInfo.Size()

	reader := &Reader{
		file:           file,
		fileSize:       fileSize,
		cacheGlobalIDs: false, // Caching is off by default
	}
''', '''	reader := &Reader{
		file:           file,
		fileSize:       headerSize, // until we know better
		cacheGlobalIDs: false,      // Caching is off by default
	}
'''), ('pkg/col/reader.go', '''	// Read the footer
	if err := reader.readFooter()''', '''	// Get file size as we'll need it for various offset calculations
	fileInfo, err := file.Stat()
	if err != nil {
		file.Close()
		return nil, fmt.Errorf("failed to get file info: %w", err)
	}
	reader.fileSize = fileInfo.Size()

	// Read the footer
	if err := reader.readFooter()''')]
kind = 'fos'
demo = '''

import (
	"vibe-lsm/pkg/col"
	"vibe-lsm/zzfos"
)

// try opens a file whose writer finalizes just before the k-th operation of the reader.
func try(k int) (more bool) {
	w, err := col.NewWriter(file("a"))
	must(err)
	must(w.WriteBlock([]uint64{1, 2}, []int64{5, 6}))
	n := 0
	zzfos.Solo = func(op string) error {
		if n++; n-1 == k {
			h := zzfos.Solo
			zzfos.Solo = nil
			must(w.FinalizeAndClose())
			zzfos.Solo = h
		}
		return nil
	}
	r, err := col.NewReader(file("a"))
	zzfos.Solo = nil
	if n > k {
		more = true
	} else {
		must(w.Close())
	}
	if err != nil {
		return more
	}
	same(rows(r), []B{{[]uint64{1, 2}, []int64{5, 6}}})
	bm, err := r.GetGlobalIDBitmap()
	must(err)
	eq(bm.GetCardinality(), 2, "ids in the bitmap")
	must(r.Close())
	return more
}

func demo() {
	for k := 0; try(k); k++ {
	}
}

'''
