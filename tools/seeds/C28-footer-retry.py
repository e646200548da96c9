prop = 'C28'
needs = 'The writer finalizes between the first and the second attempt of a reader to find the footer.'
what = 'When there is no footer yet the size of the file is asked for again and the footer is looked for once more, but the header is not read again, so the id bitmap is missing.'
edits = [('pkg/col/reader.go', '''	// Read the footer
	if err := reader.readFooter(); err != nil {
		file.Close()
''', '''	// Read the footer; the writer may be about to finish, so look twice
	err = reader.readFooter()
	if err != nil {
		if info, e := file.Stat(); e == nil && info.Size() != reader.fileSize {
			reader.fileSize = info.Size()
			err = reader.readFooter()
		}
	}
	if err != nil {
		file.Close()
''')]
kind = 'fos'
demo = '''

import (
	"vibe-lsm/pkg/col"
	"vibe-lsm/zzfos"
)

// try opens a file whose writer finalizes just before the k-th operation of the reader.
func try(k int) (more bool) {
	w, err := col.NewWriter(file("a"))
	must(err)
	must(w.WriteBlock([]uint64{1, 2}, []int64{5, 6}))
	n := 0
	zzfos.Solo = func(op string) error {
		if n++; n-1 == k {
			h := zzfos.Solo
			zzfos.Solo = nil
			must(w.FinalizeAndClose())
			zzfos.Solo = h
		}
		return nil
	}
	r, err := col.NewReader(file("a"))
	zzfos.Solo = nil
	if n > k {
		more = true
	} else {
		must(w.Close())
	}
	if err != nil {
		return more
	}
	same(rows(r), []B{{[]uint64{1, 2}, []int64{5, 6}}})
	bm, err := r.GetGlobalIDBitmap()
	must(err)
	eq(bm.GetCardinality(), 2, "ids in the bitmap")
	must(r.Close())
	return more
}

func demo() {
	for k := 0; try(k); k++ {
	}
}

'''
