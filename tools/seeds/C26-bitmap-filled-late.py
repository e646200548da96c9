prop = 'C26'
needs = 'An id bitmap of more than a page, and a power loss before the last sync that loses a sector of it.'
what = 'The place of a large id bitmap is reserved first and filled after the sync that is meant to precede the magic number, so the file may open with a damaged id bitmap.'
edits = [('pkg/col/writer_finalize.go', '''	// Write the bitmap data
	if _, err := w.file.Write(buf); err != nil {
		return 0, 0, fmt.Errorf("failed to write bitmap data: %w", err)
	}
''', '''	// Write the bitmap data; a large one is filled in when the layout is settled
	if len(buf) > int(PageSize) {
		if _, err := w.file.Write(make([]byte, len(buf))); err != nil {
			return 0, 0, fmt.Errorf("failed to reserve space for bitmap data: %w", err)
		}
		w.lateBitmap = buf
	} else if _, err := w.file.Write(buf); err != nil {
		return 0, 0, fmt.Errorf("failed to write bitmap data: %w", err)
	}
'''), ('pkg/col/writer_finalize.go', '''	if err := binary.Write(w.file, binary.LittleEndian, MagicNumber); err != nil {
''', '''	if w.lateBitmap != nil {
		if _, err := w.file.WriteAt(w.lateBitmap, int64(bitmapOffset)+4); err != nil {
			return fmt.Errorf("failed to write bitmap data: %w", err)
		}
		w.lateBitmap = nil
	}
	if err := binary.Write(w.file, binary.LittleEndian, MagicNumber); err != nil {
'''), ('pkg/col/writer.go', '''type Writer struct {
''', '''type Writer struct {
	lateBitmap []byte // bitmap data still to be written
''')]
kind = 'fos'
demo = '''

import (
	"bytes"
	"os"

	"vibe-lsm/pkg/col"
	"vibe-lsm/zzfos"
)

const sector = 512

// loss writes a file and checks what is left of it when a power loss just
// before a sync, or after the end, undoes one sector since the last sync.
func loss(fill func(w *col.Writer) []B) {
	fn := file("a")
	var last []byte
	type pair struct{ before, after []byte }
	var hist []pair
	note := func() {
		cur, err := os.ReadFile(fn)
		must(err)
		hist = append(hist, pair{last, cur})
		last = cur
	}
	zzfos.Hook = func(op string, off int64, n int) error {
		if op == "sync" {
			note()
		}
		return nil
	}
	w, err := col.NewWriter(fn)
	must(err)
	want := fill(w)
	must(w.FinalizeAndClose())
	zzfos.Hook = nil
	note()
	for i, p := range hist {
		for s := 0; s < len(p.after); s += sector {
			e := s + sector
			if e > len(p.after) {
				e = len(p.after)
			}
			old := make([]byte, len(p.after))
			copy(old, p.before)
			if bytes.Equal(old[s:e], p.after[s:e]) {
				continue
			}
			img := append([]byte(nil), p.after...)
			copy(img[s:e], old[s:e])
			check(img, want, i == len(hist)-1)
		}
	}
	check(last, want, true)
}

func check(img []byte, want []B, done bool) {
	must(os.WriteFile(file("b"), img, 0o600))
	r, err := col.NewReader(file("b"))
	if err != nil {
		if done {
			bad("a finalized file is lost: %v", err)
		}
		return
	}
	defer r.Close()
	if r.BlockCount() != uint64(len(want)) {
		bad("%d blocks instead of %d", r.BlockCount(), len(want))
	}
	for i, b := range want {
		ids, vals, err := r.GetPairs(uint64(i))
		must(err)
		same([]B{{ids, vals}}, []B{b})
	}
	bm, err := r.GetGlobalIDBitmap()
	must(err)
	for _, b := range want {
		for _, id := range b.ids {
			if !bm.Contains(id) {
				bad("id %d is not in the id bitmap", id)
			}
		}
	}
}

func demo() {
	loss(func(w *col.Writer) []B {
		b := B{}
		for i := uint64(0); i < 100; i++ {
			b.ids, b.vals = append(b.ids, i<<20), append(b.vals, int64(i))
		}
		must(w.WriteBlock(b.ids, b.vals))
		return []B{b}
	})
}
'''
