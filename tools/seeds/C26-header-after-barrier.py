prop = 'C26'
needs = 'A power loss before the last sync, with the trailer on disk and the header sector not.'
what = 'The header is rewritten after the sync that is meant to precede the magic number, so the trailer may reach the disk without the header: the file opens and has no id bitmap.'
edits = [('pkg/col/writer_finalize.go', '''	for i, field := range headerFields {
		if err := binary.Write(w.file, binary.LittleEndian, field); err != nil {
			return fmt.Errorf("failed to write header field %d: %w", i, err)
		}
	}
	// Skip the rest of the header - unchanged fields
''', '''	writeHeader := func() error {
		for i, field := range headerFields {
			if err := binary.Write(w.file, binary.LittleEndian, field); err != nil {
				return fmt.Errorf("failed to write header field %d: %w", i, err)
			}
		}
		return nil
	}
'''), ('pkg/col/writer_finalize.go', '''	if err := binary.Write(w.file, binary.LittleEndian, MagicNumber); err != nil {
''', '''	// Update the header now that everything it points at is on disk
	if _, err := w.file.Seek(0, io.SeekStart); err != nil {
		return fmt.Errorf("failed to seek to start: %w", err)
	}
	if err := writeHeader(); err != nil {
		return err
	}
	if _, err := w.file.Seek(0, io.SeekEnd); err != nil {
		return fmt.Errorf("failed to seek to end: %w", err)
	}
	if err := binary.Write(w.file, binary.LittleEndian, MagicNumber); err != nil {
''')]
kind = 'fos'
demo = '''

import (
	"bytes"
	"os"

	"vibe-lsm/pkg/col"
	"vibe-lsm/zzfos"
)

const sector = 512

// loss writes a file and checks what is left of it when a power loss just
// before a sync, or after the end, undoes one sector since the last sync.
func loss(fill func(w *col.Writer) []B) {
	fn := file("a")
	var last []byte
	type pair struct{ before, after []byte }
	var hist []pair
	note := func() {
		cur, err := os.ReadFile(fn)
		must(err)
		hist = append(hist, pair{last, cur})
		last = cur
	}
	zzfos.Hook = func(op string, off int64, n int) error {
		if op == "sync" {
			note()
		}
		return nil
	}
	w, err := col.NewWriter(fn)
	must(err)
	want := fill(w)
	must(w.FinalizeAndClose())
	zzfos.Hook = nil
	note()
	for i, p := range hist {
		for s := 0; s < len(p.after); s += sector {
			e := s + sector
			if e > len(p.after) {
				e = len(p.after)
			}
			old := make([]byte, len(p.after))
			copy(old, p.before)
			if bytes.Equal(old[s:e], p.after[s:e]) {
				continue
			}
			img := append([]byte(nil), p.after...)
			copy(img[s:e], old[s:e])
			check(img, want, i == len(hist)-1)
		}
	}
	check(last, want, true)
}

func check(img []byte, want []B, done bool) {
	must(os.WriteFile(file("b"), img, 0o600))
	r, err := col.NewReader(file("b"))
	if err != nil {
		if done {
			bad("a finalized file is lost: %v", err)
		}
		return
	}
	defer r.Close()
	if r.BlockCount() != uint64(len(want)) {
		bad("%d blocks instead of %d", r.BlockCount(), len(want))
	}
	for i, b := range want {
		ids, vals, err := r.GetPairs(uint64(i))
		must(err)
		same([]B{{ids, vals}}, []B{b})
	}
	bm, err := r.GetGlobalIDBitmap()
	must(err)
	for _, b := range want {
		for _, id := range b.ids {
			if !bm.Contains(id) {
				bad("id %d is not in the id bitmap", id)
			}
		}
	}
}

func demo() {
	loss(func(w *col.Writer) []B {
		b := B{ids: []uint64{4, 9}, vals: []int64{1, 2}}
		must(w.WriteBlock(b.ids, b.vals))
		return []B{b}
	})
}
'''
