prop = 'C22'
kind = 'fos'
needs = 'The sync of a block fails and the file is finalized all the same.'
what = 'The ids of a block are put into the bitmap before the block is synced, so a failed block leaves its ids behind.'
edits = [('pkg/col/writer_block_io.go', '''	// Sync to disk to ensure data consistency
	if err := w.file.Sync(); err != nil {
		return fmt.Errorf("failed to sync file: %w", err)
	}
''', '''	// The data is in place: note its ids
	w.globalIDs.SetMany(ids)

	// Sync to disk to ensure data consistency
	if err := w.file.Sync(); err != nil {
		return fmt.Errorf("failed to sync file: %w", err)
	}
''')]
demo = '''
import (
	"errors"
	"vibe-lsm/pkg/col"
	"vibe-lsm/zzfos"
)

func demo() {
	w, err := col.NewWriter(file("a"))
	must(err)
	must(w.WriteBlock([]uint64{1}, []int64{1}))
	zzfos.Hook = func(op string, off int64, n int) error {
		if op == "sync" {
			return errors.New("EIO")
		}
		return nil
	}
	if w.WriteBlock([]uint64{2}, []int64{2}) == nil {
		bad("failed sync reported as success")
	}
	zzfos.Hook = nil
	must(w.FinalizeAndClose())
	b, err := open(file("a")).GetGlobalIDBitmap()
	must(err)
	eq(b.ToArray(), []uint64{1}, "ids")
}
'''
