prop = 'C13'
kind = 'fos'
needs = 'A crash after finalizing a file, or a failing sync, when the header and footer were written after the last block.'
what = 'The final sync is left out because each block was synced, so the footer may not be on disk after success.'
edits = [('pkg/col/writer_finalize.go', '''	if err := w.file.Sync(); err != nil {
		return fmt.Errorf("failed to sync file during finalization: %w", err)
	}
''', '''	if w.blockCount == 0 {
		// Blocks were synced as they were written
		if err := w.file.Sync(); err != nil {
			return fmt.Errorf("failed to sync file during finalization: %w", err)
		}
	}
''')]
demo = '''
import (
	"vibe-lsm/pkg/col"
	"vibe-lsm/zzfos"
)

func demo() {
	w, err := col.NewWriter(file("a"))
	must(err)
	must(w.WriteBlock([]uint64{1}, []int64{1}))
	dirty := false
	zzfos.Hook = func(op string, off int64, n int) error {
		if op == "write" {
			dirty = true
		} else if op == "sync" {
			dirty = false
		}
		return nil
	}
	must(w.FinalizeAndClose())
	if dirty {
		bad("success without a sync after the last write")
	}
}
'''
