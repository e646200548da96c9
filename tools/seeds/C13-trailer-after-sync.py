prop = 'C13'
kind = 'fos'
needs = 'Nothing fails; the trailer is still in memory when the machine loses power after the file was closed.'
what = 'The final sync comes before the trailer is written, so the finalized file is not fully synced.'
edits = [('pkg/col/writer_finalize.go', '''	// Write footer metadata
	if err''', '''	// The index is complete: flush it before the trailer vouches for it
	if err := w.file.Sync(); err != nil {
		return fmt.Errorf("failed to sync file during finalization: %w", err)
	}

	// Write footer metadata
	if err'''), ('pkg/col/writer_finalize.go', '''	// Final sync to ensure everything is written to disk
	if err := w.file.Sync(); err != nil {
		return fmt.Errorf("failed to sync file during finalization: %w", err)
	}

	return nil
''', '''	return nil
''')]
demo = '''
import (
	"vibe-lsm/pkg/col"
	"vibe-lsm/zzfos"
)

func demo() {
	w, err := col.NewWriter(file("a"))
	must(err)
	must(w.WriteBlock([]uint64{1}, []int64{1}))
	last := ""
	zzfos.Hook = func(op string, off int64, n int) error {
		if op == "sync" || op == "write" {
			last = op
		}
		return nil
	}
	must(w.FinalizeAndClose())
	eq(last, "sync", "last operation on the file")
}
'''
