prop = 'C27'
needs = 'A finalized file, a further block whose write fails, and then FinalizeAndClose.'
what = 'FinalizeAndClose does not finalize again when no block was added since, although a failed block write has left its rest behind the footer, so the file no longer opens.'
edits = [('pkg/col/writer_finalize.go', '''func (w *Writer) FinalizeAndClose() error {
	if err := w.Finalize(); err != nil {
		return err
	}
''', '''func (w *Writer) FinalizeAndClose() error {
	if !w.finalized || w.finalizedBlocks != w.blockCount {
		if err := w.Finalize(); err != nil {
			return err
		}
	}
'''), ('pkg/col/writer_finalize.go', '''	// Final sync to ensure everything is written to disk
	if err := w.file.Sync(); err != nil {
		return fmt.Errorf("failed to sync file during finalization: %w", err)
	}
''', '''	// Final sync to ensure everything is written to disk
	if err := w.file.Sync(); err != nil {
		return fmt.Errorf("failed to sync file during finalization: %w", err)
	}
	w.finalized, w.finalizedBlocks = true, w.blockCount
'''), ('pkg/col/writer.go', '''type Writer struct {
''', '''type Writer struct {
	finalized       bool
	finalizedBlocks uint64
''')]
kind = 'fos'
demo = '''
import (
	"errors"
	"vibe-lsm/pkg/col"
	"vibe-lsm/zzfos"
)

func demo() {
	w, err := col.NewWriter(file("a"))
	must(err)
	must(w.WriteBlock([]uint64{1}, []int64{1}))
	must(w.Finalize())
	zzfos.Hook = func(op string, off int64, n int) error {
		if op == "sync" {
			return errors.New("injected")
		}
		return nil
	}
	if w.WriteBlock([]uint64{2}, []int64{2}) == nil {
		return
	}
	zzfos.Hook = nil
	if w.FinalizeAndClose() == nil {
		same(rows(open(file("a"))), []B{{[]uint64{1}, []int64{1}}})
	}
}
'''
