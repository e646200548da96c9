prop = 'C13'
kind = 'fos'
needs = 'The write of the padding after a block fails (disk full at that point) and later writes succeed.'
what = 'A failed write of block padding is ignored.'
edits = [('pkg/col/writer_block_io.go', '''		_, err := w.file.Write(paddingBuf)
		if err != nil {
			return fmt.Errorf("failed to write padding bytes: %w", err)
		}
''', '''		if n, err := w.file.Write(paddingBuf); err != nil && n > 0 {
			return fmt.Errorf("failed to write padding bytes: %w", err)
		}
''')]
demo = '''
import (
	"errors"
	"vibe-lsm/pkg/col"
	"vibe-lsm/zzfos"
)

func demo() {
	for k := 0; k < 60; k++ {
		zzfos.Hook = nil
		w, err := col.NewWriter(file("a"))
		must(err)
		n, hit := 0, false
		zzfos.Hook = func(op string, off int64, l int) error {
			if op == "write" {
				if n++; n == k {
					hit = true
					return errors.New("ENOSPC")
				}
			}
			return nil
		}
		if w.WriteBlock([]uint64{1}, []int64{1}) == nil && hit {
			bad("failed write %d was reported as success", k)
		}
		w.Close()
	}
}
'''
