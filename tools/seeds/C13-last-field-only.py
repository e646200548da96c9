prop = 'C13'
kind = 'fos'
needs = 'A write of one of the header fields other than the last fails while finalizing.'
what = 'Only the error of the last header field is looked at, so a failed rewrite of the header goes unnoticed.'
edits = [('pkg/col/writer_finalize.go', '''	for i, field := range headerFields {
		if err := binary.Write(w.file, binary.LittleEndian, field); err != nil {
			return fmt.Errorf("failed to write header field %d: %w", i, err)
		}
	}
''', '''	for _, field := range headerFields {
		err = binary.Write(w.file, binary.LittleEndian, field)
	}
	if err != nil {
		return fmt.Errorf("failed to write header: %w", err)
	}
''')]
demo = '''
import (
	"errors"
	"vibe-lsm/pkg/col"
	"vibe-lsm/zzfos"
)

func demo() {
	for k := 0; k < 60; k++ {
		zzfos.Hook = nil
		w, err := col.NewWriter(file("a"))
		must(err)
		must(w.WriteBlock([]uint64{1}, []int64{1}))
		n, hit := 0, false
		zzfos.Hook = func(op string, off int64, l int) error {
			if op == "write" {
				if n++; n == k {
					hit = true
					return errors.New("EIO")
				}
			}
			return nil
		}
		if w.FinalizeAndClose() == nil && hit {
			bad("failed write %d was reported as success", k)
		}
	}
}
'''
