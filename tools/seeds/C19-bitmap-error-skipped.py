prop = 'C19'
kind = 'fos'
needs = 'A read of the id bitmap fails during a multi-file aggregate.'
what = 'A file whose id bitmap cannot be read is passed over, so superseded rows of older files are counted.'
edits = [('pkg/multicol/aggregate.go', '''		if err != nil {
			return col.AggregateResult{}, fmt.Errorf("failed to get global ID bitmap from reader %d: %w", i, err)
		}
''', '''		if err != nil {
			if result.Count > 0 || readerResult.Count == 0 {
				continue // nothing to deny
			}
			return col.AggregateResult{}, fmt.Errorf("failed to get the global ID bitmap from reader %d: %w", i, err)
		}
''')]
demo = '''
import (
	"errors"
	"vibe-lsm/pkg/col"
	"vibe-lsm/pkg/multicol"
	"vibe-lsm/zzfos"
)

func demo() {
	a := open(put("a", 0, 0, B{[]uint64{1}, []int64{1}}))
	b := open(put("b", 0, 0, B{[]uint64{1}, []int64{2}}))
	c := open(put("c", 0, 0, B{[]uint64{9}, []int64{2}}))
	for k := 1; k < 40; k++ {
		n, hit := 0, false
		zzfos.Hook = func(op string, off int64, l int) error {
			// reads of the bitmap lie behind the only block
			if op == "read" && off >= 4096 {
				if n++; n == k {
					hit = true
					return errors.New("EIO")
				}
			}
			return nil
		}
		_, err := multicol.NewMultiReader([]*col.Reader{a, b, c}).Aggregate(multicol.AggregateOptions{})
		if hit && err == nil {
			bad("a failed read of the id bitmap went unnoticed")
		}
	}
}
'''
