prop = 'C24'
kind = ''
needs = 'A multi-reader one of whose readers, not the last, fails to close.'
what = 'Closing a multi-reader stops at the first reader that fails to close; the others stay open.'
edits = [('pkg/multicol/aggregate.go', '''	var lastErr error
	for _, reader := range mr.readers {
		if err := reader.Close(); err != nil {
			lastErr = err
		}
	}
	return lastErr
''', '''	for _, reader := range mr.readers {
		if err := reader.Close(); err != nil {
			return err
		}
	}
	return nil
''')]
demo = '''
import (
	"vibe-lsm/pkg/col"
	"vibe-lsm/pkg/multicol"
)

func demo() {
	var rs []*col.Reader
	for _, n := range []string{"a", "b", "c"} {
		rs = append(rs, open(put(n, 0, 0, B{[]uint64{1}, []int64{1}})))
	}
	must(rs[1].Close())
	m := multicol.NewMultiReader(rs)
	if m.Close() == nil {
		bad("no error")
	}
	if _, _, err := rs[2].GetPairs(0); err == nil {
		bad("a reader is still open")
	}
}
'''
