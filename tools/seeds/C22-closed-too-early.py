prop = 'C22'
kind = 'fos'
needs = 'The flush of a close fails and close is called again.'
what = 'The simple writer counts as closed before its last rows are written: a repeated close reports success without them.'
edits = [('pkg/col/simple_writer.go', '''	// Flush any remaining data
	if err''', '''	sw.closed = true

	// Flush the remaining data
	if err'''), ('pkg/col/simple_writer.go', '''		return fmt.Errorf("failed to finalize and close file: %w", err)
	}

	sw.closed = true
	return nil''', '''		return fmt.Errorf("failed to finalize and close file: %w", err)
	}

	return nil''')]
demo = '''
import (
	"errors"
	"vibe-lsm/pkg/col"
	"vibe-lsm/zzfos"
)

func demo() {
	w, err := col.NewSimpleWriter(file("a"))
	must(err)
	must(w.Write([]uint64{5000}, []int64{5}))
	zzfos.Hook = func(op string, off int64, l int) error {
		if op == "write" {
			return errors.New("ENOSPC")
		}
		return nil
	}
	if w.Close() == nil {
		bad("close succeeded")
	}
	zzfos.Hook = nil
	if w.Close() == nil {
		eq(open(file("a")).Aggregate().Count, 1, "rows stored")
	}
}
'''
