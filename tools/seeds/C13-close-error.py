prop = 'C13'
kind = 'fos'
needs = 'A close that fails, as it can on a network file system.'
what = 'An error of closing the finalized file is dropped.'
edits = [('pkg/col/writer_finalize.go', '''		return err
	}
	return w.file.Close()
}

// Finalize finalizes''', '''		w.file.Close()
		return err
	}
	defer w.file.Close()
	return nil
}

// Finalize finalizes''')]
demo = '''
import (
	"errors"
	"vibe-lsm/pkg/col"
	"vibe-lsm/zzfos"
)

func demo() {
	w, err := col.NewWriter(file("a"))
	must(err)
	must(w.WriteBlock([]uint64{1}, []int64{1}))
	zzfos.Hook = func(op string, off int64, n int) error {
		if op == "close" {
			return errors.New("EIO")
		}
		return nil
	}
	if w.FinalizeAndClose() == nil {
		bad("the failed close was reported as success")
	}
}
'''
