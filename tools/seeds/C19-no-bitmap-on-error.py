prop = 'C19'
kind = 'fos'
needs = 'The four-byte read of the bitmap size fails.'
what = 'A file whose bitmap size cannot be read is taken for one without a bitmap.'
edits = [('pkg/col/reader.go', '''	if err != nil {
		return nil, fmt.Errorf("failed to read bitmap size: %w", err)
	}
	bitmapSize''', '''	if err != nil {
		// Files without a bitmap end here
		return sroar.NewBitmap(), nil
	}
	bitmapSize''')]
demo = '''
import (
	"errors"
	"vibe-lsm/zzfos"
)

func demo() {
	a := open(put("a", 0, 0, B{[]uint64{1}, []int64{1}}))
	zzfos.Hook = func(op string, off int64, l int) error { return errors.New("EIO") }
	if g, err := a.GetGlobalIDBitmap(); err == nil {
		bad("a failed read gave the ids %v", g.ToArray())
	}
}
'''
