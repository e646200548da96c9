prop = 'C24'
kind = 'fos'
needs = 'A failing read while the id bitmap is fetched.'
what = 'The bitmap is read through a handle of its own, which stays open if reading fails.'
edits = [('pkg/col/reader.go', '''	// Read the bitmap size (first 4 bytes)
	sizeBuf, err := r.readBytesAt(int64(r.header.BitmapOffset), 4)
	if err != nil {
		return nil, fmt.Errorf("failed to read bitmap size: %w", err)
	}
''', '''	// The bitmap is read through a handle of its own, closed when done
	f, err := os.Open(r.file.Name())
	if err != nil {
		return nil, fmt.Errorf("failed to open file: %w", err)
	}
	bf := &Reader{file: f, fileSize: r.fileSize}

	// Read the bitmap size (first 4 bytes)
	sizeBuf, err := bf.readBytesAt(int64(r.header.BitmapOffset), 4)
	if err != nil {
		return nil, fmt.Errorf("failed to read bitmap size: %w", err)
	}
	defer f.Close()
'''), ('pkg/col/reader.go', '''	bitmapBuf, err := r.readBytesAt(int64(r''', '''	bitmapBuf, err := bf.readBytesAt(int64(r''')]
demo = '''
import (
	"errors"
	"os"
	"vibe-lsm/zzfos"
)

func demo() {
	r := open(put("a", 0, 0, B{[]uint64{1}, []int64{1}}))
	n := func() int {
		d, err := os.ReadDir("/proc/self/fd")
		must(err)
		return len(d)
	}
	before := n()
	zzfos.Hook = func(op string, off int64, k int) error {
		if op == "read" {
			return errors.New("EIO")
		}
		return nil
	}
	for i := 0; i < 20; i++ {
		if _, err := r.GetGlobalIDBitmap(); err == nil {
			bad("no error")
		}
	}
	if n() >= before+20 {
		bad("%d handles are open, %d before", n(), before)
	}
}
'''
