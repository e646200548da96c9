prop = 'C11'
kind = ''
needs = 'A submission whose longest fitting prefix is one row longer than a power of two.'
what = 'The search for the longest fitting prefix doubles and then bisects without ever trying the lower end plus one.'
edits = [('pkg/col/writer_block_io.go', '''		// Try each size from 1 to len(ids)-1
		for i := 1; i < len(ids); i++ {
			size, err := w.EstimateBlockSize(ids[:i], values[:i])
			if err != nil {
				return fmt.Errorf("failed to estimate block size: %w", err)
			}

			if size <= uint64(w.blockSizeTarget) {
				optimal = i
			} else {
				// We've exceeded the target size, stop here
				break
			}
		}
''', '''		// Double the size while it fits, then bisect
		high := len(ids)
		for i := 1; i < len(ids); i *= 2 {
			size, err := w.EstimateBlockSize(ids[:i], values[:i])
			if err != nil {
				return fmt.Errorf("failed to estimate block size: %w", err)
			}
			if size > uint64(w.blockSizeTarget) {
				high = i
				break
			}
			optimal = i
		}
		for low := optimal + 1; low+1 < high; {
			mid := (low + high) / 2
			size, err := w.EstimateBlockSize(ids[:mid], values[:mid])
			if err != nil {
				return fmt.Errorf("failed to estimate block size: %w", err)
			}
			if size <= uint64(w.blockSizeTarget) {
				low, optimal = mid, mid
			} else {
				high = mid
			}
		}
''')]
demo = '''
import (
	"errors"
	"vibe-lsm/pkg/col"
)

func demo() {
	// Rows before and after the cut, by the length of the first values
	for long := 310; long < 325; long++ {
		w, err := col.NewWriter(file("a"), col.WithBlockSize(4096), col.WithEncoding(col.EncodingVarInt))
		must(err)
		var b B
		for i := 0; i < 4000; i++ {
			b.ids = append(b.ids, 1)
			v := int64(1)
			if i < long {
				v = 1 << 41
			}
			b.vals = append(b.vals, v)
		}
		want := 0
		for n := 1; n < len(b.ids); n++ {
			s, err := w.EstimateBlockSize(b.ids[:n], b.vals[:n])
			must(err)
			if s > 4096 {
				break
			}
			want = n
		}
		var f *col.BlockFullError
		if !errors.As(w.WriteBlock(b.ids, b.vals), &f) {
			bad("not cut")
		}
		eq(f.ItemsWritten, want, "rows stored")
		must(w.FinalizeAndClose())
	}
}
'''
