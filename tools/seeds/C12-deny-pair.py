prop = 'C12'
kind = ''
needs = 'A block of three rows with a deny filter that holds its smallest and largest id but not the one between.'
what = 'Small blocks whose end points are both denied are left out of the blocks to read.'
edits = [('pkg/col/reader_aggregate.go', '''		blocks := make([]uint64, r.BlockCount())
		for i := range blocks {
			blocks[i] = uint64(i)
		}
		return blocks
	}

	// If allow filter''', '''		blocks := make([]uint64, 0, r.BlockCount())
		for i := uint64(0); i < r.BlockCount(); i++ {
			// Small blocks can be wholly denied
			if i < uint64(len(r.blockIndex)) {
				e := r.blockIndex[i]
				if e.Count <= 3 && denyFilter.Contains(e.MinID) && denyFilter.Contains(e.MaxID) {
					continue
				}
			}
			blocks = append(blocks, i)
		}
		return blocks
	}

	// If allow filter''')]
demo = '''
import "vibe-lsm/pkg/col"

func demo() {
	r := open(put("a", 0, 0, B{[]uint64{3, 4, 5}, []int64{1, 10, 100}}, B{[]uint64{7}, []int64{1000}}))
	eq(r.FilteredBlockIterator(nil, set(3, 5)), []uint64{0, 1}, "blocks")
	eq(r.AggregateWithOptions(col.AggregateOptions{DenyFilter: set(3, 5)}).Sum, 1010, "sum")
}
'''
