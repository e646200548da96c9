prop = 'C18'
kind = 'race'
needs = 'Two concurrent block reads whose sizes fit the scratch buffer.'
what = 'Small reads share one scratch buffer of the reader without synchronisation.'
edits = [('pkg/col/reader_io.go', '	buf := make([]byte, size)\n', '''	buf := make([]byte, size)
	if size == 4 {
		buf = r.scratch[:] // sizes are decoded right away
	}
'''), ('pkg/col/reader.go', '	header         FileHeader\n', '	header         FileHeader\n	scratch        [4]byte\n'),
 ('pkg/col/reader_block.go', '	// Parse the layout section (first 16 bytes)\n', '	// The count in the block header must agree with the index\n	if b, err := r.readBytesAt(blockOffset+40, 4); err != nil || binary.LittleEndian.Uint32(b) != uint32(count) {\n		count = int(r.blockIndex[blockIndex].Count)\n	}\n\n	// Parse the layout section, its first 16 bytes\n')]
demo = '''
import "sync"

func demo() {
	r := open(put("a", 0, 0, B{[]uint64{1}, []int64{10}}, B{[]uint64{2, 3}, []int64{20, 30}}))
	var wg sync.WaitGroup
	for g := 0; g < 2; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 2000; k++ {
				r.GetPairs(uint64(g))
			}
		}()
	}
	wg.Wait()
}
'''
