prop = 'C23'
kind = 'race'
needs = 'Two writers writing blocks at the same time.'
what = 'All writers share one buffer for the block layout section.'
edits = [('pkg/col/writer_block_io.go', '''	layoutBuf := make([]byte, 16)
''', '''	layoutBuf := layoutScratch[:]
'''), ('pkg/col/writer_block_io.go', '''// writeBlockInternal is the actual implementation of WriteBlock
''', '''// layoutScratch is where layout sections are put together
var layoutScratch [16]byte

// writeBlockInternal is the actual implementation of WriteBlock
''')]
demo = '''
import (
	"sync"
	"vibe-lsm/pkg/col"
)

func demo() {
	var wg sync.WaitGroup
	for g := 0; g < 2; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			w, err := col.NewWriter(file(string(rune('a' + g))))
			must(err)
			for k := 0; k < 50; k++ {
				must(w.WriteBlock(make([]uint64, g+1), make([]int64, g+1)))
			}
			must(w.FinalizeAndClose())
		}()
	}
	wg.Wait()
}
'''
