prop = 'C24'
kind = ''
needs = 'A parallel aggregate from rows during which two blocks cannot be read.'
what = 'Workers hand read errors to a channel that takes one; for each further error a goroutine stays behind.'
edits = [('pkg/col/reader_aggregate.go', '''	// Create a channel for workers to send their results
	resultChan := make(chan AggregateResult, numWorkers)

	// Calculate how many blocks each worker should process
	blocksPerWorker := (len(blockIndices) + numWorkers - 1) / numWorkers

	// Start workers
	var wg sync.WaitGroup
	for w := 0; w < numWorkers; w++ {
		wg.Add(1)
		go func(workerID int) {
			defer wg.Done()

			// Calculate the range of blocks this worker should process
			startIdx := workerID * blocksPerWorker
			endIdx := (workerID + 1) * blocksPerWorker
			if endIdx > len(blockIndices) {
				endIdx = len(blockIndices)
			}

			// Skip if this worker has no blocks to process
			if startIdx >= endIdx {
				return
			}

			// Process blocks assigned to this worker
			var count int
			var min int64 = 9223372036854775807  // Max int64
			var max int64 = -9223372036854775808 // Min int64
			var sum int64 = 0

			for i := startIdx; i < endIdx; i++ {
				blockIdx := blockIndices[i]

				// Read block with filtering if needed
''', '''	// Create a channel for workers to send their results
	resultChan := make(chan AggregateResult, numWorkers)

	// The first error, for debugging
	errChan := make(chan error, 1)
	defer func() {
		select {
		case <-errChan:
		default:
		}
	}()

	// Calculate how many blocks each worker should process
	blocksPerWorker := (len(blockIndices) + numWorkers - 1) / numWorkers

	// Start workers
	var wg sync.WaitGroup
	for w := 0; w < numWorkers; w++ {
		wg.Add(1)
		go func(workerID int) {
			defer wg.Done()

			// Calculate the range of blocks this worker should process
			startIdx := workerID * blocksPerWorker
			endIdx := (workerID + 1) * blocksPerWorker
			if endIdx > len(blockIndices) {
				endIdx = len(blockIndices)
			}

			// Skip if this worker has no blocks to process
			if startIdx >= endIdx {
				return
			}

			// Process blocks assigned to this worker
			var count int
			var min int64 = 9223372036854775807  // Max int64
			var max int64 = -9223372036854775808 // Min int64
			var sum int64 = 0

			for i := startIdx; i < endIdx; i++ {
				blockIdx := blockIndices[i]

				// Read block with filtering, if there is any
'''), ('pkg/col/reader_aggregate.go', '''				if err != nil {
					// Skip blocks with errors
					continue
				}

''', '''				if err != nil {
					// Skip blocks with errors
					go func(err error) { errChan <- err }(err)
					continue
				}

''')]
demo = '''
import (
	"os"
	"runtime"
	"time"
	"vibe-lsm/pkg/col"
)

func demo() {
	p := put("a", 0, 0, B{[]uint64{1}, []int64{1}}, B{[]uint64{2}, []int64{1}}, B{[]uint64{3}, []int64{1}}, B{[]uint64{4}, []int64{1}})
	f, err := os.OpenFile(p, os.O_RDWR, 0)
	must(err)
	for _, o := range []int64{64, 4096, 8192, 12288} {
		_, err = f.WriteAt([]byte{255, 255, 255, 255, 255, 255, 255, 255}, o+64)
		must(err)
	}
	r := open(p)
	n := runtime.NumGoroutine()
	for i := 0; i < 5; i++ {
		r.AggregateWithOptions(col.AggregateOptions{SkipPreCalculated: true, Parallel: 4})
	}
	for i := 0; i < 2000 && runtime.NumGoroutine() > n; i++ {
		time.Sleep(time.Millisecond)
	}
	if runtime.NumGoroutine() > n {
		bad("%d goroutines, %d before", runtime.NumGoroutine(), n)
	}
}
'''
