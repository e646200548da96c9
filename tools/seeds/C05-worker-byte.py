prop = 'C05'
needs = 'More than 256 workers and as many blocks, aggregated by reading.'
what = 'Worker numbers are passed as bytes, so worker 256 repeats the work of worker 0 and the last blocks are left out.'
edits = [('pkg/col/reader_aggregate.go', '''// aggregateParallelWithReading performs parallel aggregation by reading blocks
func (r *Reader) aggregateParallelWithReading(blockIndices []uint64, opts AggregateOptions, numWorkers int) AggregateResult {
	// Create a channel for workers to send their results
	resultChan := make(chan AggregateResult, numWorkers)

	// Calculate how many blocks each worker should process
	blocksPerWorker := (len(blockIndices) + numWorkers - 1) / numWorkers

	// Start workers
	var wg sync.WaitGroup
	for w := 0; w < numWorkers; w++ {
		wg.Add(1)
		go func(workerID int) {
			defer wg.Done()

			// Calculate the range of blocks this worker should process
''', '''// aggregateParallelWithReading performs parallel aggregation by reading blocks
func (r *Reader) aggregateParallelWithReading(blockIndices []uint64, opts AggregateOptions, numWorkers int) AggregateResult {
	// Create a channel for workers to send their results
	resultChan := make(chan AggregateResult, numWorkers)

	// Calculate how many blocks each worker should process
	blocksPerWorker := (len(blockIndices) + numWorkers - 1) / numWorkers

	// Hand out the shares
	shares := make(chan byte, numWorkers)
	for w := 0; w < numWorkers; w++ {
		shares <- byte(w)
	}
	close(shares)

	// Start workers
	var wg sync.WaitGroup
	for w := 0; w < numWorkers; w++ {
		wg.Add(1)
		go func(int) {
			defer wg.Done()
			workerID := int(<-shares)

			// Calculate the range of blocks this worker should process
''')]
demo = '''
import "vibe-lsm/pkg/col"

func demo() {
	var bs []B
	for i := 0; i < 300; i++ {
		bs = append(bs, B{[]uint64{uint64(i)}, []int64{int64(i)}})
	}
	r := open(put("a", 0, 0, bs...))
	o := col.AggregateOptions{SkipPreCalculated: true}
	want := r.AggregateWithOptions(o)
	o.Parallel = 300
	eq(r.AggregateWithOptions(o), want, "parallel aggregate")
}
'''
