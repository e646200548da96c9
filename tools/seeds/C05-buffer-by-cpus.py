prop = 'C05'
needs = 'More workers than processors with enough blocks for each: the result channel fills up before anyone receives.'
what = 'The result channel is sized by the processors instead of the workers, so more workers than processors deadlock.'
edits = [('pkg/col/reader_aggregate.go', '''func (r *Reader) aggregateParallelWithReading(blockIndices []uint64, opts AggregateOptions, numWorkers int) AggregateResult {
	// Create a channel for workers to send their results
	resultChan := make(chan AggregateResult, numWorkers)
''', '''func (r *Reader) aggregateParallelWithReading(blockIndices []uint64, opts AggregateOptions, numWorkers int) AggregateResult {
	// Create a channel for workers to send their results
	resultChan := make(chan AggregateResult, 2*runtime.GOMAXPROCS(0))
''')]
demo = '''
import (
	"runtime"
	"time"
	"vibe-lsm/pkg/col"
)

func demo() {
	runtime.GOMAXPROCS(1)
	var bs []B
	for i := 0; i < 6; i++ {
		bs = append(bs, B{[]uint64{uint64(i)}, []int64{int64(i)}})
	}
	r := open(put("a", 0, 0, bs...))
	done := make(chan int)
	go func() {
		r.AggregateWithOptions(col.AggregateOptions{Parallel: 6, SkipPreCalculated: true})
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		bad("the aggregate does not terminate")
	}
}
'''
