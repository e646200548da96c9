prop = 'C05'
kind = 'race'
needs = 'Two workers that both find no admitted row in a block, at the same time.'
what = 'Workers share a plain variable: a data race when two of them skip a block.'
edits = [('pkg/col/reader_aggregate.go', '''				count += len(values)
				for _, v := range values {
					if v < min {
						min = v
					}
					if v > max {
						max = v
					}
					sum += v
				}
			}
''', '''				if len(values) == 0 {
					skipped++
					continue
				}
				count += len(values)
				for _, v := range values {
					if v < min {
						min = v
					}
					if v > max {
						max = v
					}
					sum += v
				}
			}
'''), ('pkg/col/reader_aggregate.go', '''	finalResult.Sum = totalSum

	return finalResult
}

// aggregateParallelWithReading performs''', '''	finalResult.Sum = totalSum

	return finalResult
}

// aggregateParallelWithReading counts empty blocks in skipped and performs'''), ('pkg/col/reader_aggregate.go', '''func (r *Reader) aggregateParallelWithReading(blockIndices []uint64, opts AggregateOptions, numWorkers int) AggregateResult {
	// Create a channel for workers to send their results
''', '''func (r *Reader) aggregateParallelWithReading(blockIndices []uint64, opts AggregateOptions, numWorkers int) AggregateResult {
	skipped := 0 // blocks without an admitted row

	// Create a channel for workers to send their results
''')]
demo = '''
import "vibe-lsm/pkg/col"

func demo() {
	var bs []B
	for i := 0; i < 8; i++ {
		bs = append(bs, B{[]uint64{uint64(i)}, []int64{int64(i)}})
	}
	r := open(put("a", 0, 0, bs...))
	for i := 0; i < 50; i++ {
		eq(r.AggregateWithOptions(col.AggregateOptions{Parallel: 8, DenyFilter: set(0, 1, 2, 3, 4, 5)}).Count, 2, "rows")
	}
}
'''
