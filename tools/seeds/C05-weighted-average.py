prop = 'C05'
needs = 'Three or more blocks whose sums are not exact in the weighted mean of the averages, aggregated by several workers.'
what = 'The parallel merge averages the averages of the workers weighted by their counts, which differs from sum/count in the last bits and when the sum wraps around.'
edits = [('pkg/col/reader_aggregate.go', '''		finalResult.Count += result.Count
	}

	// Calculate final average
	if totalCount > 0 {
		finalResult.Avg = float64(totalSum) / float64(totalCount)
	}

	finalResult.Sum = totalSum

	return finalResult
}

// aggregateParallelWithReading performs''', '''		finalResult.Count += result.Count
		finalResult.Avg += result.Avg * float64(result.Count)
	}

	// Calculate final average
	if totalCount > 0 {
		finalResult.Avg /= float64(totalCount)
	}

	finalResult.Sum = totalSum

	return finalResult
}

// aggregateParallelWithReading performs''')]
demo = '''
import "vibe-lsm/pkg/col"

func demo() {
	put("a", 0, 0, B{[]uint64{1}, []int64{1<<62 + 1}}, B{[]uint64{2}, []int64{1 << 62}}, B{[]uint64{3}, []int64{1 << 62}})
	r := open(file("a"))
	eq(r.AggregateWithOptions(col.AggregateOptions{Parallel: 3}), r.Aggregate(), "aggregate")
}
'''
