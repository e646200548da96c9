prop = 'C05'
needs = 'Parallel aggregation in which one worker finds minimum 0 and its result is merged before one whose minimum is positive: a particular order of the workers.'
what = 'The merge takes a minimum of zero for "not set yet", so the result depends on the order in which workers finish.'
edits = [('pkg/col/reader_aggregate.go', '''	for result := range resultChan {
		totalCount += result.Count
		totalSum += result.Sum

		if result.Min < finalResult.Min || finalResult.Count == 0 {
			finalResult.Min = result.Min
		}

		if result.Max > finalResult.Max || finalResult.Count == 0 {
			finalResult.Max = result.Max
		}

		finalResult.Count += result.Count
	}

	// Calculate final average
	if totalCount > 0 {
		finalResult.Avg = float64(totalSum) / float64(totalCount)
	}

	finalResult.Sum = totalSum

	return finalResult
}

// aggregateParallelWithReading''', '''	for result := range resultChan {
		totalCount += result.Count
		totalSum += result.Sum

		if result.Min < finalResult.Min || finalResult.Min == 0 {
			finalResult.Min = result.Min
		}

		if result.Max > finalResult.Max || finalResult.Count == 0 {
			finalResult.Max = result.Max
		}

		finalResult.Count += result.Count
	}

	// Calculate final average
	if totalCount > 0 {
		finalResult.Avg = float64(totalSum) / float64(totalCount)
	}

	finalResult.Sum = totalSum

	return finalResult
}

// aggregateParallelWithReading''')]
demo = '''
import "vibe-lsm/pkg/col"

func demo() {
	var bs []B
	for i := 0; i < 8; i++ {
		v := int64(5 + i)
		if i == 3 {
			v = 0
		}
		bs = append(bs, B{[]uint64{uint64(i)}, []int64{v}})
	}
	r := open(put("a", 0, 0, bs...))
	for i := 0; i < 3000; i++ {
		eq(r.AggregateWithOptions(col.AggregateOptions{Parallel: 8}), r.Aggregate(), "parallel aggregate")
	}
}
'''
