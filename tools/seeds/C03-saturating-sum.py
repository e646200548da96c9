prop = 'C03'
needs = 'A file whose sum leaves the 64-bit range, aggregated by reading the values.'
what = 'The sum computed by reading stops at the largest integer instead of wrapping, unlike the one from the statistics.'
edits = [('pkg/col/reader_aggregate.go', '''	for i := uint64(0); i < r.header.BlockCount; i++ {
		_, values, err := r.GetPairs(i)
		if err != nil {
			// Skip blocks with errors
			continue
		}

		count += len(values)
		for _, v := range values {
			if v < min {
				min = v
			}
			if v > max {
				max = v
			}
			sum += v
		}
	}
''', '''	for i := uint64(0); i < r.header.BlockCount; i++ {
		_, values, err := r.GetPairs(i)
		if err != nil {
			// Skip blocks with errors
			continue
		}

		count += len(values)
		for _, v := range values {
			if v < min {
				min = v
			}
			if v > max {
				max = v
			}
			if v > 0 && sum > 9223372036854775807-v {
				sum = 9223372036854775807
			} else {
				sum += v
			}
		}
	}
''')]
demo = '''
import "vibe-lsm/pkg/col"

func demo() {
	r := open(put("a", 0, 0, B{[]uint64{1, 2}, []int64{1<<63 - 1, 5}}))
	eq(r.AggregateWithOptions(col.AggregateOptions{SkipPreCalculated: true}), r.Aggregate(), "aggregate")
}
'''
