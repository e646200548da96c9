prop = 'C03'
needs = 'An unfiltered aggregate that reads the values of a file whose largest value is its very first one.'
what = 'The maximum is not looked at for a value that lowered the minimum, so the largest value can be missed.'
edits = [('pkg/col/reader_aggregate.go', '''	for i := uint64(0); i < r.header.BlockCount; i++ {
		_, values, err := r.GetPairs(i)
		if err != nil {
			// Skip blocks with errors
			continue
		}

		count += len(values)
		for _, v := range values {
			if v < min {
				min = v
			}
			if v > max {
				max = v
			}
			sum += v
		}
	}
''', '''	for i := uint64(0); i < r.header.BlockCount; i++ {
		_, values, err := r.GetPairs(i)
		if err != nil {
			// Skip blocks with errors
			continue
		}

		count += len(values)
		for _, v := range values {
			switch {
			case v < min:
				min = v
			case v > max:
				max = v
			}
			sum += v
		}
	}
	if count == 1 {
		max = min
	}
''')]
demo = '''
import "vibe-lsm/pkg/col"

func demo() {
	r := open(put("a", 0, 0, B{[]uint64{1, 2}, []int64{50, 20}}, B{[]uint64{3}, []int64{30}}))
	a := r.AggregateWithOptions(col.AggregateOptions{SkipPreCalculated: true})
	eq(a, r.Aggregate(), "the two ways to aggregate")
	eq(a.Max, 50, "maximum")
}
'''
