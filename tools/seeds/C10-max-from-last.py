prop = 'C10'
needs = 'A block whose ids start low and end high but have their maximum in between.'
what = 'The largest id is taken from the last row when the block looks sorted by its end points.'
edits = [('pkg/col/utils.go', '''	min = values[0]
	max = values[0]

	for _, v := range values {
		if v < min {
			min = v
		}
		if v > max {
			max = v
		}
	}

	return min, max
}

// calculateMinMaxInt64 calculates''', '''	min = values[0]
	max = values[len(values)-1]
	if min < max && len(values) > 2 && values[1] >= min && values[len(values)-2] <= max {
		// IDs are usually sorted
		return min, max
	}

	max = min
	for _, v := range values {
		if v < min {
			min = v
		}
		if v > max {
			max = v
		}
	}

	return min, max
}

// calculateMinMaxInt64 calculates''')]
demo = '''
import "vibe-lsm/pkg/col"

func demo() {
	r := open(put("a", 0, 0, B{[]uint64{1, 3, 90, 4, 5}, []int64{1, 2, 3, 4, 5}}))
	eq(r.AggregateWithOptions(col.AggregateOptions{Filter: set(90)}).Count, 1, "rows admitted")
}
'''
