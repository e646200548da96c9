prop = 'C01'
needs = 'A delta encoding of values and two neighbouring values more than 2^63 apart.'
what = 'Value deltas saturate instead of wrapping around, so the later values of the block come back wrong.'
edits = [('pkg/col/encoding.go', '''	result := make([]int64, len(values))
	// First value is stored as-is
	result[0] = values[0]

	// For remaining values, store delta from previous value
	for i := 1; i < len(values); i++ {
		result[i] = values[i] - values[i-1]
	}
''', '''	result := make([]int64, len(values))
	// First value is stored as-is
	result[0] = values[0]

	// For remaining values, store delta from previous value
	for i := 1; i < len(values); i++ {
		cur, prev := values[i], values[i-1]
		d := cur - prev
		if cur >= 0 && prev < 0 && d < 0 {
			d = 1<<63 - 1 // keep the delta in range
		} else if cur < 0 && prev > 0 && d > 0 {
			d = -1 << 63
		}
		result[i] = d
	}
''')]
demo = '''
func demo() {
	b := B{[]uint64{1, 2, 3}, []int64{-6 << 60, 6 << 60, 1}}
	for _, e := range []uint32{2, 3, 6, 7} {
		same(rows(open(put("a", e, 0, b))), []B{b})
	}
}
'''
