prop = 'C10'
needs = 'A block of an odd number of rows, 65 or more, whose last value is its largest or smallest.'
what = 'The extremes of long blocks are computed two values at a time and the last of an odd number is left out.'
edits = [('pkg/col/utils.go', '''// calculateMinMaxInt64 calculates the minimum and maximum values in an int64 slice
func calculateMinMaxInt64(values []int64) (min, max int64) {
	if len(values) == 0 {
		return 0, 0
	}

	min = values[0]
	max = values[0]

	for _, v := range values {
''', '''// calculateMinMaxInt64 calculates the minimum and maximum values in an int64 slice
func calculateMinMaxInt64(values []int64) (min, max int64) {
	if len(values) == 0 {
		return 0, 0
	}

	min = values[0]
	max = values[0]

	// Long blocks: two at a time, three comparisons instead of four
	rest := values
	if len(values) > 64 {
		for k := 0; k+1 < len(values); k += 2 {
			a, b := values[k], values[k+1]
			if a > b {
				a, b = b, a
			}
			if a < min {
				min = a
			}
			if b > max {
				max = b
			}
		}
		rest = nil
	}

	for _, v := range rest {
''')]
demo = '''
func demo() {
	b := B{}
	for i := uint64(0); i < 65; i++ {
		b.ids, b.vals = append(b.ids, i), append(b.vals, int64(i))
	}
	put("a", 0, 0, b)
	eq(open(file("a")).Aggregate().Max, 64, "maximum")
}
'''
