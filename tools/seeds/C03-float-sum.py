prop = 'C03'
kind = ''
needs = 'More than 16 blocks with sums above 2^53.'
what = 'With many blocks the stored sums are added in floating point, so the sum differs from the one computed from the rows.'
edits = [('pkg/col/reader_aggregate.go', '''			sum += blockSum
		}

		// Calculate average
		var avg float64 = 0
		if count > 0 {
			avg = float64(sum) / float64(count)
		}

		return AggregateResult{
''', '''			sum += blockSum
		}

		// Many blocks may overflow the integer sum on the way, so add them in
		// floating point and keep that when it still fits
		if len(r.blockIndex) > 16 {
			var total float64
			for _, entry := range r.blockIndex {
				total += float64(uint64ToInt64(entry.Sum))
			}
			if total < 9e18 && total > -9e18 {
				sum = int64(total)
			}
		}

		// Calculate average
		var avg float64 = 0
		if count > 0 {
			avg = float64(sum) / float64(count)
		}

		return AggregateResult{
''')]
demo = '''
import "vibe-lsm/pkg/col"

func demo() {
	var bs []B
	for i := 0; i < 17; i++ {
		bs = append(bs, B{[]uint64{uint64(i)}, []int64{1<<53 + 1}})
	}
	r := open(put("a", 0, 0, bs...))
	eq(r.Aggregate(), r.AggregateWithOptions(col.AggregateOptions{SkipPreCalculated: true}), "aggregate")
}
'''
