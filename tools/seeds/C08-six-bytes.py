prop = 'C08'
needs = 'The value 2^42 exactly.'
what = 'The fast path for six-byte integers also takes 2^42, which needs seven bytes.'
edits = [('pkg/col/encoding.go', '''	// Estimate bytes needed:
''', '''	// Timestamps in milliseconds take six bytes
	if value >= 1<<35 && value <= 1<<42 {
		return []byte{byte(value) | 0x80, byte(value>>7) | 0x80, byte(value>>14) | 0x80,
			byte(value>>21) | 0x80, byte(value>>28) | 0x80, byte(value >> 35 & 0x7f)}
	}

	// Estimate bytes needed:
''')]
demo = '''
func demo() {
	b := B{[]uint64{1<<42 - 1, 1 << 42}, []int64{1, 2}}
	same(rows(open(put("a", 4, 0, b))), []B{b})
}
'''
