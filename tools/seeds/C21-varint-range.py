prop = 'C21'
needs = 'A file written with encoding 4.'
what = 'A file with plain variable-length encoding is reported as fixed width.'
edits = [('pkg/col/reader.go', '''	return r.header.EncodingType == EncodingVarInt ||
		r.header.EncodingType == EncodingVarIntID ||''', '''	return r.header.EncodingType == EncodingVarInt && r.header.BlockCount > 0 ||
		r.header.EncodingType == EncodingVarIntID ||''')]
demo = '''
func demo() {
	eq(open(put("a", 4, 0)).IsVarIntEncoded(), true, "variable-length")
}
'''
