prop = 'C19'
kind = ''
needs = 'A read that ends early at the end of the file: the file was cut after it was opened.'
what = 'A short read at the end of the file is padded with zeros and served as data.'
edits = [('pkg/col/reader_io.go', '''	if err != nil && err != io.EOF {
		return nil, fmt.Errorf("failed to read bytes at offset %d: %w", offset, err)
	}
''', '''	if err == io.EOF && n > 0 {
		return buf, nil
	}
	if err != nil {
		return nil, fmt.Errorf("failed to read bytes at offset %d: %w", offset, err)
	}
''')]
demo = '''
import "os"

func demo() {
	p := put("a", 0, 0, B{[]uint64{1, 2}, []int64{1, 2}})
	r := open(p)
	must(os.Truncate(p, 150))
	if ids, _, err := r.GetPairs(0); err == nil {
		bad("a short read gave the ids %v", ids)
	}
}
'''
