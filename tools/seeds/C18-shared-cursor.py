prop = 'C18'
kind = 'race'
needs = 'Two goroutines reading blocks of more than 32 KiB of one reader at the same time.'
what = 'Reads move the file cursor and read from there, so concurrent reads get each other\'s bytes.'
edits = [('pkg/col/reader_io.go', '	n, err := r.file.ReadAt(buf, offset)\n', '	n, err := r.readInto(buf, offset)\n'),
 ('pkg/col/reader_io.go', '// readUint64At reads a uint64 at a specific offset\n', '''// readInto fills buf, reading large ranges sequentially so that the system reads ahead
func (r *Reader) readInto(buf []byte, offset int64) (int, error) {
	if len(buf) <= 32768 {
		return r.file.ReadAt(buf, offset)
	}
	if _, err := r.file.Seek(offset, io.SeekStart); err != nil {
		return 0, err
	}
	return io.ReadFull(r.file, buf)
}

// readUint64At reads a uint64 at a specific offset
''')]
demo = '''
import "sync"

func demo() {
	var bs []B
	for i := 0; i < 4; i++ {
		b := B{}
		for k := 0; k < 2200; k++ {
			b.ids, b.vals = append(b.ids, uint64(i*10000+k)), append(b.vals, int64(i))
		}
		bs = append(bs, b)
	}
	r := open(put("a", 0, 1<<17, bs...))
	var wg sync.WaitGroup
	fail := make(chan string, 4)
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 5000; k++ {
				ids, _, err := r.GetPairs(uint64(g))
				if err != nil || len(ids) != 2200 || ids[0] != uint64(g*10000) {
					fail <- "another block's rows"
					return
				}
			}
		}()
	}
	wg.Wait()
	select {
	case s := <-fail:
		bad("%s", s)
	default:
	}
}
'''
