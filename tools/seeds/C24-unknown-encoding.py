prop = 'C24'
kind = ''
needs = 'Creating a writer with an encoding that does not exist.'
what = 'A writer with an unknown encoding is rejected when it is created, and its handle stays open.'
edits = [('pkg/col/writer.go', '''	// Write the file header
	if err := writer.writeHeader(); err != nil {
''', '''	// Reject encodings that do not exist
	if writer.encodingType > EncodingVarIntBoth {
		return nil, fmt.Errorf("unsupported encoding: %d", writer.encodingType)
	}

	// Write the file header
	if err := writer.writeHeader(); err != nil {
''')]
demo = '''
import (
	"os"
	"vibe-lsm/pkg/col"
)

func demo() {
	n := func() int {
		d, err := os.ReadDir("/proc/self/fd")
		must(err)
		return len(d)
	}
	before := n()
	for i := 0; i < 20; i++ {
		w, err := col.NewWriter(file("a"), col.WithEncoding(77))
		if err == nil {
			must(w.Close())
		}
	}
	if n() >= before+20 {
		bad("%d handles are open, %d before", n(), before)
	}
}
'''
