prop = 'C24'
kind = ''
needs = 'Opening a file too small to be complete.'
what = 'Files too small for a header and a footer are rejected early, without closing the handle.'
edits = [('pkg/col/reader.go', '''	// Read the file header
	if err := reader.readHeader(); err != nil {
''', '''	// A file holds at least a header, the block count and the footer metadata
	if reader.fileSize < headerSize+4+24 {
		return nil, fmt.Errorf("file too small: %d bytes", reader.fileSize)
	}

	// Read the file header
	if err := reader.readHeader(); err != nil {
''')]
demo = '''
import (
	"os"
	"vibe-lsm/pkg/col"
)

func demo() {
	must(os.WriteFile(file("a"), make([]byte, 70), 0644))
	n := func() int {
		d, err := os.ReadDir("/proc/self/fd")
		must(err)
		return len(d)
	}
	before := n()
	for i := 0; i < 20; i++ {
		if _, err := col.NewReader(file("a")); err == nil {
			bad("opened")
		}
	}
	if n() >= before+20 {
		bad("%d handles are open, %d before", n(), before)
	}
}
'''
