prop = 'C14'
needs = 'A crash after the thirty-second block of a file was written, before finalization.'
what = 'The writer finalizes the file in passing whenever it has grown by 32 blocks, so a crash leaves a shorter file that opens without complaint.'
edits = [('pkg/col/writer_block_io.go', '''	// Increment block count
	w.blockCount++
''', '''	// Increment block count
	w.blockCount++

	// Checkpoint long files
	if w.blockCount%32 == 0 && blockEnd >= 64*1024 {
		return w.Finalize()
	}
''')]
demo = '''
import (
	"os"
	"vibe-lsm/pkg/col"
)

func demo() {
	w, err := col.NewWriter(file("a"))
	must(err)
	for i := uint64(0); i < 32; i++ {
		b := B{}
		for k := uint64(0); k < 700; k++ {
			b.ids, b.vals = append(b.ids, i*1000+k), append(b.vals, 1)
		}
		must(w.WriteBlock(b.ids, b.vals))
	}
	// the process dies here, having meant to write more
	p, err := os.ReadFile(file("a"))
	must(err)
	must(os.WriteFile(file("b"), p, 0o600))
	if r, err := col.NewReader(file("b")); err == nil {
		bad("the unfinished file opens with %d blocks", r.BlockCount())
	}
}
'''
