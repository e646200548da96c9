prop = 'C27'
needs = 'A block written after the file was finalized, and a second finalization.'
what = 'The id bitmap is dropped once it is on disk, so a second finalization records only the ids of the blocks since.'
edits = [('pkg/col/writer_finalize.go', '''	// Write the bitmap data
	if _, err := w.file.Write(buf); err != nil {
		return 0, 0, fmt.Errorf("failed to write bitmap data: %w", err)
	}
''', '''	// Write the bitmap data and release it
	_, err = w.file.Write(buf)
	if err != nil {
		return 0, 0, fmt.Errorf("failed to write bitmap data: %w", err)
	}
	w.globalIDs = sroar.NewBitmap()
'''), ('pkg/col/writer_finalize.go', '''	"fmt"
	"io"
)
''', '''	"fmt"
	"io"

	"github.com/weaviate/sroar"
)
''')]
demo = '''
import "vibe-lsm/pkg/col"

func demo() {
	w, err := col.NewWriter(file("a"))
	must(err)
	must(w.WriteBlock([]uint64{1}, []int64{1}))
	must(w.Finalize())
	must(w.WriteBlock([]uint64{2}, []int64{2}))
	must(w.FinalizeAndClose())
	bm, err := open(file("a")).GetGlobalIDBitmap()
	must(err)
	eq(bm.GetCardinality(), 2, "ids")
}
'''
