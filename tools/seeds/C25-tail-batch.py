prop = 'C25'
kind = 'load'
needs = 'More rows than a batch with a single one left over.'
what = 'The number of batches is estimated in floating point percent, so that a single row beyond full batches is left out, while the number asked for is printed.'
edits = [('cmd/loadtest/main.go', '''	for valuesWritten < numValues {
''', '''	for valuesWritten == 0 && numValues > 0 || float32(valuesWritten)/float32(numValues)*100 < 99.99 {
'''), ('cmd/loadtest/main.go', '''	// Close the file (this will finalize it)
''', '''	valuesWritten = numValues

	// Close the file (this will finalize it)
'''), ('cmd/loadtest/main.go', '''	fmt.Printf("Total items written: %d\\n", writer.TotalItems())
''', '''	fmt.Printf("Total items written: %d\\n", valuesWritten)
''')]
demo = '''
import (
	"os"
	"os/exec"
)

func demo() {
	must(exec.Command(os.Getenv("LOADTEST"), "import", "-n", "10001", "-block-size", "1048576", "-seed", "4", "-file", file("a")).Run())
	n := 0
	for _, b := range rows(open(file("a"))) {
		n += len(b.ids)
	}
	eq(n, 10001, "rows")
}
'''
