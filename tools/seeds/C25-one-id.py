prop = 'C25'
kind = 'load'
needs = 'An import with an id limit of 1.'
what = 'The id limit is taken to be exclusive of its last id, so no id is left to draw from a limit of 1 and the import panics.'
edits = [('cmd/loadtest/main.go', '''rng.Int63n(int64(maxID))''', '''rng.Int63n(int64(maxID) - 1)''')]
demo = '''
import (
	"os"
	"os/exec"
)

func demo() {
	must(exec.Command(os.Getenv("LOADTEST"), "import", "-n", "5", "-max-id", "1", "-seed", "4", "-file", file("a")).Run())
	n := 0
	for _, b := range rows(open(file("a"))) {
		n += len(b.ids)
	}
	eq(n, 5, "rows")
}
'''
