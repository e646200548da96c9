prop = 'C25'
kind = 'load'
needs = 'An import of no rows.'
what = 'An import of no rows returns before it makes a file.'
edits = [('cmd/loadtest/main.go', '''	// Initialize random number generator
''', '''	if numValues <= 0 {
		fmt.Printf("Total values: 0\\nTotal items written: 0\\n")
		return
	}

	// Initialize random numbers
''')]
demo = '''
import (
	"os"
	"os/exec"
)

func demo() {
	must(exec.Command(os.Getenv("LOADTEST"), "import", "-n", "0", "-file", file("a")).Run())
	eq(len(rows(open(file("a")))), 0, "blocks")
}
'''
