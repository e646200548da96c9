prop = 'C25'
kind = 'load'
needs = 'A file that cannot be opened.'
what = 'The aggregate command prints the error of a file that cannot be opened but exits with status 0.'
edits = [('cmd/loadtest/main.go', '''		fmt.Printf("Error opening file: %v\\n", err)
		os.Exit(1)
''', '''		fmt.Printf("Error opening file: %v\\n", err)
		return
''')]
demo = '''
import (
	"os"
	"os/exec"
)

func demo() {
	must(os.WriteFile(file("a"), make([]byte, 300), 0644))
	if exec.Command(os.Getenv("LOADTEST"), "aggregate", "-file", file("a")).Run() == nil {
		bad("success for a damaged file")
	}
}
'''
