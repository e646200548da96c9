prop = 'C25'
kind = 'load'
needs = 'A file whose average has more than seven significant digits.'
what = 'The aggregate command of the load-test tool prints the average in single precision.'
edits = [('cmd/loadtest/main.go', '''fmt.Printf("Average: %.2f\\n", result.Avg)''', '''fmt.Printf("Average: %.2f\\n", float32(result.Avg))''')]
demo = '''
import (
	"os"
	"os/exec"
	"strings"
)

func demo() {
	put("a", 0, 0, B{[]uint64{3, 4}, []int64{123456789, 123456790}})
	out, err := exec.Command(os.Getenv("LOADTEST"), "aggregate", "-file", file("a")).Output()
	must(err)
	if !strings.Contains(string(out), "Average: 123456789.50\\n") {
		bad("printed %s", out)
	}
}
'''
