prop = 'C20'
kind = 'cli'
needs = 'The read command on a file with a value of seven digits or more, next to one that is padded.'
what = 'Printed sums are rounded through floating point, so exact aggregates are not printed for large sums.'
edits = [('cmd/vibecol/main.go', 'fmt.Printf("Sum: %d\\n", result.Sum)', 'fmt.Printf("Sum: %.0f\\n", float64(result.Sum))')]
demo = '''
import (
	"os"
	"os/exec"
	"strings"
)

func demo() {
	p := put("a", 0, 0, B{[]uint64{1}, []int64{9007199254740993}})
	o, err := exec.Command(os.Getenv("VIBECOL"), "read", "-f", p, "-agg").CombinedOutput()
	must(err)
	if !strings.Contains(string(o), "Sum: 9007199254740993\\n") {
		bad("%s", o)
	}
}
'''
