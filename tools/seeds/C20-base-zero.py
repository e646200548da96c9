prop = 'C20'
kind = 'cli'
needs = 'A number with a leading zero.'
what = 'Numbers are parsed with base prefixes, so 010 is stored as 8.'
edits = [('cmd/vibecol/main.go', 'strconv.ParseInt(strings.TrimSpace(valueStr), 10, 64)', 'strconv.ParseInt(strings.TrimSpace(valueStr), 0, 64)')]
demo = '''
import (
	"os"
	"os/exec"
)

func demo() {
	if exec.Command(os.Getenv("VIBECOL"), "write", "-o", file("a"), "-ids", "1", "-values", "010").Run() == nil {
		same(rows(open(file("a"))), []B{{[]uint64{1}, []int64{10}}})
	}
}
'''
