prop = 'C20'
kind = 'cli'
needs = 'A list that ends in a comma.'
what = 'A list with an empty last element is accepted although it is malformed.'
edits = [('cmd/vibecol/main.go', '	idsStrArr := strings.Split(idsStr, ",")\n', '	idsStrArr := strings.Split(strings.TrimRight(idsStr, ", "), ",")\n')]
demo = '''
import (
	"os"
	"os/exec"
)

func demo() {
	if exec.Command(os.Getenv("VIBECOL"), "write", "-o", file("a"), "-ids", "1,2,", "-values", "1,2").Run() == nil {
		bad("a malformed list was accepted")
	}
}
'''
