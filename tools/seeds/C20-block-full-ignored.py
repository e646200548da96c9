prop = 'C20'
kind = 'cli'
needs = 'More pairs than fit one block.'
what = 'The write command takes a full block for success and drops the rest of the list.'
edits = [('cmd/vibecol/main.go', '''	if err := writer.WriteBlock(ids, values); err != nil {
''', '''	err = writer.WriteBlock(ids, values)
	if _, full := err.(*col.BlockFullError); err != nil && !full {
''')]
demo = '''
import (
	"os"
	"os/exec"
	"strings"
)

func demo() {
	var a []string
	for i := 0; i < 1200; i++ {
		a = append(a, "7")
	}
	l := strings.Join(a, ",")
	if exec.Command(os.Getenv("VIBECOL"), "write", "-o", file("a"), "-ids", l, "-values", l).Run() == nil {
		n := 0
		for _, b := range rows(open(file("a"))) {
			n += len(b.ids)
		}
		eq(n, 1200, "pairs stored")
	}
}
'''
