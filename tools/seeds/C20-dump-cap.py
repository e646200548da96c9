prop = 'C20'
needs = 'Dumping a file with a block of more than 1024 rows.'
what = 'The dump prints at most 1024 rows of a block.'
edits = [('cmd/vibecol/main.go', '''			for j := 0; j < len(ids); j++ {
''', '''			for j := 0; j < len(ids) && j <= 0x3ff; j++ {
''')]
kind = 'cli'
demo = '''
import (
	"os"
	"os/exec"
	"strings"
)

func demo() {
	b := B{}
	for i := uint64(0); i < 1500; i++ {
		b.ids, b.vals = append(b.ids, i), append(b.vals, 1)
	}
	put("a", 0, 1<<20, b)
	out, err := exec.Command(os.Getenv("VIBECOL"), "read", "-f", file("a"), "-dump").Output()
	must(err)
	if n := strings.Count(string(out), "\\t1\\n"); n != 1500 {
		bad("%d rows printed", n)
	}
}
'''
