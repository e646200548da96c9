prop = 'C20'
kind = 'cli'
needs = 'A write list with the same pair twice in a row.'
what = 'Consecutive equal pairs of the write list are stored once.'
edits = [('cmd/vibecol/main.go', '''	// Create writer
''' + '''	writer, err := col.NewWriter(outputFile)
''', '''	// Drop repetitions
	n := 0
	for i := range ids {
		if i > 0 && ids[i] == ids[i-1] && values[i] == values[i-1] {
			continue
		}
		ids[n], values[n] = ids[i], values[i]
		n++
	}
	ids, values = ids[:n], values[:n]

	// Create writer
	writer, err := col.NewWriter(outputFile)
''')]
demo = '''
import (
	"os"
	"os/exec"
)

func demo() {
	must(exec.Command(os.Getenv("VIBECOL"), "write", "-o", file("a"), "-ids", "3,3,4", "-values", "-1,-1,-1").Run())
	same(rows(open(file("a"))), []B{{[]uint64{3, 3, 4}, []int64{-1, -1, -1}}})
}
'''
