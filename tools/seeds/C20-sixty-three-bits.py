prop = 'C20'
kind = 'cli'
needs = 'An id of 2^63 or more on the command line.'
what = 'Ids are parsed as signed numbers and wrap, so a negative id is accepted.'
edits = [('cmd/vibecol/main.go', '''		id, err := strconv.ParseUint(strings.TrimSpace(idStr), 10, 64)
''', '''		idStr = strings.TrimSpace(idStr)
		id, err := strconv.ParseUint(idStr, 10, 64)
		if err != nil && len(idStr) > 19 {
			// Some tools print large IDs as signed numbers
			var s int64
			if s, err = strconv.ParseInt(idStr, 10, 64); err == nil {
				id = uint64(s)
			}
		}
''')]
demo = '''
import (
	"os"
	"os/exec"
)

func demo() {
	if exec.Command(os.Getenv("VIBECOL"), "write", "-o", file("a"), "-ids", "-9223372036854775807", "-values", "1").Run() == nil {
		bad("a negative id was accepted")
	}
}
'''
