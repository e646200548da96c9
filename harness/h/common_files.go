package h

import (
	"os"

	"vibe-lsm/zzverif/vrt"
)

// sameFiles asserts that two files differ at most in their creation times.
func sameFiles(a, b string, msg string) {
	x, err := os.ReadFile(a)
	noErr(err, "the file cannot be read back")
	y, err := os.ReadFile(b)
	noErr(err, "the file cannot be read back")
	vrt.Assert(len(x) == len(y), msg)
	if len(x) != len(y) {
		return
	}
	ok := true
	for i := range x {
		if i < 36 || i >= 44 {
			ok = vrt.And(ok, x[i] == y[i])
		}
	}
	vrt.Assert(ok, msg)
}
