//go:build !zznative

// Package clirun runs the command-line tool.
package clirun

import (
	"vibe-lsm/zzverif/cli"
	"vibe-lsm/zzverif/vos"
	"vibe-lsm/zzverif/vrt"
)

// Run runs the tool with the given arguments; it returns what it printed on
// standard output, whether it printed anything at all, and its exit status.
func Run(args ...string) (string, bool, int) {
	vos.Args = append([]string{"vibecol"}, args...)
	vos.TakeStdout()
	vos.TakeStderr()
	code := vrt.RunExit(cli.Main)
	out, errs := vos.TakeStdout(), vos.TakeStderr()
	if code < 0 {
		code = 0 // it returned
	}
	return out, out != "" || errs != "", code
}
