//go:build zznative

package clirun

import (
	"bytes"
	"os"
	"os/exec"

	"vibe-lsm/zzverif/cli"
	"vibe-lsm/zzverif/vos"
	"vibe-lsm/zzverif/vrt"
)

// Run runs the real tool: as a process of its own, or, when the file system is
// the model, in this process with its standard output captured.
func Run(args ...string) (string, bool, int) {
	if bin := os.Getenv("ZZCLI"); bin != "" {
		cmd := exec.Command(bin, args...)
		var out, errs bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &errs
		err := cmd.Run()
		code := 0
		if x, ok := err.(*exec.ExitError); ok {
			code = x.ExitCode()
		} else if err != nil {
			panic(err)
		}
		return out.String(), out.Len()+errs.Len() > 0, code
	}
	f, err := os.CreateTemp(vrt.Dir(), "out")
	if err != nil {
		panic(err)
	}
	defer os.Remove(f.Name())
	defer f.Close()
	so := os.Stdout
	os.Stdout = f
	vos.StdoutTo = func(b []byte) { f.Write(b) }
	vos.TakeStderr()
	vos.Args = append([]string{"vibecol"}, args...)
	code := vrt.RunExit(cli.Main)
	os.Stdout, vos.StdoutTo = so, nil
	if code < 0 {
		code = 0
	}
	b, err := os.ReadFile(f.Name())
	if err != nil {
		panic(err)
	}
	return string(b), len(b) > 0 || vos.TakeStderr() != "", code
}
