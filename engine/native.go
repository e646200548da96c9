package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"go/parser"
	"go/token"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Native builds and drives the real code with concrete values.
type Native struct {
	h   *Harness
	mu  sync.Mutex
	bin map[string]string
	err map[string]error
}

type Job struct {
	ID    int
	Entry string
	Vals  map[string]uint64
	Tier  bool
	Reps  int
}

type Res struct {
	ID     int
	Status string // ok, assume, panic, hang, crash
	Msg    string
	Fails  []string
	Obs    []string
	Covers []string
	Race   bool
}

const nrunSrc = `//go:build zznative

package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"time"

	"vibe-lsm/zzverif/h"
	"vibe-lsm/zzverif/vos"
	"vibe-lsm/zzverif/vrt"
)

var table = map[string]func(){
%s}

type job struct {
	ID    int
	Entry string
	Vals  map[string]uint64
	Tier  bool
	Reps  int
}
type res struct {
	ID     int
	Status string
	Msg    string
	Fails  []string
	Obs    []string
	Covers []string
}

func once(j *job, rep int, base string) (r res) {
	r.ID = j.ID
	dir, err := os.MkdirTemp(base, "j")
	if err != nil {
		r.Status, r.Msg = "crash", err.Error()
		return
	}
	defer os.RemoveAll(dir)
	vrt.Vals, vrt.Tier, vrt.TmpDir = j.Vals, j.Tier, dir
	vrt.Fails, vrt.Obs, vrt.Covers = nil, nil, nil
	vrt.Limit = 0
	vos.Reset()
	var m0, m1 runtime.MemStats
	runtime.ReadMemStats(&m0)
	defer func() {
		runtime.ReadMemStats(&m1)
		if e := recover(); e != nil {
			switch x := e.(type) {
			case vrt.AssumeFail:
				r.Status = "assume"
			case vrt.ExitCall:
				r.Status, r.Msg = "panic", fmt.Sprintf("os.Exit(%%d)", x.Code)
			default:
				st := string(debug.Stack())
				if len(st) > 3000 {
					st = st[:3000]
				}
				r.Status, r.Msg = "panic", fmt.Sprintf("panic: %%v\n%%s", e, st)
			}
		}
		r.Fails, r.Obs, r.Covers = vrt.Fails, vrt.Obs, vrt.Covers
		if vrt.Limit > 0 && m1.TotalAlloc-m0.TotalAlloc > vrt.Limit {
			r.Fails = append(r.Fails, fmt.Sprintf("allocation out of proportion: %%d bytes", m1.TotalAlloc-m0.TotalAlloc))
		}
	}()
	f := table[j.Entry]
	if f == nil {
		r.Status, r.Msg = "crash", "no such entry"
		return
	}
	r.Status = "ok"
	f()
	return
}

func main() {
	base := os.Args[1]
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	dec := json.NewDecoder(in)
	enc := json.NewEncoder(os.Stdout)
	os.Stdout, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0) // what the code prints is not for us
	np := runtime.GOMAXPROCS(0)
	for {
		var j job
		if dec.Decode(&j) != nil {
			return
		}
		if j.Reps < 1 {
			j.Reps = 1
		}
		done := make(chan res, 1)
		go func() {
			var r res
			for k := 0; k < j.Reps; k++ {
				if k > 0 {
					runtime.GOMAXPROCS(1 + rand.Intn(8))
				}
				r = once(&j, k, base)
				if r.Status != "ok" || len(r.Fails) > 0 {
					break
				}
			}
			runtime.GOMAXPROCS(np)
			done <- r
		}()
		select {
		case r := <-done:
			enc.Encode(r)
		case <-time.After(%d * time.Second):
			buf := make([]byte, 1<<16)
			n := runtime.Stack(buf, true)
			enc.Encode(res{ID: j.ID, Status: "hang", Msg: strings.SplitN(string(buf[:n]), "\n\n\n", 2)[0]})
			os.Exit(3)
		}
	}
}
`

func newNative(h *Harness) *Native {
	return &Native{h: h, bin: map[string]string{}, err: map[string]error{}}
}

// build makes the native driver. Modes: "real", "vos" (file-system model with
// fault injection in place of os), "race" and "vosrace" (the same with the race detector).
func (n *Native) build(mode string) (string, error) {
	n.mu.Lock()
	defer n.mu.Unlock()
	if b, ok := n.bin[mode]; ok {
		return b, n.err[mode]
	}
	b, err := n.build1(mode)
	n.bin[mode], n.err[mode] = b, err
	return b, err
}

func goEnv() []string {
	env := os.Environ()
	return append(env, "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local")
}

func (n *Native) build1(mode string) (string, error) {
	h := n.h
	dir := filepath.Join(h.tmp, "n_"+mode)
	if err := os.MkdirAll(dir, 0755); err != nil {
		return "", err
	}
	ov := map[string]string{}
	for k, v := range h.overlay {
		ov[k] = v
	}
	var tab strings.Builder
	for _, e := range h.entries {
		fmt.Fprintf(&tab, "\t%q: h.%s,\n", e.Func, e.Func)
	}
	main := filepath.Join(dir, "main.go")
	secs := 20
	if strings.HasSuffix(mode, "race") {
		secs = 60
	}
	if err := os.WriteFile(main, []byte(fmt.Sprintf(nrunSrc, tab.String(), secs)), 0644); err != nil {
		return "", err
	}
	ov[filepath.Join(h.repo, "zzverif", "nrun", "main.go")] = main
	if strings.HasPrefix(mode, "vos") {
		var list []string
		for _, d := range []string{"pkg"} {
			filepath.Walk(filepath.Join(h.repo, d), func(p string, fi os.FileInfo, err error) error {
				if err == nil && !fi.IsDir() && strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
					list = append(list, p)
				}
				return nil
			})
		}
		for k := range h.overlay {
			if strings.Contains(k, "/zzverif/h/") || strings.Contains(k, "/zzverif/cli/") || strings.Contains(k, "/pkg/") {
				list = append(list, k)
			}
		}
		for i, p := range list {
			real := p
			if r, ok := ov[p]; ok {
				real = r
			}
			src, err := os.ReadFile(real)
			if err != nil {
				return "", err
			}
			out, changed := rewriteImport(src, "os", "os", "vos")
			if !changed {
				continue
			}
			f := filepath.Join(dir, fmt.Sprintf("s%d_%s", i, filepath.Base(p)))
			if err := os.WriteFile(f, out, 0644); err != nil {
				return "", err
			}
			ov[p] = f
		}
	}
	js, _ := json.Marshal(map[string]any{"Replace": ov})
	ovf := filepath.Join(dir, "overlay.json")
	if err := os.WriteFile(ovf, js, 0644); err != nil {
		return "", err
	}
	bin := filepath.Join(dir, "nrun")
	args := []string{"build", "-tags", "zznative", "-overlay", ovf, "-o", bin}
	if strings.HasSuffix(mode, "race") {
		args = append(args, "-race")
	}
	args = append(args, "./zzverif/nrun")
	cmd := exec.Command("go", args...)
	cmd.Dir = h.repo
	cmd.Env = goEnv()
	if strings.HasSuffix(mode, "race") {
		cmd.Env = append(cmd.Env, "CGO_ENABLED=1")
	}
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("native build (%s): %v: %s", mode, err, tail(string(out), 1500))
	}
	if h.cli != "" && mode == "real" {
		cmd := exec.Command("go", "build", "-o", filepath.Join(dir, "tool"), "./cmd/"+h.cli)
		cmd.Dir = h.repo
		cmd.Env = goEnv()
		if out, err := cmd.CombinedOutput(); err != nil {
			return "", fmt.Errorf("building the tool: %v: %s", err, tail(string(out), 1500))
		}
	}
	return bin, nil
}

// rewriteImport replaces an import by its model.
func rewriteImport(src []byte, path, name, model string) ([]byte, bool) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "x.go", src, parser.ImportsOnly)
	if err != nil {
		return src, false
	}
	for _, im := range f.Imports {
		if s, _ := strconv.Unquote(im.Path.Value); s == path {
			a := fset.Position(im.Pos()).Offset
			b := fset.Position(im.End()).Offset
			if im.Name != nil {
				name = im.Name.Name
			}
			var o bytes.Buffer
			o.Write(src[:a])
			o.WriteString(name + ` "` + vpath + model + `"`)
			o.Write(src[b:])
			return o.Bytes(), true
		}
	}
	return src, false
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

// run executes jobs, restarting the driver after a hang or crash.
func (n *Native) run(mode string, jobs []Job, limit time.Duration) ([]Res, error) {
	bin, err := n.build(mode)
	if err != nil {
		return nil, err
	}
	base, err := os.MkdirTemp(n.h.tmp, "run")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(base)
	var out []Res
	end := time.Now().Add(limit)
	for len(jobs) > 0 && time.Now().Before(end) {
		sh := "ulimit -v 12000000; exec " + bin + " " + base
		if strings.HasSuffix(mode, "race") {
			sh = "exec " + bin + " " + base
		}
		cmd := exec.Command("bash", "-c", sh)
		cmd.Dir = base
		cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66", "GOTRACEBACK=single")
		if n.h.cli != "" && mode == "real" {
			cmd.Env = append(cmd.Env, "ZZCLI="+filepath.Join(filepath.Dir(bin), "tool"))
		}
		stdin, _ := cmd.StdinPipe()
		stdout, _ := cmd.StdoutPipe()
		var stderr limBuf
		cmd.Stderr = &stderr
		if err := cmd.Start(); err != nil {
			return out, err
		}
		batch := jobs
		if strings.HasSuffix(mode, "race") {
			batch = jobs[:1]
		}
		go func() {
			w := bufio.NewWriter(stdin)
			e := json.NewEncoder(w)
			for _, j := range batch {
				if e.Encode(j) != nil {
					return
				}
			}
			w.Flush()
			stdin.Close()
		}()
		timer := time.AfterFunc(time.Until(end)+5*time.Second, func() { cmd.Process.Kill() })
		got := 0
		dec := json.NewDecoder(bufio.NewReaderSize(stdout, 1<<20))
		for {
			var r Res
			if err := dec.Decode(&r); err != nil {
				break
			}
			out = append(out, r)
			got++
		}
		io.Copy(io.Discard, stdout)
		cmd.Wait()
		timer.Stop()
		if got < len(batch) {
			es := stderr.String()
			last := got > 0 && out[len(out)-1].Status == "hang"
			if !last && time.Now().Before(end) {
				r := Res{ID: batch[got].ID, Status: "crash", Msg: tail(es, 3000)}
				if strings.Contains(es, "WARNING: DATA RACE") {
					r.Race = true
				}
				out = append(out, r)
				got++
			}
			if got == 0 {
				break
			}
		}
		jobs = jobs[got:]
	}
	return out, nil
}

type limBuf struct{ b bytes.Buffer }

func (l *limBuf) Write(p []byte) (int, error) {
	if l.b.Len() < 1<<16 {
		l.b.Write(p)
	}
	return len(p), nil
}
func (l *limBuf) String() string { return l.b.String() }
