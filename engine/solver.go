package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type satRes int

const (
	resUnsat satRes = iota
	resSat
	resUnknown
)

// Solver drives one z3 process. Definitions live in the current path scope.
type Solver struct {
	cmd     *exec.Cmd
	in      *bufio.Writer
	inc     io.Closer
	out     *bufio.Reader
	defs    map[*Term]string
	decl    []*Term
	fp      bool // real floating point (otherwise uninterpreted)
	ufs     map[string]bool
	paths   int
	timeout int
	queries int64
	unknown int64
	time    time.Duration
	dead    bool
	path    bool
	err     string
	note    string
}

var slowMS, _ = strconv.Atoi(os.Getenv("GOSYM_SLOW"))

var z3Bin = "z3-new"

func newSolver(fp bool, timeoutMS int) *Solver {
	s := &Solver{fp: fp, timeout: timeoutMS}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(z3Bin, "-in", "-memory:3000")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := s.cmd.Start(); err != nil {
		panic(fmt.Sprintf("cannot start %s: %v", z3Bin, err))
	}
	s.in, s.inc, s.out = bufio.NewWriterSize(in, 1<<16), in, bufio.NewReaderSize(out, 1<<16)
	s.dead, s.path = false, false
	s.send("(set-option :print-success false)")
	s.send(fmt.Sprintf("(set-option :timeout %d)", s.timeout))
	s.send("(set-option :model.completion true)")
}

func (s *Solver) send(l string) { s.in.WriteString(l); s.in.WriteByte('\n') }

func (s *Solver) close() {
	if s.cmd == nil {
		return
	}
	s.send("(exit)")
	s.in.Flush()
	s.inc.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
	s.cmd = nil
}

func (s *Solver) beginPath() {
	if s.cmd == nil || s.dead || s.paths > 1500 {
		s.close()
		s.start()
		s.paths = 0
	}
	if s.path {
		s.send("(pop 1)")
	}
	s.send("(push 1)")
	s.path = true
	s.paths++
	s.defs = map[*Term]string{}
	s.decl = nil
	s.ufs = map[string]bool{}
}

func (s *Solver) sortOf(w uint8) string {
	if w == sortFP && !s.fp {
		return "(_ BitVec 64)"
	}
	return smtSort(w)
}

// ref returns an SMT name for t, emitting definitions as required.
func (s *Solver) ref(t *Term) string {
	if n, ok := s.defs[t]; ok {
		return n
	}
	if t.Op == OpConst {
		if t.W == sortFP && !s.fp {
			return fmt.Sprintf("#x%016x", t.C)
		}
		return smtConst(t)
	}
	if t.Op == OpVar || t.Op == OpFVar {
		n := smtName(t.Name)
		s.send("(declare-const " + n + " " + s.sortOf(t.W) + ")")
		s.defs[t] = n
		s.decl = append(s.decl, t)
		return n
	}
	// iterative post-order to avoid deep recursion
	stack := []*Term{t}
	for len(stack) > 0 {
		x := stack[len(stack)-1]
		if _, ok := s.defs[x]; ok || x.Op == OpConst {
			stack = stack[:len(stack)-1]
			continue
		}
		if x.Op == OpVar || x.Op == OpFVar {
			s.ref(x)
			stack = stack[:len(stack)-1]
			continue
		}
		ready := true
		for _, a := range x.A {
			if _, ok := s.defs[a]; !ok && a.Op != OpConst {
				stack = append(stack, a)
				ready = false
			}
		}
		if !ready {
			continue
		}
		stack = stack[:len(stack)-1]
		var body string
		if x.Op >= OpFFromS && !s.fp {
			body = s.ufBody(x)
		} else {
			body = smtBody(x, s.ref)
		}
		n := "t" + strconv.Itoa(x.ID)
		s.send("(define-fun " + n + " () " + s.sortOf(x.W) + " " + body + ")")
		s.defs[x] = n
	}
	return s.defs[t]
}

func (s *Solver) ufBody(x *Term) string {
	if x.Op == OpFFromBits {
		return s.ref(x.A[0])
	}
	if x.Op == OpFSame {
		return "(= " + s.ref(x.A[0]) + " " + s.ref(x.A[1]) + ")"
	}
	name := fmt.Sprintf("uf%d_%d", x.Op, x.W)
	var ar, as []string
	for _, a := range x.A {
		name += "_" + strconv.Itoa(int(a.W))
		ar = append(ar, s.sortOf(a.W))
		as = append(as, s.ref(a))
	}
	if !s.ufs[name] {
		s.ufs[name] = true
		s.send("(declare-fun " + name + " (" + strings.Join(ar, " ") + ") " + s.sortOf(x.W) + ")")
	}
	return "(" + name + " " + strings.Join(as, " ") + ")"
}

func (s *Solver) assert(t *Term) {
	n := s.ref(t)
	s.send("(assert " + n + ")")
}

func (s *Solver) readLine() (string, bool) {
	l, err := s.out.ReadString('\n')
	if err != nil {
		s.dead = true
		return "", false
	}
	return strings.TrimSpace(l), true
}

// check decides the asserted path condition together with t.
func (s *Solver) check(t *Term) (satRes, Model) {
	if s.dead {
		return resUnknown, nil
	}
	st := time.Now()
	defer func() {
		d := time.Since(st)
		s.time += d
		if slowMS > 0 && d > time.Duration(slowMS)*time.Millisecond {
			fmt.Fprintf(os.Stderr, "SLOW %dms %s\n", d.Milliseconds(), s.note)
		}
	}()
	n := s.ref(t)
	s.send("(push 1)")
	s.send("(assert " + n + ")")
	s.send("(check-sat)")
	s.in.Flush()
	s.queries++
	// the solver's own timeout does not cover all its phases
	proc := s.cmd.Process
	timer := time.AfterFunc(time.Duration(s.timeout)*time.Millisecond+4*time.Second, func() { proc.Kill() })
	l, ok := s.readLine()
	timer.Stop()
	for ok && strings.HasPrefix(l, "(error") {
		s.err = l
		// a broken script decides nothing
		s.dead = true
		s.unknown++
		return resUnknown, nil
	}
	if !ok {
		s.unknown++
		return resUnknown, nil
	}
	switch l {
	case "unsat":
		s.send("(pop 1)")
		return resUnsat, nil
	case "sat":
		m := s.model()
		s.send("(pop 1)")
		if m == nil {
			s.unknown++
			return resUnknown, nil
		}
		return resSat, m
	}
	s.send("(pop 1)")
	s.unknown++
	return resUnknown, nil
}

// quick sets a shorter time limit, or the usual one again.
func (s *Solver) quick(ms int) {
	if ms == 0 {
		ms = s.timeout
	}
	if !s.dead {
		s.send(fmt.Sprintf("(set-option :timeout %d)", ms))
	}
}

// checkText decides the asserted path condition together with a formula given as text.
func (s *Solver) checkText(f string) satRes {
	s.send("(push 1)")
	s.send("(assert " + f + ")")
	s.send("(check-sat)")
	s.in.Flush()
	proc := s.cmd.Process
	timer := time.AfterFunc(time.Duration(s.timeout)*time.Millisecond+4*time.Second, func() { proc.Kill() })
	l, ok := s.readLine()
	timer.Stop()
	if !ok || strings.HasPrefix(l, "(error") {
		if ok {
			s.err = l + " in " + f
		}
		s.dead = true
		return resUnknown
	}
	s.send("(pop 1)")
	switch l {
	case "unsat":
		return resUnsat
	case "sat":
		return resSat
	}
	return resUnknown
}

func (s *Solver) model() Model {
	m := Model{}
	const chunk = 200
	for i := 0; i < len(s.decl); i += chunk {
		e := min(i+chunk, len(s.decl))
		var b strings.Builder
		b.WriteString("(get-value (")
		for _, v := range s.decl[i:e] {
			b.WriteString(s.defs[v])
			b.WriteByte(' ')
		}
		b.WriteString("))")
		s.send(b.String())
		s.in.Flush()
		txt, ok := s.readSexp()
		if !ok {
			return nil
		}
		pos := 0
		for _, v := range s.decl[i:e] {
			nm := s.defs[v]
			k := strings.Index(txt[pos:], nm+" ")
			if k < 0 {
				k = strings.Index(txt[pos:], nm+"\n")
				if k < 0 {
					s.err = "model: " + nm
					return nil
				}
			}
			pos += k + len(nm)
			val, n := parseVal(txt[pos:])
			pos += n
			m[v.Name] = val
		}
	}
	return m
}

func parseVal(t string) (uint64, int) {
	i := 0
	for i < len(t) && (t[i] == ' ' || t[i] == '\n') {
		i++
	}
	r := t[i:]
	switch {
	case strings.HasPrefix(r, "true"):
		return 1, i + 4
	case strings.HasPrefix(r, "false"):
		return 0, i + 5
	case strings.HasPrefix(r, "#x"):
		j := 2
		for j < len(r) && r[j] != ')' && r[j] != ' ' {
			j++
		}
		v, _ := strconv.ParseUint(r[2:j], 16, 64)
		return v, i + j
	case strings.HasPrefix(r, "#b"):
		j := 2
		for j < len(r) && r[j] != ')' && r[j] != ' ' {
			j++
		}
		v, _ := strconv.ParseUint(r[2:j], 2, 64)
		return v, i + j
	case strings.HasPrefix(r, "(fp "):
		j := strings.IndexByte(r, ')')
		f := strings.Fields(r[4:j])
		bits := ""
		for _, x := range f {
			if strings.HasPrefix(x, "#b") {
				bits += x[2:]
			} else {
				for _, c := range x[2:] {
					d, _ := strconv.ParseUint(string(c), 16, 8)
					bits += fmt.Sprintf("%04b", d)
				}
			}
		}
		v, _ := strconv.ParseUint(bits, 2, 64)
		return v, i + j + 1
	case strings.HasPrefix(r, "(_ "):
		j := strings.IndexByte(r, ')')
		switch {
		case strings.Contains(r[:j], "NaN"):
			return 0x7ff8000000000001, i + j + 1
		case strings.Contains(r[:j], "+oo"):
			return 0x7ff0000000000000, i + j + 1
		case strings.Contains(r[:j], "-oo"):
			return 0xfff0000000000000, i + j + 1
		case strings.Contains(r[:j], "-zero"):
			return 0x8000000000000000, i + j + 1
		}
		return 0, i + j + 1
	}
	return 0, i
}

func (s *Solver) readSexp() (string, bool) {
	var b strings.Builder
	depth, bar := 0, false
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			s.dead = true
			return "", false
		}
		if strings.HasPrefix(l, "(error") {
			s.err = l
			s.dead = true
			return "", false
		}
		b.WriteString(l)
		for _, c := range l {
			switch {
			case c == '|':
				bar = !bar
			case bar:
			case c == '(':
				depth++
			case c == ')':
				depth--
			}
		}
		if depth <= 0 {
			return b.String(), true
		}
	}
}
