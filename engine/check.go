package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Finding is one line of known-findings.json.
type Finding struct {
	Property string `json:"property"`
	Status   string `json:"status"` // known or fixed
	Entry    string `json:"entry,omitempty"`
	Msg      string `json:"msg,omitempty"`
	What     string `json:"what"`
	Commit   string `json:"commit,omitempty"`
}

type replayFile struct {
	Property string            `json:"property"`
	Entry    string            `json:"entry"`
	Mode     string            `json:"mode"`
	Msg      string            `json:"message"`
	Vals     map[string]uint64 `json:"inputs"`
	Tier     bool              `json:"thorough"`
	Reps     int               `json:"repetitions"`
	Native   Res               `json:"native_result"`
	Howto    string            `json:"howto"`
}

type entryReport struct {
	Entry     string         `json:"entry"`
	Seconds   float64        `json:"seconds"`
	Exhausted bool           `json:"all_paths_explored"`
	Stats     Stats          `json:"stats"`
	Reduced   map[string]int `json:"reduced_bounds,omitempty"`
	Covers    map[string]int `json:"reachability_witnesses"`
	Viols     []*Violation   `json:"counterexamples,omitempty"`
}

func envInt(k string, d int64) int64 {
	if v, err := strconv.ParseInt(os.Getenv(k), 10, 64); err == nil {
		return v
	}
	return d
}

func cmdCheck(args []string) int {
	if len(args) == 0 {
		return 2
	}
	prop := args[0]
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	verif := fs.String("verif", "/verif", "")
	repo := fs.String("repo", "/repo", "")
	dt := os.Getenv("VERIF_TIER")
	if dt == "" {
		dt = "quick"
	}
	tier := fs.String("tier", dt, "")
	budget := fs.Int("budget", 0, "seconds of exploration")
	only := fs.String("entry", "", "")
	noev := fs.Bool("noevidence", false, "")
	fs.Parse(args[1:])
	seed := envInt("VERIF_SEED", 1)
	t0 := time.Now()
	thorough := *tier == "thorough"
	secs := *budget
	if secs == 0 {
		secs = 400
		if thorough {
			secs = 700
		}
	}
	h, err := prepare(*repo, filepath.Join(*verif, "harness"), prop)
	if err != nil {
		fmt.Println("error:", err)
		return 2
	}
	defer h.cleanup()
	p, err := h.load()
	if err != nil {
		fmt.Println("error:", err)
		return 2
	}
	nat := newNative(h)
	// build the native drivers while exploring
	var modes []string
	for _, e := range h.entries {
		m := "real"
		if e.Vos {
			m = "vos"
		}
		modes = append(modes, m)
	}
	go func() {
		for _, m := range uniq(modes) {
			nat.build(m)
		}
	}()

	known := loadFindings(filepath.Join(*verif, "known-findings.json"))
	var reps []*entryReport
	var total Stats
	funcs, stubs := map[string]bool{}, map[string]int{}
	var bad []string
	type found struct {
		e Entry
		v *Violation
	}
	var viols []found
	type smp struct {
		e       Entry
		s       Sample
		partial bool
	}
	var samples []smp
	var none, unsound []string
	tried := 0
	end := t0.Add(time.Duration(secs) * time.Second)
	var list []Entry
	for _, e := range h.entries {
		if *only == "" || e.Func == *only {
			list = append(list, e)
		}
	}
	for i, e := range list {
		left := time.Until(end)
		// an even share, but at least a few seconds each
		share := left / time.Duration(len(list)-i) * 2
		if share > left {
			share = left
		}
		if share < 5*time.Second {
			share = 5 * time.Second
		}
		f := p.byPath[vpath+"h"].Func(e.Func)
		x := &Explorer{p: p, entry: f, name: e.Func, thorough: thorough, deadline: time.Now().Add(share), maxSteps: 300_000_000,
			seed: seed, nwork: runtime.NumCPU(), known: func(msg string) bool { return isKnown(known, prop, e.Func, msg) }}
		if thorough {
			x.maxSteps = 1_000_000_000
		}
		t1 := time.Now()
		x.run()
		r := &entryReport{Entry: e.Func, Seconds: round(time.Since(t1).Seconds()), Exhausted: x.exhausted, Stats: x.stats, Reduced: x.incs, Covers: x.covers, Viols: x.viols}
		reps = append(reps, r)
		total.add(&x.stats)
		for k := range x.funcs {
			funcs[k] = true
		}
		for k, n := range x.stubs {
			stubs[k] += n
		}
		if x.stats.Ok == 0 && len(x.viols) == 0 {
			none = append(none, e.Func+": no path completed: "+strings.Join(sortedKeys(x.incs), "; "))
		}
		for _, v := range x.viols {
			viols = append(viols, found{e, v})
			if lim := time.Now().Add(60 * time.Second); !isKnown(known, prop, e.Func, v.Msg) && lim.Before(end) {
				end = lim
			}
		}
		for _, w := range x.aud.refuted {
			unsound = append(unsound, e.Func+": "+w)
		}
		for _, s := range pick(x.samples, 24, seed) {
			samples = append(samples, smp{e, s, false})
		}
		for _, s := range pick(x.partial, 24, seed) {
			samples = append(samples, smp{e, s, true})
		}
		fmt.Printf("%s: %d paths (%d complete), %d assertions (%d decided by the solver), %d queries, %.1fs%s\n", e.Func, x.stats.Paths, x.stats.Ok,
			x.stats.Asserts, x.stats.AssertsSolver, x.stats.Queries, time.Since(t1).Seconds(), incNote(x))
	}

	type outcome struct {
		prop, msg, entry, replay string
	}
	var reported []outcome
	var unrepro []string
	knownHit := map[int]bool{}
	nrep := 0
	rdir := filepath.Join(*verif, "replays")
	report := func(e Entry, mode, msg string, vals map[string]uint64, reps int, r Res) {
		for _, o := range reported {
			if o.msg == msg && o.entry == e.Func {
				return
			}
		}
		for i, k := range known {
			if k.matches(prop, e.Func, msg) {
				knownHit[i] = true
				return
			}
		}
		nrep++
		os.MkdirAll(rdir, 0755)
		path := filepath.Join(rdir, fmt.Sprintf("%s-%d.json", prop, nrep))
		b, _ := json.MarshalIndent(replayFile{prop, e.Func, mode, msg, vals, thorough, reps, r, "/verif/bin/gosym replay " + path}, "", " ")
		os.WriteFile(path, b, 0644)
		reported = append(reported, outcome{prop, msg, e.Func, path})
	}
	for _, f := range viols {
		ok := false
		tries := append([]map[string]uint64{f.v.Vals}, f.v.Others...)
		for _, mr := range replayModes(f.e, f.v.Msg, f.v.Gs > 1) {
			for _, vals := range tries {
				rs, err := nat.run(mr.mode, []Job{{ID: 0, Entry: f.e.Func, Vals: vals, Tier: thorough, Reps: mr.reps}}, 90*time.Second)
				if err != nil {
					bad = append(bad, err.Error())
					break
				}
				if len(rs) == 0 {
					continue
				}
				if msg, hit := failing(rs[0], f.v.Msg); hit {
					report(f.e, mr.mode, msg, vals, mr.reps, rs[0])
					ok = true
					break
				}
			}
			if ok {
				break
			}
		}
		if !ok {
			b, _ := json.Marshal(f.v.Vals)
			unrepro = append(unrepro, fmt.Sprintf("%s: %s with %s", f.e.Func, f.v.Msg, b))
		}
	}

	// sampled complete paths against the real code
	validated, mism := 0, 0
	var mismText []string
	var outSamples []any
	for _, mode := range uniq(modes) {
		var jobs []Job
		for i, s := range samples {
			if (mode == "vos") == s.e.Vos {
				jobs = append(jobs, Job{ID: i, Entry: s.e.Func, Vals: s.s.Vals, Tier: thorough, Reps: 1})
			}
		}
		if len(jobs) == 0 {
			continue
		}
		rs, err := nat.run(mode, jobs, 200*time.Second)
		if err != nil {
			bad = append(bad, err.Error())
			continue
		}
		for _, r := range rs {
			s := samples[r.ID]
			if r.Status == "hang" {
				// not just slow: once more, alone
				if rs, err := nat.run(mode, []Job{{ID: 0, Entry: s.e.Func, Vals: s.s.Vals, Tier: thorough, Reps: 1}}, 90*time.Second); err == nil && len(rs) == 1 && rs[0].Status != "hang" {
					continue
				}
			}
			if msg, hit := failing(r, ""); hit {
				report(s.e, mode, msg, s.s.Vals, 1, r)
				continue
			}
			if s.partial {
				tried++
				continue
			}
			if r.Status != "ok" {
				mism++
				mismText = append(mismText, fmt.Sprintf("%s: native %s %s", s.e.Func, r.Status, r.Msg))
				continue
			}
			// goroutines observe in the order of their schedule
			same := strings.Join(r.Obs, "\n") == strings.Join(s.s.Obs, "\n") || s.s.Gs > 1 && sameSet(r.Obs, s.s.Obs)
			if !same || !sameSet(r.Covers, s.s.Cover) {
				mism++
				b, _ := json.Marshal(s.s)
				mismText = append(mismText, fmt.Sprintf("%s: observed %v covers %v natively, %s symbolically", s.e.Func, r.Obs, r.Covers, b))
				continue
			}
			validated++
		}
	}
	for _, s := range pickSmp(len(samples), 8) {
		outSamples = append(outSamples, samples[s].s)
	}

	viol := 0
	for i, k := range known {
		if knownHit[i] {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", k.Property, k.What)
		}
	}
	for _, o := range reported {
		fmt.Printf("violated in %s: %s\n", o.entry, o.msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", o.prop, o.replay)
		viol++
	}
	if !*noev {
		writeEvidence(*verif, prop, *tier, seed, time.Since(t0).Seconds(), reps, total, funcs, stubs, validated, mism, unrepro, outSamples, viol)
	}
	fmt.Printf("%s: %d paths, %d assertions, %d solver queries (%.1fs solver time), %d traces validated, %.1fs\n", prop, total.Paths, total.Asserts, total.Queries,
		float64(total.SolverMS)/1000, validated, time.Since(t0).Seconds())
	if viol > 0 {
		return 1
	}
	code := 0
	// A candidate the real code refutes is no violation, and no answer is lost
	// with it: it is reported here and in the evidence. GOSYM_STRICT makes such
	// cases fail, for work on the engine itself.
	strict := os.Getenv("GOSYM_STRICT") != ""
	for _, u := range unrepro {
		fmt.Println("note: counterexample dropped, the real code does not show it:", u)
		if strict {
			code = 2
		}
	}
	for _, u := range unsound {
		fmt.Println("note: the solver refutes a step of the preprocessing:", u)
		if strict {
			code = 2
		}
	}
	for _, m := range mismText {
		fmt.Println("note: engine and real code disagree:", m)
		if strict {
			code = 2
		}
	}
	// An entry none of whose paths could be followed to its end was checked on
	// the concrete inputs found so far; if that goes for all, there is no answer.
	if len(none) > 0 && (strict || total.Ok == 0) {
		bad = append(bad, none...)
	} else {
		for _, n := range none {
			fmt.Println("note:", n)
		}
	}
	if tried > 0 {
		fmt.Printf("note: %d inputs of paths that could not be followed to their end were tried on the real code\n", tried)
	}
	for _, b := range uniq(bad) {
		fmt.Println("error:", b)
		code = 2
	}
	return code
}

func round(f float64) float64 { return float64(int(f*100)) / 100 }

func uniq(a []string) []string {
	m := map[string]bool{}
	var r []string
	for _, s := range a {
		if !m[s] {
			m[s] = true
			r = append(r, s)
		}
	}
	return r
}

func sameSet(a, b []string) bool {
	x := append([]string(nil), a...)
	y := append([]string(nil), b...)
	sort.Strings(x)
	sort.Strings(y)
	return strings.Join(x, "\n") == strings.Join(y, "\n")
}

func incNote(x *Explorer) string {
	if len(x.incs) == 0 {
		return ""
	}
	var s []string
	for _, k := range sortedKeys(x.incs) {
		s = append(s, fmt.Sprintf("%d× %s", x.incs[k], k))
	}
	return " [bound reduced: " + strings.Join(s, "; ") + "]"
}

// pick spreads over the samples' cover classes.
func pick(s []Sample, n int, seed int64) []Sample {
	if len(s) <= n {
		return s
	}
	var r []Sample
	off := int(mix(uint64(seed)) % uint64(len(s)))
	for i := 0; i < n; i++ {
		r = append(r, s[(off+i*len(s)/n)%len(s)])
	}
	return r
}

func pickSmp(n, k int) []int {
	var r []int
	for i := 0; i < k && i < n; i++ {
		r = append(r, i*n/k)
	}
	if n > 0 && n < k {
		r = r[:0]
		for i := 0; i < n; i++ {
			r = append(r, i)
		}
	}
	return r
}

type modeReps struct {
	mode string
	reps int
}

func replayModes(e Entry, msg string, gs bool) []modeReps {
	base := "real"
	if e.Vos {
		base = "vos"
	}
	if strings.HasPrefix(msg, "data race") {
		return []modeReps{{"race", 40}, {"vosrace", 40}}
	}
	if gs {
		return []modeReps{{base, 1}, {base, 1000}, {"vos", 3000}, {"race", 40}}
	}
	return []modeReps{{base, 1}, {base, 300}}
}

// failing judges a native run; want is the engine's message ("" for any).
func failing(r Res, want string) (string, bool) {
	switch r.Status {
	case "panic":
		l := strings.SplitN(r.Msg, "\n", 2)[0]
		return l, true
	case "hang":
		if strings.HasPrefix(want, "deadlock") || want == "" {
			return "deadlock or endless loop", true
		}
		return want, true
	case "crash":
		if r.Race {
			return "data race", true
		}
		if strings.Contains(r.Msg, "out of memory") || strings.Contains(r.Msg, "cannot allocate") {
			return "allocation out of proportion: out of memory", true
		}
		if strings.Contains(r.Msg, "fatal error") || strings.Contains(r.Msg, "panic:") {
			for _, l := range strings.Split(r.Msg, "\n") {
				if strings.HasPrefix(l, "fatal error") || strings.HasPrefix(l, "panic:") {
					return l, true
				}
			}
		}
		return "", false
	}
	if len(r.Fails) > 0 {
		for _, f := range r.Fails {
			if f == want {
				return f, true
			}
		}
		return r.Fails[0], true
	}
	return "", false
}

func (k *Finding) matches(prop, entry, msg string) bool {
	return k.Status == "known" && k.Property == prop && (k.Entry == "" || k.Entry == entry) && k.Msg == msg
}

func isKnown(l []Finding, prop, entry, msg string) bool {
	for i := range l {
		if l[i].matches(prop, entry, msg) {
			return true
		}
	}
	return false
}

func loadFindings(p string) []Finding {
	b, err := os.ReadFile(p)
	if err != nil {
		return nil
	}
	var f []Finding
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Println("known-findings.json:", err)
	}
	return f
}

func writeEvidence(verif, prop, tier string, seed int64, wall float64, reps []*entryReport, total Stats, funcs map[string]bool, stubs map[string]int,
	validated, mism int, unrepro []string, samples []any, viol int) {
	os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	var fns []string
	for _, f := range sortedKeys(funcs) {
		if !strings.Contains(f, "/zzverif/") {
			fns = append(fns, f)
		}
	}
	exh := true
	bounds := []string{}
	for _, r := range reps {
		exh = exh && r.Exhausted && len(r.Reduced) == 0
		if t := boundText[r.Entry]; t != "" {
			bounds = append(bounds, r.Entry+": "+t)
		}
	}
	cov := map[string]any{
		"states":                        total.Ok,
		"transitions":                   total.Steps,
		"traces_validated_against_impl": validated,
		"samples":                       samples,
		"exhaustive":                    false,
		"bounded_space_fully_explored":  exh,
		"explanation": "states: complete symbolic paths (each covers every input satisfying its path condition); transitions: SSA instructions executed symbolically; " +
			"assertions on each path are decided by z3 over all values of the symbolic inputs.",
		"entries":                 reps,
		"functions_encoded":       fns,
		"functions_encoded_count": len(fns),
		"paths":                   total.Paths,
		"assertions_checked":      total.Asserts,
		"assertions_by_solver":    total.AssertsSolver,
		"assertions_by_rewriting": total.AssertsTriv,
		"queries":                 total.Queries,
		"queries_without_answer":  total.Unknown,
		"solver_ms":               total.SolverMS,
		"solver":                  "z3 (z3-new -in), QF_BV with definitions",
		"forked_branches":         total.Forks,
		"branches_decided_unsat":  total.Forced,
		"merged_branches":         total.Merges,
		"max_goroutines":          total.MaxGoroutines,
		"audit_of_preprocessing": map[string]any{
			"what": "results of term rewriting and conditions decided by facts of the path, sampled by shape and derived again by the solver from their unsimplified form",
			"rewrites_proved": total.Audited, "facts_proved": total.AuditedFacts, "no_answer": total.AuditUnknown, "refuted": total.AuditRefuted,
			"identities_asked": lemmas.Asked, "identities_proved": lemmas.Proved, "identities_used": lemmas.Folded},
		"stubs_reached":           stubs,
		"validation_mismatches":   mism,
		"counterexamples_dropped": unrepro,
		"bounds":                  bounds,
	}
	as := []string{
		"os, fmt, errors and sroar are replaced by the models in /verif/harness (in-memory files, symbolic formatting, abstract id sets); sampled paths are replayed against the real packages",
		"sync, sync/atomic, time, sort, math/bits and strconv formatting are interpreted by engine intrinsics; all other library code is executed from its SSA",
		"nothing is claimed beyond the stated bounds",
	}
	ev := map[string]any{"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "assumptions": as, "wall_s": round(wall), "violations": viol}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fmt.Println("evidence:", err)
		return
	}
	os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), append(b, '\n'), 0644)
}

// cmdReplay runs a recorded counterexample against the real code.
func cmdReplay(args []string) int {
	b, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Println(err)
		return 2
	}
	h, err := prepare("/repo", "/verif/harness", rf.Property)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer h.cleanup()
	rs, err := newNative(h).run(rf.Mode, []Job{{Entry: rf.Entry, Vals: rf.Vals, Tier: rf.Tier, Reps: rf.Reps}}, 120*time.Second)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	for _, r := range rs {
		o, _ := json.MarshalIndent(r, "", " ")
		fmt.Println(string(o))
		if _, hit := failing(r, rf.Msg); hit {
			return 1
		}
	}
	return 0
}
