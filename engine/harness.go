package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

// Entry is one harness function.
type Entry struct {
	Func string
	Prop string
	Vos  bool // native replay runs against the file-system model (fault injection)
}

// Harness is the set of overlay files of one check.
type Harness struct {
	repo    string
	dir     string
	prop    string
	overlay map[string]string // virtual -> real
	entries []Entry
	tmp     string
	cli     string // command mirrored as package cli
}

// cliOf are the commands that properties are about.
var cliOf = map[string]string{"C20": "vibecol", "C25": "loadtest"}

var entryRE = regexp.MustCompile(`(?m)^func (C\d\d)(V?)_(\w+)\(\)`)

func prepare(repo, dir, prop string) (*Harness, error) {
	h := &Harness{repo: repo, dir: dir, prop: prop, overlay: map[string]string{}}
	tmp, err := os.MkdirTemp("", "gosym")
	if err != nil {
		return nil, err
	}
	h.tmp = tmp
	err = filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		rel, _ := filepath.Rel(dir, p)
		parts := strings.Split(rel, string(filepath.Separator))
		base := filepath.Base(p)
		switch parts[0] {
		case "pkg":
			// in-package wrappers are only added for the property that needs them
			if prop == "C08" {
				h.overlay[filepath.Join(repo, rel)] = p
			}
			return nil
		case "h":
			if strings.HasPrefix(base, "c") && !strings.HasPrefix(base, "common") && base != strings.ToLower(prop)+".go" {
				return nil
			}
		case "nrun":
			return nil
		case "clirun":
			if cliOf[prop] == "" {
				return nil
			}
		case "vrand":
			if prop != "C25" {
				return nil
			}
		}
		h.overlay[filepath.Join(repo, "zzverif", rel)] = p
		if parts[0] == "h" {
			src, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			readBounds(string(src))
			for _, m := range entryRE.FindAllStringSubmatch(string(src), -1) {
				if m[1] == prop {
					h.entries = append(h.entries, Entry{Func: m[1] + m[2] + "_" + m[3], Prop: m[1], Vos: m[2] == "V"})
				}
			}
		}
		return nil
	})
	if err != nil {
		return nil, err
	}
	sort.Slice(h.entries, func(i, j int) bool { return h.entries[i].Func < h.entries[j].Func })
	if len(h.entries) == 0 {
		return nil, fmt.Errorf("no harness entries for %s", prop)
	}
	if h.cli = cliOf[prop]; h.cli != "" {
		if err := h.addCLI(); err != nil {
			return nil, err
		}
	}
	return h, nil
}

// addCLI mirrors a command as an importable package; its random numbers come from the model.
func (h *Harness) addCLI() error {
	src := filepath.Join(h.repo, "cmd", h.cli)
	ents, err := os.ReadDir(src)
	if err != nil {
		return err
	}
	re := regexp.MustCompile(`(?m)^package main\b`)
	for _, e := range ents {
		if e.IsDir() || !strings.HasSuffix(e.Name(), ".go") || strings.HasSuffix(e.Name(), "_test.go") {
			continue
		}
		b, err := os.ReadFile(filepath.Join(src, e.Name()))
		if err != nil {
			return err
		}
		b = []byte(re.ReplaceAllString(string(b), "package cli"))
		b, _ = rewriteImport(b, "math/rand", "rand", "vrand")
		out := filepath.Join(h.tmp, "cli_"+e.Name())
		if err := os.WriteFile(out, b, 0644); err != nil {
			return err
		}
		h.overlay[filepath.Join(h.repo, "zzverif", "cli", e.Name())] = out
	}
	out := filepath.Join(h.tmp, "cli_zz.go")
	if err := os.WriteFile(out, []byte("package cli\n\n// Main is the tool's main function.\nfunc Main() { main() }\n"), 0644); err != nil {
		return err
	}
	h.overlay[filepath.Join(h.repo, "zzverif", "cli", "zz_export.go")] = out
	return nil
}

func (h *Harness) load() (*Program, error) { return Load(h.repo, h.overlay, []string{"./zzverif/h", "./zzverif/vos", "./zzverif/vfmt", "./zzverif/verrors", "./zzverif/vset", "./zzverif/vrt"}) }

func (h *Harness) cleanup() { os.RemoveAll(h.tmp) }

// boundText is filled from the "Bound:" paragraphs of the harness comments.
var boundText = map[string]string{}

func readBounds(src string) {
	var cur []string
	for _, l := range strings.Split(src, "\n") {
		if strings.HasPrefix(l, "// Bound:") {
			cur = []string{strings.TrimSpace(strings.TrimPrefix(l, "// Bound:"))}
			continue
		}
		if strings.HasPrefix(l, "//") && cur != nil {
			cur = append(cur, strings.TrimSpace(strings.TrimPrefix(l, "//")))
			continue
		}
		if m := entryRE.FindStringSubmatch(l); m != nil && cur != nil {
			boundText[m[1]+m[2]+"_"+m[3]] = strings.TrimSpace(strings.Join(cur, " "))
		}
		cur = nil
	}
}
