package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
	"golang.org/x/tools/go/ssa/ssautil"
)

const vpath = "vibe-lsm/zzverif/"

// Program is the loaded SSA program shared by all workers.
type Program struct {
	prog    *ssa.Program
	byPath  map[string]*ssa.Package
	redir   map[string]string // package path -> model package path
	mu      sync.Mutex
	fns     map[*ssa.Function]*Fn
	gidx    map[*ssa.Global]int
	globals []*ssa.Global
	rtErr   types.Type
	meth    map[methKey]*ssa.Function
	rtypes  *typeutil.Map
	rtypeT  types.Type
	repoDir string
	overlay map[string]string // virtual path -> real path
}

type methKey struct {
	t types.Type
	m string
}

func Load(repo string, ov map[string]string, patterns []string) (*Program, error) {
	ovb := map[string][]byte{}
	for k, v := range ov {
		b, err := os.ReadFile(v)
		if err != nil {
			return nil, err
		}
		ovb[k] = b
	}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes,
		Dir:     repo,
		Overlay: ovb,
		Env:     append(os.Environ(), "GOFLAGS=-mod=readonly", "CGO_ENABLED=0"),
	}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		sort.Strings(errs)
		if len(errs) > 10 {
			errs = errs[:10]
		}
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics|ssa.SanityCheckFunctions&0)
	p := &Program{prog: prog, byPath: map[string]*ssa.Package{}, fns: map[*ssa.Function]*Fn{}, gidx: map[*ssa.Global]int{},
		meth: map[methKey]*ssa.Function{}, repoDir: repo, overlay: ov}
	for _, pk := range prog.AllPackages() {
		p.byPath[pk.Pkg.Path()] = pk
	}
	p.redir = map[string]string{
		"os":                         vpath + "vos",
		"fmt":                        vpath + "vfmt",
		"errors":                     vpath + "verrors",
		"github.com/weaviate/sroar": vpath + "vset",
	}
	// everything is built up front: workers only read the SSA afterwards
	prog.Build()
	if vr := p.byPath[vpath+"vrt"]; vr != nil {
		if t := vr.Type("RuntimeError"); t != nil {
			p.rtErr = t.Type()
		}
	}
	return p, nil
}

func (p *Program) ensureBuilt(fn *ssa.Function) {
	if fn.Blocks != nil {
		return
	}
	pk := fn.Pkg
	if pk == nil && fn.Origin() != nil {
		pk = fn.Origin().Pkg
	}
	if pk == nil {
		if o := fn.Object(); o != nil && o.Pkg() != nil {
			pk = p.byPath[o.Pkg().Path()]
		}
	}
	if pk != nil {
		pk.Build()
	}
}

func fnPkgPath(fn *ssa.Function) string {
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if o := fn.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg.Pkg.Path()
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	if fn.Parent() != nil {
		return fnPkgPath(fn.Parent())
	}
	return ""
}

// redirect finds the model function standing in for fn, if any.
func (p *Program) redirect(fn *ssa.Function) *ssa.Function {
	path := fnPkgPath(fn)
	to, ok := p.redir[path]
	if !ok || fn.Parent() != nil {
		return nil
	}
	mp := p.byPath[to]
	if mp == nil {
		return nil
	}
	if recv := fn.Signature.Recv(); recv != nil {
		t := recv.Type()
		ptr := false
		if pt, ok := t.(*types.Pointer); ok {
			t, ptr = pt.Elem(), true
		}
		nt, ok := t.(*types.Named)
		if !ok {
			return nil
		}
		mt := mp.Type(nt.Obj().Name())
		if mt == nil {
			return nil
		}
		var rt types.Type = mt.Type()
		if ptr {
			rt = types.NewPointer(rt)
		}
		sel := p.prog.MethodSets.MethodSet(rt).Lookup(mp.Pkg, fn.Name())
		if sel == nil {
			return nil
		}
		return p.prog.MethodValue(sel)
	}
	if f := mp.Func(fn.Name()); f != nil {
		return f
	}
	return nil
}

func (p *Program) globalIndex(g *ssa.Global) int {
	if to, ok := p.redir[g.Pkg.Pkg.Path()]; ok {
		if mp := p.byPath[to]; mp != nil {
			if mg := mp.Var(g.Name()); mg != nil {
				g = mg
			}
		}
	}
	if i, ok := p.gidx[g]; ok {
		return i
	}
	i := len(p.globals)
	p.gidx[g] = i
	p.globals = append(p.globals, g)
	return i
}

// lookupMethod finds the implementation of method id on dynamic type t.
func (p *Program) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	k := methKey{t, m.Id()}
	p.mu.Lock()
	defer p.mu.Unlock()
	if f, ok := p.meth[k]; ok {
		return f
	}
	var f *ssa.Function
	sel := p.prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel != nil {
		f = p.prog.MethodValue(sel)
	}
	p.meth[k] = f
	return f
}
