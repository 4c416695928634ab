package main

// Loading: the repository's packages, type-checked, in SSA form.

import (
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/WatchBeam/rtmp"

type World struct {
	repo string
	prog *ssa.Program
	pkgs map[string]*ssa.Package // by path
	mod  map[*ssa.Package]bool   // packages of the repository
	fset interface{}
	// number of source files and functions of the repository
	nFiles, nFuncs int
	loadErrs       []string
	inits          *State // state after package initialisation
	initEvs        []*Event
	changed        map[*Obj]bool
	volatile       map[*Obj]bool // what of it operations change
}

// loadWorld type-checks the repository's current source. verif is the folder
// of this framework, which supplies the signatures of the one dependency that
// the sandbox does not have.
func loadWorld(repo, verif string) (*World, error) {
	tmp, err := os.MkdirTemp("", "rtmpcheck")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(tmp)
	stub := filepath.Join(verif, "stubs", "amf0")
	gomod := fmt.Sprintf("module %s\n\ngo 1.23\n\nrequire github.com/WatchBeam/amf0 v0.0.0\n\nreplace github.com/WatchBeam/amf0 => %s\n", modPath, stub)
	if err := os.WriteFile(filepath.Join(tmp, "go.mod"), []byte(gomod), 0o644); err != nil {
		return nil, err
	}
	if err := os.WriteFile(filepath.Join(tmp, "go.sum"), nil, 0o644); err != nil {
		return nil, err
	}
	ov := map[string]map[string]string{"Replace": {
		filepath.Join(repo, "go.mod"): filepath.Join(tmp, "go.mod"),
		filepath.Join(repo, "go.sum"): filepath.Join(tmp, "go.sum"),
	}}
	js, _ := json.Marshal(ov)
	ovf := filepath.Join(tmp, "overlay.json")
	if err := os.WriteFile(ovf, js, 0o644); err != nil {
		return nil, err
	}
	env := []string{}
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "CGO_ENABLED=") || strings.HasPrefix(e, "GOWORK=") {
			continue
		}
		env = append(env, e)
	}
	env = append(env, "GOFLAGS=-mod=mod -overlay="+ovf, "CGO_ENABLED=0", "GOWORK=off", "GOTOOLCHAIN=local", "GOPROXY=off")
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Env: env}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	w := &World{repo: repo, pkgs: map[string]*ssa.Package{}, mod: map[*ssa.Package]bool{}}
	bad := map[string]bool{}
	inMod := func(path string) bool { return path == modPath || strings.HasPrefix(path, modPath+"/") }
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if p.IllTyped {
			bad[p.PkgPath] = true
		}
		if inMod(p.PkgPath) {
			for _, e := range p.Errors {
				errs = append(errs, e.Error())
			}
			w.nFiles += len(p.CompiledGoFiles)
		}
	})
	// The packages that do not type-check are left out, with those that need
	// them; the rules about them then fail, and only those.
	sort.Strings(errs)
	w.loadErrs = errs
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	w.prog = prog
	for _, p := range prog.AllPackages() {
		if p.Pkg == nil || bad[p.Pkg.Path()] {
			continue
		}
		w.pkgs[p.Pkg.Path()] = p
		if inMod(p.Pkg.Path()) {
			w.mod[p] = true
		}
	}
	for f := range ssautil.AllFunctions(prog) {
		if f.Pkg != nil && w.mod[f.Pkg] && f.Synthetic == "" {
			w.nFuncs++
		}
	}
	return w, nil
}

func (w *World) pkg(rel string) *ssa.Package {
	if rel == "" {
		return w.pkgs[modPath]
	}
	return w.pkgs[modPath+"/"+rel]
}

// fn looks up a package-level function.
func (w *World) fn(rel, name string) *ssa.Function {
	p := w.pkg(rel)
	if p == nil {
		return nil
	}
	return p.Func(name)
}

// typ looks up a named type.
func (w *World) typ(rel, name string) types.Type {
	p := w.pkg(rel)
	if p == nil {
		return nil
	}
	if m := p.Type(name); m != nil {
		return m.Type()
	}
	return nil
}

// method looks up a method of T or *T.
func (w *World) method(t types.Type, name string) *ssa.Function {
	for _, tt := range []types.Type{t, types.NewPointer(t)} {
		ms := w.prog.MethodSets.MethodSet(tt)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == name {
				return w.prog.MethodValue(ms.At(i))
			}
		}
	}
	return nil
}

// modFuncs are the functions and methods of the repository, sorted.
func (w *World) modFuncs() []*ssa.Function {
	var out []*ssa.Function
	for f := range ssautil.AllFunctions(w.prog) {
		if f.Pkg != nil && w.mod[f.Pkg] && f.Synthetic == "" {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool {
		if a, b := out[i].String(), out[j].String(); a != b {
			return a < b
		}
		return out[i].Pos() < out[j].Pos()
	})
	return out
}

// unexported fields of a struct type, by predicate on their type.
func structFields(t types.Type) []*types.Var {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	var out []*types.Var
	for i := 0; i < s.NumFields(); i++ {
		out = append(out, s.Field(i))
	}
	return out
}

func fieldIndex(t types.Type, name string) int {
	for i, f := range structFields(t) {
		if f.Name() == name {
			return i
		}
	}
	return -1
}
