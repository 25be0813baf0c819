package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Prog is the loaded, type-checked and SSA-built program under analysis.
type Prog struct {
	fieldsAsFields bool // formatting: what a field holds is shown as the field

	Repo   string
	Fset   *token.FileSet
	Prog   *ssa.Program
	Pkg    *ssa.Package // package parser
	Main   *ssa.Package // command
	TPkg   *types.Package
	Info   *types.Info
	Syntax []*ast.File
	MainP  *packages.Package
	ParsP  *packages.Package

	Funcs   []*ssa.Function // all functions of package parser with bodies, deterministic order
	ExprT   *types.Interface
	Nodes   []*types.Named // struct types T such that *T implements Expr
	NodeSet map[*types.Named]bool
	FileOf  map[*ssa.Function]string
}

func load(repo string) (*Prog, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: repo,
		Env: append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local", "GOWORK=off"),
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var msgs []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			msgs = append(msgs, e.Error())
		}
	}
	if len(msgs) > 0 {
		return nil, fmt.Errorf("the repository does not type-check: %s", strings.Join(msgs, "; "))
	}
	if pkgs, err = withInlined(cfg, pkgs); err != nil {
		return nil, err
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	P := &Prog{Repo: repo, Prog: prog, FileOf: map[*ssa.Function]string{}, NodeSet: map[*types.Named]bool{}}
	for i, p := range pkgs {
		switch p.Name {
		case "parser":
			P.Pkg, P.TPkg, P.Info, P.Syntax, P.ParsP = spkgs[i], p.Types, p.TypesInfo, p.Syntax, p
			P.Fset = p.Fset
		case "main":
			P.Main, P.MainP = spkgs[i], p
		}
	}
	if P.Pkg == nil || P.Main == nil {
		return nil, fmt.Errorf("packages parser and main not both found")
	}
	all := ssautil.AllFunctions(prog)
	for f := range all {
		if f.Blocks == nil {
			continue
		}
		pkg := f.Pkg
		if pkg == nil && f.Origin() != nil {
			pkg = f.Origin().Pkg
		}
		if pkg == nil && f.Parent() != nil {
			pkg = f.Parent().Pkg
		}
		if pkg == P.Pkg {
			P.Funcs = append(P.Funcs, f)
			P.FileOf[f] = filepath.Base(P.Fset.Position(f.Pos()).Filename)
		}
	}
	sort.Slice(P.Funcs, func(i, j int) bool { return P.Funcs[i].String() < P.Funcs[j].String() })
	if o := P.TPkg.Scope().Lookup("Expr"); o != nil {
		P.ExprT, _ = o.Type().Underlying().(*types.Interface)
	}
	if P.ExprT == nil {
		return nil, fmt.Errorf("interface Expr not found")
	}
	for _, n := range P.TPkg.Scope().Names() {
		tn, ok := P.TPkg.Scope().Lookup(n).(*types.TypeName)
		if !ok || tn.IsAlias() {
			continue
		}
		nt, ok := tn.Type().(*types.Named)
		if !ok {
			continue
		}
		if _, ok := nt.Underlying().(*types.Struct); !ok {
			continue
		}
		if types.Implements(types.NewPointer(nt), P.ExprT) {
			P.Nodes = append(P.Nodes, nt)
			P.NodeSet[nt] = true
		}
	}
	return P, nil
}

func (P *Prog) pos(p token.Pos) string {
	ps := P.Fset.Position(p)
	rel, err := filepath.Rel(P.Repo, ps.Filename)
	if err != nil {
		rel = ps.Filename
	}
	return fmt.Sprintf("%s:%d", rel, ps.Line)
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// structOf returns the named struct type behind t or *t, or nil.
func structOf(t types.Type) (*types.Named, *types.Struct) {
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	n, ok := t.(*types.Named)
	if !ok {
		return nil, nil
	}
	s, ok := n.Underlying().(*types.Struct)
	if !ok {
		return nil, nil
	}
	return n, s
}

func shortFn(f *ssa.Function) string {
	s := f.RelString(f.Package().Pkg)
	return s
}
func fnName(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	if f.Package() == nil {
		return f.String()
	}
	return f.RelString(f.Package().Pkg)
}

func (P *Prog) fn(name string) *ssa.Function {
	for _, f := range P.Funcs {
		if fnName(f) == name {
			return f
		}
	}
	return nil
}
