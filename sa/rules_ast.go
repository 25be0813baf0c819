package main

import (
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// runAST analyses what can be done with a tree the parser has built: every method of every node type,
// for every combination of set and unset fields the parser was found to build, and the tree walkers.
func runAST(P *Prog, e *Engine) *Engine {
	a, err := newEngine(P, "ast")
	if err != nil {
		panic(err)
	}
	for n, c := range e.class {
		d := a.classOf(n)
		for k, sh := range c.shapes {
			d.shapes[k] = sh
		}
		d.joined = append([]bits(nil), c.joined...)
	}
	top := func(f *ssa.Function, from int, args []aval) []aval {
		for i := from; i < len(f.Params); i++ {
			t := f.Params[i].Type()
			b := topOf(t)
			switch t.Underlying().(type) {
			case *types.Pointer, *types.Interface, *types.Signature:
				b = bV // the caller's own arguments are valid
			}
			args = append(args, aval{b: b})
		}
		return args
	}
	walkers := treeFuncs(P)
	for _, f := range walkers {
		a.assumed[f] = true
	}
	any := tokV | tokEOF | tokErr
	for _, f := range walkers {
		for _, b := range []bits{bN, bT} {
			a.getCtx(f, top(f, 1, []aval{{b: b}}), any, "", "").root = true
		}
	}
	for _, n := range P.Nodes {
		c := e.class[n]
		if c == nil {
			continue
		}
		var keys []string
		for k := range c.shapes {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			sh := c.shapes[k]
			for _, f := range methodsOf(P, n) {
				a.getCtx(f, top(f, 1, []aval{{b: bV, sh: sh, pub: true}}), any, "", "").root = true
			}
			for _, f := range walkers {
				a.getCtx(f, top(f, 1, []aval{{b: bV, sh: sh, pub: true, dyn: mkDyn(types.NewPointer(n))}}), any, "", "").root = true
			}
		}
	}
	a.solve()
	a.finish()
	return a
}

// methodsOf lists the exported methods of *n.
func methodsOf(P *Prog, n *types.Named) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range P.Funcs {
		if f.Signature.Recv() == nil || f.Synthetic != "" || f.Parent() != nil || !f.Object().Exported() {
			continue
		}
		if m, _ := structOf(f.Signature.Recv().Type()); m == n {
			out = append(out, f)
		}
	}
	return out
}

// treeFuncs lists the functions that take a node first and branch on its type, calling themselves for the children.
func treeFuncs(P *Prog) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range P.Funcs {
		if f.Signature.Recv() != nil || f.Parent() != nil || len(f.Params) == 0 || !types.Identical(f.Params[0].Type().Underlying(), P.ExprT) {
			continue
		}
		asserts, self := 0, false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.TypeAssert:
					asserts++
				case *ssa.Call:
					if x.Call.StaticCallee() == f {
						self = true
					}
				}
			}
		}
		if self && asserts > 10 {
			out = append(out, f)
		}
	}
	return out
}
