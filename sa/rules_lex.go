package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func (r *Report) lex(e *Engine, rules ...string) *lexResult {
	r.rule("lexform", "the tokenizer is in a form the analysis follows")
	res, err := lexAnalyse(r.P, e)
	if err != nil {
		r.need(false, err.Error())
		return nil
	}
	r.extra["tokenizer_functions_analysed"] = res.functions
	r.extra["tokenizer_outcomes"] = res.paths
	for _, n := range append(rules, "lexform") {
		r.ob(n, res.ob[n])
		for i, v := range res.bad {
			if v.rule == n {
				r.fnBad(n, res.badFn[i], v.pos, "%s", v.what)
			}
		}
	}
	return res
}

// reachable lists the package functions reachable from the roots: static calls,
// closures, and every method an interface call can mean.
func reachable(P *Prog, e *Engine, roots ...*ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	byName := map[string][]*ssa.Function{}
	for _, f := range P.Funcs {
		if f.Signature.Recv() != nil {
			byName[f.Name()] = append(byName[f.Name()], f)
		}
	}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Blocks == nil || !e.inPkg(f) {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && c.Common().IsInvoke() {
					m := c.Common().Method
					it, _ := c.Common().Value.Type().Underlying().(*types.Interface)
					for _, g := range byName[m.Name()] {
						if it == nil || types.Implements(g.Signature.Recv().Type(), it) {
							visit(g)
						}
					}
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						visit(g)
					}
				}
			}
		}
	}
	for _, f := range roots {
		visit(f)
	}
	return seen
}

// stateRule: what parsing changes in the parser and the tokenizer is either part of
// the saved state, or does not depend on how far reading has got.
func stateRule(P *Prog, r *Report, e *Engine) {
	root := P.fn("(*Parser).ParseStmts")
	if !r.need(root != nil, "(*Parser).ParseStmts") {
		return
	}
	fns := reachable(P, e, root)
	callers := map[*ssa.Function][]ssa.CallInstruction{}
	for f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil {
						callers[g] = append(callers[g], c)
					}
				}
			}
		}
	}
	owner := func(v ssa.Value) (*types.Named, int, bool) {
		fa, ok := v.(*ssa.FieldAddr)
		if !ok {
			return nil, 0, false
		}
		n, _ := structOf(fa.X.Type())
		if n == nil {
			return nil, 0, false
		}
		if n == e.parserT || n == e.lexerT {
			return n, fa.Field, true
		}
		return n, fa.Field, false
	}
	name := func(n *types.Named, i int) string {
		return n.Obj().Name() + "." + n.Underlying().(*types.Struct).Field(i).Name()
	}
	// fields of the two types written while parsing
	written := map[fieldID]bool{}
	for f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if n, i, ok := owner(x.Addr); ok && !isAllocBase(x.Addr) {
						written[fieldID{n, i}] = true
					}
				case *ssa.MapUpdate:
					if ld, ok := x.Map.(*ssa.UnOp); ok {
						if n, i, ok := owner(ld.X); ok {
							written[fieldID{n, i}] = true
						}
					}
				}
			}
		}
	}
	var pure func(v ssa.Value, d int) bool // depends on nothing that parsing changes
	pure = func(v ssa.Value, d int) bool {
		if d > 10 {
			return false
		}
		switch x := v.(type) {
		case *ssa.Const, *ssa.Function, *ssa.Builtin, *ssa.MakeMap, *ssa.Alloc, *ssa.MakeSlice:
			return true
		case *ssa.UnOp:
			if x.Op == token.MUL {
				if n, i, ok := owner(x.X); ok {
					return !written[fieldID{n, i}]
				}
				if _, ok := x.X.(*ssa.Global); ok {
					return true
				}
				return false
			}
			return pure(x.X, d+1)
		case *ssa.Call:
			g := x.Call.StaticCallee()
			if g == nil {
				return false
			}
			if rt := recvOf(g); isNamed(deref(rt), e.parserT) || isNamed(deref(rt), e.lexerT) {
				return false
			}
			for _, a := range x.Call.Args {
				if !pure(a, d+1) {
					return false
				}
			}
			return true
		case *ssa.BinOp:
			return pure(x.X, d+1) && pure(x.Y, d+1)
		case *ssa.Slice:
			return pure(x.X, d+1)
		case *ssa.ChangeType:
			return pure(x.X, d+1)
		case *ssa.Convert:
			return pure(x.X, d+1)
		}
		return false
	}
	for f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					n, i, ok := owner(x.Addr)
					if n == e.tokenT {
						r.ob("state", 1)
						if !isAllocBase(x.Addr) && !ownToken(e, f, x) {
							r.fnBad("state", f, x.Pos(), "changes a token that has already been produced (%s)", name(n, i))
						}
						continue
					}
					if !ok || isAllocBase(x.Addr) {
						continue
					}
					if isNamed(n.Underlying().(*types.Struct).Field(i).Type(), e.lstateT) {
						continue // the saved state itself
					}
					r.ob("state", 1)
					if !pure(x.Val, 0) {
						r.fnBad("state", f, x.Pos(), "changes %s, which giving back a saved state does not undo", name(n, i))
					}
				case *ssa.MapUpdate:
					ld, ok := x.Map.(*ssa.UnOp)
					if !ok {
						continue
					}
					n, i, ok := owner(ld.X)
					if !ok {
						continue
					}
					r.ob("state", 1)
					if !failureMemo(e, x, x.Key, callers, 0) {
						r.fnBad("state", f, x.Pos(), "records something in %s that is not a failure of an abandoned attempt at its own starting position", name(n, i))
					}
				}
			}
		}
	}
}

// ownToken: the token changed was read by this very function after it moved on, so
// no state saved earlier can hold it.
func ownToken(e *Engine, f *ssa.Function, st *ssa.Store) bool {
	v := st.Addr.(*ssa.FieldAddr).X
	var def ssa.Instruction
	switch x := v.(type) {
	case *ssa.Call:
		if g := x.Call.StaticCallee(); g == nil || advances(e, g, map[*ssa.Function]bool{}) {
			return false
		}
		def = x
	case *ssa.UnOp:
		def = x
	default:
		return false
	}
	moved := false
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok && isNamed(v.Type(), e.lstateT) {
				return false
			}
			if c, ok := in.(ssa.CallInstruction); ok && instrDominates(in, def) {
				if g := c.Common().StaticCallee(); g == e.consume {
					moved = true
				}
			}
		}
	}
	return moved
}

func isAllocBase(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.Alloc:
			return true
		default:
			return false
		}
	}
}

// failureMemo: the record is made only after an attempt failed, under the position
// taken before the attempt's state was saved, and that state is then given back.
func failureMemo(e *Engine, in ssa.Instruction, key ssa.Value, callers map[*ssa.Function][]ssa.CallInstruction, d int) bool {
	f := in.Parent()
	if p, ok := key.(*ssa.Parameter); ok && d < 3 {
		idx := -1
		for i, q := range f.Params {
			if q == p {
				idx = i
			}
		}
		cs := callers[f]
		if idx < 0 || len(cs) == 0 {
			return false
		}
		for _, c := range cs {
			if !failureMemo(e, c, c.Common().Args[idx], callers, d+1) {
				return false
			}
		}
		return true
	}
	kc, ok := key.(*ssa.Call)
	if !ok {
		return false
	}
	if g := kc.Call.StaticCallee(); g == nil || !isNamed(g.Signature.Results().At(0).Type(), e.posT) || g.Signature.Params().Len() != 0 {
		return false
	}
	// the failed attempt: an error result known to be non-nil here
	var attempt ssa.Instruction
	for _, fact := range domFacts(in) {
		if fact.op != token.NEQ {
			continue
		}
		v := fact.x
		if c, ok := v.(*ssa.Const); ok && c.Value == nil {
			v = fact.y
		}
		if v.Type().String() != "error" {
			continue
		}
		if ex, ok := v.(*ssa.Extract); ok {
			attempt, _ = ex.Tuple.(ssa.Instruction)
		} else {
			attempt, _ = v.(ssa.Instruction)
		}
	}
	if attempt == nil {
		return false
	}
	// between the position and the attempt only the state is saved
	saves, restores := false, false
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok && isNamed(v.Type(), e.lstateT) && instrDominates(kc, i) && instrDominates(i, attempt) {
				saves = true
			}
			if c, ok := i.(ssa.CallInstruction); ok && instrDominates(attempt, i) {
				for _, a := range c.Common().Args {
					if isNamed(a.Type(), e.lstateT) && (instrDominates(in, i) || instrDominates(i, in)) {
						restores = true
					}
				}
			}
			if st, ok := i.(*ssa.Store); ok && isNamed(st.Val.Type(), e.lstateT) && instrDominates(attempt, i) {
				restores = true
			}
			if c, ok := i.(ssa.CallInstruction); ok && i != ssa.Instruction(kc) && instrDominates(kc, i) && instrDominates(i, attempt) && i != attempt {
				g := c.Common().StaticCallee()
				if g == nil || e.touchesParser(g) && advances(e, g, map[*ssa.Function]bool{}) {
					return false
				}
			}
		}
	}
	return saves && restores
}

// advances: g may reach the tokenizer's step.
func advances(e *Engine, g *ssa.Function, seen map[*ssa.Function]bool) bool {
	if g == e.consume {
		return true
	}
	if seen[g] || g.Blocks == nil {
		return false
	}
	seen[g] = true
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if h := c.Common().StaticCallee(); h != nil && advances(e, h, seen) {
					return true
				}
			}
		}
	}
	return false
}

func instrDominates(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		for _, i := range a.Block().Instrs {
			if i == a {
				return i != b
			}
			if i == b {
				return false
			}
		}
	}
	return a.Block().Dominates(b.Block())
}
