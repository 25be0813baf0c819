package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// A small difference-bound prover: index expressions are reduced to base + constant and compared with
// what the dominating conditions, the loop structure and the non-emptiness facts give.

type lin struct {
	base ssa.Value // nil: constant
	k    int64
}

func linOf(v ssa.Value) lin {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && isIntConst(x) {
			return lin{nil, x.Int64()}
		}
	case *ssa.BinOp:
		if c, ok := x.Y.(*ssa.Const); ok && c.Value != nil && isIntConst(c) {
			l := linOf(x.X)
			switch x.Op {
			case token.ADD:
				l.k += c.Int64()
				return l
			case token.SUB:
				l.k -= c.Int64()
				return l
			}
		}
		if c, ok := x.X.(*ssa.Const); ok && x.Op == token.ADD && c.Value != nil && isIntConst(c) {
			l := linOf(x.Y)
			l.k += c.Int64()
			return l
		}
	case *ssa.Convert:
		return linOf(x.X)
	}
	return lin{v, 0}
}

// sameVal: structurally the same value (same instruction, or the same pure computation on the same operands).
func sameVal(a, b ssa.Value, d int) bool {
	if a == b {
		return true
	}
	if a == nil || b == nil || d > 8 {
		return false
	}
	switch x := a.(type) {
	case *ssa.Const:
		y, ok := b.(*ssa.Const)
		return ok && x.Value != nil && y.Value != nil && x.Value.ExactString() == y.Value.ExactString()
	case *ssa.BinOp:
		y, ok := b.(*ssa.BinOp)
		return ok && x.Op == y.Op && sameVal(x.X, y.X, d+1) && sameVal(x.Y, y.Y, d+1)
	case *ssa.Call:
		y, ok := b.(*ssa.Call)
		if !ok {
			return false
		}
		bx, ok1 := x.Call.Value.(*ssa.Builtin)
		by, ok2 := y.Call.Value.(*ssa.Builtin)
		return ok1 && ok2 && bx.Name() == "len" && by.Name() == "len" && sameVal(x.Call.Args[0], y.Call.Args[0], d+1)
	case *ssa.UnOp:
		y, ok := b.(*ssa.UnOp)
		return ok && x.Op == y.Op && sameVal(x.X, y.X, d+1)
	case *ssa.FieldAddr:
		y, ok := b.(*ssa.FieldAddr)
		return ok && x.Field == y.Field && sameVal(x.X, y.X, d+1)
	case *ssa.Field:
		y, ok := b.(*ssa.Field)
		return ok && x.Field == y.Field && sameVal(x.X, y.X, d+1)
	case *ssa.Convert:
		y, ok := b.(*ssa.Convert)
		return ok && sameVal(x.X, y.X, d+1)
	}
	return false
}

func isLenOf(v, x ssa.Value) bool {
	if m, ok := x.(*ssa.MakeSlice); ok && sameVal(v, m.Len, 0) {
		return true
	}
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	return ok && b.Name() == "len" && sameVal(c.Call.Args[0], x, 0)
}

// conds lists the comparisons known to hold when control is at instruction in.
type cmpFact struct {
	op   token.Token
	x, y ssa.Value
}

func domFacts(in ssa.Instruction) []cmpFact {
	var out []cmpFact
	b := in.Block()
	for d := b.Idom(); d != nil; d = d.Idom() {
		iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		for side, s := range d.Succs {
			if s == d.Succs[1-side] {
				continue
			}
			if s.Dominates(b) && len(s.Preds) == 1 {
				out = append(out, condFacts(iff.Cond, side == 0, 0)...)
			}
		}
	}
	return out
}

func condFacts(c ssa.Value, want bool, d int) []cmpFact {
	if d > 8 {
		return nil
	}
	switch x := c.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return condFacts(x.X, !want, d+1)
		}
	case *ssa.BinOp:
		if isCmp(x.Op) {
			op := x.Op
			if !want {
				op = negate(op)
			}
			return []cmpFact{{op, x.X, x.Y}}
		}
	case *ssa.Phi:
		// a && b (a || b negated): phi of a constant and the second operand
		var rest ssa.Value
		var from *ssa.BasicBlock
		for i, e := range x.Edges {
			if k, ok := e.(*ssa.Const); ok && k.Value != nil {
				if (constBits(k) == bV) == want {
					return nil // the constant edge also satisfies the condition
				}
				continue
			}
			if rest != nil {
				return nil
			}
			rest, from = e, x.Block().Preds[i]
		}
		if rest != nil {
			out := condFacts(rest, want, d+1)
			// the block computing the second operand was reached under the first
			for dd := from; dd != nil; dd = dd.Idom() {
				id := dd.Idom()
				if id == nil || !id.Dominates(x.Block()) {
					break
				}
				if iff, ok := id.Instrs[len(id.Instrs)-1].(*ssa.If); ok {
					for side, s := range id.Succs {
						if s != id.Succs[1-side] && s.Dominates(from) && len(s.Preds) == 1 {
							out = append(out, condFacts(iff.Cond, side == 0, d+1)...)
						}
					}
				}
			}
			return out
		}
	}
	return nil
}

// ltLen proves idx < len(x).
func (r *run) ltLen(s *state, in ssa.Instruction, x, idx ssa.Value) bool {
	l := linOf(idx)
	if at, ok := deref(x.Type()).Underlying().(*types.Array); ok {
		return l.base == nil && l.k >= 0 && l.k < at.Len()
	}
	nonEmpty := s != nil && s.get(x)&bMask == bV
	// an array literal sliced: known length
	if sl, ok := x.(*ssa.Slice); ok {
		if at, ok := deref(sl.X.Type()).Underlying().(*types.Array); ok && sl.Low == nil && sl.High == nil && l.base == nil && l.k < at.Len() {
			return true
		}
	}
	if l.base == nil && l.k == 0 && nonEmpty {
		return true
	}
	if l.base != nil && isLenOf(l.base, x) && l.k <= -1 {
		return true
	}
	if c, ok := l.base.(*ssa.Call); ok && l.k <= -1 { // sort.Search(len(x), f) <= len(x)
		if f := c.Call.StaticCallee(); f != nil && f.String() == "sort.Search" && isLenOf(c.Call.Args[0], x) {
			return true
		}
	}
	if p, ok := l.base.(*ssa.Parameter); ok && l.k <= 0 && searchClosure(p, x) {
		return true
	}
	if ph, ok := l.base.(*ssa.Phi); ok && l.k == 0 && len(r.fi.loops[ph.Block()]) == 0 {
		all := true
		for _, ed := range ph.Edges {
			if !r.ltLen(s, in, x, ed) {
				all = false
			}
		}
		if all {
			return true
		}
	}
	for _, f := range domFacts(in) {
		for _, g := range []cmpFact{f, {swapOp(f.op), f.y, f.x}} {
			a, b := linOf(g.x), linOf(g.y)
			// a op b
			bLen := b.base != nil && isLenOf(b.base, x)
			if bLen && a.base != nil && l.base != nil && sameVal(a.base, l.base, 0) {
				// base + a.k < len + b.k  =>  base + l.k < len if l.k <= a.k - b.k
				switch g.op {
				case token.LSS:
					if l.k <= a.k-b.k {
						return true
					}
				case token.LEQ:
					if l.k < a.k-b.k {
						return true
					}
				}
			}
			if bLen && a.base == nil && l.base == nil {
				// const a.k op len + b.k
				switch g.op {
				case token.LSS:
					if l.k <= a.k-b.k {
						return true
					}
				case token.LEQ:
					if l.k < a.k-b.k {
						return true
					}
				case token.EQL:
					if l.k < a.k-b.k {
						return true
					}
				}
			}
		}
	}
	if r.rowLtLen(in, x, idx) {
		return true
	}
	// decreasing counter that starts below len: phi(len-1, i-1)
	if ph, ok := l.base.(*ssa.Phi); ok && l.k <= 0 {
		okAll := true
		for _, e := range ph.Edges {
			le := linOf(e)
			if le.base != nil && isLenOf(le.base, x) && le.k <= -1 {
				continue
			}
			if le.base == ssa.Value(ph) && le.k <= 0 {
				continue
			}
			if le.base == nil && le.k == 0 && nonEmpty {
				continue
			}
			okAll = false
		}
		if okAll {
			return true
		}
	}
	return false
}

// searchClosure: p is the index parameter of a function literal given to sort.Search(len(x), ...).
func searchClosure(p *ssa.Parameter, x ssa.Value) bool {
	f := p.Parent()
	if f.Parent() == nil || len(f.Params) != 1 {
		return false
	}
	for _, b := range f.Parent().Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok || c.Call.StaticCallee() == nil || c.Call.StaticCallee().String() != "sort.Search" {
				continue
			}
			mc, ok := c.Call.Args[1].(*ssa.MakeClosure)
			if !ok || mc.Fn != ssa.Value(f) {
				continue
			}
			// x is the captured variable (or a load of it)
			var fvar *ssa.FreeVar
			ptr := false
			switch y := x.(type) {
			case *ssa.FreeVar:
				fvar = y
			case *ssa.UnOp:
				fvar, _ = y.X.(*ssa.FreeVar)
				ptr = true
			}
			for i, g := range f.FreeVars {
				if g != fvar {
					continue
				}
				ln, ok := c.Call.Args[0].(*ssa.Call)
				if !ok {
					return false
				}
				if ptr {
					ld, ok := ln.Call.Args[0].(*ssa.UnOp)
					return ok && ld.X == mc.Bindings[i]
				}
				return isLenOf(c.Call.Args[0], mc.Bindings[i])
			}
		}
	}
	return false
}

func swapOp(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GTR
	case token.LEQ:
		return token.GEQ
	case token.GTR:
		return token.LSS
	case token.GEQ:
		return token.LEQ
	}
	return op
}

// geZero proves idx >= 0.
func (r *run) geZero(s *state, in ssa.Instruction, x, idx ssa.Value) bool {
	l := linOf(idx)
	if l.base == nil {
		return l.k >= 0
	}
	if r.nonNeg(idx) {
		return true
	}
	if s != nil && isLenOf(l.base, x) {
		if l.k >= 0 || l.k == -1 && s.get(x)&bMask == bV {
			return true
		}
	}
	if l.k >= 0 && r.nonNeg(l.base) {
		return true
	}
	if p, ok := l.base.(*ssa.Parameter); ok && l.k >= 0 && searchClosure(p, x) {
		return true
	}
	if ph, ok := l.base.(*ssa.Phi); ok && l.k == 0 && len(r.fi.loops[ph.Block()]) == 0 {
		all := true
		for i, ed := range ph.Edges {
			pred := ph.Block().Preds[i]
			if !r.geZero(s, pred.Instrs[len(pred.Instrs)-1], x, ed) && !edgeGE0(pred, ph.Block(), ed) {
				all = false
			}
		}
		if all {
			return true
		}
	}
	if ph, ok := l.base.(*ssa.Phi); ok && l.k >= 0 {
		_ = ph
		if nonNeg(ph) {
			return true
		}
	}
	for _, f := range domFacts(in) {
		for _, g := range []cmpFact{f, {swapOp(f.op), f.y, f.x}} {
			a, b := linOf(g.x), linOf(g.y)
			if a.base != nil && sameVal(a.base, l.base, 0) && b.base == nil {
				switch g.op {
				case token.GEQ: // base + a.k >= b.k
					if l.k >= a.k-b.k {
						return true
					}
				case token.GTR:
					if l.k >= a.k-b.k-1 {
						return true
					}
				}
			}
		}
	}
	return false
}

func (r *run) indexOK(s *state, in ssa.Instruction, x, idx ssa.Value) bool {
	if r.ltLen(s, in, x, idx) && r.geZero(s, in, x, idx) {
		return true
	}
	return false
}

func (r *run) sliceOK(s *state, x *ssa.Slice) bool {
	// low <= high <= len
	le := func(v ssa.Value) bool { // v <= len(x.X)
		l := linOf(v)
		if l.base == nil && l.k == 0 {
			return true
		}
		if l.base != nil && isLenOf(l.base, x.X) && l.k <= 0 {
			return true
		}
		if s.get(x.X)&bMask == bV && l.base == nil && l.k == 1 {
			return true
		}
		for _, f := range domFacts(x) {
			for _, g := range []cmpFact{f, {swapOp(f.op), f.y, f.x}} {
				a, b := linOf(g.x), linOf(g.y)
				if b.base == nil || !isLenOf(b.base, x.X) {
					continue
				}
				if (a.base == nil) != (l.base == nil) || a.base != nil && !sameVal(a.base, l.base, 0) {
					continue
				}
				switch g.op {
				case token.LSS:
					if l.k <= a.k-b.k+1 {
						return true
					}
				case token.LEQ, token.EQL:
					if l.k <= a.k-b.k {
						return true
					}
				}
			}
		}
		return false
	}
	if x.High != nil {
		if !(le(x.High) && r.geZero(s, x, x.X, x.High)) {
			return false
		}
		if x.Low != nil {
			a, b := linOf(x.Low), linOf(x.High)
			if !(a.base == nil && a.k == 0) && !(a.base == b.base && a.k <= b.k) && !(a.base != nil && b.base != nil && sameVal(a.base, b.base, 0) && a.k <= b.k) {
				return false
			}
		}
		return true
	}
	if x.Low != nil {
		return le(x.Low) && r.geZero(s, x, x.X, x.Low)
	}
	return true
}

// edgeGE0: the branch taken from pred to b implies v >= 0.
func edgeGE0(pred, b *ssa.BasicBlock, v ssa.Value) bool {
	iff, ok := pred.Instrs[len(pred.Instrs)-1].(*ssa.If)
	if !ok || pred.Succs[0] == pred.Succs[1] {
		return false
	}
	for _, f := range condFacts(iff.Cond, pred.Succs[0] == b, 0) {
		for _, g := range []cmpFact{f, {swapOp(f.op), f.y, f.x}} {
			c, ok := g.y.(*ssa.Const)
			if !ok || !isIntConst(c) || !sameVal(g.x, v, 0) {
				continue
			}
			if g.op == token.GEQ && c.Int64() >= 0 || g.op == token.GTR && c.Int64() >= -1 {
				return true
			}
		}
	}
	return false
}
