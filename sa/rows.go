package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Facts about the rows of constant tables: struct types whose only values are composite literals
// built during package initialisation (and the zero value), and facts about integers passed between
// functions.

type row struct {
	f map[int]*constant.Value // known constant fields; nil entry: unknown
	n map[int]int64           // lengths of slice fields; -1 unknown
}

var rowMu sync.Mutex
var rowMemo = map[*types.Named][]*row{}
var rowOK = map[*types.Named]bool{}

// rowsOf gives the possible values of struct type n, when they all come from literals in init.
func rowsOf(P *Prog, n *types.Named) ([]*row, bool) {
	rowMu.Lock()
	defer rowMu.Unlock()
	if ok, done := rowOK[n]; done {
		return rowMemo[n], ok
	}
	rowOK[n] = false
	st, isS := n.Underlying().(*types.Struct)
	if !isS || P.NodeSet[n] || n.Obj().Pkg() != P.TPkg {
		return nil, false
	}
	type rowKey = *ssa.Alloc
	rows := map[rowKey]*row{}
	var order []*row
	fns := append([]*ssa.Function(nil), P.Funcs...)
	if in := P.Pkg.Func("init"); in != nil {
		fns = append(fns, in)
	}
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Alloc:
					m, _ := structOf(x.Type())
					if m != n {
						continue
					}
					if f.Name() == "init" && f.Parent() == nil {
						r := &row{f: map[int]*constant.Value{}, n: map[int]int64{}}
						rows[x] = r
						order = append(order, r)
						for _, ref := range *x.Referrers() {
							switch y := ref.(type) {
							case *ssa.FieldAddr:
								for _, r2 := range *y.Referrers() {
									s, ok := r2.(*ssa.Store)
									if !ok || s.Addr != ssa.Value(y) {
										return nil, false
									}
									if k, ok := s.Val.(*ssa.Const); ok && k.Value != nil {
										v := k.Value
										r.f[y.Field] = &v
									} else if sl, ok := s.Val.(*ssa.Slice); ok && sl.Low == nil && sl.High == nil {
										r.f[y.Field] = nil
										if at, ok := deref(sl.X.Type()).Underlying().(*types.Array); ok {
											r.n[y.Field] = at.Len()
										} else {
											r.n[y.Field] = -1
										}
									} else {
										r.f[y.Field] = nil
										r.n[y.Field] = -1
									}
								}
							case *ssa.UnOp:
							default:
								return nil, false
							}
						}
						continue
					}
					// elsewhere: a variable holding a copy
					for _, ref := range *x.Referrers() {
						switch y := ref.(type) {
						case *ssa.Store:
							if y.Addr != ssa.Value(x) {
								return nil, false
							}
						case *ssa.UnOp, *ssa.DebugRef:
						case *ssa.FieldAddr:
						default:
							return nil, false
						}
					}
				case *ssa.FieldAddr:
					m, _ := structOf(x.X.Type())
					if m != n || f.Name() == "init" && f.Parent() == nil {
						continue
					}
					for _, ref := range *x.Referrers() {
						if u, ok := ref.(*ssa.UnOp); ok && u.Op == token.MUL {
							continue
						}
						if _, ok := ref.(*ssa.DebugRef); ok {
							continue
						}
						return nil, false
					}
				}
			}
		}
	}
	zero := &row{f: map[int]*constant.Value{}, n: map[int]int64{}}
	order = append(order, zero)
	for _, r := range order {
		for i := 0; i < st.NumFields(); i++ {
			if _, ok := r.f[i]; ok {
				continue
			}
			var v constant.Value
			switch t := st.Field(i).Type().Underlying().(type) {
			case *types.Slice, *types.Map:
				r.f[i] = nil
				r.n[i] = 0
				continue
			case *types.Basic:
				switch {
				case t.Info()&types.IsBoolean != 0:
					v = constant.MakeBool(false)
				case t.Info()&types.IsInteger != 0:
					v = constant.MakeInt64(0)
				case t.Info()&types.IsString != 0:
					v = constant.MakeString("")
				}
			}
			if v == nil {
				r.f[i] = nil
				continue
			}
			r.f[i] = &v
		}
	}
	rowMemo[n], rowOK[n] = order, true
	return order, true
}

// rowField: v reads field i of a table row held in base.
func rowField(v ssa.Value) (n *types.Named, base ssa.Value, i int) {
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				m, _ := structOf(fa.X.Type())
				return m, fa.X, fa.Field
			}
		}
	case *ssa.Field:
		m, _ := structOf(x.X.Type())
		return m, x.X, x.Field
	}
	return nil, nil, 0
}

// onlyStore: the local variable is assigned once.
func stableBase(v ssa.Value) bool {
	al, ok := v.(*ssa.Alloc)
	if !ok {
		return true
	}
	n := 0
	for _, ref := range *al.Referrers() {
		if s, ok := ref.(*ssa.Store); ok && s.Addr == v {
			n++
		}
	}
	return n <= 1
}

// rowLtLen proves idx < len(x) from what all rows of x's table have in common.
func (r *run) rowLtLen(in ssa.Instruction, x, idx ssa.Value) bool {
	n, base, fi := rowField(x)
	if n == nil || !stableBase(base) {
		return false
	}
	rows, ok := rowsOf(r.e.P, n)
	if !ok {
		return false
	}
	l := linOf(idx)
	facts, bools := domFacts(in), domBools(in)
	for _, rw := range rows {
		ln, ok := rw.n[fi]
		if !ok || ln < 0 {
			ln = 0
		}
		ruled := false
		for _, b := range bools {
			if m, bb, i := rowField(b.v); m == n && bb == base && rw.f[i] != nil && (*rw.f[i]).Kind() == constant.Bool && constant.BoolVal(*rw.f[i]) != b.want {
				ruled = true
			}
		}
		bound := false // idx < len here
		if l.base == nil && l.k < ln {
			bound = true
		}
		for _, f := range facts {
			for _, g := range []cmpFact{f, {swapOp(f.op), f.y, f.x}} {
				m, bb, i := rowField(g.y)
				if m != n || bb != base || rw.f[i] == nil || (*rw.f[i]).Kind() != constant.Int {
					continue
				}
				c, _ := constant.Int64Val(*rw.f[i])
				a := linOf(g.x)
				if a.base != nil && l.base != nil && sameVal(a.base, l.base, 0) {
					// base + a.k op c
					switch g.op {
					case token.LSS:
						if l.k-a.k+c-1 < ln {
							bound = true
						}
					case token.LEQ, token.EQL:
						if l.k-a.k+c < ln {
							bound = true
						}
					}
					// base >= 0, so a row with c <= 0 is ruled out
					if g.op == token.LSS && a.k >= 0 && c <= a.k && r.nonNeg(a.base) {
						ruled = true
					}
				}
			}
		}
		if !bound && !ruled {
			return false
		}
	}
	return true
}

type boolFact struct {
	v    ssa.Value
	want bool
}

// domBools lists the boolean values known when control is at in.
func domBools(in ssa.Instruction) []boolFact {
	var out []boolFact
	b := in.Block()
	for d := b.Idom(); d != nil; d = d.Idom() {
		iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		for side, s := range d.Succs {
			if s == d.Succs[1-side] || !s.Dominates(b) || len(s.Preds) != 1 {
				continue
			}
			c, want := iff.Cond, side == 0
			for {
				u, ok := c.(*ssa.UnOp)
				if !ok || u.Op != token.NOT {
					break
				}
				c, want = u.X, !want
			}
			out = append(out, boolFact{c, want})
		}
	}
	return out
}

// nonNeg: the integer is not negative, followed through parameters and results.
func (r *run) nonNeg(v ssa.Value) bool {
	return nonNeg(v) || r.nonNegX(v, map[ssa.Value]bool{}, 0)
}

func (r *run) nonNegX(v ssa.Value, seen map[ssa.Value]bool, d int) bool {
	if seen[v] {
		return true
	}
	if d > 40 {
		return false
	}
	seen[v] = true
	ret := func(f *ssa.Function, i int) bool {
		if f == nil || f.Blocks == nil {
			return false
		}
		for _, b := range f.Blocks {
			if x, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && !r.nonNegX(x.Results[i], seen, d+1) {
				return false
			}
		}
		return true
	}
	switch x := v.(type) {
	case *ssa.Const:
		return x.Value != nil && isIntConst(x) && x.Int64() >= 0
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !r.nonNegX(e, seen, d+1) {
				return false
			}
		}
		return true
	case *ssa.BinOp:
		if nonNeg(x) {
			return true
		}
		switch x.Op {
		case token.ADD, token.MUL, token.QUO:
			return r.nonNegX(x.X, seen, d+1) && r.nonNegX(x.Y, seen, d+1)
		}
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return ret(c.Call.StaticCallee(), x.Index)
		}
	case *ssa.Call:
		if nonNeg(x) {
			return true
		}
		if f := x.Call.StaticCallee(); f != nil && f.Signature.Results().Len() == 1 {
			return ret(f, 0)
		}
	case *ssa.Parameter:
		f := x.Parent()
		pi := -1
		for i, p := range f.Params {
			if p == x {
				pi = i
			}
		}
		cs, ok := r.e.P.callersOf(f)
		if !ok || len(cs) == 0 || pi < 0 {
			return false
		}
		for _, c := range cs {
			if !r.nonNegX(c.Args[pi], seen, d+1) {
				return false
			}
		}
		return true
	}
	return false
}

// callersOf lists the calls of f; ok is false when f can also be called in other ways.
func (P *Prog) callersOf(f *ssa.Function) (out []*ssa.CallCommon, ok bool) {
	if f.Object() == nil || f.Object().Exported() {
		return nil, false
	}
	for _, g := range P.Funcs {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op != ssa.Value(f) {
						continue
					}
					c, isC := in.(ssa.CallInstruction)
					if !isC || c.Common().Value != ssa.Value(f) {
						return nil, false
					}
					for _, a := range c.Common().Args {
						if a == ssa.Value(f) {
							return nil, false
						}
					}
					out = append(out, c.Common())
				}
			}
		}
	}
	return out, true
}
