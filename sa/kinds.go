package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// valueKinds: the kinds of node that the values of the parser can be, found by following values through
// assignments, calls and fields (one set for each parameter, result and field). "any" when something is
// not followed.
type valueKinds struct {
	P       *Prog
	res     map[resAt]map[string]bool
	param   map[resAt]map[string]bool
	field   map[fieldAt]map[string]bool
	changed bool
}

type resAt struct {
	f *ssa.Function
	i int
}

type fieldAt struct {
	n *types.Named
	i int
}

func newValueKinds(P *Prog, e *Engine) *valueKinds {
	k := &valueKinds{P: P, res: map[resAt]map[string]bool{}, param: map[resAt]map[string]bool{}, field: map[fieldAt]map[string]bool{}}
	var fs []*ssa.Function
	for _, f := range P.Funcs {
		if f.Blocks != nil && e.touchesParser(f) {
			fs = append(fs, f)
		}
	}
	for k.changed = true; k.changed; {
		k.changed = false
		for _, f := range fs {
			k.pass(f)
		}
	}
	return k
}

func (k *valueKinds) add(m map[string]bool, from map[string]bool) map[string]bool {
	for t := range from {
		if !m[t] {
			if m == nil {
				m = map[string]bool{}
			}
			m[t] = true
			k.changed = true
		}
	}
	return m
}

// holds: a value of the type may be or hold a node behind an interface.
func (k *valueKinds) holds(t types.Type) bool {
	for {
		sl, ok := types.Unalias(t).Underlying().(*types.Slice)
		if !ok {
			break
		}
		t = sl.Elem()
	}
	if n, _ := structOf(t); n != nil {
		return k.P.NodeSet[n]
	}
	_, ok := types.Unalias(t).Underlying().(*types.Interface)
	return ok && !isErrT(t)
}

func (k *valueKinds) pass(f *ssa.Function) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch y := in.(type) {
			case *ssa.Return:
				for i, r := range y.Results {
					if k.holds(r.Type()) {
						at := resAt{f, i}
						k.res[at] = k.add(k.res[at], k.of(r))
					}
				}
			case *ssa.Store:
				if fa, ok := y.Addr.(*ssa.FieldAddr); ok && k.holds(y.Val.Type()) {
					if n, _ := structOf(fa.X.Type()); n != nil {
						at := fieldAt{n, fa.Field}
						k.field[at] = k.add(k.field[at], k.of(y.Val))
					}
				}
			case ssa.CallInstruction:
				c := y.Common()
				g := c.StaticCallee()
				if g == nil || g.Blocks == nil {
					continue
				}
				for i, a := range c.Args {
					if k.holds(a.Type()) {
						at := resAt{g, i}
						k.param[at] = k.add(k.param[at], k.of(a))
					}
				}
			}
		}
	}
}

func (k *valueKinds) of(v ssa.Value) map[string]bool {
	out := map[string]bool{}
	k.follow(v, out, map[ssa.Value]bool{})
	return out
}

func (k *valueKinds) follow(v ssa.Value, out map[string]bool, seen map[ssa.Value]bool) {
	if seen[v] {
		return
	}
	seen[v] = true
	if c, ok := v.(*ssa.Const); ok && c.Value == nil {
		return
	}
	t := types.Unalias(v.Type())
	for {
		sl, ok := t.Underlying().(*types.Slice)
		if !ok {
			break
		}
		t = types.Unalias(sl.Elem())
	}
	if n, _ := structOf(t); n != nil && k.P.NodeSet[n] {
		out[n.Obj().Name()] = true
		return
	}
	put := func(m map[string]bool) {
		for t := range m {
			out[t] = true
		}
	}
	switch y := v.(type) {
	case *ssa.MakeInterface:
		if n, _ := structOf(y.X.Type()); n == nil || !k.P.NodeSet[n] {
			out["any"] = true
			return
		}
		k.follow(y.X, out, seen)
	case *ssa.ChangeInterface:
		k.follow(y.X, out, seen)
	case *ssa.ChangeType:
		k.follow(y.X, out, seen)
	case *ssa.TypeAssert:
		k.follow(y.X, out, seen)
	case *ssa.Phi:
		for _, e := range y.Edges {
			k.follow(e, out, seen)
		}
	case *ssa.Parameter:
		put(k.param[resAt{y.Parent(), paramIndex(y)}])
	case *ssa.Extract:
		switch z := y.Tuple.(type) {
		case *ssa.Call:
			k.call(z, y.Index, out, seen)
		case *ssa.TypeAssert:
			k.follow(z.X, out, seen)
		default:
			out["any"] = true
		}
	case *ssa.Call:
		k.call(y, 0, out, seen)
	case *ssa.MakeSlice:
	case *ssa.Slice:
		if al, ok := y.X.(*ssa.Alloc); ok {
			for _, u := range *al.Referrers() {
				ia, ok := u.(*ssa.IndexAddr)
				if !ok {
					continue
				}
				for _, q := range *ia.Referrers() {
					if st, ok := q.(*ssa.Store); ok && st.Addr == ssa.Value(ia) {
						k.follow(st.Val, out, seen)
					}
				}
			}
			return
		}
		k.follow(y.X, out, seen)
	case *ssa.UnOp:
		if y.Op != token.MUL {
			out["any"] = true
			return
		}
		switch z := y.X.(type) {
		case *ssa.FieldAddr:
			if n, _ := structOf(z.X.Type()); n != nil {
				put(k.field[fieldAt{n, z.Field}])
				return
			}
			out["any"] = true
		case *ssa.IndexAddr:
			k.follow(z.X, out, seen)
		case *ssa.Alloc:
			for _, u := range *z.Referrers() {
				switch q := u.(type) {
				case *ssa.Store:
					if q.Addr == ssa.Value(z) {
						k.follow(q.Val, out, seen)
					}
				case *ssa.UnOp, *ssa.DebugRef:
				default:
					out["any"] = true
				}
			}
		default:
			out["any"] = true
		}
	default:
		out["any"] = true
	}
}

func (k *valueKinds) call(c *ssa.Call, i int, out map[string]bool, seen map[ssa.Value]bool) {
	if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
		for _, a := range c.Call.Args {
			k.follow(a, out, seen)
		}
		return
	}
	g := c.Call.StaticCallee()
	if g == nil || g.Blocks == nil {
		out["any"] = true
		return
	}
	for t := range k.res[resAt{g, i}] {
		out[t] = true
	}
}
