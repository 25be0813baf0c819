package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// constsOf collects the constants a scalar field of a struct can be given anywhere in the package,
// flow-insensitively: through phis, conversions, parameters, results and other fields. ok is false
// when a value that is not a constant can reach it; zero tells that an object may be made without
// the field being set.
type constSet struct {
	P    *Prog
	vals map[string]constant.Value
	seen map[ssa.Value]bool
	flds map[fieldID]bool
	ok   bool
	n    int
}

var (
	fieldStoresMu sync.Mutex
	fieldStores   map[fieldID][]ssa.Value
	fieldAddrs    map[fieldID]bool // the address goes somewhere else
)

func (P *Prog) storesTo(id fieldID) ([]ssa.Value, bool) {
	fieldStoresMu.Lock()
	defer fieldStoresMu.Unlock()
	if fieldStores == nil {
		fieldStores, fieldAddrs = map[fieldID][]ssa.Value{}, map[fieldID]bool{}
		fns := append([]*ssa.Function(nil), P.Funcs...)
		if in := P.Pkg.Func("init"); in != nil {
			fns = append(fns, in)
		}
		for _, f := range fns {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					fa, ok := in.(*ssa.FieldAddr)
					if !ok {
						continue
					}
					n, _ := structOf(fa.X.Type())
					if n == nil {
						continue
					}
					id := fieldID{n, fa.Field}
					for _, ref := range *fa.Referrers() {
						switch y := ref.(type) {
						case *ssa.Store:
							if y.Addr == ssa.Value(fa) {
								fieldStores[id] = append(fieldStores[id], y.Val)
							} else {
								fieldAddrs[id] = true
							}
						case *ssa.UnOp, *ssa.DebugRef, *ssa.FieldAddr, *ssa.IndexAddr:
						default:
							fieldAddrs[id] = true
						}
					}
				}
			}
		}
	}
	return fieldStores[id], !fieldAddrs[id]
}

func fieldConsts(P *Prog, n *types.Named, i int) (map[string]constant.Value, bool) {
	c := &constSet{P: P, vals: map[string]constant.Value{}, seen: map[ssa.Value]bool{}, flds: map[fieldID]bool{}, ok: true}
	c.field(fieldID{n, i})
	return c.vals, c.ok
}

func (c *constSet) field(id fieldID) {
	if c.flds[id] {
		return
	}
	c.flds[id] = true
	vs, ok := c.P.storesTo(id)
	if !ok {
		c.ok = false
		return
	}
	for _, v := range vs {
		c.value(v)
	}
}

func (c *constSet) value(v ssa.Value) {
	if c.seen[v] || !c.ok {
		return
	}
	c.seen[v] = true
	if c.n++; c.n > 2000 {
		c.ok = false
		return
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil {
			c.vals[x.Value.ExactString()] = x.Value
			return
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			c.value(e)
		}
		return
	case *ssa.ChangeType:
		c.value(x.X)
		return
	case *ssa.Convert:
		c.value(x.X)
		return
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				if n, _ := structOf(fa.X.Type()); n != nil {
					c.field(fieldID{n, fa.Field})
					return
				}
			}
		}
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil && f.Blocks != nil && f.Signature.Results().Len() == 1 && c.P.inPkg(f) {
			c.rets(f, 0)
			return
		}
	case *ssa.Extract:
		if k, ok := x.Tuple.(*ssa.Call); ok {
			if f := k.Call.StaticCallee(); f != nil && f.Blocks != nil && c.P.inPkg(f) {
				c.rets(f, x.Index)
				return
			}
		}
	case *ssa.Parameter:
		if cs, ok := c.P.callersOf(x.Parent()); ok {
			for i, p := range x.Parent().Params {
				if p == x {
					for _, k := range cs {
						c.value(k.Args[i])
					}
				}
			}
			return
		}
	}
	c.ok = false
}

func (c *constSet) rets(f *ssa.Function, i int) {
	for _, b := range f.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			c.value(r.Results[i])
		}
	}
}
