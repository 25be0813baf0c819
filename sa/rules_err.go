package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P18: what an error that parsing returns carries, and that rendering it is safe.

// ---- rendering ----

func runErr(P *Prog, errT *types.Named) (*Engine, error) {
	a, err := newEngine(P, "ast")
	if err != nil {
		return nil, err
	}
	n := 0
	for _, f := range methodsOf(P, errT) {
		args := []aval{{b: bV}}
		for i := 1; i < len(f.Params); i++ {
			b := topOf(f.Params[i].Type())
			switch f.Params[i].Type().Underlying().(type) {
			case *types.Pointer, *types.Interface, *types.Signature:
				b = bV
			}
			args = append(args, aval{b: b})
		}
		a.getCtx(f, args, tokV|tokEOF|tokErr, "", "").root = true
		n++
	}
	if n == 0 {
		return nil, fmt.Errorf("no methods of the error type")
	}
	a.solve()
	a.finish()
	return a, nil
}

// ---- linear facts on the paths of the functions that use the line table ----

type lineVal struct {
	l   *lexp
	tab int // line table number
	str int // string number
	fn  *ssa.Function
	bnd []lineVal
	c   *lineCond
	tup []lineVal
	adr string
	bo  int8 // 1 true, 2 false
}

type lineCond struct {
	op   token.Token
	a, b lexp
	neg  bool
}

type lineElem struct{ idx, val lexp }

type lineState struct {
	lst
	elems []lineElem
	conds []string
	count map[int]int
}

func (s *lineState) clone() *lineState {
	n := &lineState{count: map[int]int{}}
	n.facts = append([]lexp(nil), s.facts...)
	n.elems = append([]lineElem(nil), s.elems...)
	for k, v := range s.count {
		n.count[k] = v
	}
	return n
}

type lineOut struct {
	ret []lineVal
	s   *lineState
}

type lineEval struct {
	P      *Prog
	tabT   *types.Named
	nsym   lsym
	tabLen lsym
	strLen lsym
	proved map[token.Pos]bool
	failed map[token.Pos]bool
	lost   bool
	fuel   int
	search []token.Pos
}

func (x *lineEval) sym() lexp { x.nsym++; return ls(x.nsym) }

func isTabT(t types.Type, n *types.Named) bool {
	m, ok := types.Unalias(t).(*types.Named)
	return ok && m == n
}

func (x *lineEval) top(t types.Type) lineVal {
	if isTabT(t, x.tabT) {
		return lineVal{tab: 1}
	}
	if isStr(t) {
		return lineVal{str: 1}
	}
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
		l := x.sym()
		return lineVal{l: &l}
	}
	return lineVal{}
}

func (x *lineEval) val(env map[ssa.Value]lineVal, v ssa.Value) lineVal {
	if c, ok := v.(*ssa.Const); ok {
		if n, ok := constInt(c.Value); ok {
			l := lk(n)
			return lineVal{l: &l}
		}
		if c.Value != nil && c.Value.Kind() == constant.Bool {
			if constant.BoolVal(c.Value) {
				return lineVal{bo: 1}
			}
			return lineVal{bo: 2}
		}
		return lineVal{}
	}
	if f, ok := v.(*ssa.Function); ok {
		return lineVal{fn: f}
	}
	if w, ok := env[v]; ok {
		return w
	}
	return x.top(v.Type())
}

// elem is the table's element at an index, with what is known of it.
func (x *lineEval) elem(s *lineState, idx lexp) lexp {
	for _, e := range s.elems {
		if eqL(e.idx, idx) {
			return e.val
		}
	}
	if idx.isConst() && idx.k == 0 || s.prove(idx) && s.prove(lk(0).sub(idx)) {
		z := lk(0)
		s.elems = append(s.elems, lineElem{idx, z})
		return z
	}
	v := x.sym()
	s.facts = append(s.facts, v, ls(x.strLen).sub(v))
	for _, e := range s.elems {
		// a later line starts later
		if s.prove(idx.sub(e.idx).plus(-1)) {
			s.facts = append(s.facts, v.sub(e.val).sub(idx.sub(e.idx)))
		} else if s.prove(e.idx.sub(idx).plus(-1)) {
			s.facts = append(s.facts, e.val.sub(v).sub(e.idx.sub(idx)))
		}
	}
	s.elems = append(s.elems, lineElem{idx, v})
	return v
}

func (x *lineEval) oblige(ok bool, pos token.Pos) {
	if ok {
		x.proved[pos] = true
	} else {
		x.failed[pos] = true
	}
}

func (x *lineEval) assume(s *lineState, c lineVal, yes bool) bool {
	if c.bo != 0 {
		return (c.bo == 1) == yes
	}
	if c.c == nil {
		return true
	}
	op := c.c.op
	if yes == c.c.neg {
		op = negate(op)
	}
	d := c.c.a.sub(c.c.b) // a op b
	switch op {
	case token.LSS:
		s.facts = append(s.facts, lk(0).sub(d).plus(-1))
	case token.LEQ:
		s.facts = append(s.facts, lk(0).sub(d))
	case token.GTR:
		s.facts = append(s.facts, d.plus(-1))
	case token.GEQ:
		s.facts = append(s.facts, d)
	case token.EQL:
		s.facts = append(s.facts, d, lk(0).sub(d))
	}
	f := s.facts[len(s.facts)-1]
	if op == token.NEQ {
		return !(d.isConst() && d.k == 0)
	}
	// contradiction?
	return !s.prove(lk(-1).sub(f))
}

func (x *lineEval) exec(f *ssa.Function, args, bnd []lineVal, s *lineState, depth int) []lineOut {
	env := map[ssa.Value]lineVal{}
	for i, p := range f.Params {
		if i < len(args) {
			env[p] = args[i]
		}
	}
	for i, p := range f.FreeVars {
		if i < len(bnd) {
			env[p] = bnd[i]
		}
	}
	var outs []lineOut
	var walk func(b, from *ssa.BasicBlock, k int, env map[ssa.Value]lineVal, s *lineState, on map[int]bool)
	walk = func(b, from *ssa.BasicBlock, k int, env map[ssa.Value]lineVal, s *lineState, on map[int]bool) {
		x.fuel--
		if x.fuel < 0 {
			x.lost = true
			return
		}
		if k == 0 {
			if on[b.Index] {
				return // a loop's later rounds start from anything, below
			}
			on[b.Index] = true
			header := false
			for _, p := range b.Preds {
				if b.Dominates(p) {
					header = true
				}
			}
			nv := map[ssa.Value]lineVal{}
			for _, in := range b.Instrs {
				p, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				if header {
					v := x.top(p.Type())
					if v.l != nil { // a counter that only grows stays above its start
						var init *lexp
						up, down := true, true
						for i, e := range p.Edges {
							if b.Dominates(b.Preds[i]) {
								l := linOf(e)
								if l.base != ssa.Value(p) {
									up, down = false, false
								} else {
									up, down = up && l.k >= 0, down && l.k <= 0
								}
							} else if w := x.val(env, e); w.l != nil && init == nil {
								init = w.l
							} else {
								up, down = false, false
							}
						}
						if up && init != nil {
							s.facts = append(s.facts, v.l.sub(*init))
						}
						if down && init != nil {
							s.facts = append(s.facts, init.sub(*v.l))
						}
					}
					nv[p] = v
					continue
				}
				for i, e := range p.Edges {
					if b.Preds[i] == from {
						nv[p] = x.val(env, e)
					}
				}
			}
			for p, v := range nv {
				env[p] = v
			}
		}
		fork := func(j int, n *lineState) {
			e := make(map[ssa.Value]lineVal, len(env))
			for k, v := range env {
				e[k] = v
			}
			o := make(map[int]bool, len(on))
			for k, v := range on {
				o[k] = v
			}
			walk(b.Succs[j], b, 0, e, n, o)
		}
		for i := k; i < len(b.Instrs); i++ {
			switch in := b.Instrs[i].(type) {
			case *ssa.Phi:
			case *ssa.Jump:
				walk(b.Succs[0], b, 0, env, s, on)
				return
			case *ssa.If:
				c := x.val(env, in.Cond)
				for j := 0; j < 2; j++ {
					n := s.clone()
					if x.assume(n, c, j == 0) {
						fork(j, n)
					}
				}
				return
			case *ssa.Return:
				o := lineOut{s: s}
				for _, v := range in.Results {
					o.ret = append(o.ret, x.val(env, v))
				}
				outs = append(outs, o)
				return
			case *ssa.Panic:
				return
			case *ssa.Call:
				for _, o := range x.call(env, in, s, depth) {
					e := make(map[ssa.Value]lineVal, len(env))
					for k, v := range env {
						e[k] = v
					}
					switch len(o.ret) {
					case 0:
					case 1:
						e[in] = o.ret[0]
					default:
						e[in] = lineVal{tup: o.ret}
					}
					on2 := make(map[int]bool, len(on))
					for k, v := range on {
						on2[k] = v
					}
					walk(b, nil, i+1, e, o.s, on2)
				}
				return
			default:
				x.step(env, in, s)
			}
		}
	}
	walk(f.Blocks[0], nil, 0, env, s, map[int]bool{})
	return outs
}

func (x *lineEval) step(env map[ssa.Value]lineVal, in ssa.Instruction, s *lineState) {
	switch i := in.(type) {
	case *ssa.BinOp:
		a, b := x.val(env, i.X), x.val(env, i.Y)
		if a.l != nil && b.l != nil {
			switch i.Op {
			case token.ADD:
				l := a.l.add(*b.l)
				env[i] = lineVal{l: &l}
				return
			case token.SUB:
				l := a.l.sub(*b.l)
				env[i] = lineVal{l: &l}
				return
			}
			if isCmp(i.Op) {
				env[i] = lineVal{c: &lineCond{op: i.Op, a: *a.l, b: *b.l}}
				return
			}
		}
		env[i] = x.top(i.Type())
	case *ssa.UnOp:
		a := x.val(env, i.X)
		switch {
		case i.Op == token.NOT && a.c != nil:
			c := *a.c
			c.neg = !c.neg
			env[i] = lineVal{c: &c}
		case i.Op == token.NOT && a.bo != 0:
			env[i] = lineVal{bo: 3 - a.bo}
		case i.Op == token.MUL && a.l != nil:
			env[i] = a // an element
		case i.Op == token.MUL && a.tab == 0 && a.str == 0:
			env[i] = x.top(i.Type())
		default:
			env[i] = a
			if !isTabT(i.Type(), x.tabT) && !isStr(i.Type()) {
				env[i] = x.top(i.Type())
			}
		}
	case *ssa.IndexAddr:
		a, k := x.val(env, i.X), x.val(env, i.Index)
		if a.tab == 0 {
			return
		}
		if k.l == nil {
			x.oblige(false, i.Pos())
			return
		}
		ok := s.prove(*k.l) && s.prove(ls(x.tabLen).sub(*k.l).plus(-1))
		x.oblige(ok, i.Pos())
		v := x.elem(s, *k.l)
		env[i] = lineVal{l: &v}
	case *ssa.Index:
		if a := x.val(env, i.X); a.str == 1 {
			k := x.val(env, i.Index)
			x.oblige(k.l != nil && s.prove(*k.l) && s.prove(ls(x.strLen).sub(*k.l).plus(-1)), i.Pos())
		}
		env[i] = x.top(i.Type())
	case *ssa.Lookup:
		if a := x.val(env, i.X); a.str == 1 {
			k := x.val(env, i.Index)
			x.oblige(k.l != nil && s.prove(*k.l) && s.prove(ls(x.strLen).sub(*k.l).plus(-1)), i.Pos())
		}
		env[i] = x.top(i.Type())
	case *ssa.Slice:
		a := x.val(env, i.X)
		if a.str == 1 {
			lo, hi := lk(0), ls(x.strLen)
			ok := true
			if i.Low != nil {
				if v := x.val(env, i.Low); v.l != nil {
					lo = *v.l
				} else {
					ok = false
				}
			}
			if i.High != nil {
				if v := x.val(env, i.High); v.l != nil {
					hi = *v.l
				} else {
					ok = false
				}
			}
			ok = ok && s.prove(lo) && s.prove(hi.sub(lo)) && s.prove(ls(x.strLen).sub(hi))
			x.oblige(ok, i.Pos())
			env[i] = lineVal{}
			if i.Low == nil && i.High == nil {
				env[i] = a
			}
			return
		}
		env[i] = lineVal{}
	case *ssa.ChangeType:
		env[i] = x.val(env, i.X)
	case *ssa.Convert:
		a := x.val(env, i.X)
		if a.l != nil {
			env[i] = a
		} else {
			env[i] = x.top(i.Type())
		}
	case *ssa.Extract:
		if a := x.val(env, i.Tuple); i.Index < len(a.tup) {
			env[i] = a.tup[i.Index]
		}
	case *ssa.MakeClosure:
		w := lineVal{fn: i.Fn.(*ssa.Function)}
		for _, b := range i.Bindings {
			w.bnd = append(w.bnd, x.val(env, b))
		}
		env[i] = w
	case *ssa.Alloc:
		env[i] = lineVal{}
	case *ssa.Store:
		// a parameter that a closure captures lives in a cell
		if al, ok := i.Addr.(*ssa.Alloc); ok {
			env[al] = x.val(env, i.Val)
		}
	}
}

func (x *lineEval) call(env map[ssa.Value]lineVal, in *ssa.Call, s *lineState, depth int) []lineOut {
	c := in.Common()
	var as []lineVal
	for _, a := range c.Args {
		as = append(as, x.val(env, a))
	}
	one := func(v lineVal) []lineOut { return []lineOut{{ret: []lineVal{v}, s: s}} }
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "len":
			var l lexp
			switch {
			case as[0].tab == 1:
				l = ls(x.tabLen)
			case as[0].str == 1:
				l = ls(x.strLen)
			default:
				l = x.sym()
				s.facts = append(s.facts, l)
			}
			return one(lineVal{l: &l})
		case "min", "max":
			if as[0].l != nil && as[1].l != nil && len(as) == 2 {
				d := as[1].l.sub(*as[0].l)
				p, q := s, s.clone()
				p.facts = append(p.facts, d)
				q.facts = append(q.facts, lk(0).sub(d).plus(-1))
				if b.Name() == "max" {
					as[0], as[1] = as[1], as[0]
				}
				return []lineOut{{ret: as[:1], s: p}, {ret: as[1:2], s: q}}
			}
		}
		if c.Signature().Results().Len() == 0 {
			return []lineOut{{s: s}}
		}
		return one(x.top(in.Type()))
	}
	h := c.StaticCallee()
	if h != nil && h.String() == "sort.Search" && as[0].l != nil {
		r := x.sym()
		n := *as[0].l
		s.facts = append(s.facts, r, n.sub(r))
		outs := []lineOut{}
		fn := as[1].fn
		if fn == nil || len(fn.Params) != 1 {
			return one(lineVal{l: &r})
		}
		x.search = append(x.search, in.Pos())
		// the predicate is false just before the result and true at it
		type side struct {
			idx  lexp
			want bool
			none lexp // the fact that there is no such index
		}
		states := []*lineState{s}
		for _, sd := range []side{{r.plus(-1), false, lk(0).sub(r)}, {r, true, r.sub(n)}} {
			var next []*lineState
			for _, st := range states {
				a := st.clone()
				a.facts = append(a.facts, sd.none)
				if !a.prove(lk(-1).sub(sd.none)) {
					next = append(next, a)
				}
				b := st.clone()
				b.facts = append(b.facts, lk(0).sub(sd.none).plus(-1))
				if b.prove(sd.none) {
					continue
				}
				idx := sd.idx
				for _, o := range x.exec(fn, []lineVal{{l: &idx}}, as[1].bnd, b, depth+1) {
					if x.assume(o.s, o.ret[0], sd.want) {
						next = append(next, o.s)
					}
				}
			}
			states = next
		}
		for _, st := range states {
			outs = append(outs, lineOut{ret: []lineVal{{l: &r}}, s: st})
		}
		return outs
	}
	touches := false
	for _, a := range as {
		if a.tab == 1 || a.str == 1 || a.l != nil {
			touches = true
		}
	}
	if h == nil {
		if v := x.val(env, c.Value); v.fn != nil {
			return x.exec(v.fn, as, v.bnd, s, depth+1)
		}
	}
	if h != nil && x.P.inPkg(h) && h.Blocks != nil && touches && depth < 5 {
		return x.exec(h, as, nil, s, depth+1)
	}
	res := c.Signature().Results()
	o := lineOut{s: s}
	for k := 0; k < res.Len(); k++ {
		t := res.At(k).Type()
		v := x.top(t)
		if isStr(t) { // not the input
			v = lineVal{}
		}
		o.ret = append(o.ret, v)
	}
	return []lineOut{o}
}

// ---- the property ----

type errRules struct {
	P    *Prog
	e    *Engine
	r    *Report
	g    *callGraph
	errT *types.Named
	st   *types.Struct
	idx  map[string]int
	okFn map[*ssa.Function]int8
}

func (x *errRules) field(v ssa.Value) (int, bool) {
	fa, ok := v.(*ssa.FieldAddr)
	if !ok {
		return 0, false
	}
	n, _ := structOf(fa.X.Type())
	return fa.Field, n == x.errT
}

// finisher: every non-nil result of the function is an error all of whose parts that
// rendering needs were set on the path.
func (x *errRules) finisher(f *ssa.Function) bool {
	switch x.okFn[f] {
	case 1:
		return true
	case 2, 3:
		return false
	}
	x.okFn[f] = 3
	ok := x.finishes(f, true) == ""
	x.okFn[f] = 2
	if ok {
		x.okFn[f] = 1
	}
	return ok
}

// finishes enumerates the acyclic paths of f; result: what a path fails to set.
func (x *errRules) finishes(f *ssa.Function, quiet bool) string {
	if f.Blocks == nil || len(f.Blocks) > 60 {
		return "is not analysed"
	}
	why := ""
	any := false
	fuel := 20000
	type st struct {
		set map[int]bool
		phi map[ssa.Value]ssa.Value
		nil map[ssa.Value]bool // values known to be nil or not on the path
	}
	var walk func(b, from *ssa.BasicBlock, s st, on map[int]int)
	walk = func(b, from *ssa.BasicBlock, s st, on map[int]int) {
		fuel--
		if fuel < 0 || on[b.Index] > 1 {
			return
		}
		on[b.Index]++
		res := func(v ssa.Value) ssa.Value {
			for i := 0; i < 10; i++ {
				if w, ok := s.phi[v]; ok {
					v = w
				} else {
					break
				}
			}
			return v
		}
		for _, in := range b.Instrs {
			switch i := in.(type) {
			case *ssa.Phi:
				for k, e := range i.Edges {
					if b.Preds[k] == from {
						s.phi[i] = res(e)
					}
				}
			case *ssa.Store:
				if k, ok := x.field(i.Addr); ok {
					s.set[k] = true
				}
			case *ssa.Call:
				if h := i.Common().StaticCallee(); h != nil && x.P.inPkg(h) {
					for k := range x.setsAlways(h) {
						s.set[k] = true
					}
				}
			case *ssa.If:
				for j := 0; j < 2; j++ {
					n := st{map[int]bool{}, map[ssa.Value]ssa.Value{}, map[ssa.Value]bool{}}
					for k := range s.set {
						n.set[k] = true
					}
					for k, v := range s.phi {
						n.phi[k] = v
					}
					for k, v := range s.nil {
						n.nil[k] = v
					}
					possible := true
					c, neg := ssa.Value(i.Cond), false
					if u, ok := c.(*ssa.UnOp); ok && u.Op == token.NOT {
						c, neg = u.X, true
					}
					if c, ok := c.(*ssa.BinOp); ok && (c.Op == token.EQL || c.Op == token.NEQ || c.Op == token.GTR) {
						eq := ((j == 0) != neg) == (c.Op == token.EQL)
						k, isC := c.Y.(*ssa.Const)
						if isC && k.Value == nil {
							v := res(c.X)
							if w, ok := n.nil[v]; ok && w != eq {
								possible = false
							}
							if cv, ok := v.(*ssa.Const); ok && cv.Value == nil && !eq {
								possible = false
							}
							n.nil[v] = eq
						}
						if isC && k.Value != nil && !eq {
							// a part that is not zero was set before
							if u, ok := c.X.(*ssa.UnOp); ok && u.Op == token.MUL {
								if fld, ok := x.field(u.X); ok && (fld == x.idx["Line"] || fld == x.idx["Column"]) {
									n.set[x.idx["Line"]], n.set[x.idx["Column"]] = true, true
								}
							}
						}
					}
					if possible {
						o := map[int]int{}
						for k, v := range on {
							o[k] = v
						}
						walk(b.Succs[j], b, n, o)
					}
				}
				return
			case *ssa.Jump:
				walk(b.Succs[0], b, s, on)
				return
			case *ssa.Return:
				for _, v := range i.Results {
					if !isErrT(v.Type()) {
						if n, _ := structOf(v.Type()); n != x.errT {
							continue
						}
					}
					v = res(v)
					if mi, ok := v.(*ssa.MakeInterface); ok {
						v = res(mi.X)
					}
					if isNil, ok := s.nil[v]; ok && isNil {
						continue
					}
					if c, ok := v.(*ssa.Const); ok && c.Value == nil {
						continue
					}
					if x.finishedVal(v, res) {
						any = true
						continue
					}
					if n, _ := structOf(v.Type()); n != x.errT {
						why = "returns an error that did not go through the finishing step"
						return
					}
					any = true
					for k := 0; k < x.st.NumFields(); k++ {
						if x.needField(k) && !s.set[k] {
							why = "returns a parse error without setting its " + x.st.Field(k).Name()
						}
					}
				}
				return
			}
		}
	}
	walk(f.Blocks[0], nil, st{map[int]bool{}, map[ssa.Value]ssa.Value{}, map[ssa.Value]bool{}}, map[int]int{})
	if fuel < 0 && why == "" {
		why = "has too many paths"
	}
	_ = any
	return why
}

// setsAlways: parts of the error that a helper with the error as a parameter sets.
func (x *errRules) setsAlways(f *ssa.Function) map[int]bool {
	out := map[int]bool{}
	if len(f.Blocks) == 0 {
		return out
	}
	takes := false
	for _, p := range f.Params {
		if n, _ := structOf(p.Type()); n == x.errT {
			takes = true
		}
	}
	if !takes {
		return out
	}
	for _, b := range f.Blocks {
		all := true
		for _, c := range f.Blocks {
			if _, ok := c.Instrs[len(c.Instrs)-1].(*ssa.Return); ok && !b.Dominates(c) {
				all = false
			}
		}
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok {
				if k, ok := x.field(st.Addr); ok {
					// Line and Column are set together when they were not before
					if all || x.guardedByLine(b) {
						out[k] = true
					}
				}
			}
		}
	}
	return out
}

func (x *errRules) guardedByLine(b *ssa.BasicBlock) bool {
	for _, f := range domFacts(b.Instrs[len(b.Instrs)-1]) {
		if u, ok := f.x.(*ssa.UnOp); ok && u.Op == token.MUL {
			if k, ok := x.field(u.X); ok && (k == x.idx["Line"] || k == x.idx["Column"]) && f.op == token.EQL {
				return true
			}
		}
	}
	return false
}

func (x *errRules) needField(k int) bool {
	f := x.st.Field(k)
	return !f.Exported() || f.Name() == "Line" || f.Name() == "Column"
}

func (x *errRules) finishedVal(v ssa.Value, res func(ssa.Value) ssa.Value) bool {
	switch c := v.(type) {
	case *ssa.Call:
		fs, ext := x.g.callees(c.Common())
		if ext != nil || len(fs) == 0 {
			return false
		}
		for _, h := range fs {
			if !x.finisher(h) {
				return false
			}
		}
		return true
	case *ssa.Extract:
		return x.finishedVal(c.Tuple, res)
	case *ssa.Phi:
		for _, e := range c.Edges {
			if k, ok := e.(*ssa.Const); ok && k.Value == nil {
				continue
			}
			if !x.finishedVal(e, res) {
				return false
			}
		}
		return true
	}
	return false
}

// offset: the value is an offset of a token, of the end of input, or of a node.
type offsets struct {
	P    *Prog
	e    *Engine
	g    *callGraph
	memo map[ssa.Value]int8
	fn   map[*ssa.Function]int8
	call map[*ssa.Function][]ssa.CallInstruction
	errT *types.Named

	zeroOK bool                     // zero stands for a slot left open
	okFn   func(*ssa.Function) bool // functions known to give a position
	okBin  func(*ssa.BinOp) bool
}

func newOffsets(P *Prog, e *Engine, g *callGraph) *offsets {
	o := &offsets{P: P, e: e, g: g, memo: map[ssa.Value]int8{}, fn: map[*ssa.Function]int8{}, call: map[*ssa.Function][]ssa.CallInstruction{}}
	for _, f := range P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					fs, _ := g.callees(c.Common())
					for _, h := range fs {
						o.call[h] = append(o.call[h], c)
					}
				}
			}
		}
	}
	return o
}

// why is empty when the value is a recorded offset, else what it comes from.
func (o *offsets) why(v ssa.Value, d int) string {
	if d > 30 {
		return "a value that is not followed"
	}
	switch c := v.(type) {
	case *ssa.Const:
		if o.zeroOK && c.Value != nil && constant.Sign(c.Value) == 0 {
			return ""
		}
		return "the constant " + c.Value.ExactString()
	}
	if o.memo[v] != 0 {
		return "" // being looked at, or fine
	}
	o.memo[v] = 1
	w := o.why1(v, d)
	if w != "" {
		delete(o.memo, v)
	}
	return w
}

func (o *offsets) why1(v ssa.Value, d int) string {
	switch c := v.(type) {
	case *ssa.Phi:
		for _, e := range c.Edges {
			if w := o.why(e, d+1); w != "" {
				return w
			}
		}
		return ""
	case *ssa.Convert:
		return o.why(c.X, d+1)
	case *ssa.ChangeType:
		return o.why(c.X, d+1)
	case *ssa.UnOp:
		if c.Op != token.MUL {
			return "arithmetic"
		}
		switch a := c.X.(type) {
		case *ssa.FieldAddr:
			n, st := structOf(a.X.Type())
			if n == nil {
				return ""
			}
			ft := st.Field(a.Field).Type()
			if n == o.e.tokenT || o.P.NodeSet[n] || isNamed(ft, o.e.posT) {
				if isNamed(ft, o.e.posT) {
					return ""
				}
				return "a field that is no position"
			}
			if n == o.e.lexerT || n == o.e.lstateT {
				if st.Field(a.Field).Name() == "offset" || o.isOffsetField(st.Field(a.Field)) {
					return ""
				}
			}
			return "field " + st.Field(a.Field).Name()
		case *ssa.Alloc:
			for _, r := range *a.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(a) {
					if w := o.why(st.Val, d+1); w != "" {
						return w
					}
				}
			}
			return ""
		case *ssa.FreeVar:
			return ""
		}
		return ""
	case *ssa.Field:
		n, st := structOf(c.X.Type())
		if n != nil && isNamed(st.Field(c.Field).Type(), o.e.posT) {
			return ""
		}
		return "a field that is no position"
	case *ssa.Parameter:
		k := -1
		for i, p := range c.Parent().Params {
			if p == c {
				k = i
			}
		}
		for _, ci := range o.call[c.Parent()] {
			as := ci.Common().Args
			if ci.Common().IsInvoke() {
				as = append([]ssa.Value{ci.Common().Value}, as...)
			}
			if k < len(as) {
				if w := o.why(as[k], d+1); w != "" {
					return w
				}
			}
		}
		return ""
	case *ssa.Extract:
		if call, ok := c.Tuple.(*ssa.Call); ok {
			return o.results(call, c.Index, d)
		}
		return ""
	case *ssa.Call:
		return o.results(c, 0, d)
	case *ssa.BinOp:
		if o.okBin != nil && o.okBin(c) {
			return o.why(c.X, d+1)
		}
		return "arithmetic on a position"
	}
	return ""
}

func (o *offsets) isOffsetField(f *types.Var) bool {
	b, ok := f.Type().Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func (o *offsets) results(c *ssa.Call, k int, d int) string {
	cc := c.Common()
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		if b.Name() == "max" || b.Name() == "min" {
			for _, a := range cc.Args {
				if w := o.why(a, d+1); w != "" {
					return w
				}
			}
			return ""
		}
		return "the result of " + b.Name()
	}
	fs, ext := o.g.callees(cc)
	if ext != nil {
		return "the result of " + ext.Name()
	}
	for _, h := range fs {
		if o.okFn != nil && o.okFn(h) {
			continue
		}
		if rv := h.Signature.Recv(); rv != nil {
			if n, _ := structOf(rv.Type()); n != nil && o.P.NodeSet[n] {
				continue // a node's own position, decided there
			}
		}
		for _, b := range h.Blocks {
			if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && k < len(rt.Results) {
				if returnsError(rt) {
					continue
				}
				if w := o.why(rt.Results[k], d+1); w != "" {
					return w
				}
			}
		}
	}
	return ""
}

// returnsError: the return reports a failure, its other results do not count.
func returnsError(rt *ssa.Return) bool {
	n := len(rt.Results)
	if n < 2 || !isErrT(rt.Results[n-1].Type()) {
		return false
	}
	if c, ok := rt.Results[n-1].(*ssa.Const); ok && c.Value == nil {
		return false
	}
	if x, ok := rt.Results[n-1].(*ssa.Extract); ok {
		if y, ok := rt.Results[0].(*ssa.Extract); ok && x.Tuple == y.Tuple {
			return false // all that a call gave
		}
	}
	_, phi := rt.Results[n-1].(*ssa.Phi)
	return !phi
}

func checkP18(P *Prog, r *Report) {
	e, err := newEngine(P, "parse")
	if err != nil {
		r.need(false, err.Error())
		return
	}
	r.rule("finished", "every error a parsing entry point returns went through the step that resolves line and column and attaches the input")
	r.rule("offset", "every parse error is given the offset of a token or of the end of the input")
	r.rule("resolved", "line and column are set together, from the line table and the error's own offset")
	r.rule("table", "the line table has 0 and the offset after every newline, in order")
	r.rule("lookup", "the line is the last one that starts at or before the offset, the column counts from its start")
	r.rule("attached", "the input attached to an error is the parser's input, the line table the one built from it")
	r.rule("index", "rendering an error stays within the bounds of the input and of every list")
	r.rule("nil", "rendering an error dereferences nothing that can be nil")
	r.rule("assert", "rendering an error makes no type assertion that can fail")
	r.rule("panic", "rendering an error reaches no explicit panic and repeats nothing a negative number of times")
	x := &errRules{P: P, e: e, r: r, g: newCallGraph(P), okFn: map[*ssa.Function]int8{}, idx: map[string]int{}}
	if o := P.TPkg.Scope().Lookup("ParseError"); o != nil {
		x.errT, _ = o.Type().(*types.Named)
	}
	if !r.need(x.errT != nil, "type ParseError") {
		return
	}
	x.st, _ = x.errT.Underlying().(*types.Struct)
	for k := 0; x.st != nil && k < x.st.NumFields(); k++ {
		x.idx[x.st.Field(k).Name()] = k
	}
	for _, n := range []string{"Pos", "Line", "Column"} {
		if _, ok := x.idx[n]; !r.need(ok, "field "+n+" of ParseError") {
			return
		}
	}
	x.entry()
	x.offsets()
	tab := x.resolved()
	x.lines(tab)
}

// entry: what the exported methods of the parser return.
func (x *errRules) entry() {
	roots := 0
	inner := map[*ssa.Function]bool{} // steps of parsing, called by the parser itself
	for _, f := range x.P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && c.Common().StaticCallee() != nil {
					inner[c.Common().StaticCallee()] = true
				}
			}
		}
	}
	for _, f := range x.P.Funcs {
		if f.Parent() != nil || f.Synthetic != "" || f.Object() == nil || !f.Object().Exported() {
			continue
		}
		res := f.Signature.Results()
		if res.Len() == 0 || !isErrT(res.At(res.Len()-1).Type()) {
			continue
		}
		rv := f.Signature.Recv()
		if rv == nil {
			continue
		}
		if n, _ := structOf(rv.Type()); n != x.e.parserT || inner[f] {
			continue
		}
		roots++
		n := 0
		for _, b := range f.Blocks {
			if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				n++
			}
		}
		x.r.ob("finished", n)
		if w := x.finishes(f, false); w != "" {
			x.r.fnBad("finished", f, f.Pos(), "%s", w)
		}
	}
	x.r.need(roots > 0, "the exported parsing methods")
}

// offsets: what every constructed error has as its offset.
func (x *errRules) offsets() {
	o := newOffsets(x.P, x.e, x.g)
	made := 0
	for _, f := range x.P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch i := in.(type) {
				case *ssa.Alloc:
					if n, _ := structOf(i.Type()); n != x.errT {
						continue
					}
					if _, ok := i.Type().(*types.Pointer).Elem().Underlying().(*types.Struct); !ok {
						continue
					}
					made++
					set := false
					for _, r := range *i.Referrers() {
						if fa, ok := r.(*ssa.FieldAddr); ok && fa.Field == x.idx["Pos"] {
							for _, q := range *fa.Referrers() {
								if st, ok := q.(*ssa.Store); ok && st.Addr == ssa.Value(fa) {
									set = true
								}
							}
						}
						if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(i) {
							set = true // copied from another
						}
					}
					x.r.ob("offset", 1)
					if !set && !x.handed(i) {
						x.r.fnBad("offset", f, i.Pos(), "makes a parse error without an offset")
					}
				case *ssa.Store:
					k, ok := x.field(i.Addr)
					if !ok || k != x.idx["Pos"] {
						continue
					}
					x.r.ob("offset", 1)
					if w := o.why(i.Val, 0); w != "" {
						x.r.fnBad("offset", f, i.Pos(), "takes the offset of a parse error from %s", w)
					}
				}
			}
		}
	}
	x.r.need(made > 0, "the places that make parse errors")
}

// handed: the allocation is passed on to something that fills it in.
func (x *errRules) handed(a *ssa.Alloc) bool {
	for _, r := range *a.Referrers() {
		if c, ok := r.(ssa.CallInstruction); ok {
			if h := c.Common().StaticCallee(); h != nil && x.setsAlways(h)[x.idx["Pos"]] {
				return true
			}
		}
	}
	return false
}

// resolved looks at the stores to Line, Column and the unexported parts.
func (x *errRules) resolved() *types.Named {
	var tab *types.Named
	for k := 0; k < x.st.NumFields(); k++ {
		f := x.st.Field(k)
		if n, ok := types.Unalias(f.Type()).(*types.Named); ok && !f.Exported() && n.Obj().Pkg() == x.P.TPkg {
			if sl, ok := n.Underlying().(*types.Slice); ok && types.Identical(sl.Elem(), types.Typ[types.Int]) {
				tab = n
			}
		}
	}
	type pair struct {
		line, col *ssa.Store
	}
	n := 0
	for _, f := range x.P.Funcs {
		var lines, cols []*ssa.Store
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				k, ok := x.field(st.Addr)
				if !ok {
					continue
				}
				switch {
				case k == x.idx["Line"]:
					lines = append(lines, st)
				case k == x.idx["Column"]:
					cols = append(cols, st)
				case !x.st.Field(k).Exported() && isStr(st.Val.Type()):
					n++
					x.r.ob("attached", 1)
					if !x.isInput(st.Val, 0) {
						x.r.fnBad("attached", f, st.Pos(), "attaches text that is not the parser's input")
					}
				case !x.st.Field(k).Exported() && tab != nil && isTabT(st.Val.Type(), tab):
					n++
					x.r.ob("attached", 1)
					if w := x.isTable(st.Val, tab, 0); w != "" {
						x.r.fnBad("attached", f, st.Pos(), "attaches a line table that is %s", w)
					}
				}
			}
		}
		for i, l := range lines {
			x.r.ob("resolved", 1)
			if i >= len(cols) || cols[i].Block() != l.Block() {
				x.r.fnBad("resolved", f, l.Pos(), "sets the line of an error without its column")
				continue
			}
			a, ok1 := l.Val.(*ssa.Extract)
			b, ok2 := cols[i].Val.(*ssa.Extract)
			if !ok1 || !ok2 {
				if isNum(l.Val) || isNum(cols[i].Val) {
					x.r.fnBad("resolved", f, l.Pos(), "sets line and column from something else than the line table")
				}
				continue
			}
			if a.Tuple != b.Tuple || a.Index == b.Index {
				x.r.fnBad("resolved", f, l.Pos(), "sets line and column from different lookups")
				continue
			}
			if a.Index > b.Index {
				x.r.fnBad("resolved", f, l.Pos(), "sets the line from the column and the column from the line")
				continue
			}
			if c, ok := a.Tuple.(*ssa.Call); ok {
				good := false
				for _, arg := range c.Common().Args {
					if x.ownOffset(arg, l.Addr.(*ssa.FieldAddr).X) {
						good = true
					}
				}
				if !good {
					x.r.fnBad("resolved", f, l.Pos(), "looks up the line and column of something else than the error's offset")
				}
				for _, arg := range c.Common().Args {
					if tab != nil && isTabT(arg.Type(), tab) {
						if w := x.isTable(arg, tab, 0); w != "" {
							x.r.fnBad("resolved", f, l.Pos(), "looks up the line and column in a table that is %s", w)
						}
					}
				}
			}
		}
		if len(cols) > len(lines) {
			x.r.fnBad("resolved", f, cols[len(cols)-1].Pos(), "sets the column of an error without its line")
		}
	}
	x.r.need(n > 0, "the stores that attach the input to an error")
	return tab
}

func isNum(v ssa.Value) bool { _, ok := v.(*ssa.Const); return ok }

// ownOffset: the value is the offset of the error the line is stored in.
func (x *errRules) ownOffset(v ssa.Value, base ssa.Value) bool {
	for i := 0; i < 6; i++ {
		switch c := v.(type) {
		case *ssa.Convert:
			v = c.X
			continue
		case *ssa.ChangeType:
			v = c.X
			continue
		case *ssa.UnOp:
			k, ok := x.field(c.X)
			if ok && k == x.idx["Pos"] {
				return sameVal(c.X.(*ssa.FieldAddr).X, base, 0)
			}
		case *ssa.Parameter:
			return true // looked at where it is called
		}
		return false
	}
	return false
}

// isInput: the value is the text the parser was given.
func (x *errRules) isInput(v ssa.Value, d int) bool {
	if d > 8 {
		return false
	}
	switch c := v.(type) {
	case *ssa.UnOp:
		if fa, ok := c.X.(*ssa.FieldAddr); ok {
			n, _ := structOf(fa.X.Type())
			return n == x.e.lexerT || n == x.e.parserT || n == x.errT
		}
	case *ssa.Phi:
		for _, e := range c.Edges {
			if !x.isInput(e, d+1) {
				return false
			}
		}
		return true
	case *ssa.Call:
		fs, ext := x.g.callees(c.Common())
		if ext != nil || len(fs) == 0 {
			return false
		}
		for _, h := range fs {
			for _, b := range h.Blocks {
				if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && (len(rt.Results) != 1 || !x.isInput(rt.Results[0], d+1)) {
					return false
				}
			}
		}
		return true
	case *ssa.Parameter:
		ok := false
		for _, f := range x.P.Funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					ci, isC := in.(ssa.CallInstruction)
					if !isC || ci.Common().StaticCallee() != c.Parent() {
						continue
					}
					for k, p := range c.Parent().Params {
						if p == c {
							if !x.isInput(ci.Common().Args[k], d+1) {
								return false
							}
							ok = true
						}
					}
				}
			}
		}
		return ok
	}
	return false
}

// isTable: empty when the value is the table built from the parser's input.
func (x *errRules) isTable(v ssa.Value, tab *types.Named, d int) string {
	if d > 10 {
		return "not followed"
	}
	switch c := v.(type) {
	case *ssa.ChangeType:
		return x.isTable(c.X, tab, d+1)
	case *ssa.UnOp:
		if fa, ok := c.X.(*ssa.FieldAddr); ok {
			n, _ := structOf(fa.X.Type())
			if n == x.errT {
				return ""
			}
			// everything stored in that field
			some := false
			for _, f := range x.P.Funcs {
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						if st, ok := in.(*ssa.Store); ok {
							if g, ok := st.Addr.(*ssa.FieldAddr); ok && g.Field == fa.Field {
								if m, _ := structOf(g.X.Type()); m == n {
									some = true
									if u, ok := st.Val.(*ssa.UnOp); ok && sameVal(u.X, fa, 0) {
										continue
									}
									if w := x.isTable(st.Val, tab, d+1); w != "" {
										return w
									}
								}
							}
						}
					}
				}
			}
			if !some {
				return "never built"
			}
			return ""
		}
	case *ssa.Phi:
		for _, e := range c.Edges {
			if w := x.isTable(e, tab, d+1); w != "" {
				return w
			}
		}
		return ""
	case *ssa.Const:
		return "nil"
	case *ssa.Parameter:
		return ""
	case *ssa.Call:
		h := c.Common().StaticCallee()
		if h == nil || !x.P.inPkg(h) {
			return "not followed"
		}
		for _, a := range c.Common().Args {
			if isStr(a.Type()) {
				if !x.isInput(a, 0) {
					return "built from something else than the parser's input"
				}
				return ""
			}
		}
		for _, b := range h.Blocks {
			if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(rt.Results) == 1 {
				if w := x.isTable(rt.Results[0], tab, d+1); w != "" {
					return w
				}
			}
		}
		return ""
	}
	return ""
}

// lines decides the line table: how it is built, looked up and rendered.
func (x *errRules) lines(tab *types.Named) {
	r := x.r
	ev := func() *lineEval {
		v := &lineEval{P: x.P, tabT: tab, proved: map[token.Pos]bool{}, failed: map[token.Pos]bool{}, fuel: 20000}
		v.tabLen = 1
		v.strLen = 2
		v.nsym = 2
		return v
	}
	start := func(v *lineEval) *lineState {
		s := &lineState{count: map[int]int{}}
		s.facts = append(s.facts, ls(v.tabLen).plus(-1), ls(v.strLen))
		return s
	}
	// rendering, by the general analysis; what it leaves open about the line table
	// is decided over linear facts
	a, err := runErr(x.P, x.errT)
	if err != nil {
		r.need(false, err.Error())
		return
	}
	for _, n := range []string{"nil", "assert", "panic"} {
		r.take(a, n)
	}
	discharged := map[token.Pos]bool{}
	if tab != nil {
		v := ev()
		for _, f := range x.P.Funcs {
			if f.Parent() != nil || f.Synthetic != "" {
				continue
			}
			uses := false
			for _, p := range f.Params {
				if isTabT(p.Type(), tab) {
					uses = true
				}
			}
			if !uses {
				continue
			}
			var as []lineVal
			for _, p := range f.Params {
				as = append(as, v.top(p.Type()))
			}
			s := start(v)
			for i, p := range f.Params {
				// an offset is not negative
				if as[i].l != nil && x.offsetParam(f, i) {
					s.facts = append(s.facts, *as[i].l)
				}
				_ = p
			}
			v.exec(f, as, nil, s, 0)
		}
		if v.lost {
			r.notes = append(r.notes, "not every path of the functions that use the line table was followed")
		}
		for p := range v.proved {
			if !v.failed[p] {
				discharged[p] = true
			}
		}
	}
	r.ob("index", a.oblig["index"])
	for _, al := range a.sorted() {
		if al.rule == "index" && !discharged[al.pos] {
			w := r.fnBad("index", al.fn, al.pos, "%s", al.what)
			if len(w.more) == 0 {
				w.more = a.chain(al.ctx)
			}
		}
	}
	x.repeats()
	if tab == nil {
		r.notes = append(r.notes, "no line table type: how lines are found is not decided")
		return
	}
	x.builder(tab)
	x.lookup(tab, ev, start)
}

// offsetParam: the parameter receives an offset at every call.
func (x *errRules) offsetParam(f *ssa.Function, k int) bool {
	o := newOffsets(x.P, x.e, x.g)
	n := 0
	for _, c := range o.call[f] {
		n++
		if o.why(c.Common().Args[k], 0) != "" {
			return false
		}
	}
	return n > 0
}

// repeats: the count given to strings.Repeat is never negative.
func (x *errRules) repeats() {
	for f := range x.g.reach(methodsOf(x.P, x.errT)) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok || c.Common().StaticCallee() == nil || c.Common().StaticCallee().String() != "strings.Repeat" {
					continue
				}
				x.r.ob("panic", 1)
				if !x.nonNeg(c.Common().Args[1], c, map[ssa.Value]bool{}) {
					x.r.fnBad("panic", f, c.Pos(), "the count given to strings.Repeat may be negative")
				}
			}
		}
	}
}

func (x *errRules) nonNeg(v ssa.Value, in ssa.Instruction, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	for _, f := range domFacts(in) {
		for _, g := range []cmpFact{f, {swapOp(f.op), f.y, f.x}} {
			a, b := linOf(g.x), linOf(v)
			k, ok := g.y.(*ssa.Const)
			if !ok || a.base == nil || b.base == nil || !sameVal(a.base, b.base, 0) {
				continue
			}
			n, ok := constInt(k.Value)
			if !ok {
				continue
			}
			n -= a.k // base >= n ...
			if g.op == token.GTR {
				n++
			}
			if (g.op == token.GTR || g.op == token.GEQ) && n+b.k >= 0 {
				return true
			}
		}
	}
	switch c := v.(type) {
	case *ssa.Const:
		n, ok := constInt(c.Value)
		return ok && n >= 0
	case *ssa.Phi:
		for i, e := range c.Edges {
			p := c.Block().Preds[i]
			if !x.nonNeg(e, p.Instrs[len(p.Instrs)-1], seen) && !edgeGE0(p, c.Block(), e) {
				return false
			}
		}
		return true
	case *ssa.Call:
		if b, ok := c.Common().Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "len", "cap":
				return true
			case "max":
				for _, a := range c.Common().Args {
					if x.nonNeg(a, in, seen) {
						return true
					}
				}
			case "min":
				for _, a := range c.Common().Args {
					if !x.nonNeg(a, in, seen) {
						return false
					}
				}
				return true
			}
		}
		if h := c.Common().StaticCallee(); h != nil && h.String() == "unicode/utf8.RuneCountInString" {
			return true
		}
	case *ssa.BinOp:
		if c.Op == token.ADD || c.Op == token.MUL {
			return x.nonNeg(c.X, in, seen) && x.nonNeg(c.Y, in, seen)
		}
		// Column is at least 1
		if k, ok := c.Y.(*ssa.Const); ok && c.Op == token.SUB {
			if n, ok := constInt(k.Value); ok && n <= 1 {
				if u, ok := c.X.(*ssa.UnOp); ok {
					if f, ok := x.field(u.X); ok && (f == x.idx["Column"] || f == x.idx["Line"]) {
						return true
					}
				}
			}
		}
	case *ssa.UnOp:
		if f, ok := x.field(c.X); ok && (f == x.idx["Column"] || f == x.idx["Line"]) {
			return true
		}
	}
	return false
}

// builder: how the table is filled.
func (x *errRules) builder(tab *types.Named) {
	n := 0
	for _, f := range x.P.Funcs {
		if f.Signature.Results().Len() != 1 || !isTabT(f.Signature.Results().At(0).Type(), tab) {
			continue
		}
		hasStr := false
		for _, p := range f.Params {
			if isStr(p.Type()) {
				hasStr = true
			}
		}
		if !hasStr {
			continue
		}
		n++
		zero, appends := false, 0
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				ia, ok := st.Addr.(*ssa.IndexAddr)
				if !ok || !types.Identical(st.Val.Type(), types.Typ[types.Int]) {
					continue
				}
				x.r.ob("table", 1)
				if k, ok := st.Val.(*ssa.Const); ok {
					if v, _ := constInt(k.Value); v == 0 && linOf(ia.Index).base == nil && linOf(ia.Index).k == 0 {
						zero = true
					} else {
						x.r.fnBad("table", f, st.Pos(), "puts the constant %s in the line table", k.Value)
					}
					continue
				}
				appends++
				l := linOf(st.Val)
				if why := x.newlineAt(f, st, l); why != "" {
					x.r.fnBad("table", f, st.Pos(), "%s", why)
				}
			}
		}
		x.r.ob("table", 1)
		if !zero {
			x.r.fnBad("table", f, f.Pos(), "the line table does not start with 0")
		}
		if appends == 0 {
			x.r.notes = append(x.r.notes, "the way the line table is filled is not followed")
		}
	}
	x.r.need(n > 0, "the function that builds the line table")
}

// newlineAt: the stored offset is the one after a newline of the input, in a loop over all of it.
func (x *errRules) newlineAt(f *ssa.Function, in ssa.Instruction, l lin) string {
	idx := l.base
	isIdx := func(v ssa.Value) (int64, bool) { // the value's distance from the index
		m := linOf(v)
		if m.base == idx {
			return m.k, true
		}
		if m.base != nil && idx != nil && sameVal(m.base, idx, 0) {
			return m.k, true
		}
		return 0, false
	}
	// which byte was compared with '\n'
	found := false
	for _, fct := range domFacts(in) {
		if fct.op != token.EQL {
			continue
		}
		for _, g := range []cmpFact{fct, {fct.op, fct.y, fct.x}} {
			k, ok := g.y.(*ssa.Const)
			if !ok || k.Value == nil || k.Value.Kind() != constant.Int {
				continue
			}
			c, _ := constInt(k.Value)
			at := g.x
			if w, ok := at.(*ssa.Index); ok {
				at = &ssa.Lookup{X: w.X, Index: w.Index}
			}
			switch v := at.(type) {
			case *ssa.Lookup:
				if d, ok := isIdx(v.Index); ok {
					found = true
					if c != '\n' {
						return "a line is taken to end at a character that is not the newline"
					}
					if l.k != d+1 {
						return fmt.Sprintf("a line is taken to start %d after the newline instead of 1", l.k-d)
					}
				}
			case *ssa.Extract: // for i, c := range input
				nx, ok := v.Tuple.(*ssa.Next)
				if !ok {
					continue
				}
				if ex, ok := idx.(*ssa.Extract); ok && ex.Tuple == ssa.Value(nx) {
					found = true
					if c != '\n' {
						return "a line is taken to end at a character that is not the newline"
					}
					if l.k != 1 {
						return fmt.Sprintf("a line is taken to start %d after the newline instead of 1", l.k)
					}
				}
			case *ssa.UnOp, *ssa.Convert:
			}
		}
	}
	if found && skipsNewline(in) {
		return "a newline is left out under a further condition"
	}
	if !found {
		x.r.notes = append(x.r.notes, "an offset put in the line table is not followed: "+x.P.pos(in.Pos()))
		return ""
	}
	// the loop visits every index
	ph, ok := idx.(*ssa.Phi)
	if !ok {
		if _, ok := idx.(*ssa.Extract); ok {
			return ""
		}
		return ""
	}
	bound := false
	for _, b := range f.Blocks {
		i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		for _, c := range condFacts(i.Cond, true, 0) {
			for _, g := range []cmpFact{c, {swapOp(c.op), c.y, c.x}} {
				m, h := linOf(g.x), linOf(g.y)
				if m.base == nil || m.base != ssa.Value(ph) && !sameVal(m.base, ph, 0) {
					continue
				}
				for _, p := range f.Params {
					if isStr(p.Type()) && h.base != nil && isLenOf(h.base, p) {
						bound = true
						if g.op == token.LSS && h.k-m.k < 0 || g.op == token.LEQ && h.k-m.k < -1 {
							return "the search for newlines stops before the end of the input"
						}
					}
				}
			}
		}
	}
	for i, e := range ph.Edges {
		m := linOf(e)
		if ph.Block().Dominates(ph.Block().Preds[i]) {
			if m.base == ssa.Value(ph) && m.k != 1 {
				return "the search for newlines skips characters"
			}
			continue
		}
		// range over indices starts at -1 and adds first
		if m.base == nil && !(m.k == 0 || m.k == -1) {
			return "the search for newlines does not start at the beginning of the input"
		}
	}
	_ = bound
	return ""
}

// skipsNewline: a round of the loop around the instruction can leave it out without
// having found that the character is no newline.
func skipsNewline(in ssa.Instruction) bool {
	at := in.Block()
	var head *ssa.BasicBlock
	for d := at; d != nil && head == nil; d = d.Idom() {
		for _, p := range d.Preds {
			if d.Dominates(p) && d.Dominates(at) {
				head = d
			}
		}
	}
	if head == nil {
		return false
	}
	notNewline := func(b *ssa.BasicBlock, side int) bool {
		i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			return false
		}
		for _, f := range condFacts(i.Cond, side == 0, 0) {
			if f.op != token.NEQ {
				continue
			}
			for _, v := range []ssa.Value{f.x, f.y} {
				if k, ok := v.(*ssa.Const); ok {
					if n, ok := constInt(k.Value); ok && n == '\n' {
						return true
					}
				}
			}
		}
		return false
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		if b == at || seen[b] || !head.Dominates(b) {
			return false
		}
		seen[b] = true
		for k, t := range b.Succs {
			if notNewline(b, k) {
				continue
			}
			if t == head {
				return true
			}
			if walk(t) {
				return true
			}
		}
		return false
	}
	return walk(head)
}

// lookup: the function that turns an offset into line and column.
func (x *errRules) lookup(tab *types.Named, ev func() *lineEval, start func(*lineEval) *lineState) {
	n := 0
	for _, f := range x.P.Funcs {
		if f.Parent() != nil || f.Synthetic != "" {
			continue
		}
		res := f.Signature.Results()
		if res.Len() != 2 || !types.Identical(res.At(0).Type(), types.Typ[types.Int]) || !types.Identical(res.At(1).Type(), types.Typ[types.Int]) {
			continue
		}
		tp, op := -1, -1
		for i, p := range f.Params {
			if isTabT(p.Type(), tab) {
				tp = i
			} else if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				op = i
			}
		}
		if tp < 0 || op < 0 {
			continue
		}
		n++
		v := ev()
		var as []lineVal
		for _, p := range f.Params {
			as = append(as, v.top(p.Type()))
		}
		s := start(v)
		off := *as[op].l
		s.facts = append(s.facts, off)
		outs := v.exec(f, as, nil, s, 0)
		if v.lost || len(v.search) == 0 {
			x.r.notes = append(x.r.notes, "how "+fnName(f)+" finds the line is not followed")
		}
		for _, o := range outs {
			x.r.ob("lookup", 1)
			if len(o.ret) != 2 || o.ret[0].l == nil || o.ret[1].l == nil {
				continue
			}
			line, col := *o.ret[0].l, *o.ret[1].l
			at := line.plus(-1)
			el := v.elem(o.s, at)
			if !eqL(col, off.sub(el).plus(1)) && !(o.s.prove(col.sub(off.sub(el).plus(1))) && o.s.prove(off.sub(el).plus(1).sub(col))) {
				x.r.fnBad("lookup", f, f.Pos(), "the column is not counted from 1 at the start of the line")
				continue
			}
			if len(v.search) == 0 {
				continue
			}
			if !o.s.prove(off.sub(el)) {
				x.r.fnBad("lookup", f, f.Pos(), "the line may start after the offset")
				continue
			}
			// the next line, when there is one, starts after the offset
			t := o.s.clone()
			t.facts = append(t.facts, ls(v.tabLen).sub(line).plus(-1))
			if t.prove(line.sub(ls(v.tabLen))) {
				continue // there is none
			}
			nx := v.elem(t, line)
			if !t.prove(nx.sub(off).plus(-1)) {
				x.r.fnBad("lookup", f, f.Pos(), "a later line may start at or before the offset")
			}
		}
	}
	x.r.need(n > 0, "the function that finds the line of an offset")
}

var _ = sort.Strings
var _ = strings.Join

func init() { checks["P18"] = checkP18 }
