package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- transfer functions

func (r *run) isTokenField(fa *ssa.FieldAddr) bool {
	n, st := structOf(fa.X.Type())
	return n != nil && n == r.e.lstateT && st.Field(fa.Field).Name() == "currentToken"
}

func isNamed(t types.Type, n *types.Named) bool {
	x, ok := types.Unalias(t).(*types.Named)
	return ok && x == n
}

func (r *run) isLexAddr(t types.Type) bool {
	return isNamed(deref(t), r.e.lstateT)
}

// setTok narrows the current token to the given set; false if impossible.
func (r *run) refineTok(s *state, m bits) bool {
	if s.tok&m == s.tok {
		return true
	}
	s.tok &= m
	if s.tok == 0 {
		return false
	}
	if !s.adv {
		s.entry &= m
		if s.entry == 0 {
			return false
		}
	}
	nb := bits(0)
	if s.tok&tokV != 0 {
		nb |= bV
	}
	if s.tok&(tokEOF|tokErr) != 0 {
		nb |= bN
	}
	for v := range s.tied {
		c := s.canon(v)
		b := s.get(c) & nb
		if b&bMask == 0 {
			return false
		}
		s.env[c] = b
	}
	for v, sn := range s.snaps {
		if sn.cur {
			n := *sn
			n.tok &= m
			if !n.adv {
				n.entry &= m
			}
			if n.tok == 0 {
				return false
			}
			s.snaps[v] = &n
		}
	}
	return true
}

func (r *run) tokBits(t bits) bits {
	b := bits(0)
	if t&tokV != 0 {
		b |= bV
	}
	if t&(tokEOF|tokErr) != 0 {
		b |= bN
	}
	return b
}

// refine narrows v to m; false if impossible.
func (r *run) refine(s *state, v ssa.Value, m bits) bool {
	if c, ok := v.(*ssa.Const); ok {
		return constBits(c)&m != 0
	}
	c := s.canon(v)
	if k, ok := c.(*ssa.Const); ok {
		return constBits(k)&m != 0
	}
	old := s.get(c)
	nb := old & (m | eN | eT)
	if nb&bMask == 0 {
		return false
	}
	if nb == old {
		return true
	}
	switch c.(type) {
	case *ssa.Global, *ssa.Function, *ssa.Builtin:
		return true
	}
	s.env[c] = nb
	for k, f := range s.fld {
		if f.rep == c {
			f.v = nb
			s.fld[k] = f
		}
	}
	if s.tied[c] || s.tied[v] {
		if nb&bMask == bN {
			if !r.refineTok(s, tokEOF|tokErr) {
				return false
			}
		} else if nb&bMask == bV {
			if !r.refineTok(s, tokV) {
				return false
			}
		}
	}
	switch x := c.(type) {
	case *ssa.MakeInterface:
		switch nb & bMask {
		case bT:
			return r.refine(s, x.X, bN)
		case bV:
			if isPtrLike(x.X.Type()) {
				return r.refine(s, x.X, bV)
			}
		}
	case *ssa.ChangeInterface:
		return r.refine(s, x.X, nb&bMask)
	case *ssa.ChangeType:
		return r.refine(s, x.X, nb&bMask)
	case *ssa.Call:
		if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
			if _, isMap := x.Call.Args[0].Type().Underlying().(*types.Map); !isMap {
				m := nb & bMask
				if _, isSl := x.Call.Args[0].Type().Underlying().(*types.Slice); isSl && m&bN != 0 {
					m |= bT
				}
				return r.refine(s, x.Call.Args[0], m)
			}
		}
	}
	return true
}

func isPtrLike(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Slice, *types.Signature, *types.Chan:
		return true
	}
	return false
}

func (r *run) refineCond(s *state, v ssa.Value, want bool, depth int) bool {
	if depth > 10 {
		return true
	}
	m := bN
	if want {
		m = bV
	}
	if !r.refine(s, v, m) {
		return false
	}
	c := s.canon(v)
	switch x := c.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return r.refineCond(s, x.X, !want, depth+1)
		}
	case *ssa.BinOp:
		return r.refineCmp(s, x, want)
	case *ssa.Call:
		return r.refineCallCond(s, x, want)
	}
	return true
}

func (r *run) refineCallCond(s *state, x *ssa.Call, want bool) bool {
	// reflect.Value.IsNil of reflect.ValueOf(y)
	if f := x.Call.StaticCallee(); f != nil && f.String() == "(reflect.Value).IsNil" {
		if c, ok := x.Call.Args[0].(*ssa.Call); ok {
			if g := c.Call.StaticCallee(); g != nil && g.String() == "reflect.ValueOf" {
				arg := c.Call.Args[0]
				if ci, ok := arg.(*ssa.ChangeInterface); ok {
					arg = ci.X
				}
				if _, ok := arg.Type().Underlying().(*types.Interface); ok {
					if want {
						return r.refine(s, arg, bT)
					}
					return r.refine(s, arg, bV)
				}
			}
		}
	}
	return true
}

func (r *run) isPosType(t types.Type) bool { return isNamed(t, r.e.posT) }

func (r *run) refineCmp(s *state, x *ssa.BinOp, want bool) bool {
	op := x.Op
	if !want {
		op = negate(op)
	}
	a, b := x.X, x.Y
	// constants to the right
	if _, ok := s.canon(a).(*ssa.Const); ok {
		a, b = b, a
		switch op {
		case token.LSS:
			op = token.GTR
		case token.LEQ:
			op = token.GEQ
		case token.GTR:
			op = token.LSS
		case token.GEQ:
			op = token.LEQ
		}
	}
	if ka, ok := s.canon(a).(*ssa.Const); ok {
		if kb, ok := s.canon(b).(*ssa.Const); ok && ka.Value != nil && kb.Value != nil && isIntConst(ka) && isIntConst(kb) {
			return constant.Compare(ka.Value, op, kb.Value)
		}
	}
	if r.isPosType(a.Type()) && !r.e.posExact {
		return true // positions: zero is an ordinary value
	}
	ab, bb := s.get(a)&bMask, s.get(b)&bMask
	isIface := func(v ssa.Value) bool { _, ok := v.Type().Underlying().(*types.Interface); return ok }
	switch op {
	case token.EQL:
		if ab&bb == 0 {
			return false
		}
		if isIface(a) != isIface(b) {
			return true
		}
		return r.refine(s, a, ab&bb) && r.refine(s, b, ab&bb)
	case token.NEQ:
		// both the same single point
		point := func(v ssa.Value, m bits) bool {
			if m == bN {
				return true
			}
			if m == bT && types.Identical(v.Type(), r.e.tokenKind) {
				return true
			}
			if m == bV {
				if bt, ok := v.Type().Underlying().(*types.Basic); ok && bt.Kind() == types.Bool {
					return true
				}
			}
			return false
		}
		if ab == bb && point(a, ab) && point(b, bb) {
			return false
		}
		if point(b, bb) {
			return r.refine(s, a, ab&^bb)
		}
		if point(a, ab) {
			return r.refine(s, b, bb&^ab)
		}
	case token.GTR, token.GEQ, token.LSS, token.LEQ:
		k, ok := s.canon(b).(*ssa.Const)
		if !ok || k.Value == nil || !isIntConst(k) {
			// x < y where x,y unknown: for len on the right (i < len(x), i>=0) len is non-zero
			if op == token.LSS && nonNeg(a) {
				return r.refine(s, b, bV)
			}
			if op == token.GTR && nonNeg(b) {
				return r.refine(s, a, bV)
			}
			return true
		}
		n := k.Int64()
		if !nonNeg(a) {
			return true
		}
		switch op {
		case token.GTR:
			if n >= 0 {
				return r.refine(s, a, bV)
			}
		case token.GEQ:
			if n >= 1 {
				return r.refine(s, a, bV)
			}
		case token.LSS:
			if n <= 1 {
				return r.refine(s, a, bN)
			}
		case token.LEQ:
			if n <= 0 {
				return r.refine(s, a, bN)
			}
		}
	}
	return true
}

func isIntConst(k *ssa.Const) bool {
	b, ok := k.Type().Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// nonNeg: len/cap calls, and unsigned or obviously non-negative counters.
func nonNeg(v ssa.Value) bool { return nonNegD(v, map[ssa.Value]bool{}) }
func nonNegD(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Call:
		if bi, ok := x.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "len" || bi.Name() == "cap") {
			return true
		}
	case *ssa.Const:
		return x.Value != nil && isIntConst(x) && x.Int64() >= 0
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !nonNegD(e, seen) {
				return false
			}
		}
		return true
	case *ssa.BinOp:
		if x.Op == token.ADD {
			if ph, ok := x.X.(*ssa.Phi); ok { // range counter: phi(-1, i) + 1
				if c, ok := x.Y.(*ssa.Const); ok && c.Int64() == 1 {
					good := true
					for _, e := range ph.Edges {
						if e == ssa.Value(x) {
							continue
						}
						if k, ok := e.(*ssa.Const); ok && k.Int64() >= -1 {
							continue
						}
						good = false
					}
					if good {
						return true
					}
				}
			}
			return nonNegD(x.X, seen) && nonNegD(x.Y, seen)
		}
	}
	return false
}

// needValid checks that pointer or interface v can be dereferenced here.
func (r *run) needValid(s *state, v ssa.Value, in ssa.Instruction, what string) bool {
	switch v.(type) {
	case *ssa.Alloc, *ssa.Global, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.FreeVar, *ssa.Function:
		return true
	}
	r.ob("nil", in)
	b := s.get(v) & bMask
	if b&^bV != 0 {
		r.alarm("nil", in.Pos(), what)
	}
	if b&bV == 0 {
		return false
	}
	return r.refine(s, v, bV)
}

func (r *run) fieldName(t types.Type, i int) string {
	n, st := structOf(t)
	if n == nil {
		return "?"
	}
	return n.Obj().Name() + "." + st.Field(i).Name()
}

// classField gives what is known of field i of an arbitrary object of struct type n; ok is false
// when no such object can exist yet.
func (r *run) classField(n *types.Named, st *types.Struct, i int) (bits, bool) {
	if n == nil || !r.e.tracked[n] {
		return topOf(st.Field(i).Type()), true
	}
	c := r.e.classOf(n)
	c.readers[r.c] = true
	if c.joined == nil {
		if r.e.mode != "parse" {
			return topOf(st.Field(i).Type()), true
		}
		return 0, false
	}
	return c.joined[i], true
}

func (r *run) shapeOf(s *state, o ssa.Value) *shape {
	n := s.fresh[o]
	if n == nil {
		return nil
	}
	st := n.Underlying().(*types.Struct)
	f := make([]bits, st.NumFields())
	for i := range f {
		if x, ok := s.fld[fk{o, i}]; ok {
			f[i] = x.v
			if x.rep != nil {
				if b := s.get(x.rep); b&bMask != 0 && b&^x.v == 0 {
					f[i] = b
				}
			}
		} else {
			f[i] = topOf(st.Field(i).Type())
			if isPtrToNode(st.Field(i).Type()) {
				f[i] = bN | bV
			}
		}
	}
	return mkShape(n, f)
}

func isPtrToNode(t types.Type) bool { _, ok := t.Underlying().(*types.Pointer); return ok }

// textSure: a token of which this is known has some text.
func textSure(tk string) bool {
	return strings.HasPrefix(tk, "kw:") || strings.HasPrefix(tk, "k:") && tk != "k:<string>" && tk != "k:<ident>"
}

// publish records the object behind v: from now on others can see it.
func (r *run) publish(s *state, v ssa.Value) {
	o := s.obj(v)
	delete(s.owed, o)
	delete(s.owed, s.canon(v))
	if s.fresh[o] == nil || s.pub[o] {
		return
	}
	s.pub[o] = true
	r.e.addShape(r.shapeOf(s, o))
	if r.e.final && r.e.onPub != nil {
		r.e.onPub(r, s, o)
	}
}

func (r *run) discharge(s *state, v ssa.Value) {
	for i := 0; i < 50; i++ {
		delete(s.owed, v)
		c := s.canon(v)
		delete(s.owed, c)
		switch x := c.(type) {
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.TypeAssert:
			v = x.X
		case *ssa.Extract:
			if ta, ok := x.Tuple.(*ssa.TypeAssert); ok {
				v = ta.X
			} else {
				return
			}
		default:
			return
		}
	}
}

func (r *run) storeField(s *state, o ssa.Value, n *types.Named, i int, val ssa.Value, ft types.Type) {
	b := s.get(val)
	f := fv{v: b}
	switch val.(type) {
	case *ssa.Const:
	default:
		c := s.canon(val)
		if _, ok := c.(*ssa.Const); !ok {
			f.rep = c
		}
	}
	if f.v&bMask == 0 {
		f.v |= topOf(ft)
	}
	s.fld[fk{o, i}] = f
	r.publish(s, val)
	if s.fresh[o] != nil {
		if s.pub[o] {
			r.e.addShape(r.shapeOf(s, o))
		}
		return
	}
	// an object we know nothing about: every object of the class may have this value
	if n != nil && r.e.tracked[n] {
		c := r.e.classOf(n)
		c.readers[r.c] = true
		var shs []*shape
		for _, sh := range c.shapes {
			shs = append(shs, sh)
		}
		sort.Slice(shs, func(i, j int) bool { return shs[i].key < shs[j].key })
		for _, sh := range shs {
			g := append([]bits(nil), sh.f...)
			g[i] |= f.v
			r.e.addShape(mkShape(n, g))
		}
	}
}

func (r *run) instr(s *state, in ssa.Instruction) []*state {
	one := []*state{s}
	switch x := in.(type) {
	case *ssa.Alloc:
		s.kill(x)
		s.env[x] = bV
		et := deref(x.Type())
		if n, st := structOf(x.Type()); n != nil {
			if n == r.e.lstateT {
				return one
			}
			s.fresh[x] = n
			for i := 0; i < st.NumFields(); i++ {
				s.fld[fk{x, i}] = fv{v: zeroBits(st.Field(i).Type())}
			}
			return one
		}
		if _, ok := et.Underlying().(*types.Array); ok {
			s.fld[fk{x, fElem}] = fv{v: 0}
			return one
		}
		s.fld[fk{x, fCell}] = fv{v: zeroBits(et)}
		return one

	case *ssa.FieldAddr:
		if !r.needValid(s, x.X, x, "field "+r.fieldName(x.X.Type(), x.Field)+" of "+r.desc(x.X)) {
			return nil
		}
		s.kill(x)
		s.env[x] = bV
		return one

	case *ssa.Field:
		s.kill(x)
		if isNamed(x.X.Type(), r.e.lstateT) {
			st := x.X.Type().Underlying().(*types.Struct)
			if st.Field(x.Field).Name() == "currentToken" {
				if sn := s.snaps[s.canon(x.X)]; sn != nil {
					s.env[x] = r.tokBits(sn.tok)
					if sn.cur {
						s.tied[x] = true
					}
				}
			}
			return one
		}
		if f, ok := s.fld[fk{s.canon(x.X), x.Field}]; ok {
			r.bind(s, x, f)
			return one
		}
		n, st := structOf(x.X.Type())
		if st != nil {
			b, ok := r.classField(n, st, x.Field)
			if !ok {
				return nil
			}
			s.env[x] = b
		}
		return one

	case *ssa.IndexAddr:
		s.kill(x)
		s.env[x] = bV
		r.indexCheck(s, x, x.X, x.Index)
		return one
	case *ssa.Index:
		s.kill(x)
		r.indexCheck(s, x, x.X, x.Index)
		return one
	case *ssa.Lookup:
		if _, ok := x.X.Type().Underlying().(*types.Map); !ok {
			r.indexCheck(s, x, x.X, x.Index)
			s.kill(x)
			return one
		}
		s.kill(x)
		if x.CommaOk {
			return r.commaOk(s, x, nil)
		}
		return one

	case *ssa.UnOp:
		return r.unop(s, x)
	case *ssa.BinOp:
		s.kill(x)
		// constant comparisons fold
		if _, ok := x.Type().Underlying().(*types.Basic); ok && isCmp(x.Op) {
			t, f := s.clone(), s.clone()
			tb, fb := r.refineCmp(t, x, true), r.refineCmp(f, x, false)
			switch {
			case tb && !fb:
				s.env[x] = bV
			case fb && !tb:
				s.env[x] = bN
			}
			return one
		}
		if x.Op == token.ADD || x.Op == token.SUB {
			a, ok1 := s.canon(x.X).(*ssa.Const)
			b, ok2 := s.canon(x.Y).(*ssa.Const)
			if ok1 && ok2 && isIntConst(a) && isIntConst(b) && a.Value != nil && b.Value != nil {
				n := a.Int64() + b.Int64()
				if x.Op == token.SUB {
					n = a.Int64() - b.Int64()
				}
				s.alias[x] = intConst(n, x.Type())
				return one
			}
		}
		if x.Op == token.ADD && isString(x.Type()) {
			a, b := s.get(x.X), s.get(x.Y)
			if a&bMask == bV || b&bMask == bV {
				s.env[x] = bV
			} else if a&bMask == bN && b&bMask == bN {
				s.env[x] = bN
			}
		}
		if r.isPosType(x.Type()) {
			s.env[x] = (s.get(x.X) | s.get(x.Y)) & bMask
			if s.env[x]&bV != 0 && (s.get(x.X)&bMask == bV || s.get(x.Y)&bMask == bV) {
				s.env[x] = bV
			}
		}
		return one
	case *ssa.ChangeInterface, *ssa.ChangeType:
		v := in.(ssa.Value)
		var src ssa.Value
		if c, ok := in.(*ssa.ChangeInterface); ok {
			src = c.X
		} else {
			src = in.(*ssa.ChangeType).X
		}
		s.kill(v)
		s.env[v] = s.get(src)
		if t := s.dynOf(src); t != nil && len(t.ts) > 0 {
			s.dyn[v] = t
		}
		return one
	case *ssa.Convert:
		s.kill(x)
		if isString(x.X.Type()) && isString(x.Type()) {
			b := s.get(x.X) & bMask
			if types.Identical(x.Type(), r.e.tokenKind) {
				b = bV
			} else if b&bT != 0 {
				b = b&^bT | bV
			}
			s.env[x] = b
		} else if r.isPosType(x.Type()) {
			s.env[x] = bV
		}
		return one
	case *ssa.MakeInterface:
		s.kill(x)
		b := bV
		if isPtrLike(x.X.Type()) {
			b = 0
			xb := s.get(x.X)
			if xb&bN != 0 {
				b |= bT
			}
			if xb&bV != 0 {
				b |= bV
			}
		}
		s.env[x] = b
		s.dyn[x] = mkDyn(x.X.Type())
		return one
	case *ssa.TypeAssert:
		return r.typeAssert(s, x)
	case *ssa.Extract:
		if _, ok := s.env[x]; ok {
			return one
		}
		if _, ok := s.alias[x]; ok {
			return one
		}
		s.kill(x)
		return one
	case *ssa.Store:
		return r.store(s, x)
	case *ssa.Slice:
		s.kill(x)
		r.sliceCheck(s, x)
		b := s.get(x.X)
		if al, ok := s.canon(x.X).(*ssa.Alloc); ok {
			if at, ok := deref(al.Type()).Underlying().(*types.Array); ok {
				b = bV
				if at.Len() == 0 {
					b = bT
				}
				if x.Low == nil && x.High == nil {
					b |= s.fld[fk{al, fElem}].v & (eN | eT)
				} else {
					b |= s.fld[fk{al, fElem}].v&(eN|eT) | bT
				}
				if x.High != nil {
					if c, ok := x.High.(*ssa.Const); ok && c.Int64() == 0 {
						b = bT
					}
				}
				s.env[x] = b
				return one
			}
		}
		if x.Low != nil || x.High != nil {
			if isString(x.Type()) {
				b |= bN | bV
			} else {
				b |= bT
			}
		}
		s.env[x] = b
		return one
	case *ssa.MakeMap, *ssa.MakeChan, *ssa.MakeClosure:
		v := in.(ssa.Value)
		s.kill(v)
		s.env[v] = bV
		if mc, ok := in.(*ssa.MakeClosure); ok {
			for _, b := range mc.Bindings {
				r.discharge(s, b)
			}
			for _, ref := range *mc.Referrers() { // used other than by calling it here
				c, ok := ref.(ssa.CallInstruction)
				if _, dbg := ref.(*ssa.DebugRef); !dbg && (!ok || c.Common().Value != ssa.Value(mc)) {
					r.escapeClosure(s, mc)
					break
				}
			}
		}
		return one
	case *ssa.MakeSlice:
		s.kill(x)
		b := bits(0)
		if s.get(x.Len)&bN != 0 {
			b |= bT
		}
		if s.get(x.Len)&bV != 0 { // elements are zero
			b |= bV | topOf(x.Type())&eN
		}
		s.env[x] = b
		return one
	case *ssa.MapUpdate:
		r.publish(s, x.Value)
		r.discharge(s, x.Value)
		if b := s.get(x.Map) & bMask; b&bN != 0 {
			if _, ok := s.env[s.canon(x.Map)]; ok {
				r.alarm("nil", x.Pos(), "store into a map that may be nil")
			}
		}
		return one
	case *ssa.Range:
		s.kill(x)
		return one
	case *ssa.Next:
		return r.commaOk(s, x, nil)
	case *ssa.Defer:
		s.defers = append(s.defers, x)
		for _, a := range x.Call.Args {
			r.discharge(s, a)
		}
		return one
	case *ssa.RunDefers:
		cur := one
		ds := s.defers
		for i := len(ds) - 1; i >= 0; i-- {
			var next []*state
			for _, st := range cur {
				next = append(next, r.callCommon(st, ds[i], &ds[i].Call, nil)...)
			}
			cur = next
		}
		return cur
	case *ssa.Call:
		return r.callCommon(s, x, &x.Call, x)
	case *ssa.Go, *ssa.Send, *ssa.Select:
		return one
	}
	if v, ok := in.(ssa.Value); ok {
		s.kill(v)
	}
	return one
}

func isCmp(op token.Token) bool {
	switch op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		return true
	}
	return false
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func zeroBits(t types.Type) bits {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return bV
	}
	return bN
}

func (r *run) desc(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil {
			return "the result of " + fnName(f)
		}
		if x.Call.IsInvoke() {
			return "the result of " + x.Call.Method.Name()
		}
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			if f := c.Call.StaticCallee(); f != nil {
				return "the result of " + fnName(f)
			}
		}
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			return r.fieldName(fa.X.Type(), fa.Field)
		}
	case *ssa.Parameter:
		return "parameter " + x.Name()
	}
	if n, _ := structOf(v.Type()); n != nil {
		return "a " + n.Obj().Name()
	}
	return v.Type().String()
}

// bind makes load result v stand for field content f.
func (r *run) bind(s *state, v ssa.Value, f fv) {
	if f.rep != nil && f.rep != v {
		if _, isc := f.rep.(*ssa.Const); !isc {
			s.alias[v] = f.rep
			if _, ok := s.env[s.canon(f.rep)]; !ok {
				s.env[s.canon(f.rep)] = f.v
			}
			return
		}
	}
	s.env[v] = f.v
}

func (r *run) unop(s *state, x *ssa.UnOp) []*state {
	one := []*state{s}
	if x.Op != token.MUL {
		b := s.get(x.X)
		s.kill(x)
		if x.Op == token.NOT {
			n := bits(0)
			if b&bN != 0 {
				n |= bV
			}
			if b&bV != 0 {
				n |= bN
			}
			s.env[x] = n
		}
		return one
	}
	switch a := x.X.(type) {
	case *ssa.FieldAddr:
		if r.isTokenField(a) && r.e.mode != "lex" {
			s.kill(x)
			s.env[x] = r.tokBits(s.tok)
			s.tied[x] = true
			return one
		}
		n, st := structOf(a.X.Type())
		if st == nil {
			s.kill(x)
			return one
		}
		if n == r.e.tokenT && s.tk == "" && !isPos(st.Field(a.Field).Type(), r) && (s.tied[a.X] || s.tied[s.canon(a.X)]) {
			s.setTk(tkSeen)
		}
		ft := st.Field(a.Field).Type()
		if isNamed(ft, r.e.lstateT) { // whole lexer state read: a snapshot
			s.kill(x)
			r.snapshot(s, x)
			return one
		}
		if isNamed(deref(ft), r.e.lexerT) {
			s.kill(x)
			s.env[x] = bV
			return one
		}
		if n == r.e.lexerT || n == r.e.lstateT {
			s.kill(x)
			return one
		}
		o := s.obj(a.X)
		key := fk{o, a.Field}
		if f, ok := s.fld[key]; ok {
			if f.rep == ssa.Value(x) { // reload of the same instruction
				b := s.get(x)
				s.kill(x)
				s.env[x] = b
				s.fld[key] = fv{v: b, rep: x}
				return one
			}
			s.kill(x)
			r.bind(s, x, f)
			if !isPos(ft, r) {
				r.touch(s, o)
			}
			if f.rep == nil {
				s.fld[key] = fv{v: f.v, rep: x}
			}
			return one
		}
		b, ok := r.classField(n, st, a.Field)
		if !ok {
			return nil
		}
		if n == r.e.tokenT && (s.tied[a.X] || s.tied[s.canon(a.X)]) && r.e.mode == "parse" {
			if bt, isB := ft.Underlying().(*types.Basic); isB && bt.Info()&types.IsString != 0 && textSure(s.tk) {
				b = bV // the text of a keyword or symbol
			}
			if isPos(ft, r) && s.adv {
				b = bV // a token after another one does not start the input
			}
		}
		s.kill(x)
		s.env[x] = b
		if !isPos(ft, r) {
			r.touch(s, o)
		}
		s.fld[key] = fv{v: b, rep: x}
		return one
	case *ssa.Alloc, *ssa.FreeVar:
		if isNamed(deref(a.Type()), r.e.lstateT) {
			f := s.fld[fk{a, fCell}]
			s.kill(x)
			if f.rep != nil {
				s.alias[x] = f.rep
			}
			return one
		}
		if n, st := structOf(a.Type()); n != nil {
			var facts = map[int]fv{}
			for i := 0; i < st.NumFields(); i++ {
				if f, ok := s.fld[fk{a, i}]; ok {
					facts[i] = f
				}
			}
			s.kill(x)
			s.env[x] = bV
			for i, f := range facts {
				s.fld[fk{x, i}] = f
			}
			return one
		}
		key := fk{a, fCell}
		if f, ok := s.fld[key]; ok {
			if f.rep == ssa.Value(x) {
				b := s.get(x)
				s.kill(x)
				s.env[x] = b
				s.fld[key] = fv{v: b, rep: x}
				return one
			}
			s.kill(x)
			r.bind(s, x, f)
			if f.rep == nil {
				s.fld[key] = fv{v: f.v, rep: x}
			}
			return one
		}
		s.kill(x)
		return one
	case *ssa.IndexAddr:
		s.kill(x)
		s.env[x] = r.elemBits(s, a.X, x.Type())
		return one
	case *ssa.Global:
		s.kill(x)
		if r.e.setGlobal[a] {
			s.env[x] = bV
		}
		return one
	}
	// through an arbitrary pointer
	if isNamed(deref(x.X.Type()), r.e.lstateT) {
		s.kill(x)
		r.snapshot(s, x)
		return one
	}
	if !r.needValid(s, x.X, x, "dereference of "+r.desc(x.X)) {
		return nil
	}
	o := s.obj(x.X)
	if n, st := structOf(x.X.Type()); n != nil {
		facts := map[int]fv{}
		for i := 0; i < st.NumFields(); i++ {
			if f, ok := s.fld[fk{o, i}]; ok {
				facts[i] = f
			}
		}
		r.touch(s, o)
		s.kill(x)
		s.env[x] = bV
		for i, f := range facts {
			s.fld[fk{x, i}] = f
		}
		return one
	}
	s.kill(x)
	return one
}

// touch notes that a non-position part of a parsed node was used.
func (r *run) touch(s *state, o ssa.Value) { r.discharge(s, o) }

func isPos(t types.Type, r *run) bool { return r.isPosType(t) }

func (r *run) elemBits(s *state, sl ssa.Value, t types.Type) bits {
	top := topOf(t)
	var b bits
	if al, ok := s.canon(sl).(*ssa.Alloc); ok {
		b = s.fld[fk{al, fElem}].v
	} else {
		b = s.get(sl)
	}
	switch t.Underlying().(type) {
	case *types.Interface, *types.Pointer:
		nb := bV
		if b&eN != 0 {
			nb |= bN
		}
		if b&eT != 0 {
			nb |= bT
		}
		return nb
	}
	if types.Identical(t, r.e.tokenKind) {
		nb := bV
		if b&eT != 0 {
			nb |= bT
		}
		return nb
	}
	return top
}

func elemFlags(b bits) bits {
	var r bits
	if b&bN != 0 {
		r |= eN
	}
	if b&bT != 0 {
		r |= eT
	}
	return r
}

func (r *run) snapshot(s *state, x ssa.Value) {
	sn := &snap{tk: s.tk, tok: s.tok, adv: s.adv, entry: s.entry, pend: s.pend, since: cpm(s.since), tied: cpm(s.tied), cur: true}
	s.env[x] = bV
	s.snaps[x] = sn
}

func (r *run) restore(s *state, v ssa.Value, in ssa.Instruction) []*state {
	sn := s.snaps[s.canon(v)]
	if sn == nil {
		r.alarm("restore", in.Pos(), "reader state replaced by one whose origin is unknown")
		s.tok = tokV | tokEOF | tokErr
		s.tied = map[ssa.Value]bool{}
		return []*state{s}
	}
	s.tok, s.adv, s.entry, s.pend, s.tk = sn.tok, sn.adv, sn.entry, sn.pend, sn.tk
	s.tied = cpm(sn.tied)
	for h := range s.since {
		s.since[h] = sn.since[h]
	}
	for k, o := range s.snaps {
		n := *o
		n.cur = o == sn || n.cur && sn.cur
		s.snaps[k] = &n
	}
	if n := s.snaps[s.canon(v)]; n != nil {
		n.cur = true
	}
	return []*state{s}
}

// holdsNode: a field of this type keeps something parsed.
func (r *run) holdsNode(t types.Type) bool { return r.e.holdsNode(t) }

func (e *Engine) holdsNode(t types.Type) bool {
	if sl, ok := t.Underlying().(*types.Slice); ok {
		t = sl.Elem()
	}
	if _, ok := t.Underlying().(*types.Interface); ok {
		return types.Implements(t, e.P.ExprT)
	}
	if _, ok := t.Underlying().(*types.Struct); ok {
		return false
	}
	n, _ := structOf(t)
	return n != nil && n.Obj().Pkg() == e.P.TPkg
}

// derives: the value is built from what the field at fa held.
func (r *run) derives(v ssa.Value, fa *ssa.FieldAddr, seen map[ssa.Value]bool) bool {
	if v == nil || seen[v] {
		return false
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.UnOp:
		if f, ok := x.X.(*ssa.FieldAddr); ok && f.Field == fa.Field && types.Identical(f.X.Type(), fa.X.Type()) {
			return true
		}
		return r.derives(x.X, fa, seen)
	case *ssa.Const, *ssa.Global, *ssa.Parameter, *ssa.Function, *ssa.Builtin:
		return false
	case *ssa.Alloc:
		for _, ref := range *x.Referrers() {
			switch y := ref.(type) {
			case *ssa.Store:
				if y.Addr == ssa.Value(x) && r.derives(y.Val, fa, seen) {
					return true
				}
			case *ssa.FieldAddr:
				for _, ref := range *y.Referrers() {
					if st, ok := ref.(*ssa.Store); ok && st.Addr == ssa.Value(y) && r.derives(st.Val, fa, seen) {
						return true
					}
				}
			case *ssa.IndexAddr:
				for _, ref := range *y.Referrers() {
					if st, ok := ref.(*ssa.Store); ok && st.Addr == ssa.Value(y) && r.derives(st.Val, fa, seen) {
						return true
					}
				}
			}
		}
		return false
	}
	if in, ok := v.(ssa.Instruction); ok {
		var ops []*ssa.Value
		for _, o := range in.Operands(ops) {
			if *o != nil && r.derives(*o, fa, seen) {
				return true
			}
		}
	}
	return false
}

func (r *run) store(s *state, x *ssa.Store) []*state {
	one := []*state{s}
	switch a := x.Addr.(type) {
	case *ssa.FieldAddr:
		n, st := structOf(a.X.Type())
		if st == nil {
			return one
		}
		if r.isTokenField(a) && r.e.mode == "parse" {
			r.alarm("tokstore", x.Pos(), "the current token is replaced outside the tokenizer")
			s.tok = tokV | tokEOF | tokErr
			return one
		}
		ft := st.Field(a.Field).Type()
		if isNamed(ft, r.e.lstateT) {
			return r.restore(s, x.Val, x)
		}
		if n == r.e.lexerT || n == r.e.lstateT {
			return one
		}
		r.discharge(s, x.Val)
		if r.e.mode == "parse" && n != nil && r.e.tracked[n] && r.holdsNode(ft) {
			r.ob("overwritten", x)
			old, known := s.fld[fk{s.obj(a.X), a.Field}]
			if known && old.rep != nil {
				if b := s.get(old.rep); b&bMask != 0 && b&^old.v == 0 {
					old.v = b
				}
			}
			if known && old.v&bV != 0 && !r.derives(x.Val, a, map[ssa.Value]bool{}) {
				r.alarm("overwritten", x.Pos(), "what was read into "+r.fieldName(a.X.Type(), a.Field)+" before is replaced")
			}
		}
		r.storeField(s, s.obj(a.X), n, a.Field, x.Val, ft)
		return one
	case *ssa.Alloc, *ssa.FreeVar:
		if isNamed(deref(a.Type()), r.e.lstateT) {
			s.fld[fk{a, fCell}] = fv{rep: s.canon(x.Val)}
			return one
		}
		if n, st := structOf(a.Type()); n != nil {
			src := s.canon(x.Val)
			if c, ok := src.(*ssa.Const); ok && c.Value == nil {
				for i := 0; i < st.NumFields(); i++ {
					s.fld[fk{a, i}] = fv{v: zeroBits(st.Field(i).Type())}
				}
				return one
			}
			for i := 0; i < st.NumFields(); i++ {
				if f, ok := s.fld[fk{src, i}]; ok {
					s.fld[fk{a, i}] = f
				} else if b, ok := r.classField(n, st, i); ok {
					s.fld[fk{a, i}] = fv{v: b}
				} else {
					return nil
				}
			}
			return one
		}
		f := fv{v: s.get(x.Val)}
		if c := s.canon(x.Val); true {
			if _, isc := c.(*ssa.Const); !isc {
				f.rep = c
			}
		}
		s.fld[fk{a, fCell}] = f
		return one
	case *ssa.IndexAddr:
		r.discharge(s, x.Val)
		r.publish(s, x.Val)
		if n, _ := structOf(x.Val.Type()); n != nil {
			if _, isP := x.Val.Type().Underlying().(*types.Pointer); !isP {
				r.publishStruct(s, x.Val, n)
			}
		}
		fl := elemFlags(s.get(x.Val))
		switch x.Val.Type().Underlying().(type) {
		case *types.Interface, *types.Pointer:
		default:
			if !types.Identical(x.Val.Type(), r.e.tokenKind) {
				fl = 0
			} else {
				fl &= eT
			}
		}
		c := s.canon(a.X)
		if al, ok := c.(*ssa.Alloc); ok {
			f := s.fld[fk{al, fElem}]
			f.v |= fl
			s.fld[fk{al, fElem}] = f
		} else if _, isc := c.(*ssa.Const); !isc {
			s.env[c] = s.get(c) | fl
		}
		return one
	}
	r.discharge(s, x.Val)
	r.publish(s, x.Val)
	if isNamed(deref(x.Addr.Type()), r.e.lstateT) {
		return r.restore(s, x.Val, x)
	}
	if n, st := structOf(x.Addr.Type()); n != nil {
		if !r.needValid(s, x.Addr, x, "store through "+r.desc(x.Addr)) {
			return nil
		}
		o := s.obj(x.Addr)
		src := s.canon(x.Val)
		for i := 0; i < st.NumFields(); i++ {
			if f, ok := s.fld[fk{src, i}]; ok {
				s.fld[fk{o, i}] = f
			} else {
				delete(s.fld, fk{o, i})
			}
		}
	}
	return one
}

func (r *run) publishStruct(s *state, v ssa.Value, n *types.Named) {
	c := s.canon(v)
	st := n.Underlying().(*types.Struct)
	f := make([]bits, st.NumFields())
	any := false
	for i := range f {
		if x, ok := s.fld[fk{c, i}]; ok {
			f[i] = x.v
			any = true
		} else {
			f[i] = topOf(st.Field(i).Type())
		}
	}
	if any {
		r.e.addShape(mkShape(n, f))
	}
}

// commaOk splits a (value, ok) producing instruction; val gives the value bits when ok.
func (r *run) commaOk(s *state, v ssa.Value, val func(*state, ssa.Value)) []*state {
	var exs []*ssa.Extract
	for _, ref := range *v.Referrers() {
		if e, ok := ref.(*ssa.Extract); ok {
			exs = append(exs, e)
		}
	}
	s.kill(v)
	for _, e := range exs {
		s.kill(e)
	}
	okIdx := v.Type().(*types.Tuple).Len() - 1
	if _, ok := v.(*ssa.Next); ok {
		okIdx = 0
	}
	t := s.clone()
	for _, e := range exs {
		if e.Index == okIdx {
			t.env[e] = bV
			s.env[e] = bN
		} else {
			if val != nil {
				val(t, e)
			} else {
				t.env[e] = topOf(e.Type())
			}
			s.env[e] = zeroBits(e.Type())
		}
	}
	return []*state{t, s}
}

func (r *run) typeAssert(s *state, x *ssa.TypeAssert) []*state {
	src := s.canon(x.X)
	d := s.dynOf(x.X)
	b := s.get(x.X) & bMask
	may, must := true, false
	var yes, no []types.Type
	if d != nil {
		for _, t := range d.ts {
			ok := false
			if it, isI := x.AssertedType.Underlying().(*types.Interface); isI {
				ok = types.Implements(t, it)
			} else {
				ok = types.Identical(t, x.AssertedType)
			}
			if ok {
				yes = append(yes, t)
			} else {
				no = append(no, t)
			}
		}
		may, must = len(yes) > 0, len(no) == 0
	}
	if b&(bT|bV) == 0 {
		may, must = false, false
	}
	if b&bN != 0 {
		must = false
	}
	resBits := func(st *state) bits {
		if _, isI := x.AssertedType.Underlying().(*types.Interface); isI {
			return st.get(x.X) & (bT | bV)
		}
		if isPtrLike(x.AssertedType) {
			nb := bits(0)
			if st.get(x.X)&bT != 0 {
				nb |= bN
			}
			if st.get(x.X)&bV != 0 {
				nb |= bV
			}
			return nb
		}
		return topOf(x.AssertedType)
	}
	if !x.CommaOk {
		r.ob("assert", x)
		if !must {
			r.alarm("assert", x.Pos(), "type assertion to "+types.TypeString(x.AssertedType, nil)+" may fail")
		}
		if !may {
			return nil
		}
		rb := resBits(s)
		s.kill(x)
		s.env[x] = rb
		if len(yes) > 0 {
			s.dyn[x] = mkDyn(yes...)
		}
		return []*state{s}
	}
	var out []*state
	both := r.commaOk(s, x, func(t *state, e ssa.Value) {})
	t, f := both[0], both[1]
	for _, ref := range *x.Referrers() {
		e, ok := ref.(*ssa.Extract)
		if !ok || e.Index != 0 {
			continue
		}
		if may {
			t.env[e] = resBits(t)
			o := t.obj(x.X)
			if len(yes) > 0 {
				t.dyn[e] = mkDyn(yes...)
				if types.Identical(o.Type(), x.AssertedType) {
					delete(t.env, e)
					t.alias[e] = o
				}
			} else if _, isI := x.AssertedType.Underlying().(*types.Interface); !isI {
				t.dyn[e] = mkDyn(x.AssertedType)
			}
			if _, ok := t.alias[e]; !ok && t.fresh[src] != nil && isPtrLike(x.AssertedType) {
				if n, _ := structOf(x.AssertedType); n == t.fresh[src] { // receiver bound with a shape
					delete(t.env, e)
					t.alias[e] = src
				}
			}
		}
	}
	if may && r.refine(t, x.X, bT|bV) {
		if len(yes) > 0 && len(no) > 0 {
			t.dyn[t.canon(x.X)] = mkDyn(yes...)
		}
		out = append(out, t)
	}
	if d != nil && b&bN == 0 && len(no) > 0 && len(yes) > 0 {
		f.dyn[f.canon(x.X)] = mkDyn(no...)
	}
	if !must {
		out = append(out, f)
	}
	return out
}

var intMu sync.Mutex
var intConsts = map[string]*ssa.Const{}

func intConst(n int64, t types.Type) *ssa.Const {
	k := types.TypeString(t, nil) + constant.MakeInt64(n).String()
	intMu.Lock()
	defer intMu.Unlock()
	if c := intConsts[k]; c != nil {
		return c
	}
	c := ssa.NewConst(constant.MakeInt64(n), t)
	intConsts[k] = c
	return c
}
