package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (r *run) extracts(v ssa.Value) map[int][]*ssa.Extract {
	m := map[int][]*ssa.Extract{}
	if v == nil || v.Referrers() == nil {
		return m
	}
	for _, ref := range *v.Referrers() {
		if e, ok := ref.(*ssa.Extract); ok {
			m[e.Index] = append(m[e.Index], e)
		}
	}
	return m
}

func errorIndex(sig *types.Signature) int {
	n := sig.Results().Len()
	if n == 0 {
		return -1
	}
	if types.Identical(sig.Results().At(n-1).Type(), types.Universe.Lookup("error").Type()) {
		return n - 1
	}
	return -1
}

// isNodeType: pointer to an AST struct, or an interface that is an AST interface.
func (e *Engine) isNodeType(t types.Type) bool {
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		n, _ := types.Unalias(p.Elem()).(*types.Named)
		return n != nil && (e.P.NodeSet[n] || e.tracked[n])
	}
	if n, ok := t.(*types.Named); ok {
		if it, ok := n.Underlying().(*types.Interface); ok {
			return types.Implements(n, e.P.ExprT) && it != nil
		}
	}
	return false
}

func (e *Engine) inPkg(f *ssa.Function) bool {
	if f == nil || f.Blocks == nil {
		return false
	}
	if f.Pkg == e.P.Pkg {
		return true
	}
	if f.Origin() != nil && f.Origin().Pkg == e.P.Pkg {
		return true
	}
	if f.Parent() != nil {
		return e.inPkg(f.Parent())
	}
	return false
}

// nodeMethod: a method of an AST node that the Expr interface requires (verified on its own, per class shape).
func (e *Engine) nodeMethod(f *ssa.Function) bool {
	rv := f.Signature.Recv()
	if rv == nil {
		return false
	}
	n, _ := structOf(rv.Type())
	if n == nil || !e.P.NodeSet[n] {
		return false
	}
	return e.exprMethod(f.Name())
}

func (e *Engine) exprMethod(name string) bool {
	for i := 0; i < e.P.ExprT.NumMethods(); i++ {
		if e.P.ExprT.Method(i).Name() == name {
			return true
		}
	}
	return false
}

func (r *run) callCommon(s *state, in ssa.CallInstruction, cc *ssa.CallCommon, v ssa.Value) []*state {
	if v != nil {
		exs := r.extracts(v)
		for _, es := range exs {
			for _, e := range es {
				s.kill(e)
			}
		}
		s.kill(v)
	}
	if bi, ok := cc.Value.(*ssa.Builtin); ok {
		return r.builtin(s, in, cc, bi, v)
	}
	callee := cc.StaticCallee()
	if r.e.hook != nil {
		if handled, outs := r.e.hook.descend(r, s, in, callee); handled {
			return outs
		}
	}
	if cc.IsInvoke() {
		if !r.needValid(s, cc.Value, in, "call of "+cc.Method.Name()+" on "+r.desc(cc.Value)) {
			return nil
		}
		if r.e.final && r.e.exprMethod(cc.Method.Name()) {
			if d := s.dynOf(cc.Value); d != nil {
				for _, t := range d.ts {
					if n, _ := structOf(t); n != nil {
						r.e.nodeCalls[cc.Method.Name()+"@"+n.Obj().Name()] = true
					}
				}
			} else {
				r.e.nodeCalls[cc.Method.Name()+"@*"] = true
			}
		}
		for _, a := range cc.Args {
			r.discharge(s, a)
			r.publish(s, a)
		}
		r.topResults(s, v, cc.Signature())
		return []*state{s}
	}
	// closures whose body is a single block are executed in place
	if mc, ok := s.canon(cc.Value).(*ssa.MakeClosure); ok {
		f := mc.Fn.(*ssa.Function)
		if len(f.Blocks) == 1 {
			return r.inline(s, f, mc, cc, v)
		}
		callee = f
	}
	if callee == nil {
		if _, isF := cc.Value.Type().Underlying().(*types.Signature); isF {
			r.needValid(s, cc.Value, in, "call of a function value")
		}
		for _, a := range cc.Args {
			r.discharge(s, a)
			r.publish(s, a)
		}
		r.topResults(s, v, cc.Signature())
		return []*state{s}
	}
	if r.e.inPkg(callee) && len(callee.Blocks) == 1 && r.e.handlesState(callee) {
		return r.inline(s, callee, nil, cc, v)
	}
	if callee == r.e.consume && r.e.mode == "parse" {
		return r.consumeCall(s, in, v)
	}
	if !r.e.inPkg(callee) {
		return r.external(s, in, cc, callee, v)
	}
	if r.e.nodeMethod(callee) && len(cc.Args) > 0 {
		recv := cc.Args[0]
		if r.e.mode == "ast" || s.fresh[s.obj(recv)] == nil || s.pub[s.obj(recv)] {
			rb := s.get(recv) & bMask
			if rb == bV {
				if n, _ := structOf(recv.Type()); n != nil && r.e.final {
					r.e.nodeCalls[callee.Name()+"@"+n.Obj().Name()] = true
				}
				for _, a := range cc.Args[1:] {
					r.publish(s, a)
				}
				r.topResults(s, v, cc.Signature())
				return []*state{s}
			}
		}
	}
	if r.e.mode == "ast" && r.e.assumed[callee] { // analysed on its own for every kind of argument
		r.topResults(s, v, cc.Signature())
		return []*state{s}
	}
	return r.static(s, in, cc, callee, v)
}

func (r *run) inline(s *state, f *ssa.Function, mc *ssa.MakeClosure, cc *ssa.CallCommon, v ssa.Value) []*state {
	for i, fv := range f.FreeVars {
		s.kill(fv)
		s.alias[fv] = s.canon(mc.Bindings[i])
	}
	alias := func(st *state, x, src ssa.Value) {
		c := st.canon(src)
		if k, ok := c.(*ssa.Const); ok {
			st.env[x] = constBits(k)
		} else {
			st.alias[x] = c
		}
	}
	for i, p := range f.Params {
		s.kill(p)
		alias(s, p, cc.Args[i])
	}
	cur := []*state{s}
	for _, in := range f.Blocks[0].Instrs {
		var next []*state
		for _, st := range cur {
			switch x := in.(type) {
			case *ssa.Return:
				if v != nil {
					if len(x.Results) == 1 {
						alias(st, v, x.Results[0])
					} else {
						for i, es := range r.extracts(v) {
							for _, e := range es {
								alias(st, e, x.Results[i])
							}
						}
					}
				}
				next = append(next, st)
			case *ssa.Panic:
				r.alarm("panic", x.Pos(), "explicit panic")
			default:
				next = append(next, r.instr(st, in)...)
			}
		}
		cur = next
	}
	return cur
}

// handlesState: the function takes or returns a saved reader state.
func (e *Engine) handlesState(f *ssa.Function) bool {
	for _, p := range f.Params {
		if isNamed(p.Type(), e.lstateT) {
			return true
		}
	}
	rs := f.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		if isNamed(rs.At(i).Type(), e.lstateT) {
			return true
		}
	}
	return false
}

// lookahead: no analysed use of f ever consumes anything.
func (e *Engine) lookahead(f *ssa.Function) bool {
	for _, c := range e.byFn[f] {
		for _, o := range c.outs {
			if o.adv {
				return false
			}
		}
	}
	return true
}

func (r *run) topResults(s *state, v ssa.Value, sig *types.Signature) {
	if v == nil {
		return
	}
	if sig.Results().Len() > 1 {
		for i, es := range r.extracts(v) {
			for _, e := range es {
				s.env[e] = topOf(sig.Results().At(i).Type())
			}
		}
	}
}

func (r *run) setResult(s *state, v ssa.Value, i, n int, f func(ssa.Value)) {
	if v == nil {
		return
	}
	if n == 1 {
		f(v)
		return
	}
	for _, e := range r.extracts(v)[i] {
		f(e)
	}
}

func (r *run) consumeCall(s *state, in ssa.CallInstruction, v ssa.Value) []*state {
	var out []*state
	set := func(st *state, b bits) {
		if v != nil {
			st.env[v] = b
		}
	}
	if s.tok&tokV != 0 {
		t := s.clone()
		if r.refineTok(t, tokV) {
			r.ob("unseen", in)
			if t.tk == "" {
				r.alarm("unseen", in.Pos(), "consumes a token that was neither compared with what is expected nor kept")
			}
			t.progress()
			e := t.clone()
			t.tok = tokV | tokEOF
			set(t, bN)
			e.tok = tokErr
			set(e, bV)
			out = append(out, t, e)
		}
	}
	if s.tok&tokEOF != 0 {
		t := s.clone()
		if r.refineTok(t, tokEOF) {
			set(t, bN)
			out = append(out, t)
		}
	}
	if s.tok&tokErr != 0 {
		t := s.clone()
		if r.refineTok(t, tokErr) {
			set(t, bV)
			out = append(out, t)
		}
	}
	return out
}

func (r *run) builtin(s *state, in ssa.CallInstruction, cc *ssa.CallCommon, bi *ssa.Builtin, v ssa.Value) []*state {
	one := []*state{s}
	switch bi.Name() {
	case "len", "cap":
		if p, ok := cc.Args[0].(*ssa.Parameter); ok && r.e.mode == "parse" {
			if _, ok := p.Type().Underlying().(*types.Slice); ok {
				if t := r.constText(s, p); t != "" {
					s.alias[v] = intConst(int64(strings.Count(t, "\x00")+1), v.Type())
					return one
				}
			}
		}
		s.env[v] = s.get(cc.Args[0]) & bMask
		if _, ok := cc.Args[0].Type().Underlying().(*types.Map); ok {
			s.env[v] = bN | bV
			return one
		}
		if _, ok := cc.Args[0].Type().Underlying().(*types.Slice); ok && s.env[v]&bT != 0 {
			s.env[v] = s.env[v]&^bT | bN
		}
		if _, ok := cc.Args[0].Type().Underlying().(*types.Basic); ok {
			b := s.get(cc.Args[0])
			s.env[v] = b&bN | (b & bV)
			if b&bT != 0 {
				s.env[v] |= bV
			}
		}
	case "append":
		a := s.get(cc.Args[0])
		res := a
		if len(cc.Args) > 1 {
			for _, x := range cc.Args[1:] {
				r.discharge(s, x)
			}
			b := s.get(cc.Args[1])
			if isString(cc.Args[1].Type()) {
				b &= bMask
			}
			res = (a|b)&(eN|eT) | bits(0)
			if b&bV != 0 {
				res |= bV
			}
			if b&(bN|bT) != 0 {
				res |= a & bMask
			}
		}
		s.env[v] = res
	case "panic":
		r.alarm("panic", in.Pos(), "explicit panic")
		return nil
	case "ssa:wrapnilchk":
		s.alias[v] = s.canon(cc.Args[0])
		delete(s.env, v)
		if _, ok := s.alias[v].(*ssa.Const); ok {
			delete(s.alias, v)
			s.env[v] = bN
		}
	}
	return one
}

var nonNilExt = map[string]bool{"errors.New": true, "fmt.Errorf": true}

func (r *run) external(s *state, in ssa.CallInstruction, cc *ssa.CallCommon, callee *ssa.Function, v ssa.Value) []*state {
	name := callee.String()
	for _, a := range cc.Args {
		if !strings.HasPrefix(name, "fmt.") { // values only printed are not kept
			r.discharge(s, a)
		}
		r.publish(s, a)
	}
	for _, a := range cc.Args {
		if mc, ok := s.canon(a).(*ssa.MakeClosure); ok {
			_ = mc // analysed where it is made
		}
	}
	if v == nil {
		return []*state{s}
	}
	switch {
	case nonNilExt[name]:
		s.env[v] = bV
	case name == "strings.ToUpper" || name == "strings.ToLower" || name == "strings.Clone":
		s.env[v] = s.get(cc.Args[0]) & bMask
	case name == "errors.As":
		// errors.As(err, &target): on success the target is non-nil
		t := s.clone()
		if mi, ok := cc.Args[1].(*ssa.MakeInterface); ok {
			if al, ok := t.canon(mi.X).(*ssa.Alloc); ok {
				t.fld[fk{al, fCell}] = fv{v: bV}
			}
		}
		t.env[v] = bV
		s.env[v] = bN
		return []*state{t, s}
	case strings.HasPrefix(name, "reflect."):
	default:
		sig := callee.Signature
		ei := errorIndex(sig)
		if ei >= 0 && sig.Results().Len() > 1 {
			t := s.clone()
			for i, es := range r.extracts(v) {
				for _, e := range es {
					if i == ei {
						s.env[e] = bN
						t.env[e] = bV
					} else {
						s.env[e], t.env[e] = topOf(e.Type()), topOf(e.Type())
					}
				}
			}
			t.pend = in
			return []*state{s, t}
		}
		r.topResults(s, v, sig)
	}
	return []*state{s}
}

// escapeClosure analyses a closure handed to a library function, with unknown arguments.
func (r *run) escapeClosure(s *state, mc *ssa.MakeClosure) {
	f := mc.Fn.(*ssa.Function)
	args := make([]aval, len(f.Params))
	for i, p := range f.Params {
		args[i] = aval{b: bV}
		if t := topOf(p.Type()); t != bN|bT|bV {
			args[i].b = t
		}
	}
	args = append(args, r.captured(s, mc, true)...)
	c := r.e.getCtx(f, args, s.tok, "", "")
	c.deps[r.c] = true
	r.c.calls[c] = true
}

// captured describes the variables a function literal captures. Their content is only known when nothing
// but the enclosing function's single assignment (or, for a direct call, its assignments so far) sets them.
func (r *run) captured(s *state, mc *ssa.MakeClosure, escapes bool) []aval {
	f := mc.Fn.(*ssa.Function)
	var out []aval
	for i, fv := range f.FreeVars {
		t := deref(fv.Type())
		av := aval{b: topOf(t)}
		b := s.canon(mc.Bindings[i])
		if cell, ok := s.fld[fk{b, fCell}]; ok && !storedByClosures(b) && (!escapes || stores(b) <= 1) {
			v := cell.v
			if cell.rep != nil {
				if x := s.get(cell.rep); x&bMask != 0 && x&^v == 0 {
					v = x
				}
			}
			if v&bMask != 0 {
				av.b = v
			}
		}
		out = append(out, av)
	}
	return out
}

// stores counts the assignments to a captured variable in its own function.
func stores(v ssa.Value) int {
	n := 0
	if _, ok := v.(*ssa.Alloc); !ok {
		return 0
	}
	for _, ref := range *v.Referrers() {
		if st, ok := ref.(*ssa.Store); ok && st.Addr == v {
			n++
		}
	}
	return n
}

// storedByClosures: some function literal assigns the variable.
func storedByClosures(v ssa.Value) bool {
	if v.Referrers() == nil {
		return true
	}
	for _, ref := range *v.Referrers() {
		mc, ok := ref.(*ssa.MakeClosure)
		if !ok {
			continue
		}
		f := mc.Fn.(*ssa.Function)
		for i, b := range mc.Bindings {
			if b != v {
				continue
			}
			if storedByClosures(f.FreeVars[i]) {
				return true
			}
			for _, r2 := range *f.FreeVars[i].Referrers() {
				if st, ok := r2.(*ssa.Store); ok && st.Addr == ssa.Value(f.FreeVars[i]) {
					return true
				}
			}
		}
	}
	return false
}

func (r *run) readsDyn(f *ssa.Function, i int) bool {
	m := r.e.readsParam[f]
	if m == nil {
		m = map[int]bool{}
		for k, p := range f.Params {
			if p.Referrers() == nil {
				continue
			}
			for _, ref := range *p.Referrers() {
				if _, ok := ref.(*ssa.TypeAssert); ok {
					m[k] = true
				}
			}
		}
		r.e.readsParam[f] = m
	}
	return m[i]
}

func (r *run) static(s *state, in ssa.CallInstruction, cc *ssa.CallCommon, callee *ssa.Function, v ssa.Value) []*state {
	e := r.e
	args := make([]aval, len(callee.Params))
	for i, a := range cc.Args {
		if i >= len(args) {
			break
		}
		t := a.Type()
		av := aval{}
		switch u := t.Underlying().(type) {
		case *types.Pointer, *types.Interface, *types.Slice, *types.Map, *types.Signature:
			av.b = s.get(a)
			_ = u
		case *types.Basic:
			if u.Kind() == types.Bool || types.Identical(t, e.tokenKind) {
				av.b = s.get(a)
			} else if e.isPosLike(t) {
				av.b = s.get(a) & bMask
			} else {
				av.b = bN | bV
			}
		default:
			av.b = topOf(t)
		}
		if n, _ := structOf(t); n == e.parserT || n == e.lexerT {
			av.b = bV
		}
		if c := s.canon(a); s.tied[c] || s.tied[a] {
			av.tied = true
		}
		if _, isP := t.Underlying().(*types.Pointer); isP && r.e.mode != "shallow" {
			o := s.obj(a)
			if sh := r.shapeOf(s, o); sh != nil && e.tracked[sh.n] && av.b&bV != 0 {
				av.sh = sh
				av.pub = s.pub[o]
			}
		} else if _, isI := t.Underlying().(*types.Interface); isI {
			o := s.obj(a)
			r.publish(s, a)
			if r.readsDyn(callee, i) {
				_ = o
				if d := s.dynOf(a); d != nil && len(d.ts) > 0 {
					av.dyn = d
				}
			}
		}
		if av.b&bMask == 0 {
			av.b |= topOf(t)
		}
		args[i] = av
	}
	for i := range callee.Params {
		if args[i].b == 0 {
			args[i].b = topOf(callee.Params[i].Type())
		}
	}
	if len(callee.FreeVars) > 0 {
		if mc, ok := s.canon(cc.Value).(*ssa.MakeClosure); ok {
			args = append(args, r.captured(s, mc, false)...)
		}
	}
	tok := s.tok
	if e.mode != "parse" || !e.touchesParser(callee) {
		tok = tokV | tokEOF | tokErr
	}
	shared := tok != s.tok
	tk := s.tk
	isMatch := e.mode == "parse" && e.matchFn(callee) != ""
	if shared || isMatch {
		tk = ""
	}
	if e.mode == "parse" && e.matchFn(callee) == "" {
		for i, a := range cc.Args {
			if i < len(args) {
				args[i].cst = r.constText(s, a)
			}
		}
	}
	matchCst := ""
	if e.mode == "parse" && e.matchFn(callee) != "" {
		matchCst = r.constText(s, cc.Args[len(cc.Args)-1])
	}
	c := e.getCtx(callee, args, tok, "", tk)
	c.deps[r.c] = true
	r.c.calls[c] = true
	if e.final && e.onCall != nil {
		if call, ok := in.(*ssa.Call); ok {
			e.onCall(r, s, call)
		}
	}
	if !s.adv {
		if _, ok := r.c.advFalse[c]; !ok {
			r.c.advFalse[c] = in.Pos()
		}
	}
	if !e.nodeMethod(callee) {
		for _, a := range cc.Args {
			r.discharge(s, a)
		}
	}
	var keys []string
	for k := range c.outs {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var out []*state
	sig := callee.Signature
	nres := sig.Results().Len()
	ei := errorIndex(sig)
	for _, k := range keys {
		o := c.outs[k]
		t := s.clone()
		if !shared {
			if !r.refineTok(t, o.entry) {
				continue
			}
		}
		feasible := true
		for i, a := range cc.Args {
			if i >= len(o.pbits) {
				break
			}
			m := o.pbits[i] & bMask
			if m != 0 && m != args[i].b&bMask {
				if !r.refine(t, a, m) {
					feasible = false
					break
				}
			}
			ob := t.obj(a)
			if _, isP := a.Type().Underlying().(*types.Pointer); isP {
				if args[i].sh != nil && o.psh[i] != nil {
					for j, b := range o.psh[i].f {
						f, ok := t.fld[fk{ob, j}]
						if ok && f.v == b {
							continue
						}
						if ok && f.rep != nil && t.get(f.rep) == b {
							continue
						}
						t.fld[fk{ob, j}] = fv{v: b}
					}
					if o.ppub[i] {
						t.pub[ob] = true
					}
				}
			}
		}
		if !feasible {
			continue
		}
		// other objects whose fields the callee may change
		if w := e.fieldsWritten(callee); len(w) > 0 {
			argObj := map[ssa.Value]bool{}
			for i, a := range cc.Args {
				if args[i].sh != nil {
					argObj[t.obj(a)] = true
				}
			}
			for key := range t.fld {
				if key.f < 0 || argObj[key.b] {
					continue
				}
				if t.fresh[key.b] != nil && !t.pub[key.b] {
					continue
				}
				if n, _ := structOf(key.b.Type()); n == nil || w[fieldID{n, key.f}] {
					delete(t.fld, key)
				}
			}
		}
		if o.adv {
			t.progress()
			t.tok = o.tok
			if o.tk != "" {
				t.setTk(o.tk)
			}
		} else if !shared {
			if !r.refineTok(t, o.tok) {
				continue
			}
			if o.tk != "" && !isMatch {
				if !compatTk(t.tk, o.tk) {
					continue
				}
				t.setTk(moreSpecific(t.tk, o.tk))
			}
		}
		if isMatch && nres == 1 {
			if o.res[0].b&bMask == bV && t.tk == "" {
				t.setTk(tkSeen)
			}
			if m := e.matchFn(callee); matchCst != "" && !strings.Contains(matchCst, "\x00") {
				fact := m + matchCst
				val := o.res[0].b & bMask
				if val == bV {
					if !compatTk(t.tk, fact) {
						continue
					}
					t.setTk(moreSpecific(t.tk, fact))
				} else if val == bN {
					if impliesTk(t.tk, fact) {
						continue
					}
				}
			}
		}
		if ei >= 0 && o.res[ei].b&bMask == bV && !e.lookahead(callee) {
			t.pend = in
		}
		for i := 0; i < nres; i++ {
			res := o.res[i]
			r.setResult(t, v, i, nres, func(x ssa.Value) {
				if res.par > 0 && res.par-1 < len(cc.Args) {
					c := t.canon(cc.Args[res.par-1])
					if _, isc := c.(*ssa.Const); !isc && types.Identical(c.Type(), x.Type()) {
						t.alias[x] = c
						return
					}
				}
				t.env[x] = res.b
				if nres == 1 && e.mode == "parse" && t.adv && len(cc.Args) == 1 && isNamed(x.Type(), e.posT) && isNamed(deref(cc.Args[0].Type()), e.parserT) && res.b&bV != 0 {
					t.env[x] = bV // positions behind a token are not zero
				}
				if res.dyn != nil {
					t.dyn[x] = res.dyn
				}
				if res.tied {
					t.tied[x] = true
				}
				if res.snap {
					r.snapshot(t, x)
				}
				if res.sh != nil && res.b&bV != 0 {
					t.fresh[x] = res.sh.n
					if res.pub {
						t.pub[x] = true
					}
					for j, b := range res.sh.f {
						t.fld[fk{x, j}] = fv{v: b}
					}
				}
				if res.b&bV != 0 && o.adv && e.isNodeType(x.Type()) && (ei < 0 || o.res[ei].b&bMask == bN) {
					t.owed[x] = true
				}
			})
			if (v == nil || nres > 1 && len(r.extracts(v)[i]) == 0 || nres == 1 && noRefs(v)) && i != ei &&
				res.b&bV != 0 && o.adv && e.mode == "parse" && e.isNodeType(sig.Results().At(i).Type()) && (ei < 0 || o.res[ei].b&bN != 0) {
				r.alarm("dropped", in.Pos(), "the result of "+fnName(callee)+" is discarded")
			}
		}
		out = append(out, t)
	}
	return out
}

func noRefs(v ssa.Value) bool { return v.Referrers() == nil || len(*v.Referrers()) == 0 }

func (e *Engine) isPosLike(t types.Type) bool { return isNamed(t, e.posT) }

// touchesParser: the function takes or reaches a Parser or Lexer (so the token state matters).
func (e *Engine) touchesParser(f *ssa.Function) bool {
	for _, p := range f.Params {
		if n, _ := structOf(p.Type()); n == e.parserT || n == e.lexerT {
			return true
		}
	}
	return len(f.FreeVars) > 0
}

// fieldsWritten: the fields the function, or anything it calls, assigns in objects it did not allocate.
func (e *Engine) fieldsWritten(f *ssa.Function) map[fieldID]bool {
	if e.writers == nil {
		e.writers = map[*ssa.Function]map[fieldID]bool{}
		callers := map[*ssa.Function][]*ssa.Function{}
		for _, g := range e.P.Funcs {
			m := map[fieldID]bool{}
			e.writers[g] = m
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					switch x := in.(type) {
					case *ssa.Store:
						if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
							if _, ok := fa.X.(*ssa.Alloc); !ok {
								if n, _ := structOf(fa.X.Type()); n != nil && (e.tracked[n] || n == e.parserT) {
									m[fieldID{n, fa.Field}] = true
								}
							}
						} else if _, ok := x.Addr.(*ssa.Alloc); !ok {
							if n, st := structOf(x.Addr.Type()); n != nil && e.tracked[n] {
								for i := 0; i < st.NumFields(); i++ {
									m[fieldID{n, i}] = true
								}
							}
						}
					case ssa.CallInstruction:
						if h := x.Common().StaticCallee(); h != nil {
							callers[h] = append(callers[h], g)
						}
					case *ssa.MakeClosure:
						h := x.Fn.(*ssa.Function)
						callers[h] = append(callers[h], g)
					}
				}
			}
		}
		for changed := true; changed; {
			changed = false
			for h, gs := range callers {
				for k := range e.writers[h] {
					for _, g := range gs {
						if !e.writers[g][k] {
							e.writers[g][k] = true
							changed = true
						}
					}
				}
			}
		}
	}
	if m := e.writers[f]; m != nil {
		return m
	}
	return e.writers[f.Origin()]
}

// ---------------------------------------------------------------- returns

func (r *run) ret(s *state, x *ssa.Return) {
	e := r.e
	sig := r.fn.Signature
	ei := errorIndex(sig)
	if e.final && e.onRet != nil {
		e.onRet(r, s, x)
	}
	o := &outcome{tk: s.tk, tok: s.tok, adv: s.adv, entry: s.entry, tag: s.tag, where: x.Pos()}
	for i, v := range x.Results {
		av := aval{b: s.get(v)}
		if av.b&bMask == 0 {
			av.b |= topOf(v.Type())
		}
		c := s.canon(v)
		for j, p := range r.fn.Params {
			if c == ssa.Value(p) {
				av.par = j + 1
			}
		}
		if s.tied[c] || s.tied[v] {
			av.tied = true
		}
		if sn := s.snaps[c]; sn != nil && sn.cur {
			av.snap = true
		}
		if _, isI := sig.Results().At(i).Type().Underlying().(*types.Interface); isI {
			if t := s.dynOf(v); t != nil && len(t.ts) > 0 {
				av.dyn = t
			}
		}
		ob := s.obj(v)
		if _, isP := sig.Results().At(i).Type().Underlying().(*types.Pointer); isP && !r.c.root {
			if av.par == 0 && s.fresh[ob] != nil && !s.pub[ob] && e.tracked[s.fresh[ob]] {
				av.sh = r.shapeOf(s, ob)
			}
		} else if s.fresh[ob] != nil && (ei < 0 || s.get(x.Results[ei])&bN != 0) {
			r.publish(s, v)
		}
		r.discharge(s, v)
		o.res = append(o.res, av)
	}
	for i, p := range r.fn.Params {
		o.pbits = append(o.pbits, s.get(p)&bMask)
		var sh *shape
		if r.c.args[i].sh != nil {
			sh = r.shapeOf(s, p)
		}
		o.psh = append(o.psh, sh)
		o.ppub = append(o.ppub, s.pub[p])
	}
	if o.adv && o.tk != tkSep {
		o.tk = ""
	}
	r.checkRet(s, x, o, ei)
	// unreachable-by-type-cap: split mixed error results
	if len(o.res) == 1 && o.res[0].b == bN|bV {
		if bt, ok := sig.Results().At(0).Type().Underlying().(*types.Basic); ok && bt.Kind() == types.Bool {
			o2 := *o
			o2.res = []aval{o.res[0]}
			o2.res[0].b = bV
			e.addOutcome(r.c, &o2)
			o.res[0].b = bN
		}
	}
	e.addOutcome(r.c, o)
}

func (r *run) checkRet(s *state, x *ssa.Return, o *outcome, ei int) {
	if r.e.mode != "parse" || !r.e.final {
		return
	}
	r.ob("return", x)
	success := ei < 0 || s.get(x.Results[ei])&bN != 0
	if !success {
		return
	}
	if r.c.root {
		r.ob("end", x)
		if s.tok != tokEOF {
			r.alarm("end", x.Pos(), "success is reported although input may remain unread")
		}
	}
	if e := r.e; e.asksOnly(r.fn) {
		r.ob("lookahead", x)
		if s.adv {
			r.alarm("lookahead", x.Pos(), "a question about upcoming input consumes some of it")
		}
	}
	if s.pend != nil {
		r.ob("swallow", x)
		if ei >= 0 || s.adv {
			r.alarm("swallow", s.pend.Pos(), "failure of "+callName(s.pend)+" does not fail "+fnName(r.fn))
		}
	}
	if ei >= 0 && s.adv && len(x.Results) >= 2 && !r.c.root {
		r.ob("absent", x)
		if s.get(x.Results[0])&bMask == bN && !isString(x.Results[0].Type()) && !isIntType(x.Results[0].Type()) {
			r.alarm("absent", x.Pos(), "returns nothing without an error although input was consumed")
		}
	}
	if ei < 0 && len(x.Results) == 1 && s.adv && s.get(x.Results[0])&bMask == bN && !isString(x.Results[0].Type()) && !isIntType(x.Results[0].Type()) {
		r.ob("absent", x)
		r.alarm("absent", x.Pos(), "returns nothing although input was consumed")
	}
	for v := range s.owed {
		if s.get(v)&bV != 0 {
			r.alarm("dropped", v.Pos(), "parsed "+r.desc(v)+" is not kept")
		}
	}
}

// asksOnly: by its name and signature the function only answers a question.
func (e *Engine) asksOnly(f *ssa.Function) bool {
	if !e.touchesParser(f) {
		return false
	}
	n := strings.ToLower(f.Name())
	for _, p := range []string{"peek", "can", "is", "has", "match", "keywordis", "current"} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

func isIntType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func callName(in ssa.Instruction) string {
	if c, ok := in.(ssa.CallInstruction); ok {
		if f := c.Common().StaticCallee(); f != nil {
			return fnName(f)
		}
		if c.Common().IsInvoke() {
			return c.Common().Method.Name()
		}
	}
	return "a call"
}

// ---------------------------------------------------------------- index checks

func (r *run) indexCheck(s *state, in ssa.Instruction, x, idx ssa.Value) {
	r.ob("index", in)
	if r.indexOK(s, in, x, idx) {
		return
	}
	r.alarm("index", in.Pos(), fmt.Sprintf("index into %s not proven to be in range", r.desc(x)))
}

func (r *run) sliceCheck(s *state, x *ssa.Slice) {
	if x.Low == nil && x.High == nil {
		return
	}
	if al, ok := x.X.(*ssa.Alloc); ok { // slice of a local array with constant bounds
		_ = al
		return
	}
	r.ob("index", x)
	if r.sliceOK(s, x) {
		return
	}
	r.alarm("index", x.Pos(), fmt.Sprintf("slice bounds of %s not proven to be in range", r.desc(x.X)))
}

var _ = token.NoPos

// ---------------------------------------------------------------- which token is current

// matchFn recognises the two basic questions about the current token.
func (e *Engine) matchFn(f *ssa.Function) string {
	switch fnName(f) {
	case "(*Parser).matchKeyword":
		return "kw:"
	case "(*Parser).matchTokenKind":
		return "k:"
	}
	return ""
}

func (s *state) setTk(t string) {
	if s.tk == t {
		return
	}
	s.tk = t
	for v, sn := range s.snaps {
		if sn.cur {
			n := *sn
			n.tk = t
			s.snaps[v] = &n
		}
	}
}

const (
	tkSep     = "k:;"  // the statement separator
	tkSeen    = "seen" // looked at, nothing definite known
	tkIdent   = "k:<ident>"
	tkKeyword = "k:<keyword>"
)

func isKw(t string) bool { return strings.HasPrefix(t, "kw:") }

// compatTk: can fact hold when have is known?
func compatTk(have, fact string) bool {
	if have == "" || have == fact || have == tkSeen || fact == tkSeen {
		return true
	}
	if isKw(have) {
		return fact == tkIdent || fact == tkKeyword
	}
	if isKw(fact) {
		return have == tkIdent || have == tkKeyword
	}
	return have == tkIdent && fact == tkKeyword || have == tkKeyword && fact == tkIdent
}

func impliesTk(have, fact string) bool {
	return have != "" && (have == fact || isKw(have) && fact == tkKeyword)
}

func moreSpecific(have, fact string) string {
	if isKw(have) || fact == tkSeen && have != "" {
		return have
	}
	return fact
}

// constText: the constant behind a string or token-kind argument, also for a one-element list.
func (r *run) constText(s *state, v ssa.Value) string {
	t := v.Type()
	if sl, ok := t.Underlying().(*types.Slice); ok {
		if !isString(sl.Elem()) {
			return ""
		}
		x, ok := v.(*ssa.Slice)
		if !ok {
			if p, ok := v.(*ssa.Parameter); ok {
				for i, q := range r.fn.Params {
					if q == p {
						return r.c.args[i].cst
					}
				}
			}
			return ""
		}
		al, ok := x.X.(*ssa.Alloc)
		if !ok || x.Low != nil || x.High != nil {
			return ""
		}
		at, ok := deref(al.Type()).Underlying().(*types.Array)
		if !ok || at.Len() < 1 || at.Len() > 4 {
			return ""
		}
		els := make([]string, at.Len())
		for _, ref := range *al.Referrers() {
			if ia, ok := ref.(*ssa.IndexAddr); ok {
				k, ok := ia.Index.(*ssa.Const)
				if !ok {
					return ""
				}
				for _, ref2 := range *ia.Referrers() {
					if st, ok := ref2.(*ssa.Store); ok && st.Addr == ssa.Value(ia) {
						els[k.Int64()] = r.constText(s, st.Val)
					}
				}
			}
		}
		for _, x := range els {
			if x == "" {
				return ""
			}
		}
		return strings.Join(els, "\x00")
	}
	if !isString(t) {
		return ""
	}
	switch x := s.canon(v).(type) {
	case *ssa.Const:
		if x.Value != nil && len(x.Value.ExactString()) < 40 {
			return constant.StringVal(x.Value)
		}
	case *ssa.Convert:
		return r.constText(s, x.X)
	case *ssa.ChangeType:
		return r.constText(s, x.X)
	case *ssa.Parameter:
		for i, q := range r.fn.Params {
			if q == x && i < len(r.c.args) {
				return r.c.args[i].cst
			}
		}
	case *ssa.UnOp: // element of a one-element list parameter
		if ia, ok := x.X.(*ssa.IndexAddr); ok {
			if p, ok := ia.X.(*ssa.Parameter); ok {
				els := strings.Split(r.constText(s, p), "\x00")
				if len(els) == 1 {
					return els[0]
				}
				if k, ok := s.canon(ia.Index).(*ssa.Const); ok && k.Value != nil && int(k.Int64()) < len(els) {
					return els[k.Int64()]
				}
			}
		}
	}
	return ""
}
