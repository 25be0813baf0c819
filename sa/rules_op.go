package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P20: the operator tables. For every token the grammar knows, the code that assigns a
// binding strength and the code that reads an operator are evaluated with that token as
// the current one, and the two are compared.

type opShape struct {
	strength *ssa.Function         // token -> strength
	infix    *ssa.Function         // reads one operator and its right side
	loop     *ssa.Function         // keeps reading operators
	limit    *ssa.Parameter        // of loop
	subs     map[*ssa.Function]int // functions whose parameter is the limit
	infixArg int                   // which argument of infix is the strength
	recorded map[string]token.Pos  // what the last reading wrote down as the operator
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// findOps recognises the operator-precedence loop by its shape.
func findOps(P *Prog, e *Engine) *opShape {
	recv := func(f *ssa.Function) bool {
		if f.Signature.Recv() == nil {
			return false
		}
		n, _ := structOf(f.Signature.Recv().Type())
		return n == e.parserT
	}
	strengths := func(v ssa.Value) *ssa.Function {
		var g *ssa.Function
		seen := map[ssa.Value]bool{}
		var walk func(v ssa.Value)
		walk = func(v ssa.Value) {
			if seen[v] {
				return
			}
			seen[v] = true
			switch c := v.(type) {
			case *ssa.Phi:
				for _, e := range c.Edges {
					walk(e)
				}
			case *ssa.Extract:
				walk(c.Tuple)
			case *ssa.Call:
				if f := c.Common().StaticCallee(); f != nil && recv(f) && len(f.Params) == 1 && f.Signature.Results().Len() >= 1 && isInt(f.Signature.Results().At(0).Type()) {
					g = f
				}
			}
		}
		walk(v)
		return g
	}
	var out *opShape
	for _, f := range P.Funcs {
		if !recv(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				h := c.Common().StaticCallee()
				if h == nil || !recv(h) || !inLoop(b) {
					continue
				}
				for k, a := range c.Common().Args {
					if !isInt(a.Type()) {
						continue
					}
					if n, ok := types.Unalias(a.Type()).(*types.Named); ok && n == e.posT {
						continue
					}
					g := strengths(a)
					if g == nil {
						continue
					}
					for _, p := range f.Params {
						if types.Identical(p.Type(), a.Type()) {
							out = &opShape{strength: g, infix: h, loop: f, limit: p, infixArg: k}
						}
					}
				}
			}
		}
	}
	if out == nil {
		return nil
	}
	idx := func(f *ssa.Function, p *ssa.Parameter) int {
		for i, q := range f.Params {
			if q == p {
				return i
			}
		}
		return -1
	}
	out.subs = map[*ssa.Function]int{out.loop: idx(out.loop, out.limit)}
	for ch := true; ch; {
		ch = false
		for _, f := range P.Funcs {
			if _, ok := out.subs[f]; ok || f == out.infix {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					c, ok := in.(*ssa.Call)
					if !ok {
						continue
					}
					k, ok := out.subs[c.Common().StaticCallee()]
					if !ok || k >= len(c.Common().Args) {
						continue
					}
					if p, ok := c.Common().Args[k].(*ssa.Parameter); ok && f.Parent() == nil && len(f.Blocks) < 12 {
						// a function that reads an operand and goes on with the operators
						if firstCallIs(f, out) {
							if _, has := out.subs[f]; !has {
								out.subs[f] = idx(f, p)
								ch = true
							}
						}
					}
				}
			}
		}
	}
	return out
}

// firstCallIs: f hands its limit on; it does not read an operator first.
func firstCallIs(f *ssa.Function, o *opShape) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok && c.Common().StaticCallee() == o.infix {
				return false
			}
		}
	}
	return f.Signature.Results().Len() == 2
}

func inLoop(b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var to func(c *ssa.BasicBlock) bool
	to = func(c *ssa.BasicBlock) bool {
		for _, s := range c.Succs {
			if s == b {
				return true
			}
			if !seen[s] {
				seen[s] = true
				if to(s) {
					return true
				}
			}
		}
		return false
	}
	return to(b)
}

// grammarTokens lists every token the parser mentions: the symbol kinds and the keywords.
func grammarTokens(P *Prog, e *Engine) (out []gtoken) {
	kinds := map[string]bool{}
	for _, f := range P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if c, ok := (*op).(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String && types.Identical(c.Type(), e.tokenKind) {
						kinds[constant.StringVal(c.Value)] = true
					}
				}
			}
		}
	}
	for _, n := range P.TPkg.Scope().Names() {
		if c, ok := P.TPkg.Scope().Lookup(n).(*types.Const); ok && types.Identical(c.Type(), e.tokenKind) {
			kinds[constant.StringVal(c.Val())] = true
		}
	}
	for k := range kinds {
		if strings.HasPrefix(k, "<") && len(k) > 2 && strings.HasSuffix(k, ">") {
			continue // a class of tokens, not a symbol
		}
		if k == "" || isWord(k) {
			continue
		}
		out = append(out, gtoken{kind: k, text: k})
	}
	words := map[string]bool{}
	for _, n := range P.TPkg.Scope().Names() {
		if c, ok := P.TPkg.Scope().Lookup(n).(*types.Const); ok && strings.HasPrefix(n, "Keyword") && c.Val().Kind() == constant.String {
			words[constant.StringVal(c.Val())] = true
		}
	}
	for w := range words {
		out = append(out, gtoken{kind: "<keyword>", text: w, fold: true})
	}
	sort.Slice(out, func(i, j int) bool {
		return out[i].kind+out[i].text < out[j].kind+out[j].text
	})
	return out
}

func isWord(s string) bool {
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' || c == ' ') {
			return false
		}
	}
	return s != ""
}

func (t gtoken) name() string { return t.text }

// strengthsOf evaluates the strength function for a token.
func (o *opShape) strengthsOf(P *Prog, e *Engine, T gtoken, T2 *gtoken) (vals []int64, open bool, err error) {
	x := newTokEval(P, e, T)
	x.T2 = T2
	x.enter = func(f *ssa.Function, args []gval, s *gstate) bool { return false }
	outs, err := x.run(o.strength, []gval{{k: gNonNil}})
	if err != nil {
		return nil, false, err
	}
	seen := map[int64]bool{}
	for _, r := range outs {
		v := r.vals[0]
		if v.k == gConst && v.c.Kind() == constant.Int {
			n, _ := constant.Int64Val(v.c)
			seen[n] = true
		} else {
			open = true
		}
	}
	for n := range seen {
		vals = append(vals, n)
	}
	sort.Slice(vals, func(i, j int) bool { return vals[i] < vals[j] })
	return vals, open, nil
}

// reads evaluates the operator reader for a token and a strength: whether some path
// succeeds, and the limits handed to the operands.
func (o *opShape) reads(P *Prog, e *Engine, T gtoken, T2 *gtoken, strength int64) (ok bool, limits []string, err error) {
	x := newTokEval(P, e, T)
	x.T2 = T2
	o.recorded = map[string]token.Pos{}
	x.hit = func(in ssa.Instruction, env map[ssa.Value]gval, s *gstate) {
		st, ok := in.(*ssa.Store)
		if !ok || !types.Identical(st.Val.Type(), e.tokenKind) {
			return
		}
		if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
			if n, _ := structOf(fa.X.Type()); n != nil && P.NodeSet[n] {
				if v := x.val(env, st.Val); v.k == gConst && v.c.Kind() == constant.String {
					o.recorded[constant.StringVal(v.c)] = in.Pos()
				}
			}
		}
	}
	x.stop = func(x *tokEval, f *ssa.Function, args []gval, s *gstate) (gval, bool) {
		k, is := o.subs[f]
		if !is {
			return gval{}, false
		}
		w := "?"
		if a := args[k]; a.k == gConst {
			w = a.c.ExactString()
		}
		s.evs = append(s.evs, w)
		return gval{}, true
	}
	direct := map[*ssa.Function]bool{}
	for _, f := range P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, isC := in.(*ssa.Call); isC && len(f.Blocks) < 40 {
					if _, is := o.subs[c.Common().StaticCallee()]; is {
						direct[f] = true
					}
				}
			}
		}
	}
	x.enter = func(f *ssa.Function, args []gval, s *gstate) bool {
		for i, a := range args {
			if i > 0 && a.k == gConst && i < len(f.Params) && isInt(f.Params[i].Type()) {
				return true
			}
		}
		return direct[f] && len(s.evs) == 0
	}
	args := make([]gval, len(o.infix.Params))
	args[0] = gval{k: gNonNil}
	args[o.infixArg] = gval{k: gConst, c: constant.MakeInt64(strength)}
	outs, err := x.run(o.infix, args)
	if err != nil {
		return false, nil, err
	}
	seen := map[string]bool{}
	for _, r := range outs {
		ev := r.vals[len(r.vals)-1]
		if ev.k != gNonNil {
			ok = true
		}
		for _, w := range r.st.evs {
			seen[w] = true
		}
	}
	for w := range seen {
		limits = append(limits, w)
	}
	sort.Strings(limits)
	return ok, limits, nil
}

func checkP20(P *Prog, r *Report) {
	e, err := newEngine(P, "parse")
	if err != nil {
		r.need(false, err.Error())
		return
	}
	r.rule("agree", "a token that has a binding strength is read as an operator, and an operator that is read has one")
	r.rule("order", "the strengths are ordered as the language orders its operators")
	r.rule("left", "the right operand of an operator is read at the operator's own strength, so equal strengths group to the left")
	r.rule("recorded", "the operator written down in the tree is the one that was read")
	r.rule("stop", "the operator loop goes on exactly while the next operator binds more strongly than the limit")
	o := findOps(P, e)
	if !r.need(o != nil, "the operator loop") {
		return
	}
	r.extra["strength_function"] = fnName(o.strength)
	r.extra["operator_reader"] = fnName(o.infix)
	r.extra["operator_loop"] = fnName(o.loop)
	toks := grammarTokens(P, e)
	zero := int64(0)
	str := map[string][]int64{}
	table := map[string]string{}
	for _, T := range toks {
		vals, open, err := o.strengthsOf(P, e, T, nil)
		if err != nil {
			r.notes = append(r.notes, fmt.Sprintf("strength of %s not decided: %v", T.name(), err))
			continue
		}
		if open {
			r.notes = append(r.notes, fmt.Sprintf("some strength of %s is computed in a way that is not followed", T.name()))
		}
		r.ob("agree", 1)
		var pos []int64
		for _, v := range vals {
			if v > zero {
				pos = append(pos, v)
			}
		}
		probe := pos
		if len(probe) == 0 {
			probe = []int64{1 << 20}
		}
		can := false
		for _, s := range probe {
			ok, limits, err := o.reads(P, e, T, nil, s)
			if err != nil {
				r.notes = append(r.notes, fmt.Sprintf("reading of %s not decided: %v", T.name(), err))
				can = len(pos) > 0
				continue
			}
			if ok {
				can = true
			}
			if len(pos) > 0 && T.text != "NOT" && T.text != "GLOBAL" {
				for w, at := range o.recorded {
					r.ob("recorded", 1)
					if w != T.text {
						r.bad("recorded", T.name(), at, "operator %s is written down in the tree as %s", T.name(), w)
					}
				}
			}
			if len(pos) == 0 || mixfix(T) || T.text == "NOT" || T.text == "GLOBAL" {
				continue
			}
			for _, l := range limits {
				r.ob("left", 1)
				want := fmt.Sprint(s)
				if T.text == "->" {
					want = fmt.Sprint(s - 1) // a lambda's body extends as far as possible
				}
				if l != "?" && l != want {
					r.bad("left", T.name(), o.infix.Pos(), "operator %s has strength %d but its right operand is read with limit %s", T.name(), s, l)
				}
			}
		}
		if len(pos) > 0 && !can {
			r.bad("agree", T.name(), o.strength.Pos(), "%s is given a binding strength but is not read as an operator", T.name())
		}
		if len(pos) == 0 && can && !open {
			r.bad("agree", T.name(), o.infix.Pos(), "%s is read as an operator but has no binding strength", T.name())
		}
		if len(pos) > 0 {
			str[T.name()] = pos
			table[T.name()] = fmt.Sprint(pos)
		}
	}
	r.extra["strengths"] = table
	r.extra["tokens_evaluated"] = len(toks)
	for _, pre := range []string{"NOT", "GLOBAL"} {
		for _, T2 := range toks {
			own := str[T2.name()]
			if len(own) == 0 || T2.fold == false || T2.text == "NOT" {
				continue
			}
			T, T2 := gtoken{kind: "<keyword>", text: pre, fold: true}, T2
			name := pre + " " + T2.text
			var reads bool
			for _, s := range own {
				ok, limits, err := o.reads(P, e, T, &T2, s)
				if err != nil {
					r.notes = append(r.notes, fmt.Sprintf("reading of %s not decided: %v", name, err))
					continue
				}
				if !ok {
					continue
				}
				reads = true
				for _, l := range limits {
					r.ob("left", 1)
					if l != "?" && l != fmt.Sprint(s) {
						r.bad("left", name, o.infix.Pos(), "operator %s has strength %d but its right operand is read with limit %s", name, s, l)
					}
				}
			}
			if !reads {
				continue
			}
			vals, open, err := o.strengthsOf(P, e, T, &T2)
			if err != nil || open {
				continue
			}
			r.ob("agree", 1)
			has := len(vals) > 0
			for _, v := range vals {
				// NOT in front of a word it cannot negate, or GLOBAL in front of a join, has a strength of its own
				has = has && (v == own[0] || pre == "GLOBAL" && v <= zero)
			}
			if !has {
				r.bad("agree", name, o.strength.Pos(), "%s is read as an operator but does not bind like %s", name, T2.text)
			}
		}
	}
	o.checkOrder(P, e, r, str)
	o.checkStop(P, e, r)
}

// mixfix operators enclose or separate their operands with further symbols.
func mixfix(T gtoken) bool {
	switch T.text {
	case "?", "[", "(", ".":
		return true
	}
	return false
}

func (o *opShape) checkOrder(P *Prog, e *Engine, r *Report, str map[string][]int64) {
	type lvl struct {
		name string
		ops  []string
		lo   int64
		hi   int64
	}
	// prefix NOT: the limit its operand is read with
	var not []int64
	for f, k := range o.subs {
		if f == o.loop {
			continue
		}
		x := newTokEval(P, e, gtoken{kind: "<keyword>", text: "NOT", fold: true})
		x.stop = func(x *tokEval, g *ssa.Function, args []gval, s *gstate) (gval, bool) {
			j, is := o.subs[g]
			if !is {
				return gval{}, false
			}
			w := "?"
			if a := args[j]; a.k == gConst {
				w = a.c.ExactString()
			}
			s.evs = append(s.evs, w)
			return gval{}, true
		}
		x.enter = func(f *ssa.Function, args []gval, s *gstate) bool { return false }
		args := make([]gval, len(f.Params))
		args[0] = gval{k: gNonNil}
		args[k] = gval{k: gConst, c: constant.MakeInt64(7777)}
		outs, err := x.run(f, args)
		if err != nil {
			r.notes = append(r.notes, "prefix NOT not decided: "+err.Error())
			continue
		}
		for _, t := range outs {
			if len(t.st.evs) > 1 && t.st.evs[0] != "?" {
				var n int64
				if _, err := fmt.Sscan(t.st.evs[0], &n); err == nil && n != 7777 {
					not = append(not, n)
				}
			}
		}
	}
	levels := []*lvl{
		{name: "lambda", ops: []string{"->"}},
		{name: "ternary", ops: []string{"?"}},
		{name: "OR", ops: []string{"OR"}},
		{name: "AND", ops: []string{"AND"}},
		{name: "prefix NOT"},
		{name: "comparison", ops: []string{"=", "==", "!=", "<>", "<", "<=", ">", ">="}},
		{name: "BETWEEN, LIKE and IN", ops: []string{"BETWEEN", "LIKE", "ILIKE", "REGEXP", "IN"}},
		{name: "concatenation", ops: []string{"||"}},
		{name: "additive", ops: []string{"+", "-"}},
		{name: "multiplicative", ops: []string{"*", "/", "%"}},
		{name: "access", ops: []string{".", "[", "::"}},
	}
	var prev *lvl
	for _, l := range levels {
		var vs []int64
		for _, op := range l.ops {
			if len(str[op]) == 0 {
				r.ob("order", 1)
				r.bad("order", op, o.strength.Pos(), "operator %s has no binding strength", op)
			}
			vs = append(vs, str[op]...)
		}
		if l.name == "prefix NOT" {
			vs = not
			if len(vs) == 0 {
				r.notes = append(r.notes, "the limit of prefix NOT is not a constant that is followed")
			}
		}
		if len(vs) == 0 {
			continue
		}
		sort.Slice(vs, func(i, j int) bool { return vs[i] < vs[j] })
		l.lo, l.hi = vs[0], vs[len(vs)-1]
		r.ob("order", 1)
		if prev != nil {
			bad := prev.hi >= l.lo
			if l.name == "prefix NOT" {
				bad = prev.hi > l.lo // a limit: operators up to it are left alone
			}
			if bad {
				r.bad("order", l.name, o.strength.Pos(), "%s (strength %d) does not bind more strongly than %s (strength %d)", l.name, l.lo, prev.name, prev.hi)
			}
		}
		prev = l
	}
	// IS and the negated operators bind like the comparisons or more strongly
	for _, op := range []string{"IS", "NOT", "GLOBAL"} {
		for _, v := range str[op] {
			r.ob("order", 1)
			if len(str["AND"]) > 0 && v <= str["AND"][len(str["AND"])-1] || len(str["+"]) > 0 && v >= str["+"][0] {
				r.bad("order", op, o.strength.Pos(), "infix %s (strength %d) is not between AND and the additive operators", op, v)
			}
		}
	}
}

// checkStop evaluates the loop with the next strength below, at and above the limit.
func (o *opShape) checkStop(P *Prog, e *Engine, r *Report) {
	for _, d := range []int64{-1, 0, 1} {
		x := newTokEval(P, e, gtoken{kind: "<keyword>", text: "AND", fold: true})
		called := false
		x.stop = func(x *tokEval, f *ssa.Function, args []gval, s *gstate) (gval, bool) {
			if f == o.strength {
				s.evs = append(s.evs, "s")
				return gval{k: gConst, c: constant.MakeInt64(500 + d)}, true
			}
			if f == o.infix {
				called = true
				panic(gGiveup{"called"})
			}
			return gval{}, false
		}
		x.keep = o.strength
		x.enter = func(f *ssa.Function, args []gval, s *gstate) bool { return false }
		args := make([]gval, len(o.loop.Params))
		args[0] = gval{k: gNonNil}
		for i, p := range o.loop.Params {
			if p == o.limit {
				args[i] = gval{k: gConst, c: constant.MakeInt64(500)}
			}
		}
		_, err := x.run(o.loop, args)
		r.ob("stop", 1)
		if err != nil && !called {
			r.notes = append(r.notes, "the loop's stop is not decided: "+err.Error())
			continue
		}
		if want := d > 0; called != want {
			rel := map[int64]string{-1: "less strongly than", 0: "exactly as strongly as", 1: "more strongly than"}[d]
			verb := "is not taken"
			if called {
				verb = "is taken"
			}
			r.bad("stop", fnName(o.loop), o.loop.Pos(), "an operator binding %s the limit %s", rel, verb)
		}
	}
}

var _ = token.NoPos

func init() { checks["P20"] = checkP20 }
