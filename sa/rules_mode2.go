package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- the formatter itself

// sink finds the type that collects the output: the one with a strings.Builder, and the field.
func (x *modeRules) sink() (*types.Named, int) {
	for _, name := range x.P.TPkg.Scope().Names() {
		tn, ok := x.P.TPkg.Scope().Lookup(name).(*types.TypeName)
		if !ok {
			continue
		}
		n, st := structOf(tn.Type())
		if n == nil {
			continue
		}
		has := -1
		for i := 0; i < st.NumFields(); i++ {
			switch st.Field(i).Type().String() {
			case "strings.Builder", "*strings.Builder", "bytes.Buffer", "*bytes.Buffer":
				has = i
			}
		}
		if has >= 0 && x.P.fn("(*"+name+").WriteString") != nil {
			return n, has
		}
	}
	return nil, -1
}

// what a call writes
const (
	wOwn  = 1 << iota // something of its own
	wArg              // its argument
	wWide             // something of its own other than one space
)

// wsum is what a function of the formatter does to the output in one mode.
type wsum struct {
	own    bool // may write something of its own
	arg    bool // writes its text parameter, always and once
	mayArg bool
	multi  bool // may write its own after the text, or the text twice
}

type sinkRules struct {
	x     *modeRules
	n     *types.Named
	field int
	mode  int64 // current
	mname string
	sum   map[*ssa.Function]*wsum
	used  map[*ssa.Function]bool
	rep   map[string]bool
}

func (x *modeRules) formatter() {
	n, field := x.sink()
	if !x.r.need(n != nil, "the type that collects the output") {
		return
	}
	var ms []string
	for k := range x.c.modes {
		ms = append(ms, k)
	}
	sort.Strings(ms)
	rep := map[string]bool{}
	for _, m := range ms {
		k := &sinkRules{x: x, n: n, field: field, mode: x.c.modes[m], mname: m, sum: map[*ssa.Function]*wsum{}, rep: rep}
		k.used = k.entered()
		for _, f := range x.P.Funcs {
			if f.Blocks == nil || !k.own(f) {
				continue
			}
			s := k.of(f)
			if k.text(f) < 0 {
				continue
			}
			x.r.ob("verbatim", 1)
			if !s.mayArg {
				continue // does not write
			}
			if s.multi {
				k.bad("verbatim", f, f.Pos(), "may write something of the formatter's own inside or after the text it is given")
			}
			if !s.arg {
				k.bad("verbatim", f, f.Pos(), "may write the text it is given in part, or not at all")
			}
		}
	}
}

// own: a method of the type that collects the output.
func (k *sinkRules) own(f *ssa.Function) bool {
	if f.Signature.Recv() == nil {
		return false
	}
	n, _ := structOf(f.Signature.Recv().Type())
	return n == k.n
}

// entered: the methods that are called in the current mode, from outside or from one that is.
func (k *sinkRules) entered() map[*ssa.Function]bool {
	m := map[*ssa.Function]bool{}
	var enter func(f *ssa.Function)
	enter = func(f *ssa.Function) {
		if m[f] || f.Blocks == nil {
			return
		}
		m[f] = true
		for _, b := range f.Blocks {
			if !k.reachable(f, b) {
				continue
			}
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil && k.own(g) {
						enter(g)
					}
				}
			}
		}
	}
	for _, f := range k.x.P.Funcs {
		if k.own(f) && f.Object() != nil && f.Object().Exported() {
			enter(f)
		}
		if !k.own(f) {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok {
						if g := c.Common().StaticCallee(); g != nil && k.own(g) {
							enter(g)
						}
					}
				}
			}
		}
	}
	return m
}

func (k *sinkRules) bad(rule string, f *ssa.Function, pos token.Pos, format string, a ...any) {
	m := fmt.Sprintf(format, a...)
	if key := rule + fnName(f) + m; !k.rep[key] {
		k.rep[key] = true
		k.x.r.fnBad(rule, f, pos, "%s", m)
	}
}

// text is the parameter that carries text to write, -1 if there is none.
func (k *sinkRules) text(f *ssa.Function) int {
	at := -1
	for i, p := range f.Params {
		if i == 0 {
			continue
		}
		if isStr(p.Type()) || isByteType(p.Type()) || isRune(p.Type()) || isBytes(p.Type()) {
			if at >= 0 {
				return -1
			}
			at = i
		}
	}
	// a setting is not text to write
	if rs := f.Signature.Results(); rs.Len() > 0 && !isErrT(rs.At(rs.Len()-1).Type()) {
		return -1
	}
	return at
}

func isRune(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Int32
}

func isBytes(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isByteType(s.Elem())
}

// sinkCall tells whether a call writes to the builder directly, and what.
func (k *sinkRules) sinkCall(c *ssa.CallCommon) (ssa.Value, bool) {
	f := c.StaticCallee()
	if f == nil || f.Signature.Recv() == nil || !strings.HasPrefix(f.Name(), "Write") || len(c.Args) != 2 {
		return nil, false
	}
	v := c.Args[0]
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		v = u.X
	}
	fa, ok := v.(*ssa.FieldAddr)
	if !ok || fa.Field != k.field {
		return nil, false
	}
	n, _ := structOf(fa.X.Type())
	return c.Args[1], n == k.n
}

// feasible gives the successors of a block in the current mode.
func (k *sinkRules) feasible(b *ssa.BasicBlock) []*ssa.BasicBlock {
	i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return b.Succs
	}
	if v, ok := k.truth(i.Cond, 0); ok {
		if v {
			return b.Succs[:1]
		}
		return b.Succs[1:2]
	}
	return b.Succs
}

func (k *sinkRules) truth(c ssa.Value, d int) (bool, bool) {
	switch y := c.(type) {
	case *ssa.UnOp:
		if y.Op == token.NOT {
			v, ok := k.truth(y.X, d)
			return !v, ok
		}
	case *ssa.BinOp:
		if y.Op != token.EQL && y.Op != token.NEQ {
			return false, false
		}
		a, b := y.X, y.Y
		if _, ok := a.(*ssa.Const); ok {
			a, b = b, a
		}
		cv, ok := b.(*ssa.Const)
		if !ok || cv.Value == nil || !k.x.P.isMode(a.Type()) {
			return false, false
		}
		n, _ := constant.Int64Val(cv.Value)
		return (n == k.mode) == (y.Op == token.EQL), true
	case *ssa.Call:
		f := y.Common().StaticCallee()
		if f == nil || f.Blocks == nil || len(f.Blocks) != 1 || d > 3 || !k.x.P.inPkg(f) {
			return false, false
		}
		if r, ok := f.Blocks[0].Instrs[len(f.Blocks[0].Instrs)-1].(*ssa.Return); ok && len(r.Results) == 1 {
			return k.truth(r.Results[0], d+1)
		}
	}
	return false, false
}

// of summarises a function of the formatter.
func (k *sinkRules) of(f *ssa.Function) *wsum {
	if s := k.sum[f]; s != nil {
		return s
	}
	s := &wsum{}
	k.sum[f] = s
	var par *ssa.Parameter
	if t := k.text(f); t >= 0 {
		par = f.Params[t]
	}
	eff := map[ssa.Instruction]int{}
	each := map[ssa.Instruction]*ssa.BasicBlock{} // writes one element, in a loop with this head
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			var v ssa.Value
			e := 0
			if w, ok := k.sinkCall(c.Common()); ok {
				v, e = w, wArg
			} else if g := c.Common().StaticCallee(); g != nil && g.Blocks != nil && g.Signature.Recv() != nil {
				if r, _ := structOf(g.Signature.Recv().Type()); r != k.n {
					continue
				}
				gs := k.of(g)
				if t := k.text(g); t >= 0 && gs.mayArg {
					v, e = c.Common().Args[t], wArg
				}
				if gs.own {
					e |= wOwn
				}
			}
			if v != nil {
				switch h := k.derived(v, par, b); {
				case h == 1:
				case h == 2 && k.loopHead(b) != nil:
					each[in] = k.loopHead(b)
				case h == 3:
					k.bad("verbatim", f, in.Pos(), "writes a changed copy or a piece of the text it is given")
				default:
					e = e&^wArg | wOwn
					k.layout(f, in, v)
				}
			}
			eff[in] = e
		}
	}
	// ways through the function: 0 nothing of the text written, 1 all of it
	type st struct {
		b    *ssa.BasicBlock
		done int
	}
	seen := map[st]bool{}
	s.arg = true
	var walk func(b *ssa.BasicBlock, done int, empty bool)
	walk = func(b *ssa.BasicBlock, done int, empty bool) {
		if seen[st{b, done}] {
			return
		}
		seen[st{b, done}] = true
		for _, in := range b.Instrs {
			e := eff[in]
			if e&wOwn != 0 {
				s.own = true
				if done > 0 {
					s.multi = true
				}
			}
			if e&wArg != 0 {
				s.mayArg = true
				if done > 0 && each[in] == nil {
					s.multi = true
				}
				done = 1
			}
			if _, ok := in.(*ssa.Return); ok && done == 0 && !empty {
				s.arg = false
			}
		}
		for _, n := range k.feasible(b) {
			done := done
			for _, h := range each {
				if h == b && !(h.Dominates(n) && pathClear(n, h, nil)) {
					done = 1 // past the last element
				}
			}
			walk(n, done, empty || par != nil && emptyEdge(b, n, par))
		}
	}
	walk(f.Blocks[0], 0, false)
	// a loop over the elements writes each one
	for in, h := range each {
		// from the loop's head back to itself without the write
		seen := map[*ssa.BasicBlock]bool{}
		var skip func(b *ssa.BasicBlock) bool
		skip = func(b *ssa.BasicBlock) bool {
			for _, i := range b.Instrs {
				if eff[i]&wArg != 0 {
					return false
				}
			}
			if seen[b] {
				return false
			}
			seen[b] = true
			for _, n := range k.feasible(b) {
				if n == h || skip(n) {
					return true
				}
			}
			return false
		}
		if skip(h) {
			k.bad("verbatim", f, in.Pos(), "may leave out characters of the text it is given")
		}
	}
	if par == nil {
		s.arg = false
	}
	return s
}

// loopHead is the head of the innermost loop round a block.
func (k *sinkRules) loopHead(b *ssa.BasicBlock) *ssa.BasicBlock {
	for h := b; h != nil; h = h.Idom() {
		for _, p := range h.Preds {
			if h.Dominates(p) && (p == b || b.Dominates(p) || pathClear(b, p, h)) {
				return h
			}
		}
	}
	return nil
}

// pathClear: from a to b without passing h.
func pathClear(a, b, h *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var go1 func(x *ssa.BasicBlock) bool
	go1 = func(x *ssa.BasicBlock) bool {
		if x == b {
			return true
		}
		if seen[x] || x == h {
			return false
		}
		seen[x] = true
		for _, n := range x.Succs {
			if go1(n) {
				return true
			}
		}
		return false
	}
	return go1(a)
}

// emptyEdge: control passes only when the text is empty.
func emptyEdge(from, to *ssa.BasicBlock, par *ssa.Parameter) bool {
	i, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	c, ok := i.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	onTrue := from.Succs[0] == to
	op, a, b := c.Op, c.X, c.Y
	if _, ok := a.(*ssa.Const); ok {
		a, b = b, a
		switch op {
		case token.LSS:
			op = token.GTR
		case token.LEQ:
			op = token.GEQ
		case token.GTR:
			op = token.LSS
		case token.GEQ:
			op = token.LEQ
		}
	}
	k, ok := b.(*ssa.Const)
	if !ok || k.Value == nil {
		return false
	}
	if a == par && k.Value.Kind() == constant.String && constant.StringVal(k.Value) == "" {
		return (op == token.EQL) == onTrue && (op == token.EQL || op == token.NEQ)
	}
	if cl, ok := a.(*ssa.Call); ok {
		if bi, ok := cl.Common().Value.(*ssa.Builtin); ok && bi.Name() == "len" && cl.Common().Args[0] == par {
			n, _ := constant.Int64Val(k.Value)
			switch {
			case n == 0 && op == token.EQL, n == 0 && op == token.LEQ, n == 1 && op == token.LSS:
				return onTrue
			case n == 0 && op == token.NEQ, n == 0 && op == token.GTR, n == 1 && op == token.GEQ:
				return !onTrue
			}
		}
	}
	return false
}

// derived: 1 the text itself, 2 one element of it in order, 3 something else made from it, 0 not from it.
func (k *sinkRules) derived(v ssa.Value, par *ssa.Parameter, at *ssa.BasicBlock) int {
	if par == nil {
		return 0
	}
	switch y := v.(type) {
	case *ssa.Parameter:
		if y == par {
			return 1
		}
	case *ssa.Const:
		// the value the parameter was found equal to
		for d := at; d != nil; d = d.Idom() {
			p := d.Idom()
			if p == nil || len(d.Preds) != 1 {
				continue
			}
			i, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
			if !ok {
				continue
			}
			c, ok := i.Cond.(*ssa.BinOp)
			if !ok || !(c.Op == token.EQL && p.Succs[0] == d || c.Op == token.NEQ && p.Succs[1] == d) {
				continue
			}
			for _, o := range [][2]ssa.Value{{c.X, c.Y}, {c.Y, c.X}} {
				if q, ok := o[1].(*ssa.Const); ok && o[0] == par && q.Value != nil && y.Value != nil && constant.Compare(q.Value, token.EQL, y.Value) {
					return 1
				}
			}
		}
	case *ssa.Convert:
		if d := k.derived(y.X, par, at); d != 0 {
			if isStr(y.X.Type()) && isBytes(y.Type()) || isBytes(y.X.Type()) && isStr(y.Type()) {
				return d
			}
			if d == 2 && isRune(y.X.Type()) && isStr(y.Type()) {
				return 2
			}
			return 3
		}
	case *ssa.ChangeType:
		return k.derived(y.X, par, at)
	case *ssa.Lookup: // s[i]
		if k.derived(y.X, par, at) == 1 {
			return k.counted(y.Index)
		}
	case *ssa.Index:
		if k.derived(y.X, par, at) == 1 {
			return k.counted(y.Index)
		}
	case *ssa.UnOp:
		if ia, ok := y.X.(*ssa.IndexAddr); ok && k.derived(ia.X, par, at) == 1 {
			return k.counted(ia.Index)
		}
	case *ssa.Extract:
		if n, ok := y.Tuple.(*ssa.Next); ok {
			if rg, ok := n.Iter.(*ssa.Range); ok && k.derived(rg.X, par, at) == 1 && y.Index == 2 {
				return 3 // runes: bytes that are no valid text are replaced
			}
		}
	case *ssa.Slice:
		if k.derived(y.X, par, at) != 0 {
			return 3
		}
	case *ssa.Phi:
		r := -1
		for _, e := range y.Edges {
			d := k.derived(e, par, at)
			if r >= 0 && d != r {
				d = 3
			}
			r = d
		}
		return r
	case *ssa.Call:
		for _, a := range y.Common().Args {
			if k.derived(a, par, at) != 0 {
				return 3
			}
		}
	case *ssa.BinOp:
		if isStr(y.Type()) && (k.derived(y.X, par, at) != 0 || k.derived(y.Y, par, at) != 0) {
			return 3
		}
	}
	return 0
}

// counted: an index that goes up by one from zero.
func (k *sinkRules) counted(ix ssa.Value) int {
	p, ok := ix.(*ssa.Phi)
	step := func(v ssa.Value, p *ssa.Phi) bool {
		b, ok := v.(*ssa.BinOp)
		return ok && b.Op == token.ADD && b.X == p && isConstInt(b.Y, 1)
	}
	if !ok {
		b, ok2 := ix.(*ssa.BinOp)
		if !ok2 {
			return 3
		}
		p, ok = b.X.(*ssa.Phi)
		if !ok || !step(b, p) {
			return 3
		}
		for _, e := range p.Edges {
			if !isConstInt(e, -1) && e != b {
				return 3
			}
		}
		return 2
	}
	for _, e := range p.Edges {
		if !isConstInt(e, 0) && !step(e, p) {
			return 3
		}
	}
	return 2
}

// layout: what the formatter writes of its own.
func (k *sinkRules) layout(f *ssa.Function, in ssa.Instruction, v ssa.Value) {
	if !k.used[f] || !k.reachable(f, in.Block()) {
		return
	}
	k.x.r.ob("layout", 1)
	switch y := v.(type) {
	case *ssa.Const:
		t := ""
		if y.Value != nil && y.Value.Kind() == constant.String {
			t = constant.StringVal(y.Value)
		} else if y.Value != nil && y.Value.Kind() == constant.Int {
			n, _ := constant.Int64Val(y.Value)
			t = string(rune(n))
		}
		if strings.Trim(t, " \t\n") != "" {
			k.bad("layout", f, in.Pos(), "the formatter writes %q of its own", t)
		}
		return
	case *ssa.UnOp:
		if fa, ok := y.X.(*ssa.FieldAddr); ok {
			if n, st := structOf(fa.X.Type()); n == k.n && isStr(st.Field(fa.Field).Type()) {
				if k.mode == k.x.c.modes["FormatModeCompact"] {
					k.bad("layout", f, in.Pos(), "%s, set by the caller, is written in compact mode", st.Field(fa.Field).Name())
				}
				return // the indentation
			}
		}
	case *ssa.Call:
		if g := y.Common().StaticCallee(); g != nil && g.String() == "strings.Repeat" {
			k.layout(f, in, y.Common().Args[0])
			return
		}
	case *ssa.Parameter:
		return // judged where it is called
	}
	k.bad("layout", f, in.Pos(), "the formatter writes text of its own that is not a constant or the indentation")
}

func (k *sinkRules) reachable(f *ssa.Function, b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var go1 func(x *ssa.BasicBlock) bool
	go1 = func(x *ssa.BasicBlock) bool {
		if x == b {
			return true
		}
		if seen[x] {
			return false
		}
		seen[x] = true
		for _, n := range k.feasible(x) {
			if go1(n) {
				return true
			}
		}
		return false
	}
	return go1(f.Blocks[0])
}

// ---------------------------------------------------------------- quotes

// quoteField is the field in which a type keeps how its text was quoted: the one that tokens are
// copied to, or -1.
func (x *modeRules) quoteField(n *types.Named) int {
	if x.qf == nil {
		x.qf = map[*types.Named]int{}
		for _, f := range x.P.Funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					st, ok := in.(*ssa.Store)
					if !ok {
						continue
					}
					u, ok := st.Val.(*ssa.UnOp)
					if !ok || u.Op != token.MUL {
						continue
					}
					from, ok := u.X.(*ssa.FieldAddr)
					to, ok2 := st.Addr.(*ssa.FieldAddr)
					if !ok || !ok2 {
						continue
					}
					fm, fst := structOf(from.X.Type())
					m, _ := structOf(to.X.Type())
					if fm == x.c.e.tokenT && m != nil && m != fm && fst.Field(from.Field).Name() == "QuoteType" {
						x.qf[m] = to.Field + 1
					}
				}
			}
		}
	}
	return x.qf[n] - 1
}

// textField is the only text field of a type, or -1.
func textField(n *types.Named) int {
	_, st := structOf(n)
	at := -1
	for i := 0; i < st.NumFields(); i++ {
		if isStr(st.Field(i).Type()) {
			if at >= 0 {
				return -1
			}
			at = i
		}
	}
	return at
}

// between tells what stands on both sides of a text field in the output, given a fact: "" nothing,
// "?" something else.
func (x *modeRules) between(n *types.Named, text int, facts map[string]tfact, mode int64) string {
	_, st := structOf(n)
	t, m := fmtRunLen(x.P, n, "-", nil, mode, facts, nil, 1)
	if t.gaveUp != "" {
		return "?"
	}
	me := "p:" + st.Field(text).Name()
	l, r := map[string]bool{}, map[string]bool{}
	ok := true
	for k := range m.pair {
		if k[2] == me {
			l[k[0]] = true
			ok = ok && k[1] == "g"
		}
		if k[0] == me {
			r[k[2]] = true
			ok = ok && k[1] == "g"
		}
	}
	if len(l) != 1 || len(r) > 1 || !ok {
		return "?"
	}
	a, b := "", "$"
	for k := range l {
		a = k
	}
	for k := range r {
		b = k
	}
	if a == "^" && b == "$" {
		return ""
	}
	if a == b && strings.HasPrefix(a, "w:") {
		// nothing more around it
		for k := range m.pair {
			if k[2] == a && k[0] != "^" && k[0] != me || k[0] == b && k[2] != "$" && k[2] != me {
				return "?"
			}
		}
		return a[2:]
	}
	return "?"
}

func (x *modeRules) quotes(lex *lexResult) {
	r := x.r
	var ms []string
	for k := range x.c.modes {
		ms = append(ms, k)
	}
	sort.Strings(ms)
	byQuote := map[string]bset{} // recorded kind of quote of names: what they stand between
	var str bset
	known := lex != nil && len(lex.quotes) > 0
	if lex != nil {
		for q := range lex.quotes {
			switch q.kind {
			case "<ident>":
				known = known && q.quote != ""
				if old, ok := byQuote[q.quote]; ok && old != q.delim {
					r.bad("quote", "the tokenizer", x.c.e.consume.Pos(), "names between different quotes are recorded with the same kind of quote %s", q.quote)
				}
				byQuote[q.quote] = q.delim
			case "<string>":
				str = q.delim
			}
		}
	}
	if !r.need(known && len(byQuote) > 0 && !str.empty(), "what quoted names and strings stand between in the input") {
		return
	}
	x.strDelim = one(str)
	for _, n := range x.P.Nodes {
		q := x.quoteField(n)
		if q < 0 {
			continue
		}
		text := textField(n)
		fn := x.P.fn("(*" + n.Obj().Name() + ").FormatSQL")
		if !r.need(text >= 0 && fn != nil, "the text of "+n.Obj().Name()) {
			continue
		}
		_, st := structOf(n)
		for c, d := range byQuote {
			want := ""
			if !d.empty() {
				want = one(d)
			}
			for _, m := range ms {
				r.ob("quote", 1)
				z := int8(2)
				if c == "0" {
					z = 1
				}
				got := x.between(n, text, map[string]tfact{st.Field(q).Name(): {z: z, eq: c}}, x.c.modes[m])
				if got != want {
					r.fnBad("quote", fn, fn.Pos(), "%s: a name read between %s is written between %s (%s)", n.Obj().Name(), quoted(want), quoted(got), m)
				}
			}
		}
	}
}

func quoted(s string) string {
	switch s {
	case "":
		return "no quotes"
	case "?":
		return "something else"
	}
	return s
}

// one is the only character of a set.
func one(b bset) string {
	s := ""
	for c := 0; c < 256; c++ {
		if b.has(c) {
			s += string(rune(c))
		}
	}
	return s
}

// textPut is a place where the text of a token goes into the tree.
type textPut struct {
	in    *ssa.Store
	n     *types.Named // nil: a list of texts
	field int
	base  ssa.Value
	kinds map[string]bool
	quote map[string]bool // what the place of the quotes is given
}

// puts evaluates f, with some more functions entered, and lists where names and strings go.
func (x *modeRules) puts(f *ssa.Function, inline map[*ssa.Function]bool, later bool) (map[*ssa.Store]*textPut, error) {
	out := map[*ssa.Store]*textPut{}
	quotes := map[ssa.Value]map[string]bool{}
	e := x.c.e
	ev := newTokEval(x.P, e, gtoken{})
	ev.kinds = []gtoken{{kind: "<ident>"}, {kind: "<string>"}, {kind: "<keyword>"}, {kind: ""}}
	ev.inline = inline
	ev.fuel = 60000
	ev.hit = func(in ssa.Instruction, env map[ssa.Value]gval, s *gstate) {
		st, ok := in.(*ssa.Store)
		if !ok {
			return
		}
		v := ev.val(env, st.Val)
		kind := ""
		if isStr(st.Val.Type()) {
			if strings.HasPrefix(v.note, "text:") {
				kind = v.note[5:]
			}
		}
		put := func(n *types.Named, field int, base ssa.Value) {
			if kind != "<ident>" && kind != "<string>" {
				return
			}
			if out[st] == nil {
				out[st] = &textPut{in: st, n: n, field: field, base: base, kinds: map[string]bool{}}
			}
			out[st].kinds[kind] = true
		}
		switch a := st.Addr.(type) {
		case *ssa.FieldAddr:
			n, _ := structOf(a.X.Type())
			if n == nil || n.Obj().Pkg() != x.P.TPkg || n == e.tokenT || n == e.lexerT || n == e.lstateT || n == e.parserT || !x.c.e.tracked[n] && !x.P.NodeSet[n] {
				return
			}
			if x.quoteField(n) == a.Field {
				q := "?"
				switch {
				case strings.HasPrefix(v.note, "token.QuoteType:"), x.nameQuote(st.Val):
					q = "read"
				case v.k == gConst:
					q = v.c.ExactString()
				}
				if quotes[a.X] == nil {
					quotes[a.X] = map[string]bool{}
				}
				quotes[a.X][q] = true
				return
			}
			put(n, a.Field, a.X)
		case *ssa.IndexAddr:
			put(nil, 0, nil)
		}
	}
	ev.later, ev.names = later, x.nameText
	err := ev.runKinds(f)
	for _, p := range out {
		p.quote = quotes[p.base]
	}
	return out, err
}

// nameText: the text of a name in the tree, without its quotes.
func (x *modeRules) nameText(v ssa.Value) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return false
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok {
		return false
	}
	n, _ := structOf(fa.X.Type())
	return n != nil && x.quoteField(n) >= 0 && textField(n) == fa.Field
}

func (x *modeRules) nameQuote(v ssa.Value) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return false
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok {
		return false
	}
	n, _ := structOf(fa.X.Type())
	return n != nil && x.quoteField(n) == fa.Field
}

// wrong tells what is lost at a place, "" if nothing.
func (x *modeRules) wrong(p *textPut) string {
	if p.n == nil {
		return "the text of a token that may be a quoted name or a string is put in a list of words"
	}
	_, st := structOf(p.n)
	at := p.n.Obj().Name() + "." + st.Field(p.field).Name()
	q := x.quoteField(p.n)
	if p.kinds["<ident>"] && !(q >= 0 && p.quote["read"]) {
		return at + " is given the text of a name that may have been quoted, without its quotes"
	}
	if p.kinds["<string>"] {
		facts := map[string]tfact{}
		if q >= 0 {
			for c := range p.quote {
				if c != "read" && c != "?" && c != "0" {
					facts[st.Field(q).Name()] = tfact{z: 2, eq: c}
				}
			}
			if p.kinds["<ident>"] && len(facts) == 0 {
				return at + " is given the text of a string without its quotes"
			}
		}
		if p.kinds["<ident>"] && len(facts) > 0 && len(p.quote) == 1 {
			return at + " is given the text of a name that may have been quoted, without its quotes"
		}
		if x.between(p.n, p.field, facts, x.c.modes["FormatModeCompact"]) != x.strDelim {
			return at + " is given the text of a string, and is not written between " + x.strDelim
		}
	}
	return ""
}

// kept: where the text of a name or string goes into the tree, its quotes go with it.
func (x *modeRules) kept() {
	und := []string{}
	callers := map[*ssa.Function][]*ssa.Function{}
	for _, f := range x.P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil && x.P.inPkg(g) {
						callers[g] = append(callers[g], f)
					}
				}
			}
		}
	}
	told := map[string]bool{}
	var judge func(f *ssa.Function, inline map[*ssa.Function]bool, only *ssa.Function, d int) bool
	judge = func(f *ssa.Function, inline map[*ssa.Function]bool, only *ssa.Function, d int) (bad bool) {
		ps, err := x.puts(f, inline, false)
		if err != nil {
			und = append(und, fnName(f)+": "+err.Error())
			if only != nil {
				bad = true
				return
			}
		}
		var wrong []*textPut
		for _, p := range ps {
			if only != nil && p.in.Parent() != only || only == nil && p.in.Parent() != f {
				continue
			}
			if only == nil {
				x.r.ob("kept", 1)
			}
			if x.wrong(p) != "" {
				wrong = append(wrong, p)
			}
		}
		if len(wrong) == 0 {
			return false
		}
		g := wrong[0].in.Parent()
		if d < 3 && len(callers[f]) > 0 && len(callers[f]) < 8 && (f.Object() == nil || !f.Object().Exported()) && x.early(f, inline, wrong) {
			// who calls it may know more of the token
			ok := true
			for _, c := range callers[f] {
				ok = ok && c != f && !inline[c]
			}
			if ok {
				in2 := map[*ssa.Function]bool{f: true}
				for k := range inline {
					in2[k] = true
				}
				bad := false
				for _, c := range callers[f] {
					bad = bad || judge(c, in2, g, d+1)
				}
				if !bad {
					return false
				}
			}
		}
		if only == nil {
			for _, p := range wrong {
				what := x.wrong(p)
				if k := fnName(p.in.Parent()) + what; !told[k] {
					told[k] = true
					x.r.fnBad("kept", p.in.Parent(), p.in.Pos(), "%s", what)
				}
			}
		}
		return true
	}
	for _, f := range x.P.Funcs {
		if f.Blocks != nil && x.c.e.touchesParser(f) && x.storesText(f) {
			judge(f, nil, nil, 0)
		}
	}
	sort.Strings(und)
	x.r.extra["kept_undecided"] = und
}

// early: what is put there is known to the callers: the token f starts with, or one it is given.
func (x *modeRules) early(f *ssa.Function, inline map[*ssa.Function]bool, wrong []*textPut) bool {
	for _, p := range f.Params {
		if n, _ := structOf(p.Type()); n == x.c.e.tokenT || isStr(p.Type()) {
			return true
		}
	}
	ps, err := x.puts(f, inline, true)
	if err != nil {
		return false
	}
	for _, w := range wrong {
		if p := ps[w.in]; p != nil && x.wrong(p) != "" {
			return false
		}
	}
	return true
}

// storesText: the function stores a text somewhere.
func (x *modeRules) storesText(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok || !isStr(st.Val.Type()) {
				continue
			}
			if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
				n, _ := structOf(fa.X.Type())
				if !x.c.e.tracked[n] && !x.P.NodeSet[n] {
					continue
				}
			}
			if _, ok := st.Val.(*ssa.Const); !ok {
				return true
			}
		}
	}
	return false
}
