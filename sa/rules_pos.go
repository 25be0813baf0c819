package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P17: what the position slots of a tree are filled with.

type posRules struct {
	P     *Prog
	r     *Report
	e     *Engine
	o     *offsets
	at    map[*ssa.Call]int // 1: made before the function read anything, 2: after
	unset map[string]*unsetAt
	edge  map[[2]*ssa.BasicBlock]bool // ways control can take
	start map[fieldID]bool            // slots Pos() reports
	end   map[fieldID]bool            // slots End() reports
	first map[*types.Named]map[int]bool
	sp    map[*ssa.Function]map[int]bool
}

// unsetAt is a place where a node is kept with position slots that were never given a value.
type unsetAt struct {
	sh  *shape
	fn  *ssa.Function
	pos token.Pos
	fs  []int
}

func checkP17(P *Prog, r *Report) {
	r.rule("recorded", "every value put in a position slot is the position of a token, of a node or of the end of the input")
	r.rule("set", "no node is kept whose own Pos or End reports a slot that was never given a value")
	r.rule("computed", "Pos and End report recorded positions, nothing computed from other numbers")
	r.rule("start", "a node that a parsing step returns starts where the step started to read, where its caller said, or where its first part starts")
	r.rule("end", "the slot End reports is not the place where the node starts")
	r.rule("last", "the end of a node is taken after its last part has been read, and from the last element of a list")
	r.rule("bracket", "a slot for the place of a bracket is taken before the bracket is read")
	r.rule("order", "between taking the start of a part and reading the part, no other part is read")
	r.rule("first", "a node without a start of its own starts where the part that was read first starts")
	x := &posRules{P: P, r: r, at: map[*ssa.Call]int{}, unset: map[string]*unsetAt{}, edge: map[[2]*ssa.BasicBlock]bool{}, start: map[fieldID]bool{}, end: map[fieldID]bool{}, first: map[*types.Named]map[int]bool{}}
	e, err := runHooked(P, func(e *Engine) {
		e.onCall = func(r *run, s *state, c *ssa.Call) {
			if s.adv {
				x.at[c] |= 2
			} else {
				x.at[c] |= 1
			}
		}
		e.onEdge = func(from, to *ssa.BasicBlock) { x.edge[[2]*ssa.BasicBlock{from, to}] = true }
		e.onPub = func(r *run, s *state, o ssa.Value) {
			n := s.fresh[o]
			if !P.NodeSet[n] {
				return
			}
			sh := r.shapeOf(s, o)
			if sh == nil {
				return
			}
			st := n.Underlying().(*types.Struct)
			u := &unsetAt{sh: sh, fn: r.fn, pos: o.Pos()}
			for k := 0; k < st.NumFields(); k++ {
				if isNamed(st.Field(k).Type(), e.posT) && sh.f[k]&bMask == bN {
					u.fs = append(u.fs, k)
				}
			}
			if len(u.fs) > 0 {
				x.unset[fnName(r.fn)+"|"+fmt.Sprint(u.fs)+n.Obj().Name()+"|"+sh.key] = u
			}
		}
	})
	if err != nil {
		r.need(false, err.Error())
		return
	}
	x.e = e
	x.o = newOffsets(P, e, newCallGraph(P))
	x.o.zeroOK = true // decided by the rule on unset slots
	x.o.okFn = x.accessor
	x.o.okBin = x.keywordWidth
	fns := map[*ssa.Function]bool{}
	for c := range e.live {
		fns[c.fn] = true
	}
	r.extra["parse_functions_analysed"] = len(fns)
	r.extra["parse_contexts"] = len(e.live)
	x.queries()
	x.slots()
	x.stores()
	x.sp = x.startParams()
	x.starts()
	x.callers()
	x.parts()
	x.ends()
}

func (x *posRules) query(n *types.Named, name string) *ssa.Function {
	return x.P.fn("(*" + n.Obj().Name() + ")." + name)
}

// ownSlot: v is a load of a field of the receiver.
func ownField(f *ssa.Function, v ssa.Value) (int, bool) {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return 0, false
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok || len(f.Params) == 0 || fa.X != ssa.Value(f.Params[0]) {
		return 0, false
	}
	return fa.Field, true
}

// returned gives the values a query may return, looking through phis, conversions and arithmetic.
func returnedVals(f *ssa.Function) []ssa.Value {
	var out []ssa.Value
	seen := map[ssa.Value]bool{}
	var add func(v ssa.Value)
	add = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch y := v.(type) {
		case *ssa.Phi:
			for _, e := range y.Edges {
				add(e)
			}
			return
		case *ssa.Convert:
			add(y.X)
			return
		case *ssa.ChangeType:
			add(y.X)
			return
		case *ssa.BinOp:
			out = append(out, v)
			add(y.X)
			if _, ok := y.Y.(*ssa.Const); !ok {
				add(y.Y)
			}
			return
		case *ssa.Call:
			if b, ok := y.Call.Value.(*ssa.Builtin); ok && (b.Name() == "max" || b.Name() == "min") {
				for _, a := range y.Call.Args {
					add(a)
				}
				return
			}
		}
		out = append(out, v)
	}
	for _, b := range f.Blocks {
		if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(rt.Results) == 1 {
			add(rt.Results[0])
		}
	}
	return out
}

// queries looks at what Pos and End of every node report.
func (x *posRules) queries() {
	for _, n := range x.P.Nodes {
		for _, name := range []string{"Pos", "End"} {
			f := x.query(n, name)
			if f == nil {
				continue
			}
			x.r.ob("computed", 1)
			own := map[int]bool{}
			for _, v := range returnedVals(f) {
				if k, ok := ownField(f, v); ok && isNamed(v.Type(), x.e.posT) {
					own[k] = true
					if name == "Pos" {
						x.start[fieldID{n, k}] = true
					} else {
						x.end[fieldID{n, k}] = true
					}
					continue
				}
				if _, ok := v.(ssa.Instruction); ok && within(f, v) {
					continue
				}
				switch c := v.(type) {
				case *ssa.Const:
					// nothing to report; that a node is never kept in such a form is not decided here
				case *ssa.BinOp:
					if name == "Pos" {
						x.r.fnBad("computed", f, c.Pos(), "the start of %s is computed", n.Obj().Name())
					} else if !x.width(f, c) {
						x.r.fnBad("computed", f, c.Pos(), "the end of %s is computed", n.Obj().Name())
					}
				default:
					if w := x.o.why(v, 0); w != "" {
						x.r.fnBad("computed", f, v.Pos(), "%s of %s reports %s", name, n.Obj().Name(), w)
					}
				}
			}
			if name == "Pos" && len(own) == 0 {
				m := map[int]bool{}
				for k := range x.partsRead(f) {
					m[k] = true
				}
				x.first[n] = m
			}
		}
	}
	// a slot both report is no end of its own
	for k := range x.start {
		delete(x.end, k)
	}
}

// width: one of the node's own positions plus a constant width or the width of a text the node holds.
func (x *posRules) width(f *ssa.Function, c *ssa.BinOp) bool {
	if c.Op != token.ADD {
		return false
	}
	base := c.X
	if k, ok := ownField(f, base); ok {
		_, st := structOf(f.Params[0].Type())
		if !isNamed(st.Field(k).Type(), x.e.posT) {
			return false
		}
	} else if call, ok := base.(*ssa.Call); !ok || !isNamed(call.Type(), x.e.posT) {
		return false
	}
	y := c.Y
	for {
		if v, ok := y.(*ssa.Convert); ok {
			y = v.X
			continue
		}
		if v, ok := y.(*ssa.ChangeType); ok {
			y = v.X
			continue
		}
		break
	}
	switch k := y.(type) {
	case *ssa.Const:
		return k.Value != nil && constant.Sign(k.Value) > 0
	case *ssa.Call:
		if b, ok := k.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			a := k.Call.Args[0]
			for {
				if v, ok := a.(*ssa.Convert); ok {
					a = v.X
				} else if v, ok := a.(*ssa.ChangeType); ok {
					a = v.X
				} else {
					break
				}
			}
			_, ok := ownField(f, a)
			bt, isB := a.Type().Underlying().(*types.Basic)
			return ok && isB && bt.Info()&types.IsString != 0
		}
	}
	return false
}

// smallStep: a position plus the width of a closing symbol.
func smallStep(c *ssa.BinOp) bool {
	k, ok := c.Y.(*ssa.Const)
	if !ok || c.Op != token.ADD || k.Value == nil {
		return false
	}
	v, exact := constant.Int64Val(constant.ToInt(k.Value))
	return exact && v == 1
}

// within: v is only the width in a sum decided as a whole.
func within(f *ssa.Function, v ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	return ok && b.Name() == "len"
}

// partsRead: the fields of the receiver that a query reads, other than position slots.
func (x *posRules) partsRead(f *ssa.Function) map[int]bool {
	m := map[int]bool{}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if fa, ok := in.(*ssa.FieldAddr); ok && len(f.Params) > 0 && fa.X == ssa.Value(f.Params[0]) {
				m[fa.Field] = true
			}
		}
	}
	return m
}

// slots: the shapes with an unset slot, put to Pos and End.
func (x *posRules) slots() {
	a, err := newEngine(x.P, "ast")
	if err != nil {
		return
	}
	a.posExact = true
	for n, c := range x.e.class {
		d := a.classOf(n)
		for k, sh := range c.shapes {
			d.shapes[k] = sh
		}
		d.joined = append([]bits(nil), c.joined...)
	}
	type hit struct {
		f    *ssa.Function
		k    int
		sure bool
	}
	got := map[string][]hit{} // by shape
	a.onRet = func(r *run, s *state, rt *ssa.Return) {
		if len(rt.Results) != 1 || len(r.c.args) == 0 || r.c.args[0].sh == nil || !r.c.root {
			return
		}
		sh := r.c.args[0].sh
		seen := map[ssa.Value]bool{}
		var add func(v ssa.Value)
		add = func(v ssa.Value) {
			if seen[v] {
				return
			}
			seen[v] = true
			if k, ok := ownField(r.fn, v); ok && isNamed(v.Type(), x.e.posT) {
				if sh.f[k]&bMask == bN {
					got[sh.n.Obj().Name()+sh.key] = append(got[sh.n.Obj().Name()+sh.key], hit{r.fn, k, true})
				}
				return
			}
			if c := s.canon(v); c != v {
				add(c)
			}
			switch y := v.(type) {
			case *ssa.BinOp:
				add(y.X)
				add(y.Y)
			case *ssa.Convert:
				add(y.X)
			case *ssa.ChangeType:
				add(y.X)
			}
		}
		add(rt.Results[0])
	}
	any := tokV | tokEOF | tokErr
	var ks []string
	for k := range x.unset {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		u := x.unset[k]
		for _, name := range []string{"Pos", "End"} {
			if f := x.query(u.sh.n, name); f != nil {
				a.getCtx(f, []aval{{b: bV, sh: u.sh, pub: true}}, any, "", "").root = true
			}
		}
	}
	a.solve()
	a.finish()
	done := map[string]bool{}
	for _, k := range ks {
		u := x.unset[k]
		x.r.ob("set", 1)
		st := u.sh.n.Underlying().(*types.Struct)
		for _, h := range got[u.sh.n.Obj().Name()+u.sh.key] {
			id := fnName(u.fn) + u.sh.n.Obj().Name() + st.Field(h.k).Name()
			if done[id] {
				continue
			}
			done[id] = true
			v := x.r.fnBad("set", u.fn, u.pos, "a %s is kept without %s, which its %s reports", u.sh.n.Obj().Name(), st.Field(h.k).Name(), h.f.Name())
			v.more = append(v.more, "reported by "+fnName(h.f)+" at "+x.P.pos(h.f.Pos()))
		}
	}
	// every kept node counts as an obligation
	for c := range x.e.class {
		if x.P.NodeSet[c] {
			x.r.ob("set", len(x.e.class[c].shapes))
		}
	}
}

func (x *posRules) live(f *ssa.Function) bool {
	for c := range x.e.live {
		if c.fn == f {
			return true
		}
	}
	return false
}

// stores: what is written to position slots.
func (x *posRules) stores() {
	for _, f := range x.P.Funcs {
		if !x.live(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				n, sty := structOf(fa.X.Type())
				if n == nil || !x.P.NodeSet[n] || !isNamed(sty.Field(fa.Field).Type(), x.e.posT) {
					continue
				}
				name := n.Obj().Name() + "." + sty.Field(fa.Field).Name()
				x.r.ob("recorded", 1)
				if w := x.o.why(st.Val, 0); w != "" {
					x.r.fnBad("recorded", f, st.Pos(), "%s is given %s", name, w)
				}
				if x.end[fieldID{n, fa.Field}] {
					x.r.ob("end", 1)
					if x.isStart(st.Val, fa.X, n) && x.staysStart(st, fa) && !x.hollow(fa.X) {
						x.r.fnBad("end", f, st.Pos(), "%s, where the node ends, is given the place where the node starts", name)
					}
				}
			}
		}
	}
}

// hollow: nothing but positions is put into the node; it covers no text.
func (x *posRules) hollow(base ssa.Value) bool {
	al, ok := base.(*ssa.Alloc)
	if !ok {
		return false
	}
	_, st := structOf(al.Type())
	for _, r := range *al.Referrers() {
		if fa, ok := r.(*ssa.FieldAddr); ok && !isNamed(st.Field(fa.Field).Type(), x.e.posT) {
			return false
		}
	}
	return true
}

// storedAgain: the slot is given another value in the same function (a list that is still empty ends
// where it starts).
func storedAgain(st *ssa.Store, fa *ssa.FieldAddr) bool {
	f := st.Parent()
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			o, ok := in.(*ssa.Store)
			if !ok || o == st {
				continue
			}
			g, ok := o.Addr.(*ssa.FieldAddr)
			if ok && g.Field == fa.Field && types.Identical(g.X.Type(), fa.X.Type()) && reaches(st.Block(), o.Block()) {
				return true
			}
		}
	}
	return false
}

func reaches(a, b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var go_ func(c *ssa.BasicBlock) bool
	go_ = func(c *ssa.BasicBlock) bool {
		if c == b {
			return true
		}
		if seen[c] {
			return false
		}
		seen[c] = true
		for _, s := range c.Succs {
			if go_(s) {
				return true
			}
		}
		return false
	}
	return go_(a)
}

func paramIndex(p *ssa.Parameter) int {
	for i, q := range p.Parent().Params {
		if p == q {
			return i
		}
	}
	return -1
}

// accessor: a method of the parser that reports the start or the end of the current token, and the
// end of the input (where the tokenizer stands) when there is none.
func (x *posRules) accessor(f *ssa.Function) bool {
	sig := f.Signature
	if sig.Recv() == nil || sig.Params().Len() != 0 || sig.Results().Len() != 1 || !isNamed(sig.Results().At(0).Type(), x.e.posT) {
		return false
	}
	if m, _ := structOf(sig.Recv().Type()); m != x.e.parserT {
		return false
	}
	for _, v := range returnedVals(f) {
		switch c := v.(type) {
		case *ssa.BinOp:
			if !smallStep(c) || !x.tokenizerField(c.X) {
				return false
			}
		case *ssa.Const:
			if c.Value == nil || constant.Sign(constant.ToInt(c.Value)) > 0 && v.Referrers() != nil {
				return false
			}
		default:
			if !x.tokenizerField(v) && !x.tokenField(v) {
				return false
			}
		}
	}
	return true
}

// tokenField: v is a field of a token.
func (x *posRules) tokenField(v ssa.Value) bool {
	switch u := v.(type) {
	case *ssa.UnOp:
		if fa, ok := u.X.(*ssa.FieldAddr); ok {
			n, _ := structOf(fa.X.Type())
			return n == x.e.tokenT
		}
	case *ssa.Field:
		n, _ := structOf(u.X.Type())
		return n == x.e.tokenT
	}
	return false
}

// keywordWidth: a position plus the width of a keyword that the function, or one that calls it, reads.
func (x *posRules) keywordWidth(c *ssa.BinOp) bool {
	k, ok := c.Y.(*ssa.Const)
	if !ok || c.Op != token.ADD || k.Value == nil || k.Value.Kind() != constant.Int {
		return false
	}
	w, _ := constant.Int64Val(k.Value)
	fs := []*ssa.Function{c.Parent()}
	for _, ci := range x.o.call[c.Parent()] {
		fs = append(fs, ci.Parent())
	}
	for _, f := range fs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if q, ok := (*op).(*ssa.Const); ok && q.Value != nil && q.Value.Kind() == constant.String && int64(len(constant.StringVal(q.Value))) == w && allUpper(constant.StringVal(q.Value)) {
						return true
					}
				}
			}
		}
	}
	return false
}

func allUpper(s string) bool {
	for _, c := range s {
		if (c < 'A' || c > 'Z') && c != '_' {
			return false
		}
	}
	return len(s) > 0
}

func (x *posRules) tokenizerField(v ssa.Value) bool {
	if c, ok := v.(*ssa.Convert); ok {
		v = c.X
	}
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return false
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok {
		return false
	}
	n, _ := structOf(fa.X.Type())
	return n == x.e.lexerT || n == x.e.lstateT
}

// kinds of starts
const (
	stUnknown = 0
	stEntry   = 1 // where the function started to read
	stLater   = 2 // taken after something was read
)

// kind classifies a value used as a start; bad describes one that was taken too late.
func (x *posRules) kind(v ssa.Value, seen map[ssa.Value]bool) (k int, at ssa.Value) {
	if seen[v] {
		return stUnknown, nil
	}
	seen[v] = true
	switch c := v.(type) {
	case *ssa.Call:
		f := c.Call.StaticCallee()
		if f != nil && x.accessor(f) {
			if x.at[c]&2 != 0 && !x.onlyParens(c) {
				return stLater, c
			}
			return stEntry, c
		}
		if src := x.posOf(c); src != nil {
			if x.at[src]&2 != 0 && !x.onlyParens(src) {
				return stLater, src
			}
			return stEntry, c
		}
		return stUnknown, nil
	case *ssa.Parameter:
		return stEntry, c
	case *ssa.Phi:
		k := stUnknown
		for _, e := range c.Edges {
			ek, at := x.kind(e, seen)
			if ek == stLater {
				return ek, at
			}
			if ek == stEntry {
				k = stEntry
			}
		}
		return k, nil
	}
	return stUnknown, nil
}

// posOf: for the start of a node that a step of this function made, the call of that step.
func (x *posRules) posOf(c *ssa.Call) *ssa.Call {
	var recv ssa.Value
	if c.Call.IsInvoke() {
		if c.Call.Method.Name() != "Pos" {
			return nil
		}
		recv = c.Call.Value
	} else if g := c.Call.StaticCallee(); g != nil && g.Name() == "Pos" && len(c.Call.Args) == 1 {
		if n, _ := structOf(c.Call.Args[0].Type()); n != nil && x.P.NodeSet[n] {
			recv = c.Call.Args[0]
		}
	}
	for d := 0; recv != nil && d < 8; d++ {
		switch y := recv.(type) {
		case *ssa.Phi:
			// the same part read in different ways
			recv = nil
			for _, e := range y.Edges {
				if k, ok := e.(*ssa.Const); ok && k.Value == nil {
					continue
				}
				recv = e
			}
		case *ssa.MakeInterface:
			recv = y.X
		case *ssa.ChangeInterface:
			recv = y.X
		case *ssa.TypeAssert:
			recv = y.X
		case *ssa.Call:
			return x.step(y)
		case *ssa.Extract:
			if k, ok := y.Tuple.(*ssa.Call); ok && y.Index == 0 {
				return x.step(k)
			}
			return nil
		default:
			return nil
		}
	}
	return nil
}

func (x *posRules) step(c *ssa.Call) *ssa.Call {
	if g := c.Call.StaticCallee(); g != nil && x.e.touchesParser(g) {
		return c
	}
	return nil
}

// onlyParens: all the function may have read before the call are opening parentheses, which belong
// to no node.
func (x *posRules) onlyParens(c *ssa.Call) bool {
	f := c.Parent()
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			d, ok := in.(ssa.CallInstruction)
			if !ok || in == ssa.Instruction(c) {
				continue
			}
			g := d.Common().StaticCallee()
			if g == nil || !x.e.touchesParser(g) || !advances(x.e, g, map[*ssa.Function]bool{}) {
				continue
			}
			after := in.Block() == b && reachesAfter(in, c)
			if !after {
				continue
			}
			paren := false
			for _, a := range d.Common().Args {
				if k, ok := a.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String && constant.StringVal(k.Value) == "(" {
					paren = true
				}
			}
			if !paren {
				return false
			}
		}
	}
	return true
}

// reachesAfter: control may pass from a to c.
func reachesAfter(a, c ssa.Instruction) bool {
	if a.Block() == c.Block() && precedes(a, c) {
		return true
	}
	for _, s := range a.Block().Succs {
		if reaches(s, c.Block()) {
			return true
		}
	}
	return false
}

// reachesAvoiding: control may pass from a to c without passing through not.
func reachesAvoiding(a, c, not ssa.Instruction) bool {
	seen := map[*ssa.BasicBlock]bool{}
	// from the given index of a block
	var from func(b *ssa.BasicBlock, i int) bool
	from = func(b *ssa.BasicBlock, i int) bool {
		for ; i < len(b.Instrs); i++ {
			if b.Instrs[i] == c {
				return true
			}
			if not != nil && b.Instrs[i] == not {
				return false
			}
		}
		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true
				if from(s, 0) {
					return true
				}
			}
		}
		return false
	}
	for i, in := range a.Block().Instrs {
		if in == a {
			return from(a.Block(), i+1)
		}
	}
	return false
}

// allocsReturned: the nodes made in f that f returns as its first result.
func (x *posRules) allocsReturned(f *ssa.Function) (as []*ssa.Alloc, cs []*ssa.Call) {
	seen := map[ssa.Value]bool{}
	var add func(v ssa.Value)
	add = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch c := v.(type) {
		case *ssa.Alloc:
			if n, _ := structOf(c.Type()); n != nil && x.P.NodeSet[n] {
				as = append(as, c)
			}
		case *ssa.MakeInterface:
			add(c.X)
		case *ssa.ChangeInterface:
			add(c.X)
		case *ssa.TypeAssert:
			add(c.X)
		case *ssa.Phi:
			for _, e := range c.Edges {
				add(e)
			}
		case *ssa.Extract:
			if call, ok := c.Tuple.(*ssa.Call); ok && c.Index == 0 {
				cs = append(cs, call)
			}
		case *ssa.Call:
			cs = append(cs, c)
		case *ssa.UnOp:
			if al, ok := c.X.(*ssa.Alloc); ok && c.Op == token.MUL {
				for _, r := range *al.Referrers() {
					if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
						add(st.Val)
					}
				}
			}
		}
	}
	for _, b := range f.Blocks {
		if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(rt.Results) > 0 && !returnsError(rt) {
			add(rt.Results[0])
		}
	}
	return
}

// startOf: the values stored in the start slot of a node made here.
func (x *posRules) startsOf(al *ssa.Alloc) (vs []*ssa.Store) {
	n, _ := structOf(al.Type())
	for _, r := range *al.Referrers() {
		fa, ok := r.(*ssa.FieldAddr)
		if !ok || !x.start[fieldID{n, fa.Field}] {
			continue
		}
		for _, q := range *fa.Referrers() {
			if st, ok := q.(*ssa.Store); ok && st.Addr == ssa.Value(fa) {
				vs = append(vs, st)
			}
		}
	}
	return
}

func (x *posRules) isStart(v ssa.Value, base ssa.Value, n *types.Named) bool {
	al, ok := base.(*ssa.Alloc)
	if !ok {
		return false
	}
	for _, st := range x.startsOf(al) {
		if st.Val == v {
			return true
		}
	}
	if c, ok := v.(*ssa.BinOp); ok && c.Op == token.ADD {
		if _, ok := c.Y.(*ssa.Const); ok {
			return x.isStart(c.X, base, n)
		}
	}
	if c, ok := v.(*ssa.Call); ok {
		if f := c.Call.StaticCallee(); f != nil && x.accessor(f) && x.at[c] == 1 {
			// the start of the token the function begins with: an end only for a node of one token,
			// and then it must be that token's end
			return x.startAccessor(f)
		}
	}
	return false
}

// startAccessor: f reports where the current token starts.
func (x *posRules) startAccessor(f *ssa.Function) bool {
	for _, v := range returnedVals(f) {
		u, ok := v.(*ssa.UnOp)
		if !ok {
			continue
		}
		fa, ok := u.X.(*ssa.FieldAddr)
		if !ok {
			continue
		}
		n, st := structOf(fa.X.Type())
		if n == x.e.tokenT && st.Field(fa.Field).Name() == "Pos" {
			return true
		}
	}
	return false
}

// starts: nodes that steps return.
func (x *posRules) starts() {
	for _, f := range x.P.Funcs {
		if !x.live(f) || !x.e.touchesParser(f) {
			continue
		}
		as, _ := x.allocsReturned(f)
		for _, al := range as {
			n, sty := structOf(al.Type())
			for _, st := range x.startsOf(al) {
				x.r.ob("start", 1)
				k, at := x.kind(st.Val, map[ssa.Value]bool{})
				if k == stLater {
					fa := st.Addr.(*ssa.FieldAddr)
					v := x.r.fnBad("start", f, st.Pos(), "%s.%s is taken after part of the %s has been read", n.Obj().Name(), sty.Field(fa.Field).Name(), n.Obj().Name())
					v.more = append(v.more, "taken at "+x.P.pos(at.Pos()))
				}
			}
		}
	}
}

// startParams: the parameters of every function that become the start of the node it returns.
func (x *posRules) startParams() map[*ssa.Function]map[int]bool {
	sp := map[*ssa.Function]map[int]bool{}
	for changed := true; changed; {
		changed = false
		for _, f := range x.P.Funcs {
			if !x.live(f) || !x.e.touchesParser(f) {
				continue
			}
			if sp[f] == nil {
				sp[f] = map[int]bool{}
			}
			seen := map[ssa.Value]bool{}
			var add func(v ssa.Value)
			add = func(v ssa.Value) {
				if seen[v] {
					return
				}
				seen[v] = true
				switch c := v.(type) {
				case *ssa.Parameter:
					if k := paramIndex(c); !sp[f][k] && (isNamed(c.Type(), x.e.posT) || x.e.isNodeType(c.Type())) {
						sp[f][k] = true
						changed = true
					}
				case *ssa.Phi:
					for _, e := range c.Edges {
						add(e)
					}
				case *ssa.Alloc:
					n, _ := structOf(c.Type())
					if n == nil || !x.P.NodeSet[n] {
						return
					}
					for _, st := range x.startsOf(c) {
						add(st.Val)
					}
					for _, st := range x.firstsOf(c) {
						add(st.Val)
					}
				case *ssa.MakeInterface:
					add(c.X)
				case *ssa.ChangeInterface:
					add(c.X)
				case *ssa.TypeAssert:
					add(c.X)
				case *ssa.Extract:
					if call, ok := c.Tuple.(*ssa.Call); ok && c.Index == 0 {
						add(call)
					}
				case *ssa.Call:
					g := c.Call.StaticCallee()
					if g == nil {
						return
					}
					for k := range sp[g] {
						if k < len(c.Call.Args) {
							add(c.Call.Args[k])
						}
					}
				case *ssa.UnOp:
					if al, ok := c.X.(*ssa.Alloc); ok && c.Op == token.MUL {
						for _, r := range *al.Referrers() {
							if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
								add(st.Val)
							}
						}
					}
				}
			}
			for _, b := range f.Blocks {
				if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(rt.Results) > 0 && !returnsError(rt) {
					add(rt.Results[0])
				}
			}
		}
	}
	return sp
}

// firstsOf: what is stored in the parts that Pos of the node asks, when there is only one such part.
func (x *posRules) firstsOf(al *ssa.Alloc) (vs []*ssa.Store) {
	n, _ := structOf(al.Type())
	if len(x.first[n]) != 1 {
		return
	}
	for _, r := range *al.Referrers() {
		fa, ok := r.(*ssa.FieldAddr)
		if !ok || !x.first[n][fa.Field] {
			continue
		}
		for _, q := range *fa.Referrers() {
			if st, ok := q.(*ssa.Store); ok && st.Addr == ssa.Value(fa) {
				vs = append(vs, st)
			}
		}
	}
	return
}

// callers: a step that returns what another step made hands on its own start.
func (x *posRules) callers() {
	for _, f := range x.P.Funcs {
		if !x.live(f) || !x.e.touchesParser(f) {
			continue
		}
		_, cs := x.allocsReturned(f)
		for _, c := range cs {
			g := c.Call.StaticCallee()
			if g == nil || g.Blocks == nil {
				continue
			}
			for k := range x.sp[g] {
				if k >= len(c.Call.Args) {
					continue
				}
				x.r.ob("start", 1)
				if kd, at := x.kind(c.Call.Args[k], map[ssa.Value]bool{}); kd == stLater && x.ownsWords(f, c, g) {
					v := x.r.fnBad("start", f, c.Pos(), "the node %s returns is given a start taken after part of it has been read", fnName(g))
					v.more = append(v.more, "taken at "+x.P.pos(at.Pos()))
				}
			}
		}
	}
}

// ownsWords: the node that g returns is written starting with a word that f reads before it calls g.
func (x *posRules) ownsWords(f *ssa.Function, c *ssa.Call, g *ssa.Function) bool {
	words := map[string]bool{}
	var made func(h *ssa.Function, d int)
	seen := map[*ssa.Function]bool{}
	made = func(h *ssa.Function, d int) {
		if seen[h] || d > 8 || h.Blocks == nil {
			return
		}
		seen[h] = true
		as, cs := x.allocsReturned(h)
		for _, al := range as {
			n, _ := structOf(al.Type())
			if w := x.firstWord(n); w != "" {
				words[w] = true
			}
		}
		for _, k := range cs {
			if q := k.Call.StaticCallee(); q != nil && x.e.touchesParser(q) {
				made(q, d+1)
			}
		}
	}
	made(g, 0)
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			d, ok := in.(ssa.CallInstruction)
			if !ok || !reachesAfter(in, c) {
				continue
			}
			h := d.Common().StaticCallee()
			if h == nil || !x.e.touchesParser(h) || !advances(x.e, h, map[*ssa.Function]bool{}) {
				continue
			}
			for _, w := range x.constTexts(d.Common()) {
				if words[w] {
					return true
				}
			}
		}
	}
	return false
}

// constTexts: the constant texts a call is given, also as a list of alternatives.
func (x *posRules) constTexts(c *ssa.CallCommon) (out []string) {
	for _, a := range c.Args {
		if k, ok := a.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
			out = append(out, constant.StringVal(k.Value))
		}
		sl, ok := a.(*ssa.Slice)
		if !ok {
			continue
		}
		al, ok := sl.X.(*ssa.Alloc)
		if !ok {
			continue
		}
		for _, r := range *al.Referrers() {
			if ia, ok := r.(*ssa.IndexAddr); ok {
				for _, q := range *ia.Referrers() {
					if st, ok := q.(*ssa.Store); ok {
						if k, ok := st.Val.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
							out = append(out, constant.StringVal(k.Value))
						}
					}
				}
			}
		}
	}
	return
}

// firstWord: the word the text of a node starts with, when it is always the same.
func (x *posRules) firstWord(n *types.Named) string {
	f := x.P.fn("(*" + n.Obj().Name() + ").FormatSQL")
	if f == nil {
		return ""
	}
	for b := f.Blocks[0]; b != nil; {
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			for _, a := range c.Call.Args {
				if k, ok := a.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
					w := strings.Fields(constant.StringVal(k.Value))
					if len(w) > 0 {
						return w[0]
					}
					return ""
				}
			}
			return ""
		}
		if len(b.Succs) != 1 {
			return ""
		}
		b = b.Succs[0]
	}
	return ""
}

// partCalls: for a node made in f, the calls whose results become its parts.
func (x *posRules) partCalls(al *ssa.Alloc) map[int][]*ssa.Call {
	m := map[int][]*ssa.Call{}
	n, sty := structOf(al.Type())
	if n == nil {
		return m
	}
	var src func(v ssa.Value, d int) *ssa.Call
	src = func(v ssa.Value, d int) *ssa.Call {
		if d > 6 {
			return nil
		}
		switch c := v.(type) {
		case *ssa.Extract:
			if call, ok := c.Tuple.(*ssa.Call); ok && c.Index == 0 {
				return call
			}
		case *ssa.Call:
			return c
		case *ssa.MakeInterface:
			return src(c.X, d+1)
		case *ssa.ChangeInterface:
			return src(c.X, d+1)
		case *ssa.TypeAssert:
			return src(c.X, d+1)
		}
		return nil
	}
	for _, r := range *al.Referrers() {
		fa, ok := r.(*ssa.FieldAddr)
		if !ok || isNamed(sty.Field(fa.Field).Type(), x.e.posT) {
			continue
		}
		for _, q := range *fa.Referrers() {
			st, ok := q.(*ssa.Store)
			if !ok || st.Addr != ssa.Value(fa) {
				continue
			}
			if c := src(st.Val, 0); c != nil && c.Call.StaticCallee() != nil && x.e.touchesParser(c.Call.StaticCallee()) && !x.accessor(c.Call.StaticCallee()) && x.e.holdsNode(sty.Field(fa.Field).Type()) {
				m[fa.Field] = append(m[fa.Field], c)
			}
		}
	}
	return m
}

func precedes(a, b ssa.Instruction) bool {
	if a.Block() != b.Block() {
		return a.Block().Dominates(b.Block())
	}
	for _, in := range a.Block().Instrs {
		if in == a {
			return true
		}
		if in == b {
			return false
		}
	}
	return false
}

// parts: the order in which the parts of a node are read and their starts are taken.
func (x *posRules) parts() {
	for _, f := range x.P.Funcs {
		if !x.live(f) || !x.e.touchesParser(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				al, ok := in.(*ssa.Alloc)
				if !ok {
					continue
				}
				n, sty := structOf(al.Type())
				if n == nil || !x.P.NodeSet[n] {
					continue
				}
				pc := x.partCalls(al)
				x.firstPart(f, al, n, sty, pc)
				var all []*ssa.Call
				name := map[*ssa.Call]string{}
				for k := 0; k < sty.NumFields(); k++ {
					for _, c := range pc[k] {
						all = append(all, c)
						name[c] = sty.Field(k).Name()
					}
				}
				for _, c := range all {
					g := c.Call.StaticCallee()
					for k := range x.sp[g] {
						if k >= len(c.Call.Args) || !isNamed(c.Call.Args[k].Type(), x.e.posT) {
							continue
						}
						x.r.ob("order", 1)
						v := c.Call.Args[k]
						shared := false
						for _, st := range x.startsOf(al) {
							if st.Val == v {
								shared = true
							}
						}
						if shared && x.at[c]&1 == 0 {
							x.r.fnBad("order", f, c.Pos(), "%s.%s, read after the %s has begun, is given the start of the whole %s", n.Obj().Name(), name[c], n.Obj().Name(), n.Obj().Name())
							continue
						}
						def, isIn := v.(ssa.Instruction)
						_, isPar := v.(*ssa.Parameter)
						if !isIn && !isPar {
							continue
						}
						for _, y := range all {
							if y == c || isIn && !precedes(def, y) || !reachesAvoiding(y, c, def) {
								continue
							}
							vv := x.r.fnBad("order", f, c.Pos(), "%s.%s is given a start that was taken before %s was read", n.Obj().Name(), name[c], name[y])
							vv.more = append(vv.more, name[y]+" is read at "+x.P.pos(y.Pos()))
						}
					}
				}
			}
		}
	}
}

// firstPart: a node whose Pos asks its parts.
func (x *posRules) firstPart(f *ssa.Function, al *ssa.Alloc, n *types.Named, sty *types.Struct, pc map[int][]*ssa.Call) {
	ask := x.first[n]
	if len(ask) == 0 {
		return
	}
	for k := range ask {
		for _, c := range pc[k] {
			x.r.ob("first", 1)
			for j, ys := range pc {
				if ask[j] || j == k {
					continue
				}
				for _, y := range ys {
					if y != c && precedes(y, c) {
						x.r.fnBad("first", f, c.Pos(), "Pos of %s asks %s, but %s is read before it", n.Obj().Name(), sty.Field(k).Name(), sty.Field(j).Name())
					}
				}
			}
		}
	}
}

func init() { checks["P17"] = checkP17 }
