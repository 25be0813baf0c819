package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P07: how the parser compares the text of tokens with the words of the grammar.

type textBits uint8

const (
	tRaw textBits = 1 << iota // token text as it was written
	tNK                       // as written, of a token that is no keyword
	tUp                       // upper-cased
	tLow                      // lower-cased
)

func (b textBits) String() string {
	var p []string
	for i, n := range []string{"as written", "as written", "upper-cased", "lower-cased"} {
		if b&(1<<uint(i)) != 0 {
			p = append(p, n)
		}
	}
	return strings.Join(p, " or ")
}

type wordFlow struct {
	P      *Prog
	e      *Engine
	g      *callGraph
	val    map[ssa.Value]textBits
	ret    map[*ssa.Function][]textBits
	field  map[fieldID]textBits
	held   map[ssa.Value]textBits
	change bool
	calls  map[*ssa.Function][]*ssa.CallCommon
}

func (w *wordFlow) add(v ssa.Value, b textBits) {
	if b&^w.val[v] != 0 {
		w.val[v] |= b
		w.change = true
	}
}

// notKeyword: the block is only entered when the token's kind was compared with the
// keyword kind and found different.
func (w *wordFlow) notKeyword(b *ssa.BasicBlock) bool {
	for d := b; d != nil; d = d.Idom() {
		p := d.Idom()
		if p == nil {
			return false
		}
		i, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok || len(d.Preds) != 1 || d.Preds[0] != p {
			continue
		}
		c, ok := i.Cond.(*ssa.BinOp)
		if !ok || c.Op != token.EQL && c.Op != token.NEQ {
			continue
		}
		k, ok := c.Y.(*ssa.Const)
		if !ok {
			k, ok = c.X.(*ssa.Const)
		}
		if !ok || k.Value == nil || k.Value.Kind() != constant.String || constant.StringVal(k.Value) != "<keyword>" {
			continue
		}
		onTrue := p.Succs[0] == d
		if onTrue == (c.Op == token.NEQ) {
			return true
		}
	}
	return false
}

func newWordFlow(P *Prog, e *Engine) *wordFlow {
	w := &wordFlow{P: P, e: e, g: newCallGraph(P), val: map[ssa.Value]textBits{}, ret: map[*ssa.Function][]textBits{}, field: map[fieldID]textBits{}, held: map[ssa.Value]textBits{},
		calls: map[*ssa.Function][]*ssa.CallCommon{}}
	for _, f := range P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					fs, _ := w.g.callees(c.Common())
					for _, h := range fs {
						w.calls[h] = append(w.calls[h], c.Common())
					}
				}
			}
		}
	}
	for w.change = true; w.change; {
		w.change = false
		for _, f := range P.Funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					w.flow(f, in)
				}
			}
		}
	}
	return w
}

func (w *wordFlow) flow(f *ssa.Function, in ssa.Instruction) {
	switch i := in.(type) {
	case *ssa.Phi:
		for _, e := range i.Edges {
			w.add(i, w.val[e])
		}
	case *ssa.UnOp:
		if i.Op != token.MUL {
			return
		}
		switch a := i.X.(type) {
		case *ssa.FieldAddr:
			n, st := structOf(a.X.Type())
			if n == nil {
				return
			}
			if n == w.e.tokenT {
				if st.Field(a.Field).Name() == "String" {
					if w.notKeyword(i.Block()) {
						w.add(i, tNK)
					} else {
						w.add(i, tRaw)
					}
				}
				return
			}
			w.add(i, w.field[fieldID{n, a.Field}])
		case *ssa.IndexAddr:
			w.add(i, w.val[a.X])
		default:
			w.add(i, w.held[i.X])
		}
	case *ssa.Field:
		if n, _ := structOf(i.X.Type()); n != nil {
			w.add(i, w.field[fieldID{n, i.Field}])
		}
	case *ssa.Store:
		b := w.val[i.Val]
		if b == 0 {
			return
		}
		switch a := i.Addr.(type) {
		case *ssa.FieldAddr:
			if n, _ := structOf(a.X.Type()); n != nil && n != w.e.tokenT {
				if id := (fieldID{n, a.Field}); b&^w.field[id] != 0 {
					w.field[id] |= b
					w.change = true
				}
			}
		case *ssa.IndexAddr:
			w.add(a.X, b)
		default:
			if b&^w.held[i.Addr] != 0 {
				w.held[i.Addr] |= b
				w.change = true
			}
		}
	case *ssa.MakeClosure:
		fn := i.Fn.(*ssa.Function)
		for k, b := range i.Bindings {
			w.add(fn.FreeVars[k], w.val[b])
			if h := w.held[b]; h&^w.held[fn.FreeVars[k]] != 0 {
				w.held[fn.FreeVars[k]] |= h
				w.change = true
			}
		}
	case *ssa.Slice:
		w.add(i, w.val[i.X])
	case *ssa.ChangeType:
		w.add(i, w.val[i.X])
	case *ssa.Convert:
		w.add(i, w.val[i.X])
	case *ssa.MakeInterface:
		w.add(i, w.val[i.X])
	case *ssa.Extract:
		if c, ok := i.Tuple.(*ssa.Call); ok {
			w.add(i, w.result(c, i.Index))
		} else if n, ok := i.Tuple.(*ssa.Next); ok && i.Index == 2 {
			if rg, ok := n.Iter.(*ssa.Range); ok {
				w.add(i, w.val[rg.X])
			}
		}
	case *ssa.Return:
		r := w.ret[f]
		if r == nil {
			r = make([]textBits, len(i.Results))
			w.ret[f] = r
		}
		for k, v := range i.Results {
			if b := w.val[v]; b&^r[k] != 0 {
				r[k] |= b
				w.change = true
			}
		}
	case ssa.CallInstruction:
		c := i.Common()
		fs, ext := w.g.callees(c)
		for _, h := range fs {
			as := c.Args
			if c.IsInvoke() {
				as = append([]ssa.Value{c.Value}, as...)
			}
			if len(as) == len(h.Params) {
				for k, a := range as {
					w.add(h.Params[k], w.val[a])
				}
			}
		}
		if ext != nil {
			for _, a := range c.Args { // a callback gets the elements
				if h := funcArg(a); h != nil && w.P.inPkg(h) {
					for _, p := range h.Params {
						if isStr(p.Type()) {
							for _, b := range c.Args {
								w.add(p, w.val[b])
							}
						}
					}
				}
			}
		}
		if v, ok := i.(*ssa.Call); ok && c.Signature().Results().Len() <= 1 {
			w.add(v, w.result(v, 0))
		}
	}
}

func (w *wordFlow) result(c *ssa.Call, k int) (b textBits) {
	cc := c.Common()
	if bi, ok := cc.Value.(*ssa.Builtin); ok {
		if bi.Name() == "append" {
			for _, a := range cc.Args {
				b |= w.val[a]
			}
		}
		return b
	}
	fs, ext := w.g.callees(cc)
	for _, h := range fs {
		if r := w.ret[h]; k < len(r) {
			b |= r[k]
		}
	}
	if ext == nil {
		return b
	}
	var in textBits
	for _, a := range cc.Args {
		if isStr(a.Type()) || isStrSlice(a.Type()) {
			in |= w.val[a]
		}
	}
	if in == 0 {
		return b
	}
	switch n := ext.Name(); {
	case extPkg(ext) == "strings" && (strings.HasPrefix(n, "ToUpper") || n == "ToTitle"):
		return tUp
	case extPkg(ext) == "strings" && strings.HasPrefix(n, "ToLower"):
		return tLow
	case extPkg(ext) == "strings" && (strings.HasPrefix(n, "Trim") || n == "Clone"), extPkg(ext) == "slices" && (strings.HasPrefix(n, "Clone") || strings.HasPrefix(n, "Concat")):
		return in
	}
	return b
}

func isStrSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isStr(s.Elem())
}

// wordConst is a constant that can arrive at a comparison.
type wordConst struct {
	s  string
	at token.Pos
}

// consts collects the constants a value can be, with the places they are written.
func (w *wordFlow) consts(v ssa.Value, at token.Pos) map[wordConst]bool {
	out := map[wordConst]bool{}
	seen := map[ssa.Value]bool{}
	seenF := map[fieldID]bool{}
	var walk func(v ssa.Value, at token.Pos, d int)
	fieldIn := func(id fieldID, d int) {
		if seenF[id] || id.n == w.e.tokenT {
			return
		}
		seenF[id] = true
		if w.P.NodeSet[id.n] {
			return // what a node holds was read, not asked for
		}
		for _, f := range w.P.Funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if st, ok := in.(*ssa.Store); ok {
						if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fa.Field == id.i {
							if n, _ := structOf(fa.X.Type()); n == id.n {
								walk(st.Val, st.Pos(), d+1)
							}
						}
					}
				}
			}
		}
	}
	walk = func(v ssa.Value, at token.Pos, d int) {
		if c, ok := v.(*ssa.Const); ok {
			if c.Value != nil && c.Value.Kind() == constant.String {
				out[wordConst{constant.StringVal(c.Value), at}] = true
			}
			return
		}
		if seen[v] || d > 12 {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				walk(e, at, d+1)
			}
		case *ssa.ChangeType:
			walk(x.X, at, d+1)
		case *ssa.Convert:
			walk(x.X, at, d+1)
		case *ssa.MakeInterface:
			walk(x.X, at, d+1)
		case *ssa.Slice:
			walk(x.X, at, d+1)
		case *ssa.Alloc:
			for _, r := range *x.Referrers() {
				switch q := r.(type) {
				case *ssa.IndexAddr:
					for _, u := range *q.Referrers() {
						if st, ok := u.(*ssa.Store); ok && st.Addr == ssa.Value(q) {
							walk(st.Val, at, d+1)
						}
					}
				case *ssa.Store:
					if q.Addr == ssa.Value(x) {
						walk(q.Val, at, d+1)
					}
				}
			}
		case *ssa.UnOp:
			switch a := x.X.(type) {
			case *ssa.IndexAddr:
				walk(a.X, at, d+1)
			case *ssa.FieldAddr:
				if n, _ := structOf(a.X.Type()); n != nil {
					fieldIn(fieldID{n, a.Field}, d)
				}
			case *ssa.Global:
				w.globalIn(a, func(v ssa.Value, at token.Pos) { walk(v, at, d+1) })
			case *ssa.Alloc, *ssa.FreeVar:
				walk(a, at, d+1)
			}
		case *ssa.FreeVar:
			for _, f := range w.P.Funcs {
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(x.Parent()) {
							for k, fv := range x.Parent().FreeVars {
								if fv == x {
									walk(mc.Bindings[k], at, d+1)
								}
							}
						}
					}
				}
			}
		case *ssa.Field:
			if n, _ := structOf(x.X.Type()); n != nil {
				fieldIn(fieldID{n, x.Field}, d)
			}
		case *ssa.Parameter:
			for k, p := range x.Parent().Params {
				if p != x {
					continue
				}
				for _, c := range w.calls[x.Parent()] {
					as := c.Args
					if c.IsInvoke() {
						as = append([]ssa.Value{c.Value}, as...)
					}
					if k < len(as) {
						walk(as[k], c.Pos(), d+1)
					}
				}
			}
		case *ssa.Call:
			if b, ok := x.Common().Value.(*ssa.Builtin); ok {
				if b.Name() == "append" {
					for _, a := range x.Common().Args {
						walk(a, at, d+1)
					}
				}
				return
			}
			fs, _ := w.g.callees(x.Common())
			for _, h := range fs {
				for _, b := range h.Blocks {
					if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(rt.Results) == 1 {
						walk(rt.Results[0], rt.Pos(), d+1)
					}
				}
			}
		}
	}
	walk(v, at, 0)
	return out
}

func (w *wordFlow) globalIn(g *ssa.Global, f func(v ssa.Value, at token.Pos)) {
	for _, fn := range w.P.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok && st.Addr == ssa.Value(g) {
					f(st.Val, st.Pos())
				}
			}
		}
	}
}

func isUpperWord(s string) bool {
	n := 0
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c >= 'A' && c <= 'Z':
			n++
		case c >= '0' && c <= '9' || c == '_':
		default:
			return false
		}
	}
	return n > 1
}

func hasLetter(s string) bool { return strings.ToUpper(s) != strings.ToLower(s) }

func checkP07(P *Prog, r *Report) {
	e, err := newEngine(P, "parse")
	if err != nil {
		r.need(false, err.Error())
		return
	}
	r.rule("case", "token text is compared with a word of the grammar only in a way that ignores letter case")
	r.rule("spelling", "text that was folded to one letter case is compared with words spelled in that case")
	r.rule("registered", "every word looked for as a keyword is in the keyword table the tokenizer consults")
	r.rule("table", "the keyword table is spelled in upper case and contains every reserved word")
	r.rule("classify", "the tokenizer consults the keyword table with the upper-cased word")
	tabs := packageTables(P)
	// the table the tokenizer consults
	lr := r.lex(e)
	if lr == nil {
		return
	}
	var kw *ssa.Global
	for l := range lr.lookups {
		name, up, _ := strings.Cut(l, "|")
		r.ob("classify", 1)
		if up != "true" {
			r.bad("classify", name, token.NoPos, "the tokenizer looks a word up in %s without upper-casing it", name)
		}
	}
	var lexers []*ssa.Function
	for _, f := range P.Funcs {
		if rv := f.Signature.Recv(); rv != nil {
			if n, _ := structOf(rv.Type()); n == e.lexerT {
				lexers = append(lexers, f)
			}
		}
	}
	for f := range newCallGraph(P).reach(lexers) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok && tabs[g] != nil {
						if _, ok := tabs[g]["SELECT"]; ok || kw == nil {
							kw = g
						}
					}
				}
			}
		}
	}
	if !r.need(kw != nil, "the keyword table of the tokenizer") {
		return
	}
	words := tabs[kw]
	r.extra["keyword_table"] = kw.Name()
	r.extra["keywords"] = len(words)
	for s := range words {
		r.ob("table", 1)
		if s != strings.ToUpper(s) || !isIdentWord(s) {
			r.bad("table", s, kw.Pos(), "the keyword table has %q, which no upper-cased word can equal", s)
		}
	}
	for g, t := range tabs {
		if g == kw || !strings.Contains(strings.ToLower(g.Name()), "reserved") {
			continue
		}
		for s := range t {
			r.ob("table", 1)
			if _, ok := words[s]; !ok {
				r.bad("table", s, g.Pos(), "%q is in %s but is not a keyword", s, g.Name())
			}
		}
	}
	w := newWordFlow(P, e)
	isKw := func(s string) bool { _, ok := words[strings.ToUpper(s)]; return ok }
	judge := func(f *ssa.Function, at token.Pos, b textBits, cs map[wordConst]bool) {
		var l []wordConst
		for c := range cs {
			l = append(l, c)
		}
		sort.Slice(l, func(i, j int) bool { return l[i].s < l[j].s })
		for _, c := range l {
			if !hasLetter(c.s) || strings.HasPrefix(c.s, "<") {
				continue
			}
			r.ob("case", 1)
			switch {
			case b&tRaw != 0 && (isKw(c.s) || isUpperWord(c.s)), b&tNK != 0 && !isKw(c.s) && isUpperWord(c.s):
				p := at
				r.fnBad("case", f, p, "compares text as it was written with the word %s", c.s)
			}
			r.ob("spelling", 1)
			if b&tUp != 0 && b&(tRaw|tNK|tLow) == 0 && c.s != strings.ToUpper(c.s) {
				r.fnBad("spelling", f, at, "compares upper-cased text with %q, which it never equals", c.s)
			}
			if b&tLow != 0 && b&(tRaw|tNK|tUp) == 0 && c.s != strings.ToLower(c.s) {
				r.fnBad("spelling", f, at, "compares lower-cased text with %q, which it never equals", c.s)
			}
		}
	}
	keysOf := func(g *ssa.Global) map[wordConst]bool {
		out := map[wordConst]bool{}
		for s := range tabs[g] {
			out[wordConst{s, g.Pos()}] = true
		}
		return out
	}
	for _, f := range P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch i := in.(type) {
				case *ssa.BinOp:
					if i.Op != token.EQL && i.Op != token.NEQ || !isStr(i.X.Type()) {
						continue
					}
					if x := w.val[i.X]; x != 0 {
						judge(f, i.Pos(), x, w.consts(i.Y, i.Pos()))
					}
					if y := w.val[i.Y]; y != 0 {
						judge(f, i.Pos(), y, w.consts(i.X, i.Pos()))
					}
				case *ssa.Lookup:
					x := w.val[i.Index]
					if u, ok := i.X.(*ssa.UnOp); ok && x != 0 {
						if g, ok := u.X.(*ssa.Global); ok {
							judge(f, i.Pos(), x, keysOf(g))
						}
					}
				case *ssa.Call:
					c := i.Common()
					h := c.StaticCallee()
					if h == nil {
						continue
					}
					if setContains(h) && len(c.Args) == 2 {
						if u, ok := c.Args[0].(*ssa.UnOp); ok {
							if g, ok := u.X.(*ssa.Global); ok && w.val[c.Args[1]] != 0 {
								judge(f, i.Pos(), w.val[c.Args[1]], keysOf(g))
							}
						}
						continue
					}
					n := h.Name()
					if k := strings.IndexByte(n, '['); k >= 0 {
						n = n[:k]
					}
					cmp := extPkg(h) == "strings" && (n == "HasPrefix" || n == "HasSuffix" || n == "Contains" || n == "Compare" || n == "Index") ||
						extPkg(h) == "slices" && (n == "Contains" || n == "Index" || n == "Equal" || n == "BinarySearch") || h.Name() == "Equal" && extPkg(h) == "strings"
					if cmp && len(c.Args) == 2 {
						for k := 0; k < 2; k++ {
							if x := w.val[c.Args[k]]; x != 0 {
								judge(f, i.Pos(), x, w.consts(c.Args[1-k], i.Pos()))
							}
						}
					}
				}
			}
		}
	}
	w.registered(r, words)
}

func isIdentWord(s string) bool {
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !(c >= 'A' && c <= 'Z' || c == '_' || i > 0 && c >= '0' && c <= '9') {
			return false
		}
	}
	return s != ""
}

// registered looks at every comparison that only a keyword token reaches.
func (w *wordFlow) registered(r *Report, words map[string]gval) {
	sites := 0
	for _, f := range w.P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var text, word ssa.Value
				switch i := in.(type) {
				case *ssa.Call:
					h := i.Common().StaticCallee()
					if h == nil || h.String() != "strings.EqualFold" {
						continue
					}
					x, y := i.Common().Args[0], i.Common().Args[1]
					switch {
					case w.val[x] != 0 && w.val[y] == 0:
						text, word = x, y
					case w.val[y] != 0 && w.val[x] == 0:
						text, word = y, x
					}
				case *ssa.BinOp:
					if (i.Op == token.EQL || i.Op == token.NEQ) && isStr(i.X.Type()) {
						switch {
						case w.val[i.X]&tUp != 0 && w.val[i.Y] == 0:
							text, word = i.X, i.Y
						case w.val[i.Y]&tUp != 0 && w.val[i.X] == 0:
							text, word = i.Y, i.X
						}
					}
				}
				if text == nil || !w.tokenText(text, 0) {
					continue
				}
				cs := w.consts(word, in.Pos())
				if len(cs) == 0 {
					continue
				}
				need := w.keywordOnly(f, in, 0)
				sites++
				for c := range cs {
					if !hasLetter(c.s) {
						continue
					}
					if !need {
						continue
					}
					r.ob("registered", 1)
					if _, ok := words[strings.ToUpper(c.s)]; !ok {
						r.fnBad("registered", f, c.at, "looks for the keyword %q, which the tokenizer does not know as a keyword", c.s)
					}
				}
			}
		}
	}
	r.extra["word_comparisons"] = sites
	r.need(r.rules["registered"].Examined > 100, "comparisons of keyword tokens with the words of the grammar")
}

// keywordOnly: the instruction, or every call that leads to it, is reached by keyword
// tokens only.
func (w *wordFlow) keywordOnly(f *ssa.Function, in ssa.Instruction, d int) bool {
	if w.needsKeyword(f, in) {
		return true
	}
	n := 0
	if d < 3 {
		for _, g := range w.P.Funcs {
			for _, b := range g.Blocks {
				for _, i := range b.Instrs {
					c, ok := i.(ssa.CallInstruction)
					if !ok || c.Common().StaticCallee() != f {
						continue
					}
					n++
					if g == f || !w.keywordOnly(g, i, d+1) {
						return false
					}
				}
			}
		}
	}
	return n > 0
}

// tokenText: the value is the text of a token itself (not of a name in the tree).
func (w *wordFlow) tokenText(v ssa.Value, d int) bool {
	if d > 6 {
		return false
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			n, _ := structOf(fa.X.Type())
			return n == w.e.tokenT
		}
	case *ssa.Call:
		for _, a := range x.Common().Args {
			if isStr(a.Type()) && w.tokenText(a, d+1) {
				return true
			}
		}
		if h := x.Common().StaticCallee(); h != nil && h.Signature.Recv() != nil {
			n, _ := structOf(h.Signature.Recv().Type())
			return n == w.e.tokenT
		}
	case *ssa.ChangeType:
		return w.tokenText(x.X, d+1)
	case *ssa.Convert:
		return w.tokenText(x.X, d+1)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if w.tokenText(e, d+1) {
				return true
			}
		}
	}
	return false
}

// needsKeyword: the instruction is not reached when the current token is an identifier.
func (w *wordFlow) needsKeyword(f *ssa.Function, in ssa.Instruction) bool {
	if len(f.Blocks) > 20 {
		return false
	}
	reach := func(kind string) (bool, bool) {
		x := newTokEval(w.P, w.e, gtoken{kind: kind, text: "ZZZ", fold: true})
		x.T2 = &gtoken{kind: kind, text: "ZZZ", fold: true}
		x.fuel = 20000
		hit := false
		x.hit = func(i ssa.Instruction, env map[ssa.Value]gval, s *gstate) {
			if i == in {
				hit = true
			}
		}
		args := make([]gval, len(f.Params))
		for k, p := range f.Params {
			if n, _ := structOf(p.Type()); n == w.e.tokenT {
				args[k] = gval{k: gTok}
			} else if pointerLike(p.Type()) {
				args[k] = gval{k: gTop}
			}
		}
		_, err := x.run(f, args)
		return hit, err == nil
	}
	yes, ok := reach("<keyword>")
	no, ok2 := reach("<ident>")
	return ok && ok2 && yes && !no
}

var _ = fmt.Sprint

func init() { checks["P07"] = checkP07 }
