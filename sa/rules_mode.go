package main

import (
	"go/constant"
	"go/types"
	"sort"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// P13: the two output modes.

type modeRules struct {
	P     *Prog
	r     *Report
	c     *cover
	kinds map[string]int8 // text kinds of paths, by node and path
	edges map[string]int8 // memo of node edges
	vals  map[*ssa.Function]map[*types.Named]bool
	qf    map[*types.Named]int

	strDelim string // what strings stand between
}

// joined is what a node writes in one mode, over all states and list lengths.
type joined struct {
	pair   map[[2]string]uint8 // previous and next item: 1 glued, 2 spaced
	rec    map[string]bool
	end    map[string]uint8
	gaveUp string
}

func (x *modeRules) write(n *types.Named, mode int64) *joined {
	j := &joined{pair: map[[2]string]uint8{}, rec: map[string]bool{}, end: map[string]uint8{}}
	for ln := 0; ln < 4; ln++ {
		for _, fs := range x.recordShapes(n, ln) {
			t, m := fmtRunLen(x.P, n, "-", nil, mode, fs, nil, ln)
			if t.gaveUp != "" {
				j.gaveUp = t.gaveUp
				return j
			}
			for k := range m.pair {
				b := uint8(2)
				if k[1] == "g" {
					b = 1
				}
				j.pair[[2]string{k[0], k[2]}] |= b
			}
			for k := range m.rec {
				j.rec[k] = true
			}
			for k, c := range m.end {
				j.end[string(rune('0'+ln))+k] |= c
			}
		}
	}
	return j
}

// recordShapes lists what is known of the helper records inside a node: the facts for each way of
// choosing, among the shapes the parser builds, one for each record; one empty set when there are none.
func (x *modeRules) recordShapes(n *types.Named, ln int) []map[string]tfact {
	type at struct {
		p string
		m *types.Named
	}
	// records gives the records directly inside m, at path pre
	records := func(m *types.Named, pre string, fs map[string]tfact) []at {
		var out []at
		st := m.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			t := types.Unalias(st.Field(i).Type())
			ps := []string{pre + st.Field(i).Name()}
			if sl, ok := t.Underlying().(*types.Slice); ok {
				t = sl.Elem()
				var qs []string
				n := ln
				if n == 0 && fs[ps[0]].z == 2 {
					n = 1
				}
				for k := 0; k < n; k++ {
					qs = append(qs, ps[0]+"["+string(rune('0'+k))+"]")
				}
				ps = qs
			}
			k, _ := structOf(t)
			if k == nil || k.Obj().Pkg() != x.P.TPkg || x.P.NodeSet[k] {
				continue
			}
			for _, p := range ps {
				out = append(out, at{p + ".", k})
			}
		}
		return out
	}
	var fill func(todo []at, fs map[string]tfact, d int, uniform map[*types.Named]*shape) []map[string]tfact
	fill = func(todo []at, fs map[string]tfact, d int, uniform map[*types.Named]*shape) []map[string]tfact {
		if len(todo) == 0 {
			return []map[string]tfact{fs}
		}
		a, rest := todo[0], todo[1:]
		next := func(fs map[string]tfact) []at {
			if strings.Count(a.p, ".") > 3 {
				return rest
			}
			var out []at
			for _, r := range records(a.m, a.p, fs) {
				if f, ok := fs[strings.TrimSuffix(r.p, ".")]; ok && f.z == 1 {
					continue
				}
				out = append(out, r)
			}
			return append(out, rest...)
		}
		cl := x.c.e.class[a.m]
		if cl == nil || !x.c.e.tracked[a.m] || len(cl.shapes) == 0 || len(cl.shapes) >= 20 {
			return fill(next(fs), fs, d, uniform)
		}
		shs := x.c.shapesOf(a.m)
		if sh := uniform[a.m]; sh != nil {
			shs = []*shape{sh}
		}
		var out []map[string]tfact
		for _, sh := range shs {
			g := map[string]tfact{}
			for k, f := range fs {
				g[k] = f
			}
			s := newTState()
			shapeFacts(s, a.p, a.m, sh)
			for k, f := range s.facts {
				g[k] = f
			}
			u := uniform
			if d == 0 && u != nil {
				u = map[*types.Named]*shape{a.m: sh}
				for k, v := range uniform {
					u[k] = v
				}
			}
			out = append(out, fill(next(g), g, d, u)...)
			if len(out) > 64 && uniform == nil {
				return out
			}
		}
		return out
	}
	out := fill(records(n, "", nil), map[string]tfact{}, 0, nil)
	if len(out) > 64 {
		out = fill(records(n, "", nil), map[string]tfact{}, 0, map[*types.Named]*shape{})
	}
	return out
}

// typeAt gives the node or record type that holds the last field of a path, the field, and its type.
func (x *modeRules) typeAt(n *types.Named, path string) (*types.Named, int, types.Type) {
	var t types.Type = n
	var own *types.Named
	at := -1
	for _, seg := range strings.Split(path, ".") {
		lists := strings.Count(seg, "[")
		if i := strings.IndexByte(seg, '['); i >= 0 {
			seg = seg[:i]
		}
		m, st := structOf(t)
		if m == nil {
			return nil, -1, nil
		}
		own, at = m, -1
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == seg {
				at, t = i, types.Unalias(st.Field(i).Type())
			}
		}
		if at < 0 {
			return nil, -1, nil
		}
		for ; lists > 0; lists-- {
			sl, ok := t.Underlying().(*types.Slice)
			if !ok {
				return nil, -1, nil
			}
			t = types.Unalias(sl.Elem())
		}
	}
	return own, at, t
}

// what an item may begin or end with
const (
	eSym   = 1 // a symbol, or white space
	eWord  = 2 // a letter, digit or quote
	eMaybe = 4 // a symbol in a way of reading that the other items may go with
)

// edge tells what the text of an item of node n begins (or ends) with.
func (x *modeRules) edge(n *types.Named, item string, first bool) int8 {
	if strings.HasPrefix(item, "w:") {
		w := []rune(item[2:])
		c := w[len(w)-1]
		if first {
			c = w[0]
		}
		if c == '_' || unicode.IsLetter(c) || unicode.IsDigit(c) {
			return eWord
		}
		return eSym
	}
	if !strings.HasPrefix(item, "p:") {
		return eWord
	}
	own, at, t := x.typeAt(n, item[2:])
	if own == nil {
		return eWord
	}
	if m, _ := structOf(t); m != nil && x.P.NodeSet[m] {
		return x.nodeEdge(m, first)
	}
	if _, ok := t.Underlying().(*types.Interface); ok {
		var e int8
		for _, site := range x.stored(own, at) {
			var s int8
			for m := range site {
				if m == nil {
					s |= eWord
					continue
				}
				s |= x.nodeEdge(m, first)
			}
			if s == eSym {
				e |= eMaybe
			} else if s != 0 {
				e |= eWord
			}
		}
		if e == 0 {
			return eWord
		}
		return e
	}
	if cs, all := x.texts(own, at); all && len(cs) > 0 {
		e := int8(eSym)
		for _, c := range cs {
			if c == "" || x.edge(n, "w:"+c, first) != eSym {
				e = eWord
			}
		}
		return e
	}
	return eWord
}

func (x *modeRules) nodeEdge(n *types.Named, first bool) int8 {
	k := n.Obj().Name()
	if first {
		k += "^"
	}
	if e, ok := x.edges[k]; ok {
		return e
	}
	x.edges[k] = eSym // going round adds nothing
	j := x.write(n, x.c.modes["FormatModeCompact"])
	var e int8
	for p, b := range j.pair {
		a, o := p[0], p[1]
		if !first {
			a, o = o, a
		}
		if first && a != "^" || !first && a != "$" {
			continue
		}
		if b == 2 {
			e |= eSym
			continue
		}
		if o == "^" || o == "$" {
			continue
		}
		e |= x.edge(n, o, first) &^ eMaybe
	}
	if e == 0 || j.gaveUp != "" {
		e = eWord
	}
	x.edges[k] = e
	return e
}

// stored lists, for each place where the parser stores into a field, the node types the value can have
// (nil: any).
func (x *modeRules) stored(n *types.Named, field int) []map[*types.Named]bool {
	var out []map[*types.Named]bool
	for _, f := range x.P.Funcs {
		if !x.c.e.touchesParser(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || fa.Field != field {
					continue
				}
				if m, _ := structOf(fa.X.Type()); m != n {
					continue
				}
				for _, leaf := range leaves(st.Val) {
					ts := map[*types.Named]bool{}
					x.typesOf(leaf, ts, map[ssa.Value]bool{})
					if len(ts) > 0 {
						out = append(out, ts)
					}
				}
			}
		}
	}
	return out
}

// leaves splits a merged value.
func leaves(v ssa.Value) []ssa.Value {
	var out []ssa.Value
	seen := map[ssa.Value]bool{}
	var add func(v ssa.Value)
	add = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		if p, ok := v.(*ssa.Phi); ok {
			for _, e := range p.Edges {
				add(e)
			}
			return
		}
		out = append(out, v)
	}
	add(v)
	return out
}

func (x *modeRules) typesOf(v ssa.Value, ts map[*types.Named]bool, seen map[ssa.Value]bool) {
	if seen[v] {
		return
	}
	seen[v] = true
	if m, _ := structOf(v.Type()); m != nil && x.P.NodeSet[m] {
		if c, ok := v.(*ssa.Const); !ok || c.Value != nil {
			ts[m] = true
		}
		return
	}
	switch y := v.(type) {
	case *ssa.Const:
	case *ssa.Phi:
		for _, e := range y.Edges {
			x.typesOf(e, ts, seen)
		}
	case *ssa.MakeInterface:
		x.typesOf(y.X, ts, seen)
	case *ssa.ChangeInterface:
		x.typesOf(y.X, ts, seen)
	case *ssa.Extract:
		if c, ok := y.Tuple.(*ssa.Call); ok {
			x.returnsOf(c, y.Index, ts)
			return
		}
		ts[nil] = true
	case *ssa.Call:
		x.returnsOf(y, 0, ts)
	default:
		ts[nil] = true
	}
}

func (x *modeRules) returnsOf(c *ssa.Call, idx int, ts map[*types.Named]bool) {
	g := c.Call.StaticCallee()
	if g == nil || g.Blocks == nil || idx != 0 {
		ts[nil] = true
		return
	}
	for m := range x.resultTypes(g) {
		ts[m] = true
	}
}

func (x *modeRules) resultTypes(g *ssa.Function) map[*types.Named]bool {
	if m, ok := x.vals[g]; ok {
		return m
	}
	m := map[*types.Named]bool{}
	x.vals[g] = m
	seen := map[ssa.Value]bool{}
	for _, b := range g.Blocks {
		if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(rt.Results) > 0 {
			x.typesOf(rt.Results[0], m, seen)
		}
	}
	return m
}

// texts lists the constant texts stored in a field; all tells whether there are no others.
func (x *modeRules) texts(n *types.Named, field int) (cs []string, all bool) {
	all = true
	for _, f := range x.P.Funcs {
		if !x.c.e.touchesParser(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || fa.Field != field {
					continue
				}
				if m, _ := structOf(fa.X.Type()); m != n {
					continue
				}
				for _, leaf := range leaves(st.Val) {
					if c, ok := leaf.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String {
						cs = append(cs, constant.StringVal(c.Value))
					} else {
						all = false
					}
				}
			}
		}
	}
	return
}

func checkP13(P *Prog, r *Report) {
	r.rule("same", "a node writes the same items in the same order in every mode")
	r.rule("apart", "two words, names or numbers written one after the other are separated")
	r.rule("verbatim", "text given to the formatter is written as it is, nothing in between")
	r.rule("layout", "all that the formatter adds of its own is white space and indentation, and in compact mode only what separates")
	r.rule("quote", "a quoted name or string is written between the quotes it was read with")
	r.rule("kept", "a name that may have been quoted is not stored without its quotes")
	e, err := runParse(P)
	if err != nil {
		r.need(false, err.Error())
		return
	}
	recEngine = e
	x := &modeRules{P: P, r: r, c: &cover{P, e, fmtModes(P)}, edges: map[string]int8{}, vals: map[*ssa.Function]map[*types.Named]bool{}}
	if !r.need(len(x.c.modes) == 2, "the two output modes") {
		return
	}
	var ms []string
	for k := range x.c.modes {
		ms = append(ms, k)
	}
	sort.Strings(ms)
	und := []string{}
	for _, n := range P.Nodes {
		fn := P.fn("(*" + n.Obj().Name() + ").FormatSQL")
		if fn == nil {
			continue
		}
		a, b := x.write(n, x.c.modes[ms[0]]), x.write(n, x.c.modes[ms[1]])
		r.ob("same", len(a.pair)+len(b.pair))
		if a.gaveUp != "" || b.gaveUp != "" {
			und = append(und, n.Obj().Name()+": "+a.gaveUp+b.gaveUp)
			continue
		}
		x.same(n, fn, a, b, ms[0], ms[1])
		x.same(n, fn, b, a, ms[1], ms[0])
		x.apart(n, fn, a, ms[0])
		x.apart(n, fn, b, ms[1])
	}
	r.extra["undecided"] = und
	x.formatter()
	lex := r.lex(e)
	x.quotes(lex)
	x.kept()
}

func show(i string) string {
	switch {
	case i == "^":
		return "the beginning"
	case i == "$":
		return "the end"
	case strings.HasPrefix(i, "w:"):
		return "\"" + i[2:] + "\""
	case strings.HasPrefix(i, "p:"):
		return i[2:]
	}
	return i
}

func (x *modeRules) same(n *types.Named, fn *ssa.Function, a, b *joined, am, bm string) {
	var ks []string
	for k := range a.pair {
		if b.pair[k] == 0 {
			ks = append(ks, show(k[0])+" is followed by "+show(k[1]))
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		x.r.fnBad("same", fn, fn.Pos(), "%s: %s with %s but not with %s", n.Obj().Name(), k, am, bm)
	}
	ks = nil
	for k, m := range a.end {
		if maskOf(b.end, k) != m && len(ks) < 3 {
			ks = append(ks, show(k[1:]))
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		x.r.fnBad("same", fn, fn.Pos(), "%s: %s is not written as often with %s as with %s", n.Obj().Name(), k, am, bm)
	}
}

func (x *modeRules) apart(n *types.Named, fn *ssa.Function, a *joined, mode string) {
	var ks []string
	for k, b := range a.pair {
		if k[0] == "^" || k[1] == "$" || b&1 == 0 {
			continue
		}
		x.r.ob("apart", 1)
		if strings.HasPrefix(k[1], "p:") && a.rec[k[1][2:]] || strings.HasPrefix(k[0], "p:") && a.rec[k[0][2:]] {
			continue // written by the helper that is calling itself
		}
		l, f := x.edge(n, k[0], false), x.edge(n, k[1], true)
		if l&eWord == 0 || f&eWord == 0 {
			continue
		}
		if (l|f)&eMaybe != 0 || b == 3 && (k[0] == "?" || k[1] == "?" || strings.HasPrefix(k[0], "p:") || strings.HasPrefix(k[1], "p:")) {
			continue // depends on what is written
		}
		ks = append(ks, show(k[0])+" is followed by "+show(k[1])+" without white space")
	}
	sort.Strings(ks)
	for _, k := range ks {
		x.r.fnBad("apart", fn, fn.Pos(), "%s: %s (%s)", n.Obj().Name(), k, mode)
	}
}

func init() { checks["P13"] = checkP13 }
