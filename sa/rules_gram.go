package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// P12: what formatting writes is what parsing reads.
//
// The formatting method of a node gives the pairs of items (words, symbols, parts) that it writes next to
// each other. The parser functions that make or fill the node give the pairs of items that they can read
// next to each other. The first must be among the second.

type gramRules struct {
	P    *Prog
	r    *Report
	e    *Engine
	m    *modeRules
	o    *optRules
	fmts map[*types.Named]*joined

	makers  map[*types.Named]map[*ssa.Function]bool
	callers map[*ssa.Function][]*ssa.Call
	empty   map[*ssa.Function]bool
	evs     map[ssa.Instruction][]*gev
	parts   map[*ssa.Call]map[string]bool
	vk      *valueKinds
	tiers   [4]int
	occ     map[string]map[[2]string]bool
	relOf   map[*types.Named]map[int]*relation
	chOf    map[*types.Named][][2]int
}

// gev is something the parser reads: a word or symbol, any token, or a part.
type gev struct {
	k    byte // 'w' word, 'a' any token, 't' part
	text string
	typ  map[string]bool
	c    *ssa.Call
	alt  int // which of several alternatives
	i    int // place in the chain of the alternative
	next *gev
}

func (v *gev) String() string {
	switch v.k {
	case 'w':
		return v.text
	case 'a':
		if v.text != "" {
			return v.text
		}
		return "<token>"
	}
	var l []string
	for t := range v.typ {
		l = append(l, t)
	}
	sort.Strings(l)
	return "{" + strings.Join(l, "|") + "}"
}

// git is an item that is written, of a node.
type git struct {
	n *types.Named
	s string
}

// gram is what the parser reads around a node.
type gram struct {
	n      *types.Named
	own    map[*ssa.Function]bool                 // functions that make or fill the node
	region map[*ssa.Function]bool                 // and those entered from there
	core   map[*ssa.Function]bool                 // functions that make or fill the node or are given a part of it
	given  map[*ssa.Function][][2]ssa.Instruction // elsewhere: from where a part is made to where it is handed over
	on     map[*ssa.Function]map[*ssa.BasicBlock]bool
	evs    []*gev
	follow map[*gev]map[*gev]bool
	last   map[*gev]bool
	first  map[*gev]bool
	known  bool
	wide   bool
	whole  map[*ssa.Function]bool   // entered as a step
	near   map[*ssa.Function]bool   // enters one that makes or fills the node
	to     map[ssa.Instruction]bool // hands a part of the node over
}

func checkP12(P *Prog, r *Report) {
	r.rule("words", "every word and symbol that formatting a node writes is read where that node is parsed")
	r.rule("next", "two things that formatting a node writes one after the other can be read one after the other where that node is parsed")
	r.rule("ends", "what formatting a node writes last can be the last thing read where that node is parsed")
	e, err := runParse(P)
	if err != nil {
		r.need(false, err.Error())
		return
	}
	recEngine = e
	m := &modeRules{P: P, r: r, c: &cover{P, e, fmtModes(P)}, edges: map[string]int8{}, vals: map[*ssa.Function]map[*types.Named]bool{}}
	x := &gramRules{P: P, r: r, e: e, m: m, fmts: map[*types.Named]*joined{}, empty: map[*ssa.Function]bool{}, evs: map[ssa.Instruction][]*gev{}, parts: map[*ssa.Call]map[string]bool{}}
	x.o = &optRules{P: P, r: r, e: e, adv: map[*ssa.Function]bool{}, pd: map[*ssa.Function]map[*ssa.BasicBlock]*ssa.BasicBlock{}, dead: map[*ssa.Function]map[*ssa.BasicBlock]bool{}, ck: map[*ssa.If]int{}, names: map[*ssa.Function]string{}}
	x.o.tables()
	for _, f := range P.Funcs {
		if f.Blocks != nil && advances(e, f, map[*ssa.Function]bool{}) {
			x.o.adv[f] = true
		}
	}
	x.o.lookahead()
	x.vk = newValueKinds(P, e)
	P.fieldsAsFields = true
	x.index()
	x.nullable()
	var und, none []string
	nodes, pairs := 0, 0
	for _, n := range P.Nodes {
		fn := P.fn("(*" + n.Obj().Name() + ").FormatSQL")
		if fn == nil {
			continue
		}
		if len(x.makers[n]) == 0 {
			none = append(none, n.Obj().Name())
			continue
		}
		j := x.write(n)
		if j.gaveUp != "" {
			und = append(und, n.Obj().Name()+": "+j.gaveUp)
			continue
		}
		nodes++
		pairs += x.node(n, fn, j)
	}
	sort.Strings(und)
	sort.Strings(none)
	r.extra["undecided"] = und
	r.extra["not_made_by_the_parser"] = none
	r.extra["nodes_compared"] = nodes
	r.extra["pairs_compared"] = pairs
	r.extra["tiers"] = x.tiers
	r.need(nodes > 100, "the formatting methods")
}

// index finds who makes or fills each kind of node, and who calls whom.
func (x *gramRules) index() {
	x.makers = map[*types.Named]map[*ssa.Function]bool{}
	x.callers = map[*ssa.Function][]*ssa.Call{}
	for _, f := range x.P.Funcs {
		if f.Blocks == nil || !x.o.parserFn(f) || !x.e.touchesParser(f) {
			continue
		}
		d := x.o.deadBlock(f)
		for _, b := range f.Blocks {
			if d[b] {
				continue
			}
			for _, in := range b.Instrs {
				switch y := in.(type) {
				case *ssa.Alloc:
					x.made(y.Type(), f)
				case *ssa.Store:
					if fa, ok := y.Addr.(*ssa.FieldAddr); ok {
						x.made(fa.X.Type(), f)
					}
				case *ssa.Call:
					if g := y.Call.StaticCallee(); g != nil {
						x.callers[g] = append(x.callers[g], y)
					}
				}
			}
		}
	}
}

func (x *gramRules) made(t types.Type, f *ssa.Function) {
	n, _ := structOf(t)
	if n == nil || !x.P.NodeSet[n] {
		return
	}
	if x.makers[n] == nil {
		x.makers[n] = map[*ssa.Function]bool{}
	}
	x.makers[n][f] = true
}

// write is what formatting a node writes, over the shapes the parser builds.
func (x *gramRules) write(n *types.Named) *joined {
	if j, ok := x.fmts[n]; ok {
		return j
	}
	j := &joined{pair: map[[2]string]uint8{}, rec: map[string]bool{}, end: map[string]uint8{}}
	x.fmts[n] = j
	shs := x.m.c.shapesOf(n)
	if len(shs) == 0 || len(shs) > 16 {
		shs = []*shape{nil}
	}
	for _, sh := range shs {
		for ln := 0; ln < 4; ln++ {
			for _, fs := range x.m.recordShapes(n, ln) {
				m, why := x.run(n, sh, fs, ln)
				if why != "" {
					j.gaveUp = why
					return j
				}
				b := uint8(1)
				if ln == 0 {
					b = 2 // with empty lists
				}
				for k := range m.pair {
					j.pair[[2]string{unindex(k[0]), unindex(k[2])}] |= b
				}
			}
		}
	}
	return j
}

func (x *gramRules) run(n *types.Named, sh *shape, fs map[string]tfact, ln int) (*fmtMode, string) {
	var m *fmtMode
	for round := 0; round < 4; round++ {
		var t *tinterp
		t, m = fmtRunLen(x.P, n, "-", sh, x.m.c.modes["FormatModeCompact"], fs, nil, ln)
		if t.gaveUp != "" {
			return nil, t.gaveUp
		}
		more := map[string]tfact{}
		for p := range t.gate {
			if _, ok := fs[p]; !ok && x.always(n, p) {
				more[p] = tfact{z: 2}
			}
		}
		if len(more) == 0 {
			break
		}
		for k, f := range fs {
			more[k] = f
		}
		fs = more
	}
	return m, ""
}

// always tells whether what is at a path is there in every node: elements of lists are, and so are the
// fields that the parser never leaves out.
func (x *gramRules) always(n *types.Named, p string) bool {
	own, at, t := x.m.typeAt(n, p)
	if own == nil {
		return false
	}
	if strings.HasSuffix(p, "]") {
		return pointy(t)
	}
	return strings.Contains(p, ".") && x.P.NodeSet[own] && x.present(own, at)
}

func pointy(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface:
		return true
	}
	return false
}

// present: the parser never leaves the field of the node out.
func (x *gramRules) present(n *types.Named, i int) bool {
	shs := x.m.c.shapesOf(n)
	for _, sh := range shs {
		if sh.f[i]&(bN|bT) != 0 || sh.f[i]&bV == 0 {
			return false
		}
	}
	return len(shs) > 0
}

// unindex drops the numbers of list elements.
func unindex(s string) string {
	if !strings.HasPrefix(s, "p:") {
		return s
	}
	return norm(s)
}

// events lists the alternatives a call reads; each is the first of a chain. Nil: it reads nothing itself.
func (x *gramRules) events(c *ssa.Call) []*gev {
	if l, ok := x.evs[c]; ok {
		return l
	}
	var out []*gev
	chain := func(ts []string) {
		var first, last *gev
		add := func(v *gev) {
			v.c, v.alt = c, len(out)
			if last == nil {
				first = v
			} else {
				v.i = last.i + 1
				last.next = v
			}
			last = v
		}
		for _, t := range ts {
			if class(t) {
				if t == "<any>" {
					t = ""
				}
				add(&gev{k: 'a', text: t})
				continue
			}
			ws, _, _ := words(t)
			for _, w := range ws {
				add(&gev{k: 'w', text: strings.ToUpper(w)})
			}
		}
		if first == nil {
			first = &gev{k: 'a', c: c, alt: len(out)}
		}
		out = append(out, first)
	}
	g := c.Call.StaticCallee()
	switch x.o.prim(g) {
	case "consume":
		ts := x.knownAt(c.Block(), c, map[*ssa.BasicBlock]bool{})
		if ts == nil {
			chain([]string{"<any>"})
		}
		for _, t := range ts {
			chain([]string{t})
		}
	case "try", "expect", "tok":
		ts := (&posRules{}).constTexts(&c.Call)
		if len(ts) == 0 {
			ts = []string{"<any>"}
		}
		chain(ts)
	case "":
		if t := x.partOf(c); t != nil {
			out = append(out, &gev{k: 't', typ: t, c: c})
		} else if g == nil && !c.Call.IsInvoke() && x.dynReads(c) {
			out = append(out, &gev{k: 't', typ: map[string]bool{"any": true}, c: c})
		}
	}
	x.evs[c] = out
	return out
}

// dynReads: a call of a function value that may read.
func (x *gramRules) dynReads(c *ssa.Call) bool {
	if _, ok := c.Call.Value.(*ssa.Builtin); ok {
		return false
	}
	return true
}

func class(t string) bool {
	return len(t) > 2 && t[0] == '<' && t[len(t)-1] == '>'
}

// partOf: the kinds of node that a reading call gives; nil: none.
func (x *gramRules) partOf(c *ssa.Call) map[string]bool {
	if t, ok := x.parts[c]; ok {
		return t
	}
	x.parts[c] = nil
	g := c.Call.StaticCallee()
	if g == nil || !x.o.adv[g] {
		return nil
	}
	rs := g.Signature.Results()
	var out map[string]bool
	for i := 0; i < rs.Len(); i++ {
		t := rs.At(i).Type()
		for {
			sl, ok := types.Unalias(t).Underlying().(*types.Slice)
			if !ok {
				break
			}
			t = sl.Elem()
		}
		n, _ := structOf(t)
		_, iface := types.Unalias(t).Underlying().(*types.Interface)
		if n != nil && x.P.NodeSet[n] {
			if out == nil {
				out = map[string]bool{}
			}
			out[n.Obj().Name()] = true
		} else if iface && !isErrT(t) {
			if out == nil {
				out = map[string]bool{}
			}
			for k := range x.vk.res[resAt{g, i}] {
				out[k] = true
			}
		}
	}
	x.parts[c] = out
	return out
}

// knownAt: the words the current token is known to be one of, right before an instruction; nil: not known.
func (x *gramRules) knownAt(b *ssa.BasicBlock, before ssa.Instruction, seen map[*ssa.BasicBlock]bool) []string {
	i := len(b.Instrs)
	if before != nil {
		for i = 0; b.Instrs[i] != before; i++ {
		}
	}
	for i--; i >= 0; i-- {
		if c, ok := b.Instrs[i].(*ssa.Call); ok && x.moves(c) {
			return nil
		}
	}
	if seen[b] {
		return []string{}
	}
	seen[b] = true
	if len(b.Preds) == 0 {
		return nil
	}
	out := []string{}
	d := x.o.deadBlock(b.Parent())
	for _, p := range b.Preds {
		if d[p] {
			continue
		}
		if br, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok && p.Succs[0] == b && p.Succs[1] != b {
			if c, ok := br.Cond.(*ssa.Call); ok && x.o.prim(c.Call.StaticCallee()) == "match" && !x.movesAfter(p, c) {
				if ts := (&posRules{}).constTexts(&c.Call); len(ts) > 0 {
					out = append(out, ts...)
					continue
				}
			}
		}
		if br, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok && p.Succs[0] != p.Succs[1] {
			if k, ok := br.Cond.(*ssa.BinOp); ok && (k.Op == token.EQL && p.Succs[0] == b || k.Op == token.NEQ && p.Succs[1] == b) {
				if t := x.compared(k); t != "" {
					out = append(out, t)
					continue
				}
			}
		}
		ts := x.knownAt(p, nil, seen)
		if ts == nil {
			return nil
		}
		out = append(out, ts...)
	}
	return out
}

// compared: the word that the current token's text or kind is compared with.
func (x *gramRules) compared(k *ssa.BinOp) string {
	for _, p := range [][2]ssa.Value{{k.X, k.Y}, {k.Y, k.X}} {
		c, ok := p[0].(*ssa.Const)
		if !ok || c.Value == nil || c.Value.Kind() != constant.String {
			continue
		}
		if d, ok := p[1].(*ssa.Call); ok {
			switch x.o.prim(d.Call.StaticCallee()) {
			case "text", "kind":
				return constant.StringVal(c.Value)
			}
		}
	}
	return ""
}

func (x *gramRules) moves(c *ssa.Call) bool {
	g := c.Call.StaticCallee()
	if g == nil {
		_, ok := c.Call.Value.(*ssa.Builtin)
		return !ok && !c.Call.IsInvoke()
	}
	return x.o.adv[g] || x.o.prim(g) == "restore"
}

func (x *gramRules) movesAfter(b *ssa.BasicBlock, c *ssa.Call) bool {
	on := false
	for _, in := range b.Instrs {
		if d, ok := in.(*ssa.Call); ok {
			if on && x.moves(d) {
				return true
			}
			if d == c {
				on = true
			}
		}
	}
	return false
}

// nullable finds the functions that can succeed without reading anything.
func (x *gramRules) nullable() {
	for changed := true; changed; {
		changed = false
		for f := range x.o.adv {
			if x.empty[f] || f.Blocks == nil || !x.o.parserFn(f) || x.o.prim(f) != "" {
				continue
			}
			s := &gscan{x: x, skip: true, evs: map[*gev]bool{}}
			s.from(f.Blocks[0], 0, nil, 0)
			if s.ret {
				x.empty[f], changed = true, true
			}
		}
	}
}

// gscan finds what can be read next.
type gscan struct {
	x      *gramRules
	g      *gram
	skip   bool // only within the function: calls are passed over when they may be empty
	evs    map[*gev]bool
	ret    bool // a return that succeeds is reached
	done   map[gpoint]bool
	owners map[*ssa.Function]bool // returned from
}

type gpoint struct {
	b   *ssa.BasicBlock
	i   int
	try *ssa.Call
	out int
}

// from follows the ways from an instruction; try is a call whose outcome is known: 1 found, 2 not.
func (s *gscan) from(b *ssa.BasicBlock, i int, try *ssa.Call, out int) {
	if s.done == nil {
		s.done = map[gpoint]bool{}
		s.owners = map[*ssa.Function]bool{}
	}
	p := gpoint{b, i, try, out}
	if s.done[p] {
		return
	}
	s.done[p] = true
	x := s.x
	d := x.o.deadBlock(b.Parent())
	if d[b] {
		return
	}
	for ; i < len(b.Instrs); i++ {
		if s.g != nil && !s.g.relevant(b.Instrs[i]) {
			s.out(b.Parent())
			return
		}
		switch y := b.Instrs[i].(type) {
		case *ssa.Call:
			es := x.events(y)
			if s.g != nil && s.g.handsOver(y) {
				if g := y.Call.StaticCallee(); s.g.region[g] {
					s.from(g.Blocks[0], 0, nil, 0)
				}
				return
			}
			for _, v := range es {
				s.evs[v] = true
			}
			g := y.Call.StaticCallee()
			switch x.o.prim(g) {
			case "try":
				try, out = y, 2
				continue
			case "tok":
				try, out = y, 2
				continue
			case "consume", "expect":
				return
			case "":
				if len(es) == 0 && (g == nil || !x.o.adv[g]) {
					continue
				}
				if g == nil {
					return
				}
				if !s.skip && s.g.region[g] {
					s.from(g.Blocks[0], 0, nil, 0)
				}
				if !x.empty[g] {
					return
				}
			}
		case *ssa.Return:
			if !failing(y) {
				s.leave(b.Parent())
			}
			return
		case *ssa.If:
			for k, q := range b.Succs {
				if errEdge(b, k) {
					continue
				}
				if try != nil {
					if on, ok := tryOutcome(y.Cond, try); ok && (on == (out == 1)) != (k == 0) {
						continue
					}
				}
				s.from(q, 0, try, out)
			}
			return
		case *ssa.Jump:
			s.from(b.Succs[0], 0, try, out)
			return
		}
	}
}

// tryOutcome: the condition is the outcome of the call, or its negation.
func tryOutcome(v ssa.Value, c *ssa.Call) (on, ok bool) {
	switch y := v.(type) {
	case *ssa.Call:
		return true, y == c
	case *ssa.UnOp:
		if y.Op == token.NOT {
			on, ok := tryOutcome(y.X, c)
			return !on, ok
		}
	}
	return false, false
}

func (s *gscan) leave(f *ssa.Function) {
	s.ret = true
	if s.skip {
		return
	}
	if len(s.x.callers[f]) == 0 {
		s.out(f)
	}
	for _, c := range s.x.callers[f] {
		if !s.g.own[c.Parent()] {
			s.out(f)
		}
		if !s.g.region[c.Parent()] {
			continue
		}
		b := c.Block()
		for i, in := range b.Instrs {
			if in == ssa.Instruction(c) {
				s.from(b, i+1, nil, 0)
			}
		}
	}
	if s.g.wide {
		s.out(f)
	}
}

// out: what is read around the node ends here.
func (s *gscan) out(f *ssa.Function) {
	s.owners[f] = true
}

// after is what can be read right after an event.
func (g *gram) after(x *gramRules, v *gev) (map[*gev]bool, map[*ssa.Function]bool) {
	s := &gscan{x: x, g: g, evs: map[*gev]bool{}}
	if v.next != nil {
		return map[*gev]bool{v.next: true}, nil
	}
	b := v.c.Block()
	for i, in := range b.Instrs {
		if in == ssa.Instruction(v.c) {
			switch x.o.prim(v.c.Call.StaticCallee()) {
			case "try", "tok":
				s.from(b, i+1, v.c, 1)
			default:
				s.from(b, i+1, nil, 0)
			}
		}
	}
	return s.evs, s.owners
}

// relevant: an instruction of a function around the node is on a way on which the node is made, filled or given a part.
// Other functions are entered whole.
func (g *gram) relevant(in ssa.Instruction) bool {
	b := in.Block()
	f := b.Parent()
	if !g.own[f] {
		return true
	}
	if g.whole[f] {
		return true
	}
	if !g.near[f] && !g.core[f] {
		for _, w := range g.given[f] {
			if leads(w[0], in, w[1]) && leads(in, w[1], w[0]) {
				return true
			}
		}
		return false
	}
	on, ok := g.on[f]
	if !ok {
		on = map[*ssa.BasicBlock]bool{}
		var fwd, bwd func(b *ssa.BasicBlock, seen map[*ssa.BasicBlock]bool)
		fwd = func(b *ssa.BasicBlock, seen map[*ssa.BasicBlock]bool) {
			for _, s := range b.Succs {
				if !seen[s] {
					seen[s], on[s] = true, true
					fwd(s, seen)
				}
			}
		}
		bwd = func(b *ssa.BasicBlock, seen map[*ssa.BasicBlock]bool) {
			for _, s := range b.Preds {
				if !seen[s] {
					seen[s], on[s] = true, true
					bwd(s, seen)
				}
			}
		}
		sf, sb := map[*ssa.BasicBlock]bool{}, map[*ssa.BasicBlock]bool{}
		for _, b := range f.Blocks {
			if g.point(b) {
				on[b] = true
				fwd(b, sf)
				bwd(b, sb)
			}
		}
		g.on[f] = on
	}
	return on[b]
}

// handsOver: the call enters a function that makes the node, from elsewhere.
func (g *gram) handsOver(c *ssa.Call) bool {
	f := c.Parent()
	return g.to[c] && !g.core[f] && !g.whole[f] && !g.near[f]
}

// leads: the second instruction is the first one, or comes after it on some way that does not pass the third.
func leads(a, b, not ssa.Instruction) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var from func(c *ssa.BasicBlock, i int) bool
	from = func(c *ssa.BasicBlock, i int) bool {
		for _, in := range c.Instrs[i:] {
			if in == b {
				return true
			}
			if in == not {
				return false
			}
		}
		for _, s := range c.Succs {
			if !seen[s] {
				seen[s] = true
				if from(s, 0) {
					return true
				}
			}
		}
		return false
	}
	if a == b {
		return true
	}
	for i, in := range a.Block().Instrs {
		if in == a {
			return from(a.Block(), i+1)
		}
	}
	return false
}

// point: the block makes or fills the node, or enters a function that does.
func (g *gram) point(b *ssa.BasicBlock) bool {
	is := func(t types.Type) bool {
		m, _ := structOf(t)
		return m == g.n
	}
	for _, in := range b.Instrs {
		switch y := in.(type) {
		case *ssa.Alloc:
			if is(y.Type()) {
				return true
			}
		case *ssa.FieldAddr:
			if is(y.X.Type()) {
				return true
			}
		case *ssa.Call:
			if h := y.Call.StaticCallee(); h != nil && g.core[h] {
				return true
			}
		case *ssa.MakeClosure:
			if h, ok := y.Fn.(*ssa.Function); ok && g.core[h] {
				return true
			}
		}
	}
	return false
}

// gramOf collects what is read where a node is parsed: by the functions that make or fill it and on the way
// to them from where a part of it is made; wide: by all that enter these too. Steps that read parts are
// entered when they read one of the kinds given, or all of them, one deep.
func (x *gramRules) gramOf(n *types.Named, wide bool, kinds map[string]bool, all, places bool) *gram {
	g := &gram{n: n, wide: wide, whole: map[*ssa.Function]bool{}, to: map[ssa.Instruction]bool{}, near: map[*ssa.Function]bool{}, core: map[*ssa.Function]bool{}, given: map[*ssa.Function][][2]ssa.Instruction{}, on: map[*ssa.Function]map[*ssa.BasicBlock]bool{}, own: map[*ssa.Function]bool{}, region: map[*ssa.Function]bool{}, follow: map[*gev]map[*gev]bool{}, last: map[*gev]bool{}}
	type pk struct {
		f *ssa.Function
		i int
	}
	params := map[pk]bool{}
	var origin func(v ssa.Value, to ssa.Instruction, seen map[ssa.Value]bool)
	param := func(f *ssa.Function, i int) {
		if params[pk{f, i}] {
			return
		}
		params[pk{f, i}] = true
		g.own[f] = true
		for _, c := range x.callers[f] {
			if i < len(c.Call.Args) {
				origin(c.Call.Args[i], c, map[ssa.Value]bool{})
			}
		}
	}
	origin = func(v ssa.Value, to ssa.Instruction, seen map[ssa.Value]bool) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		if to != nil {
			g.to[to] = true
		}
		if in, ok := v.(ssa.Instruction); ok && to != nil && in.Parent() == to.Parent() {
			g.given[in.Parent()] = append(g.given[in.Parent()], [2]ssa.Instruction{in, to})
			g.own[in.Parent()] = true
		}
		switch y := v.(type) {
		case *ssa.Parameter:
			if i := paramIndex(y); i > 0 || y.Parent().Signature.Recv() == nil {
				if f := y.Parent(); to != nil {
					g.given[f] = append(g.given[f], [2]ssa.Instruction{f.Blocks[0].Instrs[0], to})
					g.own[f] = true
				}
				// of a place, only what is before a call of a maker counts
				if _, place := y.Type().Underlying().(*types.Basic); !place || places || x.makers[n][y.Parent()] {
					param(y.Parent(), i)
				}
			}
		case *ssa.Phi:
			for _, e := range y.Edges {
				origin(e, to, seen)
			}
		case *ssa.Extract:
			origin(y.Tuple, to, seen)
		case *ssa.MakeInterface:
			origin(y.X, to, seen)
		case *ssa.ChangeInterface:
			origin(y.X, to, seen)
		case *ssa.TypeAssert:
			origin(y.X, to, seen)
		case *ssa.Convert:
			origin(y.X, to, seen)
		case *ssa.BinOp:
			origin(y.X, to, seen)
			origin(y.Y, to, seen)
		case *ssa.UnOp:
			if fa, ok := y.X.(*ssa.FieldAddr); ok {
				origin(fa.X, to, seen)
			}
		}
	}
	for f := range x.makers[n] {
		g.own[f] = true
		g.core[f] = true
		if wide {
			for _, c := range x.callers[f] {
				g.own[c.Parent()], g.near[c.Parent()] = true, true
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				if m, _ := structOf(fa.X.Type()); m == n {
					origin(st.Val, nil, map[ssa.Value]bool{})
					origin(fa.X, nil, map[ssa.Value]bool{})
				}
			}
		}
	}
	var enter func(f *ssa.Function, depth int)
	at := map[*ssa.Function]int{}
	enter = func(f *ssa.Function, depth int) {
		if d, ok := at[f]; ok && d >= depth {
			return
		}
		at[f] = depth
		g.region[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok || !g.relevant(c) {
					continue
				}
				h := c.Call.StaticCallee()
				if h == nil || h.Blocks == nil || !x.o.adv[h] || x.o.prim(h) != "" || !x.o.parserFn(h) {
					continue
				}
				ks := x.partOf(c)
				step := func(depth int) {
					if !g.core[h] && !g.whole[h] {
						g.whole[h] = true
						delete(at, h)
					}
					enter(h, depth)
				}
				if ks == nil || x.passesOn(h, g) {
					step(depth)
				} else if depth > 0 {
					ok := all && concrete(h)
					for k := range ks {
						ok = ok || kinds[k]
					}
					if ok {
						step(depth - 1)
					}
				}
			}
		}
	}
	for f := range g.own {
		enter(f, 1)
	}
	for f := range g.region {
		d := x.o.deadBlock(f)
		for _, b := range f.Blocks {
			if d[b] {
				continue
			}
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok && g.relevant(c) && !g.handsOver(c) {
					for _, v := range x.events(c) {
						for ; v != nil; v = v.next {
							g.evs = append(g.evs, v)
						}
					}
				}
			}
		}
	}
	return g
}

// next is what can be read right after an event; whether it can be the last one is noted.
func (x *gramRules) next(g *gram, v *gev) map[*gev]bool {
	if fo, ok := g.follow[v]; ok {
		return fo
	}
	fo, owners := g.after(x, v)
	g.follow[v] = fo
	for f := range owners {
		if g.own[f] {
			g.last[v] = true
		}
	}
	return fo
}

// kindsOf: the kinds of node an item can be; text: it is (also) text.
func (x *gramRules) kindsOf(it git) (kinds map[string]bool, text bool) {
	kinds = map[string]bool{}
	own, at, t := x.m.typeAt(it.n, it.s[2:])
	if own == nil {
		return nil, true
	}
	if m, _ := structOf(t); m != nil && x.P.NodeSet[m] {
		kinds[m.Obj().Name()] = true
		return kinds, false
	}
	if _, ok := t.Underlying().(*types.Interface); ok {
		for k := range x.vk.field[fieldAt{own, at}] {
			kinds[k] = true
		}
		return kinds, false
	}
	// the text of a part: reading the part reads it
	path := it.s[2:]
	for {
		i := strings.LastIndexByte(path, '.')
		if i < 0 {
			break
		}
		path = path[:i]
		if _, _, t := x.m.typeAt(it.n, path); t != nil {
			if m, _ := structOf(t); m != nil && x.P.NodeSet[m] {
				kinds[m.Obj().Name()] = true
			}
		}
	}
	return kinds, true
}

// hasText: nodes of the kind record a text, which may be taken from them.
func (x *gramRules) hasText(k string) bool {
	for _, n := range x.P.Nodes {
		if n.Obj().Name() != k {
			continue
		}
		st := n.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if b, ok := st.Field(i).Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				return true
			}
		}
	}
	return k == "any"
}

// matches: the event may be reading what the item writes.
func (x *gramRules) matches(it git, v *gev) bool {
	if strings.HasPrefix(it.s, "w:") {
		return v.k == 'a' && v.text == "" || v.k == 'w' && v.text == strings.ToUpper(it.s[2:])
	}
	if !strings.HasPrefix(it.s, "p:") {
		return true
	}
	ks, text := x.kindsOf(it)
	if v.k != 't' {
		return text
	}
	if text {
		for k := range v.typ {
			if x.hasText(k) {
				return true
			}
		}
	}
	if ks == nil || ks["any"] || v.typ["any"] {
		return true
	}
	for k := range ks {
		if v.typ[k] {
			return true
		}
	}
	return false
}

func quoteItem(s string) bool { return s == "w:'" || s == "w:`" || s == "w:\"" }

// edgeItems: what the text of a part begins (or ends) with.
func (x *gramRules) edgeItems(it git, first bool, depth int, out map[git]bool) {
	if !strings.HasPrefix(it.s, "p:") || depth == 0 {
		return
	}
	ks, _ := x.kindsOf(it)
	for _, n := range x.P.Nodes {
		if !ks[n.Obj().Name()] {
			continue
		}
		j := x.write(n)
		for p := range j.pair {
			a, o := p[0], p[1]
			if !first {
				a, o = o, a
			}
			if first && a != "^" || !first && a != "$" || o == "^" || o == "$" {
				continue
			}
			k := git{n, o}
			if !out[k] {
				out[k] = true
				x.edgeItems(k, first, depth-1, out)
			}
		}
	}
}

func symbol(s string) bool {
	if !strings.HasPrefix(s, "w:") {
		return false
	}
	c := []rune(s[2:])[0]
	return c != '_' && !unicode.IsLetter(c) && !unicode.IsDigit(c)
}

// reading: the events that may be reading the item (or the part of it that borders on its neighbour).
func (x *gramRules) reading(g *gram, it git, first bool) []*gev {
	var out []*gev
	direct := false
	for _, v := range g.evs {
		if x.matches(it, v) {
			out = append(out, v)
			direct = true
		}
	}
	if !direct && strings.HasPrefix(it.s, "w:") && !symbol(it.s) {
		// a word that is read as a name
		for _, v := range g.evs {
			if v.k == 'a' && (v.text == "<ident>" || v.text == "<keyword>") {
				out = append(out, v)
			}
		}
	}
	if strings.HasPrefix(it.s, "p:") {
		ks, _ := x.kindsOf(it)
		for _, n := range x.P.Nodes {
			if n != g.n && ks[n.Obj().Name()] {
				for f := range x.makers[n] {
					if g.core[f] {
						direct = false // the part is put together here
					}
				}
			}
		}
		edge := map[git]bool{}
		x.edgeItems(it, first, 3, edge)
		for k := range edge {
			if direct && !(g.wide && symbol(k.s) || first && strings.HasPrefix(k.s, "w:")) {
				continue
			}
			for _, v := range g.evs {
				if x.matches(k, v) {
					out = append(out, v)
				}
			}
		}
	}
	return out
}

// concrete: no result is an interface, but for the error.
func concrete(h *ssa.Function) bool {
	rs := h.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		if _, ok := types.Unalias(rs.At(i).Type()).Underlying().(*types.Interface); ok && !isErrT(rs.At(i).Type()) {
			return false
		}
	}
	return true
}

// passesOn: a reading step gives a list, or a part that it does not make itself.
func (x *gramRules) passesOn(h *ssa.Function, g *gram) bool {
	rs := h.Signature.Results()
	if !concrete(h) {
		for _, c := range x.callers[h] {
			if !g.own[c.Parent()] {
				return false
			}
		}
		return true
	}
	some := false
	for i := 0; i < rs.Len(); i++ {
		t := rs.At(i).Type()
		if _, ok := types.Unalias(t).Underlying().(*types.Slice); ok {
			return true
		}
		if n, _ := structOf(t); n != nil && x.P.NodeSet[n] {
			if some = true; x.makers[n][h] {
				return false
			}
		} else if _, ok := types.Unalias(t).Underlying().(*types.Interface); ok && !isErrT(t) {
			return false
		}
	}
	return some
}

// around is the least that is read around the node that has all the words formatting it writes.
func (x *gramRules) around(n *types.Named, j *joined) *gram {
	kinds := map[string]bool{}
	items := map[string]bool{}
	for p := range j.pair {
		for _, s := range p {
			if s != "^" && s != "$" && s != "?" && !quoteItem(s) {
				items[s] = true
			}
			if strings.HasPrefix(s, "p:") {
				path := s[2:]
				for {
					i := strings.LastIndexByte(path, '.')
					if i < 0 {
						break
					}
					path = path[:i]
					if _, _, t := x.m.typeAt(n, path); t != nil {
						if m, _ := structOf(t); m != nil && x.P.NodeSet[m] {
							kinds[m.Obj().Name()] = true
						}
					}
				}
			}
		}
	}
	var g *gram
	for tier := 0; tier < 4; tier++ {
		g = x.gramOf(n, tier >= 3, kinds, tier >= 2, tier >= 1)
		all := true
		for s := range items {
			if len(x.reading(g, git{n, s}, true)) == 0 {
				all = false
			}
		}
		x.tiers[tier]++
		if all {
			break
		}
	}
	return g
}

func (x *gramRules) node(n *types.Named, fn *ssa.Function, j *joined) int {
	g := x.around(n, j)
	name := n.Obj().Name()
	var ps [][2]string
	seen := map[[2]string]bool{}
	for p := range j.pair {
		if !seen[p] {
			seen[p] = true
			ps = append(ps, p)
		}
	}
	sort.Slice(ps, func(a, b int) bool { return ps[a][0]+"\x00"+ps[a][1] < ps[b][0]+"\x00"+ps[b][1] })
	unread := map[string]bool{}
	for _, p := range ps {
		for _, s := range p {
			if s == "^" || s == "$" || s == "?" || quoteItem(s) || unread[s] || !strings.HasPrefix(s, "w:") {
				continue
			}
			if len(x.reading(g, git{n, s}, true)) == 0 {
				unread[s] = true
				x.r.bad("words", name, fn.Pos(), "writes %s, which is not read where %s is parsed", s[2:], name)
			}
		}
	}
	c := 0
	for _, p := range ps {
		a, b := p[0], p[1]
		if j.pair[p] == 2 {
			continue // only when a list is empty
		}
		if a == "^" || a == "?" || b == "?" || quoteItem(a) || quoteItem(b) || unread[a] || unread[b] {
			continue
		}
		c++
		ok := false
		as := x.reading(g, git{n, a}, false)
		if b == "$" {
			x.r.ob("ends", 1)
			for _, v := range as {
				if x.next(g, v); g.last[v] {
					ok = true
				}
			}
			if !ok && x.possible(n, p) {
				x.r.bad("ends", name, fn.Pos(), "may end with %s, which is not the end where %s is parsed", itemText(a), name)
			}
			continue
		}
		x.r.ob("next", 1)
		bs := map[*gev]bool{}
		for _, v := range x.reading(g, git{n, b}, true) {
			bs[v] = true
		}
		for _, v := range as {
			for w := range x.next(g, v) {
				if bs[w] {
					ok = true
				}
			}
		}
		if !ok && x.possible(n, p) {
			x.r.bad("next", name, fn.Pos(), "writes %s and then %s, which are not read in this order where %s is parsed", itemText(a), itemText(b), name)
		}
	}
	return c
}

// relation: what is known of a field when another one is set, from where the parser sets them.
type relation struct {
	with, without map[int]bool
}

// relations finds, for each field of a node, the fields that are always set with it, and never.
func (x *gramRules) relations(n *types.Named) map[int]*relation {
	type put struct {
		st   *ssa.Store
		sure bool
	}
	puts := map[int][]put{}
	for f := range x.makers[n] {
		d := x.o.deadBlock(f)
		for _, b := range f.Blocks {
			if d[b] {
				continue
			}
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				if m, _ := structOf(fa.X.Type()); m != n {
					continue
				}
				if c, ok := st.Val.(*ssa.Const); ok && (c.Value == nil || constZero(c)) {
					continue
				}
				puts[fa.Field] = append(puts[fa.Field], put{st, sureValue(st.Val)})
			}
		}
	}
	out := map[int]*relation{}
	at := func(i int) *relation {
		if out[i] == nil {
			out[i] = &relation{map[int]bool{}, map[int]bool{}}
		}
		return out[i]
	}
	for a, as := range puts {
		for b, bs := range puts {
			if a == b {
				continue
			}
			apart, all := true, true
			for _, p := range as {
				before := false
				for _, q := range bs {
					if p.st.Parent() != q.st.Parent() || (meets(p.st, q.st) || meets(q.st, p.st)) && bothSet(p.st.Val, q.st.Val, 8) {
						apart = false
					}
					if p.st.Parent() == q.st.Parent() && q.sure && precedes(q.st, p.st) {
						before = true
					}
				}
				if !before {
					all = false
				}
			}
			if apart {
				at(a).without[b] = true
			}
			if all {
				at(a).with[b] = true
			}
		}
	}
	return out
}

// bothSet: two values can be something at the same time.
func bothSet(a, b ssa.Value, depth int) bool {
	for _, v := range []ssa.Value{a, b} {
		if c, ok := v.(*ssa.Const); ok && (c.Value == nil || constZero(c)) {
			return false
		}
	}
	if depth == 0 {
		return true
	}
	p, ok1 := a.(*ssa.Phi)
	q, ok2 := b.(*ssa.Phi)
	if ok1 && ok2 && p.Block() == q.Block() {
		for i := range p.Edges {
			if bothSet(p.Edges[i], q.Edges[i], depth-1) {
				return true
			}
		}
		return false
	}
	return true
}

// choices are pairs of fields one of which is always set.
func (x *gramRules) choices(n *types.Named) (out [][2]int) {
	type fn struct {
		from []*ssa.BasicBlock
		set  map[int]map[*ssa.BasicBlock]bool
	}
	var fns []fn
	fields := map[int]bool{}
	for f := range x.makers[n] {
		m := fn{set: map[int]map[*ssa.BasicBlock]bool{}}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch y := in.(type) {
				case *ssa.Alloc:
					if t, _ := structOf(y.Type()); t == n && !x.o.deadBlock(f)[b] {
						m.from = append(m.from, b)
					}
				case *ssa.Store:
					fa, ok := y.Addr.(*ssa.FieldAddr)
					if !ok {
						continue
					}
					if t, _ := structOf(fa.X.Type()); t == n && pointy(y.Val.Type()) && x.neverNil(y.Val, map[ssa.Value]bool{}) {
						if m.set[fa.Field] == nil {
							m.set[fa.Field] = map[*ssa.BasicBlock]bool{}
						}
						m.set[fa.Field][b] = true
						fields[fa.Field] = true
					}
				}
			}
		}
		if len(m.from) > 0 {
			fns = append(fns, m)
		}
	}
	avoid := func(m fn, a, b int) bool {
		seen := map[*ssa.BasicBlock]bool{}
		var to func(q *ssa.BasicBlock) bool
		to = func(q *ssa.BasicBlock) bool {
			if seen[q] || m.set[a][q] || m.set[b][q] {
				return false
			}
			seen[q] = true
			if rt, ok := q.Instrs[len(q.Instrs)-1].(*ssa.Return); ok {
				return !failing(rt)
			}
			for _, s := range x.o.succs(q) {
				if to(s) {
					return true
				}
			}
			return false
		}
		for _, q := range m.from {
			if to(q) {
				return true
			}
		}
		return false
	}
	for a := range fields {
		for b := range fields {
			if a >= b {
				continue
			}
			all := len(fns) > 0
			for _, m := range fns {
				if avoid(m, a, b) {
					all = false
					break
				}
			}
			if all {
				out = append(out, [2]int{a, b})
			}
		}
	}
	return out
}

// neverNil: the value is there whenever the step that gives it succeeded.
func (x *gramRules) neverNil(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	ofCall := func(c *ssa.Call, i int) bool {
		g := c.Call.StaticCallee()
		if g == nil || g.Blocks == nil {
			return false
		}
		for _, b := range g.Blocks {
			if x.o.deadBlock(g)[b] {
				continue
			}
			if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && !failing(rt) {
				if i >= len(rt.Results) || !x.neverNil(rt.Results[i], seen) {
					return false
				}
			}
		}
		return true
	}
	switch y := v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.MakeInterface:
		return x.neverNil(y.X, seen)
	case *ssa.ChangeInterface:
		return x.neverNil(y.X, seen)
	case *ssa.Phi:
		for _, e := range y.Edges {
			if !x.neverNil(e, seen) {
				return false
			}
		}
		return true
	case *ssa.Extract:
		if c, ok := y.Tuple.(*ssa.Call); ok {
			return ofCall(c, y.Index)
		}
	case *ssa.Call:
		return ofCall(y, 0)
	}
	return false
}

// meets: b can be executed after a.
func meets(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		for _, in := range a.Block().Instrs {
			if in == a {
				return true
			}
			if in == b {
				break
			}
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	var from func(q *ssa.BasicBlock) bool
	from = func(q *ssa.BasicBlock) bool {
		for _, s := range q.Succs {
			if s == b.Block() {
				return true
			}
			if !seen[s] {
				seen[s] = true
				if from(s) {
					return true
				}
			}
		}
		return false
	}
	return from(a.Block())
}

func constZero(c *ssa.Const) bool {
	switch c.Value.Kind() {
	case constant.Bool:
		return !constant.BoolVal(c.Value)
	case constant.String:
		return constant.StringVal(c.Value) == ""
	}
	return false
}

// sureValue: the value is not zero: the text of a token is not, nor is a new node.
func sureValue(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Const, *ssa.Alloc:
		return true
	}
	b, ok := v.Type().Underlying().(*types.Basic)
	return ok && b.Kind() == types.String
}

func (x *gramRules) rels(n *types.Named) map[int]*relation {
	if x.relOf == nil {
		x.relOf = map[*types.Named]map[int]*relation{}
	}
	if _, ok := x.relOf[n]; !ok {
		x.relOf[n] = x.relations(n)
	}
	return x.relOf[n]
}

func (x *gramRules) choicesOf(n *types.Named) [][2]int {
	if x.chOf == nil {
		x.chOf = map[*types.Named][][2]int{}
	}
	if _, ok := x.chOf[n]; !ok {
		x.chOf[n] = x.choices(n)
	}
	return x.chOf[n]
}

// possible: no field rules the pair out, neither when it is set nor when it is not.
func (x *gramRules) possible(n *types.Named, p [2]string) bool {
	st := n.Underlying().(*types.Struct)
	rel := x.rels(n)
	name := func(i int) string { return st.Field(i).Name() }
	for _, c := range x.choicesOf(n) {
		a, b := name(c[0]), name(c[1])
		if !x.occurs(n, p, map[string]tfact{a: {z: 2}}) && !x.occurs(n, p, map[string]tfact{a: {z: 1}, b: {z: 2}}) {
			return false
		}
	}
	for a, r := range rel {
		set := map[string]tfact{name(a): {z: 2}}
		for b := range r.with {
			set[name(b)] = tfact{z: 2}
		}
		for b := range r.without {
			set[name(b)] = tfact{z: 1}
		}
		unset := map[string]tfact{name(a): {z: 1}}
		for b, q := range rel {
			if q.with[a] {
				unset[name(b)] = tfact{z: 1}
			}
		}
		if !x.occurs(n, p, set) && !x.occurs(n, p, unset) {
			return false
		}
	}
	return true
}

// occurs: the pair is written in a state in which the facts hold.
func (x *gramRules) occurs(n *types.Named, p [2]string, facts map[string]tfact) bool {
	var l []string
	for k, f := range facts {
		l = append(l, fmt.Sprint(k, "=", f.z))
	}
	sort.Strings(l)
	key := n.Obj().Name() + ":" + strings.Join(l, ",")
	if x.occ == nil {
		x.occ = map[string]map[[2]string]bool{}
	}
	ps, ok := x.occ[key]
	if !ok {
		ps = map[[2]string]bool{}
		for ln := 0; ln < 4 && ps != nil; ln++ {
			for _, fs := range x.m.recordShapes(n, ln) {
				g := map[string]tfact{}
				for k, f := range fs {
					g[k] = f
				}
				for k, f := range facts {
					g[k] = f
				}
				m, why := x.run(n, nil, g, ln)
				if why != "" {
					ps = nil
					break
				}
				for k := range m.pair {
					ps[[2]string{unindex(k[0]), unindex(k[2])}] = true
				}
			}
		}
		x.occ[key] = ps
	}
	return ps == nil || ps[p]
}

func itemText(s string) string {
	if len(s) > 2 {
		return s[2:]
	}
	return s
}

func init() { checks["P12"] = checkP12 }
