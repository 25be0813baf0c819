package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P14: optional words that are read leave a mark in the tree.
//
// For every branch of the parser that depends on the input, the ways from the branch to the place where
// they meet again are enumerated. Each way has the words it reads and the mark it leaves: what is stored,
// returned, appended or carried past the meeting place, with tokens replaced by the words they are known
// to be. Two ways with different words must not leave the same mark.

const (
	optPaths = 6000
	optSteps = 400000
	optDepth = 5
)

type optRules struct {
	P     *Prog
	r     *Report
	e     *Engine
	adv   map[*ssa.Function]bool
	pd    map[*ssa.Function]map[*ssa.BasicBlock]*ssa.BasicBlock
	dead  map[*ssa.Function]map[*ssa.BasicBlock]bool
	ck    map[*ssa.If]int
	noise map[string]bool
	same  map[string]string
	ways  int
	data  bool // only what is kept as a value counts
	names map[*ssa.Function]string
}

// hv is a symbolic value.
type hv struct {
	op   string
	a    []*hv
	cell int // an object made on the way
	tok  int // a token: the number of words read before it
}

type optState struct {
	env   map[ssa.Value]*hv
	words []string
	kept0 bool // the text of the first word was taken before the branch and is kept
	pos   string
	neg   map[string]bool
	cells []map[string]*hv
	ctype []string
	slots map[string]*hv
	truth map[string]bool
	parts map[string]int
	fx    []*hv
	seen  map[*ssa.BasicBlock]int
	lead  string // the outcome at the branch itself
	marks []string
	was   []string
	none  map[string]bool // steps that found nothing
}

func newOptState() *optState {
	return &optState{env: map[ssa.Value]*hv{}, neg: map[string]bool{}, slots: map[string]*hv{}, truth: map[string]bool{}, parts: map[string]int{}, seen: map[*ssa.BasicBlock]int{}, none: map[string]bool{}}
}

func (s *optState) clone() *optState {
	t := *s
	t.env = make(map[ssa.Value]*hv, len(s.env)+8)
	for k, v := range s.env {
		t.env[k] = v
	}
	t.words = append([]string{}, s.words...)
	t.neg = map[string]bool{}
	for k := range s.neg {
		t.neg[k] = true
	}
	t.cells = make([]map[string]*hv, len(s.cells))
	for i, c := range s.cells {
		m := make(map[string]*hv, len(c))
		for k, v := range c {
			m[k] = v
		}
		t.cells[i] = m
	}
	t.ctype = append([]string{}, s.ctype...)
	t.slots = map[string]*hv{}
	for k, v := range s.slots {
		t.slots[k] = v
	}
	t.truth = map[string]bool{}
	for k, v := range s.truth {
		t.truth[k] = v
	}
	t.parts = map[string]int{}
	for k, v := range s.parts {
		t.parts[k] = v
	}
	t.fx = append([]*hv{}, s.fx...)
	t.seen = map[*ssa.BasicBlock]int{}
	for k, v := range s.seen {
		t.seen[k] = v
	}
	t.marks = append([]string{}, s.marks...)
	t.was = append([]string{}, s.was...)
	t.none = map[string]bool{}
	for k := range s.none {
		t.none[k] = true
	}
	return &t
}

func (s *optState) read(w string) {
	s.words = append(s.words, w)
	s.pos, s.neg = "", map[string]bool{}
}

// way is one way through a region.
type way struct {
	lead  string
	was   []string
	words []string
	sig   string
}

type optWalk struct {
	x     *optRules
	fn    *ssa.Function
	br    *ssa.If
	join  *ssa.BasicBlock
	reg   map[*ssa.BasicBlock]bool
	outs  []*way
	steps int
	over  bool
	any   bool // also when the branch does not depend on the input
	input bool
	quiet bool
	chain map[*ssa.BasicBlock]*ssa.BasicBlock
	live  []ssa.Value // values of the region that are used after it and kept
	stack []*ssa.Function
	stop  func(in ssa.Instruction) bool
	skip  func(b *ssa.BasicBlock, k int) bool
	one   *ssa.BasicBlock // only this block is followed
	step1 string          // the branch is on what this earlier step found, which nothing else records
}

func checkP14(P *Prog, r *Report) {
	e, err := newEngine(P, "parse")
	if err != nil {
		r.need(false, err.Error())
		return
	}
	r.rule("tell-apart", "where the parser branches on the input, two ways that read different words leave different marks in what is stored, returned or carried on")
	r.rule("used", "the result of a step that reads input and reports what it found is used")
	r.rule("given", "what the caller of a step has read before and hands on is kept on every way to success")
	r.rule("text-kept", "the text of a token that is kept is not replaced by a constant on a way that does not ask about it")
	r.rule("every-way", "what such a step found is kept on every way to success on which it found something")
	x := &optRules{P: P, r: r, e: e, adv: map[*ssa.Function]bool{}, pd: map[*ssa.Function]map[*ssa.BasicBlock]*ssa.BasicBlock{}, dead: map[*ssa.Function]map[*ssa.BasicBlock]bool{}, ck: map[*ssa.If]int{}, names: map[*ssa.Function]string{}}
	x.tables()
	for _, f := range P.Funcs {
		if f.Blocks != nil && advances(e, f, map[*ssa.Function]bool{}) {
			x.adv[f] = true
		}
	}
	x.lookahead()
	n := 0
	var und []string
	for _, f := range P.Funcs {
		if f.Blocks == nil || !x.adv[f] || x.prim(f) != "" || !x.parserFn(f) {
			continue
		}
		n++
		x.used(f)
		for _, b := range f.Blocks {
			br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok || x.deadBlock(f)[b] {
				continue
			}
			w := x.region(f, br, false)
			if w == nil {
				continue
			}
			r.ob("tell-apart", 1)
			if w.over {
				und = append(und, P.pos(br.Cond.Pos())+" in "+fnName(f))
			}
			x.compare(w)
		}
	}
	sort.Strings(und)
	r.extra["parse_functions_analysed"] = n
	r.extra["ways_compared"] = x.ways
	r.extra["branches_partly_enumerated"] = und
	r.need(n > 50, "the parsing functions")
}

// lookahead removes the steps that put back all they read.
func (x *optRules) lookahead() {
	for changed := true; changed; {
		changed = false
		for f := range x.adv {
			if x.adv[f] && f != x.e.consume && !x.moves(f) {
				x.adv[f], changed = false, true
			}
		}
	}
}

// moves: f can return, without failing, with something read and not put back.
func (x *optRules) moves(f *ssa.Function) bool {
	type at struct {
		b    *ssa.BasicBlock
		read bool
	}
	seen := map[at]bool{}
	var from func(b *ssa.BasicBlock, read bool) bool
	from = func(b *ssa.BasicBlock, read bool) bool {
		if seen[at{b, read}] {
			return false
		}
		seen[at{b, read}] = true
		for _, in := range b.Instrs {
			switch y := in.(type) {
			case *ssa.Defer:
				if g := y.Call.StaticCallee(); x.prim(g) == "restore" {
					return false
				}
			case *ssa.Call:
				g := y.Call.StaticCallee()
				if x.prim(g) == "restore" {
					read = false
				} else if g != nil && x.adv[g] {
					read = true
				}
			case *ssa.Return:
				return read && !failing(y)
			}
		}
		for _, s := range b.Succs {
			if from(s, read) {
				return true
			}
		}
		return false
	}
	return from(f.Blocks[0], false)
}

func (x *optRules) tables() {
	// words that carry no meaning of their own
	x.noise = map[string]bool{"AS": true, "=": true, ",": true}
	// spellings of one word
	x.same = map[string]string{"ASCENDING": "ASC", "DESCENDING": "DESC"}
}

func (x *optRules) parserFn(f *ssa.Function) bool {
	rv := f.Signature.Recv()
	if rv == nil {
		return len(f.Params) > 0
	}
	n, _ := structOf(rv.Type())
	return n != x.e.lexerT
}

// prim names the basic reading steps.
func (x *optRules) prim(f *ssa.Function) string {
	if f == nil {
		return ""
	}
	if f == x.e.consume {
		return "consume"
	}
	rv := f.Signature.Recv()
	if rv == nil {
		return ""
	}
	n, _ := structOf(rv.Type())
	if n == x.e.parserT {
		switch f.Name() {
		case "matchKeyword", "matchTokenKind", "matchOneOfKeywords":
			return "match"
		case "tryConsumeKeywords":
			return "try"
		case "tryConsumeTokenKind":
			return "tok"
		case "expectKeyword", "expectTokenKind":
			return "expect"
		case "current":
			return "current"
		case "currentTokenString":
			return "text"
		case "currentTokenKind":
			return "kind"
		}
	}
	if n == x.e.lexerT {
		switch f.Name() {
		case "saveState":
			return "save"
		case "restoreState":
			return "restore"
		}
	}
	return ""
}

// deadBlock: blocks from which only failing returns can be reached.
func (x *optRules) deadBlock(f *ssa.Function) map[*ssa.BasicBlock]bool {
	if d, ok := x.dead[f]; ok {
		return d
	}
	good := map[*ssa.BasicBlock]bool{}
	for changed := true; changed; {
		changed = false
		for _, b := range f.Blocks {
			if good[b] {
				continue
			}
			ok := false
			switch t := b.Instrs[len(b.Instrs)-1].(type) {
			case *ssa.Return:
				ok = !failing(t)
			default:
				for i, s := range b.Succs {
					if good[s] && !errEdge(b, i) {
						ok = true
					}
				}
			}
			if ok {
				good[b], changed = true, true
			}
		}
	}
	d := map[*ssa.BasicBlock]bool{}
	for _, b := range f.Blocks {
		if !good[b] {
			d[b] = true
		}
	}
	x.dead[f] = d
	return d
}

// failing: the return gives back an error that was made or passed on.
func failing(rt *ssa.Return) bool {
	n := len(rt.Results)
	if n == 1 && isErrT(rt.Results[0].Type()) {
		switch v := rt.Results[0].(type) {
		case *ssa.Const, *ssa.Phi:
			return false
		case *ssa.MakeInterface:
			return true
		case *ssa.Call:
			g := v.Call.StaticCallee()
			return g != nil && (g.Pkg == nil || g.Pkg != rt.Parent().Pkg || g.Name() == "wrapError")
		}
		return false
	}
	if n >= 2 {
		if y, ok := rt.Results[n-1].(*ssa.Extract); ok {
			v := rt.Results[0]
			for {
				switch m := v.(type) {
				case *ssa.MakeInterface:
					v = m.X
					continue
				case *ssa.ChangeInterface:
					v = m.X
					continue
				}
				break
			}
			if z, ok := v.(*ssa.Extract); ok && z.Tuple == y.Tuple {
				return false // all that a step gave
			}
		}
	}
	return returnsError(rt)
}

// errEdge: the way is taken when a step failed.
func errEdge(b *ssa.BasicBlock, i int) bool {
	br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	k, ok := br.Cond.(*ssa.BinOp)
	if !ok || !isErrT(k.X.Type()) && !isErrT(k.Y.Type()) {
		return false
	}
	switch k.Op {
	case token.NEQ:
		return i == 0
	case token.EQL:
		return i == 1
	}
	return false
}

func (x *optRules) succs(b *ssa.BasicBlock) (out []*ssa.BasicBlock) {
	d := x.deadBlock(b.Parent())
	for i, s := range b.Succs {
		if !errEdge(b, i) && !d[s] {
			out = append(out, s)
		}
	}
	return
}

// ipdom: the block where all ways from b that succeed meet again (nil: only at the end).
func (x *optRules) ipdom(b *ssa.BasicBlock) *ssa.BasicBlock {
	f := b.Parent()
	m, ok := x.pd[f]
	if !ok {
		m = map[*ssa.BasicBlock]*ssa.BasicBlock{}
		x.pd[f] = m
		var live []*ssa.BasicBlock
		d := x.deadBlock(f)
		for _, q := range f.Blocks {
			if !d[q] {
				live = append(live, q)
			}
		}
		all := map[*ssa.BasicBlock]bool{}
		for _, q := range live {
			all[q] = true
		}
		post := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
		for _, q := range live {
			if _, ok := q.Instrs[len(q.Instrs)-1].(*ssa.Return); ok {
				post[q] = map[*ssa.BasicBlock]bool{q: true}
			} else {
				post[q] = all
			}
		}
		for changed := true; changed; {
			changed = false
			for i := len(live) - 1; i >= 0; i-- {
				q := live[i]
				ss := x.succs(q)
				if len(ss) == 0 {
					continue
				}
				n := map[*ssa.BasicBlock]bool{q: true}
				for k := range post[ss[0]] {
					in := true
					for _, s := range ss[1:] {
						if !post[s][k] {
							in = false
						}
					}
					if in {
						n[k] = true
					}
				}
				if len(n) != len(post[q]) {
					post[q], changed = n, true
				}
			}
		}
		for _, q := range live {
			// the closest: the one whose own post-dominators are all the others
			for k := range post[q] {
				if k != q && len(post[k]) == len(post[q])-1 {
					m[q] = k
				}
			}
		}
	}
	return m[b]
}

// region enumerates the ways from a branch to where they meet.
func (x *optRules) region(f *ssa.Function, br *ssa.If, any bool) *optWalk {
	b := br.Block()
	var one *ssa.BasicBlock
	if ss := x.succs(b); len(ss) == 1 && !any {
		one = ss[0] // one of several words is required
	} else if len(ss) < 2 {
		return nil
	}
	w := &optWalk{x: x, fn: f, br: br, join: x.ipdom(b), reg: map[*ssa.BasicBlock]bool{}, any: any}
	work := x.succs(b)
	for len(work) > 0 {
		q := work[len(work)-1]
		work = work[:len(work)-1]
		if q == w.join || q == b || w.reg[q] {
			continue
		}
		w.reg[q] = true
		work = append(work, x.succs(q)...)
	}
	if one != nil {
		if len(one.Preds) != 1 {
			return nil
		}
		w.one, w.reg, w.join = one, map[*ssa.BasicBlock]bool{one: true}, nil
	}
	s := newOptState()
	// the straight way to the branch: what is looked at before the last reading step, and that step itself
	// when the branch may be on what it found
	chain := []*ssa.BasicBlock{b}
	for q := b; len(q.Preds) == 1 && q.Preds[0] != b; {
		q = q.Preds[0]
		chain = append(chain, q)
	}
	type pt struct{ b, i int }
	quiet, start := pt{len(chain) - 1, 0}, pt{0, len(b.Instrs) - 1}
	n := 0
scan:
	for ci, q := range chain {
		for i := len(q.Instrs) - 1; i >= 0; i-- {
			c, ok := q.Instrs[i].(*ssa.Call)
			if !ok {
				continue
			}
			g := c.Call.StaticCallee()
			if g == nil || !x.adv[g] {
				continue
			}
			k := x.prim(g)
			if n == 1 || k == "expect" || k == "consume" {
				quiet = pt{ci, i + 1}
				break scan
			}
			n++
			start = pt{ci, i}
		}
	}
	w.quiet = true
	for ci := quiet.b; ci >= start.b; ci-- {
		q := chain[ci]
		i, end := 0, len(q.Instrs)-1
		if ci == quiet.b {
			i = quiet.i
		}
		if ci == start.b {
			end = start.i
		}
		for ; i < end; i++ {
			switch in := q.Instrs[i].(type) {
			case *ssa.Phi:
			case *ssa.Alloc:
				if _, ok := deref(in.Type()).(*types.Array); ok {
					w.step(s, in) // a list of alternatives
				}
			case *ssa.Store:
				if ia, ok := in.Addr.(*ssa.IndexAddr); ok && s.env[ia.X] != nil {
					w.step(s, in)
				}
			case *ssa.Call:
				s.env[in] = w.pure(s, in)
			default:
				w.step(s, in)
			}
		}
		if br, ok := q.Instrs[len(q.Instrs)-1].(*ssa.If); ok && ci > start.b {
			w.know(s, w.val(s, br.Cond), q.Succs[0] == chain[ci-1])
		}
	}
	w.quiet = false
	for v, h := range s.env {
		if h.op == "tok" || h.op == "text" || h.op == "kind" {
			if x.keptOutside(w, v) {
				s.kept0 = true
			}
		}
	}
	// values made on the way that are used past the meeting place
	w.live = nil
	look := func(in ssa.Instruction) {
		v, ok := in.(ssa.Value)
		if ok && v.Referrers() != nil && !x.dull(v.Type()) && x.keptOutside(w, v) {
			w.live = append(w.live, v)
		}
	}
	for _, q := range f.Blocks {
		if w.reg[q] {
			for _, in := range q.Instrs {
				look(in)
			}
		}
	}
	ran := map[ssa.Instruction]bool{}
	for ci := start.b; ci >= 0; ci-- {
		i := 0
		if ci == start.b {
			i = start.i
		}
		for ; i < len(chain[ci].Instrs); i++ {
			look(chain[ci].Instrs[i])
			ran[chain[ci].Instrs[i]] = true
		}
	}
	w.chain = map[*ssa.BasicBlock]*ssa.BasicBlock{}
	for ci := start.b; ci > 0; ci-- {
		w.chain[chain[ci]] = chain[ci-1]
	}
	if ph, ok := x.about(br.Cond).(*ssa.Phi); ok && x.flag(ph, map[ssa.Value]bool{}) {
		if !x.keptOutside(w, ph) && len(x.succs(b)) == 2 && x.decides(br) {
			w.step1 = "what was read before"
		}
	} else if c := x.found(br.Cond); c != nil && !ran[c] {
		var v ssa.Value = c
		for _, u := range *c.Referrers() {
			if e, ok := u.(*ssa.Extract); ok && e.Index == 0 {
				v = e
			}
		}
		if !x.keptOutside(w, v) && !x.noiseStep(c) {
			w.step1 = c.Call.StaticCallee().Name()
			if l := (&posRules{}).constTexts(&c.Call); len(l) > 0 {
				w.step1 += "(" + strings.Join(l, " ") + ")"
			}
		}
	}
	w.run(s, chain[start.b], start.i, nil)
	if !w.input && w.step1 == "" && !any {
		return nil
	}
	return w
}

// flag: a merge of true and false.
func (x *optRules) flag(ph *ssa.Phi, seen map[ssa.Value]bool) bool {
	if seen[ph] {
		return true
	}
	seen[ph] = true
	for _, e := range ph.Edges {
		switch y := e.(type) {
		case *ssa.Const:
			if y.Value == nil || y.Value.Kind() != constant.Bool {
				return false
			}
		case *ssa.Phi:
			if !x.flag(y, seen) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// found: the reading step whose outcome the condition is about.
func (x *optRules) found(v ssa.Value) *ssa.Call {
	c, _ := x.about(v).(*ssa.Call)
	return c
}

// about: the reading step, or the parameter, whose outcome the condition is about.
func (x *optRules) about(v ssa.Value) ssa.Value {
	for {
		switch y := v.(type) {
		case *ssa.UnOp:
			if y.Op != token.NOT {
				return nil
			}
			v = y.X
		case *ssa.BinOp:
			k, ok := y.Y.(*ssa.Const)
			if ok && isLenVal(y.X) && k.Value != nil && k.Value.ExactString() == "0" {
				v = y.X.(*ssa.Call).Call.Args[0]
				continue
			}
			if !ok || y.Op != token.EQL && y.Op != token.NEQ || x.dull(y.X.Type()) {
				return nil
			}
			if k.Value != nil && (k.Value.Kind() != constant.String || constant.StringVal(k.Value) != "") {
				return nil
			}
			v = y.X
		case *ssa.Extract:
			if y.Index != 0 {
				return nil
			}
			v = y.Tuple
		case *ssa.Call:
			g := y.Call.StaticCallee()
			if g == nil || !x.adv[g] || x.prim(g) == "consume" || x.prim(g) == "expect" {
				return nil
			}
			return y
		case *ssa.Parameter, *ssa.Phi:
			return y
		default:
			return nil
		}
	}
}

// nothing: taking the given way out of b means that root found nothing (or is false).
func (x *optRules) nothing(b *ssa.BasicBlock, k int, root ssa.Value) bool {
	br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok || x.about(br.Cond) != root {
		return false
	}
	c, on := br.Cond, k == 0
	for {
		if u, ok := c.(*ssa.UnOp); ok && u.Op == token.NOT {
			c, on = u.X, !on
			continue
		}
		break
	}
	switch c.(type) {
	case *ssa.Parameter, *ssa.Phi:
		return !on
	}
	if q, ok := c.(*ssa.BinOp); ok {
		if t, ok := q.Y.(*ssa.Const); ok && t.Value != nil && t.Value.Kind() == constant.String {
			return on == (q.Op == token.EQL)
		}
	}
	return absentEdge(b, k)
}

// everyWay: what a step found is kept on every way to a return that succeeds, unless it found nothing.
func (x *optRules) everyWay(f *ssa.Function, root ssa.Value) bool {
	v := root
	c, _ := root.(*ssa.Call)
	if c == nil {
	} else if _, ok := c.Type().(*types.Tuple); ok {
		v = nil
		for _, u := range *c.Referrers() {
			if e, ok := u.(*ssa.Extract); ok && e.Index == 0 {
				v = e
			}
		}
		if v == nil {
			return true // handed on as it is, or never looked at
		}
	}
	if x.dull(v.Type()) {
		return true
	}
	uses := map[ssa.Instruction]bool{}
	for _, u := range *v.Referrers() {
		if _, phi := u.(*ssa.Phi); !phi && x.keptUse(v, u, map[ssa.Value]bool{}) {
			uses[u] = true
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	dead := x.deadBlock(f)
	var from func(b *ssa.BasicBlock, i int) bool
	from = func(b *ssa.BasicBlock, i int) bool {
		for ; i < len(b.Instrs); i++ {
			in := b.Instrs[i]
			if uses[in] {
				return false
			}
			if br, ok := in.(*ssa.If); ok && x.about(br.Cond) == root && x.decides(br) {
				return false
			}
			if rt, ok := in.(*ssa.Return); ok {
				return !failing(rt)
			}
			if c != nil && in == ssa.Instruction(c) && i > 0 && seen[b] {
				return true // read again
			}
		}
		for k, q := range b.Succs {
			if dead[q] || errEdge(b, k) {
				continue
			}
			if x.nothing(b, k, root) {
				continue
			}
			phi := false
			for _, in := range q.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				for j, p := range q.Preds {
					if p == b && ph.Edges[j] == v && x.kept(ph, map[ssa.Value]bool{}) {
						phi = true
					}
				}
			}
			if phi || seen[q] {
				continue
			}
			seen[q] = true
			if from(q, 0) {
				return true
			}
		}
		return false
	}
	b, i := f.Blocks[0], 0
	if c != nil {
		b = c.Block()
		for b.Instrs[i] != ssa.Instruction(c) {
			i++
		}
		i++
	}
	if !from(b, i) {
		return true
	}
	// follow the ways with what is known on them
	w := &optWalk{x: x, fn: f, any: true}
	w.stop = func(in ssa.Instruction) bool {
		if c != nil && in == ssa.Instruction(c) {
			w.outs = append(w.outs, &way{}) // read again before it was kept
			return true
		}
		br, ok := in.(*ssa.If)
		return uses[in] || ok && x.about(br.Cond) == root && x.decides(br)
	}
	w.skip = func(b *ssa.BasicBlock, k int) bool {
		if x.nothing(b, k, root) {
			return true
		}
		q := b.Succs[k]
		for _, in := range q.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			for j, p := range q.Preds {
				if p == b && ph.Edges[j] == v && x.kept(ph, map[ssa.Value]bool{}) {
					return true
				}
			}
		}
		return false
	}
	s := newOptState()
	s.lead = "X"
	if c != nil {
		w.call(s, c, func(t *optState) { w.run(t, b, i, nil) })
	} else {
		w.run(s, b, i, nil)
	}
	return w.over || len(w.outs) == 0
}

// keptOutside: v is used and kept somewhere outside the region.
func (x *optRules) keptOutside(w *optWalk, v ssa.Value) bool {
	if v.Referrers() == nil {
		return false
	}
	for _, u := range *v.Referrers() {
		if w.reg[u.Block()] || u == ssa.Instruction(w.br) {
			continue
		}
		if _, phi := u.(*ssa.Phi); phi && u.Block() == w.join {
			continue // counted where the ways meet
		}
		if x.keptUse(v, u, map[ssa.Value]bool{}) {
			return true
		}
	}
	return false
}

func (x *optRules) dull(t types.Type) bool {
	if isErrT(t) || isNamed(t, x.e.posT) {
		return true
	}
	_, tup := t.(*types.Tuple)
	return tup && t.(*types.Tuple).Len() == 0
}

// kept: v reaches the tree: it is stored, returned, appended, given to a step, or decides about such a thing.
func (x *optRules) kept(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] || v.Referrers() == nil || x.dull(v.Type()) {
		return false
	}
	seen[v] = true
	for _, u := range *v.Referrers() {
		if x.keptUse(v, u, seen) {
			return true
		}
	}
	return false
}

func (x *optRules) keptUse(v ssa.Value, u ssa.Instruction, seen map[ssa.Value]bool) bool {
	switch y := u.(type) {
	case *ssa.Store:
		if y.Val != v {
			return false
		}
		switch a := y.Addr.(type) {
		case *ssa.FieldAddr:
			n, _ := structOf(a.X.Type())
			return n != x.e.parserT && n != x.e.lexerT
		case *ssa.IndexAddr:
			if al, ok := a.X.(*ssa.Alloc); ok {
				return x.kept(al, seen)
			}
			return true
		case *ssa.Alloc:
			return x.kept(a, seen)
		}
		return true
	case *ssa.Return:
		return !x.deadBlock(y.Parent())[y.Block()]
	case *ssa.FieldAddr:
		for _, q := range *y.Referrers() {
			if _, ok := q.(*ssa.UnOp); ok && x.kept(q.(ssa.Value), seen) {
				return true
			}
		}
		return false
	case *ssa.IndexAddr:
		for _, q := range *y.Referrers() {
			if _, ok := q.(*ssa.UnOp); ok && x.kept(q.(ssa.Value), seen) {
				return true
			}
		}
		return false
	case *ssa.If:
		return !x.data && x.decides(y)
	case *ssa.Call:
		if b, ok := y.Call.Value.(*ssa.Builtin); ok {
			return b.Name() == "append" && x.kept(y, seen) || b.Name() != "append" && x.kept(y, seen)
		}
		g := y.Call.StaticCallee()
		if g == nil {
			return true
		}
		if _, tup := y.Type().(*types.Tuple); tup && x.prim(g) == "" && !x.adv[g] && g.Blocks != nil && g.Pkg == y.Parent().Pkg && y.Type().(*types.Tuple).Len() == 0 {
			for i, a := range y.Call.Args { // a helper that puts it where it belongs
				if a == v && i < len(g.Params) && (x.kept(g.Params[i], seen) || filled(g.Params[i])) {
					return true
				}
			}
			return false
		}
		if x.prim(g) != "" || x.dull(y.Type()) && !x.adv[g] {
			return x.kept(y, seen)
		}
		if g.Pkg == nil || g.Pkg != y.Parent().Pkg {
			return x.kept(y, seen)
		}
		if x.adv[g] {
			for i, a := range y.Call.Args {
				if a == v && i < len(g.Params) && (x.kept(g.Params[i], seen) || filled(g.Params[i])) {
					return true
				}
			}
			return false
		}
		return x.kept(y, seen)
	case *ssa.MapUpdate, *ssa.Send, *ssa.MakeClosure:
		return true
	case ssa.Value:
		return x.kept(y, seen)
	}
	return false
}

// decides: the two sides of the branch leave different marks.
func (x *optRules) decides(br *ssa.If) bool {
	switch x.ck[br] {
	case 1, 3:
		return false
	case 2:
		return true
	}
	if len(x.succs(br.Block())) < 2 {
		x.ck[br] = 2 // the other side fails
		return true
	}
	x.ck[br] = 1
	w := x.region(br.Parent(), br, true)
	res := 3
	if w != nil {
		by := map[string]string{}
		for _, o := range w.outs {
			l := o.lead[:1]
			by[o.sig] += l
		}
		for _, l := range by {
			if !strings.Contains(l, "T") || !strings.Contains(l, "F") {
				res = 2
			}
		}
	}
	x.ck[br] = res
	return res == 2
}

func mk(op string, a ...*hv) *hv { return &hv{op: op, a: a} }

// val is the symbolic value of v.
func (w *optWalk) val(s *optState, v ssa.Value) *hv {
	if w.x.dull(v.Type()) {
		return mk("-")
	}
	switch y := v.(type) {
	case *ssa.Const:
		if y.Value == nil {
			return mk("nil")
		}
		return mk(y.Value.ExactString())
	case *ssa.Function:
		return mk("func " + y.Name())
	case *ssa.Global:
		return mk("var " + y.Name())
	}
	if h := s.env[v]; h != nil {
		return h
	}
	// a token looked at earlier
	switch y := v.(type) {
	case *ssa.Call:
		if g := y.Call.StaticCallee(); g != nil {
			switch k := w.x.prim(g); k {
			case "current", "text", "kind":
				h := &hv{op: k, tok: -1}
				if k == "current" {
					h.op = "tok"
				}
				w.x.data = true
				if w.x.kept(y, map[ssa.Value]bool{}) {
					h.tok = -2
				}
				w.x.data = false
				return h
			}
			if !w.x.adv[g] && (g.Pkg == nil || g.Pkg != y.Parent().Pkg) {
				return w.pure(s, y)
			}
		}
	case *ssa.UnOp, *ssa.FieldAddr, *ssa.Convert, *ssa.ChangeType, *ssa.BinOp:
		if w.eval(s, v.(ssa.Instruction)) != nil {
			return w.eval(s, v.(ssa.Instruction))
		}
	}
	return mk("v:" + v.Name() + "@" + v.Parent().Name())
}

func (w *optWalk) key(s *optState, h *hv) string { return w.render(s, h, 0) }

func (w *optWalk) show(s *optState, h *hv) string { return w.render(s, h, 1) }

// strOf: the constant texts of a value (one text, or a list of them).
func (w *optWalk) strOf(s *optState, h *hv) ([]string, bool) {
	if strings.HasPrefix(h.op, "\"") {
		u, err := strconv.Unquote(h.op)
		return []string{u}, err == nil
	}
	if h.op == "slice" && h.cell > 0 {
		var out []string
		c := s.cells[h.cell-1]
		for i := 0; ; i++ {
			e := c[fmt.Sprintf("[%d]", i)]
			if e == nil {
				return out, i > 0
			}
			l, ok := w.strOf(s, e)
			if !ok {
				return nil, false
			}
			out = append(out, l...)
		}
	}
	return nil, false
}

func (w *optWalk) enter(s *optState, from, to *ssa.BasicBlock, ret func(*optState, []*hv)) {
	if w.over || w.x.deadBlock(to.Parent())[to] {
		return
	}
	if ret == nil {
		if s.lead == "" {
			if w.chain[from] != to {
				return
			}
		} else if w.br != nil && (to == w.join || to == w.br.Block()) {
			w.settle(s, from, to, 0, func(t *optState) { w.finish(t, from, to, nil) })
			return
		}
	}
	if s.seen[to] >= 2 {
		return
	}
	s.seen[to]++
	w.settle(s, from, to, 0, func(t *optState) { w.inside(t, from, to, ret) })
}

// settle follows both values of what && and || gave when it is not known.
func (w *optWalk) settle(s *optState, from, to *ssa.BasicBlock, i int, k func(*optState)) {
	for ; from != nil && i < len(to.Instrs); i++ {
		ph, ok := to.Instrs[i].(*ssa.Phi)
		if !ok {
			break
		}
		lit := false
		var e ssa.Value
		for j, p := range to.Preds {
			if p == from {
				e = ph.Edges[j]
			}
			if c, ok := ph.Edges[j].(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Bool {
				lit = true
			}
		}
		if !lit || e == nil {
			continue
		}
		h := w.val(s, e)
		if h.op == "true" || h.op == "false" {
			continue
		}
		for _, on := range []bool{true, false} {
			t := s.clone()
			if w.know(t, h, on) {
				t.env[e] = mk(fmt.Sprint(on))
				w.settle(t, from, to, i+1, k)
			}
		}
		return
	}
	k(s)
}

func (w *optWalk) inside(s *optState, from, to *ssa.BasicBlock, ret func(*optState, []*hv)) {
	pi := 0
	for i, p := range to.Preds {
		if p == from {
			pi = i
		}
	}
	n := map[ssa.Value]*hv{}
	i := 0
	for ; i < len(to.Instrs); i++ {
		ph, ok := to.Instrs[i].(*ssa.Phi)
		if !ok {
			break
		}
		if from != nil {
			n[ph] = w.val(s, ph.Edges[pi])
		}
	}
	for k, v := range n {
		s.env[k] = v
	}
	w.run(s, to, i, ret)
}

func (w *optWalk) run(s *optState, b *ssa.BasicBlock, i int, ret func(*optState, []*hv)) {
	for ; i < len(b.Instrs); i++ {
		if w.over {
			return
		}
		w.steps++
		if w.steps > optSteps || len(w.outs) > optPaths {
			w.over = true
			return
		}
		if w.stop != nil && ret == nil && w.stop(b.Instrs[i]) {
			return
		}
		if w.one == b && ret == nil && i == len(b.Instrs)-1 {
			rt, _ := b.Instrs[i].(*ssa.Return)
			w.finish(s, b, nil, rt)
			return
		}
		switch in := b.Instrs[i].(type) {
		case *ssa.If:
			w.branch(s, in, ret == nil && s.lead == "" && in == w.br, func(t *optState, k int) { w.enter(t, b, b.Succs[k], ret) })
			return
		case *ssa.Jump:
			if w.skip != nil && ret == nil && w.skip(b, 0) {
				return
			}
			w.enter(s, b, b.Succs[0], ret)
			return
		case *ssa.Return:
			if failing(in) || ret == nil && s.lead == "" {
				return
			}
			if ret == nil {
				w.finish(s, b, nil, in)
				return
			}
			var out []*hv
			for _, v := range in.Results {
				out = append(out, w.val(s, v))
			}
			ret(s, out)
			return
		case *ssa.Panic:
			return
		case *ssa.Call:
			j := i + 1
			w.call(s, in, func(t *optState) { w.run(t, b, j, ret) })
			return
		case *ssa.Phi:
		default:
			w.step(s, in)
		}
	}
}

// branch follows the sides of a branch that what is known allows.
func (w *optWalk) branch(s *optState, br *ssa.If, lead bool, k func(*optState, int)) {
	h := w.val(s, br.Cond)
	if lead && w.reads(h) {
		w.input = true
	}
	b := br.Block()
	for i := 0; i < 2; i++ {
		on := i == 0
		if errEdge(b, i) || w.skip != nil && b.Parent() == w.fn && w.skip(b, i) {
			continue
		}
		var alts []string
		if m, pos := strip(h); m.op == "match" && pos == on && m.tok == len(s.words) && len(m.a) > 1 && s.pos == "" {
			for _, a := range m.a {
				alts = append(alts, a.op)
			}
		}
		if alts == nil {
			alts = []string{""}
		}
		for _, a := range alts {
			t := s.clone()
			if !w.know(t, h, on) {
				continue
			}
			if a != "" {
				if t.neg[a] {
					continue
				}
				t.pos = a
			}
			if lead {
				t.lead = "F"
				if on {
					t.lead = "T" + a
				}
				if w.step1 != "" {
					t.was = append(t.was, fmt.Sprintf("(%s: %v)", w.step1, on))
				}
			}
			k(t, i)
		}
	}
}

func strip(h *hv) (*hv, bool) {
	on := true
	for h.op == "not" {
		h, on = h.a[0], !on
	}
	return h, on
}

// reads: the value depends on the input.
func (w *optWalk) reads(h *hv) bool {
	switch {
	case h.op == "match" || h.op == "tok" || h.op == "text" || h.op == "kind" || strings.HasPrefix(h.op, "part ") || strings.HasPrefix(h.op, "peek "):
		return true
	}
	for _, a := range h.a {
		if w.reads(a) {
			return true
		}
	}
	return h.cell < 0 // decided by a step that read
}

func capWord(c string) bool { return c != "" && (c[0] >= 'A' && c[0] <= 'Z') }

// fits: whether a token known to be a may be c as well: 1 yes, 0 unknown, -1 no.
func fits(a, c string) int {
	if a == c {
		return 1
	}
	switch {
	case capWord(a) && c == "<keyword>":
		return 1
	case capWord(a) && c == "<ident>" || a == "<ident>" && (capWord(c) || c == "<keyword>") || a == "<keyword>" && (capWord(c) || c == "<ident>"):
		return 0
	}
	return -1
}

// know adds an outcome to what is known; false: it cannot be.
func (w *optWalk) know(s *optState, h *hv, on bool) bool {
	h, pos := strip(h)
	on = on == pos
	switch h.op {
	case "true":
		return on
	case "false":
		return !on
	case "match":
		k := w.key(s, h)
		if old, ok := s.truth[k]; ok {
			return old == on
		}
		if h.tok != len(s.words) {
			if h.tok < len(s.words) && s.words[h.tok] != "?" {
				best := -1
				for _, a := range h.a {
					best = max(best, fits(s.words[h.tok], a.op))
				}
				if on && best < 0 || !on && best > 0 {
					return false
				}
			}
			s.truth[k] = on
			return true
		}
		s.truth[k] = on
		if len(h.a) == 0 {
			return !on
		}
		if s.pos != "" {
			best := -1
			for _, a := range h.a {
				best = max(best, fits(s.pos, a.op))
			}
			if on && best < 0 || !on && best > 0 {
				return false
			}
			if on && best == 0 && len(h.a) == 1 && capWord(h.a[0].op) {
				s.pos = h.a[0].op
			}
			if !on {
				for _, a := range h.a {
					s.neg[a.op] = true
				}
			}
			return true
		}
		if on {
			left := 0
			for _, a := range h.a {
				if !s.neg[a.op] && !(capWord(a.op) && s.neg["<keyword>"]) {
					left++
				}
			}
			if left == 0 {
				return false
			}
			if len(h.a) == 1 {
				s.pos = h.a[0].op
			}
			return true
		}
		for _, a := range h.a {
			s.neg[a.op] = true
		}
		return true
	case "eq":
		x, y := h.a[0], h.a[1]
		if x.op == "nil" || strings.HasPrefix(x.op, "\"") {
			x, y = y, x
		}
		if y.op == "nil" {
			switch {
			case x.op == "nil":
				return on
			case x.cell > 0 || x.op == "tok" && x.tok >= 0 && x.tok < len(s.words):
				return !on
			}
		}
		if strings.HasPrefix(x.op, "\"") && strings.HasPrefix(y.op, "\"") {
			return (x.op == y.op) == on
		}
		if c, ok := w.strOf(s, y); ok && len(c) == 1 && (x.op == "text" || x.op == "kind") {
			switch {
			case x.tok == len(s.words):
				return w.know(s, &hv{op: "match", tok: x.tok, a: []*hv{mk(c[0])}}, on)
			case x.tok < 0:
				if on {
					s.was = append(s.was, "was "+c[0])
					if x.tok == -2 {
						s.marks = append(s.marks, "was "+c[0])
					}
				}
				return true
			default:
				if g := s.words[x.tok]; g != "?" && (capWord(g) || x.op == "kind") {
					f := fits(g, c[0])
					return !(on && f < 0 || !on && f > 0)
				}
				if on {
					s.words[x.tok] = c[0]
				}
				return true
			}
		}
	}
	k := w.key(s, h)
	if old, ok := s.truth[k]; ok {
		return old == on
	}
	s.truth[k] = on
	if w.reads(h) && !w.quiet {
		b := h
		if h.op == "eq" {
			b = h.a[0]
		}
		if strings.HasPrefix(b.op, "part ") && len(s.words) > 0 {
			// what the step found
			if on && h.op == "eq" && b.tok > 0 && b.tok <= len(s.words) {
				s.words[b.tok-1] = "" // it found nothing to read
				s.none[b.op] = true
			} else if h.op != "eq" {
				s.was = append(s.was, fmt.Sprintf("(%s: %v)", k, on))
			}
		}
	}
	return true
}

// eval is the value of an instruction that neither reads nor stores; nil: not one of these.
func (w *optWalk) eval(s *optState, in ssa.Instruction) *hv {
	switch y := in.(type) {
	case *ssa.UnOp:
		switch y.Op {
		case token.NOT:
			return mk("not", w.val(s, y.X))
		case token.MUL:
			a := w.val(s, y.X)
			switch {
			case a.op == "addr" && a.cell > 0:
				if v := s.cells[a.cell-1][a.a[0].op]; v != nil {
					return v
				}
				return mk("zero")
			case a.op == "addr" && a.a[1].op == "tok":
				t := a.a[1]
				switch a.a[0].op {
				case "String":
					return &hv{op: "text", tok: t.tok}
				case "Kind":
					return &hv{op: "kind", tok: t.tok}
				}
				return mk("of", a.a[0], t)
			case a.op == "cell":
				if v := s.cells[a.cell-1][""]; v != nil {
					return v
				}
				return mk("zero")
			}
			k := w.key(s, a)
			if v := s.slots[k]; v != nil {
				return v
			}
			if a.op == "addr" && a.a[0].op == "currentToken" {
				return &hv{op: "tok", tok: len(s.words)}
			}
			return mk("*", a)
		}
		return mk(y.Op.String(), w.val(s, y.X))
	case *ssa.FieldAddr:
		b := w.val(s, y.X)
		_, st := structOf(y.X.Type())
		f := mk(st.Field(y.Field).Name())
		if b.op == "cell" {
			return &hv{op: "addr", cell: b.cell, a: []*hv{f, b}}
		}
		return mk("addr", f, b)
	case *ssa.IndexAddr:
		b := w.val(s, y.X)
		i := mk("[" + w.key(s, w.val(s, y.Index)) + "]")
		if b.op == "cell" || b.op == "slice" && b.cell > 0 {
			return &hv{op: "addr", cell: b.cell, a: []*hv{i, b}}
		}
		return mk("addr", i, b)
	case *ssa.Slice:
		b := w.val(s, y.X)
		if b.op == "cell" && y.Low == nil && y.High == nil {
			return &hv{op: "slice", cell: b.cell, a: []*hv{b}}
		}
		h := mk("slice", b)
		for _, v := range []ssa.Value{y.Low, y.High} {
			if v != nil {
				h.a = append(h.a, w.val(s, v))
			}
		}
		return h
	case *ssa.BinOp:
		a, b := w.val(s, y.X), w.val(s, y.Y)
		switch y.Op {
		case token.EQL:
			return mk("eq", a, b)
		case token.NEQ:
			return mk("not", mk("eq", a, b))
		}
		return mk(y.Op.String(), a, b)
	case *ssa.Convert:
		return w.val(s, y.X)
	case *ssa.ChangeType:
		return w.val(s, y.X)
	case *ssa.ChangeInterface:
		return w.val(s, y.X)
	case *ssa.MakeInterface:
		return w.val(s, y.X)
	case *ssa.TypeAssert:
		return mk("as "+y.AssertedType.String(), w.val(s, y.X))
	case *ssa.Extract:
		t := w.val(s, y.Tuple)
		if t.op == "tuple" && y.Index < len(t.a) {
			return t.a[y.Index]
		}
		return &hv{op: fmt.Sprintf("%s.%d", t.op, y.Index), a: t.a, tok: t.tok}
	case *ssa.Field:
		_, st := structOf(y.X.Type())
		n := fmt.Sprint(y.Field)
		if st != nil {
			n = st.Field(y.Field).Name()
		}
		return mk("field "+n, w.val(s, y.X))
	case *ssa.Lookup:
		return mk("lookup", w.val(s, y.X), w.val(s, y.Index))
	case *ssa.Index:
		return mk("index", w.val(s, y.X), w.val(s, y.Index))
	}
	return nil
}

func (w *optWalk) step(s *optState, in ssa.Instruction) {
	switch y := in.(type) {
	case *ssa.Alloc:
		s.cells = append(s.cells, map[string]*hv{})
		n, _ := structOf(y.Type())
		t := ""
		if n != nil {
			t = n.Obj().Name()
		}
		s.ctype = append(s.ctype, t)
		s.env[y] = &hv{op: "cell", cell: len(s.cells)}
		return
	case *ssa.MakeSlice:
		s.env[y] = mk("nil")
		return
	case *ssa.Store:
		if w.x.dull(y.Val.Type()) {
			return
		}
		a, v := w.val(s, y.Addr), w.val(s, y.Val)
		switch {
		case a.op == "addr" && a.cell > 0:
			s.cells[a.cell-1][a.a[0].op] = v
		case a.op == "cell":
			s.cells[a.cell-1][""] = v
		default:
			if fa, ok := y.Addr.(*ssa.FieldAddr); ok {
				if n, _ := structOf(fa.X.Type()); n == w.x.e.parserT || n == w.x.e.lexerT {
					return
				}
			}
			s.slots[w.key(s, a)] = v
		}
		return
	}
	v, ok := in.(ssa.Value)
	if !ok {
		return
	}
	if h := w.eval(s, in); h != nil {
		s.env[v] = h
		return
	}
	var a []*hv
	for _, o := range in.Operands(nil) {
		if *o != nil {
			a = append(a, w.val(s, *o))
		}
	}
	s.env[v] = mk(fmt.Sprintf("%T", in), a...)
}

// pure is the value of a call that reads nothing, and of one that does before the ways begin.
func (w *optWalk) pure(s *optState, c *ssa.Call) *hv {
	var a []*hv
	for _, v := range c.Call.Args {
		a = append(a, w.val(s, v))
	}
	if b, ok := c.Call.Value.(*ssa.Builtin); ok {
		return mk(b.Name(), a...)
	}
	g := c.Call.StaticCallee()
	if g == nil {
		if c.Call.IsInvoke() {
			return mk("call "+c.Call.Method.Name(), append([]*hv{w.val(s, c.Call.Value)}, a...)...)
		}
		return mk("dyn", a...)
	}
	n := len(s.words)
	switch w.x.prim(g) {
	case "match":
		if l, ok := w.strOf(s, a[1]); ok {
			h := &hv{op: "match", tok: n}
			for _, t := range l {
				if g.Name() == "matchTokenKind" && capWord(t) {
					continue // no token is of such a kind
				}
				h.a = append(h.a, mk(t))
			}
			return h
		}
		return mk(fmt.Sprintf("peek %d match", n), a[1:]...)
	case "current":
		return &hv{op: "tok", tok: n}
	case "text":
		return &hv{op: "text", tok: n}
	case "kind":
		return &hv{op: "kind", tok: n}
	case "save":
		return &hv{op: "state", tok: n}
	}
	if g.Pkg == nil || g.Pkg != c.Parent().Pkg {
		switch g.Name() {
		case "ToUpper", "ToLower", "Clone", "TrimSpace":
			if len(a) == 1 {
				return a[0]
			}
		case "EqualFold":
			return mk("eq", a...)
		}
		return mk("call "+g.Name(), a...)
	}
	if rv := g.Signature.Recv(); rv != nil {
		if t, _ := structOf(rv.Type()); t == w.x.e.parserT || t == w.x.e.lexerT {
			return mk(fmt.Sprintf("peek %d %s", n, g.Name()), a[1:]...)
		}
	}
	return mk("call "+g.Name(), a...)
}

// small: a step whose results are not part of the tree is followed into.
func (w *optWalk) small(g *ssa.Function) bool {
	if g.Blocks == nil || len(g.Blocks) > 40 || len(w.stack) >= optDepth || len(g.AnonFuncs) > 0 {
		return false
	}
	for _, h := range w.stack {
		if h == g {
			return false
		}
	}
	rv := g.Signature.Recv()
	if rv == nil {
		return false
	}
	if n, _ := structOf(rv.Type()); n != w.x.e.parserT {
		return false
	}
	rs := g.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		t := rs.At(i).Type()
		if w.x.dull(t) {
			continue
		}
		if n, _ := structOf(t); n == w.x.e.tokenT {
			continue
		}
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&(types.IsBoolean|types.IsString) != 0 {
			continue
		}
		return false
	}
	return true
}

func (w *optWalk) call(s *optState, c *ssa.Call, k func(*optState)) {
	g := c.Call.StaticCallee()
	if g == nil || g.Pkg != c.Parent().Pkg {
		h := w.pure(s, c)
		s.env[c] = h
		if h.op == "dyn" || strings.HasPrefix(h.op, "call ") && w.x.dull(c.Type()) {
			s.fx = append(s.fx, h)
		}
		k(s)
		return
	}
	var a []*hv
	for _, v := range c.Call.Args {
		a = append(a, w.val(s, v))
	}
	n := len(s.words)
	p := w.x.prim(g)
	switch p {
	case "consume":
		t := s.pos
		if t == "" {
			t = "?"
		}
		s.read(t)
		k(s)
		return
	case "restore":
		if h := a[1]; h.op == "state" && h.tok <= n {
			s.words = s.words[:h.tok]
			s.truth = map[string]bool{}
			s.pos, s.neg = "", map[string]bool{}
		}
		k(s)
		return
	case "try", "tok", "expect":
		l, ok := w.strOf(s, a[1])
		if !ok {
			l = []string{"<" + w.key(s, a[1]) + ">"}
		}
		yes := s.clone()
		if w.know(yes, &hv{op: "match", tok: n, a: []*hv{mk(l[0])}}, true) {
			first := l[0]
			if yes.pos != "" && capWord(yes.pos) {
				first = yes.pos
			}
			yes.read(first)
			for _, t := range l[1:] {
				yes.read(t)
			}
			switch p {
			case "try":
				yes.env[c] = &hv{op: "true", cell: -1}
			case "tok":
				yes.env[c] = &hv{op: "tok", tok: n}
			default:
				yes.env[c] = mk("-")
			}
			k(yes)
		}
		if p == "expect" {
			return
		}
		no := s
		if len(l) > 1 || w.know(no, &hv{op: "match", tok: n, a: []*hv{mk(l[0])}}, false) {
			if p == "try" {
				no.env[c] = &hv{op: "false", cell: -1}
			} else {
				no.env[c] = &hv{op: "nil", cell: -1}
			}
			k(no)
		}
		return
	}
	if p != "" {
		s.env[c] = w.pure(s, c)
		k(s)
		return
	}
	if w.small(g) {
		w.stack = append(w.stack, g)
		for i, q := range g.Params {
			s.env[q] = a[i]
		}
		for _, b := range g.Blocks {
			delete(s.seen, b)
		}
		st := w.stack
		w.enter(s, nil, g.Blocks[0], func(t *optState, out []*hv) {
			old := w.stack
			w.stack = st[:len(st)-1]
			for i, o := range out {
				if o.op == "true" || o.op == "false" || o.op == "nil" {
					out[i] = &hv{op: o.op, cell: -1}
				}
			}
			switch len(out) {
			case 0:
			case 1:
				t.env[c] = out[0]
			default:
				t.env[c] = mk("tuple", out...)
			}
			k(t)
			w.stack = old
		})
		w.stack = st[:len(st)-1]
		return
	}
	if !w.x.adv[g] {
		s.env[c] = w.pure(s, c)
		if w.x.dull(c.Type()) {
			s.fx = append(s.fx, s.env[c])
		}
		k(s)
		return
	}
	name := w.x.partName(g)
	i := s.parts[name]
	s.parts[name] = i + 1
	h := mk(fmt.Sprintf("part %s#%d", name, i))
	eff := w.x.dull(c.Type())
	for j, v := range a {
		if j == 0 && g.Signature.Recv() != nil {
			continue
		}
		if j < len(g.Params) && w.x.kept(g.Params[j], map[ssa.Value]bool{}) {
			h.a = append(h.a, v)
		}
		if l, ok := w.strOf(s, v); ok {
			name += "(" + strings.Join(l, ",") + ")"
		}
		if nt, _ := structOf(c.Call.Args[j].Type()); nt != nil && w.x.P.NodeSet[nt] {
			eff = true
		}
	}
	s.read(name)
	h.tok = len(s.words)
	s.env[c] = h
	if eff {
		s.fx = append(s.fx, h)
	}
	k(s)
}

// finish records a way and the mark it leaves.
func (w *optWalk) finish(s *optState, from, to *ssa.BasicBlock, rt *ssa.Return) {
	var sig []string
	switch {
	case rt != nil:
		sig = append(sig, "return")
		for _, v := range rt.Results {
			if !w.x.dull(v.Type()) {
				sig = append(sig, w.show(s, w.val(s, v)))
			}
		}
	case to != nil && to == w.br.Block() && to != w.join:
		sig = append(sig, "again")
	}
	if to != nil {
		for i, p := range to.Preds {
			if p != from {
				continue
			}
			for j, in := range to.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				if w.x.kept(ph, map[ssa.Value]bool{}) {
					sig = append(sig, fmt.Sprintf("phi%d=%s", j, w.show(s, w.val(s, ph.Edges[i]))))
				}
			}
			break
		}
	}
	for i, v := range w.live {
		if h := s.env[v]; h != nil {
			sig = append(sig, fmt.Sprintf("val%d=%s", i, w.show(s, h)))
		}
	}
	var m []string
	for k, v := range s.slots {
		m = append(m, k+"="+w.show(s, v))
	}
	for _, h := range s.fx {
		m = append(m, w.show(s, h))
	}
	sort.Strings(m)
	sig = append(sig, m...)
	sig = append(sig, s.marks...)
	if s.kept0 && len(s.words) > 0 {
		sig = append(sig, "first="+s.words[0])
	}
	w.outs = append(w.outs, &way{lead: s.lead, words: s.words, was: s.was, sig: strings.Join(sig, "; ")})
}

func (w *optWalk) render(s *optState, h *hv, depth int) string {
	if depth > 12 {
		return "…"
	}
	switch h.op {
	case "tok", "text", "kind":
		t := "earlier"
		switch {
		case h.tok >= 0 && h.tok < len(s.words):
			t = s.words[h.tok]
		case h.tok == len(s.words):
			t = "next"
			if s.pos != "" {
				t = "next " + s.pos
			}
		}
		return h.op + "(" + t + ")"
	case "cell":
		c := s.cells[h.cell-1]
		var l []string
		for k, v := range c {
			l = append(l, k+":"+w.render(s, v, depth+1))
		}
		sort.Strings(l)
		return "&" + s.ctype[h.cell-1] + "{" + strings.Join(l, ",") + "}"
	case "match":
		var l []string
		for _, a := range h.a {
			l = append(l, a.op)
		}
		k := fmt.Sprintf("match%d(%s)", h.tok, strings.Join(l, ","))
		if t, ok := s.truth[k]; ok && depth > 0 {
			return fmt.Sprint(t)
		}
		return k
	}
	if s.none[h.op] && depth > 0 {
		return "nil"
	}
	if len(h.a) == 0 {
		return h.op
	}
	var l []string
	for _, a := range h.a {
		l = append(l, w.render(s, a, depth+1))
	}
	return h.op + "(" + strings.Join(l, ",") + ")"
}

// norm drops the words that carry no meaning.
func (x *optRules) norm(w []string) (out []string) {
	for _, t := range w {
		if t == "" || x.noise[t] {
			continue
		}
		if q := x.same[t]; q != "" {
			t = q
		}
		out = append(out, t)
	}
	return
}

func (x *optRules) compare(w *optWalk) {
	x.ways += len(w.outs)
	by := map[string][]*way{}
	var ks []string
	for _, o := range w.outs {
		if by[o.sig] == nil {
			ks = append(ks, o.sig)
		}
		by[o.sig] = append(by[o.sig], o)
	}
	type diff struct{ a, b string }
	found := map[diff]*way{}
	for _, k := range ks {
		l := by[k]
		for i, p := range l {
			for _, q := range l[i+1:] {
				if p.lead == q.lead {
					continue
				}
				a, b := x.norm(p.words), x.norm(q.words)
				for len(a) > 0 && len(b) > 0 && a[0] == b[0] {
					a, b = a[1:], b[1:]
				}
				for len(a) > 0 && len(b) > 0 && a[len(a)-1] == b[len(b)-1] {
					a, b = a[:len(a)-1], b[:len(b)-1]
				}
				a, b = append(a, p.was...), append(b, q.was...)
				d := diff{strings.Join(a, " "), strings.Join(b, " ")}
				if d.a > d.b {
					d.a, d.b = d.b, d.a
				}
				if d.a != d.b && found[d] == nil {
					found[d] = p
				}
			}
		}
	}
	// only the smallest differences: a longer one repeats them
	var ds []diff
	for d := range found {
		ds = append(ds, d)
	}
	sort.Slice(ds, func(i, j int) bool {
		li, lj := len(ds[i].a)+len(ds[i].b), len(ds[j].a)+len(ds[j].b)
		if li != lj {
			return li < lj
		}
		return ds[i].a+"|"+ds[i].b < ds[j].a+"|"+ds[j].b
	})
	for i, d := range ds {
		if i > 2 {
			break
		}
		n := d.a
		if n == "" {
			n = "nothing"
		}
		v := x.r.fnBad("tell-apart", w.fn, w.br.Cond.Pos(), "reading %s leaves the same mark as reading %s", d.b, n)
		sig := found[d].sig
		if len(sig) > 300 {
			sig = sig[:300] + "…"
		}
		v.more = append(v.more, "mark: "+sig)
	}
}

// filled: the function stores into the fields of the parameter.
func filled(q *ssa.Parameter) bool {
	for _, u := range *q.Referrers() {
		fa, ok := u.(*ssa.FieldAddr)
		if !ok {
			continue
		}
		for _, v := range *fa.Referrers() {
			if st, ok := v.(*ssa.Store); ok && st.Addr == ssa.Value(fa) {
				return true
			}
		}
	}
	return false
}

// used: a step that reports what it read is not ignored.
func (x *optRules) used(f *ssa.Function) {
	for i, q := range f.Params {
		if i == 0 && f.Signature.Recv() != nil || x.dull(q.Type()) || q.Name() == "_" {
			continue
		}
		n, _ := structOf(q.Type())
		_, iface := q.Type().Underlying().(*types.Interface)
		x.data = true
		kept := x.kept(q, map[ssa.Value]bool{})
		x.data = false
		if filled(q) || !kept && !iface && !x.P.NodeSet[n] {
			continue // a node to fill, or a switch
		}
		x.r.ob("given", 1)
		if !kept || !x.everyWay(f, q) {
			x.r.fnBad("given", f, q.Pos(), "%s is not kept on every way", q.Name())
		}
	}
	for _, b := range f.Blocks {
		if x.deadBlock(f)[b] {
			continue
		}
		for _, in := range b.Instrs {
			if ld, ok := in.(*ssa.UnOp); ok {
				x.overwritten(f, ld)
			}
			c, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			g := c.Call.StaticCallee()
			if g == nil || !x.adv[g] || x.prim(g) == "consume" || x.dull(c.Type()) {
				continue
			}
			x.r.ob("used", 1)
			l := (&posRules{}).constTexts(&c.Call)
			if x.kept(c, map[ssa.Value]bool{}) {
				x.r.ob("every-way", 1)
				if !x.everyWay(f, c) {
					x.r.fnBad("every-way", f, c.Pos(), "what %s(%s) found is not kept on every way", g.Name(), strings.Join(l, " "))
				}
				continue
			}
			if x.noiseStep(c) {
				continue
			}
			x.r.fnBad("used", f, c.Pos(), "what %s(%s) read is not kept", g.Name(), strings.Join(l, " "))
		}
	}
}

// overwritten: the text of a token that is kept is not replaced by a constant on a way that does not ask about it.
func (x *optRules) overwritten(f *ssa.Function, ld *ssa.UnOp) {
	fa, ok := ld.X.(*ssa.FieldAddr)
	if !ok || ld.Op != token.MUL {
		return
	}
	n, st := structOf(fa.X.Type())
	if n != x.e.tokenT || !isStr(st.Field(fa.Field).Type()) {
		return
	}
	for _, u := range *ld.Referrers() {
		phi, ok := u.(*ssa.Phi)
		if !ok {
			continue
		}
		x.data = true
		kept := x.kept(phi, map[ssa.Value]bool{})
		x.data = false
		if !kept {
			continue
		}
		x.r.ob("text-kept", 1)
		for i, e := range phi.Edges {
			c, isc := e.(*ssa.Const)
			from := phi.Block().Preds[i]
			if !isc || c.Value == nil || !ld.Block().Dominates(from) {
				continue
			}
			asked := false
			for _, b := range f.Blocks { // a question about the text itself, as for a word with two spellings
				if br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && ld.Block().Dominates(b) && b.Dominates(from) && madeFrom(br.Cond, ld) {
					asked = true
				}
			}
			if !asked {
				x.r.fnBad("text-kept", f, ld.Pos(), "the text of a token is replaced by %s on a way that does not ask about it", c.Value)
			}
		}
	}
}

func madeFrom(v, on ssa.Value) bool {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		if v == on {
			return true
		}
		in, ok := v.(ssa.Instruction)
		if !ok || seen[v] {
			return false
		}
		seen[v] = true
		for _, o := range in.Operands(nil) {
			if *o != nil && walk(*o) {
				return true
			}
		}
		return false
	}
	return walk(v)
}

// partName: steps that give the same kinds of node, with the same constant texts in them, count as the same.
func (x *optRules) partName(g *ssa.Function) string {
	if n, ok := x.names[g]; ok {
		return n
	}
	x.names[g] = g.Name()
	rs := g.Signature.Results()
	if rs.Len() == 0 || x.dull(rs.At(0).Type()) || g.Blocks == nil {
		return g.Name()
	}
	kinds := map[string]bool{}
	x.gives(g, 0, kinds, map[*ssa.Function]bool{})
	for _, b := range g.Blocks {
		if x.deadBlock(g)[b] {
			continue
		}
		must := true
		for _, q := range g.Blocks {
			if _, ok := q.Instrs[len(q.Instrs)-1].(*ssa.Return); ok && !x.deadBlock(g)[q] && !b.Dominates(q) {
				must = false
			}
		}
		if !must {
			continue
		}
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			k, ok := st.Val.(*ssa.Const)
			if !ok || k.Value == nil || k.Value.Kind() != constant.String {
				continue
			}
			if ia, ok := st.Addr.(*ssa.IndexAddr); ok {
				if al, ok := ia.X.(*ssa.Alloc); ok && x.toStep(al) {
					continue // a list of alternatives to read
				}
			}
			kinds["'"+constant.StringVal(k.Value)+"'"] = true
		}
	}
	var l []string
	for k := range kinds {
		l = append(l, k)
	}
	sort.Strings(l)
	if len(l) > 0 {
		x.names[g] = strings.Join(l, "|")
	}
	return x.names[g]
}

// noiseStep: the step reads only words that carry no meaning.
func (x *optRules) noiseStep(c *ssa.Call) bool {
	l := (&posRules{}).constTexts(&c.Call)
	if len(l) == 1 && l[0] == "(" && x.after(c) == "USING" {
		return true // the brackets of USING are optional
	}
	for _, t := range l {
		if !x.noise[t] {
			return false
		}
	}
	return len(l) > 0
}

// after: the word that was read right before a step, when it is always the same.
func (x *optRules) after(c *ssa.Call) string {
	b := c.Block()
	i := len(b.Instrs) - 1
	for b.Instrs[i] != ssa.Instruction(c) {
		i--
	}
	for {
		for i--; i >= 0; i-- {
			if d, ok := b.Instrs[i].(*ssa.Call); ok && x.adv[d.Call.StaticCallee()] {
				if l := (&posRules{}).constTexts(&d.Call); len(l) > 0 {
					return l[len(l)-1]
				}
				return ""
			}
		}
		if len(b.Preds) != 1 {
			return ""
		}
		b = b.Preds[0]
		i = len(b.Instrs)
	}
}

// toStep: the array is the list of words a reading step is given.
func (x *optRules) toStep(al *ssa.Alloc) bool {
	for _, u := range *al.Referrers() {
		sl, ok := u.(*ssa.Slice)
		if !ok {
			continue
		}
		for _, q := range *sl.Referrers() {
			if c, ok := q.(*ssa.Call); ok {
				if g := c.Call.StaticCallee(); g != nil && (x.prim(g) != "" || x.adv[g]) {
					return true
				}
			}
		}
	}
	return false
}

// gives collects the kinds of value a step can return.
func (x *optRules) gives(g *ssa.Function, i int, kinds map[string]bool, seen map[*ssa.Function]bool) {
	if seen[g] || g.Blocks == nil {
		return
	}
	seen[g] = true
	var val func(v ssa.Value, vs map[ssa.Value]bool)
	val = func(v ssa.Value, vs map[ssa.Value]bool) {
		if vs[v] {
			return
		}
		vs[v] = true
		if n, _ := structOf(v.Type()); n != nil {
			kinds[n.Obj().Name()] = true
			return
		}
		if _, ok := v.Type().Underlying().(*types.Interface); !ok {
			kinds[types.TypeString(v.Type(), func(*types.Package) string { return "" })] = true
			return
		}
		switch y := v.(type) {
		case *ssa.MakeInterface:
			val(y.X, vs)
		case *ssa.ChangeInterface:
			val(y.X, vs)
		case *ssa.Phi:
			for _, e := range y.Edges {
				val(e, vs)
			}
		case *ssa.Extract:
			if c, ok := y.Tuple.(*ssa.Call); ok && c.Call.StaticCallee() != nil {
				x.gives(c.Call.StaticCallee(), y.Index, kinds, seen)
			}
		case *ssa.Call:
			if h := y.Call.StaticCallee(); h != nil {
				x.gives(h, 0, kinds, seen)
			}
		case *ssa.Const:
		default:
			kinds["any"] = true
		}
	}
	for _, b := range g.Blocks {
		if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && !x.deadBlock(g)[b] && i < len(rt.Results) {
			val(rt.Results[i], map[ssa.Value]bool{})
		}
	}
}

func init() { checks["P14"] = checkP14 }
