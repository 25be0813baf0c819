package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The tree interpreter runs one method of a node type on an abstract receiver. Values are field paths
// of the receiver; one path q is tracked. Loops over a list are split into the iteration that handles
// one arbitrary but fixed element of it and the iterations that handle other elements, so that what
// holds for the tracked element holds for each.

type tkind byte

const (
	tkUnk  tkind = iota // unknown; taint lists the paths it was computed from
	tkPath              // the value at a path of the receiver
	tkAddr              // the address of a path
	tkCell              // the address of a local variable (or of a part of it)
	tkCon               // constant
	tkNil
	tkFunc // function value with bindings
	tkTup
	tkLocal // slice of a local array: els are cell names
	tkList  // slice built by append; n tells how often it holds the tracked value
	tkLen   // length of the list at a path
	tkIdx   // index of the running iteration of a loop
	tkCond  // condition: path is zero (op 0), equals c (op 1)
	tkRes   // result of an event
	tkResC  // comparison of such a result: true when it reports failure (neg: success)
	tkSpec  // formatter, visitor, callback
	tkCat   // concatenation
)

type tv struct {
	k     tkind
	p     string
	c     constant.Value
	t     types.Type
	fn    *ssa.Function
	els   []tv
	taint []string
	neg   bool
	n     int
	site  ssa.Instruction
}

func (v tv) key() string {
	switch v.k {
	case tkUnk:
		if len(v.taint) == 0 {
			return "?"
		}
		return "?(" + strings.Join(v.taint, ",") + ")"
	case tkPath, tkAddr, tkCell, tkLen, tkIdx, tkSpec:
		s := "_PACC NFTLlnicrRSk"[v.k:v.k+1] + v.p
		if v.t != nil {
			s += ":" + v.t.String()
		}
		if v.n != 0 {
			s += "+" + strconv.Itoa(v.n)
		}
		for _, e := range v.els {
			s += "," + e.key()
		}
		return s
	case tkCon:
		return "c" + v.c.ExactString()
	case tkNil:
		return "nil"
	case tkFunc:
		s := "fn " + v.fn.String()
		for _, e := range v.els {
			s += "," + e.key()
		}
		return s
	case tkTup, tkLocal, tkCat:
		s := fmt.Sprintf("%d[", v.k)
		for _, e := range v.els {
			s += e.key() + ","
		}
		return s + "]"
	case tkList:
		s := fmt.Sprintf("list%d[", v.n)
		for _, e := range v.els {
			s += e.key() + ","
		}
		return s + "]"
	case tkCond:
		s := "cond " + v.p
		if v.c != nil {
			s += "=" + v.c.ExactString()
		}
		if v.neg {
			s = "!" + s
		}
		return s
	case tkRes, tkResC:
		s := fmt.Sprintf("res%d %p", v.k, v.site)
		if v.neg {
			s = "!" + s
		}
		return s
	}
	return "??"
}

func (v tv) pathOf() (string, bool) {
	switch v.k {
	case tkPath, tkAddr:
		return v.p, true
	}
	return "", false
}

type tfact struct {
	z  int8 // 1 zero, 2 not zero
	eq string
}

// tloop is a running loop over a list.
type tloop struct {
	path  string // the list, when it is a path of the receiver
	list  *tv    // or one built by append
	start int
	left  int // iterations over the tracked element still to come
	cur   string
	isE   bool
	con   bool // runs over constants
	lenK  string
}

func (l tloop) key() string {
	s := fmt.Sprintf("%s+%d:%d:%s:%v:%v", l.path, l.start, l.left, l.cur, l.isE, l.con)
	if l.list != nil {
		s += l.list.key()
	}
	return s
}

type tstate struct {
	env   map[ssa.Value]tv
	cells map[string]tv
	facts map[string]tfact
	loops map[string]tloop
	cnt   int    // visits of the tracked path
	self  int    // own events (callback on the node, visitor method)
	in    int    // Enter
	out   int    // Leave
	dfr   []tv   // deferred calls: tuples of function and arguments
	pend  string // an event reported failure: this result must be returned
	unres map[string]bool
	ext   tjoint
}

// tjoint is data that is joined, not distinguished, when paths meet.
type tjoint struct {
	last  map[string]bool // what may have been written last
	cnts  map[string]uint8
	trace bool
}

func (s *tstate) clone() *tstate {
	n := *s
	n.env, n.cells, n.facts, n.loops, n.unres = cpm(s.env), cpm(s.cells), cpm(s.facts), cpm(s.loops), cpm(s.unres)
	n.dfr = append([]tv(nil), s.dfr...)
	n.ext.last, n.ext.cnts = cpm(s.ext.last), cpm(s.ext.cnts)
	return &n
}

// tmode is what distinguishes the analyses built on the interpreter.
type tmode interface {
	// call handles a call that is an event; ok false leaves it to the interpreter.
	call(x *tinterp, s *tstate, c *ssa.CallCommon, at ssa.Instruction, fn *ssa.Function, args []tv) ([]tout, bool)
	// leave is told when the analysed method returns.
	leave(x *tinterp, s *tstate, vals []tv, at ssa.Instruction)
}

type tout struct {
	vals []tv
	s    *tstate
}

type tissue struct {
	what string
	pos  token.Pos
}

type tinterp struct {
	P       *Prog
	q       string // tracked path
	m       tmode
	fmode   int64
	gaveUp  string
	issues  map[string]tissue
	steps   int
	inl     []*ssa.Function
	inlA    [][]tv
	asserts map[string][]types.Type // types the value at a path is tested for
	dyn     map[string]types.Type   // dynamic types taken as given
	fid     int
	live    map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool
	lps     map[*ssa.Function]map[*ssa.BasicBlock]*loopInfo
	rets    int
	top     *ssa.Function
	gate    map[string]bool // paths whose value decided a branch
	fixed   bool            // all lists have the length fix
	fix     int
	tested  map[string]map[*ssa.If]bool // branches that test a path
	noeq    bool                        // what a field holds is not replaced by a constant it is equal to
	keep    map[string]bool             // paths whose state is distinguished
}

type tgiveup struct{ why string }

func (x *tinterp) give(why string, a ...any) { panic(tgiveup{fmt.Sprintf(why, a...)}) }

func (x *tinterp) issue(pos token.Pos, f string, a ...any) {
	w := fmt.Sprintf(f, a...)
	if _, ok := x.issues[w]; !ok {
		x.issues[w] = tissue{w, pos}
	}
}

func newTree(P *Prog, q string, m tmode) *tinterp {
	return &tinterp{P: P, q: q, m: m, issues: map[string]tissue{}, live: map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool{}, lps: map[*ssa.Function]map[*ssa.BasicBlock]*loopInfo{}, gate: map[string]bool{}}
}

func newTState() *tstate {
	return &tstate{env: map[ssa.Value]tv{}, cells: map[string]tv{}, facts: map[string]tfact{}, loops: map[string]tloop{}, unres: map[string]bool{},
		ext: tjoint{last: map[string]bool{}, cnts: map[string]uint8{}}}
}

// run analyses fn from the given state; each return of it is reported to the mode.
func (x *tinterp) run(fn *ssa.Function, args []tv, s *tstate) {
	defer func() {
		if r := recover(); r != nil {
			if g, ok := r.(tgiveup); ok {
				x.gaveUp = g.why
				return
			}
			panic(r)
		}
	}()
	x.top = fn
	x.exec(fn, args, nil, s, true)
}

// related: the tracked path is p or lies below p.
func (x *tinterp) related(p string) bool {
	return p == x.q || p == "" || strings.HasPrefix(x.q, p+".") || strings.HasPrefix(x.q, p+"[]")
}

// gone: the tracked path does not exist in this state.
func (x *tinterp) gone(s *tstate) bool {
	for p, f := range s.facts {
		if f.z == 1 && p != "" && (p == x.q || strings.HasPrefix(x.q, p+".") || strings.HasPrefix(x.q, p+"[]")) {
			return true
		}
	}
	return false
}

func foreign(p string) bool { return strings.Contains(p, "[?]") }

func sub(p, f string) string {
	if p == "" {
		return f
	}
	return p + "." + f
}

// ---- control flow

// loopInfo describes a loop that runs an index over a list.
type loopInfo struct {
	head  *ssa.BasicBlock
	body  map[*ssa.BasicBlock]bool
	phi   *ssa.Phi
	cond  *ssa.BinOp
	idx   ssa.Value // the compared index
	len   ssa.Value // the bound, nil for a downward loop
	init  ssa.Value
	start int // offset added to init to get the first index
	down  bool
	exitT bool // the true branch leaves the loop
}

func (x *tinterp) loopsOf(f *ssa.Function) map[*ssa.BasicBlock]*loopInfo {
	if m, ok := x.lps[f]; ok {
		return m
	}
	m := map[*ssa.BasicBlock]*loopInfo{}
	x.lps[f] = m
	for _, b := range f.Blocks {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			l := m[h]
			if l == nil {
				l = &loopInfo{head: h, body: map[*ssa.BasicBlock]bool{h: true}}
				m[h] = l
			}
			var add func(b *ssa.BasicBlock)
			add = func(b *ssa.BasicBlock) {
				if l.body[b] {
					return
				}
				l.body[b] = true
				for _, p := range b.Preds {
					add(p)
				}
			}
			add(b)
		}
	}
	for h, l := range m {
		l.induction(h)
	}
	return m
}

func isConstInt(v ssa.Value, k int64) bool {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
		return false
	}
	n, _ := constant.Int64Val(c.Value)
	return n == k
}

func (l *loopInfo) induction(h *ssa.BasicBlock) {
	ifi, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return
	}
	cond, ok := ifi.Cond.(*ssa.BinOp)
	if !ok {
		return
	}
	in0, in1 := l.body[h.Succs[0]], l.body[h.Succs[1]]
	if in0 == in1 {
		return
	}
	op, a, b := cond.Op, cond.X, cond.Y
	if !in0 { // the true branch leaves
		op = map[token.Token]token.Token{token.GEQ: token.LSS, token.LEQ: token.GTR, token.EQL: token.NEQ, token.LSS: token.GEQ, token.GTR: token.LEQ, token.NEQ: token.EQL}[op]
		l.exitT = true
	}
	if op == token.GTR || op == token.LEQ { // bound > index
		a, b = b, a
		op = map[token.Token]token.Token{token.GTR: token.LSS, token.LEQ: token.GEQ}[op]
	}
	phiOf := func(v ssa.Value) (*ssa.Phi, int64) {
		if p, ok := v.(*ssa.Phi); ok && p.Block() == h {
			return p, 0
		}
		if bo, ok := v.(*ssa.BinOp); ok && bo.Op == token.ADD && bo.Block() == h && isConstInt(bo.Y, 1) {
			if p, ok := bo.X.(*ssa.Phi); ok && p.Block() == h {
				return p, 1
			}
		}
		return nil, 0
	}
	step := func(p *ssa.Phi, d token.Token, idx ssa.Value) bool {
		var init ssa.Value
		for i, e := range p.Edges {
			if !l.body[h.Preds[i]] {
				if init != nil && init != e {
					return false
				}
				init = e
				continue
			}
			bo, ok := e.(*ssa.BinOp)
			if !ok || bo.Op != d || bo.X != ssa.Value(p) || !isConstInt(bo.Y, 1) {
				return false
			}
		}
		if init == nil {
			return false
		}
		l.phi, l.cond, l.idx, l.init = p, cond, idx, init
		return true
	}
	switch op {
	case token.LSS, token.NEQ:
		if p, off := phiOf(a); p != nil && step(p, token.ADD, a) {
			l.len, l.start = b, int(off)
		} else if p, off := phiOf(b); op == token.NEQ && p != nil && step(p, token.ADD, b) {
			l.len, l.start = a, int(off)
		}
	case token.GEQ: // i >= 0
		if p, ok := a.(*ssa.Phi); ok && p.Block() == h && isConstInt(b, 0) && step(p, token.SUB, a) {
			l.down = true
		}
	}
}

func (x *tinterp) liveness(f *ssa.Function) map[*ssa.BasicBlock]map[ssa.Value]bool {
	if m, ok := x.live[f]; ok {
		return m
	}
	m := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range f.Blocks {
		m[b] = map[ssa.Value]bool{}
	}
	for ch := true; ch; {
		ch = false
		for i := len(f.Blocks) - 1; i >= 0; i-- {
			b := f.Blocks[i]
			cur := map[ssa.Value]bool{}
			for _, su := range b.Succs {
				for v := range m[su] {
					cur[v] = true
				}
				k := -1
				for j, p := range su.Preds {
					if p == b {
						k = j
						for _, in := range su.Instrs {
							ph, ok := in.(*ssa.Phi)
							if !ok {
								break
							}
							cur[ph.Edges[k]] = true
						}
					}
				}
			}
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				in := b.Instrs[j]
				if v, ok := in.(ssa.Value); ok {
					delete(cur, v)
				}
				if _, ok := in.(*ssa.Phi); ok {
					continue
				}
				for _, o := range in.Operands(nil) {
					if *o != nil {
						cur[*o] = true
					}
				}
			}
			for v := range cur {
				if !m[b][v] {
					m[b][v] = true
					ch = true
				}
			}
		}
	}
	x.live[f] = m
	return m
}

func (x *tinterp) stKey(s *tstate, b *ssa.BasicBlock, live map[ssa.Value]bool) string {
	var parts []string
	for v, t := range s.env {
		if _, ok := v.(*ssa.Phi); !ok && !live[v] {
			continue
		} else if ok && !live[v] && v.(*ssa.Phi).Block() != b {
			continue
		}
		parts = append(parts, v.Name()+"="+t.key())
	}
	sort.Strings(parts)
	return strings.Join(parts, ";") + "|" + x.sharedKey(s)
}

func (x *tinterp) sharedKey(s *tstate) string {
	var parts []string
	for k, t := range s.cells {
		parts = append(parts, k+"="+t.key())
	}
	for k, l := range s.loops {
		parts = append(parts, "L"+k+"="+l.key())
	}
	for k, f := range s.facts {
		if x.related(k) || len(x.keep) > 0 && x.keep[norm(k)] {
			parts = append(parts, fmt.Sprintf("F%s=%d%s", k, f.z, f.eq))
		}
	}
	for k := range s.unres {
		parts = append(parts, "U"+k)
	}
	sort.Strings(parts)
	for _, d := range s.dfr {
		parts = append(parts, "D"+d.key())
	}
	return strings.Join(parts, ";") + fmt.Sprintf("|%d|%d|%d|%d|%s", s.cnt, s.self, s.in, s.out, s.pend)
}

// join merges o into s (same key); it reports whether s changed.
func (x *tinterp) join(s, o *tstate) bool {
	ch := false
	for k, f := range s.facts {
		if o.facts[k] != f {
			delete(s.facts, k)
			ch = true
		}
	}
	for k := range o.ext.last {
		if !s.ext.last[k] {
			s.ext.last[k] = true
			ch = true
		}
	}
	for k, m := range o.ext.cnts {
		b, ok := s.ext.cnts[k]
		if !ok {
			b = 1
		}
		if b|m != s.ext.cnts[k] {
			s.ext.cnts[k] = b | m
			ch = true
		}
	}
	for k, m := range s.ext.cnts {
		if _, ok := o.ext.cnts[k]; !ok && m&1 == 0 {
			s.ext.cnts[k] = m | 1
			ch = true
		}
	}
	return ch
}

// exec runs one activation of f and returns the ways it can return.
func (x *tinterp) exec(f *ssa.Function, args, binds []tv, s *tstate, top bool) []tout {
	if f.Blocks == nil {
		x.give("no body: %s", f)
	}
	if len(x.inl) > 30 {
		x.give("calls too deep at %s", fnName(f))
	}
	for i, g := range x.inl {
		if g == f {
			if h, ok := x.m.(interface {
				again(x *tinterp, s *tstate, before, args []tv) ([]tout, bool)
			}); ok {
				if o, ok := h.again(x, s, x.inlA[i], args); ok {
					return o
				}
			}
			x.give("recursive helper %s", fnName(f))
		}
	}
	x.inl, x.inlA = append(x.inl, f), append(x.inlA, args)
	defer func() { x.inl, x.inlA = x.inl[:len(x.inl)-1], x.inlA[:len(x.inlA)-1] }()
	x.fid++
	depth := len(x.inl)
	saved := s.env
	s = s.clone()
	s.env = map[ssa.Value]tv{}
	savedDfr := s.dfr
	s.dfr = nil
	for i, p := range f.Params {
		if i < len(args) {
			s.env[p] = args[i]
		}
	}
	for i, p := range f.FreeVars {
		if i < len(binds) {
			s.env[p] = binds[i]
		}
	}
	live := x.liveness(f)
	loops := x.loopsOf(f)
	type ent struct {
		b *ssa.BasicBlock
		k string
	}
	at := map[ent]*tstate{}
	var q []ent
	count := map[*ssa.BasicBlock]int{}
	push := func(from, b *ssa.BasicBlock, s *tstate) {
		s = s.clone()
		if from != nil {
			var vals []tv
			var phis []*ssa.Phi
			k := -1
			for j, p := range b.Preds {
				if p == from {
					k = j
				}
			}
			l := loops[b]
			for _, in := range b.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				phis = append(phis, ph)
				vals = append(vals, x.val(s, ph.Edges[k]))
			}
			for i, ph := range phis {
				s.env[ph] = vals[i]
			}
			if l != nil {
				x.enterLoop(s, l, !l.body[from], depth)
			}
			for h, l := range loops { // leaving loops forgets them
				if l.body[from] && !l.body[b] {
					delete(s.loops, lkey(depth, h))
				}
			}
		}
		k := x.stKey(s, b, live[b])
		e := ent{b, k}
		if o := at[e]; o != nil {
			if !x.join(o, s) {
				return
			}
		} else {
			at[e] = s
			count[b]++
			if count[b] > 600 {
				x.give("too many cases in %s", fnName(f))
			}
		}
		for _, w := range q {
			if w == e {
				return
			}
		}
		q = append(q, e)
	}
	push(nil, f.Blocks[0], s)
	outs := map[string]*tout{}
	var order []string
	for len(q) > 0 {
		best := 0
		for i := range q {
			if q[i].b.Index < q[best].b.Index {
				best = i
			}
		}
		e := q[best]
		q = append(q[:best], q[best+1:]...)
		states := []*tstate{at[e].clone()}
		for _, in := range e.b.Instrs {
			if _, ok := in.(*ssa.Phi); ok {
				continue
			}
			x.steps++
			if x.steps > 800000 {
				x.give("too many steps in %s", fnName(x.top))
			}
			var next []*tstate
			for _, s := range states {
				switch i := in.(type) {
				case *ssa.If:
					x.branch(s, i, loops, depth, push)
				case *ssa.Jump:
					push(e.b, e.b.Succs[0], s)
				case *ssa.Panic:
				case *ssa.Return:
					var vals []tv
					for _, r := range i.Results {
						vals = append(vals, x.val(s, r))
					}
					if top {
						x.rets++
						x.m.leave(x, s, vals, i)
						continue
					}
					s = s.clone()
					k := ""
					for _, v := range vals {
						k += v.key() + ";"
					}
					s.env = cpm(saved)
					s.dfr = append([]tv(nil), savedDfr...)
					// variables of this activation are dead unless a result refers to them
					pre := fmt.Sprintf("%d:", depth)
					own := pre + f.String() + ":"
					for c := range s.cells {
						if strings.HasPrefix(c, own) && !strings.Contains(k, c) {
							delete(s.cells, c)
						}
					}
					for c := range s.loops {
						if strings.HasPrefix(c, pre) {
							delete(s.loops, c)
						}
					}
					k += x.sharedKey(s)
					if o := outs[k]; o != nil {
						x.join(o.s, s)
					} else {
						outs[k] = &tout{vals, s}
						order = append(order, k)
					}
				default:
					next = append(next, x.step(s, in, depth)...)
				}
			}
			states = next
		}
	}
	var res []tout
	for _, k := range order {
		res = append(res, *outs[k])
	}
	return res
}

func lkey(depth int, h *ssa.BasicBlock) string { return fmt.Sprintf("%d:b%d", depth, h.Index) }

func (x *tinterp) enterLoop(s *tstate, l *loopInfo, fresh bool, depth int) {
	k := lkey(depth, l.head)
	if l.phi == nil {
		return
	}
	if !fresh {
		lp, ok := s.loops[k]
		if !ok || lp.con {
			return
		}
		for p := range s.facts {
			if foreign(p) {
				delete(s.facts, p)
			}
		}
		lp.cur, lp.isE = "", false
		s.loops[k] = lp
		s.env[l.phi] = tv{k: tkIdx, p: k}
		return
	}
	init := x.val(s, l.init)
	start := 0
	var coll tv
	if l.down {
		// i := len(S)-1
		bo, ok := l.init.(*ssa.BinOp)
		if !ok || bo.Op != token.SUB || !isConstInt(bo.Y, 1) {
			return
		}
		coll = x.val(s, bo.X)
	} else {
		if init.k != tkCon || init.c.Kind() != constant.Int {
			return
		}
		n, _ := constant.Int64Val(init.c)
		start = int(n) + l.start
		// the bound is computed before or in the loop head; find what it is the length of
		coll = x.lenOf(s, l.len)
	}
	if coll.k != tkLen {
		return // concrete
	}
	lp := tloop{start: start}
	if len(coll.els) == 1 {
		li := coll.els[0]
		lp.list = &li
		lp.left = li.n
		if start > 0 {
			x.give("loop over part of a list built in %s", fnName(l.head.Parent()))
		}
	} else {
		lp.path = coll.p
		lp.start += coll.n
		if x.related(coll.p+"[]") && coll.p+"[]" != "[]" && (strings.HasPrefix(x.q, coll.p+"[]")) {
			lp.left = 1
			if lp.start > 0 {
				switch s.facts[coll.p+"#first"].z {
				case 1: // the fixed element is not the first
				case 2:
					lp.left = 0
				default:
					lp.left = -1 // decided when the loop runs
				}
			}
		}
	}
	s.loops[k] = lp
	s.env[l.phi] = tv{k: tkIdx, p: k}
}

// lenOf evaluates a bound that may be computed inside the loop head.
func (x *tinterp) lenOf(s *tstate, v ssa.Value) tv {
	if t, ok := s.env[v]; ok {
		return t
	}
	if c, ok := v.(*ssa.Call); ok {
		if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			lv := x.deepVal(s, c.Call.Args[0], 0)
			if l, ok := x.local(s, lv, c.Call.Args[0].Type()); ok {
				lv = l
			}
			return x.builtinLen(s, lv)
		}
	}
	return x.val(s, v)
}

// deepVal evaluates loads that the loop head repeats.
func (x *tinterp) deepVal(s *tstate, v ssa.Value, d int) tv {
	if t, ok := s.env[v]; ok {
		return t
	}
	if d < 4 {
		switch i := v.(type) {
		case *ssa.UnOp:
			if i.Op == token.MUL {
				return x.load(s, x.deepVal(s, i.X, d+1))
			}
		case *ssa.FieldAddr:
			return x.fieldAddr(s, x.deepVal(s, i.X, d+1), i)
		}
	}
	return x.val(s, v)
}

func (x *tinterp) branch(s *tstate, i *ssa.If, loops map[*ssa.BasicBlock]*loopInfo, depth int, push func(from, b *ssa.BasicBlock, s *tstate)) {
	b := i.Block()
	if l := loops[b]; l != nil && l.phi != nil && ssa.Value(l.cond) == i.Cond {
		k := lkey(depth, b)
		if lp, ok := s.loops[k]; ok && !lp.con {
			in, out := b.Succs[0], b.Succs[1]
			if l.exitT {
				in, out = out, in
			}
			x.iterate(s, lp, k, func(s *tstate) { push(b, in, s) }, func(s *tstate) { push(b, out, s) })
			return
		}
	}
	c := x.val(s, i.Cond)
	if x.tested != nil && (c.k == tkPath || c.k == tkCond) {
		p := norm(c.p)
		if x.tested[p] == nil {
			x.tested[p] = map[*ssa.If]bool{}
		}
		x.tested[p][i] = true
	}
	x.decide(s, c, func(s *tstate, v bool) {
		if v {
			push(b, b.Succs[0], s)
		} else {
			push(b, b.Succs[1], s)
		}
	})
}

func (x *tinterp) iterate(s *tstate, lp tloop, k string, body, exit func(*tstate)) {
	if lp.left == -1 {
		a, b := s.clone(), s.clone()
		l1, l2 := lp, lp
		l1.left, l2.left = 1, 0
		a.facts[lp.path+"#first"] = tfact{z: 1}
		b.facts[lp.path+"#first"] = tfact{z: 2}
		x.iterate(a, l1, k, body, exit)
		x.iterate(b, l2, k, body, exit)
		return
	}
	elem := func(e bool) string {
		if lp.list != nil {
			for _, v := range lp.list.els {
				if p, ok := v.pathOf(); ok && e {
					return p
				}
			}
			return "*[?]"
		}
		if e {
			return lp.path + "[]"
		}
		return lp.path + "[?]"
	}
	empty := lp.path != "" && s.facts[lp.path].z == 1
	if !empty {
		// another element
		o := s.clone()
		l := lp
		l.cur, l.isE = elem(false), false
		o.loops[k] = l
		body(o)
		if lp.left > 0 {
			o := s.clone()
			l := lp
			l.cur, l.isE = elem(true), true
			l.left--
			o.loops[k] = l
			if lp.path != "" && lp.start == 0 {
				o.facts[lp.path] = tfact{z: 2}
			}
			body(o)
		}
	}
	if lp.left <= 0 {
		exit(s)
		return
	}
	// leaving without having met the element: there is none
	if lp.path != "" && s.facts[lp.path].z != 2 {
		o := s.clone()
		o.facts[lp.path] = tfact{z: 1}
		exit(o)
	}
}

// decide continues with each value the condition can have.
func (x *tinterp) decide(s *tstate, c tv, f func(*tstate, bool)) {
	switch c.k {
	case tkCon:
		f(s, constant.BoolVal(c.c))
		return
	case tkPath:
		x.decide(s, tv{k: tkCond, p: c.p, neg: true}, f)
		return
	case tkCond:
		x.gate[c.p] = true
		if v, ok := x.known(s, c); ok {
			f(s, v)
			return
		}
		for _, holds := range []bool{true, false} { // the condition "path is zero / equals c"
			n := s.clone()
			if !foreign(c.p) {
				fa := n.facts[c.p]
				if c.c == nil {
					fa.z = 2
					if holds {
						fa.z = 1
					}
				} else if holds {
					fa.z, fa.eq = 2, c.c.ExactString()
				}
				if fa != (tfact{}) {
					n.facts[c.p] = fa
				}
			}
			f(n, holds != c.neg)
		}
		return
	case tkRes, tkResC:
		// a boolean result: true means go on; a comparison of an error: true means it failed
		okVal := (c.k == tkRes) != c.neg
		k := resKey(c)
		if s.pend == k {
			f(s, !okVal)
			return
		}
		if !s.unres[k] { // tested before
			f(s, okVal)
			return
		}
		bad := s.clone()
		delete(bad.unres, k)
		bad.pend = k
		good := s.clone()
		delete(good.unres, k)
		f(good, okVal)
		f(bad, !okVal)
		return
	}
	for _, t := range c.taint {
		x.gate[t] = true
	}
	f(s.clone(), true)
	f(s.clone(), false)
}

func resKey(v tv) string { return fmt.Sprintf("%p", v.site) }

func (x *tinterp) known(s *tstate, c tv) (bool, bool) {
	fa, ok := s.facts[c.p]
	// a part of something absent is absent
	if !ok || fa.z == 0 {
		for p, f := range s.facts {
			if f.z == 1 && p != "" && strings.HasPrefix(c.p, p) && c.p != p && (c.p[len(p)] == '.' || c.p[len(p)] == '[') {
				fa = tfact{z: 1}
			}
		}
		if fa.z == 0 {
			return false, false
		}
	}
	if c.c == nil {
		return (fa.z == 1) != c.neg, true
	}
	if fa.z == 1 {
		return c.neg, true
	}
	if fa.eq != "" {
		return (fa.eq == c.c.ExactString()) != c.neg, true
	}
	return false, false
}

// ---- values

func unk(taint ...[]string) tv {
	m := map[string]bool{}
	for _, t := range taint {
		for _, p := range t {
			m[p] = true
		}
	}
	v := tv{k: tkUnk}
	for p := range m {
		v.taint = append(v.taint, p)
	}
	sort.Strings(v.taint)
	return v
}

// taints lists the paths a value was computed from.
func (x *tinterp) taints(s *tstate, v tv) []string {
	switch v.k {
	case tkPath, tkAddr, tkLen, tkCond:
		return []string{v.p}
	case tkUnk:
		return v.taint
	case tkCat, tkTup:
		var out []string
		for _, e := range v.els {
			out = append(out, x.taints(s, e)...)
		}
		return out
	case tkLocal:
		var out []string
		for _, e := range v.els {
			out = append(out, x.taints(s, x.load(s, e))...)
		}
		return out
	case tkCell:
		if c := x.load(s, v); c.k != tkCell {
			return x.taints(s, c)
		}
	case tkList:
		var out []string
		for _, e := range v.els {
			out = append(out, x.taints(s, e)...)
		}
		return out
	}
	return nil
}

func (x *tinterp) val(s *tstate, v ssa.Value) tv {
	switch c := v.(type) {
	case *ssa.Const:
		if c.Value == nil {
			switch c.Type().Underlying().(type) {
			case *types.Struct, *types.Array:
				return unk()
			}
			return tv{k: tkNil}
		}
		return tv{k: tkCon, c: c.Value}
	case *ssa.Function:
		return tv{k: tkFunc, fn: c}
	case *ssa.Global, *ssa.Builtin:
		return unk()
	}
	if t, ok := s.env[v]; ok {
		return t
	}
	return unk()
}

func (x *tinterp) load(s *tstate, a tv) tv {
	switch a.k {
	case tkAddr:
		return tv{k: tkPath, p: a.p, t: nil}
	case tkPath: // *n: the struct the node pointer points to
		return tv{k: tkPath, p: a.p}
	case tkCell:
		if v, ok := s.cells[a.p]; ok {
			return v
		}
		// a part of a copied struct
		p := a.p
		base := strings.LastIndex(p, ":")
		for {
			i := strings.LastIndex(p, ".")
			if i < base {
				break
			}
			f := a.p[i+1:]
			p = p[:i]
			if v, ok := s.cells[p]; ok {
				if b, ok := v.pathOf(); ok {
					return tv{k: tkPath, p: sub(b, f)}
				}
				return unk(x.taints(s, v))
			}
		}
		if z, ok := s.cells[a.p+"!zero"]; ok {
			return z
		}
		return unk()
	case tkSpec:
		if a.p == "F.mode" {
			return tv{k: tkCon, c: constant.MakeInt64(x.fmode)}
		}
	}
	return unk(x.taints(s, a))
}

func (x *tinterp) fieldAddr(s *tstate, b tv, i *ssa.FieldAddr) tv {
	st := deref(i.X.Type()).Underlying().(*types.Struct)
	f := st.Field(i.Field)
	switch b.k {
	case tkPath, tkAddr:
		return tv{k: tkAddr, p: sub(b.p, f.Name())}
	case tkCell:
		return tv{k: tkCell, p: b.p + "." + f.Name()}
	case tkSpec:
		if b.p == "F" && x.P.isMode(f.Type()) {
			return tv{k: tkSpec, p: "F.mode"}
		}
		return tv{k: tkSpec, p: b.p + "." + f.Name()}
	}
	return unk(x.taints(s, b))
}

func (P *Prog) isMode(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == "FormatMode"
}

// local gives the elements of a list of the tree when the lengths of lists are fixed.
func (x *tinterp) local(s *tstate, v tv, t types.Type) (tv, bool) {
	if !x.fixed || v.k != tkPath {
		return v, false
	}
	if _, ok := t.Underlying().(*types.Slice); !ok {
		return v, false
	}
	n := x.fix
	switch s.facts[v.p].z {
	case 1:
		n = 0
	case 2:
		if n == 0 {
			n = 1
		}
	default:
		z := int8(1)
		if n > 0 {
			z = 2
		}
		s.facts[v.p] = tfact{z: z}
	}
	out := tv{k: tkLocal}
	for i := v.n; i < n; i++ {
		out.els = append(out.els, tv{k: tkAddr, p: fmt.Sprintf("%s[%d]", v.p, i)})
	}
	if len(out.els) == 0 {
		out.k = tkLocal
	}
	return out, true
}

func (x *tinterp) builtinLen(s *tstate, v tv) tv {
	switch v.k {
	case tkPath:
		return tv{k: tkLen, p: v.p, n: v.n}
	case tkLocal:
		return tv{k: tkCon, c: constant.MakeInt64(int64(len(v.els)))}
	case tkList:
		return tv{k: tkLen, p: "", els: []tv{v}}
	case tkNil:
		return tv{k: tkCon, c: constant.MakeInt64(0)}
	case tkCon:
		if v.c.Kind() == constant.String {
			return tv{k: tkCon, c: constant.MakeInt64(int64(len(constant.StringVal(v.c))))}
		}
	}
	return unk(x.taints(s, v))
}

func conZero(t types.Type) (tv, bool) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return tv{k: tkCon, c: constant.MakeBool(false)}, true
		case u.Info()&types.IsString != 0:
			return tv{k: tkCon, c: constant.MakeString("")}, true
		case u.Info()&types.IsInteger != 0:
			return tv{k: tkCon, c: constant.MakeInt64(0)}, true
		}
	case *types.Pointer, *types.Interface, *types.Slice, *types.Signature, *types.Map:
		return tv{k: tkNil}, true
	}
	return tv{}, false
}

// step executes one instruction that does not end a block.
func (x *tinterp) step(s *tstate, in ssa.Instruction, depth int) []*tstate {
	one := []*tstate{s}
	switch i := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		id := fmt.Sprintf("%d:%s:%s", depth, i.Parent().String(), i.Name())
		for c := range s.cells {
			if c == id || strings.HasPrefix(c, id+".") || strings.HasPrefix(c, id+"[") {
				delete(s.cells, c)
			}
		}
		if z, ok := conZero(deref(i.Type())); ok {
			s.cells[id] = z
		} else if st, ok := deref(i.Type()).Underlying().(*types.Struct); ok {
			for j := 0; j < st.NumFields(); j++ {
				if z, ok := conZero(st.Field(j).Type()); ok {
					s.cells[id+"."+st.Field(j).Name()] = z
				}
			}
		}
		s.env[i] = tv{k: tkCell, p: id}
	case *ssa.Store:
		a := x.val(s, i.Addr)
		v := x.val(s, i.Val)
		switch a.k {
		case tkCell:
			for c := range s.cells {
				if strings.HasPrefix(c, a.p+".") {
					delete(s.cells, c)
				}
			}
			s.cells[a.p] = v
		case tkAddr, tkPath:
			x.issue(i.Pos(), "stores to %s", a.p)
		}
	case *ssa.UnOp:
		v := x.val(s, i.X)
		switch i.Op {
		case token.MUL:
			s.env[i] = x.load(s, v)
		case token.NOT:
			switch v.k {
			case tkCon:
				s.env[i] = tv{k: tkCon, c: constant.MakeBool(!constant.BoolVal(v.c))}
			case tkPath:
				s.env[i] = tv{k: tkCond, p: v.p}
			case tkCond, tkResC, tkRes:
				v.neg = !v.neg
				s.env[i] = v
			default:
				s.env[i] = unk(x.taints(s, v))
			}
		default:
			s.env[i] = unk(x.taints(s, v))
		}
	case *ssa.FieldAddr:
		s.env[i] = x.fieldAddr(s, x.val(s, i.X), i)
	case *ssa.Field:
		v := x.val(s, i.X)
		f := i.X.Type().Underlying().(*types.Struct).Field(i.Field)
		if p, ok := v.pathOf(); ok {
			s.env[i] = tv{k: tkPath, p: sub(p, f.Name())}
		} else {
			s.env[i] = unk(x.taints(s, v))
		}
	case *ssa.IndexAddr:
		return x.indexAddr(s, i)
	case *ssa.Index:
		s.env[i] = unk(x.taints(s, x.val(s, i.X)), x.taints(s, x.val(s, i.Index)))
	case *ssa.Lookup:
		v := unk(x.taints(s, x.val(s, i.X)), x.taints(s, x.val(s, i.Index)))
		if i.CommaOk {
			s.env[i] = tv{k: tkTup, els: []tv{v, v}}
		} else {
			s.env[i] = v
		}
	case *ssa.Slice:
		x.slice(s, i)
	case *ssa.MakeInterface:
		v := x.val(s, i.X)
		if v.k == tkPath || v.k == tkCell || v.k == tkAddr {
			v.t = i.X.Type()
			if v.k == tkAddr {
				v.k = tkPath
			}
		}
		s.env[i] = v
	case *ssa.ChangeInterface:
		s.env[i] = x.val(s, i.X)
	case *ssa.ChangeType:
		s.env[i] = x.val(s, i.X)
	case *ssa.Convert:
		s.env[i] = x.val(s, i.X)
		if v := s.env[i]; v.k == tkCon {
			if b, ok := i.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 && v.c.Kind() == constant.Int {
				n, _ := constant.Int64Val(v.c)
				s.env[i] = tv{k: tkCon, c: constant.MakeString(string(rune(n)))}
			}
		}
	case *ssa.TypeAssert:
		return x.typeAssert(s, i)
	case *ssa.Extract:
		t := x.val(s, i.Tuple)
		if t.k == tkTup && i.Index < len(t.els) {
			s.env[i] = t.els[i.Index]
		} else {
			s.env[i] = unk(x.taints(s, t))
		}
	case *ssa.BinOp:
		s.env[i] = x.binop(s, i)
	case *ssa.MakeClosure:
		v := tv{k: tkFunc, fn: i.Fn.(*ssa.Function)}
		for _, b := range i.Bindings {
			v.els = append(v.els, x.val(s, b))
		}
		s.env[i] = v
	case *ssa.MakeSlice:
		if n := x.val(s, i.Len); n.k == tkCon && n.c.Kind() == constant.Int && constant.Sign(n.c) == 0 {
			s.env[i] = tv{k: tkList}
			if x.fixed {
				s.env[i] = tv{k: tkLocal}
			}
		} else {
			s.env[i] = unk()
		}
	case *ssa.MakeMap, *ssa.Range, *ssa.Next, *ssa.MakeChan, *ssa.Select:
		s.env[in.(ssa.Value)] = unk()
	case *ssa.Call:
		outs := x.call(s, &i.Call, i)
		var res []*tstate
		for _, o := range outs {
			switch len(o.vals) {
			case 0:
				o.s.env[i] = unk()
			case 1:
				o.s.env[i] = o.vals[0]
			default:
				o.s.env[i] = tv{k: tkTup, els: o.vals}
			}
			res = append(res, o.s)
		}
		return res
	case *ssa.Defer:
		d := tv{k: tkTup, site: i}
		for _, a := range i.Call.Args {
			d.els = append(d.els, x.val(s, a))
		}
		if !i.Call.IsInvoke() {
			d.els = append([]tv{x.val(s, i.Call.Value)}, d.els...)
		} else {
			d.els = append([]tv{x.val(s, i.Call.Value)}, d.els...)
		}
		s.dfr = append(s.dfr, d)
	case *ssa.RunDefers:
		states := one
		for {
			var next []*tstate
			more := false
			for _, s := range states {
				if len(s.dfr) == 0 {
					next = append(next, s)
					continue
				}
				more = true
				d := s.dfr[len(s.dfr)-1]
				s.dfr = s.dfr[:len(s.dfr)-1]
				df := d.site.(*ssa.Defer)
				for _, o := range x.callWith(s, &df.Call, df, d.els[0], d.els[1:]) {
					next = append(next, o.s)
				}
			}
			states = next
			if !more {
				return states
			}
		}
	case *ssa.Go:
		x.give("go statement in %s", fnName(in.Parent()))
	case *ssa.MapUpdate, *ssa.Send:
	default:
		if v, ok := in.(ssa.Value); ok {
			s.env[v] = unk()
		}
	}
	return one
}

func (x *tinterp) indexAddr(s *tstate, i *ssa.IndexAddr) []*tstate {
	b, ix := x.val(s, i.X), x.val(s, i.Index)
	one := []*tstate{s}
	if l, ok := x.local(s, b, i.X.Type()); ok {
		b = l
	}
	switch b.k {
	case tkPath, tkAddr:
		if ix.k == tkIdx {
			lp, ok := s.loops[ix.p]
			if ok && lp.path == b.p && lp.cur != "" {
				s.env[i] = tv{k: tkAddr, p: lp.cur}
				return one
			}
			s.env[i] = tv{k: tkAddr, p: b.p + "[?]"}
			return one
		}
		if ix.k == tkCon && strings.HasPrefix(x.q, b.p+"[]") {
			n, _ := constant.Int64Val(ix.c)
			if int(n)+b.n == 0 {
				var out []*tstate
				f := s.facts[b.p+"#first"].z
				if f != 1 {
					a := s.clone()
					a.facts[b.p+"#first"] = tfact{z: 2}
					a.env[i] = tv{k: tkAddr, p: b.p + "[]"}
					out = append(out, a)
				}
				if f != 2 {
					a := s.clone()
					a.facts[b.p+"#first"] = tfact{z: 1}
					a.env[i] = tv{k: tkAddr, p: b.p + "[?]"}
					out = append(out, a)
				}
				return out
			}
			x.give("element %d of %s used on its own", n, b.p)
		}
		if ix.k == tkCon {
			s.env[i] = tv{k: tkAddr, p: b.p + "[?]"}
			return one
		}
		if strings.HasPrefix(x.q, b.p+"[]") {
			x.give("computed element of %s", b.p)
		}
		s.env[i] = tv{k: tkAddr, p: b.p + "[?]"}
	case tkLocal:
		if ix.k == tkCon {
			n, _ := constant.Int64Val(ix.c)
			if n >= 0 && int(n) < len(b.els) {
				s.env[i] = b.els[n]
				return one
			}
			return nil
		}
		s.env[i] = unk(x.taints(s, b))
	case tkList:
		if ix.k == tkIdx {
			if lp, ok := s.loops[ix.p]; ok && lp.list != nil && lp.cur != "" {
				s.env[i] = tv{k: tkAddr, p: lp.cur}
				return one
			}
		}
		x.give("element of a list built by append")
	case tkCell: // array
		if ix.k == tkCon {
			n, _ := constant.Int64Val(ix.c)
			s.env[i] = tv{k: tkCell, p: fmt.Sprintf("%s[%d]", b.p, n)}
			return one
		}
		s.env[i] = unk()
	default:
		s.env[i] = unk(x.taints(s, b), x.taints(s, ix))
	}
	return one
}

func (x *tinterp) slice(s *tstate, i *ssa.Slice) {
	b := x.val(s, i.X)
	if l, ok := x.local(s, b, i.X.Type()); ok {
		b = l
	}
	var lo, hi int64 = 0, -1
	get := func(v ssa.Value) (int64, bool) {
		t := x.val(s, v)
		if t.k != tkCon {
			return 0, false
		}
		n, _ := constant.Int64Val(t.c)
		return n, true
	}
	ok := true
	if i.Low != nil {
		lo, ok = get(i.Low)
	}
	if i.High != nil && ok {
		hi, ok = get(i.High)
	}
	switch b.k {
	case tkCell:
		at, isA := deref(i.X.Type()).Underlying().(*types.Array)
		if isA && ok {
			if hi < 0 {
				hi = at.Len()
			}
			v := tv{k: tkLocal}
			for n := lo; n < hi; n++ {
				v.els = append(v.els, tv{k: tkCell, p: fmt.Sprintf("%s[%d]", b.p, n)})
			}
			if hi == lo && !x.fixed {
				v = tv{k: tkList}
			}
			s.env[i] = v
			return
		}
	case tkLocal:
		if ok {
			if hi < 0 {
				hi = int64(len(b.els))
			}
			if lo <= hi && hi <= int64(len(b.els)) {
				s.env[i] = tv{k: tkLocal, els: b.els[lo:hi]}
				return
			}
		}
	case tkPath, tkAddr:
		if _, isStr := i.X.Type().Underlying().(*types.Basic); isStr {
			s.env[i] = unk(x.taints(s, b))
			return
		}
		if ok && i.High == nil {
			v := b
			v.k = tkPath
			v.n += int(lo)
			if v.n > 1 && strings.HasPrefix(x.q, b.p+"[]") {
				x.give("slice of %s from %d", b.p, v.n)
			}
			s.env[i] = v
			return
		}
		if strings.HasPrefix(x.q, b.p+"[]") {
			x.give("part of %s", b.p)
		}
	}
	s.env[i] = unk(x.taints(s, b))
}

func (x *tinterp) typeAssert(s *tstate, i *ssa.TypeAssert) []*tstate {
	v := x.val(s, i.X)
	set := func(s *tstate, ok bool) *tstate {
		r := v
		if !ok {
			if !i.CommaOk {
				return nil
			}
			r = tv{k: tkNil}
			if z, isZ := conZero(i.AssertedType); isZ {
				r = z
			}
		} else if _, isI := i.AssertedType.Underlying().(*types.Interface); !isI && (v.k == tkPath) {
			r.t = i.AssertedType
		}
		if i.CommaOk {
			s.env[i] = tv{k: tkTup, els: []tv{r, {k: tkCon, c: constant.MakeBool(ok)}}}
		} else {
			s.env[i] = r
		}
		return s
	}
	match := func(t types.Type) bool {
		if it, ok := i.AssertedType.Underlying().(*types.Interface); ok {
			return types.Implements(t, it)
		}
		return types.Identical(t, i.AssertedType)
	}
	if v.t != nil {
		if _, isI := v.t.Underlying().(*types.Interface); !isI {
			if n := set(s, match(v.t)); n != nil {
				return []*tstate{n}
			}
			return nil
		}
	}
	if v.k == tkNil {
		if n := set(s, false); n != nil {
			return []*tstate{n}
		}
		return nil
	}
	if p, ok := v.pathOf(); ok {
		if _, isI := i.AssertedType.Underlying().(*types.Interface); !isI {
			if x.asserts == nil {
				x.asserts = map[string][]types.Type{}
			}
			x.asserts[p] = append(x.asserts[p], i.AssertedType)
		}
		if t := x.dyn[p]; t != nil {
			if n := set(s, match(t)); n != nil {
				return []*tstate{n}
			}
			return nil
		}
	}
	var out []*tstate
	if n := set(s.clone(), true); n != nil {
		if p, ok := v.pathOf(); ok && !foreign(p) {
			n.facts[p] = tfact{z: 2}
		}
		out = append(out, n)
	}
	if n := set(s.clone(), false); n != nil {
		out = append(out, n)
	}
	return out
}

func (x *tinterp) binop(s *tstate, i *ssa.BinOp) tv {
	a, b := x.val(s, i.X), x.val(s, i.Y)
	if a.k == tkCon && b.k == tkCon {
		switch i.Op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			return tv{k: tkCon, c: constant.MakeBool(constant.Compare(a.c, i.Op, b.c))}
		case token.ADD, token.SUB, token.MUL:
			r := constant.BinaryOp(a.c, i.Op, b.c)
			if r.Kind() == constant.Int {
				if n, _ := constant.Int64Val(r); n > 64 || n < -64 {
					return unk()
				}
			}
			return tv{k: tkCon, c: r}
		}
		return unk()
	}
	if i.Op == token.ADD {
		if bt, ok := i.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
			v := tv{k: tkCat}
			for _, e := range []tv{a, b} {
				if e.k == tkCat {
					v.els = append(v.els, e.els...)
				} else {
					v.els = append(v.els, e)
				}
			}
			return v
		}
	}
	op := i.Op
	if a.k == tkCon || a.k == tkNil { // constant on the right
		a, b = b, a
		if o, ok := map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ}[op]; ok {
			op = o
		}
	}
	switch {
	case a.k == tkNil && b.k == tkNil:
		return tv{k: tkCon, c: constant.MakeBool(op == token.EQL)}
	case b.k == tkNil:
		switch a.k {
		case tkPath:
			if a.p == "" {
				return tv{k: tkCon, c: constant.MakeBool(op == token.NEQ)}
			}
			return tv{k: tkCond, p: a.p, neg: op == token.NEQ}
		case tkAddr, tkCell, tkFunc, tkSpec, tkLocal:
			return tv{k: tkCon, c: constant.MakeBool(op == token.NEQ)}
		case tkRes:
			return tv{k: tkResC, site: a.site, neg: op == token.EQL}
		}
	case b.k == tkCon && a.k == tkPath:
		switch b.c.Kind() {
		case constant.Bool:
			eqTrue := constant.BoolVal(b.c)
			if op == token.NEQ {
				eqTrue = !eqTrue
			}
			return tv{k: tkCond, p: a.p, neg: eqTrue}
		case constant.String:
			if op == token.EQL || op == token.NEQ {
				if constant.StringVal(b.c) == "" {
					return tv{k: tkCond, p: a.p, neg: op == token.NEQ}
				}
				return tv{k: tkCond, p: a.p, c: b.c, neg: op == token.NEQ}
			}
		case constant.Int:
			if constant.Sign(b.c) == 0 && (op == token.EQL || op == token.NEQ) {
				return tv{k: tkCond, p: a.p, neg: op == token.NEQ}
			}
			if op == token.EQL || op == token.NEQ {
				return tv{k: tkCond, p: a.p, c: b.c, neg: op == token.NEQ}
			}
		}
	case b.k == tkCon && a.k == tkLen && len(a.els) == 0 && a.n == 0 && b.c.Kind() == constant.Int:
		n, _ := constant.Int64Val(b.c)
		switch {
		case n == 0 && op == token.EQL, n == 1 && op == token.LSS, n == 0 && op == token.LEQ:
			return tv{k: tkCond, p: a.p}
		case n == 0 && op == token.NEQ, n == 0 && op == token.GTR, n == 1 && op == token.GEQ:
			return tv{k: tkCond, p: a.p, neg: true}
		}
	case b.k == tkCon && (a.k == tkRes || a.k == tkResC) && b.c.Kind() == constant.Bool:
		v := a
		if constant.BoolVal(b.c) == (op == token.NEQ) {
			v.neg = !v.neg
		}
		return v
	}
	if a.k == tkIdx && i.Op == token.ADD {
		if l := x.loopsOf(i.Parent())[i.Block()]; l != nil && l.idx == ssa.Value(i) {
			return a
		}
	}
	if op == token.EQL || op == token.NEQ { // comparison with the receiver itself
		pa, oka := a.pathOf()
		pb, okb := b.pathOf()
		if oka && okb && (pa == "") != (pb == "") {
			return tv{k: tkCon, c: constant.MakeBool(op == token.NEQ)}
		}
		if oka && okb && pa == pb && !foreign(pa) {
			return tv{k: tkCon, c: constant.MakeBool(op == token.EQL)}
		}
	}
	return unk(x.taints(s, a), x.taints(s, b))
}

// ---- calls

func (x *tinterp) call(s *tstate, c *ssa.CallCommon, at ssa.Instruction) []tout {
	var args []tv
	for _, a := range c.Args {
		args = append(args, x.val(s, a))
	}
	return x.callWith(s, c, at, x.val(s, c.Value), args)
}

func (x *tinterp) callWith(s *tstate, c *ssa.CallCommon, at ssa.Instruction, callee tv, args []tv) []tout {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return x.builtin(s, b.Name(), args, c)
	}
	var fn *ssa.Function
	all := args
	if c.IsInvoke() {
		all = append([]tv{callee}, args...)
	} else if callee.k == tkFunc {
		fn = callee.fn
	}
	if outs, ok := x.m.call(x, s, c, at, fn, all); ok {
		return outs
	}
	if c.IsInvoke() {
		// a method of a value whose concrete type is known
		if t := callee.t; t != nil {
			if _, isI := t.Underlying().(*types.Interface); !isI {
				if m := x.P.Prog.LookupMethod(t, c.Method.Pkg(), c.Method.Name()); m != nil && m.Blocks != nil {
					if o := m.Origin(); o != nil && false {
						m = o
					}
					if callee.p != "" || true {
						return x.exec(m, all, nil, s, false)
					}
				}
			}
		}
	}
	if fn != nil && fn.Blocks != nil && x.P.inPkg(fn) {
		return x.exec(fn, args, callee.els, s, false)
	}
	if fn != nil && fn.Pkg != nil && fn.Pkg.Pkg.Path() == "slices" || fn != nil && fn.Origin() != nil && fn.Origin().Pkg != nil && fn.Origin().Pkg.Pkg.Path() == "slices" {
		// value-returning helpers only; a callback would hide visits
		for _, a := range args {
			if a.k == tkFunc {
				x.give("callback passed to %s", fn)
			}
		}
	}
	// anything else: the result depends on the arguments only
	var ts []string
	for _, a := range all {
		ts = append(ts, x.taints(s, a)...)
		if a.k == tkFunc && a.fn.Blocks != nil && x.P.inPkg(a.fn) {
			x.give("callback passed to %v", c)
		}
		if a.k == tkSpec && a.p == "F" {
			x.give("formatter passed to %v", c)
		}
	}
	// reflect.ValueOf(v).IsNil()
	if fn != nil && fn.String() == "reflect.ValueOf" && len(args) == 1 {
		return []tout{{[]tv{args[0]}, s}}
	}
	if fn != nil && fn.String() == "(reflect.Value).IsNil" && len(args) == 1 {
		if p, ok := args[0].pathOf(); ok {
			if p == "" {
				return []tout{{[]tv{{k: tkCon, c: constant.MakeBool(false)}}, s}}
			}
			return []tout{{[]tv{{k: tkCond, p: p}}, s}}
		}
	}
	for _, a := range args {
		if a.k == tkCell { // it may change the variable
			old := s.cells[a.p]
			s.cells[a.p] = unk(x.taints(s, old), ts)
		}
	}
	r := unk(ts)
	n := c.Signature().Results().Len()
	var vals []tv
	for i := 0; i < n; i++ {
		vals = append(vals, r)
	}
	return []tout{{vals, s}}
}

func (P *Prog) inPkg(f *ssa.Function) bool {
	for g := f; g != nil; g = g.Parent() {
		if g.Pkg == P.Pkg {
			return true
		}
		if o := g.Origin(); o != nil && o.Pkg == P.Pkg {
			return true
		}
		if g.Synthetic != "" && g.Object() != nil && g.Object().Pkg() == P.TPkg {
			return true
		}
	}
	return false
}

func (x *tinterp) builtin(s *tstate, name string, args []tv, c *ssa.CallCommon) []tout {
	switch name {
	case "len":
		if l, ok := x.local(s, args[0], c.Args[0].Type()); ok {
			return []tout{{[]tv{x.builtinLen(s, l)}, s}}
		}
		return []tout{{[]tv{x.builtinLen(s, args[0])}, s}}
	case "append":
		l := args[0]
		if x.fixed {
			out := tv{k: tkLocal}
			for i, a := range args {
				switch {
				case a.k == tkNil:
				case a.k == tkLocal:
					out.els = append(out.els, a.els...)
				case a.k == tkPath:
					la, ok := x.local(s, a, c.Args[i].Type())
					if !ok {
						return []tout{{[]tv{unk(x.taints(s, args[0]), x.taints(s, args[1]))}, s}}
					}
					out.els = append(out.els, la.els...)
				case a.k == tkList && len(a.els) == 0:
				default:
					return []tout{{[]tv{unk(x.taints(s, args[0]), x.taints(s, args[1]))}, s}}
				}
			}
			// what the cells hold now, not when the list is read
			for i, e := range out.els {
				if e.k != tkCell || strings.HasPrefix(e.p, "ap:") {
					continue
				}
				v := x.load(s, e)
				n := "ap:" + v.key()
				s.cells[n] = v
				out.els[i] = tv{k: tkCell, p: n}
			}
			return []tout{{[]tv{out}, s}}
		}
		var els []tv
		n := 0
		keep := func(v tv) {
			p, ok := v.pathOf()
			if !ok && v.k == tkCell {
				p, ok = s.cells[v.p].pathOf()
			}
			if ok && (p != "" || x.q == "") && !foreign(p) && x.related(p) {
				n++
				for _, e := range els {
					if e.key() == v.key() {
						return
					}
				}
				els = append(els, v)
			}
		}
		switch l.k {
		case tkNil:
		case tkList:
			els, n = append(els, l.els...), l.n
		case tkLocal:
			for _, e := range l.els {
				keep(x.load(s, e))
			}
		case tkPath: // append to (a copy of) a list of the receiver
			if strings.HasPrefix(x.q, l.p+"[]") {
				keep(tv{k: tkPath, p: l.p + "[]"})
			}
		default:
			return []tout{{[]tv{unk(x.taints(s, l), x.taints(s, args[1]))}, s}}
		}
		switch a := args[1]; a.k {
		case tkLocal:
			for _, e := range a.els {
				keep(x.load(s, e))
			}
		case tkList:
			for _, e := range a.els {
				keep(e)
			}
			n = n - len(a.els) + a.n
		case tkPath:
			if strings.HasPrefix(x.q, a.p+"[]") {
				keep(tv{k: tkPath, p: a.p + "[]"})
			}
		case tkNil:
		default:
			return []tout{{[]tv{unk(x.taints(s, l), x.taints(s, args[1]))}, s}}
		}
		if n > 2 {
			n = 2
		}
		return []tout{{[]tv{{k: tkList, els: els, n: n}}, s}}
	case "ssa:wrapnilchk":
		return []tout{{[]tv{args[0]}, s}}
	}
	var ts []string
	for _, a := range args {
		ts = append(ts, x.taints(s, a)...)
	}
	return []tout{{[]tv{unk(ts)}, s}}
}
