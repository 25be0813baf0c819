package main

import (
	"fmt"
	"go/token"
	"go/types"
	"golang.org/x/tools/go/ssa/ssautil"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- engine

type shape struct {
	n   *types.Named
	f   []bits
	key string
}

func mkShape(n *types.Named, f []bits) *shape {
	var b strings.Builder
	for _, x := range f {
		b.WriteString(x.String())
		b.WriteByte('.')
	}
	return &shape{n, f, b.String()}
}

type aval struct {
	b    bits
	dyn  *dset
	cst  string // constant text, for keyword and token-kind parameters
	sh   *shape
	pub  bool
	tied bool
	par  int
	snap bool
}

func (a aval) key() string {
	s := a.b.String()
	if a.dyn != nil {
		s += ":" + a.dyn.key
	}
	if a.sh != nil {
		s += "{" + a.sh.key + "}"
		if a.pub {
			s += "p"
		}
	}
	if a.tied {
		s += "t"
	}
	if a.par != 0 {
		s += fmt.Sprint("=", a.par)
	}
	if a.snap {
		s += "s"
	}
	if a.cst != "" {
		s += "'" + a.cst
	}
	return s
}

type outcome struct {
	res   []aval
	tok   bits
	adv   bool
	entry bits
	pbits []bits
	psh   []*shape
	ppub  []bool
	tag   string
	tk    string
	where token.Pos
	proj  string
	// quiet: an error result that may legally be replaced by another reading
	quiet bool
}

func (o *outcome) ckey() string {
	var b strings.Builder
	for _, r := range o.res {
		b.WriteString(r.b.String())
		if r.tied {
			b.WriteByte('t')
		}
		if r.par != 0 {
			fmt.Fprintf(&b, "=%d", r.par)
		}
		if r.pub {
			b.WriteByte('p')
		}
		if r.snap {
			b.WriteByte('s')
		}
		b.WriteByte('|')
	}
	fmt.Fprintf(&b, "%v|%s|%s|%s|", o.adv, o.tag, o.tk, o.proj)
	return b.String()
}

func (o *outcome) key() string {
	var b strings.Builder
	b.WriteString(o.ckey())
	for _, r := range o.res {
		b.WriteString(r.key() + ";")
	}
	fmt.Fprintf(&b, "|%d|%d|", o.tok, o.entry)
	for _, p := range o.pbits {
		b.WriteString(p.String())
	}
	for _, p := range o.psh {
		if p != nil {
			b.WriteString(p.key)
		}
		b.WriteByte('/')
	}
	for _, p := range o.ppub {
		fmt.Fprint(&b, p)
	}
	return b.String()
}

func joinShape(a, b *shape) *shape {
	if a == nil || b == nil || a.n != b.n {
		return nil
	}
	if a.key == b.key {
		return a
	}
	f := make([]bits, len(a.f))
	for i := range f {
		f[i] = a.f[i] | b.f[i]
	}
	return mkShape(a.n, f)
}

type ctx struct {
	fn       *ssa.Function
	args     []aval
	tok      bits
	tag, tk  string
	k        string
	outs     map[string]*outcome
	deps     map[*ctx]bool
	queued   bool
	reached  map[int]bool // blocks reached (final pass)
	root     bool
	states   int
	calls    map[*ctx]bool      // contexts used in the latest analysis
	advFalse map[*ctx]token.Pos // those used before anything was consumed
}

type classInfo struct {
	n       *types.Named
	shapes  map[string]*shape
	joined  []bits
	readers map[*ctx]bool
}

type alarm struct {
	rule string
	fn   *ssa.Function
	pos  token.Pos
	what string
	ctx  *ctx
}

type Engine struct {
	P       *Prog
	mode    string // "parse", "ast", "lex"
	ctxs    map[string]*ctx
	focus   focus
	focusV  map[*ssa.Function][]ssa.Value
	byFn    map[*ssa.Function]map[string]*ctx
	queue   []*ctx
	class   map[*types.Named]*classInfo
	fi      map[*ssa.Function]*finfo
	final   bool
	alarms  map[string]*alarm
	nf      map[fieldID]bool // fields stored through a base not allocated in the storing function
	tracked map[*types.Named]bool
	reached map[*ssa.BasicBlock]bool

	consume   *ssa.Function
	tokenT    *types.Named
	lexerT    *types.Named
	parserT   *types.Named
	lstateT   *types.Named
	eofKind   string
	tokenKind *types.Named
	posT      *types.Named

	oblig      map[string]int // rule -> obligations examined in the final pass
	seenOb     map[string]bool
	hook       hooks
	readsParam map[*ssa.Function]map[int]bool
	trace      string
	rounds     int
	setGlobal  map[*ssa.Global]bool
	live       map[*ctx]bool
	nodeCalls  map[string]bool        // methods called on nodes and assumed to be safe
	assumed    map[*ssa.Function]bool // functions analysed as roots for every argument
	writers    map[*ssa.Function]map[fieldID]bool
	prio       map[*ssa.Function]int
	posExact   bool                                  // tell zero positions from others
	onPub      func(r *run, s *state, o ssa.Value)   // a node is seen by others (last pass only)
	onCall     func(r *run, s *state, c *ssa.Call)   // a call is about to be made (last pass only)
	onEdge     func(from, to *ssa.BasicBlock)        // control passes (last pass only)
	onRet      func(r *run, s *state, x *ssa.Return) // a return is reached (last pass only)
}

// hooks let a rule add its own transfer functions on the tag component.
type hooks interface {
	descend(r *run, s *state, in ssa.CallInstruction, callee *ssa.Function) (handled bool, outs []*state)
}

type fieldID struct {
	n *types.Named
	i int
}

func newEngine(P *Prog, mode string) (*Engine, error) {
	e := &Engine{P: P, mode: mode, ctxs: map[string]*ctx{}, byFn: map[*ssa.Function]map[string]*ctx{}, class: map[*types.Named]*classInfo{},
		fi: map[*ssa.Function]*finfo{}, alarms: map[string]*alarm{}, nf: map[fieldID]bool{}, tracked: map[*types.Named]bool{},
		oblig: map[string]int{}, seenOb: map[string]bool{}, nodeCalls: map[string]bool{}, assumed: map[*ssa.Function]bool{}, readsParam: map[*ssa.Function]map[int]bool{}}
	get := func(n string) *types.Named {
		o := P.TPkg.Scope().Lookup(n)
		if o == nil {
			return nil
		}
		t, _ := o.Type().(*types.Named)
		return t
	}
	e.tokenT, e.lexerT, e.parserT, e.tokenKind, e.posT = get("Token"), get("Lexer"), get("Parser"), get("TokenKind"), get("Pos")
	if e.tokenT == nil || e.lexerT == nil || e.parserT == nil || e.tokenKind == nil || e.posT == nil {
		return nil, fmt.Errorf("types Token, Lexer, Parser, TokenKind, Pos not all found")
	}
	if c, ok := P.TPkg.Scope().Lookup("TokenKindEOF").(*types.Const); ok {
		e.eofKind = c.Val().ExactString()
	} else {
		return nil, fmt.Errorf("constant TokenKindEOF not found")
	}
	eofKindConst = e.eofKind
	onceNeverEmpty.Do(func() {
		tokenKindT = e.tokenKind
		findNeverEmpty(P)
	})
	e.findSetGlobals()
	e.consume = P.fn("(*Lexer).consumeToken")
	if e.consume == nil {
		return nil, fmt.Errorf("method (*Lexer).consumeToken not found")
	}
	// the struct holding the current token
	for _, n := range P.TPkg.Scope().Names() {
		if tn, ok := P.TPkg.Scope().Lookup(n).(*types.TypeName); ok {
			if nt, ok := tn.Type().(*types.Named); ok {
				if st, ok := nt.Underlying().(*types.Struct); ok {
					for i := 0; i < st.NumFields(); i++ {
						if st.Field(i).Name() == "currentToken" {
							e.lstateT = nt
						}
					}
				}
			}
		}
	}
	if e.lstateT == nil {
		return nil, fmt.Errorf("no struct with a currentToken field found")
	}
	for _, f := range P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Alloc:
					if n, _ := structOf(x.Type()); n != nil && n.Obj().Pkg() == P.TPkg {
						e.tracked[n] = true
					}
				case *ssa.Store:
					if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
						if _, ok := fa.X.(*ssa.Alloc); !ok {
							if n, _ := structOf(fa.X.Type()); n != nil {
								e.nf[fieldID{n, fa.Field}] = true
							}
						}
					}
				}
			}
		}
	}
	for _, n := range []*types.Named{e.tokenT, e.lexerT, e.parserT, e.lstateT} {
		delete(e.tracked, n)
	}
	return e, nil
}

var eofKindConst string
var tokenKindT *types.Named

// findSetGlobals finds the package variables that are given a non-nil value during
// initialisation and never assigned again.
func (e *Engine) findSetGlobals() {
	e.setGlobal = map[*ssa.Global]bool{}
	bad := map[*ssa.Global]bool{}
	var nonNil func(v ssa.Value, d int) bool
	nonNil = func(v ssa.Value, d int) bool {
		switch x := v.(type) {
		case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeClosure, *ssa.Function, *ssa.MakeInterface:
			return true
		case *ssa.Slice:
			al, ok := x.X.(*ssa.Alloc)
			if !ok || x.Low != nil || x.High != nil {
				return false
			}
			at, ok := deref(al.Type()).Underlying().(*types.Array)
			return ok && at.Len() > 0
		case *ssa.Call:
			f := x.Call.StaticCallee()
			if f != nil && f.Blocks == nil && f.String() == "errors.New" {
				return true
			}
			if f == nil || f.Blocks == nil || d > 3 || f.Signature.Results().Len() != 1 {
				return false
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if rt, ok := in.(*ssa.Return); ok && !nonNil(rt.Results[0], d+1) {
						return false
					}
				}
			}
			return true
		}
		return false
	}
	for _, f := range e.P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					switch x := in.(type) {
					case *ssa.Store:
						if x.Addr == ssa.Value(g) && f.Name() == "init" && f.Synthetic != "" && nonNil(x.Val, 0) {
							e.setGlobal[g] = true
						} else {
							bad[g] = true
						}
					case *ssa.UnOp:
					default:
						bad[g] = true
					}
				}
			}
		}
	}
	for g := range bad {
		delete(e.setGlobal, g)
	}
}

func (e *Engine) info(f *ssa.Function) *finfo {
	if x := e.fi[f]; x != nil {
		return x
	}
	x := buildInfo(f)
	e.fi[f] = x
	return x
}

func (e *Engine) classOf(n *types.Named) *classInfo {
	c := e.class[n]
	if c == nil {
		c = &classInfo{n: n, shapes: map[string]*shape{}, readers: map[*ctx]bool{}}
		e.class[n] = c
	}
	return c
}

const maxShapes = 400

func (e *Engine) addShape(sh *shape) {
	if sh == nil || !e.tracked[sh.n] {
		return
	}
	c := e.classOf(sh.n)
	for _, o := range c.shapes { // subsumed?
		ok := true
		for i := range sh.f {
			if sh.f[i]&^o.f[i] != 0 {
				ok = false
				break
			}
		}
		if ok {
			return
		}
	}
	// lossless merge: absorb shapes that differ in one field only
	for merged := true; merged; {
		merged = false
		for k, o := range c.shapes {
			d, super := 0, true
			for i := range sh.f {
				if sh.f[i] != o.f[i] {
					d++
				}
				if o.f[i]&^sh.f[i] != 0 {
					super = false
				}
			}
			if d <= 1 || super {
				delete(c.shapes, k)
				sh = joinShape(sh, o)
				merged = true
			}
		}
	}
	if len(c.shapes) >= maxShapes {
		// merge with the closest one
		var best *shape
		bd := 1 << 30
		var keys []string
		for k := range c.shapes {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			o := c.shapes[k]
			d := 0
			for i := range sh.f {
				if sh.f[i] != o.f[i] {
					d++
				}
			}
			if d < bd {
				best, bd = o, d
			}
		}
		delete(c.shapes, best.key)
		sh = joinShape(sh, best)
	}
	c.shapes[sh.key] = sh
	j := make([]bits, len(sh.f))
	for _, o := range c.shapes {
		for i := range j {
			j[i] |= o.f[i]
		}
	}
	changed := c.joined == nil
	for i := range j {
		if c.joined != nil && j[i] != c.joined[i] {
			changed = true
		}
	}
	c.joined = j
	if changed {
		for r := range c.readers {
			e.enqueue(r)
		}
	}
}

func (e *Engine) enqueue(c *ctx) {
	if !c.queued {
		c.queued = true
		e.queue = append(e.queue, c)
	}
}

const maxCtx = 60

func (e *Engine) getCtx(fn *ssa.Function, args []aval, tok bits, tag, tk string) *ctx {
	// normalise
	var b strings.Builder
	for i := range args {
		args[i].par = 0
		args[i].snap = false
		b.WriteString(args[i].key() + ";")
	}
	k := fmt.Sprintf("%s|%d|%s|%s|%s", fn.String(), tok, tag, tk, b.String())
	if c := e.ctxs[k]; c != nil {
		return c
	}
	lim := maxCtx
	if e.mode == "ast" {
		lim = 100000
	}
	for _, a := range args {
		if a.cst != "" || e.projShape(a.sh) != "" {
			lim = 4000
		}
	}
	if m := e.byFn[fn]; len(m) >= lim && tk != "" && tk != tkSeen && tk != tkSep {
		return e.getCtx(fn, args, tok, tag, tkSeen)
	}
	if m := e.byFn[fn]; len(m) >= 2*lim {
		for i := range args { // generalise
			if args[i].sh != nil {
				e.addShape(args[i].sh)
				args[i].sh, args[i].pub = nil, false
			}
			args[i].dyn = nil
			args[i].tied = false
			if i >= len(fn.Params) {
				args[i].b |= topOf(deref(fn.FreeVars[i-len(fn.Params)].Type()))
				continue
			}
			if n, _ := structOf(fn.Params[i].Type()); n == e.parserT || n == e.lexerT {
				continue
			}
			if i < len(fn.Params) {
				args[i].b |= topOf(fn.Params[i].Type()) & (eN | eT | bN | bV)
			}
		}
		b.Reset()
		for i := range args {
			b.WriteString(args[i].key() + ";")
		}
		k = fmt.Sprintf("%s|%d|%s|%s|%s", fn.String(), tok, tag, tk, b.String())
		if c := e.ctxs[k]; c != nil {
			return c
		}
	}
	c := &ctx{fn: fn, args: args, tok: tok, tag: tag, tk: tk, k: k, outs: map[string]*outcome{}, deps: map[*ctx]bool{}, reached: map[int]bool{}, advFalse: map[*ctx]token.Pos{}, calls: map[*ctx]bool{}}
	e.ctxs[k] = c
	if e.byFn[fn] == nil {
		e.byFn[fn] = map[string]*ctx{}
	}
	e.byFn[fn][k] = c
	e.enqueue(c)
	return c
}

func (e *Engine) solve() {
	e.ranks()
	for {
		e.drain()
		// objects that are not nodes can also come from package initialisation
		for n, c := range e.class {
			if c.joined == nil && len(c.readers) > 0 && e.tracked[n] && !e.P.NodeSet[n] {
				delete(e.tracked, n)
				for d := range c.readers {
					e.enqueue(d)
				}
			}
		}
		if len(e.queue) == 0 {
			return
		}
	}
}

func (e *Engine) drain() {
	for len(e.queue) > 0 {
		bi := 0 // deepest first
		for i := range e.queue {
			a, b := e.queue[i], e.queue[bi]
			if pa, pb := e.prio[a.fn], e.prio[b.fn]; pa < pb || pa == pb && a.k < b.k {
				bi = i
			}
		}
		c := e.queue[bi]
		e.queue = append(e.queue[:bi], e.queue[bi+1:]...)
		c.queued = false
		e.rounds++
		e.analyse(c)
	}
}

// ranks numbers the functions so that callees come before their callers where possible.
func (e *Engine) ranks() {
	if e.prio != nil {
		return
	}
	e.prio = map[*ssa.Function]int{}
	n := 0
	seen := map[*ssa.Function]bool{}
	var dfs func(f *ssa.Function)
	dfs = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil && e.inPkg(g) {
						dfs(g)
					}
				}
			}
		}
		n++
		e.prio[f] = n
	}
	for _, f := range e.P.Funcs {
		if f.Name() == "ParseStmts" {
			dfs(f)
		}
	}
	for _, f := range e.P.Funcs {
		dfs(f)
	}
}

// finish runs every reachable context once more to collect alarms.
func (e *Engine) finish() {
	for {
		e.reached = map[*ssa.BasicBlock]bool{}
		e.final = true
		e.alarms, e.oblig, e.seenOb = map[string]*alarm{}, map[string]int{}, map[string]bool{}
		e.pass()
		e.final = false
		if len(e.queue) == 0 {
			return
		}
		e.solve()
	}
}

func (e *Engine) reach(b *ssa.BasicBlock) {
	if e.final {
		e.reached[b] = true
	}
}

// deadBlocks lists the branches of analysed functions no path was found to take.
func (e *Engine) deadBlocks() (out []string) {
	fns := map[*ssa.Function]bool{}
	for c := range e.live {
		if e.live[c] {
			fns[c.fn] = true
		}
	}
	for f := range fns {
		for _, b := range f.Blocks {
			if e.reached[b] || b == f.Recover {
				continue
			}
			top := true
			for _, p := range b.Preds {
				if !e.reached[p] {
					top = false
				}
			}
			if !top {
				continue
			}
			pos := token.NoPos
			for _, in := range b.Instrs {
				if in.Pos().IsValid() {
					pos = in.Pos()
					break
				}
			}
			out = append(out, fmt.Sprintf("%s: %s block %d", e.P.pos(pos), fnName(f), b.Index))
		}
	}
	sort.Strings(out)
	return out
}

// pass analyses the contexts reachable from the roots, once each.
func (e *Engine) pass() {
	var todo []*ctx
	e.live = map[*ctx]bool{}
	for _, c := range e.ctxs {
		if c.root {
			todo = append(todo, c)
			e.live[c] = true
		}
	}
	sort.Slice(todo, func(i, j int) bool { return todo[i].k < todo[j].k })
	for len(todo) > 0 {
		c := todo[0]
		todo = todo[1:]
		e.analyse(c)
		var next []*ctx
		for d := range c.calls {
			if !e.live[d] {
				e.live[d] = true
				next = append(next, d)
			}
		}
		sort.Slice(next, func(i, j int) bool { return next[i].k < next[j].k })
		todo = append(todo, next...)
	}
}

const maxShapesPerKey = 6

func (e *Engine) addOutcome(c *ctx, o *outcome) {
	o.proj = e.projOut(o)
	k := o.key()
	if _, ok := c.outs[k]; ok {
		return
	}
	ck := o.ckey()
	var same []*outcome
	for _, x := range c.outs {
		if x.ckey() == ck {
			same = append(same, x)
		}
	}
	sort.Slice(same, func(i, j int) bool { return same[i].key() < same[j].key() })
	for _, x := range same {
		if subsumes(x, o) {
			return
		}
	}
	// merge with an outcome that has the same shapes (token states are joined), or when too many
	for _, x := range same {
		if sameShapes(x, o) || len(same) >= maxShapesPerKey {
			m := joinOutcome(x, o, e)
			if m.key() == x.key() {
				return
			}
			delete(c.outs, x.key())
			c.outs[m.key()] = m
			e.changed(c)
			return
		}
	}
	c.outs[k] = o
	e.changed(c)
}

func (e *Engine) changed(c *ctx) {
	if e.final {
		if os.Getenv("SADEBUG") != "" {
			fmt.Println("changed in final:", c.k)
		}
	}
	for d := range c.deps {
		e.enqueue(d)
	}
}

func shapeLE(a, b *shape) bool { // a within b
	if b == nil {
		return a == nil
	}
	if a == nil || a.n != b.n {
		return false
	}
	for i := range a.f {
		if a.f[i]&^b.f[i] != 0 {
			return false
		}
	}
	return true
}

// subsumes: everything o describes is already described by x (same coarse key).
func subsumes(x, o *outcome) bool {
	if o.tok&^x.tok != 0 || o.entry&^x.entry != 0 || x.quiet && !o.quiet {
		return false
	}
	for i := range o.res {
		if o.res[i].b&(bT|bV) != 0 && x.res[i].dyn != nil {
			if j := joinDyn(o.res[i].dyn, x.res[i].dyn); j == nil || j.key != x.res[i].dyn.key {
				return false
			}
		}
		if o.res[i].sh == nil && x.res[i].sh != nil && o.res[i].b&bV == 0 {
			continue
		}
		if !shapeLE(o.res[i].sh, x.res[i].sh) {
			return false
		}
	}
	for i := range o.pbits {
		if o.pbits[i]&^x.pbits[i] != 0 || o.ppub[i] && !x.ppub[i] || !shapeLE(o.psh[i], x.psh[i]) {
			return false
		}
	}
	return true
}

func sameShapes(a, b *outcome) bool {
	for i := range a.res {
		x, y := a.res[i].sh, b.res[i].sh
		if (x == nil) != (y == nil) || x != nil && x.key != y.key {
			return false
		}
	}
	return true
}

func joinOutcome(a, b *outcome, e *Engine) *outcome {
	r := &outcome{tk: a.tk, proj: a.proj, tok: a.tok | b.tok, adv: a.adv, entry: a.entry | b.entry, tag: a.tag, where: a.where, quiet: a.quiet && b.quiet}
	for i := range a.res {
		x := a.res[i]
		y := b.res[i]
		switch {
		case x.b&(bT|bV) == 0:
			x.dyn = y.dyn
		case y.b&(bT|bV) == 0:
		default:
			x.dyn = joinDyn(x.dyn, y.dyn)
		}
		x.b |= y.b
		if x.sh != nil || y.sh != nil {
			j := joinShape(x.sh, y.sh)
			if j == nil {
				if x.sh != nil {
					e.addShape(x.sh)
				}
				if y.sh != nil {
					e.addShape(y.sh)
				}
			}
			x.sh = j
		}
		r.res = append(r.res, x)
	}
	for i := range a.pbits {
		r.pbits = append(r.pbits, a.pbits[i]|b.pbits[i])
		r.ppub = append(r.ppub, a.ppub[i] || b.ppub[i])
		r.psh = append(r.psh, joinShape(a.psh[i], b.psh[i]))
	}
	return r
}

// ---------------------------------------------------------------- one context

type run struct {
	e    *Engine
	c    *ctx
	fi   *finfo
	fn   *ssa.Function
	in   [][]*state
	seen []map[string]bool
	todo [][]*state
	cur  ssa.Instruction
	cont map[ssa.Instruction][]*state
}

func (e *Engine) analyse(c *ctx) {
	fn := c.fn
	c.calls, c.advFalse, c.states = map[*ctx]bool{}, map[*ctx]token.Pos{}, 0
	r := &run{e: e, c: c, fi: e.info(fn), fn: fn}
	n := len(fn.Blocks)
	r.in, r.todo = make([][]*state, n), make([][]*state, n)
	r.seen = make([]map[string]bool, n)
	for i := range r.seen {
		r.seen[i] = map[string]bool{}
	}
	s := newState()
	s.lost = func(_ *state, v ssa.Value) {
		r.alarm("overwritten", v.Pos(), "parsed "+r.desc(v)+" is replaced before it is kept")
	}
	s.tok, s.entry, s.tag, s.tk = c.tok, c.tok, c.tag, c.tk
	for i, p := range fn.Params {
		a := c.args[i]
		s.env[p] = a.b
		if a.dyn != nil {
			s.dyn[p] = a.dyn
		}
		if a.tied {
			s.tied[p] = true
		}
		if a.sh != nil {
			s.fresh[p] = a.sh.n
			if a.pub {
				s.pub[p] = true
			}
			for j, b := range a.sh.f {
				s.fld[fk{p, j}] = fv{v: b}
			}
		}
	}
	if len(c.args) > len(fn.Params) {
		for i, v := range fn.FreeVars {
			if _, isS := deref(v.Type()).Underlying().(*types.Struct); !isS {
				s.fld[fk{v, fCell}] = fv{v: c.args[len(fn.Params)+i].b}
			}
		}
	}
	r.push(fn.Blocks[0], s)
	rpo := rpoIndex(fn)
	for iter := 0; ; iter++ {
		bi := -1
		for i := range r.todo {
			if len(r.todo[i]) > 0 && (bi < 0 || rpo[i] < rpo[bi]) {
				bi = i
			}
		}
		if bi < 0 {
			break
		}
		todo := r.todo[bi]
		r.todo[bi] = nil
		todo = r.compact(bi, todo)
		for _, st := range todo {
			c.states++
			if c.states > 400000 {
				panic(fmt.Sprintf("state explosion in %s", c.k))
			}
			r.e.reach(fn.Blocks[bi])
			r.block(fn.Blocks[bi], st.clone())
		}
	}
}

func rpoIndex(fn *ssa.Function) []int {
	idx := make([]int, len(fn.Blocks))
	var post []*ssa.BasicBlock
	seen := make([]bool, len(fn.Blocks))
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		if seen[b.Index] {
			return
		}
		seen[b.Index] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			dfs(b.Succs[i])
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i, b := range post {
		idx[b.Index] = len(post) - i
	}
	return idx
}

const maxStates = 48

func (r *run) push(b *ssa.BasicBlock, s *state) {
	if _, isLoop := r.fi.loops[b]; isLoop {
		s.since[b] = false
	}
	s.prune(r.fi, b)
	k := s.key(r.fi.num)
	if r.seen[b.Index][k] {
		return
	}
	r.seen[b.Index][k] = true
	r.todo[b.Index] = append(r.todo[b.Index], s)
}

// join merges two states; the shape of an object only one of them knows is recorded.
func (r *run) join(a, b *state) *state {
	for v := range a.fresh {
		if b.fresh[v] == nil && !a.pub[v] {
			r.e.addShape(r.shapeOf(a, v))
		}
	}
	for v := range b.fresh {
		if a.fresh[v] == nil && !b.pub[v] {
			r.e.addShape(r.shapeOf(b, v))
		}
	}
	// a finished object whose joined shape would mix two: record both and forget the details
	var forget []ssa.Value
	for v := range a.fresh {
		if _, ok := v.(*ssa.Alloc); ok || b.fresh[v] == nil || a.pub[v] || b.pub[v] {
			continue
		}
		x, y := r.shapeOf(a, v), r.shapeOf(b, v)
		if x == nil || y == nil || x.n != y.n || len(r.e.focus[x.n]) > 0 {
			continue
		}
		d := 0
		for i := range x.f {
			if x.f[i] != y.f[i] {
				d++
			}
		}
		if d > 1 && !shapeLE(x, y) && !shapeLE(y, x) {
			r.e.addShape(x)
			r.e.addShape(y)
			forget = append(forget, v)
		}
	}
	j := join(a, b)
	for _, v := range forget {
		delete(j.fresh, v)
		delete(j.pub, v)
		for k := range j.fld {
			if k.b == v {
				delete(j.fld, k)
			}
		}
	}
	return j
}

// compact merges pending states losslessly where possible, then by force when there are too many,
// also against the states already processed at this block.
func (r *run) compact(bi int, todo []*state) []*state {
	// lossless merges among the pending states
	todo = r.mergeClose(bi, todo)
	if len(r.in[bi])+len(todo) > maxStates {
		by := map[string]*state{}
		var order []string
		for _, s := range r.in[bi] {
			k := s.coarse() + r.proj(s)
			if o := by[k]; o != nil {
				by[k] = r.join(o, s)
			} else {
				by[k] = s
				order = append(order, k)
			}
		}
		base := map[string]string{}
		for k, s := range by {
			base[k] = s.key(r.fi.num)
		}
		for _, s := range todo {
			k := s.coarse() + r.proj(s)
			if o := by[k]; o != nil {
				by[k] = r.join(o, s)
			} else {
				by[k] = s
				order = append(order, k)
			}
		}
		todo = nil
		r.in[bi] = nil
		for _, k := range order {
			s := by[k]
			r.in[bi] = append(r.in[bi], s)
			nk := s.key(r.fi.num)
			if base[k] == nk && r.seen[bi]["P"+nk] {
				continue
			}
			r.seen[bi][nk] = true
			r.seen[bi]["P"+nk] = true
			todo = append(todo, s)
		}
		return todo
	}
	r.in[bi] = append(r.in[bi], todo...)
	for _, s := range todo {
		r.seen[bi]["P"+s.key(r.fi.num)] = true
	}
	return todo
}

// mergeClose merges states that differ in a single independent fact: the union is represented exactly.
func (r *run) mergeClose(bi int, todo []*state) []*state {
	if len(todo) < 2 || len(todo) > 4*maxStates {
		return todo
	}
	for changed := true; changed; {
		changed = false
	outer:
		for i := 0; i < len(todo); i++ {
			for j := i + 1; j < len(todo); j++ {
				if oneDiff(todo[i], todo[j]) {
					m := r.join(todo[i], todo[j])
					todo[i] = m
					todo = append(todo[:j], todo[j+1:]...)
					changed = true
					break outer
				}
			}
		}
	}
	var out []*state
	for _, s := range todo {
		k := s.key(r.fi.num)
		r.seen[bi][k] = true
		if r.seen[bi]["P"+k] {
			continue
		}
		out = append(out, s)
	}
	return out
}

func oneDiff(a, b *state) bool {
	if a.adv != b.adv || a.tk != b.tk || a.pend != b.pend || a.tag != b.tag || len(a.env) != len(b.env) || len(a.alias) != len(b.alias) || len(a.fld) != len(b.fld) ||
		len(a.fresh) != len(b.fresh) || len(a.pub) != len(b.pub) || len(a.dyn) != len(b.dyn) || len(a.tied) != len(b.tied) || len(a.snaps) != len(b.snaps) ||
		len(a.since) != len(b.since) || len(a.defers) != len(b.defers) || len(a.owed) != len(b.owed) {
		return false
	}
	d := 0
	if a.tok != b.tok || a.entry != b.entry {
		if len(a.tied) > 0 {
			return false
		}
		d++
	}
	for v, x := range a.env {
		y, ok := b.env[v]
		if !ok {
			return false
		}
		if x != y {
			d++
			if d > 1 {
				return false
			}
		}
	}
	for k, x := range a.fld {
		y, ok := b.fld[k]
		if !ok || x.rep != y.rep {
			return false
		}
		if x.v != y.v {
			d++
			if d > 1 {
				return false
			}
		}
	}
	for v, x := range a.alias {
		if b.alias[v] != x {
			return false
		}
	}
	for v := range a.fresh {
		if b.fresh[v] == nil {
			return false
		}
	}
	for v := range a.pub {
		if !b.pub[v] {
			return false
		}
	}
	for v, t := range a.dyn {
		if u := b.dyn[v]; u == nil || u.key != t.key {
			return false
		}
	}
	for v := range a.tied {
		if !b.tied[v] {
			return false
		}
	}
	for v := range a.owed {
		if !b.owed[v] {
			return false
		}
	}
	for v, x := range a.snaps {
		y := b.snaps[v]
		if y == nil || x.adv != y.adv || x.tok != y.tok || x.entry != y.entry || x.cur != y.cur || x.tk != y.tk || x.pend != y.pend || len(x.tied) != len(y.tied) {
			return false
		}
	}
	for v, x := range a.since {
		if b.since[v] != x {
			return false
		}
	}
	return true
}

func (r *run) alarm(rule string, pos token.Pos, what string) {
	if !r.e.final {
		return
	}
	k := rule + "|" + fnName(r.fn) + "|" + what + "|" + r.e.P.pos(pos)
	if r.e.alarms[k] == nil {
		r.e.alarms[k] = &alarm{rule, r.fn, pos, what, r.c}
	}
}

func (r *run) ob(rule string, in ssa.Instruction) {
	if !r.e.final {
		return
	}
	k := rule + fnName(r.fn) + fmt.Sprintf("%p", in)
	if !r.e.seenOb[k] {
		r.e.seenOb[k] = true
		r.e.oblig[rule]++
	}
}

func (r *run) block(b *ssa.BasicBlock, s *state) {
	r.c.reached[b.Index] = true
	r.steps(b, 0, s)
}

// steps executes the instructions of b from index i in state s.
func (r *run) steps(b *ssa.BasicBlock, i int, s *state) {
	for ; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		r.cur = in
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue // phis are applied on the edge
		case *ssa.Jump:
			r.edge(b, b.Succs[0], s)
			return
		case *ssa.If:
			t := s.clone()
			if r.refineCond(t, x.Cond, true, 0) {
				r.edge(b, b.Succs[0], t)
			}
			if r.refineCond(s, x.Cond, false, 0) {
				r.edge(b, b.Succs[1], s)
			}
			return
		case *ssa.Return:
			r.ret(s, x)
			return
		case *ssa.Panic:
			r.alarm("panic", x.Pos(), "explicit panic")
			return
		}
		outs := r.instr(s, in)
		if len(outs) == 0 {
			return
		}
		if len(outs) > 1 {
			for _, o := range outs[1:] {
				r.steps(b, i+1, o)
			}
		}
		s = outs[0]
	}
}

func (r *run) edge(from, to *ssa.BasicBlock, s *state) {
	if r.e.final && r.e.onEdge != nil {
		r.e.onEdge(from, to)
	}
	// phis, in parallel
	pi := -1
	for k, p := range to.Preds {
		if p == from {
			pi = k
		}
	}
	type asg struct {
		ph  *ssa.Phi
		src ssa.Value
	}
	var as []asg
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		as = append(as, asg{ph, s.canon(ph.Edges[pi])})
	}
	isPhi := map[ssa.Value]bool{}
	for _, a := range as {
		isPhi[a.ph] = true
	}
	// values of old phis that are still needed
	old := map[*ssa.Phi]bits{}
	for _, a := range as {
		old[a.ph] = s.get(a.src)
	}
	for _, a := range as {
		if a.src == ssa.Value(a.ph) {
			continue
		}
		if isPhi[a.src] {
			continue
		}
		s.kill(a.ph)
	}
	for _, a := range as {
		if a.src == ssa.Value(a.ph) {
			continue
		}
		if isPhi[a.src] { // source is overwritten in the same step: keep the value only
			delete(s.alias, a.ph)
			s.env[a.ph] = old[a.ph]
			continue
		}
		if c, ok := a.src.(*ssa.Const); ok && (isBackEdge(from, to) && !r.smallList(c) || !isIntConst(c)) {
			s.env[a.ph] = constBits(c)
			delete(s.alias, a.ph)
			continue
		}
		s.alias[a.ph] = a.src
		delete(s.env, a.ph)
	}
	if isBackEdge(from, to) {
		r.backEdge(from, to, s)
	}
	r.push(to, s)
}

// leaves tells that a state at block b certainly leaves the loop without doing anything.
func (r *run) leaves(b *ssa.BasicBlock, set map[int]bool, s *state, d int) bool {
	if !set[b.Index] {
		return true
	}
	if d > 3 {
		return false
	}
	for i, in := range b.Instrs {
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			if d > 0 {
				return false
			}
		case *ssa.If:
			if i != len(b.Instrs)-1 {
				return false
			}
			for k, want := range []bool{true, false} {
				t := s.clone()
				if r.refineCond(t, x.Cond, want, 0) && !r.leaves(b.Succs[k], set, t, d+1) {
					return false
				}
			}
			return true
		default:
			return false
		}
	}
	return false
}

// smallList: c may be followed exactly, as the position in a constant list of arguments.
func (r *run) smallList(c *ssa.Const) bool {
	if !isIntConst(c) || c.Value == nil || c.Int64() < 0 || c.Int64() > 4 {
		return false
	}
	for i, p := range r.fn.Params {
		if _, ok := p.Type().Underlying().(*types.Slice); ok && r.c.args[i].cst != "" {
			return true
		}
	}
	return false
}

func (r *run) backEdge(from, to *ssa.BasicBlock, s *state) {
	r.ob("loop", to.Instrs[0])
	if s.since[to] {
		return
	}
	if r.boundedLoop(to) {
		return
	}
	if r.leaves(to, r.fi.loops[to], s, 0) {
		return
	}
	r.alarm("loop", loopPos(to), "repetition without consuming input")
}

func loopPos(b *ssa.BasicBlock) token.Pos {
	for _, in := range b.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	for _, s := range b.Succs {
		for _, in := range s.Instrs {
			if in.Pos().IsValid() {
				return in.Pos()
			}
		}
	}
	return b.Parent().Pos()
}

// boundedLoop recognises loops bounded by their own control: range loops and counters
// that move one way towards a loop-invariant limit.
func (r *run) boundedLoop(h *ssa.BasicBlock) bool {
	return boundedLoop(r.fi, h)
}

func boundedLoop(fi *finfo, h *ssa.BasicBlock) bool {
	set := fi.loops[h]
	inv := func(v ssa.Value) bool {
		if ld, ok := v.(*ssa.UnOp); ok && set[ld.Block().Index] {
			return loopInvariantLoad(ld, h, set)
		}
		if in, ok := v.(ssa.Instruction); ok {
			if c, ok := v.(*ssa.Call); ok && set[c.Block().Index] {
				if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
					if ai, ok := c.Call.Args[0].(ssa.Instruction); ok && set[ai.Block().Index] {
						ld, ok := ai.(*ssa.UnOp)
						return ok && loopInvariantLoad(ld, h, set)
					}
					return true
				}
				return false
			}
			return !set[in.Block().Index]
		}
		return true
	}
	for bi := range set {
		b := h.Parent().Blocks[bi]
		// range over string or map
		for _, in := range b.Instrs {
			if nx, ok := in.(*ssa.Next); ok {
				if b.Dominates(latch(h, set)) {
					_ = nx
					return true
				}
			}
		}
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		exits := !set[b.Succs[0].Index] || !set[b.Succs[1].Index]
		if !exits || !dominatesAllLatches(b, h, set) {
			continue
		}
		cmp, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		stay := cmp.Op
		if !set[b.Succs[0].Index] {
			stay = negate(cmp.Op)
		}
		x, y := cmp.X, cmp.Y
		switch stay {
		case token.GTR, token.GEQ:
			x, y = y, x
			if stay == token.GTR {
				stay = token.LSS
			} else {
				stay = token.LEQ
			}
			fallthrough
		case token.LSS, token.LEQ:
			if inv(y) && moves(x, h, set) > 0 {
				return true
			}
			if inv(x) && moves(y, h, set) < 0 {
				return true
			}
		}
	}
	return false
}

// loopInvariantLoad: the load reads a field of an object fixed before the loop, and nothing in the
// loop (nor anything it calls in this module) assigns that field.
func loopInvariantLoad(ld *ssa.UnOp, h *ssa.BasicBlock, set map[int]bool) bool {
	if g, ok := ld.X.(*ssa.Global); ok && ld.Op == token.MUL {
		return fixedGlobal(g)
	}
	fa, ok := ld.X.(*ssa.FieldAddr)
	if !ok || ld.Op != token.MUL {
		return false
	}
	if in, ok := fa.X.(ssa.Instruction); ok && set[in.Block().Index] {
		return false
	}
	n, _ := structOf(fa.X.Type())
	if n == nil {
		return false
	}
	seen := map[*ssa.Function]bool{}
	var writes func(b *ssa.BasicBlock) bool
	writes = func(b *ssa.BasicBlock) bool {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if f2, ok := x.Addr.(*ssa.FieldAddr); ok {
					if m, _ := structOf(f2.X.Type()); m == n && f2.Field == fa.Field {
						return true
					}
				} else if m, _ := structOf(x.Addr.Type()); m == n {
					return true
				}
			case ssa.CallInstruction:
				if x.Common().IsInvoke() {
					return true
				}
				g := x.Common().StaticCallee()
				if g == nil {
					if _, isB := x.Common().Value.(*ssa.Builtin); !isB {
						return true
					}
					continue
				}
				if g.Pkg != nil && h.Parent().Pkg != nil && g.Pkg != h.Parent().Pkg {
					continue // the standard library does not fill nodes or parsers
				}
				if !seen[g] {
					seen[g] = true
					for _, gb := range g.Blocks {
						if writes(gb) {
							return true
						}
					}
				}
			}
		}
		return false
	}
	for bi := range set {
		if writes(h.Parent().Blocks[bi]) {
			return false
		}
	}
	return true
}

// fixedGlobal: the package variable is unexported, set by its declaration only, and its address is not taken.
func fixedGlobal(g *ssa.Global) bool {
	if g.Object() == nil || g.Object().Exported() {
		return false
	}
	if fixedGlobals == nil {
		fixedGlobals = map[*ssa.Global]bool{}
		moved := map[*ssa.Global]bool{}
		for _, m := range g.Pkg.Members {
			if h, ok := m.(*ssa.Global); ok {
				fixedGlobals[h] = true
			}
		}
		for f := range ssautil.AllFunctions(g.Pkg.Prog) {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						h, ok := (*op).(*ssa.Global)
						if !ok {
							continue
						}
						if ld, ok := in.(*ssa.UnOp); ok && ld.Op == token.MUL {
							continue
						}
						if f.Synthetic == "package initializer" {
							continue
						}
						moved[h] = true
					}
				}
			}
		}
		for h := range moved {
			fixedGlobals[h] = false
		}
	}
	return fixedGlobals[g]
}

var fixedGlobals map[*ssa.Global]bool

func negate(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GEQ
	case token.LEQ:
		return token.GTR
	case token.GTR:
		return token.LEQ
	case token.GEQ:
		return token.LSS
	case token.EQL:
		return token.NEQ
	case token.NEQ:
		return token.EQL
	}
	return op
}

func latch(h *ssa.BasicBlock, set map[int]bool) *ssa.BasicBlock {
	var l *ssa.BasicBlock
	for _, p := range h.Preds {
		if set[p.Index] {
			l = p
		}
	}
	return l
}

func dominatesAllLatches(b, h *ssa.BasicBlock, set map[int]bool) bool {
	for _, p := range h.Preds {
		if set[p.Index] && !b.Dominates(p) {
			return false
		}
	}
	return true
}

// moves tells whether v (a header phi, or phi plus constant) strictly increases (+1) or decreases (-1) in every iteration.
func moves(v ssa.Value, h *ssa.BasicBlock, set map[int]bool) int {
	if bo, ok := v.(*ssa.BinOp); ok && (bo.Op == token.ADD || bo.Op == token.SUB) {
		if _, ok := bo.Y.(*ssa.Const); ok {
			v = bo.X
		}
	}
	ph, ok := v.(*ssa.Phi)
	if !ok || ph.Block() != h {
		return 0
	}
	dir := 0
	for i, p := range h.Preds {
		if !set[p.Index] {
			continue
		}
		d := delta(ph.Edges[i], ph, map[ssa.Value]bool{})
		if d == 0 || dir != 0 && d != dir {
			return 0
		}
		dir = d
	}
	return dir
}

// delta: sign of (v - ph) when it is provably non-zero and constant-signed.
func delta(v ssa.Value, ph *ssa.Phi, seen map[ssa.Value]bool) int {
	if seen[v] {
		return 0
	}
	seen[v] = true
	defer delete(seen, v)
	switch x := v.(type) {
	case *ssa.BinOp:
		c, ok := x.Y.(*ssa.Const)
		if !ok || c.Value == nil {
			return 0
		}
		k := int(c.Int64())
		if x.Op == token.SUB {
			k = -k
		} else if x.Op != token.ADD {
			return 0
		}
		if x.X == ssa.Value(ph) {
			return sign(k)
		}
		if d := delta(x.X, ph, seen); d != 0 && d == sign(k) {
			return d
		}
		return 0
	case *ssa.Phi:
		dir := 0
		for _, ed := range x.Edges {
			d := delta(ed, ph, seen)
			if d == 0 || dir != 0 && d != dir {
				return 0
			}
			dir = d
		}
		return dir
	}
	return 0
}

func sign(k int) int {
	if k > 0 {
		return 1
	}
	if k < 0 {
		return -1
	}
	return 0
}
