package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Abstract interpretation of the tokenizer over linear expressions of the read
// position, sets of possible bytes at positions, and the slices tokens are cut from.

type lsym int

// lexp is a linear expression: k + sum of c*sym.
type lexp struct {
	k int64
	t map[lsym]int64
}

func lk(k int64) lexp          { return lexp{k: k} }
func ls(s lsym) lexp           { return lexp{t: map[lsym]int64{s: 1}} }
func (a lexp) add(b lexp) lexp { return a.comb(b, 1) }
func (a lexp) sub(b lexp) lexp { return a.comb(b, -1) }
func (a lexp) plus(k int64) lexp {
	return lexp{a.k + k, a.t}
}
func (a lexp) comb(b lexp, m int64) lexp {
	r := lexp{k: a.k + m*b.k, t: map[lsym]int64{}}
	for s, c := range a.t {
		r.t[s] = c
	}
	for s, c := range b.t {
		r.t[s] += m * c
		if r.t[s] == 0 {
			delete(r.t, s)
		}
	}
	return r
}
func (a lexp) isConst() bool { return len(a.t) == 0 }
func (a lexp) String() string {
	var ks []int
	for s := range a.t {
		ks = append(ks, int(s))
	}
	sort.Ints(ks)
	var b strings.Builder
	for _, s := range ks {
		fmt.Fprintf(&b, "%+d*s%d", a.t[lsym(s)], s)
	}
	fmt.Fprintf(&b, "%+d", a.k)
	return b.String()
}
func (a lexp) has(s lsym) bool { return a.t[s] != 0 }
func eqL(a, b lexp) bool       { d := a.sub(b); return d.isConst() && d.k == 0 }

type bset [4]uint64

func (b bset) has(c int) bool { return b[c>>6]&(1<<(c&63)) != 0 }
func (b *bset) add(c int)     { b[c>>6] |= 1 << (c & 63) }
func (b bset) and(o bset) bset {
	for i := range b {
		b[i] &= o[i]
	}
	return b
}
func (b bset) or(o bset) bset {
	for i := range b {
		b[i] |= o[i]
	}
	return b
}
func (b bset) not() bset {
	for i := range b {
		b[i] = ^b[i]
	}
	return b
}
func (b bset) empty() bool        { return b == bset{} }
func (b bset) within(o bset) bool { return b.and(o.not()).empty() }
func bytesOf(s string) (b bset) {
	for i := 0; i < len(s); i++ {
		b.add(int(s[i]))
	}
	return
}
func byteRange(lo, hi int) (b bset) {
	for i := max(lo, 0); i <= hi && i < 256; i++ {
		b.add(i)
	}
	return
}

var anyByte = bset{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}
var asciiSpace = bytesOf(" \t\n\v\f\r")

type avKind int

const (
	kUnk   avKind = iota
	kInt          // l
	kByte         // byte at position l
	kStr          // input[l:m]
	kText         // constant text s
	kBool         // b
	kGE           // l >= 0
	kEQ           // l == 0
	kNE           // l != 0
	kIn           // byte at l is in set
	kNil          // nil
	kSome         // non-nil error or pointer we know nothing else about
	kObj          // pointer to object s (may be nil if st.ptr says so)
	kAddr         // address of field path s
	kRune         // rune decoded at position l, size symbol m
	kSpace        // rune at l with size m is white space
	kIsNil        // object s is nil
	kTuple
	kStruct
	kUpper // upper-cased text of input[l:m]
)

type av struct {
	k    avKind
	l, m lexp
	set  bset
	s    string
	b    bool
	neg  bool
	tup  []av
	mem  map[string]av
}

func (a av) key() string {
	switch a.k {
	case kUnk, kNil, kSome:
		return fmt.Sprint(a.k)
	case kText, kObj, kAddr, kIsNil:
		return fmt.Sprint(a.k, a.s, a.neg)
	case kBool:
		return fmt.Sprint(a.k, a.b)
	case kTuple:
		r := "("
		for _, x := range a.tup {
			r += x.key() + ","
		}
		return r + ")"
	case kStruct:
		var ks []string
		for k, v := range a.mem {
			ks = append(ks, k+"="+v.key())
		}
		sort.Strings(ks)
		return "{" + strings.Join(ks, ",") + "}"
	}
	return fmt.Sprint(a.k, a.l, a.m, a.set, a.neg)
}

type cfact struct {
	pos lexp
	set bset
}
type rfact struct {
	lo, hi lexp
	set    bset
}
type spFact struct{ pos, size lexp }
type region struct{ from, to lexp }

type lst struct {
	mem    map[string]av
	facts  []lexp // each is >= 0
	chars  map[string]cfact
	ranges []rfact
	spaces []spFact
	moves  []region
	ptr    map[string]int // 1 non-nil, 2 nil
}

func (s *lst) clone() *lst {
	t := &lst{mem: cpm(s.mem), chars: cpm(s.chars), ptr: cpm(s.ptr)}
	t.facts = append([]lexp(nil), s.facts...)
	t.ranges = append([]rfact(nil), s.ranges...)
	t.spaces = append([]spFact(nil), s.spaces...)
	t.moves = append([]region(nil), s.moves...)
	return t
}

func (s *lst) key() string {
	var o []string
	for k, v := range s.mem {
		o = append(o, k+"="+v.key())
	}
	for k, v := range s.chars {
		o = append(o, "c"+k+fmt.Sprint(v.set))
	}
	for k, v := range s.ptr {
		o = append(o, fmt.Sprint("p", k, v))
	}
	for _, f := range s.facts {
		o = append(o, "f"+f.String())
	}
	for _, f := range s.ranges {
		o = append(o, "r"+f.lo.String()+f.hi.String()+fmt.Sprint(f.set))
	}
	for _, f := range s.spaces {
		o = append(o, "s"+f.pos.String())
	}
	sort.Strings(o)
	for _, f := range s.moves {
		o = append(o, "m"+f.from.String()+f.to.String())
	}
	return strings.Join(o, ";")
}

func (s *lst) charAt(p lexp) bset {
	r := anyByte
	if f, ok := s.chars[p.String()]; ok {
		r = f.set
	}
	return r
}

// prove g >= 0 from the facts.
func (s *lst) prove(g lexp) bool {
	if g.isConst() {
		return g.k >= 0
	}
	// some fact must cancel any chosen symbol of the goal
	var try func(g lexp, d int) bool
	try = func(g lexp, d int) bool {
		if g.isConst() {
			return g.k >= 0
		}
		if d == 0 {
			return false
		}
		var v lsym
		for y := range g.t {
			if v == 0 || y > v { // the youngest symbol occurs in the fewest facts
				v = y
			}
		}
		for _, f := range s.facts {
			if f.t[v]*g.t[v] > 0 && try(g.sub(f), d-1) {
				return true
			}
		}
		return false
	}
	return try(g, 6)
}

// liveSyms: the symbols that memory, pending moves or any frame still mention.
func (x *lx) liveSyms(s *lst, env map[ssa.Value]av) map[lsym]bool {
	live := map[lsym]bool{x.L: true, x.o: true}
	var addAv func(a av)
	addL := func(l lexp) {
		for y := range l.t {
			live[y] = true
		}
	}
	addAv = func(a av) {
		addL(a.l)
		addL(a.m)
		for _, t := range a.tup {
			addAv(t)
		}
		for _, t := range a.mem {
			addAv(t)
		}
	}
	for _, a := range s.mem {
		addAv(a)
	}
	for _, m := range s.moves {
		addL(m.from)
		addL(m.to)
	}
	for _, a := range env {
		addAv(a)
	}
	for _, e := range x.envs {
		for _, a := range e {
			addAv(a)
		}
	}
	return live
}

// gc forgets what is known about values nothing refers to any more.
func (x *lx) gc(s *lst, env map[ssa.Value]av) map[lsym]bool {
	live := x.liveSyms(s, env)
	all := func(l lexp) bool {
		for y := range l.t {
			if !live[y] {
				return false
			}
		}
		return true
	}
	var fs []lexp
	for _, f := range s.facts {
		if all(f) {
			fs = append(fs, f)
		}
	}
	s.facts = fs
	for k, c := range s.chars {
		if !all(c.pos) {
			delete(s.chars, k)
		}
	}
	var rs []rfact
	for _, r := range s.ranges {
		if all(r.lo) && all(r.hi) {
			rs = append(rs, r)
		}
	}
	s.ranges = rs
	var sp []spFact
	for _, r := range s.spaces {
		if all(r.pos) && all(r.size) {
			sp = append(sp, r)
		}
	}
	s.spaces = sp
	return live
}

// symAt gives a symbol for a value that arises at a place: the same one for every
// state reaching it, unless the state already uses that one.
func (x *lx) symAt(what string, live map[lsym]bool) lsym {
	site := what
	for _, in := range x.stack {
		site += fmt.Sprint("/", in.Pos())
	}
	for n := 0; ; n++ {
		k := fmt.Sprint(site, "#", n)
		if x.named[k] == 0 {
			x.named[k] = x.fresh()
		}
		if !live[x.named[k]] {
			live[x.named[k]] = true
			return x.named[k]
		}
	}
}

func (s *lst) assume(f lexp) bool { // false: contradiction
	if f.isConst() {
		return f.k >= 0
	}
	for _, g := range s.facts {
		if d := f.sub(g); d.isConst() && d.k >= 0 { // implied by g
			return true
		}
	}
	// f >= 0 and g = -f - k >= 0 with k>0 contradict
	neg := lk(-1).sub(f) // f < 0
	if s.prove(neg) {
		return false
	}
	s.facts = append(s.facts, f)
	return true
}

type lout struct {
	st  *lst
	res []av
}

type lcont struct {
	from, to *ssa.BasicBlock
	st       *lst
	env      map[ssa.Value]av
}

type lx struct {
	P        *Prog
	e        *Engine
	fi       map[*ssa.Function]*finfo
	nsym     lsym
	stack    []ssa.Instruction // calls being inlined
	fns      []*ssa.Function
	bad      func(rule string, fn *ssa.Function, pos token.Pos, what string)
	quiet    int
	offPath  string
	tokPath  string
	errPath  string
	L, o     lsym
	envs     []map[ssa.Value]av
	named    map[string]lsym
	ob       map[string]map[token.Pos]bool
	steps    int
	analysed map[*ssa.Function]bool
	lookups  map[string]bool // how the tokenizer asks whether a word is a keyword
}

func (x *lx) fresh() lsym { x.nsym++; return x.nsym }

func (x *lx) alarm(rule string, pos token.Pos, what string) {
	if x.quiet > 0 {
		return
	}
	// attribute to the innermost function that is not a trivial helper
	i := len(x.fns) - 1
	for i > 0 && len(x.fns[i].Blocks) == 1 {
		pos = x.stack[i-1].Pos()
		i--
	}
	x.bad(rule, x.fns[i], pos, what)
}

func (x *lx) obl(rule string, pos token.Pos) {
	i := len(x.fns) - 1
	for i > 0 && len(x.fns[i].Blocks) == 1 {
		pos = x.stack[i-1].Pos()
		i--
	}
	if x.ob[rule] == nil {
		x.ob[rule] = map[token.Pos]bool{}
	}
	x.ob[rule][pos] = true
}

// lexRoles finds the paths of the lexer's position, current token and failure.
func (x *lx) roles() error {
	var walk func(t *types.Struct, pre string)
	var ints, toks, errs, strs []string
	walk = func(t *types.Struct, pre string) {
		for i := 0; i < t.NumFields(); i++ {
			f := t.Field(i)
			p := pre + "." + f.Name()
			switch u := f.Type().Underlying().(type) {
			case *types.Basic:
				if u.Info()&types.IsInteger != 0 {
					ints = append(ints, p)
				} else if u.Info()&types.IsString != 0 {
					strs = append(strs, p)
				}
			case *types.Pointer:
				if isNamed(u.Elem(), x.e.tokenT) {
					toks = append(toks, p)
				}
			case *types.Interface:
				if f.Type().String() == "error" {
					errs = append(errs, p)
				}
			case *types.Struct:
				walk(u, p)
			}
		}
	}
	walk(x.e.lexerT.Underlying().(*types.Struct), "L")
	pick := func(l []string, hint string) string {
		for _, p := range l {
			if strings.Contains(strings.ToLower(p[strings.LastIndex(p, ".")+1:]), hint) {
				return p
			}
		}
		if len(l) == 1 {
			return l[0]
		}
		return ""
	}
	x.offPath, x.tokPath, x.errPath = pick(ints, "off"), pick(toks, "current"), pick(errs, "err")
	if x.offPath == "" || x.tokPath == "" || pick(strs, "input") == "" {
		return fmt.Errorf("the tokenizer's input, position and current token fields were not identified")
	}
	return nil
}

func (x *lx) val(env map[ssa.Value]av, v ssa.Value) av {
	switch c := v.(type) {
	case *ssa.Const:
		if c.Value == nil {
			if _, ok := c.Type().Underlying().(*types.Struct); ok {
				return av{k: kStruct, mem: map[string]av{}}
			}
			return av{k: kNil}
		}
		switch c.Value.Kind() {
		case constant.Int:
			if n, ok := constant.Int64Val(c.Value); ok {
				return av{k: kInt, l: lk(n)}
			}
		case constant.String:
			return av{k: kText, s: constant.StringVal(c.Value)}
		case constant.Bool:
			return av{k: kBool, b: constant.BoolVal(c.Value)}
		}
		return av{}
	case *ssa.Global, *ssa.Function:
		return av{k: kSome}
	}
	return env[v]
}

// load reads a path, giving unknown memory its initial meaning.
func (x *lx) load(s *lst, path string, t types.Type) av {
	if v, ok := s.mem[path]; ok {
		return v
	}
	if st, ok := t.Underlying().(*types.Struct); ok {
		m := map[string]av{}
		for i := 0; i < st.NumFields(); i++ {
			sub := x.load(s, path+"."+st.Field(i).Name(), st.Field(i).Type())
			m[st.Field(i).Name()] = sub
		}
		return av{k: kStruct, mem: m}
	}
	if strings.HasPrefix(path, "N") { // freshly allocated: zero
		switch u := t.Underlying().(type) {
		case *types.Basic:
			if u.Info()&types.IsInteger != 0 {
				return av{k: kInt, l: lk(0)}
			}
			if u.Info()&types.IsString != 0 {
				return av{k: kText}
			}
			if u.Info()&types.IsBoolean != 0 {
				return av{k: kBool}
			}
		case *types.Pointer, *types.Interface, *types.Slice, *types.Map:
			return av{k: kNil}
		}
		return av{}
	}
	var v av
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsInteger != 0 {
			v = av{k: kInt, l: ls(x.fresh())}
		}
	}
	s.mem[path] = v
	return v
}

func (x *lx) store(s *lst, path string, v av, t types.Type) {
	if v.k == kStruct {
		if st, ok := t.Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				w, ok := v.mem[f.Name()]
				if !ok {
					w = x.load(s, "N.zero."+f.Name(), f.Type())
				}
				x.store(s, path+"."+f.Name(), w, f.Type())
			}
			return
		}
	}
	if path == x.offPath {
		old := x.load(s, path, t)
		if v.k != kInt {
			v = av{k: kInt, l: ls(x.fresh())}
		}
		if old.k == kInt && !eqL(old.l, v.l) {
			s.moves = append(s.moves, region{old.l, v.l})
		}
	}
	s.mem[path] = v
}

// truth refines the state by a condition; it reports whether that is possible.
func (x *lx) truth(s *lst, c av, want bool) bool {
	if c.neg {
		want = !want
	}
	switch c.k {
	case kBool:
		return c.b == want
	case kGE:
		if want {
			return s.assume(c.l)
		}
		return s.assume(lk(-1).sub(c.l))
	case kEQ, kNE:
		if (c.k == kEQ) == want {
			return s.assume(c.l) && s.assume(lk(0).sub(c.l))
		}
		if c.l.isConst() {
			return c.l.k != 0
		}
		if s.prove(c.l) { // >= 0 and != 0
			return s.assume(c.l.plus(-1))
		}
		if n := lk(0).sub(c.l); s.prove(n) {
			return s.assume(n.plus(-1))
		}
		return true
	case kIn:
		set := c.set
		if !want {
			set = set.not()
		}
		r := s.charAt(c.l).and(set)
		if r.empty() {
			return false
		}
		s.chars[c.l.String()] = cfact{c.l, r}
		return true
	case kSpace:
		if want {
			s.spaces = append(s.spaces, spFact{c.l, c.m})
		}
		return true
	case kIsNil:
		have := s.ptr[c.s]
		if want {
			if have == 1 {
				return false
			}
			s.ptr[c.s] = 2
		} else {
			if have == 2 {
				return false
			}
			s.ptr[c.s] = 1
		}
		return true
	}
	return true
}

func negAv(c av) av {
	if c.k == kBool {
		c.b = !c.b
		return c
	}
	c.neg = !c.neg
	return c
}

// run inlines fn.
func (x *lx) run(fn *ssa.Function, args []av, st *lst) []lout {
	if len(x.fns) > 20 || fn.Blocks == nil {
		x.fns = append(x.fns, fn)
		x.alarm("lexform", fn.Pos(), "the tokenizer nests calls beyond what the analysis follows")
		x.fns = x.fns[:len(x.fns)-1]
		return nil
	}
	x.analysed[fn] = true
	x.fns = append(x.fns, fn)
	defer func() { x.fns = x.fns[:len(x.fns)-1] }()
	if x.fi[fn] == nil {
		x.fi[fn] = buildInfo(fn)
	}
	env := map[ssa.Value]av{}
	for i, p := range fn.Params {
		if i < len(args) {
			env[p] = args[i]
		}
	}
	var outs []lout
	x.walk(fn, lcont{nil, fn.Blocks[0], st, env}, nil, nil, &outs)
	for _, o := range outs {
		res := map[ssa.Value]av{}
		for i, v := range o.res {
			res[ssa.NewConst(constant.MakeInt64(int64(i)), types.Typ[types.Int])] = v
		}
		x.gc(o.st, res)
	}
	return dedupOuts(outs)
}

func dedupOuts(o []lout) []lout {
	seen := map[string]bool{}
	var r []lout
	for _, a := range o {
		k := a.st.key()
		for _, v := range a.res {
			k += "|" + v.key()
		}
		if !seen[k] {
			seen[k] = true
			r = append(r, a)
		}
	}
	return r
}

// walk explores from c; inside a loop, region and head bound it and the
// back edges are collected in back.
func (x *lx) walk(fn *ssa.Function, c lcont, region map[int]bool, back *[]lcont, outs *[]lout) (exits []lcont) {
	fi := x.fi[fn]
	var head *ssa.BasicBlock
	if region != nil {
		head = c.to
	}
	work := []lcont{c}
	seen := map[string]bool{}
	first := true
	for len(work) > 0 {
		c := work[len(work)-1]
		work = work[:len(work)-1]
		x.steps++
		if x.steps > 400000 {
			panic("tokenizer analysis exceeds its budget")
		}
		if region != nil && !first {
			if c.to == head {
				*back = append(*back, c)
				continue
			}
			if !region[c.to.Index] {
				exits = append(exits, c)
				continue
			}
		}
		if !(first && region != nil) {
			if set := fi.loops[c.to]; set != nil {
				work = append(work, x.loop(fn, c, set, outs)...)
				continue
			}
			x.phis(&c)
		}
		first = false
		k := fmt.Sprint(c.to.Index, x.envKey(fn, c), "#", c.st.key())
		if seen[k] {
			continue
		}
		seen[k] = true
		work = append(work, x.block(fn, c, outs)...)
	}
	return exits
}

func (x *lx) envKey(fn *ssa.Function, c lcont) string {
	var ks []string
	for v := range x.fi[fn].live[c.to.Index] {
		if a, ok := c.env[v]; ok {
			ks = append(ks, v.Name()+"="+a.key())
		}
	}
	sort.Strings(ks)
	return strings.Join(ks, ";")
}

func (x *lx) phis(c *lcont) {
	if c.from == nil {
		return
	}
	k := -1
	for i, p := range c.to.Preds {
		if p == c.from {
			k = i
		}
	}
	c.env = cpm(c.env)
	up := map[ssa.Value]av{}
	for _, in := range c.to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		up[ph] = x.val(c.env, ph.Edges[k])
	}
	if len(up) > 0 {
		c.env = cpm(c.env)
		for v, a := range up {
			c.env[v] = a
		}
	}
}

// loop finds an invariant for the loop at c.to and returns the states leaving it.
func (x *lx) loop(fn *ssa.Function, c lcont, set map[int]bool, outs *[]lout) []lcont {
	head := c.to
	x.phis(&c)
	pre := c.st.clone()
	var phs []*ssa.Phi
	for _, in := range head.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phs = append(phs, ph)
	}
	havoc := map[string]bool{}    // memory the loop changes
	unk := map[ssa.Value]bool{}   // phis without a usable form
	fixed := map[ssa.Value]bool{} // phis believed not to change
	noInv := map[string]bool{}    // bounds that are not preserved
	for _, ph := range phs {
		fixed[ph] = true
	}
	for v := range c.env { // only what the loop and the code after it can still use
		if !x.fi[fn].live[head.Index][v] {
			c.env = cpm(c.env)
			for w := range c.env {
				if !x.fi[fn].live[head.Index][w] {
					delete(c.env, w)
				}
			}
			break
		}
	}
	live := x.gc(pre, c.env)
	dsym := map[string]lsym{}
	d := func(k string) lsym {
		if dsym[k] == 0 {
			dsym[k] = x.symAt(fmt.Sprint(fnName(fn), head.Index, k), live)
		}
		return dsym[k]
	}
	var rset bset // bytes a counting variable has passed over
	rsetOK := false
	for round := 0; ; round++ {
		if round > 40 {
			x.alarm("lexform", loopPos(head), "no invariant was found for this repetition")
			return nil
		}
		st := pre.clone()
		env := cpm(c.env)
		if havoc[x.offPath] {
			x.flush(st, head)
		}
		headOff := x.load(st, x.offPath, types.Typ[types.Int]).l
		for p := range havoc {
			v := st.mem[p]
			if p == x.offPath && v.k == kInt {
				dd := d("mem" + p)
				st.mem[p] = av{k: kInt, l: ls(dd)}
				st.assume(ls(dd).sub(v.l))
				st.assume(ls(dd).sub(ls(x.o)))
				st.assume(ls(dd))
				headOff = st.mem[p].l
			} else {
				st.mem[p] = av{}
				if p == x.tokPath {
					st.mem[p] = av{k: kObj, s: "T?"}
				}
			}
		}
		var counting []*ssa.Phi
		for _, ph := range phs {
			if fixed[ph] {
				continue
			}
			v := x.val(c.env, ph)
			if v.k == kInt && !unk[ph] {
				dd := d(ph.Name())
				env[ph] = av{k: kInt, l: v.l.add(ls(dd))}
				st.assume(ls(dd))
				counting = append(counting, ph)
			} else if isIntType(ph.Type()) && !isByteType(ph.Type()) {
				env[ph] = av{k: kInt, l: ls(d("?" + ph.Name()))}
			} else {
				env[ph] = av{}
			}
		}
		invs := map[string]func(s *lst, val func(*ssa.Phi) lexp) lexp{}
		invs["off"] = func(s *lst, val func(*ssa.Phi) lexp) lexp {
			return ls(x.L).sub(x.load(s, x.offPath, types.Typ[types.Int]).l)
		}
		for _, ph := range counting {
			invs[ph.Name()] = func(s *lst, val func(*ssa.Phi) lexp) lexp {
				return ls(x.L).sub(x.load(s, x.offPath, types.Typ[types.Int]).l).sub(val(ph))
			}
			invs["abs"+ph.Name()] = func(s *lst, val func(*ssa.Phi) lexp) lexp {
				return ls(x.L).sub(val(ph))
			}
		}
		var names []string
		for n := range invs {
			names = append(names, n)
		}
		sort.Strings(names)
		preVal := func(ph *ssa.Phi) lexp { return x.val(c.env, ph).l }
		headVal := func(ph *ssa.Phi) lexp { return env[ph].l }
		for _, n := range names {
			if noInv[n] {
				continue
			}
			if !pre.prove(invs[n](pre, preVal)) {
				noInv[n] = true
				continue
			}
			st.assume(invs[n](st, headVal))
		}
		if rsetOK && len(counting) == 1 && !havoc[x.offPath] {
			ph := counting[0]
			st.ranges = append(st.ranges, rfact{headOff.add(preVal(ph)), headOff.add(headVal(ph)), rset})
		}
		nmoves := len(st.moves)
		var backs []lcont
		var myOuts []lout
		x.quiet++
		exits := x.walk(fn, lcont{c.from, head, st.clone(), cpm(env)}, set, &backs, &myOuts)
		x.quiet--
		again := false
		var nr bset
		nrOK := len(counting) == 1
		for _, b := range backs {
			k := -1
			for i, p := range head.Preds {
				if p == b.from {
					k = i
				}
			}
			nv := map[*ssa.Phi]av{}
			for _, ph := range phs {
				nv[ph] = x.val(b.env, ph.Edges[k])
			}
			for p, v := range b.st.mem {
				o, had := st.mem[p]
				if !had && strings.HasPrefix(p, "N") {
					continue
				}
				if havoc[p] {
					if p == x.offPath && v.k == kInt && !b.st.prove(v.l.sub(headOff)) {
						x.alarm("lexform", loopPos(head), "the position may move backwards")
					}
					continue
				}
				if had && o.key() != v.key() {
					havoc[p] = true
					again = true
				}
			}
			for _, ph := range phs {
				if fixed[ph] {
					if nv[ph].key() != env[ph].key() {
						delete(fixed, ph)
						again = true
					}
				}
			}
			if again {
				continue
			}
			for _, ph := range counting {
				n := nv[ph]
				if n.k != kInt || !b.st.prove(n.l.sub(env[ph].l)) {
					unk[ph] = true
					again = true
				}
			}
			newVal := func(ph *ssa.Phi) lexp { return nv[ph].l }
			if !again {
				for _, nme := range names {
					if !noInv[nme] && !b.st.prove(invs[nme](b.st, newVal)) {
						noInv[nme] = true
						again = true
					}
				}
			}
			if nrOK && !again {
				ph := counting[0]
				inc := nv[ph].l.sub(env[ph].l)
				if !inc.isConst() || inc.k > 8 {
					nrOK = false
				} else {
					for j := int64(0); j < inc.k; j++ {
						nr = nr.or(b.st.charAt(headOff.add(env[ph].l).plus(j)))
					}
				}
			}
		}
		if again {
			rsetOK = false
			continue
		}
		if nrOK && !havoc[x.offPath] && !rsetOK && !nr.within(bset{}) && nr != anyByte {
			rset, rsetOK = nr, true
			continue // once more with what the passed bytes are known to be
		}
		// stable: what leaves is followed apart for the first round and for later ones
		if len(counting) == 1 && !havoc[x.offPath] {
			var b2 []lcont
			var o2 []lout
			exits = x.walk(fn, lcont{c.from, head, pre.clone(), cpm(c.env)}, set, &b2, &o2)
			st2 := st.clone()
			if st2.assume(env[counting[0]].l.sub(preVal(counting[0])).plus(-1)) {
				exits = append(exits, x.walk(fn, lcont{c.from, head, st2, cpm(env)}, set, &b2, &o2)...)
			}
			*outs = append(*outs, o2...)
		} else {
			*outs = append(*outs, myOuts...)
			if x.quiet == 0 {
				var b2 []lcont
				var o2 []lout
				x.walk(fn, lcont{c.from, head, st.clone(), cpm(env)}, set, &b2, &o2)
			}
		}
		x.obl("lexloop", loopPos(head))
		for _, b := range backs {
			k := -1
			for i, p := range head.Preds {
				if p == b.from {
					k = i
				}
			}
			total := lk(0)
			measures := 0
			bounded := true
			for _, ph := range counting {
				nv := x.val(b.env, ph.Edges[k]).l
				total = total.add(nv.sub(env[ph].l))
				measures++
				off := x.load(b.st, x.offPath, types.Typ[types.Int]).l
				if !b.st.prove(ls(x.L).plus(2).sub(off.add(nv))) && !b.st.prove(ls(x.L).plus(2).sub(nv)) {
					bounded = false
				}
			}
			if havoc[x.offPath] {
				n := x.load(b.st, x.offPath, types.Typ[types.Int]).l
				total = total.add(n.sub(headOff))
				measures++
				if !b.st.prove(ls(x.L).plus(2).sub(n)) {
					bounded = false
				}
			}
			if !b.st.prove(total.plus(-1)) || !bounded {
				if !boundedLoop(fi(x, fn), head) {
					x.alarm("lexloop", loopPos(head), "a repetition may go round without moving forward in the input")
				}
			}
			if havoc[x.offPath] {
				t := b.st.clone()
				t.moves = t.moves[nmoves:]
				x.flush(t, head)
			}
		}
		return exits
	}
}

func fi(x *lx, f *ssa.Function) *finfo { return x.fi[f] }

func isByteType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// flush accounts for everything skipped so far: it must be white space or comments.
func (x *lx) flush(s *lst, at *ssa.BasicBlock) {
	if rest := s.unexplained(x); len(rest) > 0 {
		x.alarm("skipped", loopPos(at), "moves past input that is neither white space nor a comment")
	}
	s.moves = nil
}

// unexplained removes what is white space or a comment from the moves.
func (s *lst) unexplained(x *lx) []region {
	var out []region
	mv := s.moves
	for i := 0; i < len(mv); {
		n := 0
		for j := len(mv); j > i; j-- {
			ok := true
			for k := i + 1; k < j; k++ {
				if !eqL(mv[k-1].to, mv[k].from) {
					ok = false
				}
			}
			if ok && s.blank(x, mv[i].from, mv[j-1].to) {
				n = j - i
				break
			}
		}
		if n == 0 {
			out = append(out, mv[i])
			i++
		} else {
			i += n
		}
	}
	return out
}

func (s *lst) blank(x *lx, a, b lexp) bool {
	if d := b.sub(a); d.isConst() && d.k == 0 {
		return true
	} else if d.isConst() && d.k > 0 && d.k < 8 {
		ok := true
		for j := int64(0); j < d.k; j++ {
			if !s.charAt(a.plus(j)).within(asciiSpace) {
				ok = false
			}
		}
		if ok {
			return true
		}
	}
	for _, f := range s.spaces {
		if eqL(f.pos, a) && eqL(f.pos.add(f.size), b) {
			return true
		}
	}
	for _, f := range s.ranges {
		if eqL(f.lo, a) && eqL(f.hi, b) && f.set.within(asciiSpace) {
			return true
		}
	}
	nl := bytesOf("\r\n")
	body := func(from lexp) bool { // from..b holds no line end except as its last byte
		for n := 0; n < 4 && s.charAt(from).and(nl).empty(); n++ {
			if _, ok := s.chars[from.String()]; !ok || eqL(from, b) {
				break
			}
			from = from.plus(1)
		}
		for _, f := range s.ranges {
			if !eqL(f.lo, from) || !f.set.and(nl).empty() {
				continue
			}
			if eqL(f.hi, b) {
				return true
			}
			if eqL(f.hi.plus(1), b) && s.charAt(f.hi).within(nl) {
				return true
			}
		}
		if d := b.sub(from); d.isConst() {
			if d.k == 0 {
				return true
			}
			return d.k == 1 && s.charAt(from).within(nl)
		}
		return false
	}
	if s.charAt(a).within(bytesOf("-")) && s.charAt(a.plus(1)).within(bytesOf("-")) && body(a.plus(2)) {
		return true
	}
	if s.charAt(a).within(bytesOf("#")) && body(a.plus(1)) {
		return true
	}
	if s.charAt(a).within(bytesOf("/")) && s.charAt(a.plus(1)).within(bytesOf("*")) &&
		s.charAt(b.plus(-2)).within(bytesOf("*")) && s.charAt(b.plus(-1)).within(bytesOf("/")) && s.prove(b.sub(a).plus(-4)) {
		return true
	}
	return false
}

// block executes the instructions of c.to.
func (x *lx) block(fn *ssa.Function, c lcont, outs *[]lout) []lcont {
	return x.from(fn, c, 0, outs)
}

func (x *lx) from(fn *ssa.Function, c lcont, i int, outs *[]lout) []lcont {
	b := c.to
	env := cpm(c.env)
	st := c.st
	for ; i < len(b.Instrs); i++ {
		switch in := b.Instrs[i].(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.If:
			cond := x.val(env, in.Cond)
			var out []lcont
			for k, s := range b.Succs {
				t := st.clone()
				if x.truth(t, cond, k == 0) {
					out = append(out, lcont{b, s, t, env})
				}
			}
			return out
		case *ssa.Jump:
			return []lcont{{b, b.Succs[0], st, env}}
		case *ssa.Return:
			var res []av
			for _, r := range in.Results {
				res = append(res, x.val(env, r))
			}
			*outs = append(*outs, lout{st, res})
			return nil
		case *ssa.Panic:
			x.alarm("lexbounds", in.Pos(), "a panic is reachable in the tokenizer")
			return nil
		case *ssa.Store:
			a := x.val(env, in.Addr)
			if a.k == kAddr {
				st = st.clone()
				x.store(st, a.s, x.val(env, in.Val), in.Val.Type())
			} else if t := in.Addr.Type(); isNamed(deref(t), x.e.lexerT) || isNamed(deref(t), x.e.lstateT) {
				x.alarm("lexform", in.Pos(), "writes tokenizer state in a way the analysis does not follow")
			}
		case ssa.CallInstruction:
			if d, ok := in.(*ssa.Defer); ok {
				x.alarm("lexform", d.Pos(), "defers a call inside the tokenizer")
				continue
			}
			v, _ := in.(ssa.Value)
			var all []lcont
			rs := x.call(in, env, st)
			for _, r := range rs {
				e := env
				if v != nil {
					e = cpm(env)
					switch len(r.res) {
					case 0:
					case 1:
						e[v] = r.res[0]
					default:
						e[v] = av{k: kTuple, tup: r.res}
					}
				}
				if len(rs) == 1 {
					env, st = e, r.st
					break
				}
				all = append(all, x.from(fn, lcont{c.from, b, r.st, e}, i+1, outs)...)
			}
			if len(rs) != 1 {
				return all
			}
		case ssa.Value:
			st = x.instr(env, st, in)
			if st == nil {
				return nil
			}
		}
	}
	return nil
}

func (x *lx) instr(env map[ssa.Value]av, st *lst, in ssa.Value) *lst {
	switch v := in.(type) {
	case *ssa.BinOp:
		env[v] = x.binop(v, x.val(env, v.X), x.val(env, v.Y), st)
	case *ssa.UnOp:
		a := x.val(env, v.X)
		switch v.Op {
		case token.NOT:
			env[v] = negAv(a)
		case token.MUL:
			if a.k == kAddr {
				st = st.clone()
				env[v] = x.load(st, a.s, v.Type())
			} else {
				env[v] = av{}
			}
		case token.SUB:
			if a.k == kInt {
				env[v] = av{k: kInt, l: lk(0).sub(a.l)}
			}
		}
	case *ssa.ChangeType, *ssa.MakeInterface, *ssa.ChangeInterface:
		ops := in.(ssa.Instruction).Operands(nil)
		env[v] = x.val(env, *ops[0])
		if mi, ok := in.(*ssa.MakeInterface); ok && mi != nil {
			env[v] = av{k: kSome}
		}
	case *ssa.Convert:
		a := x.val(env, v.X)
		tb, _ := v.Type().Underlying().(*types.Basic)
		if a.k == kInt && tb != nil && tb.Info()&types.IsInteger != 0 {
			env[v] = a
		} else if a.k == kByte && tb != nil && tb.Info()&types.IsInteger != 0 {
			env[v] = a
		} else if a.k == kByte && tb != nil && tb.Info()&types.IsString != 0 && st.charAt(a.l).within(byteRange(0, 127)) {
			env[v] = av{k: kStr, l: a.l, m: a.l.plus(1)}
		} else {
			env[v] = av{}
		}
	case *ssa.Alloc:
		path := fmt.Sprintf("N%d", v.Pos())
		for _, in := range x.stack {
			path += fmt.Sprint("/", in.Pos())
		}
		for again := true; again; {
			again = false
			if st.ptr[path] != 0 {
				path += "'"
				again = true
			}
		}
		st = st.clone()
		st.ptr[path] = 1
		if isNamed(deref(v.Type()), x.e.tokenT) {
			env[v] = av{k: kAddr, s: path}
		} else {
			env[v] = av{k: kAddr, s: path}
		}
	case *ssa.FieldAddr:
		a := x.val(env, v.X)
		name := deref(v.X.Type()).Underlying().(*types.Struct).Field(v.Field).Name()
		switch a.k {
		case kAddr:
			env[v] = av{k: kAddr, s: a.s + "." + name}
		case kObj:
			x.obl("lexbounds", v.Pos())
			if st.ptr[a.s] != 1 {
				x.alarm("lexbounds", v.Pos(), "the previous token may be absent here")
			}
			env[v] = av{k: kAddr, s: a.s + "." + name}
		case kNil:
			x.alarm("lexbounds", v.Pos(), "nil dereference in the tokenizer")
			return nil
		default:
			env[v] = av{}
		}
	case *ssa.Field:
		a := x.val(env, v.X)
		name := v.X.Type().Underlying().(*types.Struct).Field(v.Field).Name()
		if a.k == kStruct {
			env[v] = a.mem[name]
		}
	case *ssa.Extract:
		a := x.val(env, v.Tuple)
		if a.k == kTuple && v.Index < len(a.tup) {
			env[v] = a.tup[v.Index]
		} else {
			env[v] = av{}
		}
	case *ssa.Index:
		return x.index(env, st, v, v.X, v.Index)
	case *ssa.Lookup:
		if isString(v.X.Type()) {
			return x.index(env, st, v, v.X, v.Index)
		}
		k := x.val(env, v.Index)
		if g, ok := mapGlobal(v.X); ok {
			x.lookups[fmt.Sprintf("%s|%v", g, k.k == kUpper && !k.neg)] = true
		} else if k.k == kUpper || k.k == kStr {
			x.lookups[fmt.Sprintf("?|%v", k.k == kUpper && !k.neg)] = true
		}
		env[v] = av{}
	case *ssa.Slice:
		a := x.val(env, v.X)
		if !isString(v.X.Type()) {
			env[v] = av{}
			break
		}
		if a.k != kStr {
			env[v] = av{}
			break
		}
		lo, hi := lk(0), a.m.sub(a.l)
		okk := true
		if v.Low != nil {
			if w := x.val(env, v.Low); w.k == kInt {
				lo = w.l
			} else {
				okk = false
			}
		}
		if v.High != nil {
			if w := x.val(env, v.High); w.k == kInt {
				hi = w.l
			} else {
				okk = false
			}
		}
		x.obl("lexbounds", v.Pos())
		if !okk || !st.prove(lo) || !st.prove(hi.sub(lo)) || !st.prove(a.m.sub(a.l).sub(hi)) {
			x.alarm("lexbounds", v.Pos(), "a slice of the input may be out of range")
		}
		if okk {
			env[v] = av{k: kStr, l: a.l.add(lo), m: a.l.add(hi)}
		} else {
			env[v] = av{}
		}
	default:
		env[in] = av{}
	}
	return st
}

func mapGlobal(v ssa.Value) (string, bool) {
	for d := 0; d < 6; d++ {
		switch u := v.(type) {
		case *ssa.UnOp:
			v = u.X
		case *ssa.FieldAddr:
			v = u.X
		case *ssa.Field:
			v = u.X
		case *ssa.Global:
			return u.Name(), true
		default:
			return "", false
		}
	}
	return "", false
}

func (x *lx) index(env map[ssa.Value]av, st *lst, v ssa.Value, X, I ssa.Value) *lst {
	a, i := x.val(env, X), x.val(env, I)
	pos := v.(ssa.Instruction).Pos()
	x.obl("lexbounds", pos)
	if a.k == kText || a.k == kUnk {
		env[v] = av{}
		if a.k == kUnk {
			x.alarm("lexbounds", pos, "an index into text the analysis does not know")
		}
		return st
	}
	if i.k != kInt || a.k != kStr || !st.prove(i.l) || !st.prove(a.m.sub(a.l).sub(i.l).plus(-1)) {
		if os.Getenv("LXDBG") != "" && x.quiet == 0 {
			fmt.Println("DBG idx", x.P.pos(x.stack[len(x.stack)-1].Pos()), i.k, i.l, a.k, a.l, a.m, st.facts)
		}
		x.alarm("lexbounds", pos, "reads a byte that may lie beyond the input")
	}
	if i.k == kInt && a.k == kStr {
		st = st.clone()
		if !st.assume(ls(x.L).sub(a.l.add(i.l)).plus(-1)) {
			return nil
		}
		env[v] = av{k: kByte, l: a.l.add(i.l)}
	} else {
		env[v] = av{}
	}
	return st
}

func (x *lx) binop(in *ssa.BinOp, a, b av, st *lst) av {
	switch in.Op {
	case token.ADD:
		if a.k == kInt && b.k == kInt {
			return av{k: kInt, l: a.l.add(b.l)}
		}
		if a.k == kStr && b.k == kStr && eqL(a.m, b.l) {
			return av{k: kStr, l: a.l, m: b.m}
		}
	case token.SUB:
		if a.k == kInt && b.k == kInt {
			return av{k: kInt, l: a.l.sub(b.l)}
		}
	}
	if !isCmp(in.Op) {
		return av{}
	}
	op := in.Op
	if a.k == kInt && b.k == kByte || a.k == kText && b.k == kStr || a.k == kNil && b.k != kNil {
		a, b = b, a
		op = swapOp(op)
	}
	switch {
	case a.k == kInt && b.k == kInt:
		d := a.l.sub(b.l)
		switch op {
		case token.EQL:
			return av{k: kEQ, l: d}
		case token.NEQ:
			return av{k: kNE, l: d}
		case token.GEQ:
			return av{k: kGE, l: d}
		case token.GTR:
			return av{k: kGE, l: d.plus(-1)}
		case token.LEQ:
			return av{k: kGE, l: lk(0).sub(d)}
		case token.LSS:
			return av{k: kGE, l: lk(0).sub(d).plus(-1)}
		}
	case a.k == kByte && b.k == kInt && b.l.isConst():
		c := int(b.l.k)
		var set bset
		switch op {
		case token.EQL:
			set = byteRange(c, c)
		case token.NEQ:
			set = byteRange(c, c).not()
		case token.GEQ:
			set = byteRange(c, 255)
		case token.GTR:
			set = byteRange(c+1, 255)
		case token.LEQ:
			set = byteRange(0, c)
		case token.LSS:
			set = byteRange(0, c-1)
		}
		return av{k: kIn, l: a.l, set: set}
	case a.k == kStr && b.k == kText && (op == token.EQL || op == token.NEQ):
		if d := a.m.sub(a.l); d.isConst() && d.k == int64(len(b.s)) && d.k == 1 {
			return av{k: kIn, l: a.l, set: bytesOf(b.s), neg: op == token.NEQ}
		}
	case a.k == kText && b.k == kText && (op == token.EQL || op == token.NEQ):
		return av{k: kBool, b: (a.s == b.s) == (op == token.EQL)}
	case a.k == kBool && b.k == kBool && (op == token.EQL || op == token.NEQ):
		return av{k: kBool, b: (a.b == b.b) == (op == token.EQL)}
	case b.k == kNil && (op == token.EQL || op == token.NEQ):
		switch a.k {
		case kNil:
			return av{k: kBool, b: op == token.EQL}
		case kSome:
			return av{k: kBool, b: op == token.NEQ}
		case kAddr:
			return av{k: kBool, b: op == token.NEQ}
		case kObj:
			return av{k: kIsNil, s: a.s, neg: op == token.NEQ}
		}
	}
	return av{}
}

func (x *lx) call(in ssa.CallInstruction, env map[ssa.Value]av, st *lst) []lout {
	cc := in.Common()
	one := func(v ...av) []lout { return []lout{{st, v}} }
	if bi, ok := cc.Value.(*ssa.Builtin); ok {
		if bi.Name() == "len" {
			a := x.val(env, cc.Args[0])
			switch a.k {
			case kStr:
				return one(av{k: kInt, l: a.m.sub(a.l)})
			case kText:
				return one(av{k: kInt, l: lk(int64(len(a.s)))})
			}
			s := ls(x.symAt(fmt.Sprint(in.Pos()), x.liveSyms(st, env)))
			st = st.clone()
			st.assume(s)
			return []lout{{st, []av{{k: kInt, l: s}}}}
		}
		if (bi.Name() == "min" || bi.Name() == "max") && len(cc.Args) == 2 {
			a, b := x.val(env, cc.Args[0]), x.val(env, cc.Args[1])
			if a.k == kInt && b.k == kInt {
				d := a.l.sub(b.l)
				if bi.Name() == "max" {
					d = lk(0).sub(d)
				}
				var out []lout
				if t := st.clone(); t.assume(lk(0).sub(d)) {
					out = append(out, lout{t, []av{a}})
				}
				if t := st.clone(); t.assume(d.plus(-1)) {
					out = append(out, lout{t, []av{b}})
				}
				return out
			}
		}
		return one(av{})
	}
	f := cc.StaticCallee()
	var args []av
	for _, a := range cc.Args {
		args = append(args, x.val(env, a))
	}
	if f == nil {
		x.alarm("lexform", in.Pos(), "an indirect call inside the tokenizer")
		return one(av{})
	}
	if x.e.inPkg(f) && f.Blocks != nil {
		x.stack = append(x.stack, in)
		x.envs = append(x.envs, env)
		o := x.run(f, args, st.clone())
		x.envs = x.envs[:len(x.envs)-1]
		x.stack = x.stack[:len(x.stack)-1]
		return o
	}
	name := f.String()
	switch name {
	case "unicode/utf8.DecodeRuneInString":
		a := args[0]
		if a.k == kStr {
			st = st.clone()
			sz := ls(x.symAt(fmt.Sprint(in.Pos()), x.liveSyms(st, env)))
			st.assume(sz)
			n := a.m.sub(a.l)
			st.assume(n.sub(sz))
			if st.prove(n.plus(-1)) {
				st.assume(sz.plus(-1))
			}
			return []lout{{st, []av{{k: kRune, l: a.l, m: sz}, {k: kInt, l: sz}}}}
		}
	case "unicode.IsSpace":
		a := args[0]
		if a.k == kRune {
			return one(av{k: kSpace, l: a.l, m: a.m})
		}
		if a.k == kByte {
			return one(av{k: kIn, l: a.l, set: asciiSpace.or(byteRange(0x85, 0x85)).or(byteRange(0xa0, 0xa0))})
		}
	case "errors.New", "fmt.Errorf":
		return one(av{k: kSome})
	case "strings.ToUpper", "strings.ToLower":
		if args[0].k == kStr {
			return one(av{k: kUpper, l: args[0].l, m: args[0].m, neg: name == "strings.ToLower"})
		}
	case "strings.HasPrefix":
		a, b := args[0], args[1]
		if a.k == kStr && b.k == kText && len(b.s) < 8 {
			t := st.clone()
			out := []lout{{st, []av{{k: kBool, b: false}}}}
			ok := t.assume(a.m.sub(a.l).plus(-int64(len(b.s))))
			for i := 0; ok && i < len(b.s); i++ {
				ok = x.truth(t, av{k: kIn, l: a.l.plus(int64(i)), set: bytesOf(b.s[i : i+1])}, true)
			}
			if ok {
				out = append(out, lout{t, []av{{k: kBool, b: true}}})
			}
			return out
		}
	case "strings.IndexByte", "strings.Index", "strings.IndexAny", "strings.IndexRune":
		a, b := args[0], args[1]
		if a.k == kStr {
			t := st.clone()
			r := ls(x.symAt(fmt.Sprint(in.Pos()), x.liveSyms(st, env)))
			t.assume(r)
			n := int64(1)
			var stop bset
			if b.k == kText && name == "strings.Index" {
				n = int64(len(b.s))
				for i := range b.s {
					t.chars[a.l.add(r).plus(int64(i)).String()] = cfact{a.l.add(r).plus(int64(i)), bytesOf(b.s[i : i+1])}
				}
				if n == 1 {
					stop = bytesOf(b.s)
				}
			} else if b.k == kText {
				stop = bytesOf(b.s)
			} else if b.k == kInt && b.l.isConst() && b.l.k < 128 {
				stop = byteRange(int(b.l.k), int(b.l.k))
			}
			t.assume(a.m.sub(a.l).sub(r).plus(-n))
			u := st.clone()
			if !stop.empty() {
				t.chars[a.l.add(r).String()] = cfact{a.l.add(r), stop}
				t.ranges = append(t.ranges, rfact{a.l, a.l.add(r), stop.not()})
				u.ranges = append(u.ranges, rfact{a.l, a.m, stop.not()})
			}
			return []lout{{u, []av{{k: kInt, l: lk(-1)}}}, {t, []av{{k: kInt, l: r}}}}
		}
	}
	// an external function: harmless unless it is handed the tokenizer
	for _, a := range cc.Args {
		if isNamed(deref(a.Type()), x.e.lexerT) {
			x.alarm("lexform", in.Pos(), "hands the tokenizer to "+name)
		}
	}
	res := f.Signature.Results()
	var vs []av
	for i := 0; i < res.Len(); i++ {
		v := av{}
		if isIntType(res.At(i).Type()) {
			v = av{k: kInt, l: ls(x.symAt(fmt.Sprint(in.Pos(), "r", i), x.liveSyms(st, env)))}
		}
		vs = append(vs, v)
	}
	return []lout{{st, vs}}
}

type lexResult struct {
	ob        map[string]int
	bad       []violation
	badFn     []*ssa.Function
	functions []string
	paths     int
	lookups   map[string]bool
	quotes    map[lexQuote]bool
}

// lexQuote: what tokens are like and what they stand between.
type lexQuote struct {
	kind  string // "" unknown
	quote string // the recorded kind of quote, "" unknown
	delim bset   // the opening and closing character, empty without
}

// lexAnalyse decides the rules about the tokenizer.
func lexAnalyse(P *Prog, e *Engine) (*lexResult, error) {
	res := &lexResult{ob: map[string]int{}}
	seen := map[string]bool{}
	x := &lx{P: P, e: e, fi: map[*ssa.Function]*finfo{}, ob: map[string]map[token.Pos]bool{}, analysed: map[*ssa.Function]bool{}, lookups: map[string]bool{}}
	x.bad = func(rule string, fn *ssa.Function, pos token.Pos, what string) {
		k := rule + fnName(fn) + what + P.pos(pos)
		if !seen[k] {
			seen[k] = true
			res.bad = append(res.bad, violation{rule: rule, where: fnName(fn), what: what, pos: pos})
			res.badFn = append(res.badFn, fn)
		}
	}
	if err := x.roles(); err != nil {
		return nil, err
	}
	x.named = map[string]lsym{}
	x.L = x.fresh()
	o := x.fresh()
	x.o = o
	mk := func(failed bool) *lst {
		st := &lst{mem: map[string]av{}, chars: map[string]cfact{}, ptr: map[string]int{}}
		st.mem[x.offPath] = av{k: kInt, l: ls(o)}
		st.mem[x.tokPath] = av{k: kObj, s: "T0"}
		if x.errPath != "" {
			st.mem[x.errPath] = av{k: kNil}
			if failed {
				st.mem[x.errPath] = av{k: kSome}
			}
		}
		var ins func(t *types.Struct, pre string)
		ins = func(t *types.Struct, pre string) {
			for i := 0; i < t.NumFields(); i++ {
				f := t.Field(i)
				if isString(f.Type()) {
					st.mem[pre+"."+f.Name()] = av{k: kStr, l: lk(0), m: ls(x.L)}
				}
				if s, ok := f.Type().Underlying().(*types.Struct); ok {
					ins(s, pre+"."+f.Name())
				}
			}
		}
		ins(e.lexerT.Underlying().(*types.Struct), "L")
		st.facts = []lexp{ls(o), ls(x.L).sub(ls(o)), ls(x.L)}
		return st
	}
	self := av{k: kAddr, s: "L"}
	args := []av{self}
	f := e.consume
	report := func(rule, what string) {
		x.bad(rule, f, f.Pos(), what)
	}
	tokField := func(st *lst, path string, want func(types.Type, string) bool) (av, bool) {
		ts := e.tokenT.Underlying().(*types.Struct)
		for i := 0; i < ts.NumFields(); i++ {
			if want(ts.Field(i).Type(), ts.Field(i).Name()) {
				return x.load(st, path+"."+ts.Field(i).Name(), ts.Field(i).Type()), true
			}
		}
		return av{}, false
	}
	outs := x.run(f, args, mk(false))
	res.paths += len(outs)
	for _, u := range outs {
		st := u.st
		errv := av{k: kNil}
		if len(u.res) > 0 {
			errv = u.res[len(u.res)-1]
		}
		off := x.load(st, x.offPath, types.Typ[types.Int]).l
		res.ob["within"]++
		if !st.prove(ls(x.L).sub(off)) || !st.prove(off.sub(ls(o))) {
			report("within", "a step may leave the position outside the input or before where it was")
		}
		cur := st.mem[x.tokPath]
		if errv.k == kSome || errv.k == kUnk {
			res.ob["failure"]++
			if x.errPath == "" || st.mem[x.errPath].k == kNil {
				report("failure", "a tokenization failure is returned but not kept, so a caller that ignores it loses it")
			}
			if cur.k != kNil {
				report("failure", "after a tokenization failure the current token is not cleared")
			}
			if errv.k == kSome {
				continue
			}
		}
		if x.errPath != "" && st.mem[x.errPath].k == kSome {
			report("failure", "a tokenization failure is kept but not returned")
		}
		switch {
		case cur.k == kNil:
			res.ob["eof"]++
			if !st.prove(off.sub(ls(x.L))) {
				report("eof", "reports the end of input before the input is used up")
			}
			if len(st.unexplained(x)) > 0 {
				report("skipped", "moves past input that is neither white space nor a comment before the end of input")
			}
		case cur.k == kAddr:
			res.ob["token"]++
			p, ok1 := tokField(st, cur.s, func(t types.Type, n string) bool { return isNamed(t, e.posT) && n == "Pos" })
			q, ok2 := tokField(st, cur.s, func(t types.Type, n string) bool { return isNamed(t, e.posT) && n == "End" })
			s, ok3 := tokField(st, cur.s, func(t types.Type, n string) bool { b, ok := t.(*types.Basic); return ok && b.Kind() == types.String })
			if !ok1 || !ok2 || !ok3 {
				report("token", "the token's text and offsets were not identified")
				continue
			}
			where := x.tokenMaker(st, cur)
			if p.k != kInt || q.k != kInt || s.k != kStr || !eqL(p.l, s.l) || !eqL(q.l, s.m) {
				report("token", "a token's text is not the input between its recorded offsets"+where)
				continue
			}
			if !st.prove(p.l) || !st.prove(ls(x.L).sub(q.l)) || !st.prove(q.l.sub(p.l)) {
				report("token", "a token's offsets may lie outside the input"+where)
			}
			if !st.prove(off.sub(ls(o)).plus(-1)) {
				report("token", "a token may be produced without moving forward"+where)
			}
			// what was moved over: blanks, then an opening quote, the text, a closing quote
			rest := st.unexplained(x)
			if len(rest) == 0 {
				report("skipped", "a token is produced without moving past it"+where)
				continue
			}
			a, b := rest[0].from, rest[len(rest)-1].to
			okc := true
			for i := 1; i < len(rest); i++ {
				if !eqL(rest[i-1].to, rest[i].from) {
					okc = false
				}
			}
			quotes := bytesOf("'\"`")
			okl := eqL(a, p.l) || eqL(a.plus(1), p.l) && st.charAt(a).within(quotes)
			okr := eqL(b, q.l) || eqL(b, q.l.plus(1)) && st.charAt(q.l).within(quotes)
			if eqL(a, p.l) != eqL(b, q.l) {
				okl = false
			}
			if okl && !eqL(a, p.l) && st.charAt(a) != st.charAt(q.l) {
				okr = false
			}
			lq := lexQuote{}
			if k, ok := st.mem[cur.s+".Kind"]; ok && k.k == kText {
				lq.kind = k.s
			}
			if v, ok := tokField(st, cur.s, func(t types.Type, n string) bool { return n == "QuoteType" }); ok && v.k == kInt && v.l.isConst() {
				lq.quote = fmt.Sprint(v.l.k)
			}
			if !eqL(a, p.l) {
				lq.delim = st.charAt(a)
			}
			if res.quotes == nil {
				res.quotes = map[lexQuote]bool{}
			}
			res.quotes[lq] = true
			if !okc || !okl || !okr || !eqL(b, off) {
				report("skipped", "input next to a token is skipped although it is not white space, a comment or a quote"+where)
			}
		default:
			report("token", "the current token may be one from an earlier step")
		}
	}
	if x.errPath != "" {
		for _, u := range x.run(f, args, mk(true)) {
			res.ob["failure"]++
			off := x.load(u.st, x.offPath, types.Typ[types.Int]).l
			if len(u.res) == 0 || u.res[len(u.res)-1].k != kSome || u.st.mem[x.errPath].k != kSome || !eqL(off, ls(o)) {
				report("failure", "reading goes on after a tokenization failure")
			}
			if c := u.st.mem[x.tokPath]; c.k != kObj && c.k != kNil {
				report("failure", "a step after a tokenization failure produces a token")
			}
		}
	} else {
		report("failure", "the tokenizer does not keep a failure, so a caller that ignores it loses it")
	}
	for r, m := range x.ob {
		res.ob[r] += len(m)
	}
	for f := range x.analysed {
		res.functions = append(res.functions, fnName(f))
	}
	sort.Strings(res.functions)
	res.lookups = x.lookups
	return res, nil
}

// tokenMaker names the kind of token for a message.
func (x *lx) tokenMaker(st *lst, cur av) string {
	if k, ok := st.mem[cur.s+".Kind"]; ok && k.k == kText {
		return " (kind " + k.s + ")"
	}
	return ""
}
