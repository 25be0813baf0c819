package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// tokeval follows parser code under an assumption about the current token: constants,
// token tests and small tables are evaluated, everything else is unknown. Consuming a
// token makes the current token unknown. It is used to read decision tables out of code
// whatever form they are written in.

type gk uint8

const (
	gTop gk = iota
	gConst
	gNil
	gNonNil
	gFold  // text that is s in some letter case
	gTok   // pointer to the assumed token
	gList  // slice, array or pointer to an array kept in the heap
	gRef   // pointer to a cell in the heap
	gTuple // several results
	gFn    // function with bindings
	gSnap  // saved reading state
	gFieldP
)

type gval struct {
	k    gk
	c    constant.Value
	s    string
	id   int // heap
	lo   int
	n    int
	vs   []gval
	fn   *ssa.Function
	pos  int // gSnap, gTok: which token is meant
	fld  string
	note string // what the value was computed from
}

func (v gval) key() string {
	switch v.k {
	case gTop:
		return "T" + v.note
	case gConst:
		return "c" + v.c.ExactString()
	case gNil:
		return "nil"
	case gNonNil:
		return "nn" + v.note
	case gFold:
		return "f" + v.s
	case gTok:
		return fmt.Sprintf("tok%d%s", v.pos, v.fld)
	case gList:
		return fmt.Sprintf("l%d.%d.%d", v.id, v.lo, v.n)
	case gRef:
		return fmt.Sprintf("r%d", v.id)
	case gSnap:
		return fmt.Sprintf("s%d", v.pos)
	case gFn:
		return fmt.Sprintf("fn%p%d", v.fn, len(v.vs))
	}
	var p []string
	for _, x := range v.vs {
		p = append(p, x.key())
	}
	return "(" + strings.Join(p, ",") + ")"
}

// gtoken is the assumption: the kind and the text (upper-cased for words) of the current token.
type gtoken struct {
	kind string
	text string // "" unknown
	fold bool   // text is known up to letter case
	none bool   // there is no current token
}

type gstate struct {
	pos  int  // 0: the assumed token is current, 1: the assumed next one, beyond: unknown
	used bool // something was consumed
	heap map[int][]gval
	evs  []string
	dfs  []gdefer
}

// gdefer is a call put off until the function at a depth returns.
type gdefer struct {
	depth int
	in    *ssa.Defer
	fn    gval
	args  []gval
}

func (s *gstate) clone() *gstate {
	n := *s
	n.dfs = append([]gdefer(nil), s.dfs...)
	n.heap = cpm(s.heap)
	n.evs = append([]string(nil), s.evs...)
	return &n
}

type gout struct {
	vals []gval
	st   *gstate
}

type tokEval struct {
	P    *Prog
	e    *Engine
	T    gtoken
	T2   *gtoken // the token after it, when assumed
	fuel int
	// stop is asked before a call is entered; true means the call is an event.
	stop   func(x *tokEval, f *ssa.Function, args []gval, s *gstate) (gval, bool)
	enter  func(f *ssa.Function, args []gval, s *gstate) bool
	keep   *ssa.Function          // a stop that consumes nothing
	inline map[*ssa.Function]bool // entered although they build trees
	names  func(v ssa.Value) bool // the text of a name in the tree
	later  bool                   // the first token is no name and no string
	live   *tinterp
	kinds  []gtoken // when set, the position says which of these the current token is like
	hit    func(in ssa.Instruction, env map[ssa.Value]gval, s *gstate)
	sets   map[*ssa.Global]map[string]gval // contents of package tables
}

type gGiveup struct{ why string }

func newTokEval(P *Prog, e *Engine, T gtoken) *tokEval {
	return &tokEval{P: P, e: e, T: T, fuel: 400000, sets: packageTables(P)}
}

// run evaluates f; nil when it gave up.
func (x *tokEval) run(f *ssa.Function, args []gval) (outs []gout, err error) {
	defer func() {
		if r := recover(); r != nil {
			g, ok := r.(gGiveup)
			if !ok {
				panic(r)
			}
			err = fmt.Errorf("%s", g.why)
		}
	}()
	s := &gstate{heap: map[int][]gval{}}
	return x.exec(f, args, nil, s, 0), nil
}

// runKinds evaluates f with every token being any of the kinds; functions that build trees are left out.
func (x *tokEval) runKinds(f *ssa.Function) (err error) {
	defer func() {
		if r := recover(); r != nil {
			g, ok := r.(gGiveup)
			if !ok {
				panic(r)
			}
			err = fmt.Errorf("%s", g.why)
		}
	}()
	for k := range x.kinds {
		if x.later && (x.kinds[k].kind == "<ident>" || x.kinds[k].kind == "<string>") {
			continue
		}
		args := make([]gval, len(f.Params))
		for i, p := range f.Params {
			if n, _ := structOf(p.Type()); n == x.e.tokenT {
				args[i] = gval{k: gTok, pos: k}
			}
		}
		x.exec(f, args, nil, &gstate{heap: map[int][]gval{}, pos: k}, 0)
	}
	return nil
}

// plain: the function gives truth values, errors, texts or tokens only.
func (x *tokEval) plain(f *ssa.Function) bool {
	rs := f.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		t := rs.At(i).Type()
		if sl, ok := t.Underlying().(*types.Slice); ok {
			t = sl.Elem()
		}
		if n, _ := structOf(t); n != nil && n != x.e.tokenT && n != x.e.lstateT {
			return false
		}
		if _, ok := t.Underlying().(*types.Interface); ok && !isErrT(t) {
			return false
		}
	}
	return true
}

// anyKind gives an outcome for each kind the next token may have.
func (x *tokEval) anyKind(s *gstate, vals []gval) []gout {
	var outs []gout
	for k := range x.kinds {
		n := s.clone()
		n.pos, n.used = k, true
		outs = append(outs, gout{append([]gval(nil), vals...), n})
	}
	return outs
}

func (x *tokEval) exec(f *ssa.Function, args, binds []gval, s *gstate, depth int) []gout {
	if depth > 12 {
		panic(gGiveup{"calls nest too deeply at " + fnName(f)})
	}
	type item struct {
		b    *ssa.BasicBlock
		from *ssa.BasicBlock
		env  map[ssa.Value]gval
		s    *gstate
	}
	env := map[ssa.Value]gval{}
	for i, p := range f.Params {
		if i < len(args) {
			env[p] = args[i]
		}
	}
	for i, p := range f.FreeVars {
		if i < len(binds) {
			env[p] = binds[i]
		}
	}
	var outs []gout
	seenOut := map[string]bool{}
	seen := map[string]bool{}
	work := []item{{f.Blocks[0], nil, env, s}}
	visits := map[*ssa.BasicBlock]int{}
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		x.fuel--
		if x.fuel < 0 {
			panic(gGiveup{"too many paths in " + fnName(f)})
		}
		// phis
		if it.from != nil {
			k := -1
			for i, p := range it.b.Preds {
				if p == it.from {
					k = i
				}
			}
			nv := map[ssa.Value]gval{}
			for _, in := range it.b.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				nv[ph] = x.val(it.env, ph.Edges[k])
			}
			for v, g := range nv {
				it.env[v] = g
			}
		}
		visits[it.b]++
		if visits[it.b] > 400*(1+len(x.kinds)) {
			// a loop over something unknown: forget what it computes
			for v := range it.env {
				if ph, ok := v.(*ssa.Phi); ok && ph.Block() == it.b {
					it.env[v] = gval{}
				}
			}
		}
		if visits[it.b] > 3000*(1+len(x.kinds)) {
			panic(gGiveup{"a loop that is not followed in " + fnName(f)})
		}
		key := x.key(it.b, it.env, it.s)
		if seen[key] {
			continue
		}
		seen[key] = true
		states := []item{it}
		for idx := 0; idx < len(it.b.Instrs) && len(states) > 0; idx++ {
			in := it.b.Instrs[idx]
			if _, ok := in.(*ssa.Phi); ok {
				continue
			}
			var next []item
			for _, st := range states {
				if x.hit != nil {
					x.hit(in, st.env, st.s)
				}
				switch i := in.(type) {
				case *ssa.If:
					c := x.val(st.env, i.Cond)
					take := func(k int) {
						work = append(work, item{it.b.Succs[k], it.b, cpm(st.env), st.s.clone()})
					}
					if c.k == gConst && c.c.Kind() == constant.Bool {
						if constant.BoolVal(c.c) {
							take(0)
						} else {
							take(1)
						}
					} else {
						take(1)
						take(0)
					}
				case *ssa.Jump:
					work = append(work, item{it.b.Succs[0], it.b, st.env, st.s})
				case *ssa.Return:
					var vs []gval
					for _, r := range i.Results {
						vs = append(vs, x.val(st.env, r))
					}
					k := x.outKey(vs, st.s)
					if !seenOut[k] {
						seenOut[k] = true
						outs = append(outs, gout{vs, st.s})
					}
				case *ssa.Panic:
				case ssa.CallInstruction:
					if df, ok := i.(*ssa.Defer); ok {
						d := gdefer{depth: depth, in: df}
						if !df.Call.IsInvoke() {
							d.fn = x.val(st.env, df.Call.Value)
						}
						for _, a := range df.Call.Args {
							d.args = append(d.args, x.val(st.env, a))
						}
						st.s.dfs = append(st.s.dfs, d)
						next = append(next, st)
						continue
					}
					for n, o := range x.call(st.env, i, st.s, depth) {
						e2 := st.env
						if n > 0 {
							e2 = cpm(st.env)
						}
						_ = n
						ns := item{st.b, st.from, cpm(e2), o.st}
						if v := i.Value(); v != nil {
							if len(o.vals) == 1 {
								ns.env[v] = o.vals[0]
							} else {
								ns.env[v] = gval{k: gTuple, vs: o.vals}
							}
						}
						next = append(next, ns)
					}
				case *ssa.RunDefers:
					for _, s2 := range x.runDefers(st.s, depth) {
						next = append(next, item{st.b, st.from, cpm(st.env), s2})
					}
				default:
					x.step(st.env, in, st.s)
					next = append(next, st)
				}
			}
			states = next
		}
	}
	return outs
}

// runDefers runs the calls put off at a depth, the last one first.
func (x *tokEval) runDefers(s *gstate, depth int) []*gstate {
	n := len(s.dfs)
	if n == 0 || s.dfs[n-1].depth != depth {
		return []*gstate{s}
	}
	d := s.dfs[n-1]
	s.dfs = s.dfs[:n-1]
	var out []*gstate
	f := d.fn.fn
	if f == nil || !x.P.inPkg(f) || f.Blocks == nil {
		return x.runDefers(s, depth)
	}
	for _, o := range x.exec(f, d.args, d.fn.vs, s, depth+1) {
		out = append(out, x.runDefers(o.st, depth)...)
	}
	return out
}

func (x *tokEval) heapKey(s *gstate) string {
	var ids []int
	for id := range s.heap {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	var b strings.Builder
	for _, id := range ids {
		fmt.Fprintf(&b, "%d:", id)
		for _, v := range s.heap[id] {
			b.WriteString(v.key())
		}
	}
	return b.String()
}

func (x *tokEval) key(b *ssa.BasicBlock, env map[ssa.Value]gval, s *gstate) string {
	var p []string
	var live map[ssa.Value]bool
	if x.kinds != nil {
		if x.live == nil {
			x.live = &tinterp{live: map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool{}}
		}
		live = x.live.liveness(b.Parent())[b]
	}
	for v, g := range env {
		if live != nil && !live[v] {
			if ph, ok := v.(*ssa.Phi); !ok || ph.Block() != b {
				continue
			}
		}
		if g.k != gTop || g.note != "" {
			p = append(p, v.Name()+"="+g.key())
		}
	}
	sort.Strings(p)
	return fmt.Sprintf("%d|%v|%v|%d|%s|%s|%s", b.Index, s.pos, s.used, len(s.dfs), strings.Join(s.evs, ";"), strings.Join(p, ","), x.heapKey(s))
}

func (x *tokEval) outKey(vs []gval, s *gstate) string {
	return gval{k: gTuple, vs: vs}.key() + fmt.Sprintf("%v%v%s", s.pos, s.used, strings.Join(s.evs, ";"))
}

func (x *tokEval) val(env map[ssa.Value]gval, v ssa.Value) gval {
	switch c := v.(type) {
	case *ssa.Const:
		if c.Value == nil {
			switch c.Type().Underlying().(type) {
			case *types.Struct, *types.Array:
				return gval{}
			}
			return gval{k: gNil}
		}
		return gval{k: gConst, c: c.Value}
	case *ssa.Function:
		return gval{k: gFn, fn: c}
	case *ssa.Global:
		return gval{k: gNonNil, note: "&" + c.Name()}
	}
	return env[v]
}

func gbool(b bool) gval { return gval{k: gConst, c: constant.MakeBool(b)} }

func (x *tokEval) isLState(t types.Type) bool {
	n, _ := t.(*types.Named)
	return n != nil && n == x.e.lstateT
}

func (x *tokEval) step(env map[ssa.Value]gval, in ssa.Instruction, s *gstate) {
	set := func(v ssa.Value, g gval) { env[v] = g }
	switch i := in.(type) {
	case *ssa.Alloc:
		id := int(i.Pos())*64 + 1
		switch t := deref(i.Type()).Underlying().(type) {
		case *types.Array:
			vs := make([]gval, t.Len())
			for k := range vs {
				vs[k] = zeroG(t.Elem())
			}
			s.heap[id] = vs
			set(i, gval{k: gList, id: id, n: int(t.Len())})
		case *types.Struct:
			if x.isLState(deref(i.Type())) {
				s.heap[id] = []gval{{}}
				set(i, gval{k: gRef, id: id})
			} else {
				set(i, gval{k: gNonNil, note: "new " + types.TypeString(deref(i.Type()), types.RelativeTo(x.P.TPkg))})
			}
		default:
			s.heap[id] = []gval{zeroG(deref(i.Type()))}
			set(i, gval{k: gRef, id: id})
		}
	case *ssa.FieldAddr:
		b := x.val(env, i.X)
		n, st := structOf(i.X.Type())
		if n == nil {
			set(i, gval{})
			return
		}
		name := st.Field(i.Field).Name()
		switch {
		case b.k == gTok && n == x.e.tokenT:
			set(i, gval{k: gFieldP, fld: "tok." + name, pos: b.pos})
		case n == x.e.lstateT || x.isLState(st.Field(i.Field).Type()):
			set(i, gval{k: gFieldP, fld: "ls." + name})
		default:
			set(i, gval{k: gNonNil, note: "&" + n.Obj().Name() + "." + name})
		}
	case *ssa.IndexAddr:
		b, k := x.val(env, i.X), x.val(env, i.Index)
		if b.k == gList && k.k == gConst {
			if n, ok := constant.Int64Val(k.c); ok && n >= 0 && int(n) < b.n {
				set(i, gval{k: gRef, id: b.id, lo: b.lo + int(n), n: 1})
				return
			}
		}
		set(i, gval{k: gNonNil})
	case *ssa.UnOp:
		a := x.val(env, i.X)
		switch i.Op {
		case token.NOT:
			if a.k == gConst {
				set(i, gbool(!constant.BoolVal(a.c)))
				return
			}
			set(i, gval{})
		case token.SUB:
			if a.k == gConst {
				set(i, gval{k: gConst, c: constant.UnaryOp(token.SUB, a.c, 0)})
				return
			}
			set(i, gval{})
		case token.MUL:
			set(i, x.load(i, a, i.X, s))
		default:
			set(i, gval{})
		}
	case *ssa.Store:
		a, v := x.val(env, i.Addr), x.val(env, i.Val)
		switch {
		case a.k == gRef:
			l := append([]gval(nil), s.heap[a.id]...)
			if a.lo < len(l) {
				l[a.lo] = v
			}
			s.heap[a.id] = l
		case a.k == gFieldP && strings.HasPrefix(a.fld, "ls."):
			if x.isLState(i.Val.Type()) {
				if v.k == gSnap {
					s.pos = v.pos
					s.used = v.pos > 0
				} else {
					s.pos, s.used = x.unknownPos(), true
				}
			} else if strings.Contains(a.fld, "currentToken") {
				s.pos, s.used = x.unknownPos(), true
			}
		}
	case *ssa.BinOp:
		set(i, x.binop(i, x.val(env, i.X), x.val(env, i.Y), s))
	case *ssa.ChangeType:
		set(i, x.val(env, i.X))
	case *ssa.Convert:
		a := x.val(env, i.X)
		if a.k == gConst && a.c.Kind() == constant.String && isStr(i.Type()) || a.k == gFold && isStr(i.Type()) {
			set(i, a)
			return
		}
		if a.k == gConst && a.c.Kind() == constant.Int && !isStr(i.Type()) {
			set(i, a)
			return
		}
		set(i, gval{note: a.note})
	case *ssa.MakeInterface:
		a := x.val(env, i.X)
		if a.k == gConst || a.k == gFold {
			set(i, a)
			return
		}
		if _, ok := i.X.Type().Underlying().(*types.Pointer); ok && a.k == gTop {
			set(i, gval{})
			return
		}
		set(i, gval{k: gNonNil, note: a.note})
	case *ssa.ChangeInterface:
		set(i, x.val(env, i.X))
	case *ssa.Slice:
		a := x.val(env, i.X)
		if a.k == gList {
			lo, hi := 0, a.n
			ok := true
			if i.Low != nil {
				l := x.val(env, i.Low)
				if l.k == gConst {
					n, _ := constant.Int64Val(l.c)
					lo = int(n)
				} else {
					ok = false
				}
			}
			if i.High != nil {
				h := x.val(env, i.High)
				if h.k == gConst {
					n, _ := constant.Int64Val(h.c)
					hi = int(n)
				} else {
					ok = false
				}
			}
			if ok && lo <= hi && hi <= a.n {
				set(i, gval{k: gList, id: a.id, lo: a.lo + lo, n: hi - lo})
				return
			}
		}
		set(i, gval{})
	case *ssa.Extract:
		t := x.val(env, i.Tuple)
		if t.k == gTuple && i.Index < len(t.vs) {
			set(i, t.vs[i.Index])
			return
		}
		set(i, gval{})
	case *ssa.Lookup:
		x.lookup(env, i, s)
	case *ssa.Field:
		set(i, gval{})
	case *ssa.Index:
		a, k := x.val(env, i.X), x.val(env, i.Index)
		if a.k == gConst && k.k == gConst && a.c.Kind() == constant.String {
			t := constant.StringVal(a.c)
			if n, ok := constant.Int64Val(k.c); ok && n >= 0 && int(n) < len(t) {
				set(i, gval{k: gConst, c: constant.MakeInt64(int64(t[n]))})
				return
			}
		}
		set(i, gval{})
	case *ssa.TypeAssert:
		set(i, gval{})
	case *ssa.MakeClosure:
		var vs []gval
		for _, b := range i.Bindings {
			vs = append(vs, x.val(env, b))
		}
		set(i, gval{k: gFn, fn: i.Fn.(*ssa.Function), vs: vs})
	case *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan:
		set(in.(ssa.Value), gval{k: gNonNil})
	case ssa.Value:
		set(i, gval{})
	}
}

func isStr(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func zeroG(t types.Type) gval {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return gbool(false)
		case u.Info()&types.IsString != 0:
			return gval{k: gConst, c: constant.MakeString("")}
		case u.Info()&types.IsInteger != 0:
			return gval{k: gConst, c: constant.MakeInt64(0)}
		}
		return gval{}
	case *types.Pointer, *types.Slice, *types.Map, *types.Interface, *types.Signature, *types.Chan:
		return gval{k: gNil}
	}
	return gval{}
}

func (x *tokEval) load(i *ssa.UnOp, a gval, addr ssa.Value, s *gstate) gval {
	if x.names != nil && isStr(i.Type()) && x.names(i) {
		return gval{note: "text:<ident>"}
	}
	if g, ok := addr.(*ssa.Global); ok {
		return gval{k: gNonNil, note: "global " + g.Name()}
	}
	switch a.k {
	case gRef:
		if l := s.heap[a.id]; a.lo < len(l) {
			return l[a.lo]
		}
	case gFieldP:
		switch {
		case strings.HasPrefix(a.fld, "tok."):
			T := x.token(a.pos)
			switch a.fld[4:] {
			case "Kind":
				if T.kind == "" {
					return gval{}
				}
				return gval{k: gConst, c: constant.MakeString(T.kind)}
			case "String":
				if T.text == "" {
					if x.kinds != nil {
						return gval{note: "text:" + T.kind}
					}
					return gval{}
				}
				if T.fold {
					return gval{k: gFold, s: T.text}
				}
				return gval{k: gConst, c: constant.MakeString(T.text)}
			}
			if x.kinds != nil {
				return gval{note: "token." + a.fld[4:] + ":" + T.kind}
			}
		case a.fld == "ls.currentToken":
			if T := x.token(s.pos); T != nil {
				if T.none {
					return gval{k: gNil}
				}
				return gval{k: gTok, pos: s.pos}
			}
			return gval{note: "cur"}
		}
		if x.isLState(i.Type()) {
			return gval{k: gSnap, pos: s.pos}
		}
	}
	if x.isLState(i.Type()) {
		return gval{k: gSnap, pos: s.pos}
	}
	return gval{}
}

const far = 2

// token is the assumed token at a position, nil when nothing is assumed.
func (x *tokEval) token(pos int) *gtoken {
	if x.kinds != nil {
		return &x.kinds[pos]
	}
	switch pos {
	case 0:
		return &x.T
	case 1:
		return x.T2
	}
	return nil
}

// unread: v compares the reading position with the length of the input.
func (x *tokEval) unread(i *ssa.BinOp) bool {
	field := func(v ssa.Value, n *types.Named) bool {
		u, ok := v.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			return false
		}
		fa, ok := u.X.(*ssa.FieldAddr)
		if !ok {
			return false
		}
		m, _ := structOf(fa.X.Type())
		return m != nil && m == n
	}
	c, ok := i.Y.(*ssa.Call)
	if !ok || !isInt(i.X.Type()) || !field(i.X, x.e.lstateT) {
		return false
	}
	b, ok := c.Common().Value.(*ssa.Builtin)
	return ok && b.Name() == "len" && isStr(c.Common().Args[0].Type()) && field(c.Common().Args[0], x.e.lexerT)
}

// unknownPos: nothing is known of the current token.
func (x *tokEval) unknownPos() int {
	if x.kinds != nil {
		return len(x.kinds) - 1
	}
	return far
}

func (x *tokEval) binop(i *ssa.BinOp, a, b gval, s *gstate) gval {
	if s.pos == 0 && x.T2 != nil && x.unread(i) {
		switch i.Op {
		case token.GEQ, token.EQL:
			return gbool(false)
		case token.LSS, token.NEQ:
			return gbool(true)
		}
	}
	if i.Op == token.ADD {
		for _, o := range []gval{a, b} {
			if strings.HasPrefix(o.note, "text:") {
				return gval{note: o.note}
			}
		}
	}
	isNilOp := i.Op == token.EQL || i.Op == token.NEQ
	if isNilOp && (a.k == gNil || b.k == gNil) {
		o := a
		if a.k == gNil {
			o = b
		}
		switch o.k {
		case gNil:
			return gbool(i.Op == token.EQL)
		case gNonNil, gTok, gRef, gFn, gFieldP:
			return gbool(i.Op == token.NEQ)
		}
		return gval{}
	}
	if a.k == gConst && b.k == gConst {
		switch i.Op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			if a.c.Kind() == b.c.Kind() {
				return gbool(constant.Compare(a.c, i.Op, b.c))
			}
		case token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.XOR:
			if a.c.Kind() == b.c.Kind() {
				return gval{k: gConst, c: constant.BinaryOp(a.c, i.Op, b.c)}
			}
		}
		return gval{}
	}
	if isNilOp {
		f, c := a, b
		if b.k == gFold {
			f, c = b, a
		}
		if f.k == gFold && c.k == gConst && c.c.Kind() == constant.String && !strings.EqualFold(f.s, constant.StringVal(c.c)) {
			return gbool(i.Op == token.NEQ)
		}
	}
	return gval{}
}

// lookup in a table of the package or of the function.
func (x *tokEval) lookup(env map[ssa.Value]gval, i *ssa.Lookup, s *gstate) {
	m, k := x.val(env, i.X), x.val(env, i.Index)
	var g *ssa.Global
	if u, ok := i.X.(*ssa.UnOp); ok {
		g, _ = u.X.(*ssa.Global)
	}
	_ = m
	tab, known := x.sets[g]
	if g == nil || !known || k.k != gConst {
		if g != nil && known && k.k == gFold {
			// a word in any case: it can only be there if some spelling is
			any := false
			for t := range tab {
				if strings.EqualFold(t, k.s) {
					any = true
				}
			}
			if !any {
				x.setLookup(env, i, zeroG(elemOf(i.X.Type())), gbool(false))
				return
			}
		}
		x.setLookup(env, i, gval{}, gval{})
		return
	}
	ks := k.c.ExactString()
	if k.c.Kind() == constant.String {
		ks = constant.StringVal(k.c)
	}
	if v, ok := tab[ks]; ok {
		x.setLookup(env, i, v, gbool(true))
	} else {
		x.setLookup(env, i, zeroG(elemOf(i.X.Type())), gbool(false))
	}
}

func elemOf(t types.Type) types.Type {
	if m, ok := t.Underlying().(*types.Map); ok {
		return m.Elem()
	}
	return t
}

func (x *tokEval) setLookup(env map[ssa.Value]gval, i *ssa.Lookup, v, ok gval) {
	if i.CommaOk {
		env[i] = gval{k: gTuple, vs: []gval{v, ok}}
	} else {
		env[i] = v
	}
}

func (x *tokEval) call(env map[ssa.Value]gval, ci ssa.CallInstruction, s *gstate, depth int) []gout {
	c := ci.Common()
	nres := c.Signature().Results().Len()
	top := func(s *gstate) []gout {
		vs := make([]gval, nres)
		return []gout{{vs, s}}
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "len":
			a := x.val(env, c.Args[0])
			if a.k == gList {
				return []gout{{[]gval{{k: gConst, c: constant.MakeInt64(int64(a.n))}}, s}}
			}
			if a.k == gNil {
				return []gout{{[]gval{{k: gConst, c: constant.MakeInt64(0)}}, s}}
			}
			if a.k == gConst && a.c.Kind() == constant.String {
				return []gout{{[]gval{{k: gConst, c: constant.MakeInt64(int64(len(constant.StringVal(a.c))))}}, s}}
			}
		case "ssa:wrapnilchk":
			return []gout{{[]gval{x.val(env, c.Args[0])}, s}}
		}
		return []gout{{make([]gval, 1), s}}
	}
	if c.IsInvoke() {
		return top(s)
	}
	var f *ssa.Function
	var binds []gval
	switch v := c.Value.(type) {
	case *ssa.Function:
		f = v
	default:
		g := x.val(env, c.Value)
		if g.k == gFn {
			f, binds = g.fn, g.vs
		}
	}
	if f == nil {
		return top(s)
	}
	var args []gval
	for _, a := range c.Args {
		args = append(args, x.val(env, a))
	}
	if !x.P.inPkg(f) || f.Blocks == nil {
		return []gout{{x.external(f, args, nres), s}}
	}
	if x.kinds != nil && (f == x.e.consume || !x.plain(f) && !x.inline[f] || depth > 5) {
		if f == x.e.consume || advances(x.e, f, map[*ssa.Function]bool{}) {
			return x.anyKind(s, make([]gval, nres))
		}
		return top(s)
	}
	if f == x.e.consume {
		if s.pos == 0 && x.T2 != nil && nres == 1 {
			// the next token is assumed, so it can be read
			s.pos, s.used = 1, true
			return []gout{{[]gval{{k: gNil}}, s}}
		}
		s.pos++
		if s.pos > far {
			s.pos = far
		}
		s.used = true
		return top(s)
	}
	if x.stop != nil {
		if g, yes := x.stop(x, f, args, s); yes {
			vs := make([]gval, nres)
			if nres > 0 {
				vs[0] = g
			}
			if f != x.keep {
				s.pos, s.used = far, true
			}
			return []gout{{vs, s}}
		}
	}
	if g := setContains(f); g && len(args) == 2 && strings.HasPrefix(args[0].note, "global ") {
		if v := x.P.Pkg.Var(args[0].note[7:]); v != nil {
			if tab, ok := x.sets[v]; ok {
				switch args[1].k {
				case gConst:
					_, in := tab[constant.StringVal(args[1].c)]
					return []gout{{[]gval{gbool(in)}, s}}
				case gFold:
					any := false
					for t := range tab {
						if strings.EqualFold(t, args[1].s) {
							any = true
						}
					}
					if !any {
						return []gout{{[]gval{gbool(false)}, s}}
					}
				}
			}
		}
		return top(s)
	}
	if x.kinds == nil && s.pos >= far && (x.enter == nil || !x.enter(f, args, s)) {
		if x.touches(f) {
			s.pos, s.used = far, true
		}
		return top(s)
	}
	return x.exec(f, args, binds, s, depth+1)
}

// touches: the function can change what the current token is.
func (x *tokEval) touches(f *ssa.Function) bool {
	return readsTokens(x.P, x.e)[f]
}

var tokReaders = map[*Prog]map[*ssa.Function]bool{}

// readsTokens is the set of functions that can reach the tokenizer's step.
func readsTokens(P *Prog, e *Engine) map[*ssa.Function]bool {
	if m := tokReaders[P]; m != nil {
		return m
	}
	m := map[*ssa.Function]bool{e.consume: true}
	g := newCallGraph(P)
	for ch := true; ch; {
		ch = false
		for _, f := range P.Funcs {
			if m[f] {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok && !m[f] {
						fs, _ := g.callees(c.Common())
						for _, h := range fs {
							if m[h] {
								m[f] = true
								ch = true
								break
							}
						}
					}
				}
			}
		}
	}
	tokReaders[P] = m
	return m
}

// setContains recognises a membership test of the package's set type by its shape.
func setContains(f *ssa.Function) bool {
	if f.Signature.Recv() == nil || f.Signature.Results().Len() != 1 || f.Signature.Params().Len() != 1 || len(f.Blocks) != 1 {
		return false
	}
	for _, in := range f.Blocks[0].Instrs {
		if l, ok := in.(*ssa.Lookup); ok && l.CommaOk {
			return true
		}
	}
	return false
}

func (x *tokEval) external(f *ssa.Function, args []gval, nres int) []gval {
	vs := make([]gval, nres)
	one := func(g gval) []gval { vs[0] = g; return vs }
	str := func(k int) (string, bool) {
		if k < len(args) && args[k].k == gConst && args[k].c.Kind() == constant.String {
			return constant.StringVal(args[k].c), true
		}
		return "", false
	}
	switch f.String() {
	case "fmt.Errorf", "errors.New":
		return one(gval{k: gNonNil, note: "error"})
	case "strings.EqualFold":
		a, aok := str(0)
		b, bok := str(1)
		if !aok && args[0].k == gFold {
			a, aok = args[0].s, true
		}
		if !bok && args[1].k == gFold {
			b, bok = args[1].s, true
		}
		if aok && bok {
			return one(gbool(strings.EqualFold(a, b)))
		}
	case "strings.ToUpper", "strings.ToLower":
		a, ok := str(0)
		if !ok && args[0].k == gFold {
			a, ok = args[0].s, true
		}
		if ok {
			if f.Name() == "ToUpper" {
				a = strings.ToUpper(a)
			} else {
				a = strings.ToLower(a)
			}
			return one(gval{k: gConst, c: constant.MakeString(a)})
		}
	case "slices.Contains", "slices.ContainsFunc", "slices.Index":
	}
	if x.kinds != nil && nres == 1 && isStr(f.Signature.Results().At(0).Type()) {
		for _, a := range args {
			if strings.HasPrefix(a.note, "text:") {
				return one(gval{note: a.note})
			}
		}
	}
	return vs
}

// packageTables reads the contents of the package's sets and maps that are filled once.
func packageTables(P *Prog) map[*ssa.Global]map[string]gval {
	if t := pkgTabs[P]; t != nil {
		return t
	}
	out := map[*ssa.Global]map[string]gval{}
	stores := map[*ssa.Global]int{}
	init := P.Pkg.Func("init")
	elems := func(v ssa.Value) (map[string]gval, bool) {
		switch c := v.(type) {
		case *ssa.Call:
			f := c.Common().StaticCallee()
			if f == nil || !P.inPkg(f) || len(c.Common().Args) != 1 {
				return nil, false
			}
			sl, ok := c.Common().Args[0].(*ssa.Slice)
			if !ok {
				return nil, false
			}
			al, ok := sl.X.(*ssa.Alloc)
			if !ok {
				return nil, false
			}
			m := map[string]gval{}
			for _, r := range *al.Referrers() {
				ia, ok := r.(*ssa.IndexAddr)
				if !ok {
					continue
				}
				for _, q := range *ia.Referrers() {
					if st, ok := q.(*ssa.Store); ok {
						k, ok := st.Val.(*ssa.Const)
						if !ok || k.Value == nil || k.Value.Kind() != constant.String {
							return nil, false
						}
						m[constant.StringVal(k.Value)] = gbool(true)
					}
				}
			}
			return m, true
		case *ssa.MakeMap:
			m := map[string]gval{}
			for _, r := range *c.Referrers() {
				switch u := r.(type) {
				case *ssa.MapUpdate:
					k, ok := u.Key.(*ssa.Const)
					if !ok || k.Value == nil {
						return nil, false
					}
					ks := k.Value.ExactString()
					if k.Value.Kind() == constant.String {
						ks = constant.StringVal(k.Value)
					}
					if vc, ok := u.Value.(*ssa.Const); ok && vc.Value != nil {
						m[ks] = gval{k: gConst, c: vc.Value}
					} else {
						m[ks] = gval{}
					}
				case *ssa.Store, *ssa.DebugRef:
				default:
					return nil, false
				}
			}
			return m, true
		}
		return nil, false
	}
	for _, f := range P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				g, ok := st.Addr.(*ssa.Global)
				if !ok {
					continue
				}
				stores[g]++
				if f == init {
					if m, ok := elems(st.Val); ok {
						out[g] = m
					}
				}
			}
		}
	}
	for g := range out {
		if stores[g] != 1 {
			delete(out, g)
		}
	}
	pkgTabs[P] = out
	return out
}

var pkgTabs = map[*Prog]map[*ssa.Global]map[string]gval{}
