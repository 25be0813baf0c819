package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P19: what the command does on each path from main to its end.

const (
	mStmts  uint32 = 1 << iota // the whole list of statements
	mRead                      // what was read as input
	mReason                    // the error of the failed operation
	mOut                       // a stream that ends up at standard output
	mErrOut                    // a stream that ends up at standard error
	mBuf                       // a buffered stream
	mElem0                     // the first statement, the second, ...
)

const mElemMax = 8

type mval struct {
	c     constant.Value
	nilS  int8 // 1 nil, 2 not nil
	t     uint32
	stm   bool // the list of statements from off
	lenOf bool // its length
	off   int
	obj   int // object the pointer, slice or interface refers to
	sym   string
	neg   bool
	fn    *ssa.Function
	binds []mval
	tup   []mval
	cell  ssa.Value
	n     int // length plus one, when known
}

type mstate struct {
	cells   map[string]mval
	objs    map[int]uint32
	syms    map[string]bool
	fails   []string
	failPos []token.Pos
	reason  bool // the reason was written to standard error
	badOut  bool // written to standard output after a failure
	other   bool // some other operation failed
	parsed  bool
	whole   bool
	printed uint32
	minLen  int
	maxLen  int
	unflush bool
	read    bool // input was read
	unread  bool // and something else parsed
}

func (s *mstate) clone() *mstate {
	n := *s
	n.cells = make(map[string]mval, len(s.cells))
	for k, v := range s.cells {
		n.cells[k] = v
	}
	n.objs = make(map[int]uint32, len(s.objs))
	for k, v := range s.objs {
		n.objs[k] = v
	}
	n.syms = make(map[string]bool, len(s.syms))
	for k, v := range s.syms {
		n.syms[k] = v
	}
	n.fails = append([]string(nil), s.fails...)
	n.failPos = append([]token.Pos(nil), s.failPos...)
	return &n
}

type mout struct {
	ret  []mval
	exit bool
	code int // exit status; -1 unknown
	s    *mstate
	pos  token.Pos
}

type mainEval struct {
	P     *Prog
	r     *Report
	fuel  int
	nobj  int
	nsym  int
	depth int
	sites map[token.Pos]string
	lost  bool
}

func (x *mainEval) taint(s *mstate, v mval) uint32 {
	t := v.t
	if v.obj != 0 {
		t |= s.objs[v.obj]
	}
	for _, b := range v.binds {
		t |= x.taint(s, b)
	}
	for _, b := range v.tup {
		t |= x.taint(s, b)
	}
	if v.stm {
		t |= mStmts
	}
	return t
}

func (x *mainEval) val(env map[ssa.Value]mval, v ssa.Value) mval {
	switch c := v.(type) {
	case *ssa.Const:
		if c.Value == nil {
			return mval{nilS: 1, n: 1}
		}
		return mval{c: c.Value}
	case *ssa.Function:
		return mval{fn: c, nilS: 2}
	case *ssa.Global:
		return mval{cell: c, sym: "g:" + c.String(), nilS: 2}
	}
	return env[v]
}

func (x *mainEval) fresh() int { x.nobj++; return x.nobj }

type mdefer struct {
	c    *ssa.CallCommon
	args []mval
	fn   mval
	in   ssa.CallInstruction
}

// exec enumerates the paths of f. Every loop is followed for up to three rounds.
func (x *mainEval) exec(f *ssa.Function, args, binds []mval, s *mstate) []mout {
	x.depth++
	defer func() { x.depth-- }()
	if x.depth > 12 {
		x.lost = true
		return []mout{{ret: make([]mval, f.Signature.Results().Len()), s: s}}
	}
	env := map[ssa.Value]mval{}
	for i, p := range f.Params {
		if i < len(args) {
			env[p] = args[i]
		}
	}
	for i, v := range f.FreeVars {
		if i < len(binds) {
			env[v] = binds[i]
		}
	}
	var outs []mout
	var walk func(b, from *ssa.BasicBlock, k int, env map[ssa.Value]mval, s *mstate, seen map[int]int, ds []mdefer)
	walk = func(b, from *ssa.BasicBlock, k int, env map[ssa.Value]mval, s *mstate, seen map[int]int, ds []mdefer) {
		x.fuel--
		if x.fuel < 0 {
			x.lost = true
			return
		}
		if k == 0 {
			seen[b.Index]++
			if seen[b.Index] > 4 {
				return
			}
			phis := map[ssa.Value]mval{}
			for _, in := range b.Instrs {
				p, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				for i, e := range p.Edges {
					if b.Preds[i] == from {
						phis[p] = x.val(env, e)
					}
				}
			}
			for p, v := range phis {
				env[p] = v
			}
		}
		cp := func(m map[ssa.Value]mval) map[ssa.Value]mval {
			n := make(map[ssa.Value]mval, len(m))
			for a, v := range m {
				n[a] = v
			}
			return n
		}
		cs := func(m map[int]int) map[int]int {
			n := make(map[int]int, len(m))
			for a, v := range m {
				n[a] = v
			}
			return n
		}
		for i := k; i < len(b.Instrs); i++ {
			switch in := b.Instrs[i].(type) {
			case *ssa.Phi:
			case *ssa.Jump:
				walk(b.Succs[0], b, 0, env, s, seen, ds)
				return
			case *ssa.If:
				c := x.val(env, in.Cond)
				for j := 0; j < 2; j++ {
					n := s.clone()
					if !x.assume(n, c, j == 0, in.Pos()) {
						continue
					}
					walk(b.Succs[j], b, 0, cp(env), n, cs(seen), append([]mdefer(nil), ds...))
				}
				return
			case *ssa.Return:
				o := mout{s: s, pos: in.Pos()}
				for _, v := range in.Results {
					o.ret = append(o.ret, x.val(env, v))
				}
				// named results may be cells: close enough, they were loaded before
				res := []mout{o}
				for j := len(ds) - 1; j >= 0; j-- {
					var next []mout
					for _, q := range res {
						if q.exit {
							next = append(next, q)
							continue
						}
						for _, z := range x.call(ds[j].in, ds[j].fn, ds[j].args, q.s) {
							if z.exit {
								next = append(next, z)
							} else {
								next = append(next, mout{ret: q.ret, s: z.s, pos: q.pos})
							}
						}
					}
					res = next
				}
				outs = append(outs, res...)
				return
			case *ssa.Panic:
				if x.taint(s, x.val(env, in.X))&mReason != 0 {
					s.reason = true
				}
				outs = append(outs, mout{exit: true, code: 2, s: s, pos: in.Pos()})
				return
			case *ssa.RunDefers:
			case *ssa.Defer:
				d := mdefer{c: in.Common(), in: in, fn: x.val(env, in.Call.Value)}
				for _, a := range in.Call.Args {
					d.args = append(d.args, x.val(env, a))
				}
				ds = append(ds, d)
			case *ssa.Call:
				var as []mval
				for _, a := range in.Call.Args {
					as = append(as, x.val(env, a))
				}
				os := x.call(in, x.val(env, in.Call.Value), as, s)
				for j, o := range os {
					if o.exit {
						outs = append(outs, o)
						continue
					}
					v := mval{}
					if len(o.ret) == 1 {
						v = o.ret[0]
					} else if len(o.ret) > 1 {
						v = mval{tup: o.ret}
					}
					if j == len(os)-1 {
						env[in] = v
						walk(b, nil, i+1, env, o.s, seen, ds)
						return
					}
					e := cp(env)
					e[in] = v
					walk(b, nil, i+1, e, o.s, cs(seen), append([]mdefer(nil), ds...))
				}
				return
			default:
				x.step(env, in, s)
			}
		}
	}
	walk(f.Blocks[0], nil, 0, env, s, map[int]int{}, nil)
	return outs
}

func (x *mainEval) key(v mval) string {
	if v.cell == nil {
		return ""
	}
	return fmt.Sprintf("%s|%p|%d", v.sym, v.cell, v.obj)
}

func (x *mainEval) step(env map[ssa.Value]mval, in ssa.Instruction, s *mstate) {
	var v ssa.Value
	if w, ok := in.(ssa.Value); ok {
		v = w
	}
	all := func() uint32 {
		var t uint32
		for _, op := range in.Operands(nil) {
			if *op != nil {
				t |= x.taint(s, x.val(env, *op))
			}
		}
		return t
	}
	switch i := in.(type) {
	case *ssa.Alloc:
		o := x.fresh()
		env[i] = mval{cell: i, obj: o, sym: fmt.Sprint("a", o), nilS: 2}
		s.objs[o] = 0
		if _, ok := i.Type().(*types.Pointer).Elem().Underlying().(*types.Basic); ok {
			s.cells[x.key(env[i])] = mzero(i.Type().(*types.Pointer).Elem())
		} else {
			s.cells[x.key(env[i])] = mval{nilS: 1}
		}
	case *ssa.FieldAddr:
		a := x.val(env, i.X)
		env[i] = mval{cell: a.cell, obj: a.obj, sym: fmt.Sprintf("%s.%d", a.sym, i.Field), nilS: 2, t: a.t}
	case *ssa.IndexAddr:
		a := x.val(env, i.X)
		if a.stm {
			k := x.val(env, i.Index)
			if n, ok := constInt(k.c); ok && a.off+int(n) < mElemMax {
				env[i] = mval{sym: fmt.Sprintf("stmt%d", a.off+int(n)), t: mElem0 << uint(a.off+int(n)), stm: false}
			} else {
				env[i] = mval{}
			}
			return
		}
		env[i] = mval{obj: a.obj, t: a.t, nilS: 2}
	case *ssa.Store:
		a, w := x.val(env, i.Addr), x.val(env, i.Val)
		if k := x.key(a); k != "" {
			s.cells[k] = w
		}
		if a.obj != 0 {
			s.objs[a.obj] |= x.taint(s, w)
		}
	case *ssa.UnOp:
		a := x.val(env, i.X)
		switch i.Op {
		case token.NOT:
			w := a
			w.neg = !a.neg
			if a.c != nil && a.c.Kind() == constant.Bool {
				w = mval{c: constant.MakeBool(!constant.BoolVal(a.c))}
			}
			env[i] = w
		case token.MUL:
			if g, ok := i.X.(*ssa.Global); ok && g.Pkg != nil && g.Pkg.Pkg.Path() == "os" {
				switch g.Name() {
				case "Stdout":
					env[i] = mval{t: mOut, nilS: 2}
					return
				case "Stderr":
					env[i] = mval{t: mErrOut, nilS: 2}
					return
				}
			}
			if k := x.key(a); k != "" {
				if w, ok := s.cells[k]; ok {
					if a.obj != 0 && w.c == nil && !w.stm && w.nilS == 0 {
						w.t |= s.objs[a.obj]
					}
					env[i] = w
					return
				}
			}
			env[i] = mval{t: x.taint(s, a), sym: a.sym, obj: 0}
			if isBoolT(i.Type()) || isStr(i.Type()) {
				if a.sym == "" {
					env[i] = mval{t: x.taint(s, a)}
				}
			}
		default:
			env[i] = mval{t: a.t}
		}
	case *ssa.BinOp:
		env[i] = x.binop(s, i, x.val(env, i.X), x.val(env, i.Y))
	case *ssa.Extract:
		if a := x.val(env, i.Tuple); i.Index < len(a.tup) {
			env[i] = a.tup[i.Index]
		} else {
			env[i] = mval{t: a.t}
		}
	case *ssa.MakeInterface:
		env[i] = x.val(env, i.X)
		if w := env[i]; w.nilS == 0 || w.nilS == 1 {
			w.nilS = 2
			env[i] = w
		}
	case *ssa.ChangeInterface:
		env[i] = x.val(env, i.X)
	case *ssa.ChangeType:
		env[i] = x.val(env, i.X)
	case *ssa.Convert:
		a := x.val(env, i.X)
		env[i] = mval{c: a.c, t: x.taint(s, a), sym: a.sym, stm: a.stm, off: a.off, nilS: a.nilS}
	case *ssa.MakeClosure:
		w := mval{fn: i.Fn.(*ssa.Function), nilS: 2}
		for _, b := range i.Bindings {
			w.binds = append(w.binds, x.val(env, b))
		}
		env[i] = w
	case *ssa.Slice:
		a := x.val(env, i.X)
		if a.stm {
			off, ok := a.off, true
			if i.Low != nil {
				n, o := constInt(x.val(env, i.Low).c)
				off, ok = off+int(n), o
			}
			if i.High != nil {
				ok = false
			}
			if ok {
				a.off = off
				env[i] = a
			} else {
				env[i] = mval{}
			}
			return
		}
		w := mval{obj: a.obj, t: x.taint(s, a), nilS: a.nilS}
		if al, ok := i.X.(*ssa.Alloc); ok && i.Low == nil && i.High == nil {
			if ar, ok := al.Type().(*types.Pointer).Elem().Underlying().(*types.Array); ok {
				w.n = int(ar.Len()) + 1
			}
		}
		env[i] = w
	case *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan:
		env[v] = mval{obj: x.fresh(), nilS: 2}
	case *ssa.Field:
		a := x.val(env, i.X)
		env[i] = mval{t: x.taint(s, a)}
		if a.sym != "" {
			w := env[i]
			w.sym = fmt.Sprintf("%s.%d", a.sym, i.Field)
			env[i] = w
		}
	default:
		if v != nil {
			env[v] = mval{t: all()}
		}
	}
}

func mzero(t types.Type) mval {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return mval{nilS: 1}
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return mval{c: constant.MakeBool(false)}
	case b.Info()&types.IsInteger != 0:
		return mval{c: constant.MakeInt64(0)}
	case b.Info()&types.IsString != 0:
		return mval{c: constant.MakeString("")}
	}
	return mval{}
}

func isBoolT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func constInt(c constant.Value) (int64, bool) {
	if c == nil || c.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(c)
}

func (x *mainEval) binop(s *mstate, i *ssa.BinOp, a, b mval) mval {
	switch i.Op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		if a.c != nil && b.c != nil && a.c.Kind() == b.c.Kind() {
			return mval{c: constant.MakeBool(constant.Compare(a.c, i.Op, b.c))}
		}
		if i.Op == token.EQL || i.Op == token.NEQ {
			if a.nilS != 0 && b.nilS == 1 || b.nilS != 0 && a.nilS == 1 {
				if !a.stm && !b.stm {
					return mval{c: constant.MakeBool((a.nilS == b.nilS) == (i.Op == token.EQL))}
				}
			}
			if b.nilS == 1 && a.sym != "" {
				return mval{sym: a.sym + "==nil", neg: i.Op == token.NEQ}
			}
			if b.c != nil && a.sym != "" {
				return mval{sym: a.sym + "==" + b.c.ExactString(), neg: i.Op == token.NEQ}
			}
		}
		op := i.Op
		if b.lenOf {
			a, b = b, a
			switch op {
			case token.LSS:
				op = token.GTR
			case token.LEQ:
				op = token.GEQ
			case token.GTR:
				op = token.LSS
			case token.GEQ:
				op = token.LEQ
			}
		}
		if n, ok := constInt(b.c); ok && a.lenOf {
			return mval{lenOf: true, sym: "len" + op.String(), off: a.off + int(n)}
		}
		return mval{}
	}
	if a.c != nil && b.c != nil && a.c.Kind() == b.c.Kind() {
		switch i.Op {
		case token.ADD, token.SUB, token.MUL:
			return mval{c: constant.BinaryOp(a.c, i.Op, b.c)}
		}
	}
	return mval{t: x.taint(s, a) | x.taint(s, b)}
}

// assume adds the outcome of a condition to the state; false when it cannot be.
func (x *mainEval) assume(s *mstate, c mval, yes bool, pos token.Pos) bool {
	if c.c != nil && c.c.Kind() == constant.Bool {
		return constant.BoolVal(c.c) == yes
	}
	if c.neg {
		yes = !yes
	}
	if c.lenOf {
		lo, hi := s.minLen, s.maxLen
		n := c.off
		op := c.sym[3:]
		if !yes {
			op = map[string]string{"<": ">=", ">=": "<", ">": "<=", "<=": ">", "==": "!=", "!=": "=="}[op]
		}
		switch op {
		case "<":
			hi = min(hi, n-1)
		case "<=":
			hi = min(hi, n)
		case ">":
			lo = max(lo, n+1)
		case ">=":
			lo = max(lo, n)
		case "==":
			lo, hi = max(lo, n), min(hi, n)
		case "!=":
			if lo == n {
				lo++
			}
			if hi == n {
				hi--
			}
		}
		s.minLen, s.maxLen = lo, hi
		return lo <= hi
	}
	if c.sym != "" {
		if v, ok := s.syms[c.sym]; ok {
			return v == yes
		}
		s.syms[c.sym] = yes
		if strings.HasPrefix(c.sym, "err") && strings.HasSuffix(c.sym, "==nil") && !yes {
			s.other = true
		}
	}
	return true
}

// failSource: the call reads the input or parses it.
func (x *mainEval) failSource(h *ssa.Function) bool {
	res := h.Signature.Results()
	if res.Len() < 2 || !isErrT(res.At(res.Len()-1).Type()) || h.Pkg == nil {
		return false
	}
	n := h.Name()
	if strings.HasPrefix(n, "Write") || strings.HasPrefix(n, "Fprint") || strings.HasPrefix(n, "Print") {
		return false
	}
	switch h.Pkg.Pkg.Path() {
	case "os", "io", "bufio", "io/ioutil", "io/fs":
		return true
	}
	return x.P.inPkg(h)
}

func isErrT(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() == nil && n.Obj().Name() == "error"
}

func (x *mainEval) write(s *mstate, out bool, buffered bool, t uint32) {
	if !out {
		if t&mReason != 0 {
			s.reason = true
		}
		return
	}
	if len(s.fails) > 0 {
		s.badOut = true
	}
	if t&mStmts != 0 {
		s.whole = true
	}
	s.printed |= t / mElem0
	if buffered {
		s.unflush = true
	}
}

func (x *mainEval) call(in ssa.CallInstruction, fv mval, as []mval, s *mstate) []mout {
	c := in.Common()
	res := c.Signature().Results()
	var t uint32
	for _, a := range as {
		t |= x.taint(s, a)
	}
	if c.IsInvoke() {
		t |= x.taint(s, fv)
	}
	ret := func(vs ...mval) []mout { return []mout{{ret: vs, s: s}} }
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "len":
			if as[0].stm {
				return ret(mval{lenOf: true, off: -as[0].off})
			}
			if as[0].n > 0 {
				return ret(mval{c: constant.MakeInt64(int64(as[0].n - 1))})
			}
			return ret(mval{})
		case "append":
			o := x.fresh()
			s.objs[o] = t
			w := mval{obj: o, t: t, nilS: 2}
			if len(as) == 2 && as[0].n > 0 && as[1].n > 0 {
				w.n = as[0].n + as[1].n - 1
			}
			return ret(w)
		case "print", "println":
			x.write(s, false, false, t)
			return ret()
		}
		rs := make([]mval, res.Len())
		return ret(rs...)
	}
	h := c.StaticCallee()
	if h == nil && fv.fn != nil {
		h = fv.fn
	}
	if h != nil && h.Blocks != nil && (h.Pkg == x.P.Main || h.Parent() != nil && h.Parent().Pkg == x.P.Main) {
		return x.exec(h, as, fv.binds, s)
	}
	name := ""
	if h != nil {
		name = h.String()
	}
	mname := name
	if c.IsInvoke() {
		mname = c.Method.Name()
	} else if h != nil {
		mname = h.Name()
	}
	if name == "os.Exit" {
		code := -1
		if n, ok := constInt(as[0].c); ok {
			code = int(n)
		}
		return []mout{{exit: true, code: code, s: s, pos: in.Pos()}}
	}
	if strings.HasPrefix(name, "log.") || strings.HasPrefix(name, "(*log.Logger).") {
		x.write(s, false, false, t)
		if strings.HasPrefix(mname, "Fatal") {
			return []mout{{exit: true, code: 1, s: s, pos: in.Pos()}}
		}
		if strings.HasPrefix(mname, "Panic") {
			return []mout{{exit: true, code: 2, s: s, pos: in.Pos()}}
		}
		return ret(make([]mval, res.Len())...)
	}
	if h != nil && x.failSource(h) {
		x.sites[in.Pos()] = fnName(h)
		bad := s.clone()
		bad.fails = append(bad.fails, fnName(h))
		bad.failPos = append(bad.failPos, in.Pos())
		ok, no := make([]mval, res.Len()), make([]mval, res.Len())
		no[0] = mval{nilS: 1, n: 1}
		no[res.Len()-1] = mval{nilS: 2, t: mReason}
		ok[res.Len()-1] = mval{nilS: 1}
		if x.P.inPkg(h) {
			if !s.parsed {
				s.minLen, s.maxLen = 0, 1<<30
			}
			s.parsed = true
			ok[0] = mval{stm: true}
			if s.read && t&mRead == 0 {
				s.unread = true
			}
		} else {
			s.read = true
			ok[0] = mval{t: mRead, nilS: 2}
		}
		return []mout{{ret: ok, s: s}, {ret: no, s: bad}}
	}
	// writes
	switch {
	case name == "fmt.Print" || name == "fmt.Println" || name == "fmt.Printf":
		x.write(s, true, false, t)
	case t&(mOut|mErrOut) != 0:
		n := mname
		if strings.HasPrefix(n, "Write") || strings.HasPrefix(n, "Encode") || strings.HasPrefix(n, "Fprint") || strings.HasPrefix(n, "Copy") || strings.HasPrefix(n, "Print") {
			x.write(s, t&mOut != 0, t&mBuf != 0, t)
		}
		if n == "Flush" {
			s.unflush = false
		}
		if strings.HasPrefix(name, "bufio.New") {
			t |= mBuf
		}
	}
	streams := t & (mOut | mErrOut | mBuf)
	if strings.HasPrefix(name, "fmt.F") {
		t &^= mOut | mErrOut | mBuf
	}
	// what goes into a call may end up in what its arguments refer to
	recv := h != nil && h.Signature.Recv() != nil || c.IsInvoke()
	for k, a := range as {
		if a.obj != 0 && (k == 0 && recv) {
			s.objs[a.obj] |= t
		}
	}
	if h != nil && !recv && x.P.inPkg(h) || strings.HasPrefix(name, "fmt.Fprint") {
		for _, a := range as {
			if a.obj != 0 {
				s.objs[a.obj] |= t &^ streams
			}
		}
	}
	rs := make([]mval, res.Len())
	for k := range rs {
		rt := res.At(k).Type()
		rs[k] = mval{t: t}
		if pointerLike(rt) {
			o := x.fresh()
			s.objs[o] = t
			rs[k].obj = o
		}
		if isErrT(rt) {
			x.nsym++
			rs[k] = mval{t: t, sym: fmt.Sprintf("err%d", x.nsym)}
			if name == "fmt.Errorf" || name == "errors.New" || name == "errors.Join" && t&mReason != 0 {
				rs[k] = mval{t: t, nilS: 2}
			}
		}
	}
	// reading standard input or the arguments counts as reading the input
	return ret(rs...)
}

func checkP19(P *Prog, r *Report) {
	r.rule("status", "a path on which reading or parsing failed ends with a non-zero exit status")
	r.rule("reason", "a path on which reading or parsing failed writes the error to standard error")
	r.rule("stdout", "a path on which reading or parsing failed writes nothing to standard output afterwards")
	r.rule("printed", "a path on which the input was parsed writes every statement to standard output and exits with status 0")
	r.rule("input", "when a file was read, its contents are what is parsed")
	f := P.Main.Func("main")
	if !r.need(f != nil && f.Blocks != nil, "function main") {
		return
	}
	x := &mainEval{P: P, r: r, fuel: 400000, sites: map[token.Pos]string{}}
	s := &mstate{cells: map[string]mval{}, objs: map[int]uint32{}, syms: map[string]bool{}, maxLen: 1 << 30}
	outs := x.exec(f, nil, nil, s)
	read, parsed := 0, 0
	seen := map[string]bool{}
	bad := func(rule string, o mout, pos token.Pos, format string, a ...any) {
		m := rule + fmt.Sprintf(format, a...)
		if !seen[m] {
			seen[m] = true
			r.fnBad(rule, f, pos, format, a...)
		}
	}
	for _, o := range outs {
		s := o.s
		code := o.code
		if !o.exit {
			code = 0
		}
		if len(s.fails) > 0 {
			what := s.fails[0]
			pos := s.failPos[0]
			r.ob("status", 1)
			r.ob("reason", 1)
			r.ob("stdout", 1)
			if code == 0 {
				bad("status", o, pos, "after %s failed the command can end with exit status 0", what)
			}
			if code < 0 {
				r.notes = append(r.notes, fmt.Sprintf("an exit status after %s failed is not a constant", what))
			}
			if !s.reason {
				bad("reason", o, pos, "after %s failed the command can end without writing the error to standard error", what)
			}
			if s.badOut {
				bad("stdout", o, pos, "after %s failed the command writes to standard output", what)
			}
			continue
		}
		if !s.parsed || s.other {
			continue
		}
		r.ob("printed", 1)
		all := s.whole
		if !all && s.maxLen < mElemMax {
			all = s.printed&(1<<uint(s.maxLen)-1) == 1<<uint(s.maxLen)-1
		}
		pos := o.pos
		if !pos.IsValid() {
			pos = f.Pos()
		}
		if !all {
			bad("printed", o, pos, "the command can end without writing every parsed statement to standard output")
		}
		if s.unflush {
			bad("printed", o, pos, "the command can end without flushing what it wrote to standard output")
		}
		if code > 0 {
			bad("printed", o, pos, "the command can end with exit status %d although everything was parsed", code)
		}
	}
	for _, n := range x.sites {
		if strings.Contains(n, "Parse") {
			parsed++
		} else {
			read++
		}
	}
	for _, o := range outs {
		if o.s.parsed && o.s.read {
			r.ob("input", 1)
			if o.s.unread {
				bad("input", o, f.Pos(), "input is read but something else is parsed")
			}
		}
	}
	r.extra["paths"] = len(outs)
	r.extra["operations_that_can_fail"] = len(x.sites)
	if x.lost {
		r.notes = append(r.notes, "not every path of the command was followed")
	}
	r.need(read > 0 && parsed > 0, "the calls of the command that read the input and parse it")
}

func init() { checks["P19"] = checkP19 }
