package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P17, second half: where the end of a node is taken relative to reading its parts.

// absentEdge: taking the given way out of b means that something optional is not there (a nil node,
// an empty list, a word that was not read).
func absentEdge(b *ssa.BasicBlock, succ int) bool {
	br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	c := br.Cond
	neg := false
	for {
		if u, ok := c.(*ssa.UnOp); ok && u.Op == token.NOT {
			c, neg = u.X, !neg
			continue
		}
		break
	}
	on := (succ == 0) != neg // the condition holds on this edge
	switch k := c.(type) {
	case *ssa.BinOp:
		x, y, op := k.X, k.Y, k.Op
		if _, ok := x.(*ssa.Const); ok {
			x, y = y, x
			switch op {
			case token.LSS:
				op = token.GTR
			case token.GTR:
				op = token.LSS
			case token.LEQ:
				op = token.GEQ
			case token.GEQ:
				op = token.LEQ
			}
		}
		q, ok := y.(*ssa.Const)
		if !ok {
			// a loop that counts up to a length and is left
			return !on && op == token.LSS && isLenVal(y)
		}
		if q.Value == nil {
			if types.Identical(x.Type(), types.Universe.Lookup("error").Type()) {
				return false
			}
			return op == token.EQL && on || op == token.NEQ && !on
		}
		if !isLenVal(x) || q.Value.Kind() != constant.Int {
			return false
		}
		n, _ := constant.Int64Val(q.Value)
		switch op {
		case token.EQL:
			return on && n == 0
		case token.NEQ:
			return !on && n == 0
		case token.GTR:
			return !on && n == 0
		case token.LSS:
			return on && n == 1
		case token.GEQ:
			return !on && n == 1
		case token.LEQ:
			return on && n == 0
		}
	case *ssa.Call, *ssa.Phi, *ssa.Extract:
		bt, ok := c.Type().Underlying().(*types.Basic)
		return ok && bt.Kind() == types.Bool && !on
	}
	return false
}

func isLenVal(v ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	return ok && b.Name() == "len"
}

// slotStores: the stores into a field of the node, from anywhere in the function.
func slotStores(base ssa.Value, field int) map[ssa.Instruction]bool {
	m := map[ssa.Instruction]bool{}
	if base.Referrers() == nil {
		return m
	}
	for _, r := range *base.Referrers() {
		fa, ok := r.(*ssa.FieldAddr)
		if !ok || fa.Field != field || fa.X != base {
			continue
		}
		for _, q := range *fa.Referrers() {
			if st, ok := q.(*ssa.Store); ok && st.Addr == ssa.Value(fa) {
				m[st] = true
			}
		}
	}
	return m
}

// keptPath: control can pass from st to a successful return without another store into the slot and
// without something optional being absent; via, when given, must be passed on the way.
func (x *posRules) keptPath(st ssa.Instruction, others map[ssa.Instruction]bool, via ssa.Instruction, absent func(b *ssa.BasicBlock, succ int) bool) bool {
	type at struct {
		b   *ssa.BasicBlock
		saw bool
	}
	seen := map[at]bool{}
	var from func(b *ssa.BasicBlock, i int, saw bool) bool
	from = func(b *ssa.BasicBlock, i int, saw bool) bool {
		for ; i < len(b.Instrs); i++ {
			in := b.Instrs[i]
			if others[in] {
				return false
			}
			if via != nil && in == via {
				saw = true
			}
			if rt, ok := in.(*ssa.Return); ok {
				return saw && !returnsError(rt)
			}
		}
		for j, s := range b.Succs {
			if absent != nil && absent(b, j) || !x.edge[[2]*ssa.BasicBlock{b, s}] {
				continue
			}
			k := at{s, saw}
			if !seen[k] {
				seen[k] = true
				if from(s, 0, saw) {
					return true
				}
			}
		}
		return false
	}
	for i, in := range st.Block().Instrs {
		if in == st {
			return from(st.Block(), i+1, via == nil)
		}
	}
	return false
}

// staysStart: the slot keeps the start it was given although the node has content.
func (x *posRules) staysStart(st *ssa.Store, fa *ssa.FieldAddr) bool {
	if _, ok := fa.X.(*ssa.Alloc); !ok {
		return !storedAgain(st, fa)
	}
	others := slotStores(fa.X, fa.Field)
	delete(others, st)
	return x.keptPath(st, others, nil, absentEdge)
}

// absentOf: the edge on which the result of the call is known to be absent.
func absentOf(c *ssa.Call) func(b *ssa.BasicBlock, succ int) bool {
	return func(b *ssa.BasicBlock, succ int) bool {
		br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			return false
		}
		k, ok := br.Cond.(*ssa.BinOp)
		if !ok {
			return false
		}
		var v ssa.Value
		if q, ok := k.Y.(*ssa.Const); ok && q.Value == nil {
			v = k.X
		} else if isLenVal(k.X) {
			v = k.X.(*ssa.Call).Call.Args[0]
		} else {
			return false
		}
		if !comesFrom(v, c, map[ssa.Value]bool{}) {
			return false
		}
		return absentEdge(b, succ)
	}
}

// comesFrom: v is (or merges) the first result of the call.
func comesFrom(v ssa.Value, c *ssa.Call, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	switch y := v.(type) {
	case *ssa.Call:
		return y == c
	case *ssa.Extract:
		return y.Tuple == ssa.Value(c) && y.Index == 0
	case *ssa.MakeInterface:
		return comesFrom(y.X, c, seen)
	case *ssa.ChangeInterface:
		return comesFrom(y.X, c, seen)
	case *ssa.TypeAssert:
		return comesFrom(y.X, c, seen)
	case *ssa.Phi:
		for _, e := range y.Edges {
			if comesFrom(e, c, seen) {
				return true
			}
		}
	case *ssa.UnOp:
		if fa, ok := y.X.(*ssa.FieldAddr); ok && y.Op == token.MUL {
			for st := range slotStores(fa.X, fa.Field) {
				if comesFrom(st.(*ssa.Store).Val, c, seen) {
					return true
				}
			}
		}
	}
	return false
}

// staleTake looks backwards from a store for a way on which the stored value was taken before the
// part was read; it gives the instruction that took it.
func (x *posRules) staleTake(st *ssa.Store, y *ssa.Call) ssa.Instruction {
	absent := absentOf(y)
	type at struct {
		b   *ssa.BasicBlock
		v   ssa.Value
		saw bool
	}
	seen := map[at]bool{}
	var back func(b *ssa.BasicBlock, i int, v ssa.Value, saw bool) ssa.Instruction
	back = func(b *ssa.BasicBlock, i int, v ssa.Value, saw bool) ssa.Instruction {
		for ; i >= 0; i-- {
			in := b.Instrs[i]
			if phi, ok := in.(*ssa.Phi); ok && phi == v {
				for j, p := range b.Preds {
					if edgeAbsent(p, b, absent) || !x.edge[[2]*ssa.BasicBlock{p, b}] {
						continue
					}
					k := at{p, phi.Edges[j], saw}
					if !seen[k] {
						seen[k] = true
						if r := back(p, len(p.Instrs)-1, phi.Edges[j], saw); r != nil {
							return r
						}
					}
				}
				return nil
			}
			if in == ssa.Instruction(y) {
				if d, ok := v.(ssa.Instruction); ok && d == in {
					return nil
				}
				saw = true
			}
			if d, ok := v.(ssa.Instruction); ok && d == in {
				if saw {
					return in
				}
				return nil
			}
		}
		for _, p := range b.Preds {
			if edgeAbsent(p, b, absent) || !x.edge[[2]*ssa.BasicBlock{p, b}] {
				continue
			}
			k := at{p, v, saw}
			if !seen[k] {
				seen[k] = true
				if r := back(p, len(p.Instrs)-1, v, saw); r != nil {
					return r
				}
			}
		}
		return nil
	}
	for i, in := range st.Block().Instrs {
		if in == ssa.Instruction(st) {
			return back(st.Block(), i-1, st.Val, false)
		}
	}
	return nil
}

func edgeAbsent(p, b *ssa.BasicBlock, absent func(*ssa.BasicBlock, int) bool) bool {
	n := 0
	for j, s := range p.Succs {
		if s == b {
			n++
			if !absent(p, j) {
				return false
			}
		}
	}
	return n > 0
}

// ends: the end of a node is taken after its parts have been read, from the last of them.
func (x *posRules) ends() {
	for _, f := range x.P.Funcs {
		if !x.live(f) || !x.e.touchesParser(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				al, ok := in.(*ssa.Alloc)
				if !ok {
					continue
				}
				n, sty := structOf(al.Type())
				if n == nil || !x.P.NodeSet[n] {
					continue
				}
				pc := x.partCalls(al)
				for k := 0; k < sty.NumFields(); k++ {
					if !isNamed(sty.Field(k).Type(), x.e.posT) {
						continue
					}
					slots := slotStores(al, k)
					for si := range slots {
						st := si.(*ssa.Store)
						x.bracket(f, n, sty.Field(k).Name(), st)
						if !x.end[fieldID{n, k}] {
							continue
						}
						x.elem(f, n, sty.Field(k).Name(), st)
						others := map[ssa.Instruction]bool{}
						for o := range slots {
							if o != si {
								others[o] = true
							}
						}
						if x.isStart(st.Val, al, n) {
							continue // decided by the rule on ends that are starts
						}
						asked := x.partsRead(x.query(n, "End"))
						for j, ys := range pc {
							if asked[j] {
								continue // End asks that part itself
							}
							for _, y := range ys {
								x.r.ob("last", 1)
								var at ssa.Instruction
								if x.keptPath(st, others, nil, nil) {
									at = x.staleTake(st, y)
								}
								if at == nil && x.keptPath(st, others, y, absentOf(y)) {
									at = st
								}
								if at == nil {
									continue
								}
								v := x.r.fnBad("last", f, st.Pos(), "%s.%s is taken before %s is read", n.Obj().Name(), sty.Field(k).Name(), sty.Field(j).Name())
								v.more = append(v.more, "taken at "+x.P.pos(at.Pos()), sty.Field(j).Name()+" is read at "+x.P.pos(y.Pos()))
							}
						}
					}
				}
			}
		}
	}
}

// elem: an end taken from an element of a list is taken from the last one.
func (x *posRules) elem(f *ssa.Function, n *types.Named, slot string, st *ssa.Store) {
	c, ok := st.Val.(*ssa.Call)
	if !ok {
		return
	}
	var recv ssa.Value
	if c.Call.IsInvoke() {
		recv = c.Call.Value
	} else if g := c.Call.StaticCallee(); g != nil && g.Signature.Recv() != nil && len(c.Call.Args) == 1 {
		recv = c.Call.Args[0]
	}
	u, ok := recv.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return
	}
	ia, ok := u.X.(*ssa.IndexAddr)
	if !ok {
		return
	}
	if q, ok := ia.Index.(*ssa.Const); ok && q.Value != nil {
		x.r.fnBad("last", f, st.Pos(), "%s.%s is taken from the element %s of a list, not from the last", n.Obj().Name(), slot, q.Value.ExactString())
	}
}

// bracket: a slot named for a bracket holds the place of such a bracket: it is not taken just after
// the bracket has been read.
func (x *posRules) bracket(f *ssa.Function, n *types.Named, slot string, st *ssa.Store) {
	var sym string
	left := strings.HasPrefix(slot, "Left") || strings.HasPrefix(slot, "LP") || strings.HasPrefix(slot, "LB")
	right := strings.HasPrefix(slot, "Right") || strings.HasPrefix(slot, "RP") || strings.HasPrefix(slot, "RB")
	switch {
	case strings.Contains(slot, "Paren"):
		sym = "()"
	case strings.Contains(slot, "Bracket"):
		sym = "[]"
	case strings.Contains(slot, "Brace"):
		sym = "{}"
	}
	if sym == "" || left == right {
		return
	}
	if left {
		sym = sym[:1]
	} else {
		sym = sym[1:]
	}
	x.r.ob("bracket", 1)
	c, ok := st.Val.(*ssa.Call)
	if !ok || c.Call.StaticCallee() == nil || !x.accessor(c.Call.StaticCallee()) {
		return
	}
	if x.nextReads(c, sym) {
		return
	}
	var prev ssa.Instruction
	for i, in := range c.Block().Instrs {
		if in == ssa.Instruction(c) {
			prev = x.readBefore(c.Block(), i-1, 0)
			break
		}
	}
	if prev == nil {
		return
	}
	for _, w := range x.constTexts(prev.(ssa.CallInstruction).Common()) {
		if w == sym {
			v := x.r.fnBad("bracket", f, c.Pos(), "%s.%s is taken after the %q has been read", n.Obj().Name(), slot, sym)
			v.more = append(v.more, "read at "+x.P.pos(prev.Pos()))
			return
		}
	}
}

// nextReads: some way on from the call, the next thing that is read is the given symbol.
func (x *posRules) nextReads(c ssa.Instruction, sym string) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var from func(b *ssa.BasicBlock, i int) bool
	from = func(b *ssa.BasicBlock, i int) bool {
		for ; i < len(b.Instrs); i++ {
			d, ok := b.Instrs[i].(ssa.CallInstruction)
			if !ok {
				continue
			}
			g := d.Common().StaticCallee()
			if g == nil || !x.e.touchesParser(g) || !advances(x.e, g, map[*ssa.Function]bool{}) {
				continue
			}
			for _, w := range x.constTexts(d.Common()) {
				if w == sym {
					return true
				}
			}
			return false
		}
		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true
				if from(s, 0) {
					return true
				}
			}
		}
		return false
	}
	for i, in := range c.Block().Instrs {
		if in == c {
			return from(c.Block(), i+1)
		}
	}
	return false
}

// readBefore: the call that reads, on the only way that leads to the given place, last before it.
func (x *posRules) readBefore(b *ssa.BasicBlock, i, d int) ssa.Instruction {
	for ; i >= 0; i-- {
		c, ok := b.Instrs[i].(ssa.CallInstruction)
		if !ok {
			continue
		}
		g := c.Common().StaticCallee()
		if g != nil && x.e.touchesParser(g) && advances(x.e, g, map[*ssa.Function]bool{}) {
			return c
		}
	}
	if len(b.Preds) != 1 || d > 40 {
		return nil
	}
	p := b.Preds[0]
	return x.readBefore(p, len(p.Instrs)-1, d+1)
}
