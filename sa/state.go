package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// bits is the abstract value of anything that has a zero/non-zero distinction:
// bN: nil, false, "", 0 or an empty slice; bT: a non-nil interface holding a nil pointer;
// bV: non-nil, true, non-empty. eN/eT: elements of a slice may be nil / typed nil.
type bits uint8

const (
	bN bits = 1 << iota
	bT
	bV
	eN
	eT
)
const bMask = bN | bT | bV

// dset is a small set of possible dynamic types of an interface value (nil: unknown).
type dset struct {
	ts  []types.Type
	key string
}

const maxDyn = 8

func mkDyn(ts ...types.Type) *dset {
	m := map[string]types.Type{}
	for _, t := range ts {
		m[t.String()] = t
	}
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	if len(ks) > maxDyn {
		return nil
	}
	sort.Strings(ks)
	d := &dset{}
	for _, k := range ks {
		d.ts = append(d.ts, m[k])
	}
	d.key = strings.Join(ks, "|")
	return d
}

func joinDyn(a, b *dset) *dset {
	if a == nil || b == nil {
		return nil
	}
	if a.key == b.key {
		return a
	}
	return mkDyn(append(append([]types.Type(nil), a.ts...), b.ts...)...)
}

// dynOf gives the possible dynamic types of v; nil when unknown.
func (s *state) dynOf(v ssa.Value) *dset {
	if s.get(v)&(bT|bV) == 0 {
		return &dset{}
	}
	c := s.canon(v)
	if d := s.dyn[c]; d != nil {
		return d
	}
	if d := s.dyn[v]; d != nil {
		return d
	}
	o := s.obj(v)
	if _, isC := o.(*ssa.Const); !isC && o != v {
		if _, isI := o.Type().Underlying().(*types.Interface); !isI {
			return mkDyn(o.Type())
		}
		if d := s.dyn[o]; d != nil {
			return d
		}
	}
	return nil
}

func (b bits) String() string {
	s := ""
	for i, c := range "NTVnt" {
		if b&(1<<uint(i)) != 0 {
			s += string(c)
		}
	}
	if s == "" {
		return "_"
	}
	return s
}

// neverEmpty holds the named slice types whose values are always nil or non-empty.
var onceNeverEmpty sync.Once
var neverEmpty = map[*types.Named]bool{}

// findNeverEmpty looks at every way a value of a named slice type comes into being.
func findNeverEmpty(P *Prog) {
	bad := map[*types.Named]bool{}
	seen := map[*types.Named]bool{}
	for _, f := range P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				v, ok := in.(ssa.Value)
				if !ok {
					continue
				}
				n, ok := v.Type().(*types.Named)
				if !ok || n.Obj().Pkg() != P.TPkg {
					continue
				}
				if _, ok := n.Underlying().(*types.Slice); !ok {
					continue
				}
				seen[n] = true
				switch x := v.(type) {
				case *ssa.Phi, *ssa.UnOp, *ssa.Field, *ssa.Extract:
				case *ssa.Call:
					if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
						if bi.Name() != "append" {
							bad[n] = true
						} else if x.Call.Args[0].Type() != types.Type(n) {
							bad[n] = true
						}
					}
				case *ssa.Slice:
					al, ok := x.X.(*ssa.Alloc)
					if !ok || x.Low != nil || x.High != nil {
						bad[n] = true
						break
					}
					if at, ok := deref(al.Type()).Underlying().(*types.Array); !ok || at.Len() == 0 {
						bad[n] = true
					}
				default:
					bad[n] = true
				}
			}
		}
	}
	for n := range seen {
		if !bad[n] {
			neverEmpty[n] = true
		}
	}
}

func topOf(t types.Type) bits {
	if tokenKindT != nil && types.Identical(t, tokenKindT) {
		return bV
	}
	if n, ok := t.(*types.Named); ok && neverEmpty[n] {
		return bN | bV
	}
	switch u := t.Underlying().(type) {
	case *types.Interface:
		return bN | bT | bV
	case *types.Slice: // bN: nil, bT: empty but not nil, bV: non-empty
		switch u.Elem().Underlying().(type) {
		case *types.Interface:
			return bN | bT | bV | eN | eT
		case *types.Pointer:
			return bN | bT | bV | eN
		}
		return bN | bT | bV
	case *types.Struct, *types.Array, *types.Tuple:
		return bV
	}
	return bN | bV
}

// token state of the lexer
const (
	tokV   bits = 1
	tokEOF bits = 2
	tokErr bits = 4
)

type fk struct {
	b ssa.Value
	f int
}

const (
	fCell = -1 // content of an Alloc'ed variable
	fElem = -5 // accumulated element bits of an array
	fTup  = -100
)

type fv struct {
	v   bits
	rep ssa.Value
}

type snap struct {
	tok   bits
	adv   bool
	entry bits
	pend  ssa.Instruction
	since map[*ssa.BasicBlock]bool
	tied  map[ssa.Value]bool
	tk    string
	cur   bool // no token consumed since the snapshot
}

type state struct {
	env    map[ssa.Value]bits
	alias  map[ssa.Value]ssa.Value
	fld    map[fk]fv
	fresh  map[ssa.Value]*types.Named
	pub    map[ssa.Value]bool
	dyn    map[ssa.Value]*dset
	tk     string // what is known of the current token: "kw:NAME" or "k:KIND"
	tok    bits
	adv    bool
	entry  bits
	tied   map[ssa.Value]bool
	pend   ssa.Instruction
	snaps  map[ssa.Value]*snap
	since  map[*ssa.BasicBlock]bool
	defers []*ssa.Defer
	tag    string             // rule-specific component
	owed   map[ssa.Value]bool // parsed nodes not yet kept anywhere
	lost   func(*state, ssa.Value)
}

func newState() *state {
	return &state{env: map[ssa.Value]bits{}, alias: map[ssa.Value]ssa.Value{}, fld: map[fk]fv{}, fresh: map[ssa.Value]*types.Named{},
		pub: map[ssa.Value]bool{}, dyn: map[ssa.Value]*dset{}, tied: map[ssa.Value]bool{}, snaps: map[ssa.Value]*snap{}, since: map[*ssa.BasicBlock]bool{}, owed: map[ssa.Value]bool{}}
}

func cpm[K comparable, V any](m map[K]V) map[K]V {
	r := make(map[K]V, len(m)+2)
	for k, v := range m {
		r[k] = v
	}
	return r
}

func (s *state) clone() *state {
	n := *s
	n.env, n.alias, n.fld, n.fresh, n.pub, n.dyn = cpm(s.env), cpm(s.alias), cpm(s.fld), cpm(s.fresh), cpm(s.pub), cpm(s.dyn)
	n.tied, n.snaps, n.since, n.owed = cpm(s.tied), cpm(s.snaps), cpm(s.since), cpm(s.owed)
	n.defers = append([]*ssa.Defer(nil), s.defers...)
	return &n
}

func (s *state) canon(v ssa.Value) ssa.Value {
	for i := 0; i < 50; i++ {
		a, ok := s.alias[v]
		if !ok {
			return v
		}
		v = a
	}
	return v
}

// obj strips interface conversions, to find the object behind a value.
func (s *state) obj(v ssa.Value) ssa.Value {
	for i := 0; i < 50; i++ {
		v = s.canon(v)
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.TypeAssert:
			if x.CommaOk {
				return v
			}
			v = x.X
		default:
			return v
		}
	}
	return v
}

// under lists v and the values it is a view of (conversions and type assertions).
func (s *state) under(v ssa.Value) []ssa.Value {
	var out []ssa.Value
	for i := 0; i < 50; i++ {
		out = append(out, v)
		c := s.canon(v)
		if c != v {
			out = append(out, c)
		}
		switch x := c.(type) {
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.TypeAssert:
			v = x.X
		case *ssa.Extract:
			ta, ok := x.Tuple.(*ssa.TypeAssert)
			if !ok {
				return out
			}
			v = ta.X
		default:
			return out
		}
	}
	return out
}

func constBits(c *ssa.Const) bits {
	if c.Value == nil {
		switch c.Type().Underlying().(type) {
		case *types.Struct, *types.Array:
			return bV
		}
		return bN
	}
	switch c.Value.Kind() {
	case constant.Bool:
		if constant.BoolVal(c.Value) {
			return bV
		}
		return bN
	case constant.String:
		if tokenKindT != nil && types.Identical(c.Type(), tokenKindT) && c.Value.ExactString() == eofKindConst {
			return bT
		}
		if constant.StringVal(c.Value) == "" {
			return bN
		}
		return bV
	case constant.Int:
		if constant.Sign(c.Value) == 0 {
			return bN
		}
		return bV
	}
	return bN | bV
}

func (s *state) get(v ssa.Value) bits {
	switch x := v.(type) {
	case *ssa.Const:
		return constBits(x)
	case *ssa.Global, *ssa.Function, *ssa.Builtin:
		return bV
	}
	if b, ok := s.env[v]; ok {
		return b
	}
	c := s.canon(v)
	if c != v {
		return s.get(c)
	}
	return topOf(v.Type())
}

// kill forgets everything known about v before it is (re)defined. If another value is known to
// be the same, it inherits the facts.
func (s *state) kill(v ssa.Value) {
	var heir ssa.Value
	owed := s.owed[v] && s.lost != nil && s.get(v)&bV != 0
	for x, a := range s.alias {
		if a == v && (heir == nil || x.Name() < heir.Name()) {
			heir = x
		}
	}
	if heir != nil {
		b := s.get(v)
		delete(s.alias, heir)
		s.env[heir] = b
		for x, a := range s.alias {
			if a == v {
				s.alias[x] = heir
			}
		}
		if t := s.fresh[v]; t != nil {
			s.fresh[heir] = t
		}
		if s.pub[v] {
			s.pub[heir] = true
		}
		if t := s.dyn[v]; t != nil {
			s.dyn[heir] = t
		}
		if s.tied[v] {
			s.tied[heir] = true
		}
		if s.owed[v] {
			s.owed[heir] = true
		}
		if sn := s.snaps[v]; sn != nil {
			s.snaps[heir] = sn
		}
		for k, f := range s.fld {
			if k.b == v {
				s.fld[fk{heir, k.f}] = f
			}
		}
	}
	if owed && heir == nil {
		s.lost(s, v)
	}
	// aliases whose target is computed from v become stale
	for x, a := range s.alias {
		if dependsOn(a, v, 0) {
			s.env[x] = s.get(a)
			delete(s.alias, x)
		}
	}
	delete(s.env, v)
	delete(s.alias, v)
	for k, f := range s.fld {
		if k.b == v {
			delete(s.fld, k)
		} else if f.rep == v {
			f.v = s.repBits(f)
			f.rep = heir
			s.fld[k] = f
		}
	}
	delete(s.fresh, v)
	delete(s.pub, v)
	delete(s.dyn, v)
	delete(s.tied, v)
	delete(s.snaps, v)
	delete(s.owed, v)
}

func (s *state) repBits(f fv) bits { return f.v }

func dependsOn(a, v ssa.Value, d int) bool {
	if d > 6 {
		return false
	}
	switch x := a.(type) {
	case *ssa.BinOp:
		return x.X == v || x.Y == v || dependsOn(x.X, v, d+1) || dependsOn(x.Y, v, d+1)
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return x.X == v || dependsOn(x.X, v, d+1)
		}
	case *ssa.MakeInterface:
		return x.X == v
	case *ssa.ChangeInterface:
		return x.X == v
	}
	return false
}

func (s *state) set(v ssa.Value, b bits) { s.env[v] = b }

func (s *state) progress() {
	s.adv = true
	s.tk = ""
	s.tied = map[ssa.Value]bool{}
	for v, sn := range s.snaps {
		if sn.cur {
			n := *sn
			n.cur = false
			s.snaps[v] = &n
		}
	}
	for h := range s.since {
		s.since[h] = true
	}
}

// key is a canonical description of the state, for deduplication.
func (s *state) key(num map[ssa.Value]int) string {
	var parts []string
	id := func(v ssa.Value) string {
		if n, ok := num[v]; ok {
			return fmt.Sprintf("%d", n)
		}
		return v.Name() + v.String()
	}
	for v, b := range s.env {
		parts = append(parts, "e"+id(v)+"="+b.String())
	}
	for v, a := range s.alias {
		parts = append(parts, "a"+id(v)+">"+id(a))
	}
	for k, f := range s.fld {
		r := ""
		if f.rep != nil {
			r = id(f.rep)
		}
		parts = append(parts, fmt.Sprintf("f%s.%d=%s@%s", id(k.b), k.f, f.v, r))
	}
	for v := range s.fresh {
		parts = append(parts, "n"+id(v))
	}
	for v := range s.pub {
		parts = append(parts, "p"+id(v))
	}
	for v, t := range s.dyn {
		parts = append(parts, "d"+id(v)+t.key)
	}
	for v := range s.tied {
		parts = append(parts, "t"+id(v))
	}
	for v, sn := range s.snaps {
		parts = append(parts, fmt.Sprintf("s%s:%d%v%d%d%v%s", id(v), sn.tok, sn.adv, sn.entry, len(sn.tied), sn.cur, sn.tk))
	}
	for v := range s.owed {
		parts = append(parts, "o"+id(v))
	}
	for h, b := range s.since {
		parts = append(parts, fmt.Sprintf("l%d%v", h.Index, b))
	}
	sort.Strings(parts)
	p := ""
	if s.pend != nil {
		p = fmt.Sprint(s.pend.Pos())
	}
	return fmt.Sprintf("%d|%v|%d|%s|%d|%s|%s|", s.tok, s.adv, s.entry, p, len(s.defers), s.tag, s.tk) + strings.Join(parts, ",")
}

func (s *state) coarse() string {
	p := ""
	if s.pend != nil {
		p = fmt.Sprint(s.pend.Pos())
	}
	var ss []string
	for h, b := range s.since {
		ss = append(ss, fmt.Sprintf("%d%v", h.Index, b))
	}
	for v, sn := range s.snaps {
		ss = append(ss, fmt.Sprintf("%s%v", v.Name(), sn.adv))
	}
	sort.Strings(ss)
	return fmt.Sprintf("%v|%s|%d|%s|%s|%s", s.adv, p, len(s.defers), s.tag, s.tk, strings.Join(ss, ","))
}

// join merges b into a copy of a.
func join(a, b *state) *state {
	r := a.clone()
	r.tok |= b.tok
	r.entry |= b.entry
	for v, x := range a.env {
		y, ok := b.env[v]
		if !ok {
			if c := b.canon(v); c != v {
				y, ok = b.get(c), true
			}
		}
		if ok {
			r.env[v] = x | y
		} else {
			delete(r.env, v)
		}
	}
	for v, y := range b.env {
		if _, ok := a.env[v]; !ok {
			if c := a.canon(v); c != v {
				r.env[v] = a.get(c) | y
			}
		}
	}
	for v, x := range a.alias {
		if y, ok := b.alias[v]; !ok || y != x {
			delete(r.alias, v)
			if _, ok := r.env[v]; !ok {
				r.env[v] = a.get(v) | b.get(v)
			}
		}
	}
	for v := range b.alias {
		if _, ok := a.alias[v]; !ok {
			if _, ok := r.env[v]; !ok {
				r.env[v] = a.get(v) | b.get(v)
			}
		}
	}
	for k, x := range a.fld {
		y, ok := b.fld[k]
		if !ok {
			delete(r.fld, k)
			continue
		}
		n := fv{v: x.v | y.v}
		if x.rep == y.rep {
			n.rep = x.rep
		}
		r.fld[k] = n
	}
	for v := range a.fresh {
		if _, ok := b.fresh[v]; !ok {
			delete(r.fresh, v)
		}
	}
	for v := range b.pub {
		r.pub[v] = true
	}
	r.dyn = map[ssa.Value]*dset{}
	for v := range a.dyn {
		if u := joinDyn(a.dynOf(v), b.dynOf(v)); u != nil && len(u.ts) > 0 {
			r.dyn[v] = u
		}
	}
	for v := range b.dyn {
		if _, ok := a.dyn[v]; !ok {
			if u := joinDyn(a.dynOf(v), b.dynOf(v)); u != nil && len(u.ts) > 0 {
				r.dyn[v] = u
			}
		}
	}
	r.tk = joinTk(a.tk, b.tk)
	for v := range a.tied {
		if !b.tied[v] {
			delete(r.tied, v)
		}
	}
	for v, x := range a.snaps {
		y, ok := b.snaps[v]
		if !ok {
			delete(r.snaps, v)
			continue
		}
		n := *x
		n.tok |= y.tok
		n.entry |= y.entry
		n.cur = n.cur && y.cur
		n.tk = joinTk(n.tk, y.tk)
		n.tied = map[ssa.Value]bool{}
		for t := range x.tied {
			if y.tied[t] {
				n.tied[t] = true
			}
		}
		r.snaps[v] = &n
	}
	for h, x := range a.since {
		r.since[h] = x && b.since[h]
	}
	for v := range b.owed {
		r.owed[v] = true
	}
	// when a name for a parsed node is lost, the obligation moves to the value that may be that node
	for _, st := range []*state{a, b} {
		for x := range st.alias {
			if _, ok := r.alias[x]; ok {
				continue
			}
			for _, t := range st.under(x) {
				if st.owed[t] {
					r.owed[x] = true
					delete(r.owed, t)
				}
			}
		}
	}
	return r
}

func joinTk(a, b string) string {
	if a == b {
		return a
	}
	if a != "" && b != "" {
		return tkSeen
	}
	return ""
}

// finfo is per-function static information.
type finfo struct {
	fn    *ssa.Function
	num   map[ssa.Value]int
	live  []map[ssa.Value]bool             // live-in per block
	loops map[*ssa.BasicBlock]map[int]bool // header -> blocks
}

func isBackEdge(from, to *ssa.BasicBlock) bool { return to.Dominates(from) }

func buildInfo(f *ssa.Function) *finfo {
	fi := &finfo{fn: f, num: map[ssa.Value]int{}, loops: map[*ssa.BasicBlock]map[int]bool{}}
	n := 0
	add := func(v ssa.Value) { n++; fi.num[v] = n }
	for _, p := range f.Params {
		add(p)
	}
	for _, p := range f.FreeVars {
		add(p)
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	fi.live = make([]map[ssa.Value]bool, len(f.Blocks))
	for i := range fi.live {
		fi.live[i] = map[ssa.Value]bool{}
	}
	for changed := true; changed; {
		changed = false
		for i := len(f.Blocks) - 1; i >= 0; i-- {
			b := f.Blocks[i]
			cur := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range fi.live[s.Index] {
					cur[v] = true
				}
				for _, in := range s.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					delete(cur, ph)
				}
			}
			for _, s := range b.Succs {
				for _, in := range s.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					for k, p := range s.Preds {
						if p == b {
							cur[ph.Edges[k]] = true
						}
					}
				}
			}
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				in := b.Instrs[j]
				if v, ok := in.(ssa.Value); ok {
					delete(cur, v)
				}
				if _, ok := in.(*ssa.Phi); ok {
					continue
				}
				for _, op := range in.Operands(nil) {
					if *op != nil {
						cur[*op] = true
					}
				}
			}
			for _, in := range b.Instrs { // phis are live-in for our purposes
				if ph, ok := in.(*ssa.Phi); ok {
					cur[ph] = true
				}
			}
			for v := range cur {
				if _, isc := v.(*ssa.Const); isc {
					continue
				}
				if !fi.live[i][v] {
					fi.live[i][v] = true
					changed = true
				}
			}
		}
	}
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if isBackEdge(b, s) {
				set := fi.loops[s]
				if set == nil {
					set = map[int]bool{s.Index: true}
					fi.loops[s] = set
				}
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if set[x.Index] {
						continue
					}
					set[x.Index] = true
					stack = append(stack, x.Preds...)
				}
			}
		}
	}
	return fi
}

// prune drops facts about values that can no longer matter in block b.
func (s *state) prune(fi *finfo, b *ssa.BasicBlock) {
	live := fi.live[b.Index]
	keep := map[ssa.Value]bool{}
	var addv func(v ssa.Value)
	addv = func(v ssa.Value) {
		if v == nil || keep[v] {
			return
		}
		keep[v] = true
		if a, ok := s.alias[v]; ok {
			addv(a)
		}
		switch x := v.(type) {
		case *ssa.MakeInterface:
			addv(x.X)
		case *ssa.ChangeInterface:
			addv(x.X)
		case *ssa.ChangeType:
			addv(x.X)
		case *ssa.FieldAddr:
			addv(x.X)
		case *ssa.BinOp: // condition computed earlier
			addv(x.X)
			addv(x.Y)
		case *ssa.UnOp:
			addv(x.X)
		case *ssa.Call:
			if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
				addv(x.Call.Args[0])
			}
		}
	}
	for v := range live {
		addv(v)
	}
	for _, p := range fi.fn.Params {
		addv(p)
	}
	for _, d := range s.defers {
		addv(d.Call.Value)
		for _, a := range d.Call.Args {
			addv(a)
		}
	}
	for v := range s.owed {
		if s.get(v)&bV == 0 {
			delete(s.owed, v)
			continue
		}
		addv(v)
	}
	// objects reachable through kept fields only matter through reps
	for ch := true; ch; {
		ch = false
		for k, f := range s.fld {
			if keep[k.b] && f.rep != nil && !keep[f.rep] {
				if _, ok := s.fresh[f.rep]; ok || s.env[f.rep] != 0 {
					addv(f.rep)
					ch = true
				}
			}
		}
	}
	for v := range s.env {
		if !keep[v] {
			delete(s.env, v)
		}
	}
	for v := range s.alias {
		if !keep[v] {
			delete(s.alias, v)
		}
	}
	for k, f := range s.fld {
		if !keep[k.b] {
			delete(s.fld, k)
		} else if f.rep != nil && !keep[f.rep] {
			f.rep = nil
			s.fld[k] = f
		}
	}
	for v := range s.fresh {
		if !keep[v] {
			delete(s.fresh, v)
			delete(s.pub, v)
		}
	}
	for v := range s.dyn {
		if !keep[v] {
			delete(s.dyn, v)
		}
	}
	for v := range s.tied {
		if !keep[v] {
			delete(s.tied, v)
		}
	}
	for v := range s.snaps {
		if !keep[v] {
			delete(s.snaps, v)
		}
	}
	for h := range s.since {
		if !fi.loops[h][b.Index] {
			delete(s.since, h)
		}
	}
}

var _ = token.ADD
