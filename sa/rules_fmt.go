package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"time"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// fmtMode interprets a formatting method: what is written, in which order.
type fmtMode struct {
	P    *Prog
	pair map[[3]string]bool // previous item, "g"lued or "s"paced, next item
	prec map[[2]string]bool // first item may be written before second
	end  map[string]uint8   // how often each item is written on the paths that return
	any  bool
	raw  map[string]bool // pieces of constant text written
	vis  map[string]bool // paths written
	rec  map[string]bool // paths left to a helper that is calling itself
}

func newFmtMode(P *Prog) *fmtMode {
	return &fmtMode{P: P, pair: map[[3]string]bool{}, prec: map[[2]string]bool{}, end: map[string]uint8{}, raw: map[string]bool{}, vis: map[string]bool{}, rec: map[string]bool{}}
}

// words splits text into words and symbols; the second result tells whether white space precedes each.
func words(t string) (out []string, spaced []bool, trailing bool) {
	sp := false
	rs := []rune(t)
	for i := 0; i < len(rs); {
		c := rs[i]
		if c == ' ' || c == '\n' || c == '\t' {
			sp = true
			i++
			continue
		}
		j := i + 1
		if c == '_' || unicode.IsLetter(c) || unicode.IsDigit(c) {
			for j < len(rs) && (rs[j] == '_' || unicode.IsLetter(rs[j]) || unicode.IsDigit(rs[j])) {
				j++
			}
		}
		out = append(out, string(rs[i:j]))
		spaced = append(spaced, sp)
		sp = false
		i = j
	}
	return out, spaced, sp
}

func (m *fmtMode) item(s *tstate, w string) {
	if len(s.ext.last) == 0 {
		s.ext.last["^g"] = true
	}
	for l := range s.ext.last {
		m.pair[[3]string{l[:len(l)-1], l[len(l)-1:], w}] = true
	}
	s.ext.last = map[string]bool{w + "g": true}
	for o, c := range s.ext.cnts {
		if c&^1 != 0 {
			m.prec[[2]string{o, w}] = true
		}
	}
	c, ok := s.ext.cnts[w]
	if !ok {
		c = 1
	}
	n := c << 1
	if n&8 != 0 {
		n = n&^8 | 4
	}
	s.ext.cnts[w] = n
}

func (m *fmtMode) space(s *tstate) {
	n := map[string]bool{}
	if len(s.ext.last) == 0 {
		n["^s"] = true
	}
	for l := range s.ext.last {
		n[l[:len(l)-1]+"s"] = true
	}
	s.ext.last = n
}

func norm(p string) string {
	i := strings.IndexByte(p, '[')
	if i < 0 {
		return p
	}
	// any element
	j := strings.IndexByte(p[i:], ']')
	return p[:i] + "[]" + norm(p[i+j+1:])
}

// emit writes a value.
func (m *fmtMode) emit(x *tinterp, s *tstate, v tv) {
	switch v.k {
	case tkCat:
		for _, e := range v.els {
			m.emit(x, s, e)
		}
	case tkCon:
		t := ""
		switch v.c.Kind() {
		case constant.String:
			t = constant.StringVal(v.c)
		case constant.Int:
			n, _ := constant.Int64Val(v.c)
			t = string(rune(n))
		}
		m.raw[t] = true
		ws, sp, tr := words(t)
		for i, w := range ws {
			if sp[i] {
				m.space(s)
			}
			m.item(s, "w:"+w)
		}
		if tr {
			m.space(s)
		}
	case tkPath, tkAddr:
		if f := s.facts[v.p]; x.fixed && !x.noeq && f.eq != "" {
			if c := constant.MakeFromLiteral(f.eq, token.STRING, 0); c.Kind() == constant.String {
				m.emit(x, s, tv{k: tkCon, c: c})
				return
			}
		}
		m.path(x, s, v.p)
	default:
		ts := x.taints(s, v)
		if len(ts) == 0 {
			m.item(s, "?")
		}
		for _, t := range ts {
			m.path(x, s, t)
		}
	}
}

func (m *fmtMode) path(x *tinterp, s *tstate, p string) {
	if !foreign(p) && p != "" && x.related(p) {
		s.cnt++
		if s.cnt > 2 {
			s.cnt = 2
		}
	}
	m.vis[norm(p)] = true
	m.item(s, "p:"+norm(p))
}

func isFormatter(v tv) bool { return v.k == tkSpec && v.p == "F" }

func (m *fmtMode) call(x *tinterp, s *tstate, c *ssa.CallCommon, at ssa.Instruction, fn *ssa.Function, args []tv) ([]tout, bool) {
	none := func(s *tstate) ([]tout, bool) {
		n := c.Signature().Results().Len()
		var vals []tv
		for i := 0; i < n; i++ {
			vals = append(vals, tv{k: tkNil})
		}
		return []tout{{vals, s}}, true
	}
	if fn != nil && fn.Signature.Recv() != nil && len(args) == 2 {
		if n, _ := structOf(fn.Signature.Recv().Type()); n != nil && n.Obj().Name() == "Formatter" && (fn.Name() == "WriteString" || fn.Name() == "WriteByte") {
			s = s.clone()
			if isFormatter(args[0]) {
				m.emit(x, s, args[1])
			} else if args[0].k == tkCell {
				s.cells[args[0].p] = unk(x.taints(s, s.cells[args[0].p]), x.taints(s, args[1]))
			} else {
				x.give("writes to another formatter")
			}
			return none(s)
		}
	}
	// the text of a nested formatter
	if fn != nil && fn.Signature.Recv() != nil && len(args) == 1 && args[0].k == tkCell {
		if n, _ := structOf(fn.Signature.Recv().Type()); n != nil && n.Obj().Name() == "Formatter" && c.Signature().Results().Len() == 1 && types.Identical(c.Signature().Results().At(0).Type(), types.Typ[types.String]) {
			return []tout{{[]tv{unk(x.taints(s, s.cells[args[0].p]))}, s}}, true
		}
	}
	if len(args) == 2 && isExprMethod(x.P, fn, c, "FormatSQL") {
		v := args[0]
		if v.k == tkCell {
			v = x.load(s, v)
		}
		p, ok := v.pathOf()
		s = s.clone()
		if isFormatter(args[1]) {
			if !ok {
				m.emit(x, s, v)
				return none(s)
			}
			if p == "" {
				x.give("formats itself")
			}
			m.path(x, s, p)
			return none(s)
		}
		if args[1].k == tkCell {
			s.cells[args[1].p] = unk(x.taints(s, s.cells[args[1].p]), x.taints(s, v))
			return none(s)
		}
		x.give("formats with another formatter")
	}
	// other methods of a child that yield text
	if c.IsInvoke() && c.Signature().Results().Len() == 1 {
		if p, ok := args[0].pathOf(); ok && p != "" && c.Method.Name() != "Pos" && c.Method.Name() != "End" {
			return []tout{{[]tv{unk([]string{p})}, s}}, true
		}
	}
	return nil, false
}

// again: a helper that writes its argument calls itself on a part of it.
func (m *fmtMode) again(x *tinterp, s *tstate, before, args []tv) ([]tout, bool) {
	at, f := -1, false
	for i := range args {
		if i >= len(before) {
			return nil, false
		}
		if isFormatter(args[i]) && isFormatter(before[i]) {
			f = true
			continue
		}
		if args[i].key() == before[i].key() {
			continue
		}
		p, ok1 := before[i].pathOf()
		q, ok2 := args[i].pathOf()
		if at >= 0 || !ok1 || !ok2 || !strings.HasPrefix(q, p+".") {
			return nil, false
		}
		at = i
	}
	if at < 0 || !f {
		return nil, false
	}
	s = s.clone()
	m.path(x, s, args[at].p)
	m.rec[norm(args[at].p)] = true
	return []tout{{nil, s}}, true
}

func (m *fmtMode) leave(x *tinterp, s *tstate, vals []tv, at ssa.Instruction) {
	end := s.clone()
	m.item(end, "$")
	if !x.gone(s) && x.q != "-" && s.cnt == 0 {
		x.issue(at.Pos(), "%s is not written on a path on which it may be present", x.q)
	}
	if !m.any {
		m.any = true
		for k, c := range s.ext.cnts {
			m.end[k] = c
		}
		return
	}
	for k := range m.end {
		if _, ok := s.ext.cnts[k]; !ok {
			m.end[k] |= 1
		}
	}
	for k, c := range s.ext.cnts {
		o, ok := m.end[k]
		if !ok {
			o = 1
		}
		m.end[k] = o | c
	}
}

// fmtRun interprets the formatting method of n for one shape.
func fmtRun(P *Prog, n *types.Named, q string, sh *shape, mode int64, facts map[string]tfact) (*tinterp, *fmtMode) {
	return fmtRunDyn(P, n, q, sh, mode, facts, nil)
}

// dynPart: the value at a path is taken to be of a type, and of a shape of it.
type dynPart struct {
	path string
	typ  types.Type
	sh   *shape
}

func fmtRunDyn(P *Prog, n *types.Named, q string, sh *shape, mode int64, facts map[string]tfact, d *dynPart) (*tinterp, *fmtMode) {
	return fmtRunLen(P, n, q, sh, mode, facts, d, -1)
}

// fmtRunLen fixes the length of all lists, unless it is negative; what several branches test is then
// told apart.
func fmtRunLen(P *Prog, n *types.Named, q string, sh *shape, mode int64, facts map[string]tfact, d *dynPart, ln int) (*tinterp, *fmtMode) {
	once := func(keep map[string]bool) (*tinterp, *fmtMode) {
		fn := P.Prog.LookupMethod(types.NewPointer(n), P.TPkg, "FormatSQL")
		m := newFmtMode(P)
		x := newTree(P, q, m)
		x.fmode = mode
		x.fixed, x.fix, x.keep = ln >= 0, ln, keep
		x.noeq = P.fieldsAsFields
		if x.fixed {
			x.tested = map[string]map[*ssa.If]bool{}
		}
		s := newTState()
		shapeFacts(s, "", n, sh)
		for k, f := range recordFacts(P, n) {
			if _, ok := s.facts[k]; !ok {
				s.facts[k] = f
			}
		}
		if d != nil {
			x.dyn = map[string]types.Type{d.path: d.typ}
			if d.sh != nil {
				shapeFacts(s, d.path+".", d.sh.n, d.sh)
			}
		}
		for k, f := range facts {
			s.facts[k] = f
		}
		x.run(fn, []tv{{k: tkPath, t: types.NewPointer(n)}, {k: tkSpec, p: "F"}}, s)
		return x, m
	}
	x, m := once(nil)
	keep := map[string]bool{}
	for p, is := range x.tested {
		if len(is) > 1 {
			keep[p] = true
		}
	}
	if len(keep) == 0 || x.gaveUp != "" {
		return x, m
	}
	y, n2 := once(keep)
	if y.gaveUp != "" {
		return x, m // too many states to tell apart
	}
	return y, n2
}

var recMu sync.Mutex
var recMemo = map[*types.Named]map[string]tfact{}
var recEngine *Engine

// recordFacts lists the parts of helper records inside n that are present whenever the record is.
func recordFacts(P *Prog, n *types.Named) map[string]tfact {
	recMu.Lock()
	defer recMu.Unlock()
	if m, ok := recMemo[n]; ok || recEngine == nil {
		return m
	}
	out := map[string]tfact{}
	var walk func(m *types.Named, pre string, d int)
	walk = func(m *types.Named, pre string, d int) {
		st := m.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			t := types.Unalias(st.Field(i).Type())
			p := pre + st.Field(i).Name()
			if pre != "" {
				if cl := recEngine.class[m]; cl != nil && cl.joined != nil && recEngine.tracked[m] && cl.joined[i]&(bN|bT) == 0 && cl.joined[i]&bV != 0 {
					out[p] = tfact{z: 2}
				}
			}
			if sl, ok := t.Underlying().(*types.Slice); ok {
				t, p = sl.Elem(), p+"[]"
			}
			if k, _ := structOf(t); k != nil && k.Obj().Pkg() == P.TPkg && !P.NodeSet[k] && d < 4 {
				walk(k, p+".", d+1)
			}
		}
	}
	walk(n, "", 0)
	recMemo[n] = out
	return out
}

func shapeFacts(s *tstate, pre string, n *types.Named, sh *shape) {
	if sh == nil {
		return
	}
	st := n.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		b := sh.f[i]
		if _, isPtr := st.Field(i).Type().Underlying().(*types.Struct); isPtr {
			continue
		}
		switch {
		case b&bMask == 0:
		case b&bV == 0:
			s.facts[pre+st.Field(i).Name()] = tfact{z: 1}
		case b&(bN|bT) == 0:
			s.facts[pre+st.Field(i).Name()] = tfact{z: 2}
		}
	}
}

// modes of the formatter, as the source numbers them.
func fmtModes(P *Prog) map[string]int64 {
	out := map[string]int64{}
	for _, nm := range P.TPkg.Scope().Names() {
		c, ok := P.TPkg.Scope().Lookup(nm).(*types.Const)
		if ok && P.isMode(c.Type()) {
			v, _ := constant.Int64Val(c.Val())
			out[nm] = v
		}
	}
	return out
}

// cover decides that what a node records at a path is written.
type cover struct {
	P     *Prog
	e     *Engine
	modes map[string]int64
}

// shapesOf lists the shapes of node n the parser builds; nil when it builds none.
func (c *cover) shapesOf(n *types.Named) []*shape {
	cl := c.e.class[n]
	if cl == nil {
		return nil
	}
	var ks []string
	for k := range cl.shapes {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var out []*shape
	for _, k := range ks {
		out = append(out, cl.shapes[k])
	}
	return out
}

type lack struct {
	path, mode, why string
	pos             token.Pos
}

// lacks lists the ways formatting n can leave out what is at ch.
func (c *cover) lacks(n *types.Named, ch tchild, depth int) (ls []lack, undecided string) {
	var ms []string
	for k := range c.modes {
		ms = append(ms, k)
	}
	sort.Strings(ms)
	shapes := c.roleShapes(n, c.shapesOf(n))
	for _, mn := range ms {
		x, _ := fmtRun(c.P, n, ch.path, nil, c.modes[mn], nil)
		if x.gaveUp != "" {
			return nil, x.gaveUp
		}
		if len(x.issues) == 0 {
			continue
		}
		for _, sh := range shapes {
			x, _ := fmtRun(c.P, n, ch.path, sh, c.modes[mn], nil)
			if x.gaveUp != "" {
				return nil, x.gaveUp
			}
			for _, is := range sortedIssues(x) {
				ls = append(ls, lack{ch.path, mn, is.what, is.pos})
			}
		}
	}
	if len(ls) == 0 {
		return nil, ""
	}
	// written by a helper that looks at its type
	if done, l, un := c.byType(n, ch, shapes, ms); done {
		return l, un
	}
	// not written directly: the text may still depend on it
	ok, un := c.shows(n, ch, shapes, ms, depth)
	if un != "" {
		return nil, un
	}
	if ok {
		return nil, ""
	}
	return ls, ""
}

// byType decides the part at ch when formatting tests its dynamic type: for each type it is tested for,
// what a node of that type holds must be written; for any other type, the part itself.
func (c *cover) byType(n *types.Named, ch tchild, shapes []*shape, ms []string) (done bool, ls []lack, undecided string) {
	if _, isI := ch.typ.Underlying().(*types.Interface); !isI || strings.Contains(ch.path, "[]") {
		return false, nil, ""
	}
	probe, _ := fmtRun(c.P, n, ch.path, nil, c.modes[ms[0]], nil)
	ts := probe.asserts[ch.path]
	if len(ts) == 0 {
		return false, nil, ""
	}
	run := func(q string, d *dynPart) {
		for _, mn := range ms {
			for _, sh := range shapes {
				x, _ := fmtRunDyn(c.P, n, q, sh, c.modes[mn], map[string]tfact{ch.path: {z: 2}}, d)
				if x.gaveUp != "" {
					undecided = x.gaveUp
					return
				}
				for _, is := range sortedIssues(x) {
					ls = append(ls, lack{q, mn, is.what, is.pos})
				}
			}
		}
	}
	run(ch.path, &dynPart{ch.path, types.Typ[types.Invalid], nil})
	seen := map[string]bool{}
	for _, t := range ts {
		m, _ := structOf(t)
		if m == nil || !c.P.NodeSet[m] || seen[t.String()] {
			continue
		}
		seen[t.String()] = true
		nodes, scalars := c.P.places(m, ch.path, map[*types.Named]bool{})
		for _, sh := range c.shapesOf(m) {
			for _, o := range append(append([]tchild(nil), nodes...), scalars...) {
				rel := strings.TrimPrefix(o.path, ch.path+".")
				if exemptScalar(m, rel) == "" && c.mayBe(m, rel, false) {
					run(o.path, &dynPart{ch.path, t, sh})
				}
			}
		}
	}
	return true, ls, undecided
}

// roleShapes drops the shapes of a node whose text is left to the node of the same type that holds it:
// formatting n looks for a node of type n among its parts and writes that one's fields itself, and
// never looks at some field of n which these shapes have.
func (c *cover) roleShapes(n *types.Named, shapes []*shape) []*shape {
	self := false
	seen := map[string]bool{}
	for _, mode := range c.modes {
		probe, m := fmtRun(c.P, n, "-", nil, mode, nil)
		if probe.gaveUp != "" {
			return shapes
		}
		for p, ts := range probe.asserts {
			for _, t := range ts {
				if k, _ := structOf(t); k == n && p != "" && !strings.ContainsAny(p, ".[") {
					self = true
				}
			}
		}
		for p := range m.vis {
			top, _, _ := strings.Cut(p, ".")
			seen[strings.TrimSuffix(top, "[]")] = true
		}
	}
	if !self {
		return shapes
	}
	st := n.Underlying().(*types.Struct)
	var out []*shape
	for _, sh := range shapes {
		keep := true
		for i := 0; i < st.NumFields(); i++ {
			if sh.f[i]&(bN|bT) == 0 && !seen[st.Field(i).Name()] && !isPosType(st.Field(i).Type()) {
				keep = false
			}
		}
		if keep {
			out = append(out, sh)
		}
	}
	if len(out) == 0 {
		return shapes
	}
	return out
}

// mayBe: the part at path can be absent (zero) or present in what the parser builds.
func (c *cover) mayBe(n *types.Named, path string, zero bool) bool {
	f, rest, deep := strings.Cut(path, ".")
	list := strings.HasSuffix(f, "[]")
	f = strings.TrimSuffix(f, "[]")
	i := fieldIndex(n, f)
	if i < 0 {
		return true
	}
	if deep {
		t := n.Underlying().(*types.Struct).Field(i).Type()
		if sl, ok := t.Underlying().(*types.Slice); ok && list {
			t = sl.Elem()
		}
		if m, _ := structOf(t); m != nil {
			return c.mayBe(m, rest, zero)
		}
		return true
	}
	cl := c.e.class[n]
	if list || cl == nil || cl.joined == nil || !c.e.tracked[n] {
		return true
	}
	if zero {
		return cl.joined[i]&(bN|bT) != 0
	}
	return cl.joined[i]&bV != 0
}

// shows: the words written tell the values of the part at ch apart.
func (c *cover) shows(n *types.Named, ch tchild, shapes []*shape, ms []string, depth int) (bool, string) {
	if depth > 3 {
		return false, ""
	}
	// the values to tell apart: absent, present, and the constants it can be given
	vals := map[string]tfact{}
	if !strings.HasSuffix(ch.path, "[]") && c.mayBe(n, ch.path, true) {
		vals["absent"] = tfact{z: 1}
	}
	bt, isBasic := ch.typ.Underlying().(*types.Basic)
	if isBasic && bt.Info()&types.IsBoolean == 0 {
		cs, ok := map[string]constant.Value(nil), false
		if i := fieldIndex(n, ch.path); i >= 0 {
			cs, ok = fieldConsts(c.P, n, i)
		}
		if ok {
			for k, v := range cs {
				if v.Kind() == constant.Int && constant.Sign(v) != 0 || v.Kind() == constant.String && constant.StringVal(v) != "" {
					vals[k] = tfact{z: 2, eq: k}
				}
			}
			if bt.Info()&types.IsInteger != 0 && cs["0"] == nil {
				delete(vals, "absent") // an enumeration that is left alone says nothing
			}
		} else {
			ks := comparedConsts(c.P, n, ch.path)
			for _, k := range ks {
				vals[k] = tfact{z: 2, eq: k}
			}
			if _, named := types.Unalias(ch.typ).(*types.Named); !named || len(ks) == 0 {
				vals["other"] = tfact{z: 2, eq: "other"}
			}
		}
	} else {
		vals["present"] = tfact{z: 2}
	}
	var names []string
	for k := range vals {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, mn := range ms {
		sig := map[string][]sigmask{}
		for _, k := range names {
			ss, un := c.sigs(n, ch.path, shapes, c.modes[mn], vals[k], nil)
			if un != "" {
				return false, un
			}
			sig[k] = ss
		}
		for i, a := range names {
			for _, b := range names[i+1:] {
				ua, ub := clash(sig[a], sig[b])
				if len(ua) == 0 {
					continue
				}
				ok, un := c.splitDiffer(n, ch.path, c.modes[mn], vals[a], vals[b], ua, ub)
				if un != "" {
					return false, un
				}
				if !ok {
					if os.Getenv("FMTDBG") != "" {
						fmt.Println("same", n.Obj().Name(), ch.path, a, b)
					}
					return false, ""
				}
			}
		}
	}
	if isBasic {
		return true, ""
	}
	// a child that is not written itself: what it holds must be
	cn, _ := structOf(ch.typ)
	if cn == nil {
		return false, ""
	}
	nodes, scalars := c.P.places(cn, ch.path, map[*types.Named]bool{})
	for _, o := range append(nodes, scalars...) {
		if exemptScalar(cn, strings.TrimPrefix(o.path, ch.path+".")) != "" {
			continue
		}
		// a part whose own formatting does not write it is no loss here
		rel := tchild{path: strings.TrimPrefix(o.path, ch.path+"."), typ: o.typ, node: o.node}
		if !c.mayBe(cn, rel.path, false) {
			continue
		}
		l, un := c.lacks(n, o, depth+1)
		if un != "" {
			return false, un
		}
		if len(l) > 0 {
			return false, ""
		}
	}
	return true, ""
}

func fieldIndex(n *types.Named, path string) int {
	st := n.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == path {
			return i
		}
	}
	return -1
}

// sigmask: how often each item is written when formatting a node of one shape.
type sigmask struct {
	sh *shape
	m  map[string]uint8
}

// sigs formats n for each shape that allows the fact, split by whether the given fields are set.
func (c *cover) sigs(n *types.Named, path string, shapes []*shape, mode int64, f tfact, split []int) (out []sigmask, undecided string) {
	done := map[string]bool{}
	for _, sh := range shapes {
		if !shapeAllows(n, sh, path, f) {
			continue
		}
		for _, at := range atoms(sh, split) {
			if done[at.key] {
				continue
			}
			done[at.key] = true
			x, m := fmtRun(c.P, n, path, at, mode, map[string]tfact{path: f})
			if x.gaveUp != "" {
				return nil, x.gaveUp
			}
			if m.any {
				out = append(out, sigmask{at, m.end})
			}
		}
	}
	return out, ""
}

// atoms splits a shape by whether the given fields are set.
func atoms(sh *shape, split []int) []*shape {
	out := []*shape{sh}
	for _, i := range split {
		var next []*shape
		for _, s := range out {
			for _, part := range []bits{bN | bT, bV} {
				if s.f[i]&part == 0 {
					continue
				}
				g := append([]bits(nil), s.f...)
				g[i] &= part
				next = append(next, mkShape(s.n, g))
			}
		}
		out = next
	}
	return out
}

// clash gives the formattings on each side that some formatting on the other side may equal.
func clash(as, bs []sigmask) (ua, ub []sigmask) {
	hit := make([]bool, len(bs))
	for _, a := range as {
		h := false
		for j, b := range bs {
			if !differ(a.m, b.m) {
				h, hit[j] = true, true
			}
		}
		if h {
			ua = append(ua, a)
		}
	}
	for j, b := range bs {
		if hit[j] {
			ub = append(ub, b)
		}
	}
	return ua, ub
}

// splitDiffer compares formattings again, fixing the other fields that write the same words.
func (c *cover) splitDiffer(n *types.Named, path string, mode int64, fa, fb tfact, as, bs []sigmask) (bool, string) {
	diff := map[string]bool{}
	keys := map[string]bool{}
	for _, l := range [][]sigmask{as, bs} {
		for _, s := range l {
			for k := range s.m {
				keys[k] = true
			}
		}
	}
	for k := range keys {
		var x, y uint8
		for _, s := range as {
			x |= maskOf(s.m, k)
		}
		for _, s := range bs {
			y |= maskOf(s.m, k)
		}
		if x != y {
			diff[k] = true
		}
	}
	st := n.Underlying().(*types.Struct)
	top, _, _ := strings.Cut(path, ".")
	top, _, _ = strings.Cut(top, "[")
	var split []int
	for i := 0; i < st.NumFields(); i++ {
		nm := st.Field(i).Name()
		if nm == top {
			continue
		}
		var b bits
		for _, l := range [][]sigmask{as, bs} {
			for _, s := range l {
				b |= s.sh.f[i]
			}
		}
		if b&(bN|bT) == 0 || b&bV == 0 {
			continue
		}
		x0, m0 := fmtRun(c.P, n, "-", nil, mode, map[string]tfact{nm: {z: 1}})
		x1, m1 := fmtRun(c.P, n, "-", nil, mode, map[string]tfact{nm: {z: 2}})
		if x0.gaveUp != "" || x1.gaveUp != "" {
			return false, x0.gaveUp + x1.gaveUp
		}
		for k := range diff {
			if maskOf(m0.end, k) != maskOf(m1.end, k) {
				split = append(split, i)
				break
			}
		}
	}
	if len(split) > 6 {
		split = split[:6]
	}
	shapes := func(l []sigmask) (out []*shape) {
		for _, s := range l {
			out = append(out, s.sh)
		}
		return
	}
	xs, un := c.sigs(n, path, shapes(as), mode, fa, split)
	if un != "" {
		return false, un
	}
	ys, un := c.sigs(n, path, shapes(bs), mode, fb, split)
	if un != "" {
		return false, un
	}
	ua, _ := clash(xs, ys)
	return len(ua) == 0, ""
}

// matters lists the fields of n that decide whether the part at path is told by the text.
func (c *cover) matters(n *types.Named, path string) []int {
	st := n.Underlying().(*types.Struct)
	top, _, _ := strings.Cut(path, ".")
	top, _, _ = strings.Cut(top, "[")
	out := []int{}
	if i := fieldIndex(n, top); i >= 0 {
		out = append(out, i)
	}
	mode := int64(0)
	for _, v := range c.modes {
		if v > mode {
			mode = v
		}
	}
	diff := map[string]bool{"p:" + norm(path): true}
	_, a := fmtRun(c.P, n, path, nil, mode, map[string]tfact{path: {z: 1}})
	_, b := fmtRun(c.P, n, path, nil, mode, map[string]tfact{path: {z: 2}})
	for _, m := range []map[string]uint8{a.end, b.end} {
		for k := range m {
			if maskOf(a.end, k) != maskOf(b.end, k) {
				diff[k] = true
			}
		}
	}
	for i := 0; i < st.NumFields() && len(out) < 6; i++ {
		nm := st.Field(i).Name()
		if nm == top {
			continue
		}
		_, a := fmtRun(c.P, n, path, nil, mode, map[string]tfact{nm: {z: 1}})
		_, b := fmtRun(c.P, n, path, nil, mode, map[string]tfact{nm: {z: 2}})
		for k := range diff {
			if maskOf(a.end, k) != maskOf(b.end, k) {
				out = append(out, i)
				break
			}
		}
	}
	return out
}

func maskOf(a map[string]uint8, k string) uint8 {
	if c, ok := a[k]; ok {
		return c
	}
	return 1
}

func shapeAllows(n *types.Named, sh *shape, path string, f tfact) bool {
	st := n.Underlying().(*types.Struct)
	top, _, _ := strings.Cut(path, ".")
	top, _, _ = strings.Cut(top, "[")
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() != top {
			continue
		}
		if top != path {
			return sh.f[i]&bV != 0
		}
		if f.z == 1 {
			return sh.f[i]&(bN|bT) != 0
		}
		return sh.f[i]&bV != 0
	}
	return true
}

// differ: some item is written a different number of times, whatever path is taken.
func differ(a, b map[string]uint8) bool {
	get := func(m map[string]uint8, k string) uint8 {
		if c, ok := m[k]; ok {
			return c
		}
		return 1
	}
	for k := range a {
		if get(a, k)&get(b, k) == 0 {
			return true
		}
	}
	for k := range b {
		if get(a, k)&get(b, k) == 0 {
			return true
		}
	}
	return false
}

// comparedConsts lists the constants the formatting method compares the value at path with.
func comparedConsts(P *Prog, n *types.Named, path string) []string {
	i := strings.LastIndex(path, ".")
	fieldName := strings.TrimSuffix(path[i+1:], "[]")
	out := map[string]bool{}
	for _, f := range P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				bo, ok := in.(*ssa.BinOp)
				if !ok || bo.Op != token.EQL && bo.Op != token.NEQ {
					continue
				}
				for _, p := range [][2]ssa.Value{{bo.X, bo.Y}, {bo.Y, bo.X}} {
					c, ok := p[1].(*ssa.Const)
					if !ok || c.Value == nil {
						continue
					}
					ld, ok := p[0].(*ssa.UnOp)
					if !ok {
						continue
					}
					fa, ok := ld.X.(*ssa.FieldAddr)
					if !ok {
						continue
					}
					sn, st := structOf(fa.X.Type())
					if sn == nil || st.Field(fa.Field).Name() != fieldName || (i < 0 && sn != n) {
						continue
					}
					switch c.Value.Kind() {
					case constant.String:
						if constant.StringVal(c.Value) != "" {
							out[c.Value.ExactString()] = true
						}
					case constant.Int:
						if constant.Sign(c.Value) != 0 {
							out[c.Value.ExactString()] = true
						}
					}
				}
			}
		}
	}
	var l []string
	for k := range out {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// exemptScalar names fields that repeat what another field already says.
func exemptScalar(n *types.Named, field string) string {
	if n.Obj().Name() == "NumberLiteral" && field == "Base" {
		return "derived from Literal"
	}
	return ""
}

func dbgTime(what string, t time.Time) {
	if os.Getenv("FMTDBG") != "" {
		fmt.Println(what, time.Since(t))
	}
}

func checkP11(P *Prog, r *Report) {
	r.rule("written", "each part a node can record is written on every path of its formatting method on which it can be present, or the words written tell its values apart; for every combination of parts the parser builds and in both output modes")
	e, err := runParse(P)
	if err != nil {
		r.bad("tool", "parse analysis", token.NoPos, "%v", err)
		return
	}
	c := &cover{P: P, e: e, modes: fmtModes(P)}
	recEngine = e
	if !r.need(len(c.modes) >= 2, "the output modes of the formatter") {
		return
	}
	type res struct {
		ls []lack
		un string
	}
	var jobs []*tjob
	at := map[*types.Named]*cover{}
	results := make(map[*tjob]*res)
	owner := map[*tjob]*types.Named{}
	var unset []string
	for _, n := range P.Nodes {
		n := n
		fn := P.Prog.LookupMethod(types.NewPointer(n), P.TPkg, "FormatSQL")
		if !r.need(fn != nil && fn.Blocks != nil, "(*"+n.Obj().Name()+").FormatSQL") {
			continue
		}
		if len(c.shapesOf(n)) == 0 {
			unset = append(unset, n.Obj().Name()+" (the parser builds none)")
			continue
		}
		nodes, scalars := P.places(n, "", map[*types.Named]bool{})
		for _, ch := range append(nodes, scalars...) {
			ch := ch
			if exemptScalar(n, ch.path) != "" {
				continue
			}
			if !c.mayBe(n, ch.path, false) {
				unset = append(unset, n.Obj().Name()+"."+ch.path+" (the parser never sets it)")
				continue
			}
			rs := &res{}
			j := &tjob{name: fnName(fn) + " " + ch.path, f: func() *tinterp {
				cn := at[n]
				if cn == nil {
					cn = c
				}
				t := time.Now()
				rs.ls, rs.un = cn.lacks(n, ch, 0)
				if time.Since(t) > 3*time.Second {
					dbgTime(n.Obj().Name()+" "+ch.path, t)
				}
				return nil
			}}
			results[j], owner[j] = rs, n
			jobs = append(jobs, j)
		}
	}
	t0 := time.Now()
	parallel(jobs)
	dbgTime("first pass", t0)
	// what is left is decided again with the fields that matter told apart
	f := focus{}
	var again []*tjob
	for _, j := range jobs {
		rs := results[j]
		if j.err != nil || rs.un != "" || len(rs.ls) == 0 {
			continue
		}
		for _, i := range c.matters(owner[j], rs.ls[0].path) {
			f.add(owner[j], i)
		}
		again = append(again, j)
	}
	if len(again) > 0 {
		var names []string
		for n, is := range f {
			for _, i := range is {
				names = append(names, n.Obj().Name()+"."+n.Underlying().(*types.Struct).Field(i).Name())
			}
		}
		sort.Strings(names)
		r.extra["told_apart_in_a_second_pass"] = names
		var pre []*tjob
		refined := map[*types.Named]*cover{}
		for n, is := range f {
			n, is := n, is
			cn := &cover{P: P, e: e, modes: c.modes}
			refined[n] = cn
			pre = append(pre, &tjob{name: "parse analysis for " + n.Obj().Name(), f: func() *tinterp {
				e2, err := runFocus(P, focus{n: is})
				if err != nil {
					panic(err)
				}
				cn.e = e2
				return nil
			}})
		}
		sort.Slice(pre, func(i, j int) bool { return pre[i].name < pre[j].name })
		parallel(pre)
		for _, j := range pre {
			if j.err != nil {
				r.bad("tool", j.name, token.NoPos, "analysis failed: %v", j.err)
			}
		}
		at = refined
		dbgTime("second parse", t0)
		parallel(again)
		dbgTime("second pass", t0)
	}
	und := []string{}
	for _, j := range jobs {
		r.ob("written", len(c.modes))
		if j.err != nil {
			r.bad("tool", j.name, token.NoPos, "analysis failed: %v", j.err)
			continue
		}
		rs := results[j]
		if rs.un != "" {
			und = append(und, j.name+": "+rs.un)
			continue
		}
		w := strings.Fields(j.name)
		seen := map[string]bool{}
		for _, l := range rs.ls {
			if !seen[l.why] {
				seen[l.why] = true
				r.bad("written", w[0], l.pos, "%s", l.why)
			}
		}
	}
	r.extra["undecided"] = und
	r.extra["not_set_by_the_parser"] = unset
}

func init() { checks["P11"] = checkP11 }
