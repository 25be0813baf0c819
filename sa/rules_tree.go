package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// tchild is a place of a node type that can hold something the tree records.
type tchild struct {
	path  string
	typ   types.Type
	node  bool // another node
	paths []string
}

func isPosType(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == "Pos"
}

// places lists the children (nodes) and the scalar contents of struct type n below prefix.
func (P *Prog) places(n *types.Named, prefix string, seen map[*types.Named]bool) (nodes, scalars []tchild) {
	if seen[n] {
		return
	}
	seen = cpm(seen)
	seen[n] = true
	st := n.Underlying().(*types.Struct)
	var at func(path string, t types.Type)
	at = func(path string, t types.Type) {
		if isPosType(t) {
			return
		}
		switch u := types.Unalias(t).Underlying().(type) {
		case *types.Interface:
			if types.Implements(t, P.ExprT) {
				nodes = append(nodes, tchild{path: path, typ: t, node: true})
			}
			return
		case *types.Slice:
			at(path+"[]", u.Elem())
			return
		case *types.Array:
			at(path+"[]", u.Elem())
			return
		case *types.Basic:
			scalars = append(scalars, tchild{path: path, typ: t})
			return
		}
		sn, _ := structOf(t)
		if sn == nil || sn.Obj().Pkg() != P.TPkg {
			return
		}
		if P.NodeSet[sn] {
			nodes = append(nodes, tchild{path: path, typ: t, node: true})
			return
		}
		a, b := P.places(sn, path, seen)
		nodes, scalars = append(nodes, a...), append(scalars, b...)
	}
	for i := 0; i < st.NumFields(); i++ {
		at(sub(prefix, st.Field(i).Name()), st.Field(i).Type())
	}
	return
}

// tvisit handles one value a visiting call is given.
func (x *tinterp) visit(s *tstate, v tv) (path string, ok bool) {
	if v.k == tkCell {
		v = x.load(s, v)
	}
	p, ok := v.pathOf()
	if !ok {
		if v.k == tkNil || v.k == tkCon {
			return "", true
		}
		for _, t := range x.taints(s, v) {
			if x.related(t) {
				x.give("the tracked part is passed on in a form that is not followed")
			}
		}
		return "", false
	}
	if foreign(p) {
		return p, true
	}
	if p != "" && x.related(p) {
		s.cnt++
		if s.cnt > 2 {
			s.cnt = 2
		}
	}
	return p, true
}

// ---- P09: walking

type walkMode struct {
	w    *ssa.Function
	self bool
}

func (m *walkMode) event(x *tinterp, s *tstate, at ssa.Instruction, what string) {
	if s.pend != "" {
		x.issue(at.Pos(), "%s although the walk was told to stop", what)
	}
	if len(s.unres) > 0 {
		x.issue(at.Pos(), "%s although it is not known whether the walk was told to stop", what)
		s.unres = map[string]bool{}
	}
}

func (m *walkMode) call(x *tinterp, s *tstate, c *ssa.CallCommon, at ssa.Instruction, fn *ssa.Function, args []tv) ([]tout, bool) {
	res := tv{k: tkRes, site: at}
	if fn == m.w {
		s = s.clone()
		m.event(x, s, at, "goes on to a child")
		p, _ := x.visit(s, args[0])
		if args[0].k == tkPath && p == "" {
			x.issue(at.Pos(), "walks the node itself again")
		}
		if s.self == 0 {
			x.issue(at.Pos(), "walks a child before the callback has seen the node")
		}
		if len(args) < 2 || args[1].k != tkSpec || args[1].p != "fn" {
			x.issue(at.Pos(), "walks a child with another callback")
		}
		s.unres[resKey(res)] = true
		return []tout{{[]tv{res}, s}}, true
	}
	if !c.IsInvoke() && fn == nil {
		v := x.val(s, c.Value)
		if v.k == tkSpec && v.p == "fn" {
			s = s.clone()
			m.event(x, s, at, "calls the callback again")
			p, ok := args[0].pathOf()
			if !ok || p != "" {
				x.issue(at.Pos(), "calls the callback with something other than the node")
			}
			s.self++
			s.unres[resKey(res)] = true
			return []tout{{[]tv{res}, s}}, true
		}
	}
	return nil, false
}

func (m *walkMode) leave(x *tinterp, s *tstate, vals []tv, at ssa.Instruction) {
	if len(vals) != 1 {
		return
	}
	v := vals[0]
	if s.pend != "" {
		if v.k == tkCon && !constant.BoolVal(v.c) || v.k == tkRes && !v.neg && resKey(v) == s.pend {
			return
		}
		x.issue(at.Pos(), "does not report that the walk was told to stop")
		return
	}
	if v.k == tkRes && !v.neg {
		delete(s.unres, resKey(v))
	} else if v.k == tkCon && !constant.BoolVal(v.c) {
		x.issue(at.Pos(), "reports that the walk was stopped although it was not")
	} else if v.k != tkCon {
		x.issue(at.Pos(), "reports something other than whether the walk was stopped")
	}
	if len(s.unres) > 0 {
		x.issue(at.Pos(), "ignores that a callback may have stopped the walk")
	}
	if s.self != 1 {
		x.issue(at.Pos(), "calls the callback %d times with the node", s.self)
	}
	if x.q != "-" && !x.gone(s) && s.cnt != 1 {
		if s.cnt == 0 {
			x.issue(at.Pos(), "can finish without walking %s", x.q)
		} else {
			x.issue(at.Pos(), "can walk %s more than once", x.q)
		}
	}
}

// tjob is one run of the interpreter; parallel runs all of them.
type tjob struct {
	name string
	f    func() *tinterp
	x    *tinterp
	err  any
}

func parallel(jobs []*tjob) {
	n := 8
	ch := make(chan *tjob)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range ch {
				func() {
					defer func() {
						if os.Getenv("SADEBUG") == "" {
							j.err = recover()
						}
					}()
					j.x = j.f()
				}()
			}
		}()
	}
	for _, j := range jobs {
		ch <- j
	}
	close(ch)
	wg.Wait()
}

func sortedIssues(x *tinterp) []tissue {
	var ks []string
	for k := range x.issues {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var out []tissue
	for _, k := range ks {
		out = append(out, x.issues[k])
	}
	return out
}

func checkP09(P *Prog, r *Report) {
	r.rule("case", "every node type has its children walked: for each place of a node type that can hold a node, every path of the walker that is not told to stop walks what is there exactly once, after the callback has seen the node")
	r.rule("stop", "when the callback or the walk of a child says stop, nothing more is called and stop is reported")
	ws := treeFuncs(P)
	if !r.need(len(ws) > 0, "a function that walks a tree by type") {
		return
	}
	checkSearch(P, r, ws)
	var jobs []*tjob
	und := []string{}
	for _, w := range ws {
		for _, n := range P.Nodes {
			nodes, _ := P.places(n, "", map[*types.Named]bool{})
			if len(nodes) == 0 {
				nodes = []tchild{{path: "-"}}
			}
			for _, c := range nodes {
				w, n, c := w, n, c
				jobs = append(jobs, &tjob{name: fnName(w) + " *" + n.Obj().Name() + " " + c.path, f: func() *tinterp {
					x := newTree(P, c.path, &walkMode{w: w})
					args := []tv{{k: tkPath, t: types.NewPointer(n)}}
					for range w.Params[1:] {
						args = append(args, tv{k: tkSpec, p: "fn"})
					}
					x.run(w, args, newTState())
					return x
				}})
			}
		}
	}
	parallel(jobs)
	for _, j := range jobs {
		r.ob("case", 1)
		r.ob("stop", 1)
		x := j.x
		if j.err != nil {
			r.bad("tool", j.name, token.NoPos, "analysis failed: %v", j.err)
			continue
		}
		if x.gaveUp != "" {
			und = append(und, j.name+": "+x.gaveUp)
			continue
		}
		w := strings.Fields(j.name)
		for _, is := range sortedIssues(x) {
			rule := "stop"
			if strings.Contains(is.what, "walk") && strings.Contains(is.what, "can ") || strings.Contains(is.what, "times") {
				rule = "case"
			}
			r.bad(rule, w[0]+" "+w[1], is.pos, "%s", is.what)
		}
		if x.rets == 0 {
			r.bad("case", w[0]+" "+w[1], token.NoPos, "never returns for this node type")
		}
	}
	r.extra["undecided"] = und
}

// searchMode decides the functions built on the walker. A tree is the root and its other nodes, one of
// which ("@") is tracked.
type searchMode struct {
	ws   map[*ssa.Function]bool
	kind string // "walk", "first", "all"
}

func (m *searchMode) call(x *tinterp, s *tstate, c *ssa.CallCommon, at ssa.Instruction, fn *ssa.Function, args []tv) ([]tout, bool) {
	con := func(b bool) tv { return tv{k: tkCon, c: constant.MakeBool(b)} }
	if fn != nil && m.ws[fn] {
		if p, ok := args[0].pathOf(); !ok || p != "" || len(args) < 2 || args[1].k != tkFunc {
			if len(args) >= 2 && args[1].k == tkSpec && ok && p == "" {
				// the callback itself is walked over the tree
			} else {
				x.give("walks something other than the root")
			}
		}
		type st struct {
			s    *tstate
			stop bool
		}
		states := []st{{s.clone(), false}}
		visit := func(node string) {
			var next []st
			for _, o := range states {
				if o.stop {
					next = append(next, o)
					continue
				}
				arg := tv{k: tkPath, p: node}
				var outs []tout
				if args[1].k == tkSpec {
					outs, _ = m.call(x, o.s, &ssa.CallCommon{Value: nil}, at, nil, []tv{arg})
				} else {
					outs = x.exec(args[1].fn, []tv{arg}, args[1].els, o.s, false)
				}
				for _, r := range outs {
					x.decide(r.s, r.vals[0], func(s *tstate, v bool) { next = append(next, st{s.clone(), !v}) })
				}
			}
			seen := map[string]bool{}
			states = nil
			for _, o := range next {
				k := x.sharedKey(o.s) + fmt.Sprint(o.stop)
				if !seen[k] {
					seen[k] = true
					states = append(states, o)
				}
			}
		}
		visit("")
		zero := states
		visit("@[?]")
		one := states
		states = append(append([]st(nil), zero...), one...)
		visit("@")
		zero = states
		visit("@[?]")
		states = append(append([]st(nil), zero...), states...)
		var outs []tout
		for _, o := range states {
			outs = append(outs, tout{[]tv{con(!o.stop)}, o.s})
		}
		return outs, true
	}
	isCB := c.Value == nil && fn == nil
	if !isCB && !c.IsInvoke() && fn == nil {
		v := x.val(s, c.Value)
		isCB = v.k == tkSpec && v.p == "fn"
	}
	if !isCB {
		return nil, false
	}
	if s.pend != "" {
		x.issue(at.Pos(), "calls the function again after it ended the search")
	}
	p, ok := args[0].pathOf()
	if !ok {
		x.issue(at.Pos(), "calls the function with something other than a node")
	}
	a, b := s.clone(), s.clone()
	for _, n := range []*tstate{a, b} {
		switch p {
		case "":
			n.self++
		case "@":
			n.cnt++
		}
		if n.cnt > 2 {
			n.cnt = 2
		}
		if n.self > 2 {
			n.self = 2
		}
	}
	switch m.kind {
	case "walk":
		b.pend = "stop"
	case "first":
		a.pend = "hit:" + p
	case "all":
		if p == "@" {
			a.in = 1
		}
		if p == "" {
			a.out = 1
		}
	}
	return []tout{{[]tv{con(true)}, a}, {[]tv{con(false)}, b}}, true
}

func (m *searchMode) leave(x *tinterp, s *tstate, vals []tv, at ssa.Instruction) {
	end := s.pend != ""
	if s.self > 1 || s.cnt > 1 {
		x.issue(at.Pos(), "calls the function more than once for one node")
	}
	if !end && (s.self == 0 || s.cnt == 0) {
		x.issue(at.Pos(), "can finish without calling the function for every node")
	}
	isB := func(v tv, want bool) bool {
		if v.k == tkCond {
			if b, ok := x.known(s, v); ok {
				return b == want
			}
		}
		return v.k == tkCon && v.c.Kind() == constant.Bool && constant.BoolVal(v.c) == want
	}
	switch m.kind {
	case "walk":
		if !isB(vals[0], !end) {
			x.issue(at.Pos(), "does not report whether the walk was stopped")
		}
	case "first":
		p, ok := vals[0].pathOf()
		if end && (!ok || "hit:"+p != s.pend || !isB(vals[1], true)) {
			x.issue(at.Pos(), "does not return the node that matched")
		}
		if !end && (vals[0].k != tkNil || !isB(vals[1], false)) {
			x.issue(at.Pos(), "returns a node although none matched")
		}
	case "all":
		v := vals[0]
		has := 0
		if v.k == tkList {
			has = v.n
		} else if v.k != tkNil && v.k != tkLocal {
			x.give("the result list is not followed")
		}
		want := s.in
		if x.q == "" {
			want = s.out
		}
		if has != want {
			x.issue(at.Pos(), "the result does not hold exactly the nodes that matched")
		}
	}
}

// searches lists the exported functions that hand a callback to the walker.
func searches(P *Prog, ws []*ssa.Function) map[*ssa.Function]string {
	isW := map[*ssa.Function]bool{}
	for _, w := range ws {
		isW[w] = true
	}
	out := map[*ssa.Function]string{}
	for _, f := range P.Funcs {
		if isW[f] || f.Parent() != nil || f.Signature.Recv() != nil || len(f.Params) != 2 || f.Object() == nil || !f.Object().Exported() {
			continue
		}
		if !types.Identical(f.Params[0].Type().Underlying(), P.ExprT) {
			continue
		}
		sg, ok := f.Params[1].Type().Underlying().(*types.Signature)
		if !ok || sg.Params().Len() != 1 || sg.Results().Len() != 1 || !types.Identical(sg.Results().At(0).Type(), types.Typ[types.Bool]) {
			continue
		}
		rs := f.Signature.Results()
		switch {
		case rs.Len() == 1 && types.Identical(rs.At(0).Type(), types.Typ[types.Bool]):
			out[f] = "walk"
		case rs.Len() == 2:
			out[f] = "first"
		case rs.Len() == 1:
			if _, ok := rs.At(0).Type().Underlying().(*types.Slice); ok {
				out[f] = "all"
			}
		}
	}
	return out
}

func checkSearch(P *Prog, r *Report, ws []*ssa.Function) {
	r.rule("search", "the searching functions call their function once for every node of the tree until it ends the search, never after, and return what it decided")
	isW := map[*ssa.Function]bool{}
	for _, w := range ws {
		isW[w] = true
	}
	fs := searches(P, ws)
	for _, n := range []string{"WalkWithBreak", "Find", "FindAll"} {
		r.need(fs[P.fn(n)] != "", n)
	}
	var und []string
	for _, f := range P.Funcs {
		kind := fs[f]
		if kind == "" {
			continue
		}
		for _, q := range []string{"@", ""} {
			r.ob("search", 1)
			x := newTree(P, q, &searchMode{ws: isW, kind: kind})
			s := newTState()
			s.facts["@"], s.facts["@[?]"] = tfact{z: 2}, tfact{z: 2}
			x.run(f, []tv{{k: tkPath}, {k: tkSpec, p: "fn"}}, s)
			if x.gaveUp != "" {
				und = append(und, fnName(f)+": "+x.gaveUp)
				continue
			}
			for _, is := range sortedIssues(x) {
				r.fnBad("search", f, is.pos, "%s", is.what)
			}
			if x.rets == 0 {
				r.fnBad("search", f, f.Pos(), "never returns")
			}
		}
	}
	r.extra["search_undecided"] = und
}

// ---- P10: visiting

type acceptMode struct {
	mu      sync.Mutex
	methods map[string]bool
}

func isExprMethod(P *Prog, fn *ssa.Function, c *ssa.CallCommon, name string) bool {
	if c.IsInvoke() {
		return c.Method.Name() == name
	}
	if fn == nil || fn.Name() != name || fn.Signature.Recv() == nil {
		return false
	}
	n, _ := structOf(fn.Signature.Recv().Type())
	return n != nil && P.NodeSet[n]
}

func (m *acceptMode) event(x *tinterp, s *tstate, at ssa.Instruction, what string) {
	if s.pend != "" {
		x.issue(at.Pos(), "%s although the visit has failed", what)
	}
	if len(s.unres) > 0 {
		x.issue(at.Pos(), "%s although it is not known whether the visit has failed", what)
		s.unres = map[string]bool{}
	}
	if s.in != 1 {
		x.issue(at.Pos(), "%s with Enter called %d times", what, s.in)
	}
	if s.out != 0 {
		x.issue(at.Pos(), "%s after Leave", what)
	}
}

func (m *acceptMode) call(x *tinterp, s *tstate, c *ssa.CallCommon, at ssa.Instruction, fn *ssa.Function, args []tv) ([]tout, bool) {
	if len(args) == 0 {
		return nil, false
	}
	res := tv{k: tkRes, site: at}
	if c.IsInvoke() && args[0].k == tkSpec && args[0].p == "V" {
		s = s.clone()
		name := c.Method.Name()
		if len(args) != 2 || !func() bool { p, ok := args[1].pathOf(); return ok && p == "" }() {
			x.issue(at.Pos(), "calls the visitor's %s with something other than the node", name)
		}
		if c.Signature().Results().Len() == 0 {
			switch name {
			case "Enter":
				if s.in > 0 || s.self > 0 || s.cnt > 0 {
					x.issue(at.Pos(), "enters the node late or twice")
				}
				s.in++
			case "Leave":
				s.out++
			}
			return []tout{{nil, s}}, true
		}
		m.event(x, s, at, "calls "+name)
		m.mu.Lock()
		m.methods[name] = true
		m.mu.Unlock()
		s.self++
		s.unres[resKey(res)] = true
		return []tout{{[]tv{res}, s}}, true
	}
	if isExprMethod(x.P, fn, c, "Accept") && !(fn == x.top) || fn == x.top && fn.Name() == "Accept" {
		p, isPath := args[0].pathOf()
		if args[0].k == tkCell {
			p, isPath = x.load(s, args[0]).pathOf()
		}
		if isPath && p == "" {
			x.issue(at.Pos(), "visits the node itself again")
		}
		if len(args) != 2 || args[1].k != tkSpec || args[1].p != "V" {
			x.issue(at.Pos(), "visits a child with another visitor")
		}
		s = s.clone()
		m.event(x, s, at, "visits a child")
		if s.self > 0 {
			x.issue(at.Pos(), "visits a child after the visitor's method for the node")
		}
		x.visit(s, args[0])
		s.unres[resKey(res)] = true
		return []tout{{[]tv{res}, s}}, true
	}
	return nil, false
}

func (m *acceptMode) leave(x *tinterp, s *tstate, vals []tv, at ssa.Instruction) {
	if s.in != 1 || s.out != 1 {
		x.issue(at.Pos(), "returns with Enter called %d times and Leave %d times", s.in, s.out)
	}
	v := vals[0]
	if s.pend != "" {
		if v.k == tkNil || v.k == tkRes && resKey(v) != s.pend {
			x.issue(at.Pos(), "does not return the error of a failed visit")
		}
		return
	}
	if v.k == tkRes {
		delete(s.unres, resKey(v))
	}
	if len(s.unres) > 0 {
		x.issue(at.Pos(), "ignores the error of a visit")
	}
	if s.self != 1 {
		x.issue(at.Pos(), "calls the visitor's method %d times", s.self)
	}
	if x.q != "-" && !x.gone(s) && s.cnt != 1 {
		if s.cnt == 0 {
			x.issue(at.Pos(), "can finish without visiting %s", x.q)
		} else {
			x.issue(at.Pos(), "can visit %s more than once", x.q)
		}
	}
}

// forwardMode decides the methods of the visitor that forwards to a function held in a field.
type forwardMode struct{}

func (m *forwardMode) call(x *tinterp, s *tstate, c *ssa.CallCommon, at ssa.Instruction, fn *ssa.Function, args []tv) ([]tout, bool) {
	if c.IsInvoke() || fn != nil {
		return nil, false
	}
	if v := x.val(s, c.Value); v.k != tkPath || v.p != x.q {
		return nil, false
	}
	s = s.clone()
	if p, ok := args[0].pathOf(); !ok || p != "@" {
		x.issue(at.Pos(), "passes on something other than the node")
	}
	s.self++
	res := tv{k: tkRes, site: at}
	s.unres[resKey(res)] = true
	return []tout{{[]tv{res}, s}}, true
}

func (m *forwardMode) leave(x *tinterp, s *tstate, vals []tv, at ssa.Instruction) {
	v := vals[0]
	set := !x.gone(s)
	switch {
	case set && s.self != 1:
		x.issue(at.Pos(), "can finish without passing the node on")
	case s.pend != "" && v.k == tkNil, s.pend == "" && v.k != tkRes && len(s.unres) > 0:
		x.issue(at.Pos(), "does not return the error")
	case s.pend == "" && v.k != tkNil && v.k != tkRes:
		x.issue(at.Pos(), "returns an error of its own")
	}
}

func checkForward(P *Prog, r *Report) {
	r.rule("forward", "the visitor methods the package supplies hand the node to the supplied function, when there is one, and return its error")
	o := P.TPkg.Scope().Lookup("ASTVisitor")
	if !r.need(o != nil, "ASTVisitor") {
		return
	}
	it := o.Type().Underlying().(*types.Interface)
	for _, nm := range P.TPkg.Scope().Names() {
		tn, ok := P.TPkg.Scope().Lookup(nm).(*types.TypeName)
		if !ok {
			continue
		}
		n, st := structOf(tn.Type())
		if n == nil || !types.Implements(types.NewPointer(n), it) {
			continue
		}
		field := ""
		for i := 0; i < st.NumFields(); i++ {
			if sg, ok := st.Field(i).Type().Underlying().(*types.Signature); ok && sg.Results().Len() == 1 && sg.Params().Len() == 1 {
				field = st.Field(i).Name()
			}
		}
		if field == "" {
			continue
		}
		for i := 0; i < it.NumMethods(); i++ {
			if it.Method(i).Type().(*types.Signature).Results().Len() == 0 {
				continue
			}
			f := P.Prog.LookupMethod(types.NewPointer(n), P.TPkg, it.Method(i).Name())
			if f == nil || f.Blocks == nil {
				continue
			}
			r.ob("forward", 1)
			x := newTree(P, field, &forwardMode{})
			s := newTState()
			s.facts["@"] = tfact{z: 2}
			x.run(f, []tv{{k: tkPath}, {k: tkPath, p: "@"}}, s)
			if x.gaveUp != "" {
				continue
			}
			for _, is := range sortedIssues(x) {
				r.fnBad("forward", f, is.pos, "%s", is.what)
			}
		}
	}
}

func checkP10(P *Prog, r *Report) {
	checkForward(P, r)
	r.rule("children", "each place of a node type that can hold a node is visited exactly once, between Enter and the visitor's own method, on every path of Accept that reports success")
	r.rule("protocol", "Enter first and once, the visitor's method once and last, Leave once on every exit, errors returned at once")
	r.rule("method", "each node type calls a visitor method of its own")
	var jobs []*tjob
	modes := map[*types.Named]*acceptMode{}
	owner := map[*tjob]*types.Named{}
	for _, n := range P.Nodes {
		n := n
		fn := P.Prog.LookupMethod(types.NewPointer(n), P.TPkg, "Accept")
		if !r.need(fn != nil && fn.Blocks != nil, "(*"+n.Obj().Name()+").Accept") {
			continue
		}
		m := &acceptMode{methods: map[string]bool{}}
		modes[n] = m
		nodes, _ := P.places(n, "", map[*types.Named]bool{})
		if len(nodes) == 0 {
			nodes = []tchild{{path: "-"}}
		}
		for _, c := range nodes {
			c := c
			j := &tjob{name: fnName(fn) + " " + c.path, f: func() *tinterp {
				x := newTree(P, c.path, m)
				x.run(fn, []tv{{k: tkPath, t: types.NewPointer(n)}, {k: tkSpec, p: "V"}}, newTState())
				return x
			}}
			owner[j] = n
			jobs = append(jobs, j)
		}
	}
	parallel(jobs)
	und := []string{}
	for _, j := range jobs {
		r.ob("children", 1)
		r.ob("protocol", 1)
		x := j.x
		if j.err != nil {
			r.bad("tool", j.name, token.NoPos, "analysis failed: %v", j.err)
			continue
		}
		if x.gaveUp != "" {
			und = append(und, j.name+": "+x.gaveUp)
			continue
		}
		for _, is := range sortedIssues(x) {
			rule := "protocol"
			if strings.HasPrefix(is.what, "can ") {
				rule = "children"
			}
			r.bad(rule, strings.Fields(j.name)[0], is.pos, "%s", is.what)
		}
		if x.rets == 0 {
			r.bad("protocol", strings.Fields(j.name)[0], token.NoPos, "never returns")
		}
	}
	used := map[string]string{}
	for _, n := range P.Nodes {
		m := modes[n]
		if m == nil {
			continue
		}
		var names []string
		for k := range m.methods {
			names = append(names, k)
		}
		sort.Strings(names)
		r.ob("method", 1)
		if len(names) > 1 {
			r.bad("method", n.Obj().Name(), n.Obj().Pos(), "calls several visitor methods: %s", strings.Join(names, ", "))
		}
		for _, k := range names {
			if o := used[k]; o != "" {
				r.bad("method", n.Obj().Name(), n.Obj().Pos(), "calls %s, which is the visitor method of %s", k, o)
			}
			used[k] = n.Obj().Name()
		}
	}
	r.extra["undecided"] = und
}

func init() {
	checks["P09"] = checkP09
	checks["P10"] = checkP10
	_ = fmt.Sprint
}
