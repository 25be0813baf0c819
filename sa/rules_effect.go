package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P15 and P16: effects. Every instruction of every function that parsing, formatting,
// walking, visiting and position queries can reach is classified by what it changes.

// origin says what a pointer-like value may lead to.
type origin uint8

const (
	oTree   origin = 1 << iota // memory of a tree that was handed in
	oGlobal                    // memory every caller in the process shares
)

// callGraph resolves calls within the package.
type callGraph struct {
	P       *Prog
	methods map[string][]*ssa.Function
	taken   map[string][]*ssa.Function
}

func newCallGraph(P *Prog) *callGraph {
	g := &callGraph{P: P, methods: map[string][]*ssa.Function{}, taken: map[string][]*ssa.Function{}}
	seen := map[*ssa.Function]bool{}
	for _, f := range P.Funcs {
		if f.Signature.Recv() != nil {
			g.methods[f.Name()] = append(g.methods[f.Name()], f)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var callee *ssa.Value
				if c, ok := in.(ssa.CallInstruction); ok && !c.Common().IsInvoke() {
					callee = &c.Common().Value
				}
				for _, op := range in.Operands(nil) {
					h, ok := (*op).(*ssa.Function)
					if !ok || op == callee {
						continue
					}
					if mc, ok := in.(*ssa.MakeClosure); ok && onlyCalled(mc) {
						continue
					}
					if !seen[h] {
						seen[h] = true
						k := sigKey(h.Signature)
						g.taken[k] = append(g.taken[k], h)
					}
				}
			}
		}
	}
	return g
}

// onlyCalled: the closure value is used as the callee of calls only.
func onlyCalled(mc *ssa.MakeClosure) bool {
	for _, r := range *mc.Referrers() {
		c, ok := r.(ssa.CallInstruction)
		if !ok || c.Common().IsInvoke() || c.Common().Value != ssa.Value(mc) {
			return false
		}
		for _, a := range c.Common().Args {
			if a == ssa.Value(mc) {
				return false
			}
		}
	}
	return true
}

func sigKey(s *types.Signature) string {
	return types.TypeString(types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic()), nil)
}

// callees lists the package functions a call can enter; ext is the function outside the package it calls.
func (g *callGraph) callees(c *ssa.CallCommon) (in []*ssa.Function, ext *ssa.Function) {
	if c.IsInvoke() {
		it, _ := c.Value.Type().Underlying().(*types.Interface)
		for _, m := range g.methods[c.Method.Name()] {
			if it == nil || types.Implements(m.Signature.Recv().Type(), it) {
				in = append(in, m)
			}
		}
		return in, nil
	}
	switch v := c.Value.(type) {
	case *ssa.Builtin:
		return nil, nil
	case *ssa.MakeClosure:
		return []*ssa.Function{v.Fn.(*ssa.Function)}, nil
	case *ssa.Function:
		if g.P.inPkg(v) && v.Blocks != nil {
			return []*ssa.Function{v}, nil
		}
		return nil, v
	}
	return g.taken[sigKey(c.Signature())], nil
}

// reach is the set of package functions the roots can enter.
func (g *callGraph) reach(roots []*ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Blocks == nil || !g.P.inPkg(f) {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					fs, _ := g.callees(c.Common())
					for _, h := range fs {
						visit(h)
					}
				}
				for _, op := range in.Operands(nil) {
					if h, ok := (*op).(*ssa.Function); ok {
						visit(h)
					}
				}
			}
		}
	}
	for _, f := range roots {
		visit(f)
	}
	return seen
}

// entry points ---------------------------------------------------------------

// treeRoots are the functions that answer questions about a tree: the methods of the
// node interface, functions that take a node first, the formatter's and visitors' methods.
func treeRoots(P *Prog) (roots []*ssa.Function) {
	var vis []*types.Interface
	for i := 0; i < P.ExprT.NumMethods(); i++ {
		sg := P.ExprT.Method(i).Type().(*types.Signature)
		for j := 0; j < sg.Params().Len(); j++ {
			if it, ok := sg.Params().At(j).Type().Underlying().(*types.Interface); ok {
				vis = append(vis, it)
			}
		}
	}
	names := map[string]bool{}
	for i := 0; i < P.ExprT.NumMethods(); i++ {
		names[P.ExprT.Method(i).Name()] = true
	}
	for _, f := range P.Funcs {
		if f.Parent() != nil {
			continue
		}
		rc := f.Signature.Recv()
		if rc == nil {
			o := f.Object()
			if o != nil && o.Exported() && f.Signature.Params().Len() > 0 && types.Identical(f.Signature.Params().At(0).Type().Underlying(), P.ExprT) {
				roots = append(roots, f)
			}
			continue
		}
		n, _ := structOf(rc.Type())
		if n != nil && (P.NodeSet[n] && names[f.Name()] || P.isMode(rc.Type()) && token.IsExported(f.Name())) {
			roots = append(roots, f)
			continue
		}
		for _, it := range vis {
			if types.Implements(rc.Type(), it) {
				roots = append(roots, f)
				break
			}
		}
	}
	return roots
}

// apiRoots are all exported entry points: exported functions and the exported methods of exported types.
func apiRoots(P *Prog) (roots []*ssa.Function) {
	for _, f := range P.Funcs {
		if f.Parent() != nil || f.Object() == nil || !f.Object().Exported() || f.TypeParams().Len() > 0 || len(f.TypeArgs()) > 0 {
			continue
		}
		if rc := f.Signature.Recv(); rc != nil {
			n, ok := types.Unalias(deref(rc.Type())).(*types.Named)
			if !ok || !n.Obj().Exported() || n.TypeParams().Len() > 0 || n.TypeArgs().Len() > 0 {
				continue
			}
		}
		roots = append(roots, f)
	}
	return roots
}

// origins ----------------------------------------------------------------------

type effects struct {
	P      *Prog
	g      *callGraph
	set    map[*ssa.Function]bool
	tree   map[*types.Named]bool // struct types trees are made of
	val    map[ssa.Value]origin
	ret    map[*ssa.Function][]origin
	field  map[fieldID]origin
	cells  map[ssa.Value][]ssa.Value // free variable -> what it is bound to
	held   map[ssa.Value]origin      // what a variable in memory holds
	change bool
	once   map[*ssa.Function]bool // run under sync.Once
	sorted []*ssa.Function
}

func treeTypes(P *Prog) map[*types.Named]bool {
	out := map[*types.Named]bool{}
	var ty func(t types.Type)
	ty = func(t types.Type) {
		t = types.Unalias(t)
		if n, ok := t.(*types.Named); ok {
			s, ok := n.Underlying().(*types.Struct)
			if !ok {
				if n.Obj().Pkg() == P.TPkg {
					ty(n.Underlying())
				}
				return
			}
			if n.Obj().Pkg() != P.TPkg || out[n] {
				return
			}
			out[n] = true
			for i := 0; i < s.NumFields(); i++ {
				ty(s.Field(i).Type())
			}
			return
		}
		switch u := t.(type) {
		case *types.Pointer:
			ty(u.Elem())
		case *types.Slice:
			ty(u.Elem())
		case *types.Array:
			ty(u.Elem())
		case *types.Map:
			ty(u.Key())
			ty(u.Elem())
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				ty(u.Field(i).Type())
			}
		}
	}
	for _, n := range P.Nodes {
		ty(n)
	}
	return out
}

// leads: a value of this type leads to memory trees are made of.
func (x *effects) leads(t types.Type) bool {
	t = types.Unalias(t)
	if types.Identical(t.Underlying(), x.P.ExprT) {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		n, _ := structOf(t)
		return n != nil && x.tree[n]
	case *types.Slice:
		return x.elemTree(u.Elem())
	case *types.Map:
		return x.elemTree(u.Elem())
	case *types.Interface:
		for _, n := range x.P.Nodes {
			if types.Implements(types.NewPointer(n), u) {
				return u.NumMethods() > 0
			}
		}
	}
	return false
}

func (x *effects) elemTree(t types.Type) bool {
	if n, _ := structOf(t); n != nil && x.tree[n] {
		return true
	}
	return x.leads(t)
}

func (x *effects) set1(v ssa.Value, o origin) {
	if o&^x.val[v] != 0 {
		x.val[v] |= o
		x.change = true
	}
}

func pointerLike(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Interface, *types.Chan, *types.Signature:
		return true
	}
	return false
}

// get is the origin of a value used inside f.
func (x *effects) get(v ssa.Value) origin {
	switch g := v.(type) {
	case *ssa.Global:
		if g.Pkg == x.P.Pkg || g.Pkg != nil {
			return oGlobal
		}
	case *ssa.Const, *ssa.Function, *ssa.Builtin:
		return 0
	}
	return x.val[v]
}

func runEffects(P *Prog, g *callGraph, roots []*ssa.Function) *effects {
	x := &effects{P: P, g: g, set: g.reach(roots), tree: treeTypes(P), val: map[ssa.Value]origin{}, ret: map[*ssa.Function][]origin{},
		field: map[fieldID]origin{}, once: map[*ssa.Function]bool{},
		cells: map[ssa.Value][]ssa.Value{}, held: map[ssa.Value]origin{}}
	for f := range x.set {
		x.sorted = append(x.sorted, f)
	}
	sort.Slice(x.sorted, func(i, j int) bool { return x.sorted[i].String() < x.sorted[j].String() })
	for _, f := range roots {
		for _, p := range f.Params {
			if x.leads(p.Type()) {
				x.set1(p, oTree)
			}
		}
	}
	for x.change = true; x.change; {
		x.change = false
		for _, f := range x.sorted {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					x.flow(f, in)
				}
			}
		}
	}
	return x
}

func (x *effects) flow(f *ssa.Function, in ssa.Instruction) {
	switch i := in.(type) {
	case *ssa.Phi:
		for _, e := range i.Edges {
			x.set1(i, x.get(e))
		}
	case *ssa.FieldAddr:
		x.set1(i, x.get(i.X))
	case *ssa.IndexAddr:
		x.set1(i, x.get(i.X))
	case *ssa.Field:
		x.set1(i, x.load(i.Type(), x.get(i.X), nil))
	case *ssa.Index:
		x.set1(i, x.load(i.Type(), x.get(i.X), nil))
	case *ssa.Lookup:
		x.set1(i, x.get(i.X)|x.byType(i.Type()))
	case *ssa.Next:
		x.set1(i, x.get(i.Iter)|oTree)
	case *ssa.Range:
		x.set1(i, x.get(i.X))
	case *ssa.Extract:
		if c, ok := i.Tuple.(*ssa.Call); ok {
			if o, ok := x.results(c, i.Index); ok {
				x.set1(i, o)
				return
			}
		}
		if pointerLike(i.Type()) {
			o := x.get(i.Tuple)
			if !x.leads(i.Type()) {
				o &^= oTree
			}
			x.set1(i, o)
		}
	case *ssa.UnOp:
		if i.Op == token.MUL {
			x.set1(i, x.load(i.Type(), x.get(i.X), i.X))
		}
	case *ssa.ChangeType:
		x.set1(i, x.get(i.X))
	case *ssa.ChangeInterface:
		x.set1(i, x.get(i.X))
	case *ssa.MakeInterface:
		x.set1(i, x.get(i.X))
	case *ssa.TypeAssert:
		x.set1(i, x.get(i.X))
	case *ssa.Convert:
		if pointerLike(i.Type()) && pointerLike(i.X.Type()) {
			x.set1(i, x.get(i.X))
		}
	case *ssa.Slice:
		x.set1(i, x.get(i.X))
	case *ssa.Store:
		if fa, ok := i.Addr.(*ssa.FieldAddr); ok {
			if n, _ := structOf(fa.X.Type()); n != nil {
				x.setField(fieldID{n, fa.Field}, x.get(i.Val))
			}
			return
		}
		// a variable: what it holds
		x.setCell(i.Addr, x.get(i.Val))
	case *ssa.MakeClosure:
		fn := i.Fn.(*ssa.Function)
		for k, b := range i.Bindings {
			x.set1(fn.FreeVars[k], x.get(b))
			x.bind(fn.FreeVars[k], b)
		}
	case *ssa.Return:
		r := x.ret[f]
		if r == nil {
			r = make([]origin, len(i.Results))
			x.ret[f] = r
		}
		for k, v := range i.Results {
			if o := x.get(v); o&^r[k] != 0 {
				r[k] |= o
				x.change = true
			}
		}
	case ssa.CallInstruction:
		c := i.Common()
		fs, ext := x.g.callees(c)
		args := c.Args
		for _, h := range fs {
			as := args
			if c.IsInvoke() {
				as = append([]ssa.Value{c.Value}, args...)
			}
			if len(h.Params) != len(as) {
				continue
			}
			for k, a := range as {
				x.set1(h.Params[k], x.get(a))
			}
		}
		if ext != nil {
			for _, a := range args {
				if h := funcArg(a); h != nil && x.set[h] {
					if strings.HasPrefix(ext.String(), "(*sync.Once)") || strings.HasPrefix(ext.String(), "sync.Once") {
						x.once[h] = true
					}
					for _, p := range h.Params { // elements of a list handed to slices.*Func and the like
						if x.leads(p.Type()) {
							x.set1(p, oTree)
						}
					}
				}
			}
		}
		if v, ok := in.(*ssa.Call); ok && v.Common().Signature().Results().Len() == 1 {
			if o, ok := x.results(v, 0); ok {
				x.set1(v, o)
			}
		} else if ok {
			if _, isB := c.Value.(*ssa.Builtin); isB {
				o, _ := x.results(v, 0)
				x.set1(v, o)
			}
		}
	}
}

func funcArg(v ssa.Value) *ssa.Function {
	switch g := v.(type) {
	case *ssa.Function:
		return g
	case *ssa.MakeClosure:
		return g.Fn.(*ssa.Function)
	case *ssa.ChangeType:
		return funcArg(g.X)
	case *ssa.MakeInterface:
		return funcArg(g.X)
	}
	return nil
}

func (x *effects) setField(id fieldID, o origin) {
	if o&^x.field[id] != 0 {
		x.field[id] |= o
		x.change = true
	}
}

func (x *effects) bind(fv *ssa.FreeVar, b ssa.Value) {
	for _, o := range x.cells[fv] {
		if o == b {
			return
		}
	}
	x.cells[fv] = append(x.cells[fv], b)
	x.change = true
}

func (x *effects) rootsOf(v ssa.Value, d int) []ssa.Value {
	if d > 4 {
		return nil
	}
	switch a := v.(type) {
	case *ssa.Alloc:
		return []ssa.Value{a}
	case *ssa.FreeVar:
		var out []ssa.Value
		for _, b := range x.cells[a] {
			out = append(out, x.rootsOf(b, d+1)...)
		}
		return out
	}
	return nil
}

func (x *effects) setCell(addr ssa.Value, o origin) {
	for _, r := range x.rootsOf(addr, 0) {
		if o&^x.held[r] != 0 {
			x.held[r] |= o
			x.change = true
		}
	}
}

func (x *effects) cell(addr ssa.Value) (o origin) {
	for _, r := range x.rootsOf(addr, 0) {
		o |= x.held[r]
	}
	return o
}

func (x *effects) byType(t types.Type) origin {
	if x.leads(t) {
		return oTree
	}
	return 0
}

// load is the origin of what is read at addr, a place of origin base.
func (x *effects) load(t types.Type, base origin, addr ssa.Value) origin {
	if !pointerLike(t) {
		if _, ok := t.Underlying().(*types.Struct); !ok {
			return 0
		}
	}
	o := base & oGlobal
	if base&oTree != 0 {
		if _, isF := t.Underlying().(*types.Signature); !isF {
			o |= oTree
		}
	}
	_, slice := t.Underlying().(*types.Slice)
	_, mp := t.Underlying().(*types.Map)
	if !slice && !mp {
		o |= x.byType(t)
	}
	if fa, ok := addr.(*ssa.FieldAddr); ok {
		if n, _ := structOf(fa.X.Type()); n != nil {
			o |= x.field[fieldID{n, fa.Field}]
			if (slice || mp) && x.tree[n] {
				// a list held by a node that was copied is still the tree's
				o |= oTree
			}
		}
		return o
	}
	if addr != nil {
		if ro := x.rootsOf(addr, 0); len(ro) > 0 {
			return o | x.cell(addr)
		}
	}
	if slice || mp {
		o |= x.byType(t)
	}
	return o
}

// outside functions whose result does not share memory with their arguments
func copies(name string) bool {
	for _, s := range []string{"Clone", "Concat", "Collect", "Sorted", "Repeat"} {
		if strings.Contains(name, s) {
			return true
		}
	}
	return false
}

// results is the origin of result k of a call.
func (x *effects) results(c *ssa.Call, k int) (origin, bool) {
	cc := c.Common()
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		if b.Name() == "append" {
			o := x.get(cc.Args[0])
			if capped(cc.Args[0]) {
				return 0, true
			}
			return o, true // the list's own array or a new one
		}
		return 0, true
	}
	t := cc.Signature().Results().At(k).Type()
	if !pointerLike(t) {
		if _, ok := t.Underlying().(*types.Struct); !ok {
			return 0, true
		}
	}
	fs, ext := x.g.callees(cc)
	var o origin
	for _, h := range fs {
		if r := x.ret[h]; k < len(r) {
			o |= r[k]
		}
	}
	if ext != nil && !copies(ext.Name()) {
		for _, a := range cc.Args {
			if pointerLike(a.Type()) && (types.Identical(a.Type(), t) || types.IsInterface(t) && x.leads(t)) {
				o |= x.get(a)
			}
		}
	}
	if ext == nil && len(fs) == 0 {
		o |= x.byType(t)
	}
	return o, true
}

// checks -----------------------------------------------------------------------

// writes lists what an instruction may change: the place, and what kind of change.
func writes(in ssa.Instruction) (targets []ssa.Value, how string) {
	switch i := in.(type) {
	case *ssa.Store:
		return []ssa.Value{i.Addr}, "assigns to"
	case *ssa.MapUpdate:
		return []ssa.Value{i.Map}, "puts an entry into"
	case *ssa.Send:
		return []ssa.Value{i.Chan}, "sends on"
	case ssa.CallInstruction:
		c := i.Common()
		if b, ok := c.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "append":
				return c.Args[:1], "appends in place to"
			case "copy":
				return c.Args[:1], "copies over"
			case "delete":
				return c.Args[:1], "deletes from"
			case "clear":
				return c.Args[:1], "clears"
			}
			return nil, ""
		}
	}
	return nil, ""
}

// pure lists packages of the standard library whose functions change nothing but what
// they return or are explicitly given to change.
var purePkgs = map[string]bool{"strings": true, "strconv": true, "unicode": true, "unicode/utf8": true, "unicode/utf16": true, "errors": true,
	"bytes": true, "sort": true, "slices": true, "maps": true, "math": true, "math/bits": true, "cmp": true, "reflect": true, "regexp": true,
	"iter": true, "container/list": true, "container/heap": true, "io": true, "sync": true, "sync/atomic": true, "fmt": true, "encoding/json": true,
	"encoding": true, "encoding/binary": true, "hash/fnv": true, "text/tabwriter": true, "bufio": true, "math/big": true, "unique": true, "hash": true, "encoding/hex": true, "context": true}

// mutators change the list they are given.
func mutates(f *ssa.Function) bool {
	n := f.Name()
	if i := strings.IndexByte(n, '['); i >= 0 {
		n = n[:i]
	}
	switch extPkg(f) {
	case "sort":
		return !strings.HasPrefix(n, "Search") && !strings.Contains(n, "IsSorted") && n != "Find" && n != "Len" && n != "Less"
	case "slices":
		switch n {
		case "Sort", "SortFunc", "SortStableFunc", "Reverse", "Delete", "DeleteFunc", "Insert", "Replace", "Compact", "CompactFunc", "AppendSeq", "Grow":
			return true
		}
	case "maps":
		return n == "Copy" || n == "DeleteFunc" || n == "Insert"
	case "container/heap":
		return true
	}
	return false
}

func extPkg(f *ssa.Function) string {
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	if f.Origin() != nil {
		return extPkg(f.Origin())
	}
	return ""
}

// receiver: a method called on a value outside the package that can change its receiver.
func changesReceiver(f *ssa.Function) bool {
	rc := f.Signature.Recv()
	if rc == nil {
		return false
	}
	if _, ok := rc.Type().(*types.Pointer); !ok {
		return false
	}
	switch extPkg(f) {
	case "sync":
		return !strings.Contains(f.String(), "Once") // a mutex or pool at package level is shared state
	case "regexp", "errors", "reflect":
		return false
	case "strings", "bytes":
		switch f.Name() {
		case "String", "Len", "Cap", "Bytes", "Replace":
			return false
		}
	}
	return true
}

func checkP15(P *Prog, r *Report) {
	g := newCallGraph(P)
	tr := treeRoots(P)
	api := apiRoots(P)
	if !r.need(len(tr) > 10, "the tree functions") || !r.need(len(api) > len(P.Nodes), "the exported entry points") {
		return
	}
	r.rule("tree-write", "no instruction reachable from formatting, walking, visiting, searching or a position query changes memory of the tree")
	r.rule("shared-write", "no instruction reachable from an exported entry point changes package-level memory")
	r.rule("shared-result", "no exported constructor or entry point hands out package-level memory that its methods then change")
	r.rule("order", "no result depends on the iteration order of a map")
	r.rule("outside-input", "no result depends on time, randomness, the environment, addresses or scheduling")
	report := func(x *effects, rule string, bit origin, what string) {
		seen := map[string]bool{}
		for _, f := range x.sorted {
			if f.Synthetic != "" && f.Name() == "init" {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					ts, how := writes(in)
					if c, ok := in.(ssa.CallInstruction); ok && len(ts) == 0 {
						if _, ext := g.callees(c.Common()); ext != nil {
							as := c.Common().Args
							if mutates(ext) && len(as) > 0 {
								ts, how = as[:1], "hands to "+ext.Name()+", which changes,"
							} else if changesReceiver(ext) && len(as) > 0 {
								ts, how = as[:1], "calls "+ext.Name()+" on"
							}
						}
					}
					for _, t := range ts {
						r.ob(rule, 1)
						o := x.get(t)
						if how == "appends in place to" {
							if capped(t) || emptyAppend(in) {
								continue
							}
						}
						if o&bit == 0 || bit == oGlobal && x.once[f] {
							continue
						}
						k := fnName(f) + how + x.place(t)
						if !seen[k] {
							seen[k] = true
							r.fnBad(rule, f, in.Pos(), "%s %s, which is %s", how, x.place(t), what)
						}
					}
				}
			}
		}
	}
	xt := runEffects(P, g, tr)
	report(xt, "tree-write", oTree, "part of the tree being read")
	report(xt, "shared-write", oGlobal, "shared by all callers")
	xa := runEffects(P, g, api)
	report(xa, "shared-write", oGlobal, "shared by all callers")
	r.extra["functions_reachable_from_tree_operations"] = len(xt.set)
	r.extra["functions_reachable_from_entry_points"] = len(xa.set)

	for _, f := range xa.sorted {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch i := in.(type) {
				case *ssa.Range:
					if _, ok := i.X.Type().Underlying().(*types.Map); ok {
						r.ob("order", 1)
						if why := orderMatters(f, i); why != "" {
							r.fnBad("order", f, in.Pos(), "goes over a map and %s", why)
						}
					}
				case *ssa.Select:
					r.ob("outside-input", 1)
					r.fnBad("outside-input", f, in.Pos(), "chooses between channels")
				case *ssa.Convert:
					if bt, ok := i.Type().Underlying().(*types.Basic); ok && bt.Kind() == types.Uintptr {
						r.ob("outside-input", 1)
						r.fnBad("outside-input", f, in.Pos(), "turns an address into a number")
					}
				case ssa.CallInstruction:
					_, ext := g.callees(i.Common())
					if ext == nil {
						continue
					}
					r.ob("outside-input", 1)
					if why := impure(ext); why != "" {
						r.fnBad("outside-input", f, in.Pos(), "calls %s: %s", ext.String(), why)
					}
					if extPkg(ext) == "fmt" {
						for _, t := range fmtArgs(i.Common()) {
							if addressPrinted(t, map[types.Type]bool{}, 0) {
								r.fnBad("outside-input", f, in.Pos(), "prints a value of type %s, whose text contains addresses", t)
							}
						}
					}
					if extPkg(ext) == "maps" && (strings.HasPrefix(ext.Name(), "Keys") || strings.HasPrefix(ext.Name(), "Values") || strings.HasPrefix(ext.Name(), "All")) {
						r.ob("order", 1)
						if v, ok := i.(*ssa.Call); ok && !sortedUse(v, 0) {
							r.fnBad("order", f, in.Pos(), "uses the entries of a map in an arbitrary order")
						}
					}
				}
			}
		}
	}
}

// place describes what is changed.
func (x *effects) place(v ssa.Value) string {
	switch a := v.(type) {
	case *ssa.FieldAddr:
		if n, s := structOf(a.X.Type()); n != nil {
			return n.Obj().Name() + "." + s.Field(a.Field).Name()
		}
	case *ssa.IndexAddr:
		return "an element of " + x.place(a.X)
	case *ssa.Global:
		return "the variable " + a.Name()
	case *ssa.UnOp:
		return x.place(a.X)
	case *ssa.Slice:
		return x.place(a.X)
	case *ssa.Parameter:
		return "its argument " + a.Name()
	}
	return "a " + types.TypeString(v.Type(), types.RelativeTo(x.P.TPkg))
}

// capped: appending to the list always makes a new array.
func capped(v ssa.Value) bool {
	switch s := v.(type) {
	case *ssa.Slice:
		return s.Max != nil && (s.High == s.Max || isConstZero(s.High) && isConstZero(s.Max))
	case *ssa.Const:
		return true
	case *ssa.Call:
		if f := s.Common().StaticCallee(); f != nil && strings.HasPrefix(f.Name(), "Clip") {
			return true
		}
	case *ssa.Phi:
		for _, e := range s.Edges {
			if e != ssa.Value(s) && !capped(e) {
				return false
			}
		}
		return true
	}
	return false
}

func isConstZero(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value != nil && c.Value.String() == "0"
}

func emptyAppend(in ssa.Instruction) bool {
	c, ok := in.(ssa.CallInstruction)
	if !ok || len(c.Common().Args) < 2 {
		return true
	}
	k, ok := c.Common().Args[1].(*ssa.Const)
	return ok && k.IsNil()
}

// impure says why the result of an outside function depends on more than its arguments.
func impure(f *ssa.Function) string {
	switch p := extPkg(f); p {
	case "time":
		switch f.Name() {
		case "Now", "Since", "Until", "After", "Tick", "NewTimer", "NewTicker", "AfterFunc", "Sleep":
			return "depends on the clock"
		}
	case "math/rand", "math/rand/v2", "crypto/rand":
		return "random"
	case "os", "os/user", "os/exec", "runtime", "runtime/debug", "net", "syscall", "io/ioutil", "flag", "hash/maphash", "runtime/pprof":
		return "depends on the environment"
	case "unsafe":
		return "depends on addresses"
	case "reflect":
		switch f.Name() {
		case "Pointer", "UnsafePointer", "UnsafeAddr", "MapKeys", "MapRange":
			return "depends on addresses or map order"
		}
	case "sync":
		if strings.Contains(f.String(), "Pool") || strings.Contains(f.String(), "(*sync.Map).Range") {
			return "depends on what other callers left behind"
		}
	}
	return ""
}

// fmtArgs lists the types of the operands handed to a fmt function.
func fmtArgs(c *ssa.CallCommon) (out []types.Type) {
	if len(c.Args) == 0 {
		return nil
	}
	s, ok := c.Args[len(c.Args)-1].(*ssa.Slice)
	if !ok {
		return nil
	}
	a, ok := s.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	for _, r := range *a.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		for _, q := range *ia.Referrers() {
			if st, ok := q.(*ssa.Store); ok && st.Addr == ssa.Value(ia) {
				v := st.Val
				if m, ok := v.(*ssa.MakeInterface); ok {
					v = m.X
				}
				out = append(out, v.Type())
			}
		}
	}
	return out
}

func hasText(t types.Type) bool {
	ms := types.NewMethodSet(t)
	for _, n := range []string{"String", "Error", "Format", "GoString"} {
		s := ms.Lookup(nil, n)
		if s == nil {
			continue
		}
		sg := s.Type().(*types.Signature)
		if n == "Format" || sg.Params().Len() == 0 && sg.Results().Len() == 1 {
			return true
		}
	}
	return false
}

// addressPrinted: printing a value of this type with %v writes a memory address.
func addressPrinted(t types.Type, seen map[types.Type]bool, d int) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	if hasText(t) {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Signature, *types.Chan:
		return true
	case *types.Pointer:
		if d > 0 {
			return true
		}
		return addressPrinted(u.Elem(), seen, d+1)
	case *types.Slice:
		return addressPrinted(u.Elem(), seen, d+1)
	case *types.Array:
		return addressPrinted(u.Elem(), seen, d+1)
	case *types.Map:
		return addressPrinted(u.Elem(), seen, d+1) || addressPrinted(u.Key(), seen, d+1)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if addressPrinted(u.Field(i).Type(), seen, d+1) {
				return true
			}
		}
	}
	return false
}

// sortedUse: the value only feeds functions that put it in order.
func sortedUse(v ssa.Value, d int) bool {
	if d > 3 || v.Referrers() == nil {
		return false
	}
	n := 0
	for _, r := range *v.Referrers() {
		switch c := r.(type) {
		case *ssa.DebugRef:
		case *ssa.ChangeType:
			n++
			if !sortedUse(c, d+1) {
				return false
			}
		case *ssa.Call:
			n++
			h := c.Common().StaticCallee()
			if h == nil || !strings.HasPrefix(h.Name(), "Sorted") && !(extPkg(h) == "slices" && strings.HasPrefix(h.Name(), "Collect") && orderedLater(c)) {
				return false
			}
		default:
			return false
		}
	}
	return n > 0
}

// orderedLater: the list is put in order by a sorting call in the same function.
func orderedLater(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		if c, ok := r.(*ssa.Call); ok {
			if h := c.Common().StaticCallee(); h != nil && mutates(h) && strings.Contains(strings.ToLower(h.Name()+extPkg(h)), "sort") {
				return true
			}
		}
		if m, ok := r.(*ssa.MakeInterface); ok && orderedLater(m) {
			return true
		}
	}
	return false
}

// orderMatters says what makes a loop over a map depend on the order of its entries.
func orderMatters(f *ssa.Function, rg *ssa.Range) string {
	var next *ssa.Next
	for _, u := range *rg.Referrers() {
		if n, ok := u.(*ssa.Next); ok {
			next = n
		}
	}
	if next == nil {
		return ""
	}
	head := next.Block()
	body := loopBody(head)
	for b := range body {
		for _, in := range b.Instrs {
			switch i := in.(type) {
			case *ssa.Next, *ssa.Extract, *ssa.If, *ssa.Jump, *ssa.BinOp, *ssa.UnOp, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Lookup, *ssa.MapUpdate,
				*ssa.DebugRef, *ssa.ChangeType, *ssa.Convert, *ssa.Field, *ssa.Index, *ssa.TypeAssert, *ssa.MakeInterface, *ssa.Slice, *ssa.Alloc:
			case *ssa.Phi:
				if b != head {
					continue
				}
				if !commutes(i, body) {
					return "keeps something of the entry it saw last"
				}
			case *ssa.Store:
				if _, ok := i.Addr.(*ssa.IndexAddr); ok {
					if _, ok := i.Addr.(*ssa.IndexAddr).X.(*ssa.Alloc); ok {
						continue
					}
				}
				return "stores something of each entry in turn"
			case *ssa.Call:
				if bt, ok := i.Common().Value.(*ssa.Builtin); ok {
					switch bt.Name() {
					case "append":
						continue // judged at the list it is joined with
					case "len", "cap", "min", "max", "delete":
						continue
					}
				}
				if h := i.Common().StaticCallee(); h != nil && purePkgs[extPkg(h)] && h.Signature.Recv() == nil && !mutates(h) && extPkg(h) != "fmt" {
					continue
				}
				return "does something for each entry in turn"
			case *ssa.Return:
				return "returns at the first entry that fits"
			default:
				return fmt.Sprintf("does something for each entry in turn (%T)", in)
			}
		}
	}
	// leaving early: what is left with must not depend on the entry
	for b := range body {
		if b == head {
			continue
		}
		for _, s := range b.Succs {
			if body[s] {
				continue
			}
			for _, in := range s.Instrs {
				switch i := in.(type) {
				case *ssa.Phi:
					for k, p := range s.Preds {
						if body[p] {
							if _, ok := i.Edges[k].(*ssa.Const); !ok && definedIn(i.Edges[k], body) {
								return "stops at the first entry that fits"
							}
						}
					}
				case *ssa.Return:
					for _, v := range i.Results {
						if definedIn(v, body) {
							return "returns at the first entry that fits"
						}
					}
				}
			}
		}
	}
	return ""
}

func definedIn(v ssa.Value, body map[*ssa.BasicBlock]bool) bool {
	in, ok := v.(ssa.Instruction)
	return ok && body[in.Block()]
}

// commutes: the variable carried round the loop is combined in a way that ignores the order.
func commutes(p *ssa.Phi, body map[*ssa.BasicBlock]bool) bool {
	for k, e := range p.Edges {
		if !body[p.Block().Preds[k]] || e == ssa.Value(p) {
			continue
		}
		if !commutesFrom(e, p, body, 0) {
			return false
		}
	}
	return true
}

func commutesFrom(e ssa.Value, p *ssa.Phi, body map[*ssa.BasicBlock]bool, d int) bool {
	if d > 6 {
		return false
	}
	if e == ssa.Value(p) {
		return true
	}
	switch v := e.(type) {
	case *ssa.Const:
		return true
	case *ssa.BinOp:
		switch v.Op {
		case token.ADD, token.OR, token.AND, token.XOR, token.MUL:
			if bt, ok := v.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
				return false
			}
			return v.X == ssa.Value(p) || v.Y == ssa.Value(p)
		}
	case *ssa.Phi:
		for _, x := range v.Edges {
			if !commutesFrom(x, p, body, d+1) {
				return false
			}
		}
		return true
	case *ssa.Call:
		if b, ok := v.Common().Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "min", "max":
				return true
			case "append":
				return orderedLater(p) && commutesFrom(v.Common().Args[0], p, body, d+1)
			}
		}
	}
	return false
}

// loopBody is the natural loop with this head.
func loopBody(head *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	body := map[*ssa.BasicBlock]bool{head: true}
	var add func(b *ssa.BasicBlock)
	add = func(b *ssa.BasicBlock) {
		if body[b] {
			return
		}
		body[b] = true
		for _, p := range b.Preds {
			add(p)
		}
	}
	for _, p := range head.Preds {
		if head.Dominates(p) {
			add(p)
		}
	}
	return body
}

func checkP16(P *Prog, r *Report) {
	r.rule("call", "every call that leaves the package goes to a function that only computes a result")
	r.rule("writer", "text is only written to a buffer the function made or was given")
	r.rule("goroutine", "no goroutine is started and no channel is waited on")
	r.rule("builtin", "the printing builtins are not used")
	r.rule("import", "no unsafe, cgo or linkname code in the package")
	g := newCallGraph(P)
	for _, im := range P.TPkg.Imports() {
		r.ob("import", 1)
		switch im.Path() {
		case "unsafe", "C", "syscall", "plugin":
			r.bad("import", im.Path(), token.NoPos, "the library imports %s", im.Path())
		}
	}
	for _, fl := range P.Syntax {
		for _, cg := range fl.Comments {
			for _, c := range cg.List {
				if strings.HasPrefix(c.Text, "//go:linkname") || strings.HasPrefix(c.Text, "//go:cgo") {
					r.bad("import", "directive", c.Pos(), "%s", c.Text)
				}
			}
		}
	}
	for _, f := range P.ParsP.OtherFiles {
		if !strings.HasSuffix(f, ".md") {
			r.bad("import", f, token.NoPos, "the package has a part that is not Go source")
		}
	}
	n := 0
	for _, f := range P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch i := in.(type) {
				case *ssa.Go:
					r.ob("goroutine", 1)
					r.fnBad("goroutine", f, in.Pos(), "starts a goroutine")
				case *ssa.Send, *ssa.Select:
					r.ob("goroutine", 1)
					r.fnBad("goroutine", f, in.Pos(), "uses a channel")
				case *ssa.UnOp:
					if i.Op == token.ARROW {
						r.ob("goroutine", 1)
						r.fnBad("goroutine", f, in.Pos(), "waits on a channel")
					}
				}
				for _, op := range in.Operands(nil) {
					switch v := (*op).(type) {
					case *ssa.Function:
						if P.inPkg(v) || v.Pkg == nil && v.Object() == nil || v.Name() == "init" {
							continue
						}
						n++
						r.ob("call", 1)
						if why := effectOf(v); why != "" {
							r.fnBad("call", f, in.Pos(), "uses %s, which %s", v.String(), why)
						}
					case *ssa.Global:
						if v.Pkg != P.Pkg {
							n++
							r.ob("call", 1)
							switch v.Pkg.Pkg.Path() {
							case "os", "log", "net", "net/http", "flag", "syscall", "runtime", "io":
								if v.Pkg.Pkg.Path() != "io" || v.Name() == "Discard" {
									if !strings.HasPrefix(v.Name(), "Err") && v.Name() != "Discard" {
										r.fnBad("call", f, in.Pos(), "uses %s.%s", v.Pkg.Pkg.Path(), v.Name())
									}
								}
							}
						}
					case *ssa.Builtin:
						if v.Name() == "print" || v.Name() == "println" {
							r.ob("builtin", 1)
							r.fnBad("builtin", f, in.Pos(), "prints to standard error")
						}
					}
				}
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if c.Common().IsInvoke() {
					// methods of values from outside
					fs, _ := g.callees(c.Common())
					nt, _ := types.Unalias(c.Common().Value.Type()).(*types.Named)
					if nt != nil && nt.Obj().Pkg() != nil && nt.Obj().Pkg() != P.TPkg && len(fs) == 0 {
						r.ob("call", 1)
						switch nt.Obj().Pkg().Path() {
						case "net", "io/fs", "os", "net/http", "log/slog", "log":
							r.fnBad("call", f, in.Pos(), "calls %s of a %s", c.Common().Method.Name(), nt)
						}
					}
				}
			}
		}
	}
	r.need(n > 20, "calls that leave the package")
	r.extra["uses_of_outside_functions"] = n
}

// effectOf says what an outside function does besides computing its result.
func effectOf(f *ssa.Function) string {
	p, n := extPkg(f), f.Name()
	if i := strings.IndexByte(n, '['); i >= 0 {
		n = n[:i]
	}
	switch p {
	case "fmt":
		if strings.HasPrefix(n, "Print") || n == "Scan" || n == "Scanln" || n == "Scanf" {
			return "uses the standard streams"
		}
		return ""
	case "time":
		switch n {
		case "Sleep", "After", "AfterFunc", "Tick", "NewTimer", "NewTicker":
			return "waits or starts a timer"
		}
		return ""
	case "sync":
		if strings.Contains(f.String(), "WaitGroup") || strings.Contains(f.String(), "Cond") {
			return "waits for other goroutines"
		}
		return ""
	case "runtime":
		switch n {
		case "Goexit", "GC", "Gosched", "LockOSThread", "Breakpoint", "SetFinalizer", "KeepAlive":
			return "acts on the process"
		}
		return ""
	case "context":
		if strings.HasPrefix(n, "With") {
			return "starts a timer or goroutine"
		}
		return ""
	case "math/rand", "math/rand/v2", "unsafe", "hash/maphash":
		return "" // P15's concern
	case "":
		return ""
	}
	if purePkgs[p] || strings.HasPrefix(p, "internal/") {
		return ""
	}
	switch p {
	case "os":
		switch n {
		case "Getenv", "LookupEnv", "Environ", "Getpid", "Getwd", "Hostname", "IsNotExist", "IsExist", "Getuid":
			return "" // reads only: P15's concern
		}
	}
	return "can have effects outside the results"
}

func init() { checks["P15"] = checkP15; checks["P16"] = checkP16 }
