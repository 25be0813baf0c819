package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

// A function without results (or with an error only) that is private to the package, not recursive, and only called
// as a statement from very few places is read where it is called: whether a step stands in its caller or in a helper
// taken out of it makes no difference to any property. The replacement is made in the source text, in memory, with
// line directives that keep every position.

type textEdit struct {
	from, to int
	text     string
}

const inlineUses = 2 // call sites of a helper that is read at each

// inlined gives new contents for files of the package, or nothing when there is nothing (more) to inline.
func inlined(p *packages.Package, read func(string) ([]byte, error), told func(string)) (map[string][]byte, error) {
	fset, info := p.Fset, p.TypesInfo
	decls := map[types.Object]*ast.FuncDecl{}
	for _, f := range p.Syntax {
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil && !fd.Name.IsExported() && fd.Name.Name != "init" && fd.Name.Name != "main" && fd.Name.Name != "_" {
				if o := info.Defs[fd.Name]; o != nil {
					decls[o] = fd
				}
			}
		}
	}
	uses := map[types.Object]int{}
	for _, o := range info.Uses {
		if decls[o] != nil {
			uses[o]++
		}
	}
	type site struct {
		stmt  ast.Stmt
		call  *ast.CallExpr
		recv  ast.Expr
		cond  *ast.IfStmt // if err := f(); err != nil
		outer *ast.FuncDecl
	}
	sites := map[types.Object][]*site{}
	callee := func(c *ast.CallExpr) (types.Object, ast.Expr) {
		switch y := c.Fun.(type) {
		case *ast.Ident:
			return info.Uses[y], nil
		case *ast.SelectorExpr:
			if s := info.Selections[y]; s != nil && s.Kind() == types.MethodVal && len(s.Index()) == 1 {
				return s.Obj(), y.X
			}
		}
		return nil, nil
	}
	for _, f := range p.Syntax {
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			list := func(ss []ast.Stmt) {
				for _, s := range ss {
					switch y := s.(type) {
					case *ast.ExprStmt:
						if c, ok := y.X.(*ast.CallExpr); ok {
							if o, r := callee(c); decls[o] != nil {
								sites[o] = append(sites[o], &site{stmt: s, call: c, recv: r, outer: fd})
							}
						}
					case *ast.IfStmt:
						a, ok := y.Init.(*ast.AssignStmt)
						if !ok || a.Tok != token.DEFINE || len(a.Lhs) != 1 || len(a.Rhs) != 1 {
							continue
						}
						if c, ok := a.Rhs[0].(*ast.CallExpr); ok {
							if o, r := callee(c); decls[o] != nil {
								sites[o] = append(sites[o], &site{stmt: s, call: c, recv: r, cond: y, outer: fd})
							}
						}
					}
				}
			}
			ast.Inspect(fd.Body, func(x ast.Node) bool {
				switch y := x.(type) {
				case *ast.BlockStmt:
					list(y.List)
				case *ast.CaseClause:
					list(y.Body)
				}
				return true
			})
		}
	}
	off := func(q token.Pos) int { return fset.PositionFor(q, false).Offset }
	file := func(q token.Pos) string { return fset.PositionFor(q, false).Filename }
	src := map[string][]byte{}
	text := func(a, b token.Pos) string {
		f := file(a)
		if src[f] == nil {
			src[f], _ = read(f)
		}
		if off(b) > len(src[f]) {
			return ""
		}
		return string(src[f][off(a):off(b)])
	}
	at := func(q token.Pos) string {
		ps := fset.Position(q)
		return fmt.Sprintf("/*line %s:%d:%d*/", ps.Filename, ps.Line, ps.Column)
	}
	edits := map[string][]textEdit{}
	busy := map[*ast.FuncDecl]bool{} // changed in this round
	var order []types.Object
	for o := range sites {
		order = append(order, o)
	}
	sort.Slice(order, func(i, j int) bool { return order[i].Pos() < order[j].Pos() })
	for _, o := range order {
		ss, fd := sites[o], decls[o]
		sig := o.Type().(*types.Signature)
		if len(ss) != uses[o] || len(ss) > inlineUses || sig.Variadic() || sig.TypeParams() != nil || busy[fd] {
			continue
		}
		rs := sig.Results()
		if rs.Len() > 1 || rs.Len() == 1 && (!types.Identical(rs.At(0).Type(), types.Universe.Lookup("error").Type()) || rs.At(0).Name() != "" || len(ss) > 1) {
			continue
		}
		ok := true
		for _, s := range ss {
			if s.outer == fd || busy[s.outer] || (s.cond != nil) != (rs.Len() == 1) {
				ok = false
			}
		}
		ast.Inspect(fd.Body, func(x ast.Node) bool {
			switch y := x.(type) {
			case *ast.DeferStmt, *ast.FuncLit, *ast.GoStmt:
				ok = false
			case *ast.LabeledStmt:
				ok = ok && ownLabel.MatchString(y.Label.Name)
			case *ast.ForStmt, *ast.RangeStmt:
				if n, _ := recvName(sig); n == "Lexer" {
					ok = false // rules about the scanner follow one loop at a time
				}
			case *ast.CallExpr:
				if i, is := y.Fun.(*ast.Ident); is && i.Name == "recover" {
					ok = false
				}
			}
			return ok
		})
		if rs.Len() == 1 && !passesNode(sig) {
			ok = false
		}
		if !ok {
			continue
		}
		var made []string
		for _, s := range ss {
			t := inlineAt(p, o, fd, s.call, s.recv, s.cond, text, at)
			if t == "" {
				break
			}
			if s.cond != nil {
				if !strings.Contains(t, "inlinedResult") {
					made = append(made, t)
					continue
				}
				a := s.cond.Init.(*ast.AssignStmt)
				rest := at(s.cond.Pos()) + "if " + text(a.Lhs[0].Pos(), a.Lhs[0].End()) + " := inlinedResult; " + text(s.cond.Cond.Pos(), s.stmt.End())
				t = "{ var inlinedResult error; " + t + "; " + rest + "}"
			}
			made = append(made, t)
		}
		if len(made) != len(ss) {
			continue
		}
		busy[fd] = true
		for i, s := range ss {
			busy[s.outer] = true
			f := file(s.stmt.Pos())
			edits[f] = append(edits[f], textEdit{off(s.stmt.Pos()), off(s.stmt.End()), made[i] + at(s.stmt.End())})
		}
		f := file(fd.Pos())
		text(fd.Pos(), fd.End())
		edits[f] = append(edits[f], textEdit{off(fd.Pos()), off(fd.End()), at(fd.End())})
		told(o.Name())
	}
	conditions(p, decls, uses, busy, callee, text, at, func(from, to token.Pos, t string) {
		f := file(from)
		edits[f] = append(edits[f], textEdit{off(from), off(to), t})
	}, told)
	out := map[string][]byte{}
	for f, l := range edits {
		sort.Slice(l, func(i, j int) bool { return l[i].from < l[j].from })
		var b strings.Builder
		last := 0
		for _, e := range l {
			if e.from < last {
				return nil, fmt.Errorf("overlapping replacements in %s", f)
			}
			b.Write(src[f][last:e.from])
			b.WriteString(e.text)
			last = e.to
		}
		b.Write(src[f][last:])
		out[f] = []byte(b.String())
	}
	return out, nil
}

var (
	ownLabel    = regexp.MustCompile(`\binlined[0-9][0-9_]*`)
	inlineCount int
)

func recvName(sig *types.Signature) (string, bool) {
	if sig.Recv() == nil {
		return "", false
	}
	n, _ := structOf(sig.Recv().Type())
	if n == nil {
		return "", false
	}
	return n.Obj().Name(), true
}

// conditions: a private function that only gives a condition is read where it is asked, and so is a condition that is
// put in a variable right before the branch that is its only use.
func conditions(p *packages.Package, decls map[types.Object]*ast.FuncDecl, uses map[types.Object]int, busy map[*ast.FuncDecl]bool,
	callee func(*ast.CallExpr) (types.Object, ast.Expr), text func(a, b token.Pos) string, at func(token.Pos) string, edit func(from, to token.Pos, t string), told func(string)) {
	info := p.TypesInfo
	count := map[types.Object]int{}
	for _, o := range info.Uses {
		count[o]++
	}
	isBool := func(t types.Type) bool { b, ok := t.Underlying().(*types.Basic); return ok && b.Kind() == types.Bool }
	type use struct {
		call  *ast.CallExpr
		recv  ast.Expr
		outer *ast.FuncDecl
	}
	asked := map[types.Object][]*use{}
	for _, f := range p.Syntax {
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			list := func(ss []ast.Stmt) {
				for i := 0; i+1 < len(ss); i++ {
					a, ok := ss[i].(*ast.AssignStmt)
					y, ok2 := ss[i+1].(*ast.IfStmt)
					if !ok || !ok2 || a.Tok != token.DEFINE || len(a.Lhs) != 1 || len(a.Rhs) != 1 || y.Init != nil || busy[fd] {
						continue
					}
					v, ok := a.Lhs[0].(*ast.Ident)
					if !ok || info.Defs[v] == nil || count[info.Defs[v]] != 1 || !isBool(info.Defs[v].Type()) {
						continue
					}
					if _, ok := a.Rhs[0].(*ast.BinaryExpr); !ok {
						continue
					}
					first := y.Cond
					for {
						if b, ok := first.(*ast.BinaryExpr); ok && (b.Op == token.LAND || b.Op == token.LOR) {
							first = b.X
						} else if u, ok := first.(*ast.UnaryExpr); ok && u.Op == token.NOT {
							first = u.X
						} else if q, ok := first.(*ast.ParenExpr); ok {
							first = q.X
						} else {
							break
						}
					}
					if id, ok := first.(*ast.Ident); ok && info.Uses[id] == info.Defs[v] {
						busy[fd] = true
						edit(a.Pos(), a.End(), "{}"+at(a.End()))
						edit(id.Pos(), id.End(), "("+at(a.Rhs[0].Pos())+text(a.Rhs[0].Pos(), a.Rhs[0].End())+")"+at(id.End()))
						told(v.Name)
					}
				}
			}
			ast.Inspect(fd.Body, func(x ast.Node) bool {
				switch y := x.(type) {
				case *ast.BlockStmt:
					list(y.List)
				case *ast.CaseClause:
					list(y.Body)
				case *ast.CallExpr:
					if o, r := callee(y); decls[o] != nil {
						asked[o] = append(asked[o], &use{y, r, fd})
					}
				}
				return true
			})
		}
	}
	var order []types.Object
	for o := range asked {
		order = append(order, o)
	}
	sort.Slice(order, func(i, j int) bool { return order[i].Pos() < order[j].Pos() })
	for _, o := range order {
		fd, us := decls[o], asked[o]
		sig := o.Type().(*types.Signature)
		if len(us) != uses[o] || len(us) > inlineUses || sig.Variadic() || sig.TypeParams() != nil || sig.Results().Len() != 1 || !isBool(sig.Results().At(0).Type()) || busy[fd] || len(fd.Body.List) != 1 {
			continue
		}
		r, ok := fd.Body.List[0].(*ast.ReturnStmt)
		if !ok || len(r.Results) != 1 {
			continue
		}
		e := r.Results[0]
		ast.Inspect(e, func(x ast.Node) bool {
			if _, is := x.(*ast.FuncLit); is {
				ok = false
			}
			return ok
		})
		var made []string
		for _, u := range us {
			t := ""
			if ok && u.outer != fd && !busy[u.outer] {
				t = exprAt(p, o, fd, e, u.call, u.recv, text, at)
			}
			if t == "" {
				break
			}
			made = append(made, t)
		}
		if len(made) != len(us) {
			continue
		}
		busy[fd] = true
		for i, u := range us {
			busy[u.outer] = true
			edit(u.call.Pos(), u.call.End(), made[i]+at(u.call.End()))
		}
		text(fd.Pos(), fd.End())
		edit(fd.Pos(), fd.End(), at(fd.End()))
		told(o.Name())
	}
}

func plain(e ast.Expr) bool {
	switch y := e.(type) {
	case *ast.Ident, *ast.BasicLit:
		return true
	case *ast.SelectorExpr:
		return plain(y.X)
	}
	return false
}

// exprAt gives the condition with the arguments in place of the parameters.
func exprAt(p *packages.Package, o types.Object, fd *ast.FuncDecl, e ast.Expr, call *ast.CallExpr, recv ast.Expr, text func(a, b token.Pos) string, at func(token.Pos) string) string {
	info := p.TypesInfo
	sig := o.Type().(*types.Signature)
	repl := map[types.Object]string{}
	put := func(n *ast.Ident, want types.Type, arg ast.Expr) bool {
		tv := info.Types[arg]
		if tv.Type == nil || !plain(arg) || tv.Value == nil && !types.Identical(tv.Type, want) {
			return false
		}
		if n != nil {
			repl[info.Defs[n]] = text(arg.Pos(), arg.End())
		}
		return true
	}
	if fd.Recv != nil {
		if recv == nil || len(fd.Recv.List) != 1 {
			return ""
		}
		var n *ast.Ident
		if len(fd.Recv.List[0].Names) == 1 {
			n = fd.Recv.List[0].Names[0]
		}
		if !put(n, sig.Recv().Type(), recv) {
			return ""
		}
	}
	i := 0
	for _, f := range fd.Type.Params.List {
		ns := f.Names
		if len(ns) == 0 {
			ns = []*ast.Ident{nil}
		}
		for _, n := range ns {
			if i >= len(call.Args) || !put(n, sig.Params().At(i).Type(), call.Args[i]) {
				return ""
			}
			i++
		}
	}
	if i != len(call.Args) || !sameNames(p, e, call.Pos()) {
		return ""
	}
	src := text(e.Pos(), e.End())
	base := p.Fset.PositionFor(e.Pos(), false).Offset
	var cuts []textEdit
	ast.Inspect(e, func(x ast.Node) bool {
		if id, ok := x.(*ast.Ident); ok {
			if t, ok := repl[info.Uses[id]]; ok && info.Uses[id] != nil {
				a := p.Fset.PositionFor(id.Pos(), false).Offset - base
				cuts = append(cuts, textEdit{a, a + len(id.Name), t})
			}
		}
		return true
	})
	sort.Slice(cuts, func(i, j int) bool { return cuts[i].from < cuts[j].from })
	var b strings.Builder
	last := 0
	for _, c := range cuts {
		b.WriteString(src[last:c.from])
		b.WriteString(c.text)
		last = c.to
	}
	b.WriteString(src[last:])
	return "(" + at(e.Pos()) + b.String() + ")"
}

// sameNames: what the code takes from outside its function means the same at the place.
func sameNames(p *packages.Package, code ast.Node, place token.Pos) bool {
	info := p.TypesInfo
	var scope *types.Scope
	for _, s := range p.Syntax {
		if s.Pos() <= place && place <= s.End() {
			if sc := info.Scopes[s]; sc != nil {
				scope = sc.Innermost(place)
			}
		}
	}
	if scope == nil {
		return false
	}
	ok := true
	ast.Inspect(code, func(x ast.Node) bool {
		id, is := x.(*ast.Ident)
		if !is {
			return true
		}
		q := info.Uses[id]
		if q == nil {
			return true
		}
		if pn, isPkg := q.(*types.PkgName); isPkg {
			_, r := scope.LookupParent(id.Name, place)
			rp, is := r.(*types.PkgName)
			ok = ok && is && rp.Imported() == pn.Imported()
			return true
		}
		if q.Pkg() != nil && q.Parent() != p.Types.Scope() {
			return true
		}
		if _, r := scope.LookupParent(id.Name, place); r != q {
			ok = false
		}
		return true
	})
	return ok
}

// passesNode: a parameter (not the receiver) is a pointer to a struct: the helper fills something.
func passesNode(sig *types.Signature) bool {
	for i := 0; i < sig.Params().Len(); i++ {
		if q, ok := types.Unalias(sig.Params().At(i).Type()).(*types.Pointer); ok {
			if _, ok := q.Elem().Underlying().(*types.Struct); ok {
				return true
			}
		}
	}
	return false
}

// inlineAt gives the body of the helper as a statement at the place of a call, or nothing when names would clash.
func inlineAt(p *packages.Package, o types.Object, fd *ast.FuncDecl, call *ast.CallExpr, recv ast.Expr, cond *ast.IfStmt, text func(a, b token.Pos) string, at func(token.Pos) string) string {
	info := p.TypesInfo
	sig := o.Type().(*types.Signature)
	onFail := "" // what the caller does with a failure, when it may stand at the failure
	if cond != nil && cond.Else == nil {
		v := cond.Init.(*ast.AssignStmt).Lhs[0].(*ast.Ident)
		c, ok := cond.Cond.(*ast.BinaryExpr)
		simple := ok && c.Op == token.NEQ && text(c.X.Pos(), c.X.End()) == v.Name && text(c.Y.Pos(), c.Y.End()) == "nil" && len(cond.Body.List) == 1
		if simple {
			_, simple = cond.Body.List[0].(*ast.ReturnStmt)
			ast.Inspect(cond.Body, func(x ast.Node) bool {
				if id, ok := x.(*ast.Ident); ok && info.Uses[id] != info.Defs[v] && id.Name != "nil" && id.Name != "true" && id.Name != "false" {
					simple = false
				}
				return simple
			})
		}
		if simple {
			onFail = text(cond.Cond.Pos(), cond.Body.End())
			onFail = at(cond.Pos()) + "if " + v.Name + " := error(%s); " + at(cond.Cond.Pos()) + strings.ReplaceAll(onFail, "%", "%%")
		}
	}
	var names, vals []string
	add := func(name *ast.Ident, typ ast.Expr, want types.Type, arg ast.Expr) bool {
		a := text(arg.Pos(), arg.End())
		tv := info.Types[arg]
		if tv.Type == nil || strings.Contains(a, "//") {
			return false
		}
		if tv.Value != nil || !types.Identical(tv.Type, want) {
			if typ == nil {
				return false
			}
			t := text(typ.Pos(), typ.End())
			if strings.ContainsAny(t, ".\n") {
				return false
			}
			a = "(" + t + ")(" + a + ")"
		}
		n := "_"
		if name != nil {
			n = name.Name
		}
		names, vals = append(names, n), append(vals, a)
		return true
	}
	if fd.Recv != nil {
		if recv == nil || len(fd.Recv.List) != 1 {
			return ""
		}
		var n *ast.Ident
		if len(fd.Recv.List[0].Names) == 1 {
			n = fd.Recv.List[0].Names[0]
		}
		if !add(n, nil, sig.Recv().Type(), recv) {
			return ""
		}
	}
	i := 0
	for _, f := range fd.Type.Params.List {
		ns := f.Names
		if len(ns) == 0 {
			ns = []*ast.Ident{nil}
		}
		for _, n := range ns {
			if i >= len(call.Args) || !add(n, f.Type, sig.Params().At(i).Type(), call.Args[i]) {
				return ""
			}
			i++
		}
	}
	if i != len(call.Args) {
		return ""
	}
	// what the body takes from outside must mean the same at the call
	if !sameNames(p, fd.Body, call.Pos()) {
		return ""
	}
	// returns leave the block
	inlineCount++
	body := text(fd.Body.Lbrace+1, fd.Body.Rbrace)
	base := p.Fset.PositionFor(fd.Body.Lbrace+1, false).Offset
	type cut struct {
		a, b int
		t    string
	}
	var cuts []cut
	label := fmt.Sprintf("inlined%d", inlineCount)
	ast.Inspect(fd.Body, func(x ast.Node) bool {
		r, is := x.(*ast.ReturnStmt)
		if !is {
			return true
		}
		t := "break " + label
		if len(r.Results) == 1 && onFail != "" {
			e := text(r.Results[0].Pos(), r.Results[0].End())
			if e != "nil" {
				t = "{ " + fmt.Sprintf(onFail, at(r.Results[0].Pos())+e) + "; break " + label + " }"
			}
		} else if len(r.Results) == 1 {
			t = "{ inlinedResult = " + text(r.Results[0].Pos(), r.Results[0].End()) + "; break " + label + " }"
		}
		cuts = append(cuts, cut{p.Fset.PositionFor(r.Pos(), false).Offset - base, p.Fset.PositionFor(r.End(), false).Offset - base, t + at(r.End())})
		return true
	})
	sort.Slice(cuts, func(i, j int) bool { return cuts[i].a < cuts[j].a })
	var b strings.Builder
	last := 0
	for _, c := range cuts {
		b.WriteString(body[last:c.a])
		b.WriteString(c.t)
		last = c.b
	}
	b.WriteString(body[last:])
	head, blank := "", true
	for _, n := range names {
		blank = blank && n == "_"
	}
	if len(names) > 0 {
		op := ":="
		if blank {
			op = "="
		}
		head = at(call.Pos()) + strings.Join(names, ", ") + " " + op + " " + strings.Join(vals, ", ") + "; "
		for _, n := range names {
			head += "_ = " + n + "; "
		}
		head = strings.ReplaceAll(head, "_ = _; ", "")
	}
	// labels of what was read here before
	in := ownLabel.ReplaceAllString(b.String(), fmt.Sprintf("${0}_%d", inlineCount))
	in = strings.ReplaceAll(in, fmt.Sprintf("%s_%d", label, inlineCount), label)
	if cond != nil && onFail == "" && len(cuts) > 0 {
		in = "_ = inlinedResult; " + in
	}
	in = head + at(fd.Body.Lbrace+1) + in
	if len(cuts) > 0 {
		return label + ": switch { default: " + in + "\n}"
	}
	return "{ " + in + "\n}"
}

// withInlined loads the repository with small private helpers read where they are called.
func withInlined(cfg *packages.Config, pkgs []*packages.Package) ([]*packages.Package, error) {
	overlay := map[string][]byte{}
	read := func(f string) ([]byte, error) {
		if b := overlay[f]; b != nil {
			return b, nil
		}
		return os.ReadFile(f)
	}
	for round := 0; round < 16; round++ {
		var p *packages.Package
		for _, q := range pkgs {
			if q.Name == "parser" {
				p = q
			}
		}
		if p == nil {
			return pkgs, nil
		}
		var names []string
		out, err := inlined(p, read, func(n string) { names = append(names, n) })
		if err != nil || len(out) == 0 {
			return pkgs, err
		}
		before := map[string][]byte{}
		for f, b := range out {
			before[f] = overlay[f]
			overlay[f] = b
		}
		cfg.Overlay = overlay
		next, err := packages.Load(cfg, "./...")
		bad := err != nil
		for _, q := range next {
			bad = bad || len(q.Errors) > 0
			if os.Getenv("DBGIN") != "" {
				for _, e := range q.Errors {
					println(e.Error())
				}
			}
		}
		if os.Getenv("DBGIN") != "" {
			println("inlined", strings.Join(names, " "))
		}
		if bad {
			return pkgs, nil // as it stands
		}
		pkgs = next
	}
	return pkgs, nil
}
