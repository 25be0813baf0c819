// refac rewrites the packages of a repository at random without changing what they do.
// refac DIR SEED PROB KINDS  (KINDS: letters of the rewrites, or "all")
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/token"
	"go/types"
	"math/rand"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ast/astutil"
	"golang.org/x/tools/go/packages"
)

var (
	rnd   *rand.Rand
	prob  float64
	kinds string
	info  *types.Info
	pkgT  *types.Package
	n     int
	count = map[byte]int{}
	extra []ast.Decl
)

func pick(k byte) bool {
	if kinds != "all" && !strings.ContainsRune(kinds, rune(k)) {
		return false
	}
	if rnd.Float64() < prob {
		return true
	}
	return false
}
func did(k byte) { count[k]++ }
func id(s string) *ast.Ident { return ast.NewIdent(s) }
func fresh(s string) string  { n++; return fmt.Sprintf("%s%d", s, n) }
func not(e ast.Expr) ast.Expr {
	if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.NOT {
		return u.X
	}
	if b, ok := e.(*ast.BinaryExpr); ok {
		switch b.Op {
		case token.EQL:
			return &ast.BinaryExpr{X: b.X, Op: token.NEQ, Y: b.Y}
		case token.NEQ:
			return &ast.BinaryExpr{X: b.X, Op: token.EQL, Y: b.Y}
		}
	}
	return &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: e}}
}
func pure(e ast.Expr) bool {
	switch y := e.(type) {
	case *ast.Ident:
		return true
	case *ast.SelectorExpr:
		return pure(y.X)
	case *ast.StarExpr:
		return pure(y.X)
	}
	return false
}
func has(s ast.Node, f func(ast.Node) bool) bool {
	r := false
	ast.Inspect(s, func(x ast.Node) bool {
		if x != nil && f(x) {
			r = true
		}
		return !r
	})
	return r
}
func leaves(x ast.Node) bool {
	switch x.(type) {
	case *ast.ReturnStmt, *ast.BranchStmt, *ast.DeferStmt, *ast.LabeledStmt, *ast.GoStmt:
		return true
	}
	return false
}
func branch(x ast.Node) bool { _, ok := x.(*ast.BranchStmt); return ok }
func terminates(b []ast.Stmt) bool {
	if len(b) == 0 {
		return false
	}
	_, ok := b[len(b)-1].(*ast.ReturnStmt)
	return ok
}

func typeText(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string {
		if p == pkgT {
			return ""
		}
		if p.Name() == "parser" {
			return "clickhouse"
		}
		return p.Name()
	})
}

// extract: the statements as a function of its own, or nil
func extract(ss []ast.Stmt, recv *ast.FuncDecl) ast.Stmt {
	for _, s := range ss {
		if _, ok := s.(*ast.CaseClause); ok {
			return nil
		}
		if has(s, func(x ast.Node) bool { return leavesHook(x) }) || has(s, func(x ast.Node) bool { _, ok := x.(*ast.FuncLit); return ok }) {
			return nil
		}
	}
	lo, hi := ss[0].Pos(), ss[len(ss)-1].End()
	if !lo.IsValid() || !hi.IsValid() {
		return nil
	}
	type v struct {
		name string
		obj  types.Object
	}
	var vs []v
	seen := map[types.Object]bool{}
	bad := false
	for _, s := range ss {
		ast.Inspect(s, func(x ast.Node) bool {
			switch y := x.(type) {
			case *ast.AssignStmt:
				for _, l := range y.Lhs {
					if i, ok := l.(*ast.Ident); ok && i.Name != "_" {
						o := info.Uses[i]
						if o == nil {
							o = info.Defs[i]
						}
						if o == nil || o.Pos() < lo || o.Pos() > hi {
							bad = true
						}
					}
				}
			case *ast.IncDecStmt:
				bad = true
			case *ast.UnaryExpr:
				if y.Op == token.AND {
					if _, ok := y.X.(*ast.Ident); ok {
						bad = true
					}
				}
			case *ast.Ident:
				o := info.Uses[y]
				if w, ok := o.(*types.Var); ok && !w.IsField() && w.Parent() != w.Pkg().Scope() && (w.Pos() < lo || w.Pos() > hi) {
					if !seen[o] {
						seen[o] = true
						vs = append(vs, v{y.Name, o})
						if b, ok := w.Type().Underlying().(*types.Struct); ok && b != nil {
							bad = true
						}
					}
				} else if o == nil && info.Defs[y] == nil && y.Name != "_" {
					bad = true // made by another rewrite
				}
			}
			return true
		})
	}
	if bad {
		return nil
	}
	name := fresh("part")
	fd := &ast.FuncDecl{Name: id(name), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: ss}}
	call := &ast.CallExpr{}
	var recvName string
	if recv.Recv != nil && len(recv.Recv.List) == 1 && len(recv.Recv.List[0].Names) == 1 {
		recvName = recv.Recv.List[0].Names[0].Name
	}
	used := false
	for _, w := range vs {
		if w.name == recvName && recvName != "" && !used {
			used = true
			fd.Recv = recv.Recv
			arg := id(recvName)
			info.Uses[arg] = w.obj
			call.Fun = &ast.SelectorExpr{X: arg, Sel: id(name)}
			continue
		}
		fd.Type.Params.List = append(fd.Type.Params.List, &ast.Field{Names: []*ast.Ident{id(w.name)}, Type: id(typeText(w.obj.Type()))})
		arg := id(w.name)
		info.Uses[arg] = w.obj
		call.Args = append(call.Args, arg)
	}
	if !used {
		call.Fun = id(name)
	}
	extra = append(extra, fd)
	return &ast.ExprStmt{X: call}
}

// extractErr: a run of statements that may fail ("return nil, err") as a function that returns an error
func extractErr(ss []ast.Stmt, fd *ast.FuncDecl, results int) ast.Stmt {
	if results < 1 || results > 2 {
		return nil
	}
	bad := false
	any := false
	var rets []*ast.ReturnStmt
	for _, s := range ss {
		if _, ok := s.(*ast.CaseClause); ok {
			return nil
		}
		if has(s, func(x ast.Node) bool {
			switch x.(type) {
			case *ast.BranchStmt, *ast.DeferStmt, *ast.LabeledStmt, *ast.GoStmt, *ast.FuncLit:
				return true
			}
			return false
		}) {
			return nil
		}
		ast.Inspect(s, func(x ast.Node) bool {
			if r, ok := x.(*ast.ReturnStmt); ok {
				any = true
				if len(r.Results) != results {
					bad = true
					return true
				}
				if results == 2 {
					if i, ok := r.Results[0].(*ast.Ident); !ok || i.Name != "nil" {
						bad = true
					}
				}
				last := r.Results[results-1]
				if i, ok := last.(*ast.Ident); ok && i.Name == "nil" {
					bad = true
				}
				if t := info.TypeOf(last); t == nil {
					bad = true
				}
				rets = append(rets, r)
			}
			return true
		})
	}
	if bad || !any {
		return nil
	}
	// the other conditions are those of extract, with the returns taken out of sight
	old := leavesHook
	leavesHook = func(x ast.Node) bool { return false }
	c := extract(ss, fd)
	leavesHook = old
	if c == nil {
		return nil
	}
	made := extra[len(extra)-1].(*ast.FuncDecl)
	for _, r := range rets {
		r.Results = r.Results[results-1:]
	}
	made.Type.Results = &ast.FieldList{List: []*ast.Field{{Type: id("error")}}}
	made.Body.List = append(made.Body.List, &ast.ReturnStmt{Results: []ast.Expr{id("nil")}})
	var rs []ast.Expr
	if results == 2 {
		rs = append(rs, id("nil"))
	}
	rs = append(rs, id("err"))
	return &ast.IfStmt{Init: &ast.AssignStmt{Lhs: []ast.Expr{id("err")}, Tok: token.DEFINE, Rhs: []ast.Expr{c.(*ast.ExprStmt).X}},
		Cond: &ast.BinaryExpr{X: id("err"), Op: token.NEQ, Y: id("nil")}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ReturnStmt{Results: rs}}}}
}

var leavesHook = leaves

// extractCond: the condition as a function of its own
func extractCond(e ast.Expr, fd *ast.FuncDecl) ast.Expr {
	if t := info.TypeOf(e); t == nil || has(e, func(x ast.Node) bool { _, ok := x.(*ast.FuncLit); return ok }) {
		return nil
	}
	ret := &ast.ReturnStmt{Return: e.Pos(), Results: []ast.Expr{e}}
	leavesHook = func(x ast.Node) bool { return false }
	c := extract([]ast.Stmt{ret}, fd)
	leavesHook = leaves
	if c == nil {
		return nil
	}
	made := extra[len(extra)-1].(*ast.FuncDecl)
	made.Type.Results = &ast.FieldList{List: []*ast.Field{{Type: id("bool")}}}
	return c.(*ast.ExprStmt).X
}

func main() {
	dir := os.Args[1]
	seed, _ := strconv.ParseInt(os.Args[2], 10, 64)
	rnd = rand.New(rand.NewSource(seed))
	prob, _ = strconv.ParseFloat(os.Args[3], 64)
	kinds = os.Args[4]
	only := ""
	if len(os.Args) > 5 {
		only = os.Args[5]
	}
	cfg := &packages.Config{Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo, Dir: dir,
		Env: append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off")}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		panic(err)
	}
	for _, p := range pkgs {
		info, pkgT = p.TypesInfo, p.Types
		for _, f := range p.Syntax {
			name := p.Fset.Position(f.Pos()).Filename
			if only != "" && !strings.Contains(name, only) {
				continue
			}
			extra = nil
			skip := false
			for _, g := range f.Comments {
				for _, c := range g.List {
					if strings.HasPrefix(c.Text, "//go:") {
						skip = true
					}
				}
			}
			if skip {
				continue
			}
			f.Comments = nil
			for _, d := range f.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
					fd.Doc = nil
					rewrite(fd)
				}
			}
			f.Decls = append(f.Decls, extra...)
			// positions would make the printer put things at odd places
			var b bytes.Buffer
			ast.Inspect(f, func(x ast.Node) bool {
				switch y := x.(type) {
				case *ast.GenDecl:
					y.Doc = nil
				case *ast.Field:
					y.Doc, y.Comment = nil, nil
				case *ast.TypeSpec:
					y.Doc, y.Comment = nil, nil
				case *ast.ValueSpec:
					y.Doc, y.Comment = nil, nil
				}
				return true
			})
			if err := format.Node(&b, p.Fset, f); err != nil {
				panic(name + err.Error())
			}
			out, err := format.Source(b.Bytes())
			if err != nil {
				os.WriteFile("/tmp/refac.bad", b.Bytes(), 0644)
				panic(name + err.Error())
			}
			os.WriteFile(name, out, 0644)
		}
	}
	var l []string
	for k, c := range count {
		l = append(l, fmt.Sprintf("%c=%d", k, c))
	}
	sort.Strings(l)
	fmt.Println(strings.Join(l, " "))
}

func rewrite(fd *ast.FuncDecl) {
	lists := func(f func([]ast.Stmt) []ast.Stmt) {
		ast.Inspect(fd.Body, func(x ast.Node) bool {
			switch y := x.(type) {
			case *ast.BlockStmt:
				y.List = f(y.List)
			case *ast.CaseClause:
				y.Body = f(y.Body)
			}
			return true
		})
	}
	// x: extract a run of statements, or the body of an if or a loop, into a function
	// (innermost blocks are met last, so that what is taken out has not been rewritten yet)
	lists(func(ss []ast.Stmt) []ast.Stmt {
		if len(ss) < 2 || !pick('x') {
			return ss
		}
		i := rnd.Intn(len(ss))
		j := i + 1 + rnd.Intn(len(ss)-i)
		if s := extract(ss[i:j:j], fd); s != nil {
			did('x')
			out := append([]ast.Stmt{}, ss[:i]...)
			// a definition used later cannot be taken out
			defined := map[types.Object]bool{}
			for _, t := range ss[i:j] {
				ast.Inspect(t, func(x ast.Node) bool {
					if y, ok := x.(*ast.Ident); ok && info.Defs[y] != nil {
						defined[info.Defs[y]] = true
					}
					return true
				})
			}
			for _, t := range ss[j:] {
				if has(t, func(x ast.Node) bool { y, ok := x.(*ast.Ident); return ok && defined[info.Uses[y]] }) {
					extra = extra[:len(extra)-1]
					count['x']--
					return ss
				}
			}
			return append(append(out, s), ss[j:]...)
		}
		return ss
	})
	results := 0
	if fd.Type.Results != nil {
		for _, r := range fd.Type.Results.List {
			if len(r.Names) > 0 {
				results = -1000
			}
			results++
		}
	}
	lists(func(ss []ast.Stmt) []ast.Stmt {
		if len(ss) < 3 || results < 1 || types.ExprString(fd.Type.Results.List[len(fd.Type.Results.List)-1].Type) != "error" || !pick('y') {
			return ss
		}
		for try := 0; try < 6; try++ {
			i := rnd.Intn(len(ss))
			j := i + 1 + rnd.Intn(len(ss)-i)
			if j-i > 8 || terminates(ss[i:j]) {
				continue
			}
			defined := map[types.Object]bool{}
			for _, t := range ss[i:j] {
				ast.Inspect(t, func(x ast.Node) bool {
					if y, ok := x.(*ast.Ident); ok && info.Defs[y] != nil {
						defined[info.Defs[y]] = true
					}
					return true
				})
			}
			clash := false
			for _, t := range ss[j:] {
				if has(t, func(x ast.Node) bool { y, ok := x.(*ast.Ident); return ok && defined[info.Uses[y]] }) {
					clash = true
				}
			}
			// "x, err = f()" that changes an outer variable is refused by extract; a later "err" would be lost
			if clash {
				continue
			}
			if s := extractErr(ss[i:j:j], fd, results); s != nil {
				did('y')
				out := append([]ast.Stmt{}, ss[:i]...)
				return append(append(out, s), ss[j:]...)
			}
		}
		return ss
	})
	inLit := map[ast.Node]bool{}
	ast.Inspect(fd.Body, func(x ast.Node) bool {
		if l, ok := x.(*ast.FuncLit); ok {
			ast.Inspect(l, func(y ast.Node) bool {
				if y != nil {
					inLit[y] = true
				}
				return true
			})
		}
		return true
	})
	astutil.Apply(fd.Body, nil, func(c *astutil.Cursor) bool {
		switch y := c.Node().(type) {
		case *ast.RangeStmt:
			// l: counted loop
			if y.Tok != token.DEFINE || !pure(y.X) || !pick('l') {
				break
			}
			t := info.TypeOf(y.X)
			if t == nil {
				break
			}
			if _, ok := t.Underlying().(*types.Slice); !ok {
				break
			}
			var k, v *ast.Ident
			if i, ok := y.Key.(*ast.Ident); ok && i.Name != "_" {
				k = i
			}
			if y.Value != nil {
				if i, ok := y.Value.(*ast.Ident); ok && i.Name != "_" {
					v = i
				}
			}
			if has(y.Body, func(x ast.Node) bool {
				a, ok := x.(*ast.AssignStmt)
				if !ok {
					return false
				}
				for _, l := range a.Lhs {
					if types.ExprString(l) == types.ExprString(y.X) || k != nil && types.ExprString(l) == k.Name {
						return true
					}
				}
				return false
			}) {
				break
			}
			name := fresh("i")
			if k != nil {
				name = k.Name
			}
			body := y.Body
			if v != nil {
				body = &ast.BlockStmt{List: append([]ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{id(v.Name)}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.IndexExpr{X: y.X, Index: id(name)}}}}, y.Body.List...)}
			}
			did('l')
			c.Replace(&ast.ForStmt{
				Init: &ast.AssignStmt{Lhs: []ast.Expr{id(name)}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: "0"}}},
				Cond: &ast.BinaryExpr{X: id(name), Op: token.LSS, Y: &ast.CallExpr{Fun: id("len"), Args: []ast.Expr{y.X}}},
				Post: &ast.IncDecStmt{X: id(name), Tok: token.INC}, Body: body})
		case *ast.ForStmt:
			// w: for c {..} as for { if !c { break }; .. }
			if y.Cond != nil && y.Init == nil && y.Post == nil && pick('w') {
				did('w')
				y.Body = &ast.BlockStmt{List: append([]ast.Stmt{&ast.IfStmt{Cond: not(y.Cond), Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}}}, y.Body.List...)}
				y.Cond = nil
			}
		case *ast.IfStmt:
			if _, elseif := c.Parent().(*ast.IfStmt); elseif {
				break
			}
			if b, ok := y.Else.(*ast.BlockStmt); ok && pick('i') {
				did('i')
				y.Cond, y.Body, y.Else = not(y.Cond), b, y.Body
			}
			if y.Init == nil && pick('p') {
				if _, isB := y.Cond.(*ast.BinaryExpr); isB {
					if e := extractCond(y.Cond, fd); e != nil {
						did('p')
						y.Cond = e
						break
					}
				}
			}
			if y.Init == nil && c.Index() >= 0 && pick('t') {
				if _, isId := y.Cond.(*ast.Ident); !isId {
					did('t')
					v := fresh("cond")
					c.InsertBefore(&ast.AssignStmt{Lhs: []ast.Expr{id(v)}, Tok: token.DEFINE, Rhs: []ast.Expr{y.Cond}})
					y.Cond = id(v)
					break
				}
			}
			if y.Else == nil && y.Init == nil && pick('a') {
				if b, ok := y.Cond.(*ast.BinaryExpr); ok && b.Op == token.LAND {
					did('a')
					y.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.IfStmt{Cond: b.Y, Body: y.Body}}}
					y.Cond = b.X
				}
			}
			if y.Init != nil && pick('s') && c.Index() >= 0 {
				did('s')
				in := y.Init
				y.Init = nil
				c.Replace(&ast.BlockStmt{List: []ast.Stmt{in, y}})
			}
		case *ast.SwitchStmt:
			if y.Init != nil || !pick('c') || has(y.Body, branch) || c.Index() < 0 {
				break
			}
			var tag ast.Expr
			var pre []ast.Stmt
			if y.Tag != nil {
				t := id(fresh("tag"))
				pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{y.Tag}})
				tag = t
			}
			var first, last *ast.IfStmt
			var def *ast.BlockStmt
			ok := len(y.Body.List) > 0
			for i, s := range y.Body.List {
				cc := s.(*ast.CaseClause)
				if cc.List == nil {
					if i != len(y.Body.List)-1 {
						ok = false
					}
					def = &ast.BlockStmt{List: cc.Body}
					continue
				}
				var cond ast.Expr
				for _, e := range cc.List {
					var one ast.Expr = e
					if tag != nil {
						one = &ast.BinaryExpr{X: tag, Op: token.EQL, Y: e}
					} else if _, b := e.(*ast.BinaryExpr); b {
						one = &ast.ParenExpr{X: e}
					}
					if cond == nil {
						cond = one
					} else {
						cond = &ast.BinaryExpr{X: cond, Op: token.LOR, Y: one}
					}
				}
				ni := &ast.IfStmt{Cond: cond, Body: &ast.BlockStmt{List: cc.Body}}
				if first == nil {
					first = ni
				} else {
					last.Else = ni
				}
				last = ni
			}
			if !ok || first == nil {
				break
			}
			if def != nil {
				last.Else = def
			}
			did('c')
			if pre == nil {
				c.Replace(first)
			} else {
				c.Replace(&ast.BlockStmt{List: append(pre, first)})
			}
		case *ast.ReturnStmt:
			if c.Index() < 0 || inLit[y] {
				break
			}
			// r: results by way of variables
			if len(y.Results) == 1 && results > 1 && pick('r') {
				if _, ok := y.Results[0].(*ast.CallExpr); ok {
					var l, l2 []ast.Expr
					for i := 0; i < results; i++ {
						v := fresh("r")
						l, l2 = append(l, id(v)), append(l2, id(v))
					}
					did('r')
					call := y.Results[0]
					y.Results = l2
					c.InsertBefore(&ast.AssignStmt{Lhs: l, Tok: token.DEFINE, Rhs: []ast.Expr{call}})
				}
			}
		}
		return true
	})
	// second pass over lists for rewrites that add statements
	astutil.Apply(fd.Body, nil, func(c *astutil.Cursor) bool { return true })
	lists2 := func(f func([]ast.Stmt) []ast.Stmt) {
		astutil.Apply(fd.Body, nil, func(c *astutil.Cursor) bool {
			if inLit[c.Node()] {
				return true
			}
			switch y := c.Node().(type) {
			case *ast.BlockStmt:
				y.List = f(y.List)
			case *ast.CaseClause:
				y.Body = f(y.Body)
			}
			return true
		})
	}
	lists2(func(ss []ast.Stmt) []ast.Stmt {
		var out []ast.Stmt
		for _, s := range ss {
			switch y := s.(type) {
			case *ast.ReturnStmt:
				// v: a returned literal by way of a variable, its fields one by one
				if len(y.Results) > 0 && pick('v') {
					if u, ok := y.Results[0].(*ast.UnaryExpr); ok && u.Op == token.AND {
						if lit, ok := u.X.(*ast.CompositeLit); ok {
							v := fresh("v")
							out = append(out, fill(v, lit)...)
							y.Results[0] = id(v)
							did('v')
						}
					}
				}
			case *ast.AssignStmt:
				if y.Tok == token.DEFINE && len(y.Lhs) == 1 && len(y.Rhs) == 1 && pick('f') {
					if u, ok := y.Rhs[0].(*ast.UnaryExpr); ok && u.Op == token.AND {
						if lit, ok := u.X.(*ast.CompositeLit); ok {
							if i, ok := y.Lhs[0].(*ast.Ident); ok && !has(lit, func(x ast.Node) bool { j, ok := x.(*ast.Ident); return ok && j.Name == i.Name }) {
								out = append(out, fill(i.Name, lit)...)
								did('f')
								continue
							}
						}
					}
				}
			}
			out = append(out, s)
		}
		return out
	})
	// e: if c { return .. } rest  =>  if !c { rest } return ..
	lists2(func(ss []ast.Stmt) []ast.Stmt {
		for i, s := range ss {
			y, ok := s.(*ast.IfStmt)
			if ok && y.Init == nil && y.Else == nil && terminates(y.Body.List) && terminates(ss[i+1:]) && !has(y.Body, branch) && pick('e') {
				did('e')
				out := append([]ast.Stmt{}, ss[:i]...)
				out = append(out, &ast.IfStmt{Cond: not(y.Cond), Body: &ast.BlockStmt{List: append([]ast.Stmt{}, ss[i+1:]...)}})
				return append(out, y.Body.List...)
			}
		}
		return ss
	})
	// n: a statement that does nothing
	if pick('n') {
		did('n')
		fd.Body.List = append([]ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{id("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: "0"}}}}, fd.Body.List...)
	}
}

// fill: the composite literal as a new value and one assignment for each field
func fill(v string, lit *ast.CompositeLit) []ast.Stmt {
	out := []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{id(v)}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.UnaryExpr{Op: token.AND, X: &ast.CompositeLit{Type: lit.Type}}}}}
	for _, e := range lit.Elts {
		kv, ok := e.(*ast.KeyValueExpr)
		if !ok {
			return []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{id(v)}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.UnaryExpr{Op: token.AND, X: lit}}}}
		}
		out = append(out, &ast.AssignStmt{Lhs: []ast.Expr{&ast.SelectorExpr{X: id(v), Sel: kv.Key.(*ast.Ident)}}, Tok: token.ASSIGN, Rhs: []ast.Expr{kv.Value}})
	}
	return out
}
