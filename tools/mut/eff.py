import sys; sys.path.insert(0,'/tmp')
from bm import run
F='parser/format.go'; W='parser/walk.go'; A='parser/ast.go'; C='parser/parser_common.go'; L='parser/lexer.go'
SC='''	formatter.WriteString("SETTINGS")
	formatter.Indent()
	for i, item := range s.Items {'''
cs=[
('sort-settings',[(F,SC,SC.replace('	for i,','	sort.Slice(s.Items, func(i, j int) bool { return s.Items[i].Pos() < s.Items[j].Pos() })\n	for i,')),(F,'import "strings"','import ("strings"; "sort")')],['P15'],1),
('sort-copy',[(F,SC,SC.replace('	for i,','	its := append([]*SettingExpr(nil), s.Items...)\n	sort.Slice(its, func(i, j int) bool { return its[i].Pos() < its[j].Pos() })\n	for i,')),(F,'import "strings"','import ("strings"; "sort")')],['P15'],0),
('cache-end',[(A,'''func (s *SelectQuery) End() Pos {
''','''func (s *SelectQuery) End() Pos {
	if s.StatementEnd == 0 { s.StatementEnd = s.SelectPos }
''')],['P15'],1),
('tmp-field',[(F,'	formatter.WriteExpr(a.Expr)\n	}\n	formatter.WriteString(" AS ")','	formatter.WriteExpr(a.Expr)\n	}\n	o := a.AliasPos; a.AliasPos = 0; defer func() { a.AliasPos = o }()\n	formatter.WriteString(" AS ")')],['P15'],1),
('global-formatter',[(F,'''	formatter := NewFormatter()
	formatter.WriteExpr(expr)
	return''','''	formatter := shared
	formatter.builder.Reset()
	formatter.WriteExpr(expr)
	return'''),(F,None,'\nvar shared = NewFormatter()\n')],['P15'],1),
('pool-formatter',[(F,'''	formatter := NewFormatter()
	formatter.WriteExpr(expr)
	return''','''	formatter := pool.Get().(*Formatter)
	defer pool.Put(formatter)
	formatter.builder.Reset()
	formatter.WriteExpr(expr)
	return'''),(F,'import "strings"','import ("strings"; "sync")'),(F,None,'\nvar pool = sync.Pool{New: func() any { return NewFormatter() }}\n')],['P15'],1),
('global-depth',[(C,'func (p *Parser) currentTokenKind() TokenKind {','var depth int\n\nfunc (p *Parser) currentTokenKind() TokenKind {\n	depth++')],['P15'],1),
('keyword-cache',[(L,'	return keywords.Contains(ident)','	if !keywords.Contains(ident) { keywords.Add(ident); return false }\n	return true')],['P15'],1),
('append-walk',[(W,'		for _, item := range n.SelectItems {\n			if !Walk(item, fn)','		all := append(n.SelectItems, nil)\n		for _, item := range all[:len(n.SelectItems)] {\n			if !Walk(item, fn)')],['P15'],1),
('copy-struct',[(F,'	formatter.WriteExpr(a.Expr)\n	}\n	formatter.WriteString(" AS ")','	formatter.WriteExpr(a.Expr)\n	}\n	c := *a; c.AliasPos = 0; a = &c\n	formatter.WriteString(" AS ")')],['P15'],0),
('stack-helper',[(W,'func Walk(node Expr, fn WalkFunc) bool {','''type wstack struct{ nodes []Expr; n int }
func (w *wstack) push(e Expr) { w.nodes = append(w.nodes, e); w.n++ }
func (w *wstack) set(e Expr) { w.nodes[0] = e; w.nodes = w.nodes[:1] }
func Depth(node Expr) int { w := &wstack{}; w.push(node); w.set(node); m := map[Expr]bool{}; m[node] = true; return w.n }
func Walk(node Expr, fn WalkFunc) bool {''')],['P15'],0),
('map-range',[(C,'	for _, kind := range kinds {\n		if cur == kind','	m := map[TokenKind]int{}\n	for i, k := range kinds { m[k] = i }\n	for kind := range m {\n		if cur == kind')],['P15'],0),
('map-range-out',[(F,SC,'''	m := map[string]*SettingExpr{}
	for _, it := range s.Items { m[it.Name.Name] = it }
	items := make([]*SettingExpr, 0)
	for _, it := range m { items = append(items, it) }
'''+SC.replace('s.Items','items'))],['P15'],1),
('map-range-sorted',[(F,SC,'''	m := map[int]*SettingExpr{}
	for i, it := range s.Items { m[i] = it }
	ks := make([]int, 0)
	for k := range m { ks = append(ks, k) }
	sort.Ints(ks)
	items := make([]*SettingExpr, 0)
	for _, k := range ks { items = append(items, m[k]) }
'''+SC.replace('s.Items','items')),(F,'import "strings"','import ("strings"; "sort")')],['P15'],0),
('debug-print',[(L,'	return keywords.Contains(ident)','	if len(ident) > 100 { println(ident) }\n	return keywords.Contains(ident)')],['P16'],1),
('fprint-stderr',[(C,'	if p.lines == nil {','	if p.lines == nil {\n		fmt.Fprintln(os.Stderr, "x")'),(C,'	"fmt"','	"fmt"; "os"')],['P16'],1),
('log',[(C,'	if p.lines == nil {','	if p.lines == nil {\n		log.Printf("x")'),(C,'	"fmt"','	"fmt"; "log"')],['P16'],1),
('go',[(C,'	if p.lines == nil {\n		p.lines = newLineStarts(p.lexer.input)','	if p.lines == nil {\n		c := make(chan lineStarts)\n		go func() { c <- newLineStarts(p.lexer.input) }()\n		p.lines = <-c')],['P16'],1),
('exit',[(C,'	if p.lines == nil {','	if p.lines == nil {\n		if len(p.lexer.input) > 1<<30 { os.Exit(3) }'),(C,'	"fmt"','	"fmt"; "os"')],['P16'],1),
('bytesbuf',[(C,'	if p.lines == nil {','	if p.lines == nil {\n		var bb bytes.Buffer; fmt.Fprintf(&bb, "x"); _ = bb.String()'),(C,'	"fmt"','	"fmt"; "bytes"')],['P16','P15'],0),
('memo-global-map',[(F,'	return formatter.String()\n}','	s := formatter.String()\n	memo[expr] = s\n	return s\n}\nvar memo = map[Expr]string{}\n')],['P15'],1),
('rand',[(F,'	formatter.WriteString("SETTINGS")','	if rand.Intn(9) == 3 { formatter.Break() }\n	formatter.WriteString("SETTINGS")'),(F,'import "strings"','import ("strings"; "math/rand")')],['P15'],1),
('print-addr',[(C,'Got:      p.current(),','Got:      p.current(), Msg: fmt.Sprintf("%v", p),')],['P15'],1),
('intervalUnits-local',[('parser/parser_column.go','func (p *Parser) parseInterval','''var units2 = map[string]bool{"A": true}
func lookup2(s string) bool { for u := range units2 { if strings.EqualFold(u, s) { return true } }; return false }
func (p *Parser) Use2() bool { return lookup2(p.currentTokenString()) }
func (p *Parser) parseInterval''')],['P15'],0),
]
run(cs, sys.argv[1] if len(sys.argv)>1 else None)
