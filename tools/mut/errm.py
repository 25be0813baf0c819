import sys; sys.path.insert(0,'/tmp')
from bm import run
E='parser/error.go'; S='parser/source.go'; C='parser/parser_common.go'; T='parser/parser_table.go'
cases=[
('raw1',[(T,'''		if err := p.lexer.consumeToken(); err != nil {
			return nil, p.wrapError(err)''','''		if err := p.lexer.consumeToken(); err != nil {
			return nil, err''')],['P18'],1),
('raw2',[(T,'''		if err != nil {
			return nil, p.wrapError(err)
		}
		stmts''','''		if err != nil {
			return nil, err
		}
		stmts''')],['P18'],1),
('wrapearly',[(C,'''	if !errors.As(err, &pe) {
		pe =''','''	if errors.As(err, &pe) {
		return pe
	} else {
		pe =''')],['P18'],1),
('nostarts',[(C,'	pe.starts = p.lineStarts()\n','')],['P18'],1),
('col-swap',[(C,'pe.Line, pe.Column = p','pe.Column, pe.Line = p')],['P18'],1),
('ge',[(S,'return s[i] > offset','return s[i] >= offset')],['P18'],1),
('col0',[(S,'return i + 1, offset - s[i] + 1','return i + 1, offset - s[i]')],['P18'],1),
('line0',[(S,'return i + 1, offset - s[i] + 1','return i, offset - s[i] + 1')],['P18'],1),
('cr',[(S,"input[i] == '\\n'","input[i] == '\\r'")],['P18'],1),
('nl0',[(S,'starts = append(starts, i+1)','starts = append(starts, i)')],['P18'],1),
('lastnl',[(S,'i < len(input); i++','i < len(input)-1; i++')],['P18'],1),
('extra',[(S,"if input[i] == '\\n' {","if input[i] == '\\n' && (i == 0 || input[i-1] != '\\r') {")],['P18'],1),
('noguard',[(S,"if end > start && input[end-1] == '\\r' {","if input[end-1] == '\\r' {")],['P18'],1),
('end+0',[(S,'end = s[line] - 1 //','end = s[line] - 2 //')],['P18'],1),
('linele',[(S,'if line < 1 || line > len(s) {','if line < 1 {')],['P18'],1),
('linelt',[(S,'if line < len(s) {','if line <= len(s) {')],['P18'],1),
('nopos',[(C,'''		return &ParseError{
			Pos:     p.Pos(),
''','''		return &ParseError{
''')],['P18'],1),
('end+1',[(C,'''		return &ParseError{
			Pos:     p.Pos(),
''','''		return &ParseError{
			Pos:     p.Pos() + 1,
''')],['P18'],1),
('pEnd',[(C,'''			Pos: p.Pos(),
			Got: p.current(),
			Msg''','''			Pos: p.End(),
			Got: p.current(),
			Msg''')],['P18'],1),
('width',[(E,'''	width := 1
	if e.Got != nil && len(e.Got.String) > width {
		width = len(e.Got.String)
	}''','''	width := 1
	if e.Got != nil {
		width = int(e.Got.End - e.Got.Pos)
	}''')],['P18'],1),
('gotnil',[(E,'if e.Got != nil && len','if len')],['P18'],1),
('tokdesc',[(E,'''	if t == nil {
		return string(TokenKindEOF)
	}
''','')],['P18'],1),
('exp0',[(E,'case len(e.Expected) == 1:','case len(e.Expected) <= 1:')],['P18'],1),
# harmless
('h-inline',[(T,'''		if err != nil {
			return nil, p.wrapError(err)
		}
		stmts''','''		if err != nil {
			wrapped := p.wrapError(err)
			return nil, wrapped
		}
		stmts''')],['P18'],0),
('h-helper',[(C,'''	pe.input = p.lexer.input
	pe.starts = p.lineStarts()
	return pe
}
''','''	p.attach(pe)
	return pe
}

func (p *Parser) attach(pe *ParseError) {
	pe.input = p.lexer.input
	pe.starts = p.lineStarts()
}
''')],['P18'],0),
('h-range',[(S,'''	for i := 0; i < len(input); i++ {
		if input[i] == '\\n' {''','''	for i := range input {
		if input[i] == '\\n' {''')],['P18'],0),
('h-range2',[(S,'''	for i := 0; i < len(input); i++ {
		if input[i] == '\\n' {''','''	for i, c := range input {
		if c == '\\n' {''')],['P18'],0),
('h-continue',[(S,'''		if input[i] == '\\n' {
			starts = append(starts, i+1)
		}
''','''		if input[i] != '\\n' {
			continue
		}
		starts = append(starts, i+1)
''')],['P18'],0),
('h-lin',[(S,'''	i := sort.Search(len(s), func(i int) bool {
		return s[i] > offset
	}) - 1
	if i < 0 {
		i = 0
	}
''','''	_ = sort.Search
	i := 0
	for i+1 < len(s) && s[i+1] <= offset {
		i++
	}
''')],['P18'],0),
('h-idx',[(S,'''	}) - 1
	if i < 0 {
		i = 0
	}
	return i + 1,''','''	})
	if i > 0 {
		i--
	}
	return i + 1,''')],['P18'],0),
('h-named',[(S,'	return i + 1, offset - s[i] + 1','	line = i + 1\n	col = 1 + offset - s[line-1]\n	return')],['P18'],0),
('h-repeat',[(E,'''	for i := 1; i < e.Column; i++ {
		b.WriteByte(' ')
	}
''','''	b.WriteString(strings.Repeat(" ", e.Column-1))
''')],['P18'],0),
('h-max',[(E,'''	width := 1
	if e.Got != nil && len(e.Got.String) > width {
		width = len(e.Got.String)
	}''','''	width := 1
	if e.Got != nil {
		width = max(width, len(e.Got.String))
	}''')],['P18'],0),
('h-trim',[(S,'''	if end > start && input[end-1] == '\\r' {
		end-- // exclude a '\\r' from a '\\r\\n' terminator
	}
	return input[start:end]''','''	return strings.TrimSuffix(input[start:end], "\\r")'''),(S,'import "sort"','import (\n	"sort"\n	"strings"\n)')],['P18'],0),
('h-defer',[(T,'''		stmt, err := p.parseStmt(p.Pos())
		if err != nil {
			return nil, p.wrapError(err)
		}
''','''		stmt, err := p.parseStmt(p.Pos())
		if err != nil {
			err = p.wrapError(err)
			return nil, err
		}
''')],['P18'],0),
('h-split',[(T,'''func (p *Parser) ParseStmts() ([]Expr, error) {
	var stmts []Expr''','''func (p *Parser) ParseStmts() ([]Expr, error) {
	stmts, err := p.stmts()
	if err != nil {
		return nil, p.wrapError(err)
	}
	return stmts, nil
}

func (p *Parser) stmts() ([]Expr, error) {
	var stmts []Expr'''),(T,'''		if err := p.lexer.consumeToken(); err != nil {
			return nil, p.wrapError(err)''','''		if err := p.lexer.consumeToken(); err != nil {
			return nil, err'''),(T,'''		if err != nil {
			return nil, p.wrapError(err)
		}
		stmts''','''		if err != nil {
			return nil, err
		}
		stmts''')],['P18'],0),
('h-new',[(C,'''		return &ParseError{
			Pos:     p.Pos(),
			Got:     p.current(),
			Keyword: keyword,
		}
''','''		return p.newError(keyword)
'''),(C,None,'''
func (p *Parser) newError(keyword string) *ParseError {
	e := &ParseError{Got: p.current(), Keyword: keyword}
	e.Pos = p.Pos()
	return e
}
''')],['P18'],0),
]
run(cases, sys.argv[1] if len(sys.argv)>1 else None)
