exec(open('/tmp/bm.py').read())
F='parser/format.go'
W='''	if f.mode == FormatModeBeautify {
		f.writeIndentIfNeeded()
		f.lineStart = s[len(s)-1] == newline
	}
	f.builder.WriteString(s)
'''
cases=[
# bugs
('trim',[(F,W,W.replace('WriteString(s)','WriteString(strings.TrimRight(s, " "))'))],['P13'],1),
('oldloop',[(F,W,'''	for i := 0; i < len(s); i++ {
		f.WriteByte(s[i])
	}
''')],['P13'],1),
('trailing',[(F,'	f.builder.WriteString(s)\n}','	f.builder.WriteString(s)\n	if f.mode == FormatModeBeautify && s[len(s)-1] == \',\' {\n		f.builder.WriteByte(newline)\n		f.lineStart = true\n	}\n}')],['P13'],1),
('runes',[(F,'	f.builder.WriteString(s)\n}','	for _, c := range s {\n		f.builder.WriteRune(c)\n	}\n}')],['P13'],1),
('skipcr',[(F,'	f.builder.WriteString(s)\n}','	for i := 0; i < len(s); i++ {\n		if s[i] == \'\\r\' {\n			continue\n		}\n		f.builder.WriteByte(s[i])\n	}\n}')],['P13'],1),
('wrongquote',[(F,"""		formatter.WriteByte('"')
		formatter.WriteString(i.Name)""","""		formatter.WriteByte('`')
		formatter.WriteString(i.Name)""")],['P13'],1),
('both-quotes',[(F,"""	case DoubleQuote:
		formatter.WriteByte('"')
		formatter.WriteString(i.Name)
		formatter.WriteByte('"')
""","""	case DoubleQuote:
		formatter.WriteByte('`')
		formatter.WriteString(i.Name)
		formatter.WriteByte('`')
""")],['P13'],1),
('space-in-quote',[(F,"""	formatter.WriteByte('\\'')
	formatter.WriteString(s.Literal)""","""	formatter.WriteString("'")
	formatter.WriteByte(whitespace)
	formatter.WriteString(s.Literal)""")],['P13'],1),
('glued-totals',[(F,'''	if g.WithTotals {
		formatter.Break()
''','''	if g.WithTotals {
		formatter.NewLine()
''')],['P13'],1),
('drop-in-beautify',[(F,'''	if g.WithRollup {
		formatter.Break()''','''	if g.WithRollup && !(g.WithTotals && formatter.mode == FormatModeBeautify) {
		formatter.Break()''')],['P13'],1),
('not-in-beautify',[(F,'''		formatter.NewLine()
		p.writeOperatorPrefix(formatter)''','''		formatter.NewLine()''')],['P13'],1),
('lexquote',[('parser/lexer.go','''			quoteType = BackTicks
		} else {
			quoteType = DoubleQuote''','''			quoteType = BackTicks
		} else {
			quoteType = BackTicks''')],['P13'],1),
('ident-noquote',[('parser/parser_common.go','''		Name:      last.String,
		QuoteType: last.QuoteType,''','''		Name:      last.String,
		QuoteType: Unquoted,''')],['P13'],1),
('string-ident',[('parser/parser_common.go','QuoteType: SingleQuote, // Treat','QuoteType: Unquoted, // Treat')],['P13'],1),
('break-tab',[(F,'		f.NewLine()\n		return\n	}\n	f.WriteByte(whitespace)','		f.NewLine()\n		return\n	}\n	f.WriteByte(newline)')],['P13'],0),
# refactorings
('helper',[(F,W,'''	f.put(s)
'''),(F,'func (f *Formatter) WriteByte','''func (f *Formatter) beautify() bool { return f.mode == FormatModeBeautify }

func (f *Formatter) put(text string) {
	if !f.beautify() {
		f.builder.WriteString(text)
		return
	}
	f.writeIndentIfNeeded()
	f.lineStart = text[len(text)-1] == newline
	f.builder.WriteString(text)
}

func (f *Formatter) WriteByte''')],['P13'],0),
('bytewise',[(F,'	f.builder.WriteString(s)\n}','	for i := 0; i < len(s); i++ {\n		f.builder.WriteByte(s[i])\n	}\n}')],['P13'],0),
('bytes',[(F,'	f.builder.WriteString(s)\n}','	for _, c := range []byte(s) {\n		f.builder.WriteByte(c)\n	}\n}')],['P13'],0),
('nonempty',[(F,'''	if s == "" {
		return
	}
''',''),(F,W,'''	if len(s) > 0 {
		if f.mode == FormatModeBeautify {
			f.writeIndentIfNeeded()
			f.lineStart = s[len(s)-1] == newline
		}
		f.builder.WriteString(s)
	}
''')],['P13'],0),
('quote-map',[(F,'''	switch i.QuoteType {
	case BackTicks:
		formatter.WriteByte('`')
		formatter.WriteString(i.Name)
		formatter.WriteByte('`')
	case DoubleQuote:
		formatter.WriteByte('"')
		formatter.WriteString(i.Name)
		formatter.WriteByte('"')
	case SingleQuote:
		formatter.WriteByte('\\'')
		formatter.WriteString(i.Name)
		formatter.WriteByte('\\'')
	default:
		formatter.WriteString(i.Name)
	}
}
''','''	quote := i.quote()
	formatter.WriteString(quote)
	formatter.WriteString(i.Name)
	formatter.WriteString(quote)
}

func (i *Ident) quote() string {
	switch i.QuoteType {
	case BackTicks:
		return "`"
	case DoubleQuote:
		return "\\""
	case SingleQuote:
		return "'"
	}
	return ""
}
''')],['P13'],0),
('newident',[('parser/parser_common.go','''	return &Ident{
		NamePos:   last.Pos,
		NameEnd:   last.End,
		Name:      last.String,
		QuoteType: last.QuoteType,
	}, nil''','''	return newIdent(last), nil'''),('parser/parser_common.go','func (p *Parser) parseIdent() (*Ident, error) {','''func newIdent(t *Token) *Ident {
	return &Ident{NamePos: t.Pos, NameEnd: t.End, Name: t.String, QuoteType: t.QuoteType}
}

func (p *Parser) parseIdent() (*Ident, error) {''')],['P13'],0),
('newstring',[('parser/parser_common.go','''	str := &StringLiteral{
		LiteralPos: pos,
		LiteralEnd: curToken.End,
		Literal:    curToken.String,
	}
	return str, nil''','''	return newString(pos, curToken), nil'''),('parser/parser_common.go','func (p *Parser) parseIdent() (*Ident, error) {','''func newString(pos Pos, t *Token) *StringLiteral {
	return &StringLiteral{LiteralPos: pos, LiteralEnd: t.End, Literal: t.String}
}

func (p *Parser) parseIdent() (*Ident, error) {''')],['P13'],0),
('write-join',[(F,'''	for i, privilege := range g.Privileges {
		if i > 0 {
			formatter.WriteString(", ")
		}
		formatter.WriteExpr(privilege)
	}
	formatter.WriteString(" ON ")''','''	sep := ""
	for _, privilege := range g.Privileges {
		formatter.WriteString(sep)
		formatter.WriteExpr(privilege)
		sep = ", "
	}
	formatter.WriteString(" ON ")''')],['P13'],0),
]
run(cases, sys.argv[1:])
