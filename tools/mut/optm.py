exec(open('/tmp/bm.py').read())
Q='parser/parser_query.go';T='parser/parser_table.go';D='parser/parser_drop.go';A='parser/parser_alter.go';C='parser/parser_column.go';Y='parser/parse_system.go';V='parser/parser_view.go';K='parser/parser_common.go'
P=['P14']
cases=[
('final-join',[(Q,'			HasFinal:     hasFinal,\n			StatementEnd: statementEnd,','			StatementEnd: statementEnd,')],P,1),
('rollup',[(Q,'			groupBy.WithRollup = true','			groupBy.WithCube = true')],P,1),
('ifexists-drop',[(D,'		IfExists:     isExists,\n		OnCluster:    onCluster,\n		Modifier:     modifier,\n		StatementEnd: statementEnd,','		IfExists:     isExists && modifier != "",\n		OnCluster:    onCluster,\n		Modifier:     modifier,\n		StatementEnd: statementEnd,')],P,1),
('ifexists-gone',[(D,'		IfExists:     isExists,\n		OnCluster:    onCluster,\n		Modifier:     modifier,\n		StatementEnd: statementEnd,','		IfExists:     modifier != "",\n		OnCluster:    onCluster,\n		Modifier:     modifier,\n		StatementEnd: statementEnd,'),(D,'	isExists, err := p.tryParseIfExists()\n	if err != nil {\n		return nil, err\n	}\n\n	name, err := p.parseIdent()','	_, err := p.tryParseIfExists()\n	if err != nil {\n		return nil, err\n	}\n\n	name, err := p.parseIdent()')],P,1),
('drop-target',[(D,'		dropTarget = KeywordView\n','		dropTarget = KeywordDictionary\n')],P,1),
('modifier',[(D,'		return "NO DELAY", nil','		return "SYNC", nil')],P,1),
('priv-create',[(Y,'	keywords := []string{KeywordSystem}','	keywords := []string{KeywordShow}')],P,1),
('distinct-arg',[(C,'		Distinct:      distinct,','		Distinct:      distinct && len(items) > 1,')],P,1),
('temporary',[(D,'		isTemporary = p.tryConsumeKeywords(KeywordTemporary)','		_ = p.tryConsumeKeywords(KeywordTemporary)')],P,1),
]
ok=[
('const-rename',[(D,'''	isExists, err := p.tryParseIfExists()
	if err != nil {
		return nil, err
	}

	name, err := p.parseIdent()''','''	hasIf, err := p.tryParseIfExists()
	if err != nil {
		return nil, err
	}
	isExists := false
	if hasIf {
		isExists = true
	}

	name, err := p.parseIdent()''')],P,0),
('switch-if',[(D,'''	switch {
	case p.tryConsumeKeywords(KeywordSync):
		return "SYNC", nil
	case p.tryConsumeKeywords(KeywordNo):
		if err := p.expectKeyword(KeywordDelay); err != nil {
			return "", err
		}
		return "NO DELAY", nil
	}
	return "", nil''','''	if p.matchKeyword(KeywordSync) {
		_ = p.lexer.consumeToken()
		return "SYNC", nil
	}
	if !p.tryConsumeKeywords(KeywordNo) {
		return "", nil
	}
	if err := p.expectKeyword(KeywordDelay); err != nil {
		return "", err
	}
	modifier := "NO DELAY"
	return modifier, nil''')],P,0),
('helper-with',[(Q,'''		switch {
		case p.tryConsumeKeywords(KeywordCube):
			groupBy.WithCube = true
		case p.tryConsumeKeywords(KeywordRollup):
			groupBy.WithRollup = true
		case p.tryConsumeKeywords(KeywordTotals):
			groupBy.WithTotals = true
		default:
			return nil, fmt.Errorf("expected CUBE, ROLLUP or TOTALS, got %s", p.currentTokenKind())
		}
''','''		if err := p.parseGroupByModifier(groupBy); err != nil {
			return nil, err
		}
'''),(Q,None,'''
func (p *Parser) parseGroupByModifier(groupBy *GroupByClause) error {
	switch {
	case p.tryConsumeKeywords(KeywordCube):
		groupBy.WithCube = true
	case p.tryConsumeKeywords(KeywordRollup):
		groupBy.WithRollup = true
	case p.tryConsumeKeywords(KeywordTotals):
		groupBy.WithTotals = true
	default:
		return fmt.Errorf("expected CUBE, ROLLUP or TOTALS, got %s", p.currentTokenKind())
	}
	return nil
}
''')],P,0),
('helper-with-keyword',[(Q,'''		switch {
		case p.tryConsumeKeywords(KeywordCube):
			groupBy.WithCube = true
		case p.tryConsumeKeywords(KeywordRollup):
			groupBy.WithRollup = true
		case p.tryConsumeKeywords(KeywordTotals):
			groupBy.WithTotals = true
		default:
			return nil, fmt.Errorf("expected CUBE, ROLLUP or TOTALS, got %s", p.currentTokenKind())
		}
''','''		kw := p.currentTokenString()
		_ = p.lexer.consumeToken()
		switch strings.ToUpper(kw) {
		case KeywordCube:
			groupBy.WithCube = true
		case KeywordRollup:
			groupBy.WithRollup = true
		case KeywordTotals:
			groupBy.WithTotals = true
		default:
			return nil, fmt.Errorf("expected CUBE, ROLLUP or TOTALS, got %s", p.currentTokenKind())
		}
''')],P,0),
('helper-with-keyword-bug',[(Q,'''		switch {
		case p.tryConsumeKeywords(KeywordCube):
			groupBy.WithCube = true
		case p.tryConsumeKeywords(KeywordRollup):
			groupBy.WithRollup = true
		case p.tryConsumeKeywords(KeywordTotals):
			groupBy.WithTotals = true
		default:
			return nil, fmt.Errorf("expected CUBE, ROLLUP or TOTALS, got %s", p.currentTokenKind())
		}
''','''		kw := p.currentTokenString()
		_ = p.lexer.consumeToken()
		switch strings.ToUpper(kw) {
		case KeywordCube:
			groupBy.WithCube = true
		case KeywordRollup:
			groupBy.WithCube = true
		case KeywordTotals:
			groupBy.WithTotals = true
		default:
			return nil, fmt.Errorf("expected CUBE, ROLLUP or TOTALS, got %s", p.currentTokenKind())
		}
''')],P,1),
('paren-helper',[(C,'	distinct := p.tryConsumeKeywords(KeywordDistinct)\n','	distinct := p.readDistinct()\n'),(C,None,'''
func (p *Parser) readDistinct() bool {
	if p.matchKeyword(KeywordDistinct) {
		_ = p.lexer.consumeToken()
		return true
	}
	return false
}
''')],P,0),
('final-inline',[(Q,'''		hasFinal := p.matchKeyword(KeywordFinal)
		if hasFinal {
			statementEnd = p.End()
			_ = p.lexer.consumeToken()
		}
''','''		finalEnd := p.End()
		hasFinal := p.tryConsumeKeywords(KeywordFinal)
		if hasFinal {
			statementEnd = finalEnd
		}
''')],P,0),
('lifetime-swap',[(T,'			lifetime.Min = first\n			lifetime.Max = second\n		} else {\n			lifetime.Min = second\n			lifetime.Max = first','			lifetime.Min = first\n			lifetime.Max = second\n		} else {\n			lifetime.Min = first\n			lifetime.Max = second')],P,1),
('createdb-using-skip',[(T,'		IfNotExists:  ifNotExists,\n',''),(T,'	ifNotExists, err := p.tryParseIfNotExists()\n	if err != nil {\n		return nil, err\n	}\n	// parse database name','	_, err := p.tryParseIfNotExists()\n	if err != nil {\n		return nil, err\n	}\n	// parse database name')],P,1),
('accept-outer',[(C,'	distinct := p.tryConsumeKeywords(KeywordDistinct)\n','	if !p.tryConsumeKeywords(KeywordAll) {\n		_ = 0\n	}\n	distinct := p.tryConsumeKeywords(KeywordDistinct)\n')],P,1),
]
import sys
run(cases+ok,sys.argv[1:])
