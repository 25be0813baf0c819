exec(open('/tmp/optm.py').read().split('import sys\nrun(')[0])
cases2=[
('ties',[(Q,'		WithTies: withTies,\n','		WithTies: withTies && topEnd > 0 && number.Base == 10,\n')],P,1),
('between-not',[(C,'		return p.parseBetweenClause(expr, false)','		return p.parseBetweenClause(expr, true)')],P,1),
('order-dir',[(T,'		direction = OrderDirectionDesc\n','		direction = OrderDirectionAsc\n')],P,1),
('detached',[('parser/parser_alter.go','		hasDetached = true\n','		hasDetached = false\n')],P,1),
('security',[(V,'		createMaterializedView.SQLSecurity = p.current().String\n','		createMaterializedView.SQLSecurity = KeywordDefiner\n')],P,1),
('freq',[(V,'	refreshExpr.Frequency = p.current().String\n','	refreshExpr.Frequency = KeywordEvery\n')],P,1),
('refresh-off',[(V,'		refreshExpr.Offset = offset\n','		if refreshExpr.Frequency != KeywordAfter {\n			refreshExpr.Offset = offset\n		}\n')],P,1),
('orreplace-view',[(V,'&CreateView{CreatePos: pos, OrReplace: orReplace}','&CreateView{CreatePos: pos}')],P,1),
('orreplace-fn',[(T,'			return p.parseCreateFunction(pos, orReplace)','			return p.parseCreateFunction(pos, false)')],P,1),
('global-not',[(C,'			HasNot:    hasNot,\n','			HasNot:    hasNot && precedence > 0,\n')],P,1),
('total-drop',[(Q,'		withTotal = true\n		statementEnd = totalsEnd','		withTotal = groupBy != nil\n		statementEnd = totalsEnd')],P,1),
('union-swap',[(Q,'			selectStmt.UnionDistinct = unionDistinctExpr','			selectStmt.UnionAll = unionDistinctExpr')],P,1),
('locality',[(Q,'	savedState := p.lexer.saveState()\n	locality := p.current()\n	_ = p.lexer.consumeToken()\n\n	joinType := p.parseJoinType(p.Pos())','	savedState := p.lexer.saveState()\n	locality := p.current()\n	_ = p.lexer.consumeToken()\n\n	joinType := p.parseJoinType(p.Pos())\n	if len(joinType) > 2 {\n		return joinType, nil\n	}')],P,1),
('uuid',[(V,'	createView.UUID = uuid\n','	if createView.IfNotExists {\n		createView.UUID = uuid\n	}\n')],P,1),
# refactors
('r-dir-helper',[(T,'''	direction := OrderDirectionNone
	switch {
	case p.matchKeyword(KeywordAsc), p.matchKeyword(KeywordAscending):
		direction = OrderDirectionAsc
		_ = p.lexer.consumeToken()
	case p.matchKeyword(KeywordDesc), p.matchKeyword(KeywordDescending):
		direction = OrderDirectionDesc
		_ = p.lexer.consumeToken()
	}
''','''	direction := p.parseOrderDirection()
'''),(T,None,'''
func (p *Parser) parseOrderDirection() OrderDirection {
	if p.matchOneOfKeywords(KeywordAsc, KeywordAscending) {
		_ = p.lexer.consumeToken()
		return OrderDirectionAsc
	}
	if p.matchOneOfKeywords(KeywordDesc, KeywordDescending) {
		_ = p.lexer.consumeToken()
		return OrderDirectionDesc
	}
	return OrderDirectionNone
}
''')],P,0),
('r-refresh',[(V,'''	refreshExpr.Frequency = p.current().String
	_ = p.lexer.consumeToken()
''','''	frequency := p.current()
	_ = p.lexer.consumeToken()
	refreshExpr.Frequency = frequency.String
'''),(V,'''	refreshExpr.Interval = interval

	// [OFFSET interval]
	if p.tryConsumeKeywords(KeywordOffset) {
		offset, err := p.parseInterval(false)
		if err != nil {
			return nil, err
		}
		refreshExpr.Offset = offset
	}

	return refreshExpr, nil''','''	refreshExpr.Interval = interval

	// [OFFSET interval]
	if !p.tryConsumeKeywords(KeywordOffset) {
		return refreshExpr, nil
	}
	refreshExpr.Offset, err = p.parseInterval(false)
	if err != nil {
		return nil, err
	}
	return refreshExpr, nil''')],P,0),
('r-top',[(Q,'''	withTies := false
	if p.tryConsumeKeywords(KeywordWith) {
		topEnd = p.End()
		if err := p.expectKeyword(KeywordTies); err != nil {
			return nil, err
		}
		withTies = true
	}
	return &TopClause{
		TopPos:   pos,
		TopEnd:   topEnd,
		Number:   number,
		WithTies: withTies,
	}, nil''','''	top := &TopClause{TopPos: pos, TopEnd: topEnd, Number: number}
	if !p.matchKeyword(KeywordWith) {
		return top, nil
	}
	if err := p.expectKeyword(KeywordWith); err != nil {
		return nil, err
	}
	top.TopEnd = p.End()
	if err := p.expectKeyword(KeywordTies); err != nil {
		return nil, err
	}
	top.WithTies = true
	return top, nil''')],P,0),
('r-ddl',[(T,'''		orReplace := p.tryConsumeKeywords(KeywordOr, KeywordReplace)
		if orReplace && !p''','''		var orReplace bool
		if p.matchKeyword(KeywordOr) {
			orReplace = p.tryConsumeKeywords(KeywordOr, KeywordReplace)
		}
		if orReplace && !p''')],P,0),
('r-union-fn',[(Q,'''	case p.tryConsumeKeywords(KeywordUnion):
		switch {
		case p.tryConsumeKeywords(KeywordAll):
			unionAllExpr, err := p.parseSelectQuery(p.Pos())
			if err != nil {
				return nil, err
			}
			selectStmt.UnionAll = unionAllExpr
		case p.tryConsumeKeywords(KeywordDistinct):
			unionDistinctExpr, err := p.parseSelectQuery(p.Pos())
			if err != nil {
				return nil, err
			}
			selectStmt.UnionDistinct = unionDistinctExpr
		default:
			return nil, fmt.Errorf("expected ALL or DISTINCT, got %s", p.currentTokenKind())
		}
''','''	case p.tryConsumeKeywords(KeywordUnion):
		isAll := p.tryConsumeKeywords(KeywordAll)
		if !isAll && !p.tryConsumeKeywords(KeywordDistinct) {
			return nil, fmt.Errorf("expected ALL or DISTINCT, got %s", p.currentTokenKind())
		}
		operand, err := p.parseSelectQuery(p.Pos())
		if err != nil {
			return nil, err
		}
		if isAll {
			selectStmt.UnionAll = operand
		} else {
			selectStmt.UnionDistinct = operand
		}
''')],P,0),
]
import sys
run(cases2,sys.argv[1:])
