import sys; sys.path.insert(0,'/tmp')
from bm import run
T='parser/parser_table.go';D='parser/parser_drop.go';C='parser/parser_column.go';Q='parser/parser_query.go';A='parser/ast.go'
cases=[
('drop-end-slot',[(D,'''		Modifier:     modifier,
		StatementEnd: p.Pos(),
	}, nil
}

func (p *Parser) tryParseModifier''','''		Modifier:     modifier,
	}, nil
}

func (p *Parser) tryParseModifier''')],['P17'],1),
('cluster-stmt-pos',[(D,'''	onCluster, err := p.tryParseClusterClause(p.Pos())
	if err != nil {
		return nil, err
	}

	modifier''','''	onCluster, err := p.tryParseClusterClause(pos)
	if err != nil {
		return nil, err
	}

	modifier''')],['P17'],1),
('pos-after-kw',[(T,'''		OnPos: pos,
		Expr:  expr,''','''		OnPos: p.Pos(),
		Expr:  expr,''')],['P17'],1),
('const',[(D,'''		StatementEnd: p.Pos(),
	}, nil
}

func (p *Parser) tryParseModifier''','''		StatementEnd: pos + 4,
	}, nil
}

func (p *Parser) tryParseModifier''')],['P17'],1),
('end-is-start',[(D,'''		StatementEnd: p.Pos(),
	}, nil
}

func (p *Parser) tryParseModifier''','''		StatementEnd: pos,
	}, nil
}

func (p *Parser) tryParseModifier''')],['P17'],1),
('use-stmt-end-unset',[(T,'''		UsePos:       pos,
		Database:     database,
		StatementEnd: database.End(),''','''		UsePos:       pos,
		Database:     database,''')],['P17'],1),
('use-end-start',[(T,'StatementEnd: database.End(),','StatementEnd: database.Pos(),')],['P17'],1),
('settings-list-end',[(T,'''	settings.ListEnd = items[len(items)-1].End()
	settings.Items = items''','''	if len(items) > 1 {
		settings.ListEnd = items[len(items)-1].End()
	}
	settings.Items = items''')],['P17'],1),
('settings-list-end-first',[(T,'''	settings.ListEnd = items[len(items)-1].End()
	settings.Items = items''','''	settings.ListEnd = items[0].End()
	settings.Items = items''')],['P17'],1),
('rparen-after',[(C,'''	rightParenPos := p.Pos()
	if err := p.expectTokenKind(TokenKindRParen); err != nil {
		return nil, err
	}
	paramExprList''','''	if err := p.expectTokenKind(TokenKindRParen); err != nil {
		return nil, err
	}
	rightParenPos := p.Pos()
	paramExprList''')],['P17'],1),
('len-text',[(D,'''		DropPos:      pos,
		DropTarget:   dropTarget,''','''		DropPos:      Pos(len(dropTarget)),
		DropTarget:   dropTarget,''')],['P17'],1),
('limit-pos',[(Q,'''		LimitPos: pos,
		Limit:    limit,
		Offset:   offset,''','''		LimitPos: limit.Pos(),
		Limit:    limit,
		Offset:   offset,''')],['P17'],1),
# quiet
('h-defer-end',[(D,'''	return &DropStmt{
		DropPos:      pos,
		DropTarget:   dropTarget,
		Name:         name,
		IfExists:     isExists,
		OnCluster:    onCluster,
		IsTemporary:  isTemporary,
		Modifier:     modifier,
		StatementEnd: p.Pos(),
	}, nil''','''	stmt := new(DropStmt)
	stmt.StatementEnd = p.Pos()
	stmt.DropPos = pos
	stmt.DropTarget = dropTarget
	stmt.Name = name
	stmt.IfExists = isExists
	stmt.OnCluster = onCluster
	stmt.IsTemporary = isTemporary
	stmt.Modifier = modifier
	return stmt, nil''')],['P17'],0),
('h-helper',[(D,'''	onCluster, err := p.tryParseClusterClause(p.Pos())
	if err != nil {
		return nil, err
	}

	modifier''','''	onCluster, err := p.tryCluster()
	if err != nil {
		return nil, err
	}

	modifier'''),(D,None,'''
func (p *Parser) tryCluster() (*ClusterClause, error) {
	at := p.Pos()
	return p.tryParseClusterClause(at)
}
''')],['P17'],0),
('h-cluster-own',[(T,'''		OnPos: pos,
		Expr:  expr,
	}, nil
}
''','''		OnPos: start,
		Expr:  expr,
	}, nil
}
'''),(T,'''	if !p.tryConsumeKeywords(KeywordOn) {
		return nil, nil // nolint
	}
	if err := p.expectKeyword(KeywordCluster); err != nil {''','''	start := pos
	if !p.tryConsumeKeywords(KeywordOn) {
		return nil, nil // nolint
	}
	if err := p.expectKeyword(KeywordCluster); err != nil {''')],['P17'],0),
('h-endhelper',[(T,'''	settings.ListEnd = items[len(items)-1].End()
	settings.Items = items''','''	settings.Items = items
	settings.ListEnd = lastEnd(items)'''),(T,None,'''
func lastEnd(items []*SettingExpr) Pos {
	last := len(items) - 1
	return items[last].End()
}
''')],['P17'],0),
('h-build',[(D,'''	return &DropStmt{
		DropPos:      pos,
		DropTarget:   dropTarget,
		Name:         name,
		IfExists:     isExists,
		OnCluster:    onCluster,
		IsTemporary:  isTemporary,
		Modifier:     modifier,
		StatementEnd: p.Pos(),
	}, nil''','''	return p.newDropStmt(pos, p.Pos(), dropTarget, name, isExists, onCluster, isTemporary, modifier), nil'''),(D,None,'''
func (p *Parser) newDropStmt(start, end Pos, target string, name *TableIdentifier, ifExists bool, on *ClusterClause, tmp bool, mod string) *DropStmt {
	return &DropStmt{
		DropPos:      start,
		DropTarget:   target,
		Name:         name,
		IfExists:     ifExists,
		OnCluster:    on,
		IsTemporary:  tmp,
		Modifier:     mod,
		StatementEnd: end,
	}
}
''')],['P17','P01','P04','P08','P11'],0),
('h-endmethod',[(A,'''func (d *DropStmt) End() Pos {
	return d.StatementEnd
}''','''func (d *DropStmt) End() Pos {
	end := d.StatementEnd
	return end
}''')],['P17'],0),
('h-loop',[(T,'''	expr, err := p.parseSettingsExpr(pos)
	if err != nil {
		return nil, err
	}
	items = append(items, expr)
	for p.tryConsumeTokenKind(TokenKindComma) != nil {
		expr, err = p.parseSettingsExpr(p.Pos())
		if err != nil {
			return nil, err
		}
		items = append(items, expr)
	}
	return items, nil''','''	for {
		expr, err := p.parseSettingsExpr(p.Pos())
		if err != nil {
			return nil, err
		}
		items = append(items, expr)
		if p.tryConsumeTokenKind(TokenKindComma) == nil {
			return items, nil
		}
	}''')],['P17','P01','P02','P03','P04','P08','P11'],0),
]
run(cases, sys.argv[1] if len(sys.argv)>1 else None)
