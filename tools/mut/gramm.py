from bm import run
import sys
F='parser/format.go'; Q='parser/parser_query.go'; T='parser/parser_table.go'; C='parser/parser_column.go'; V='parser/parser_view.go'
P=['P12']
cases=[
('group-by',[(F,'formatter.WriteString("GROUP BY")','formatter.WriteString("GROUP")')],P,1),
('drop-col',[(F,'"DROP COLUMN "','"DROP "')],P,1),
('drop-idx-order',[(F,'''	formatter.WriteString("DROP INDEX ")
	if a.IfExists {
		formatter.WriteString("IF EXISTS ")
	}''','''	formatter.WriteString("DROP ")
	if a.IfExists {
		formatter.WriteString("IF EXISTS ")
	}
	formatter.WriteString("INDEX ")''')],P,1),
('case-no-end',[(F,'	formatter.Break()\n	formatter.WriteString("END")\n','')],P,1),
('cte-paren',[(F,'''		formatter.WriteByte('(')
		formatter.WriteExpr(c.Alias)
		formatter.WriteByte(')')
	} else {''','''		formatter.WriteByte('(')
		formatter.WriteExpr(c.Alias)
	} else {''')],P,1),
('cast-sep',[(F,'''		formatter.WriteString(", ")
	} else {
		formatter.WriteString(" AS ")
	}
	formatter.WriteExpr(c.AsType)''','''		formatter.WriteString(", ")
	} else {
		formatter.WriteString(" TO ")
	}
	formatter.WriteExpr(c.AsType)''')],P,1),
('user-clauses',[(F,'''	if c.ValidUntil != nil {
		formatter.Break()
		formatter.WriteString("VALID UNTIL ")
		formatter.WriteExpr(c.ValidUntil)
	}
	if len(c.Hosts) > 0 {
		formatter.Break()
		for i, host := range c.Hosts {
			if i > 0 {
				formatter.WriteString(", ")
			}
			formatter.WriteExpr(host)
		}
	}''','''	if len(c.Hosts) > 0 {
		formatter.Break()
		for i, host := range c.Hosts {
			if i > 0 {
				formatter.WriteString(", ")
			}
			formatter.WriteExpr(host)
		}
	}
	if c.ValidUntil != nil {
		formatter.Break()
		formatter.WriteString("VALID UNTIL ")
		formatter.WriteExpr(c.ValidUntil)
	}''')],P,1),
('host-sep',[(F,'''		for i, host := range c.Hosts {
			if i > 0 {
				formatter.WriteString(", ")
			}''','''		for i, host := range c.Hosts {
			if i > 0 {
				formatter.WriteString(" ")
			}''')],P,1),
('grant-cluster-after',[(F,'''	if g.OnCluster != nil {
		formatter.WriteExpr(g.OnCluster)
		formatter.WriteByte(whitespace)
	}
	for i, privilege := range g.Privileges {
		if i > 0 {
			formatter.WriteString(", ")
		}
		formatter.WriteExpr(privilege)
	}
''','''	for i, privilege := range g.Privileges {
		if i > 0 {
			formatter.WriteString(", ")
		}
		formatter.WriteExpr(privilege)
	}
	if g.OnCluster != nil {
		formatter.WriteByte(whitespace)
		formatter.WriteExpr(g.OnCluster)
	}
''')],P,1),
('grant-option',[(F,'" WITH " + option + " OPTION"','" WITH OPTION " + option')],P,1),
('fill-swap',[(F,'''	if f.From != nil {
		formatter.WriteString(" FROM ")
		formatter.WriteExpr(f.From)
	}
	if f.To != nil {
		formatter.WriteString(" TO ")
		formatter.WriteExpr(f.To)
	}''','''	if f.To != nil {
		formatter.WriteString(" TO ")
		formatter.WriteExpr(f.To)
	}
	if f.From != nil {
		formatter.WriteString(" FROM ")
		formatter.WriteExpr(f.From)
	}''')],P,1),
('step-staleness',[(F,'''	if f.Step != nil {
		formatter.WriteString(" STEP ")
		formatter.WriteExpr(f.Step)
	}
	if f.Staleness != nil {
		formatter.WriteString(" STALENESS ")
		formatter.WriteExpr(f.Staleness)
	}''','''	if f.Staleness != nil {
		formatter.WriteString(" STALENESS ")
		formatter.WriteExpr(f.Staleness)
	}
	if f.Step != nil {
		formatter.WriteString(" STEP ")
		formatter.WriteExpr(f.Step)
	}''')],P,1),
('limitby-after-limit',[(F,'''	if s.LimitBy != nil {
		formatter.Break()
		formatter.WriteExpr(s.LimitBy)
	}
	if s.Limit != nil {
		formatter.Break()
		formatter.WriteExpr(s.Limit)
	}''','''	if s.Limit != nil {
		formatter.Break()
		formatter.WriteExpr(s.Limit)
	}
	if s.LimitBy != nil {
		formatter.Break()
		formatter.WriteExpr(s.LimitBy)
	}''')],P,1),
('having-where',[(F,'''	if s.Prewhere != nil {
		formatter.Break()
		formatter.WriteExpr(s.Prewhere)
	}
	if s.Where != nil {
		formatter.Break()
		formatter.WriteExpr(s.Where)
	}''','''	if s.Where != nil {
		formatter.Break()
		formatter.WriteExpr(s.Where)
	}
	if s.Prewhere != nil {
		formatter.Break()
		formatter.WriteExpr(s.Prewhere)
	}''')],P,1),
('rollup-totals',[(F,'''	if g.WithCube {
		formatter.Break()
		formatter.WriteString("WITH CUBE")
	}
	if g.WithRollup {
		formatter.Break()
		formatter.WriteString("WITH ROLLUP")
	}
	if g.WithTotals {
		formatter.Break()
		formatter.WriteString("WITH TOTALS")
	}''','''	if g.WithTotals {
		formatter.Break()
		formatter.WriteString("WITH TOTALS")
	}
	if g.WithCube {
		formatter.Break()
		formatter.WriteString("WITH CUBE")
	}
	if g.WithRollup {
		formatter.Break()
		formatter.WriteString("WITH ROLLUP")
	}''')],P,1),
('win-frame-order',[(F,'''	if w.OrderBy != nil {
		if hasPart {
			formatter.WriteByte(whitespace)
		}
		formatter.WriteExpr(w.OrderBy)
		hasPart = true
	}
	if w.Frame != nil {
		if hasPart {
			formatter.WriteByte(whitespace)
		}
		formatter.WriteExpr(w.Frame)
	}
	formatter.WriteByte(')')''','''	if w.Frame != nil {
		if hasPart {
			formatter.WriteByte(whitespace)
		}
		formatter.WriteExpr(w.Frame)
		hasPart = true
	}
	if w.OrderBy != nil {
		if hasPart {
			formatter.WriteByte(whitespace)
		}
		formatter.WriteExpr(w.OrderBy)
	}
	formatter.WriteByte(')')''')],P,1),
('win-noclose',[(F,'''		formatter.WriteExpr(w.Frame)
	}
	formatter.WriteByte(')')''','''		formatter.WriteExpr(w.Frame)
		return
	}
	formatter.WriteByte(')')''')],P,1),
('table-as-comment',[(F,'''	if c.Comment != nil {
		formatter.Break()
		formatter.WriteString("COMMENT ")
		formatter.WriteExpr(c.Comment)
	}
''','''	if c.Comment != nil {
		formatter.Break()
		formatter.WriteExpr(c.Comment)
	}
''')],P,1),
('table-engine-after-as',[(F,'''	if c.Engine != nil {
		formatter.Break()
		formatter.WriteExpr(c.Engine)
	}
	if c.SubQuery != nil {
		formatter.Break()
		formatter.WriteString("AS ")
		formatter.WriteExpr(c.SubQuery)
	}
''','''	if c.SubQuery != nil {
		formatter.Break()
		formatter.WriteString("AS ")
		formatter.WriteExpr(c.SubQuery)
	}
	if c.Engine != nil {
		formatter.Break()
		formatter.WriteExpr(c.Engine)
	}
''')],P,1),
('fn-lambda-arrow',[(F,'	formatter.WriteString(" -> ")\n	formatter.WriteExpr(c.Expr)','	formatter.WriteString(" ")\n	formatter.WriteExpr(c.Expr)')],P,1),
('fn-orreplace',[(F,'''	formatter.WriteString("CREATE")
	if c.OrReplace {
		formatter.WriteString(" OR REPLACE")
	}
	formatter.WriteString(" FUNCTION ")''','''	formatter.WriteString("CREATE")
	formatter.WriteString(" FUNCTION ")
	if c.OrReplace {
		formatter.WriteString("OR REPLACE ")
	}''')],P,1),
('flush-logs',[(F,'"LOGS")\n','"LOG")\n')],P,1),
('todisk',[(F,'"TO DISK "','"DISK "')],P,1),
('partition-by',[(F,'"PARTITION BY "','"PARTITIONED BY "')],P,1),
('mat-index-exists',[(F,'''	formatter.WriteString("MATERIALIZE INDEX")

	if a.IfExists {
		formatter.WriteString(" IF EXISTS")
	}''','''	formatter.WriteString("MATERIALIZE")

	if a.IfExists {
		formatter.WriteString(" IF EXISTS")
	}
	formatter.WriteString(" INDEX")''')],P,1),
('else-as',[(F,'"ELSE "','"ELSE THEN "')],P,1),
('union',[(F,'"UNION DISTINCT"','"DISTINCT UNION"')],P,1),
('timeout',[(F,'"WITH TIMEOUT "','"TIMEOUT "')],P,1),
('settings-eq',[(F,"	formatter.WriteExpr(s.Name)\n	formatter.WriteByte('=')","	formatter.WriteExpr(s.Name)\n	formatter.WriteByte(':')")],P,1),
# parser side
('p-limit-offset',[(Q,None,'')],P,0),
# refactors
('r-case-helper',[(F,'''	formatter.Dedent()
	formatter.Break()
	formatter.WriteString("END")
}''','''	formatter.Dedent()
	c.finish(formatter)
}

func (c *CaseExpr) finish(formatter *Formatter) {
	formatter.Break()
	formatter.WriteString("END")
}''')],P,0),
('r-fill-table',[(F,'''	if f.From != nil {
		formatter.WriteString(" FROM ")
		formatter.WriteExpr(f.From)
	}
	if f.To != nil {
		formatter.WriteString(" TO ")
		formatter.WriteExpr(f.To)
	}''','''	part := func(word string, e Expr) {
		if e == nil {
			return
		}
		formatter.WriteString(word)
		formatter.WriteExpr(e)
	}
	part(" FROM ", f.From)
	part(" TO ", f.To)''')],P,0),
('r-list-helper',[(F,'''	for i, privilege := range g.Privileges {
		if i > 0 {
			formatter.WriteString(", ")
		}
		formatter.WriteExpr(privilege)
	}
	formatter.WriteString(" ON ")''','''	for i := 0; i < len(g.Privileges); i++ {
		formatter.WriteExpr(g.Privileges[i])
		if i+1 < len(g.Privileges) {
			formatter.WriteString(", ")
		}
	}
	formatter.WriteString(" ON ")''')],P,0),
('r-group-split',[(F,'formatter.WriteString("GROUP BY")','formatter.WriteString("GROUP")\n	formatter.WriteByte(whitespace)\n	formatter.WriteString("BY")')],P,0),
('r-first-rest',[(F,'''	for i, cte := range w.CTEs {
		if i > 0 {
			formatter.WriteString(", ")
		}
		formatter.WriteExpr(cte)
	}
}''','''	if len(w.CTEs) == 0 {
		return
	}
	formatter.WriteExpr(w.CTEs[0])
	for _, cte := range w.CTEs[1:] {
		formatter.WriteString(", ")
		formatter.WriteExpr(cte)
	}
}''')],P,0),
('r-sep-var',[(F,'''	for i, cte := range w.CTEs {
		if i > 0 {
			formatter.WriteString(", ")
		}
		formatter.WriteExpr(cte)
	}
}''','''	sep := ""
	for _, cte := range w.CTEs {
		formatter.WriteString(sep)
		formatter.WriteExpr(cte)
		sep = ", "
	}
}''')],P,0),
]
run(cases, sys.argv[1:], 4)
