import subprocess,sys
R='/tmp/tryrepo'
def sh(c): return subprocess.run(c,shell=True,capture_output=True,text=True)
def t(name,edits):
    sh('rsync -a --delete /repo/ %s/'%R)
    for f,o,n,cnt in edits:
        q=R+'/parser/'+f; s=open(q).read()
        assert s.count(o)>=1,(name,o)
        s=s.replace(o,n) if cnt==0 else s.replace(o,n,cnt)
        open(q,'w').write(s)
    r=sh('cd %s && go build ./... && go test ./... 2>&1 | grep -E "^\s*--- FAIL|^FAIL|^ok" | head -8'%R)
    print(name,r.stdout,r.stderr[-300:])
t('fill',[('parser_table.go','parseExpr(fillPos)','parseExpr(p.Pos())',0)])
t('interp',[('parser_table.go','parseExpr(interpolatePos)','parseExpr(p.Pos())',0)])
t('tabargs',[('parser_table.go','argsExpr, err := p.parseTableArgList(pos)','argsExpr, err := p.parseTableArgList(p.Pos())',0)])
t('win',[('parser_query.go','partitionBy, err := p.tryParsePartitionByClause(pos)','partitionBy, err := p.tryParsePartitionByClause(p.Pos())',0)])
t('placeholder',[('parser_column.go','''		_ = p.lexer.consumeToken()
		return &PlaceHolder{
			PlaceholderPos: pos,
			PlaceHolderEnd: pos,''','''		placeHolderEnd := p.End()
		_ = p.lexer.consumeToken()
		return &PlaceHolder{
			PlaceholderPos: pos,
			PlaceHolderEnd: placeHolderEnd,''',0)])
t('star',[('parser_column.go','''	if err := p.expectTokenKind("*"); err != nil {
		return nil, err
	}
	return &Ident{
		NamePos: pos,
		NameEnd: pos,''','''	nameEnd := p.End()
	if err := p.expectTokenKind("*"); err != nil {
		return nil, err
	}
	return &Ident{
		NamePos: pos,
		NameEnd: nameEnd,''',0)])
t('dict',[('parser_table.go','RParenPos:     keys.End() - 1','RParenPos:     keys.End()',0)])
