import sys; sys.path.insert(0,'/tmp')
from bm import run
C='parser/parser_common.go'; L='parser/lexer.go'; K='parser/keyword.go'; S='parser/parse_system.go'; Q='parser/parser_query.go'; X='parser/parser_column.go'
cases=[
('match-exact',[(C,'p.matchTokenKind(TokenKindKeyword) && strings.EqualFold(p.current().String, keyword)','p.matchTokenKind(TokenKindKeyword) && p.current().String == keyword')],['P07'],1),
('lex-noupper',[(L,'l.isKeyword(strings.ToUpper(slice))','l.isKeyword(slice)')],['P07'],1),
('lex-lower',[(L,'l.isKeyword(strings.ToUpper(slice))','l.isKeyword(strings.ToLower(slice))')],['P07'],1),
('kw-removed',[(K,'	KeywordFinal,\n','')],['P07'],1),
('kw-lowerconst',[(K,'"FINAL"','"Final"')],['P07'],1),
('command-raw',[(S,'command := strings.ToUpper(p.current().String)','command := p.current().String')],['P07'],0),
('interval-raw',[(X,'intervalUnits.Contains(strings.ToUpper(unit.Name))','intervalUnits.Contains(unit.Name)')],['P07'],1),
('interval-lower',[(X,'intervalUnits.Contains(strings.ToUpper(unit.Name))','intervalUnits.Contains(strings.ToLower(unit.Name))')],['P07'],1),
('reserved-raw',[(C,'!reservedKeywords.Contains(strings.ToUpper(p.current().String))','!reservedKeywords.Contains(p.current().String)')],['P07'],1),
('role-raw',[(S,'strings.EqualFold(nextToken.String, KeywordRole)','nextToken.String == KeywordRole')],['P07'],1),
('codec-raw',[(X,'switch strings.ToUpper(codecType.Name) {','switch codecType.Name {')],['P07'],1),
('peek-raw',[(X,'peek.Kind == TokenKindKeyword && strings.EqualFold(peek.String, KeywordSelect)','peek.Kind == TokenKindKeyword && peek.String == KeywordSelect')],['P07'],1),
('toupper-cmp',[(C,'p.matchTokenKind(TokenKindKeyword) && strings.EqualFold(p.current().String, keyword)','p.matchTokenKind(TokenKindKeyword) && strings.ToUpper(p.current().String) == keyword')],['P07'],0),
('helper-local',[(C,'p.matchTokenKind(TokenKindKeyword) && strings.EqualFold(p.current().String, keyword)','p.matchTokenKind(TokenKindKeyword) && sameWord(p.current(), keyword)'),(C,None,'\nfunc sameWord(t *Token, w string) bool { return strings.EqualFold(t.String, w) }\n')],['P07'],0),
('word-var',[(L,'l.isKeyword(strings.ToUpper(slice))','l.isKeyword(upperWord(slice))'),(L,None,'\nfunc upperWord(s string) string { u := strings.ToUpper(s); return u }\n')],['P07'],0),
('joinarray-loop',[(Q,'''	if slices.ContainsFunc(modifiers, func(modifier string) bool {
		return strings.EqualFold(modifier, KeywordArray)
	}) {''','''	isArray := false
	for _, m := range modifiers {
		if strings.EqualFold(m, KeywordArray) {
			isArray = true
		}
	}
	if isArray {''')],['P07'],0),
('inline-iskw',[(L,'l.isKeyword(strings.ToUpper(slice))','keywords.Contains(strings.ToUpper(slice))')],['P07'],0),
]
run(cases, sys.argv[1] if len(sys.argv)>1 else None)
