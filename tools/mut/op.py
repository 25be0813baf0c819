import sys; sys.path.insert(0,'/tmp')
from bm import run
C='parser/parser_column.go'
cs=[
('swap-prec',[(C,'	PrecedenceConcat\n	PrecedenceAddSub\n','	PrecedenceAddSub\n	PrecedenceConcat\n')],['P20'],1),
('add-mul',[(C,'return PrecedenceMulDivMod','return PrecedenceAddSub')],['P20'],1),
('mod-add',[(C,'p.matchTokenKind(TokenKindPlus), p.matchTokenKind(TokenKindMinus):\n		return','p.matchTokenKind(TokenKindPlus), p.matchTokenKind(TokenKindMinus), p.matchTokenKind(TokenKindMod):\n		return')],['P20'],1),
('right-assoc',[(C,'rightExpr, err := p.parseSubExpr(p.Pos(), precedence)\n		if err != nil {\n			return nil, err\n		}\n		return &BinaryOperation{\n			LeftExpr:  expr,\n			Operation: TokenKind(op)','rightExpr, err := p.parseSubExpr(p.Pos(), precedence-1)\n		if err != nil {\n			return nil, err\n		}\n		return &BinaryOperation{\n			LeftExpr:  expr,\n			Operation: TokenKind(op)')],['P20'],1),
('loop-lt',[(C,'if nextPrecedence <= precedence','if nextPrecedence < precedence')],['P20'],1),
('not-limit',[(C,'expr, err = p.parseSubExpr(p.Pos(), PrecedenceNot)','expr, err = p.parseSubExpr(p.Pos(), PrecedenceCompare)')],['P20'],1),
('drop-regexp',[(C,'p.matchKeyword(KeywordIlike), p.matchKeyword(KeywordRegexp):\n		return','p.matchKeyword(KeywordIlike):\n		return')],['P20'],1),
('drop-regexp2',[(C,'		p.matchKeyword(KeywordIlike), p.matchKeyword(KeywordRegexp),\n','		p.matchKeyword(KeywordIlike),\n')],['P20'],1),
('not-in',[(C,'		case p.peekKeyword(KeywordIn):\n			return precedenceIn','		case p.peekKeyword(KeywordIn):\n			return PrecedenceNot')],['P20'],1),
('between-limit',[('parser/parser_query.go','andExpr, err := p.parseSubExpr(p.Pos(), PrecedenceBetweenLike)','andExpr, err := p.parseSubExpr(p.Pos(), PrecedenceAnd)')],['P20'],1),
('global-first',[(C,'rightExpr, err := p.parseSubExpr(p.Pos(), precedence)\n		if err != nil {\n			return nil, err\n		}\n\n		// GLOBAL','rightExpr, err := p.parseSubExpr(p.Pos(), precedence+1)\n		if err != nil {\n			return nil, err\n		}\n\n		// GLOBAL')],['P20'],1),
('map-table',[(C,'	case p.matchTokenKind(TokenKindPlus), p.matchTokenKind(TokenKindMinus):\n		return PrecedenceAddSub\n	case p.matchTokenKind(TokenKindMul), p.matchTokenKind(TokenKindDiv), p.matchTokenKind(TokenKindMod):\n		return PrecedenceMulDivMod\n','	case arith[p.currentTokenKind()] > 0:\n		return arith[p.currentTokenKind()]\n'),(C,None,'\nvar arith = map[TokenKind]int{TokenKindPlus: PrecedenceAddSub, TokenKindMinus: PrecedenceAddSub, TokenKindMul: PrecedenceMulDivMod, TokenKindDiv: PrecedenceMulDivMod, TokenKindMod: PrecedenceMulDivMod}\n')],['P20'],0),
('inline-loop',[(C,'''		nextPrecedence := p.getNextPrecedence()
		if nextPrecedence <= precedence {
			return expr, nil
		}
''','''		nextPrecedence := p.getNextPrecedence()
		if !(nextPrecedence > precedence) {
			break
		}
''')],['P20'],0),
('loop-form',[(C,'''	for !p.lexer.isEOF() || p.current() != nil {
		nextPrecedence := p.getNextPrecedence()
		if nextPrecedence <= precedence {
			return expr, nil
		}
''','''	for nextPrecedence := p.getNextPrecedence(); nextPrecedence > precedence; nextPrecedence = p.getNextPrecedence() {
''')],['P20'],0),
('switch-kind',[(C,'''	case p.matchTokenKind(TokenKindDot):
		return PrecedenceDot
	case p.matchTokenKind(TokenKindDash):''','''	case p.currentTokenKind() == TokenKindDot:
		return PrecedenceDot
	case p.matchTokenKind(TokenKindDash):''')],['P20'],0),
('helper-op',[(C,'''		op := p.current().ToString()
		_ = p.lexer.consumeToken()
		rightExpr, err := p.parseSubExpr(p.Pos(), precedence)
		if err != nil {
			return nil, err
		}
		return &BinaryOperation{
			LeftExpr:  expr,
			Operation: TokenKind(op),
			RightExpr: rightExpr,
		}, nil
	case p.matchTokenKind(TokenKindArrow)''','''		return p.simpleOp(expr, precedence)
	case p.matchTokenKind(TokenKindArrow)'''),(C,None,'''
func (p *Parser) simpleOp(expr Expr, precedence int) (Expr, error) {
		op := p.current().ToString()
		_ = p.lexer.consumeToken()
		rightExpr, err := p.operand(precedence)
		if err != nil {
			return nil, err
		}
		return &BinaryOperation{
			LeftExpr:  expr,
			Operation: TokenKind(op),
			RightExpr: rightExpr,
		}, nil
}
func (p *Parser) operand(n int) (Expr, error) { return p.parseSubExpr(p.Pos(), n) }
''')],['P20'],0),
]
run(cs, sys.argv[1] if len(sys.argv)>1 else None)
