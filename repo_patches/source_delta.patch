From d5f09030f105933cb806b8bd5b5a1a8b3507b520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:38 +0000
Subject: [PATCH 01/38] fix: keep tokenization failures until they are reported

A caller that ignored the result of consumeToken lost the error: the input
after an unclosed literal, identifier or comment was dropped silently. peekToken
also left the lexer at the failure point.
---
 parser/lexer.go | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index 96df452..e6d2cd1 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -77,6 +77,7 @@ func (t *Token) ToString() string {
 type lexerState struct {
 	offset       int    // byte offset into input of the next unread character
 	currentToken *Token // current lookahead token; nil at end of input
+	err          error  // first tokenization failure; input after it is never read
 }
 
 type Lexer struct {
@@ -335,13 +336,11 @@ func (l *Lexer) skipComments() error {
 
 func (l *Lexer) peekToken() (*Token, error) {
 	savedState := l.saveState()
+	defer l.restoreState(savedState)
 	if err := l.consumeToken(); err != nil {
 		return nil, err
 	}
-	token := l.currentToken
-
-	l.restoreState(savedState)
-	return token, nil
+	return l.currentToken, nil
 }
 
 func (l *Lexer) hasPrecedenceToken(last *Token) bool {
@@ -356,10 +355,20 @@ func (l *Lexer) hasPrecedenceToken(last *Token) bool {
 		last.Kind == TokenKindRBracket)
 }
 
+// consumeToken replaces the current token with the next one. A failure is kept,
+// so that a caller which does not look at the result cannot lose it: every later
+// call reports it again and the current token stays nil.
 func (l *Lexer) consumeToken() error {
-	// replace the current token; keep the previous one to disambiguate unary +/-
-	prevToken := l.currentToken
-	l.currentToken = nil
+	if l.err == nil {
+		// keep the previous token to disambiguate unary +/-
+		prevToken := l.currentToken
+		l.currentToken = nil
+		l.err = l.scanToken(prevToken)
+	}
+	return l.err
+}
+
+func (l *Lexer) scanToken(prevToken *Token) error {
 	if err := l.skipComments(); err != nil {
 		return err
 	}
-- 
2.43.0


From 15e0426545d6dacbfab707f0bd7158c5e3893e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:38 +0000
Subject: [PATCH 02/38] fix: stop reading statements only at the end of input

isEOF is also true while the last token of the input is still unread, so a
single-token statement was accepted and dropped.
---
 parser/parser_table.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser_table.go b/parser/parser_table.go
index a29fd45..170ee2b 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -1551,7 +1551,7 @@ func (p *Parser) ParseStmts() ([]Expr, error) {
 		if err := p.lexer.consumeToken(); err != nil {
 			return nil, p.wrapError(err)
 		}
-		if p.lexer.isEOF() {
+		if p.current() == nil {
 			break
 		}
 		if p.matchTokenKind(";") {
-- 
2.43.0


From 85701d7e6b99e49f48ec492108e80124f0fb45ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:54 +0000
Subject: [PATCH 03/38] fix: do not dereference the missing token at end of
 input

---
 parser/parse_system.go  | 23 +++++++++++++----------
 parser/parser_column.go |  2 +-
 parser/parser_table.go  |  2 +-
 3 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/parser/parse_system.go b/parser/parse_system.go
index f75f091..31c7cfd 100644
--- a/parser/parse_system.go
+++ b/parser/parse_system.go
@@ -83,7 +83,7 @@ func (p *Parser) parseSystemReloadExpr(pos Pos) (*SystemReloadExpr, error) {
 		_ = p.lexer.consumeToken()
 	case p.tryConsumeKeywords(KeywordEmbedded):
 		typ = "EMBEDDED DICTIONARIES"
-		statementEnd = p.current().End
+		statementEnd = p.End()
 		if err := p.expectKeyword(KeywordDictionaries); err != nil {
 			return nil, err
 		}
@@ -570,14 +570,14 @@ func (p *Parser) parseAuthenticationClause(pos Pos) (*AuthenticationClause, erro
 			return nil, err
 		}
 		auth.NotIdentified = true
-		auth.AuthEnd = p.current().End
+		auth.AuthEnd = p.End()
 		return auth, nil
 	}
 
 	if err := p.expectKeyword(KeywordIdentified); err != nil {
 		return nil, err
 	}
-	auth.AuthEnd = p.current().End
+	auth.AuthEnd = p.End()
 
 	if p.tryConsumeKeywords(KeywordWith) {
 		if p.matchKeyword(KeywordLdap) {
@@ -594,7 +594,7 @@ func (p *Parser) parseAuthenticationClause(pos Pos) (*AuthenticationClause, erro
 		} else if p.matchKeyword(KeywordKerberos) {
 			_ = p.lexer.consumeToken()
 			auth.IsKerberos = true
-			auth.AuthEnd = p.current().End
+			auth.AuthEnd = p.End()
 			if p.tryConsumeKeywords(KeywordRealm) {
 				realm, err := p.parseString(p.Pos())
 				if err != nil {
@@ -608,7 +608,7 @@ func (p *Parser) parseAuthenticationClause(pos Pos) (*AuthenticationClause, erro
 			authType := p.current().String
 			_ = p.lexer.consumeToken()
 			auth.AuthType = authType
-			auth.AuthEnd = p.current().End
+			auth.AuthEnd = p.End()
 
 			if p.tryConsumeKeywords(KeywordBy) {
 				value, err := p.parseString(p.Pos())
@@ -636,7 +636,7 @@ func (p *Parser) parseHostClause(pos Pos) (*HostClause, error) {
 		hostType := p.current().String
 		_ = p.lexer.consumeToken()
 		host.HostType = hostType
-		host.HostEnd = p.current().End
+		host.HostEnd = p.End()
 	case p.matchOneOfKeywords(KeywordName, KeywordRegexp, KeywordIp, KeywordLike):
 		hostType := p.current().String
 		_ = p.lexer.consumeToken()
@@ -666,7 +666,7 @@ func (p *Parser) parseDefaultRoleClause(pos Pos) (*DefaultRoleClause, error) {
 
 	if p.tryConsumeKeywords(KeywordNone) {
 		defaultRole.None = true
-		defaultRole.DefaultEnd = p.current().End
+		defaultRole.DefaultEnd = p.End()
 		return defaultRole, nil
 	}
 
@@ -699,10 +699,10 @@ func (p *Parser) parseGranteesClause(pos Pos) (*GranteesClause, error) {
 
 	if p.tryConsumeKeywords(KeywordAny) {
 		grantees.Any = true
-		grantees.GranteesEnd = p.current().End
+		grantees.GranteesEnd = p.End()
 	} else if p.tryConsumeKeywords(KeywordNone) {
 		grantees.None = true
-		grantees.GranteesEnd = p.current().End
+		grantees.GranteesEnd = p.End()
 	} else {
 		// Parse list of grantees
 		granteeList := make([]*RoleName, 0)
@@ -811,6 +811,9 @@ func (p *Parser) parseDefaultClause(createUser *CreateUser) (bool, error) {
 		return false, err
 	}
 
+	if nextToken == nil {
+		return false, nil
+	}
 	if nextToken.String == KeywordRole {
 		defaultRole, err := p.parseDefaultRoleClause(p.Pos())
 		if err != nil {
@@ -824,7 +827,7 @@ func (p *Parser) parseDefaultClause(createUser *CreateUser) (bool, error) {
 		_ = p.lexer.consumeToken() // consume DATABASE
 		if p.tryConsumeKeywords(KeywordNone) {
 			createUser.DefaultDbNone = true
-			createUser.StatementEnd = p.current().End
+			createUser.StatementEnd = p.End()
 		} else {
 			db, err := p.parseIdent()
 			if err != nil {
diff --git a/parser/parser_column.go b/parser/parser_column.go
index ad53333..fcc9eb1 100644
--- a/parser/parser_column.go
+++ b/parser/parser_column.go
@@ -1311,7 +1311,7 @@ func (p *Parser) parseColumnTypeArgs(ident *Ident) (ColumnType, error) { // noli
 				return p.parseComplexType(ident, p.Pos())
 			}
 		case p.matchTokenKind(TokenKindString):
-			if peekToken, err := p.lexer.peekToken(); err == nil && peekToken.Kind == TokenKindSingleEQ {
+			if peekToken, err := p.lexer.peekToken(); err == nil && peekToken != nil && peekToken.Kind == TokenKindSingleEQ {
 				// enum values
 				return p.parseEnumType(ident, p.Pos())
 			}
diff --git a/parser/parser_table.go b/parser/parser_table.go
index 170ee2b..e515e4c 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -1033,7 +1033,7 @@ func (p *Parser) parseOrderExpr(pos Pos) (*OrderExpr, error) {
 	var alias *Ident
 	if p.matchKeyword(KeywordAs) {
 		// It should be a subquery instead of an order by alias if the `AS` is followed by `SELECT` keyword.
-		if nextToken, err := p.lexer.peekToken(); err == nil && nextToken.ToString() == KeywordSelect {
+		if nextToken, err := p.lexer.peekToken(); err == nil && nextToken != nil && nextToken.ToString() == KeywordSelect {
 			return &OrderExpr{
 				OrderPos: pos,
 				Expr:     columnExpr,
-- 
2.43.0


From 21e6422880d1ce2d5a278f3569f6eec06b6007e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:54 +0000
Subject: [PATCH 04/38] fix: require the partition clause after IN in CLEAR and
 MATERIALIZE

---
 parser/parser_alter.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/parser/parser_alter.go b/parser/parser_alter.go
index 9523f01..93471d3 100644
--- a/parser/parser_alter.go
+++ b/parser/parser_alter.go
@@ -566,13 +566,11 @@ func (p *Parser) parseAlterTableClearClause(pos Pos) (AlterTableClause, error) {
 
 	var partition *PartitionClause
 	if p.tryConsumeKeywords(KeywordIn) {
-		partition, err = p.tryParsePartitionClause(p.Pos())
+		partition, err = p.parsePartitionClause(p.Pos())
 		if err != nil {
 			return nil, err
 		}
-		if partition != nil {
-			statementEnd = partition.End()
-		}
+		statementEnd = partition.End()
 	}
 
 	if kind == KeywordProjection {
@@ -819,7 +817,7 @@ func (p *Parser) parseAlterTableMaterialize(pos Pos) (AlterTableClause, error) {
 	statementEnd := name.End()
 	var partition *PartitionClause
 	if p.tryConsumeKeywords(KeywordIn) {
-		partition, err = p.tryParsePartitionClause(p.Pos())
+		partition, err = p.parsePartitionClause(p.Pos())
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 052ec5cad4f7ea5b34bc56a136b720af884d5c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:35 +0000
Subject: [PATCH 05/38] fix: do not panic on nodes whose optional part is
 absent

---
 parser/ast.go          | 12 +++++++++++-
 parser/parse_system.go |  3 +++
 parser/parser_alter.go |  4 +++-
 parser/parser_table.go |  7 +++++++
 4 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/parser/ast.go b/parser/ast.go
index b6eb41f..cfdea95 100644
--- a/parser/ast.go
+++ b/parser/ast.go
@@ -1655,6 +1655,9 @@ func (s *SettingPair) Pos() Pos {
 }
 
 func (s *SettingPair) End() Pos {
+	if s.Value == nil {
+		return s.Name.NameEnd
+	}
 	return s.Value.End()
 }
 
@@ -2313,6 +2316,7 @@ type PartitionClause struct {
 	Expr         Expr
 	ID           *StringLiteral
 	All          bool
+	allEnd       Pos // end of the ALL keyword, when All is set
 }
 
 func (p *PartitionClause) Pos() Pos {
@@ -2323,7 +2327,10 @@ func (p *PartitionClause) End() Pos {
 	if p.ID != nil {
 		return p.ID.LiteralEnd
 	}
-	return p.Expr.End()
+	if p.Expr != nil {
+		return p.Expr.End()
+	}
+	return p.allEnd
 }
 
 func (p *PartitionClause) Accept(visitor ASTVisitor) error {
@@ -6224,6 +6231,9 @@ func (c *CheckStmt) Pos() Pos {
 }
 
 func (c *CheckStmt) End() Pos {
+	if c.Partition == nil {
+		return c.Table.End()
+	}
 	return c.Partition.End()
 }
 
diff --git a/parser/parse_system.go b/parser/parse_system.go
index 31c7cfd..3e3d0ea 100644
--- a/parser/parse_system.go
+++ b/parser/parse_system.go
@@ -474,6 +474,9 @@ func (p *Parser) parseRoleSetting(_ Pos) (*RoleSetting, error) {
 		}
 
 	}
+	if len(pairs) == 0 {
+		return nil, fmt.Errorf("expected setting name or modifier, but got %s", p.currentTokenKind())
+	}
 	return &RoleSetting{
 		SettingPairs: pairs,
 	}, nil
diff --git a/parser/parser_alter.go b/parser/parser_alter.go
index 93471d3..78dee3f 100644
--- a/parser/parser_alter.go
+++ b/parser/parser_alter.go
@@ -375,8 +375,10 @@ func (p *Parser) parsePartitionClause(pos Pos) (*PartitionClause, error) {
 			return nil, err
 		}
 		partition.ID = id
-	} else if p.tryConsumeKeywords(KeywordAll) {
+	} else if p.matchKeyword(KeywordAll) {
 		partition.All = true
+		partition.allEnd = p.End()
+		_ = p.lexer.consumeToken()
 	} else {
 		expr, err := p.parseExpr(p.Pos())
 		if err != nil {
diff --git a/parser/parser_table.go b/parser/parser_table.go
index e515e4c..63b020c 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -2384,12 +2384,19 @@ func (p *Parser) parseDictionaryArgExpr(pos Pos) (*DictionaryArgExpr, error) {
 		}
 		// Check if it's followed by optional parentheses
 		if p.matchTokenKind(TokenKindLParen) {
+			leftParenPos := p.Pos()
 			_ = p.lexer.consumeToken() // consume (
+			rightParenPos := p.Pos()
 			if err := p.expectTokenKind(TokenKindRParen); err != nil {
 				return nil, err
 			}
 			value = &FunctionExpr{
 				Name: ident,
+				Params: &ParamExprList{
+					LeftParenPos:  leftParenPos,
+					RightParenPos: rightParenPos,
+					Items:         &ColumnExprList{ListPos: rightParenPos, ListEnd: rightParenPos},
+				},
 			}
 		} else {
 			value = ident
-- 
2.43.0


From bae259d8fe3d8fc80209e690cfcb29e07ef82887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:59 +0000
Subject: [PATCH 06/38] fix: match DEFAULT ROLE and DEFAULT DATABASE in any
 letter case

---
 parser/parse_system.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/parser/parse_system.go b/parser/parse_system.go
index 3e3d0ea..ab0dad5 100644
--- a/parser/parse_system.go
+++ b/parser/parse_system.go
@@ -817,7 +817,7 @@ func (p *Parser) parseDefaultClause(createUser *CreateUser) (bool, error) {
 	if nextToken == nil {
 		return false, nil
 	}
-	if nextToken.String == KeywordRole {
+	if strings.EqualFold(nextToken.String, KeywordRole) {
 		defaultRole, err := p.parseDefaultRoleClause(p.Pos())
 		if err != nil {
 			return false, err
@@ -825,9 +825,7 @@ func (p *Parser) parseDefaultClause(createUser *CreateUser) (bool, error) {
 		createUser.DefaultRole = defaultRole
 		createUser.StatementEnd = defaultRole.End()
 		return true, nil
-	} else if nextToken.String == KeywordDatabase {
-		_ = p.lexer.consumeToken() // consume DEFAULT
-		_ = p.lexer.consumeToken() // consume DATABASE
+	} else if p.tryConsumeKeywords(KeywordDefault, KeywordDatabase) {
 		if p.tryConsumeKeywords(KeywordNone) {
 			createUser.DefaultDbNone = true
 			createUser.StatementEnd = p.End()
-- 
2.43.0


From f8f8dbd34330fa9b82857da73fc424937cf6da25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:18 +0000
Subject: [PATCH 07/38] fix: do not discard a second ON CLUSTER clause in DROP
 USER and DROP ROLE

---
 parser/parse_system.go | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/parser/parse_system.go b/parser/parse_system.go
index ab0dad5..eec7bc4 100644
--- a/parser/parse_system.go
+++ b/parser/parse_system.go
@@ -967,14 +967,6 @@ func (p *Parser) parserDropUserOrRole(pos Pos) (*DropUserOrRole, error) {
 	}
 	statementEnd := names[len(names)-1].End()
 
-	onCluster, err := p.tryParseClusterClause(p.Pos())
-	if err != nil {
-		return nil, err
-	}
-	if onCluster != nil {
-		statementEnd = onCluster.End()
-	}
-
 	var from *Ident
 	if p.tryConsumeKeywords(KeywordFrom) {
 		from, err = p.parseIdent()
-- 
2.43.0


From 0c278204825cef532dfeca73a897e3dbdaa7c625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:26 +0000
Subject: [PATCH 08/38] fix: walk and visit the pairs of a RENAME statement

---
 parser/ast.go  | 5 +----
 parser/walk.go | 5 +----
 2 files changed, 2 insertions(+), 8 deletions(-)

diff --git a/parser/ast.go b/parser/ast.go
index cfdea95..f843f94 100644
--- a/parser/ast.go
+++ b/parser/ast.go
@@ -6299,10 +6299,7 @@ func (r *RenameStmt) Accept(visitor ASTVisitor) error {
 	visitor.Enter(r)
 	defer visitor.Leave(r)
 	for _, pair := range r.TargetPairList {
-		if err := pair.Old.Accept(visitor); err != nil {
-			return err
-		}
-		if err := pair.New.Accept(visitor); err != nil {
+		if err := pair.Accept(visitor); err != nil {
 			return err
 		}
 	}
diff --git a/parser/walk.go b/parser/walk.go
index e129a35..db1cdbb 100644
--- a/parser/walk.go
+++ b/parser/walk.go
@@ -593,10 +593,7 @@ func Walk(node Expr, fn WalkFunc) bool {
 		}
 	case *RenameStmt:
 		for _, pair := range n.TargetPairList {
-			if !Walk(pair.Old, fn) {
-				return false
-			}
-			if !Walk(pair.New, fn) {
+			if !Walk(pair, fn) {
 				return false
 			}
 		}
-- 
2.43.0


From 6a64ecbe4fca4809b5bb28d378f07b0e49936964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:32 +0000
Subject: [PATCH 09/38] fix: keep DISTINCT when formatting an array literal

---
 parser/format.go | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/parser/format.go b/parser/format.go
index 752c746..ab3f0dd 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -518,12 +518,7 @@ func (a *AlterTableUpdate) FormatSQL(formatter *Formatter) {
 
 func (a *ArrayParamList) FormatSQL(formatter *Formatter) {
 	formatter.WriteString("[")
-	for i, item := range a.Items.Items {
-		if i > 0 {
-			formatter.WriteString(", ")
-		}
-		formatter.WriteExpr(item)
-	}
+	formatter.WriteExpr(a.Items)
 	formatter.WriteString("]")
 }
 
-- 
2.43.0


From 302bf72fb84018b434485bca49a7452e39be8705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:45 +0000
Subject: [PATCH 10/38] fix: keep an empty kerberos realm when formatting

---
 parser/format.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/format.go b/parser/format.go
index ab3f0dd..e77b607 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -555,7 +555,7 @@ func (a *AuthenticationClause) FormatSQL(formatter *Formatter) {
 	if a.IsKerberos {
 		formatter.Break()
 		formatter.WriteString("WITH kerberos")
-		if a.KerberosRealm != nil && a.KerberosRealm.Literal != "" {
+		if a.KerberosRealm != nil {
 			formatter.WriteString(" REALM ")
 			formatter.WriteExpr(a.KerberosRealm)
 		}
-- 
2.43.0


From 54dba93e9a60937b7404fc83000edac32e4951ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:57 +0000
Subject: [PATCH 11/38] fix: keep DISTINCT when formatting a parametric
 aggregate call

---
 parser/format.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/format.go b/parser/format.go
index e77b607..acac6da 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -644,6 +644,9 @@ func (o *ClusterClause) FormatSQL(formatter *Formatter) {
 
 func (c *ColumnArgList) FormatSQL(formatter *Formatter) {
 	formatter.WriteByte('(')
+	if c.Distinct {
+		formatter.WriteString("DISTINCT ")
+	}
 	for i, item := range c.Items {
 		if i > 0 {
 			formatter.WriteString(", ")
-- 
2.43.0


From 30e504ce43ed973917c0696b83a300d2b4b07007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:09 +0000
Subject: [PATCH 12/38] fix: reject a column that is both NULL and NOT NULL

---
 parser/parser_table.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/parser/parser_table.go b/parser/parser_table.go
index 63b020c..fa51ce2 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -690,9 +690,12 @@ func (p *Parser) parseTableColumnExpr(pos Pos) (*ColumnDef, error) {
 	if nullable != nil {
 		columnEnd = nullable.End()
 	}
-	notNull, err := p.tryParseNotNull(p.Pos())
-	if err != nil {
-		return nil, err
+	var notNull *NotNullLiteral
+	if nullable == nil {
+		notNull, err = p.tryParseNotNull(p.Pos())
+		if err != nil {
+			return nil, err
+		}
 	}
 	if notNull != nil {
 		columnEnd = notNull.End()
-- 
2.43.0


From 568345ed1c18a6dcc750b6783b340d7b0a8b735c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:21 +0000
Subject: [PATCH 13/38] fix: keep the UUID when formatting CREATE LIVE VIEW

---
 parser/format.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/format.go b/parser/format.go
index acac6da..7b6d2a8 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -855,6 +855,10 @@ func (c *CreateLiveView) FormatSQL(formatter *Formatter) {
 		formatter.WriteString("IF NOT EXISTS ")
 	}
 	formatter.WriteExpr(c.Name)
+	if c.UUID != nil {
+		formatter.WriteByte(whitespace)
+		formatter.WriteExpr(c.UUID)
+	}
 
 	if c.OnCluster != nil {
 		formatter.Break()
-- 
2.43.0


From 278025ddcb4429b9e0b087e4733548c297e6195e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:33 +0000
Subject: [PATCH 14/38] fix: keep WITH TOTALS without GROUP BY when formatting

---
 parser/format.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/format.go b/parser/format.go
index 7b6d2a8..ef46309 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -2346,6 +2346,10 @@ func (s *SelectQuery) FormatSQL(formatter *Formatter) {
 		formatter.Break()
 		formatter.WriteExpr(s.GroupBy)
 	}
+	if s.WithTotal {
+		formatter.Break()
+		formatter.WriteString("WITH TOTALS")
+	}
 	if s.Having != nil {
 		formatter.Break()
 		formatter.WriteExpr(s.Having)
-- 
2.43.0


From 701edeaf9220153eee8efc6b25574a58f5b43101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:44 +0000
Subject: [PATCH 15/38] fix: format the schema of a destination with the
 destination

---
 parser/format.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/parser/format.go b/parser/format.go
index ef46309..374ff90 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -935,10 +935,6 @@ func (c *CreateMaterializedView) FormatSQL(formatter *Formatter) {
 	if c.Destination != nil {
 		formatter.Break()
 		formatter.WriteExpr(c.Destination)
-		if c.Destination.TableSchema != nil {
-			formatter.Break()
-			formatter.WriteExpr(c.Destination.TableSchema)
-		}
 	}
 	if c.HasEmpty {
 		formatter.Break()
@@ -1222,6 +1218,10 @@ func (d *DescribeStmt) FormatSQL(formatter *Formatter) {
 func (d *DestinationClause) FormatSQL(formatter *Formatter) {
 	formatter.WriteString("TO ")
 	formatter.WriteExpr(d.TableIdentifier)
+	if d.TableSchema != nil {
+		formatter.Break()
+		formatter.WriteExpr(d.TableSchema)
+	}
 }
 
 func (d *DictionaryArgExpr) FormatSQL(formatter *Formatter) {
-- 
2.43.0


From e38c7134580947cd7465ae2ad5f9ed531147dee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:15 +0000
Subject: [PATCH 16/38] fix: read ON as part of DISTINCT ON only after DISTINCT

---
 parser/parser_query.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/parser/parser_query.go b/parser/parser_query.go
index 6b5e48c..7216959 100644
--- a/parser/parser_query.go
+++ b/parser/parser_query.go
@@ -1107,9 +1107,12 @@ func (p *Parser) parseSelectStmt(pos Pos) (*SelectQuery, error) { // nolint: fun
 	}
 	// DISTINCT?
 	hasDistinct := p.tryConsumeKeywords(KeywordDistinct)
-	distinctOn, err := p.tryParseDistinctOn(p.Pos())
-	if err != nil {
-		return nil, err
+	var distinctOn *DistinctOn
+	if hasDistinct {
+		distinctOn, err = p.tryParseDistinctOn(p.Pos())
+		if err != nil {
+			return nil, err
+		}
 	}
 
 	top, err := p.tryParseTopClause(p.Pos())
-- 
2.43.0


From 546a656430c81cdc24ee46146772a0362eeadb50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:27 +0000
Subject: [PATCH 17/38] fix: require a pattern after SHOW DATABASES NOT

---
 parser/parser_table.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/parser_table.go b/parser/parser_table.go
index fa51ce2..445fb91 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -1638,6 +1638,9 @@ func (p *Parser) parseShowStmt(pos Pos) (*ShowStmt, error) {
 		if p.matchKeyword(KeywordNot) {
 			stmt.NotLike = true
 			_ = p.lexer.consumeToken()
+			if !p.matchOneOfKeywords(KeywordLike, KeywordIlike) {
+				return nil, fmt.Errorf("expected LIKE or ILIKE after NOT, got %q", p.currentTokenString())
+			}
 		}
 
 		if p.matchKeyword(KeywordLike) || p.matchKeyword(KeywordIlike) {
-- 
2.43.0


From 3ff4c6b6eca5df6de4276de329fb6e186751e75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:39 +0000
Subject: [PATCH 18/38] fix: reject a repeated clause in CREATE USER instead of
 dropping the first

---
 parser/parse_system.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/parser/parse_system.go b/parser/parse_system.go
index eec7bc4..ddf37cb 100644
--- a/parser/parse_system.go
+++ b/parser/parse_system.go
@@ -817,7 +817,7 @@ func (p *Parser) parseDefaultClause(createUser *CreateUser) (bool, error) {
 	if nextToken == nil {
 		return false, nil
 	}
-	if strings.EqualFold(nextToken.String, KeywordRole) {
+	if createUser.DefaultRole == nil && strings.EqualFold(nextToken.String, KeywordRole) {
 		defaultRole, err := p.parseDefaultRoleClause(p.Pos())
 		if err != nil {
 			return false, err
@@ -825,7 +825,7 @@ func (p *Parser) parseDefaultClause(createUser *CreateUser) (bool, error) {
 		createUser.DefaultRole = defaultRole
 		createUser.StatementEnd = defaultRole.End()
 		return true, nil
-	} else if p.tryConsumeKeywords(KeywordDefault, KeywordDatabase) {
+	} else if createUser.DefaultDatabase == nil && !createUser.DefaultDbNone && p.tryConsumeKeywords(KeywordDefault, KeywordDatabase) {
 		if p.tryConsumeKeywords(KeywordNone) {
 			createUser.DefaultDbNone = true
 			createUser.StatementEnd = p.End()
@@ -846,7 +846,7 @@ func (p *Parser) parseOptionalClauses(createUser *CreateUser) error {
 	continueParsing := true
 	for continueParsing {
 		switch {
-		case p.matchOneOfKeywords(KeywordNot, KeywordIdentified):
+		case createUser.Authentication == nil && p.matchOneOfKeywords(KeywordNot, KeywordIdentified):
 			auth, err := p.parseAuthenticationClause(p.Pos())
 			if err != nil {
 				return err
@@ -854,7 +854,7 @@ func (p *Parser) parseOptionalClauses(createUser *CreateUser) error {
 			createUser.Authentication = auth
 			createUser.StatementEnd = auth.End()
 
-		case p.matchKeyword(KeywordValid):
+		case createUser.ValidUntil == nil && p.matchKeyword(KeywordValid):
 			_ = p.lexer.consumeToken() // consume VALID keyword
 			if err := p.expectKeyword(KeywordUntil); err != nil {
 				return err
@@ -866,7 +866,7 @@ func (p *Parser) parseOptionalClauses(createUser *CreateUser) error {
 			createUser.ValidUntil = validUntil
 			createUser.StatementEnd = validUntil.End()
 
-		case p.matchKeyword(KeywordHost):
+		case createUser.Hosts == nil && p.matchKeyword(KeywordHost):
 			hosts, err := p.parseHostClauses()
 			if err != nil {
 				return err
@@ -883,7 +883,7 @@ func (p *Parser) parseOptionalClauses(createUser *CreateUser) error {
 				continueParsing = false
 			}
 
-		case p.matchKeyword(KeywordGrantees):
+		case createUser.Grantees == nil && p.matchKeyword(KeywordGrantees):
 			grantees, err := p.parseGranteesClause(p.Pos())
 			if err != nil {
 				return err
@@ -891,7 +891,7 @@ func (p *Parser) parseOptionalClauses(createUser *CreateUser) error {
 			createUser.Grantees = grantees
 			createUser.StatementEnd = grantees.End()
 
-		case p.matchKeyword(KeywordSettings):
+		case createUser.Settings == nil && p.matchKeyword(KeywordSettings):
 			_ = p.lexer.consumeToken() // consume SETTINGS keyword
 			settings, err := p.parseRoleSettings(p.Pos())
 			if err != nil {
-- 
2.43.0


From b77bfe8bec5491d7a34c5a08e03d4cbe4365ef25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:42 +0000
Subject: [PATCH 19/38] fix: reject a repeated clause after ENGINE instead of
 dropping the first

---
 parser/parser_table.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/parser/parser_table.go b/parser/parser_table.go
index 445fb91..a6e7c3b 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -1438,42 +1438,42 @@ func (p *Parser) parseEngineExpr(pos Pos) (*EngineExpr, error) {
 
 	for !p.lexer.isEOF() {
 		switch {
-		case p.matchKeyword(KeywordOrder):
+		case engineExpr.OrderBy == nil && p.matchKeyword(KeywordOrder):
 			orderBy, err := p.tryParseTableOrderByClause(p.Pos())
 			if err != nil {
 				return nil, err
 			}
 			engineExpr.OrderBy = orderBy
 			engineEnd = orderBy.End()
-		case p.matchKeyword(KeywordPartition):
+		case engineExpr.PartitionBy == nil && p.matchKeyword(KeywordPartition):
 			partitionBy, err := p.tryParsePartitionByClause(p.Pos())
 			if err != nil {
 				return nil, err
 			}
 			engineExpr.PartitionBy = partitionBy
 			engineEnd = partitionBy.End()
-		case p.matchKeyword(KeywordPrimary):
+		case engineExpr.PrimaryKey == nil && p.matchKeyword(KeywordPrimary):
 			primaryKey, err := p.tryParsePrimaryKeyClause(p.Pos())
 			if err != nil {
 				return nil, err
 			}
 			engineExpr.PrimaryKey = primaryKey
 			engineEnd = primaryKey.End()
-		case p.matchKeyword(KeywordSample):
+		case engineExpr.SampleBy == nil && p.matchKeyword(KeywordSample):
 			sampleBy, err := p.tryParseSampleByClause(p.Pos())
 			if err != nil {
 				return nil, err
 			}
 			engineExpr.SampleBy = sampleBy
 			engineEnd = sampleBy.End()
-		case p.matchKeyword(KeywordTtl):
+		case engineExpr.TTL == nil && p.matchKeyword(KeywordTtl):
 			ttl, err := p.tryParseTTLClause(p.Pos(), true)
 			if err != nil {
 				return nil, err
 			}
 			engineExpr.TTL = ttl
 			engineEnd = ttl.End()
-		case p.matchKeyword(KeywordSettings):
+		case engineExpr.Settings == nil && p.matchKeyword(KeywordSettings):
 			settingsClause, err := p.tryParseSettingsClause(p.Pos())
 			if err != nil {
 				return nil, err
-- 
2.43.0


From 160f91ee899434c150fe1147cfafb4e0f6dc2971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:56 +0000
Subject: [PATCH 20/38] fix: '(' is not an infix operator

getNextPrecedence gave '(' a binding strength although parseInfix cannot
read it, so an expression followed by '(' always failed.
---
 parser/parser_column.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser_column.go b/parser/parser_column.go
index fcc9eb1..656a5fd 100644
--- a/parser/parser_column.go
+++ b/parser/parser_column.go
@@ -72,7 +72,7 @@ func (p *Parser) getNextPrecedence() int {
 		return PrecedenceMulDivMod
 	case p.matchTokenKind(TokenKindArrow):
 		return PrecedenceArrow
-	case p.matchTokenKind(TokenKindLParen), p.matchTokenKind(TokenKindLBracket):
+	case p.matchTokenKind(TokenKindLBracket):
 		return PrecedenceBracket
 	case p.matchKeyword(KeywordBetween), p.matchKeyword(KeywordLike), p.matchKeyword(KeywordIlike), p.matchKeyword(KeywordRegexp):
 		return PrecedenceBetweenLike
-- 
2.43.0


From f781bc007db2471211289830949ccfe27cf39d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:33 +0000
Subject: [PATCH 21/38] fix: recognise ARRAY JOIN in any letter case

Modifiers keep their source spelling, so array join a AS x, b was read as a
join of tables.
---
 parser/parser_query.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/parser_query.go b/parser/parser_query.go
index 7216959..830960d 100644
--- a/parser/parser_query.go
+++ b/parser/parser_query.go
@@ -357,7 +357,9 @@ func (p *Parser) parseJoinRightExpr(pos Pos) (expr Expr, err error) {
 	modifiers = append(modifiers, KeywordJoin)
 
 	// Check if this is an ARRAY JOIN
-	if slices.Contains(modifiers, KeywordArray) {
+	if slices.ContainsFunc(modifiers, func(modifier string) bool {
+		return strings.EqualFold(modifier, KeywordArray)
+	}) {
 		// For ARRAY JOIN, parse column expression list instead of table expression
 		expr, err = p.parseColumnExprList(p.Pos())
 		if err != nil {
-- 
2.43.0


From e12293cc41fb07ab2399d644bdd6ffe0527894d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:45 +0000
Subject: [PATCH 22/38] fix: match the modifiers of role settings in any letter
 case

SETTINGS max_memory_usage min 1 was rejected and = 1 const was read as a
setting named const.
---
 parser/parse_system.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parser/parse_system.go b/parser/parse_system.go
index ddf37cb..a2eda19 100644
--- a/parser/parse_system.go
+++ b/parser/parse_system.go
@@ -436,7 +436,8 @@ func (p *Parser) parseRoleSetting(_ Pos) (*RoleSetting, error) {
 		if err != nil {
 			return nil, err
 		}
-		switch name.Name {
+		upperName := strings.ToUpper(name.Name)
+		switch upperName {
 		case "NONE", "READABLE", "WRITABLE", "CONST", "CHANGEABLE_IN_READONLY":
 			return &RoleSetting{
 				Modifier:     name,
@@ -459,7 +460,7 @@ func (p *Parser) parseRoleSetting(_ Pos) (*RoleSetting, error) {
 			// docs: https://clickhouse.com/docs/en/sql-reference/statements/alter/role
 			// the operator "=" was required if the variable name is NOT in
 			// ["MIN", "MAX", "PROFILE"] and value is existed.
-			if value != nil && name.Name != "MIN" && name.Name != "MAX" && name.Name != "PROFILE" && op != TokenKindSingleEQ {
+			if value != nil && upperName != "MIN" && upperName != "MAX" && upperName != "PROFILE" && op != TokenKindSingleEQ {
 				return nil, fmt.Errorf("expected operator = or no value, but got %s", op)
 			}
 			pairs = append(pairs, &SettingPair{
-- 
2.43.0


From a55c6bfe86d7986199c95b5c0f0d662cbac6f130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:52 +0000
Subject: [PATCH 23/38] fix: CREATE LIVE VIEW without a subquery has an end

---
 parser/parser_view.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/parser/parser_view.go b/parser/parser_view.go
index 02e31bc..84bcef6 100644
--- a/parser/parser_view.go
+++ b/parser/parser_view.go
@@ -301,25 +301,35 @@ func (p *Parser) parseCreateLiveView(pos Pos) (*CreateLiveView, error) {
 		return nil, err
 	}
 	createLiveView.Name = tableIdentifier
+	createLiveView.StatementEnd = tableIdentifier.End()
 
 	// try parse UUID clause if exists
 	uuid, err := p.tryParseUUID()
 	if err != nil {
 		return nil, err
 	}
-	createLiveView.UUID = uuid
+	if uuid != nil {
+		createLiveView.UUID = uuid
+		createLiveView.StatementEnd = uuid.End()
+	}
 	// parse ON CLUSTER clause if exists
 	onCluster, err := p.tryParseClusterClause(p.Pos())
 	if err != nil {
 		return nil, err
 	}
-	createLiveView.OnCluster = onCluster
+	if onCluster != nil {
+		createLiveView.OnCluster = onCluster
+		createLiveView.StatementEnd = onCluster.End()
+	}
 
 	withTimeout, err := p.tryParseWithTimeout(p.Pos())
 	if err != nil {
 		return nil, err
 	}
-	createLiveView.WithTimeout = withTimeout
+	if withTimeout != nil {
+		createLiveView.WithTimeout = withTimeout
+		createLiveView.StatementEnd = withTimeout.End()
+	}
 
 	if p.matchKeyword(KeywordTo) {
 		destination, err := p.parseDestinationClause(p.Pos())
@@ -327,6 +337,7 @@ func (p *Parser) parseCreateLiveView(pos Pos) (*CreateLiveView, error) {
 			return nil, err
 		}
 		createLiveView.Destination = destination
+		createLiveView.StatementEnd = destination.End()
 	}
 
 	if p.matchTokenKind(TokenKindLParen) {
@@ -335,6 +346,7 @@ func (p *Parser) parseCreateLiveView(pos Pos) (*CreateLiveView, error) {
 			return nil, err
 		}
 		createLiveView.TableSchema = tableSchema
+		createLiveView.StatementEnd = tableSchema.End()
 	}
 
 	if p.tryConsumeKeywords(KeywordAs) {
-- 
2.43.0


From 7cdb43222af8437f35da68432d74e366b6ff5470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:04 +0000
Subject: [PATCH 24/38] fix: an INTERPOLATE expression starts at its own first
 token

---
 parser/parser_table.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser_table.go b/parser/parser_table.go
index a6e7c3b..38b4a17 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -1148,7 +1148,7 @@ func (p *Parser) parseInterpolateClause(interpolatePos Pos) (*InterpolateClause,
 		item := &InterpolateItem{Column: column}
 
 		if p.tryConsumeKeywords(KeywordAs) {
-			expr, err := p.parseExpr(interpolatePos)
+			expr, err := p.parseExpr(p.Pos())
 			if err != nil {
 				return nil, err
 			}
-- 
2.43.0


From c02f5343c2e4dd8e2cb590df5aee72e0be988ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:16 +0000
Subject: [PATCH 25/38] fix: the arguments of a table function after AS start
 at their parenthesis

---
 parser/parser_table.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser_table.go b/parser/parser_table.go
index 38b4a17..b65e48e 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -578,7 +578,7 @@ func (p *Parser) parseTableSchemaClause(pos Pos) (*TableSchemaClause, error) {
 			}, nil
 		case p.matchTokenKind(TokenKindLParen):
 			// it's a table function
-			argsExpr, err := p.parseTableArgList(pos)
+			argsExpr, err := p.parseTableArgList(p.Pos())
 			if err != nil {
 				return nil, err
 			}
-- 
2.43.0


From 349e5202a246200259aa7ae2b30e00ff1e21e547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:38 +0000
Subject: [PATCH 26/38] fix: a call with two argument lists ends after the
 second

---
 parser/ast.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/ast.go b/parser/ast.go
index f843f94..3dc44d9 100644
--- a/parser/ast.go
+++ b/parser/ast.go
@@ -2867,6 +2867,9 @@ func (f *ParamExprList) Pos() Pos {
 }
 
 func (f *ParamExprList) End() Pos {
+	if f.ColumnArgList != nil {
+		return f.ColumnArgList.End()
+	}
 	return f.RightParenPos
 }
 
-- 
2.43.0


From f493f4d674677409253e4e090f125596237bdfc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:50 +0000
Subject: [PATCH 27/38] fix: CREATE DATABASE with a comment ends after the
 comment

---
 parser/parser_table.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/parser_table.go b/parser/parser_table.go
index b65e48e..786af97 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -110,6 +110,9 @@ func (p *Parser) parseCreateDatabase(pos Pos) (*CreateDatabase, error) {
 	if err != nil {
 		return nil, err
 	}
+	if commentExpr != nil {
+		StatementEnd = commentExpr.End()
+	}
 	return &CreateDatabase{
 		CreatePos:    pos,
 		StatementEnd: StatementEnd,
-- 
2.43.0


From b0f5830ddebd4790bc22d602cee0e28c8754b900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:04 +0000
Subject: [PATCH 28/38] fix: GRANT ON CLUSTER c SELECT is formatted with a
 space after the cluster

---
 parser/format.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/format.go b/parser/format.go
index 374ff90..e36df1a 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -1564,8 +1564,8 @@ func (g *GlobalInOperation) FormatSQL(formatter *Formatter) {
 func (g *GrantPrivilegeStmt) FormatSQL(formatter *Formatter) {
 	formatter.WriteString("GRANT ")
 	if g.OnCluster != nil {
-		formatter.WriteByte(whitespace)
 		formatter.WriteExpr(g.OnCluster)
+		formatter.WriteByte(whitespace)
 	}
 	for i, privilege := range g.Privileges {
 		if i > 0 {
-- 
2.43.0


From 28e3c6fecbedb57d7303c2db753a3138694c19d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:16 +0000
Subject: [PATCH 29/38] fix: beautifying does not indent the lines of a string
 literal

---
 parser/format.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/parser/format.go b/parser/format.go
index e36df1a..b275dd8 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -55,9 +55,16 @@ func (f *Formatter) writeIndentIfNeeded() {
 }
 
 func (f *Formatter) WriteString(s string) {
-	for i := 0; i < len(s); i++ {
-		f.WriteByte(s[i])
+	if s == "" {
+		return
+	}
+	// s may be a string literal or a quoted name that spans lines: its lines
+	// must not be indented
+	if f.mode == FormatModeBeautify {
+		f.writeIndentIfNeeded()
+		f.lineStart = s[len(s)-1] == newline
 	}
+	f.builder.WriteString(s)
 }
 
 func (f *Formatter) WriteByte(b byte) {
-- 
2.43.0


From 9417280d10486b8ef48c32cab86148f3beba1208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:36 +0000
Subject: [PATCH 30/38] fix: a list in parentheses reads its closing
 parenthesis once

---
 parser/parser_table.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/parser_table.go b/parser/parser_table.go
index 786af97..ad197dd 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -1827,7 +1827,7 @@ func (p *Parser) parseColumnNamesExpr(pos Pos) (*ColumnNamesExpr, error) {
 	}
 
 	var columnNames []NestedIdentifier
-	for !p.lexer.isEOF() && p.tryConsumeTokenKind(TokenKindRParen) == nil {
+	for !p.lexer.isEOF() && !p.matchTokenKind(TokenKindRParen) {
 		name, err := p.ParseNestedIdentifier(p.Pos())
 		if err != nil {
 			return nil, err
@@ -1885,7 +1885,7 @@ func (p *Parser) parseAssignmentValues(pos Pos) (*AssignmentValues, error) {
 	var value Expr
 	var err error
 	values := make([]Expr, 0)
-	for !p.lexer.isEOF() && p.tryConsumeTokenKind(TokenKindRParen) == nil {
+	for !p.lexer.isEOF() && !p.matchTokenKind(TokenKindRParen) {
 		switch {
 		case p.matchTokenKind(TokenKindLParen):
 			value, err = p.parseAssignmentValues(p.Pos())
-- 
2.43.0


From a76d1b662183fc63ea91e85b3a9d71ccf4e5c201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:49 +0000
Subject: [PATCH 31/38] fix: a SYSTEM privilege is recorded as SYSTEM, not SHOW

---
 parser/parse_system.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parse_system.go b/parser/parse_system.go
index a2eda19..e7018dd 100644
--- a/parser/parse_system.go
+++ b/parser/parse_system.go
@@ -1133,7 +1133,7 @@ func (p *Parser) parsePrivilegeShow(pos Pos) (*PrivilegeClause, error) {
 }
 
 func (p *Parser) parsePrivilegeSystem(pos Pos) (*PrivilegeClause, error) {
-	keywords := []string{KeywordShow}
+	keywords := []string{KeywordSystem}
 	switch {
 	case p.matchOneOfKeywords(KeywordShutdown, KeywordMerges, KeywordFetches, KeywordSends, KeywordMoves, KeywordCluster):
 		keyword := p.current().String
-- 
2.43.0


From 4e05d85ae1d86ad2d06e0664fc5ef9cebec44c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:01 +0000
Subject: [PATCH 32/38] fix: IDENTIFIED WITH needs an authentication type

---
 parser/parse_system.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser/parse_system.go b/parser/parse_system.go
index e7018dd..4ebf9c4 100644
--- a/parser/parse_system.go
+++ b/parser/parse_system.go
@@ -622,6 +622,8 @@ func (p *Parser) parseAuthenticationClause(pos Pos) (*AuthenticationClause, erro
 				auth.AuthValue = value
 				auth.AuthEnd = value.End()
 			}
+		} else {
+			return nil, fmt.Errorf("expected an authentication type after WITH, but got %q", p.currentTokenString())
 		}
 	}
 
-- 
2.43.0


From d285e28fb5515ae92df993dd63839cd943f41ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:16 +0000
Subject: [PATCH 33/38] fix: ALTER TABLE ADD INDEX IF NOT EXISTS was formatted
 as ADD IF NOT EXISTS INDEX

---
 parser/format.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/parser/format.go b/parser/format.go
index b275dd8..5316159 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -256,11 +256,11 @@ func (a *AlterTableAddColumn) FormatSQL(formatter *Formatter) {
 }
 
 func (a *AlterTableAddIndex) FormatSQL(formatter *Formatter) {
-	formatter.WriteString("ADD ")
+	formatter.WriteString("ADD INDEX ")
 	if a.IfNotExists {
 		formatter.WriteString("IF NOT EXISTS ")
 	}
-	formatter.WriteExpr(a.Index)
+	a.Index.formatDefinition(formatter)
 	if a.After != nil {
 		formatter.WriteString(" AFTER ")
 		formatter.WriteExpr(a.After)
@@ -2639,6 +2639,11 @@ func (t *TableIdentifier) FormatSQL(formatter *Formatter) {
 func (a *TableIndex) FormatSQL(formatter *Formatter) {
 	formatter.WriteString("INDEX")
 	formatter.WriteByte(whitespace)
+	a.formatDefinition(formatter)
+}
+
+// formatDefinition writes the index without the leading INDEX keyword.
+func (a *TableIndex) formatDefinition(formatter *Formatter) {
 	formatter.WriteExpr(a.Name)
 	// Add space only if column expression doesn't start with '('
 	columnExprStr := Format(a.ColumnExpr)
-- 
2.43.0


From c9312ae15229406dd3a62a498741fdd269979a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:28 +0000
Subject: [PATCH 34/38] fix: the COMMENT of a column is formatted before its
 CODEC and TTL, where it is read

---
 parser/format.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/parser/format.go b/parser/format.go
index 5316159..98c1a92 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -686,6 +686,10 @@ func (c *ColumnDef) FormatSQL(formatter *Formatter) {
 		formatter.WriteString(" ALIAS ")
 		formatter.WriteExpr(c.AliasExpr)
 	}
+	if c.Comment != nil {
+		formatter.WriteString(" COMMENT ")
+		formatter.WriteExpr(c.Comment)
+	}
 	if c.Codec != nil {
 		formatter.WriteByte(whitespace)
 		formatter.WriteExpr(c.Codec)
@@ -694,10 +698,6 @@ func (c *ColumnDef) FormatSQL(formatter *Formatter) {
 		formatter.WriteByte(whitespace)
 		formatter.WriteExpr(c.TTL)
 	}
-	if c.Comment != nil {
-		formatter.WriteString(" COMMENT ")
-		formatter.WriteExpr(c.Comment)
-	}
 }
 
 func (c *ColumnExpr) FormatSQL(formatter *Formatter) {
-- 
2.43.0


From 9fa01105cb017d0b6d9247ca2a4a22275d1bcb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:38 +0000
Subject: [PATCH 35/38] fix: FINAL is formatted before SAMPLE, where it is read

---
 parser/format.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser/format.go b/parser/format.go
index 98c1a92..84f3849 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -1911,13 +1911,13 @@ func writeJoinSQL(formatter *Formatter, expr Expr) {
 
 func (j *JoinTableExpr) FormatSQL(formatter *Formatter) {
 	formatter.WriteExpr(j.Table)
+	if j.HasFinal {
+		formatter.WriteString(" FINAL")
+	}
 	if j.SampleRatio != nil {
 		formatter.WriteByte(whitespace)
 		formatter.WriteExpr(j.SampleRatio)
 	}
-	if j.HasFinal {
-		formatter.WriteString(" FINAL")
-	}
 }
 
 func (l *LimitByClause) FormatSQL(formatter *Formatter) {
-- 
2.43.0


From c60cbebde95cd77f88b6c5cdf39c1738ec126f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:49 +0000
Subject: [PATCH 36/38] fix: the WINDOW clause is formatted after HAVING, where
 it is read

---
 parser/format.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/parser/format.go b/parser/format.go
index 84f3849..1566163 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -2337,10 +2337,6 @@ func (s *SelectQuery) FormatSQL(formatter *Formatter) {
 		formatter.Break()
 		formatter.WriteExpr(s.From)
 	}
-	if s.Window != nil {
-		formatter.Break()
-		formatter.WriteExpr(s.Window)
-	}
 	if s.Prewhere != nil {
 		formatter.Break()
 		formatter.WriteExpr(s.Prewhere)
@@ -2361,6 +2357,10 @@ func (s *SelectQuery) FormatSQL(formatter *Formatter) {
 		formatter.Break()
 		formatter.WriteExpr(s.Having)
 	}
+	if s.Window != nil {
+		formatter.Break()
+		formatter.WriteExpr(s.Window)
+	}
 	if s.OrderBy != nil {
 		formatter.Break()
 		formatter.WriteExpr(s.OrderBy)
-- 
2.43.0


From c7e4d927ffb39ec394cfe73973035185f3273036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:59 +0000
Subject: [PATCH 37/38] fix: SYSTEM FLUSH DISTRIBUTED and SYSTEM SYNC REPLICA
 were formatted without the second word

---
 parser/format.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/format.go b/parser/format.go
index 1566163..3274a8d 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -2520,6 +2520,7 @@ func (s *SystemFlushExpr) FormatSQL(formatter *Formatter) {
 	if s.Logs {
 		formatter.WriteString("LOGS")
 	} else {
+		formatter.WriteString("DISTRIBUTED ")
 		formatter.WriteExpr(s.Distributed)
 	}
 }
@@ -2544,7 +2545,7 @@ func (s *SystemStmt) FormatSQL(formatter *Formatter) {
 }
 
 func (s *SystemSyncExpr) FormatSQL(formatter *Formatter) {
-	formatter.WriteString("SYNC ")
+	formatter.WriteString("SYNC REPLICA ")
 	formatter.WriteExpr(s.Cluster)
 }
 
-- 
2.43.0


From d3637d9dec2f45f52bcab17237965cf2f8cbd539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:02 +0000
Subject: [PATCH 38/38] fix: a CONSTRAINT was formatted without CONSTRAINT and
 CHECK

---
 parser/format.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/format.go b/parser/format.go
index 3274a8d..e3d715b 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -772,8 +772,9 @@ func (c *CompressionCodec) FormatSQL(formatter *Formatter) {
 }
 
 func (c *ConstraintClause) FormatSQL(formatter *Formatter) {
+	formatter.WriteString("CONSTRAINT ")
 	formatter.WriteExpr(c.Constraint)
-	formatter.WriteByte(whitespace)
+	formatter.WriteString(" CHECK ")
 	formatter.WriteExpr(c.Expr)
 }
 
-- 
2.43.0

