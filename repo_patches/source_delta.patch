From a1b6a2dd907262ebf32751b117d4d8d5e76303ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:56 +0000
Subject: [PATCH 01/66] fix: keep lexical errors and a trailing one-token
 statement from being ignored

ParseStmts stopped as soon as the lexer had read the whole input, so a last
statement made of one token was dropped, and an unclosed comment or quoted
identifier behind a complete statement was taken for the end of the input.
---
 parser/lexer.go        | 19 +++++++++++++++----
 parser/parser_table.go |  7 ++++++-
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index 96df452..24c79b6 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -77,6 +77,7 @@ func (t *Token) ToString() string {
 type lexerState struct {
 	offset       int    // byte offset into input of the next unread character
 	currentToken *Token // current lookahead token; nil at end of input
+	err          error  // first lexical error; no token follows it
 }
 
 type Lexer struct {
@@ -335,12 +336,12 @@ func (l *Lexer) skipComments() error {
 
 func (l *Lexer) peekToken() (*Token, error) {
 	savedState := l.saveState()
-	if err := l.consumeToken(); err != nil {
-		return nil, err
-	}
+	err := l.consumeToken()
 	token := l.currentToken
-
 	l.restoreState(savedState)
+	if err != nil {
+		return nil, err
+	}
 	return token, nil
 }
 
@@ -356,7 +357,17 @@ func (l *Lexer) hasPrecedenceToken(last *Token) bool {
 		last.Kind == TokenKindRBracket)
 }
 
+// consumeToken moves on to the next token. A lexical error is remembered: most
+// callers only look at the token that follows, and must not take malformed
+// text for the end of the input, nor go on reading in the middle of it.
 func (l *Lexer) consumeToken() error {
+	if l.err == nil {
+		l.err = l.readToken()
+	}
+	return l.err
+}
+
+func (l *Lexer) readToken() error {
 	// replace the current token; keep the previous one to disambiguate unary +/-
 	prevToken := l.currentToken
 	l.currentToken = nil
diff --git a/parser/parser_table.go b/parser/parser_table.go
index a29fd45..b5bbcb5 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -1551,13 +1551,18 @@ func (p *Parser) ParseStmts() ([]Expr, error) {
 		if err := p.lexer.consumeToken(); err != nil {
 			return nil, p.wrapError(err)
 		}
-		if p.lexer.isEOF() {
+		// The last token may sit in p.current() with the whole input read, so
+		// only the absence of a token means the end of the script.
+		if p.current() == nil {
 			break
 		}
 		if p.matchTokenKind(";") {
 			continue
 		}
 		stmt, err := p.parseStmt(p.Pos())
+		if p.lexer.err != nil {
+			err = p.lexer.err // what stopped parseStmt short, if anything did
+		}
 		if err != nil {
 			return nil, p.wrapError(err)
 		}
-- 
2.43.0


From 7671551e77975620f47291f5cb611886aa644a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:42 +0000
Subject: [PATCH 02/66] fix: reject a SELECT without select items

---
 parser/parser_column.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/parser_column.go b/parser/parser_column.go
index ad53333..7dfcaf6 100644
--- a/parser/parser_column.go
+++ b/parser/parser_column.go
@@ -776,6 +776,9 @@ func (p *Parser) parseSelectItems() ([]*SelectItem, error) {
 			break
 		}
 	}
+	if len(selectItems) == 0 {
+		return nil, fmt.Errorf("expected a select item, but got %q", p.currentTokenKind())
+	}
 	return selectItems, nil
 }
 
-- 
2.43.0


From 588b3cd7d9392b4144a223b6bfe7d0c9bd8b7d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:42 +0000
Subject: [PATCH 03/66] fix: read ON (...) as DISTINCT ON only behind DISTINCT

SELECT ON (a) b was accepted and the ON clause never printed.
---
 parser/parser_query.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/parser/parser_query.go b/parser/parser_query.go
index 6b5e48c..4cf4257 100644
--- a/parser/parser_query.go
+++ b/parser/parser_query.go
@@ -1107,9 +1107,13 @@ func (p *Parser) parseSelectStmt(pos Pos) (*SelectQuery, error) { // nolint: fun
 	}
 	// DISTINCT?
 	hasDistinct := p.tryConsumeKeywords(KeywordDistinct)
-	distinctOn, err := p.tryParseDistinctOn(p.Pos())
-	if err != nil {
-		return nil, err
+	// ON (...) only has a meaning behind DISTINCT
+	var distinctOn *DistinctOn
+	if hasDistinct {
+		distinctOn, err = p.tryParseDistinctOn(p.Pos())
+		if err != nil {
+			return nil, err
+		}
 	}
 
 	top, err := p.tryParseTopClause(p.Pos())
-- 
2.43.0


From 5196079a2442a8472c3b46e794418511760286c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:53 +0000
Subject: [PATCH 04/66] fix: recognise array join whatever its letter case

---
 parser/parser_query.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/parser/parser_query.go b/parser/parser_query.go
index 4cf4257..8ca526a 100644
--- a/parser/parser_query.go
+++ b/parser/parser_query.go
@@ -300,10 +300,8 @@ func (p *Parser) parseJoinModifiers(pos Pos) ([]string, error) {
 	}
 
 	// ARRAY JOIN reads a column list rather than a distributed table, so it has
-	// no locality. Modifiers keep their source spelling, hence EqualFold.
-	if slices.ContainsFunc(joinType, func(modifier string) bool {
-		return strings.EqualFold(modifier, KeywordArray)
-	}) {
+	// no locality.
+	if containsKeyword(joinType, KeywordArray) {
 		// point at the locality, not at wherever the join op stopped
 		return nil, &ParseError{
 			Pos: locality.Pos,
@@ -332,6 +330,14 @@ func (p *Parser) peekJoinAfterLocality() bool {
 	return modifiers != nil && p.matchKeyword(KeywordJoin)
 }
 
+// containsKeyword reports whether the modifiers, which keep their source
+// spelling, include the keyword.
+func containsKeyword(modifiers []string, keyword string) bool {
+	return slices.ContainsFunc(modifiers, func(modifier string) bool {
+		return strings.EqualFold(modifier, keyword)
+	})
+}
+
 func (p *Parser) parseJoinRightExpr(pos Pos) (expr Expr, err error) {
 	var rightExpr Expr
 	var modifiers []string
@@ -356,8 +362,8 @@ func (p *Parser) parseJoinRightExpr(pos Pos) (expr Expr, err error) {
 
 	modifiers = append(modifiers, KeywordJoin)
 
-	// Check if this is an ARRAY JOIN
-	if slices.Contains(modifiers, KeywordArray) {
+	// Check if this is an ARRAY JOIN. Modifiers keep their source spelling.
+	if containsKeyword(modifiers, KeywordArray) {
 		// For ARRAY JOIN, parse column expression list instead of table expression
 		expr, err = p.parseColumnExprList(p.Pos())
 		if err != nil {
-- 
2.43.0


From d9fa1a9d9acfba525f4e782ec6d6ecd9544cb495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:16 +0000
Subject: [PATCH 05/66] fix: print WITH TOTALS of a query without GROUP BY

---
 parser/format.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/format.go b/parser/format.go
index 752c746..c26904b 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -2344,6 +2344,10 @@ func (s *SelectQuery) FormatSQL(formatter *Formatter) {
 		formatter.Break()
 		formatter.WriteExpr(s.GroupBy)
 	}
+	if s.WithTotal {
+		formatter.Break()
+		formatter.WriteString("WITH TOTALS")
+	}
 	if s.Having != nil {
 		formatter.Break()
 		formatter.WriteExpr(s.Having)
-- 
2.43.0


From 92302a2d7041e1bbeb0d89b7d89e25f5cc3adeae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:57 +0000
Subject: [PATCH 06/66] fix: print WINDOW behind HAVING, where it is parsed

---
 parser/format.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/parser/format.go b/parser/format.go
index c26904b..44791f7 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -2328,10 +2328,6 @@ func (s *SelectQuery) FormatSQL(formatter *Formatter) {
 		formatter.Break()
 		formatter.WriteExpr(s.From)
 	}
-	if s.Window != nil {
-		formatter.Break()
-		formatter.WriteExpr(s.Window)
-	}
 	if s.Prewhere != nil {
 		formatter.Break()
 		formatter.WriteExpr(s.Prewhere)
@@ -2352,6 +2348,10 @@ func (s *SelectQuery) FormatSQL(formatter *Formatter) {
 		formatter.Break()
 		formatter.WriteExpr(s.Having)
 	}
+	if s.Window != nil {
+		formatter.Break()
+		formatter.WriteExpr(s.Window)
+	}
 	if s.OrderBy != nil {
 		formatter.Break()
 		formatter.WriteExpr(s.OrderBy)
-- 
2.43.0


From 5ef1ba3fda2d2ca57a32c0ddcb32d3fd1298bea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:08 +0000
Subject: [PATCH 07/66] fix: print FINAL before SAMPLE, in the order they are
 parsed

---
 parser/format.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser/format.go b/parser/format.go
index 44791f7..a82c179 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -1902,13 +1902,13 @@ func writeJoinSQL(formatter *Formatter, expr Expr) {
 
 func (j *JoinTableExpr) FormatSQL(formatter *Formatter) {
 	formatter.WriteExpr(j.Table)
+	if j.HasFinal {
+		formatter.WriteString(" FINAL")
+	}
 	if j.SampleRatio != nil {
 		formatter.WriteByte(whitespace)
 		formatter.WriteExpr(j.SampleRatio)
 	}
-	if j.HasFinal {
-		formatter.WriteString(" FINAL")
-	}
 }
 
 func (l *LimitByClause) FormatSQL(formatter *Formatter) {
-- 
2.43.0


From cd9223890575744bc1eb9209bba1eb4b1a119cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:38 +0000
Subject: [PATCH 08/66] fix: CREATE USER ending in a keyword no longer panics,
 DEFAULT reads ROLE and DATABASE in any case

---
 parser/lexer.go         |  4 ++++
 parser/parse_system.go  | 34 +++++++++++++++++++++++-----------
 parser/parser_common.go |  5 +++++
 3 files changed, 32 insertions(+), 11 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index 24c79b6..64fe0ed 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -78,6 +78,7 @@ type lexerState struct {
 	offset       int    // byte offset into input of the next unread character
 	currentToken *Token // current lookahead token; nil at end of input
 	err          error  // first lexical error; no token follows it
+	prevEnd      Pos    // end of the last consumed token
 }
 
 type Lexer struct {
@@ -370,6 +371,9 @@ func (l *Lexer) consumeToken() error {
 func (l *Lexer) readToken() error {
 	// replace the current token; keep the previous one to disambiguate unary +/-
 	prevToken := l.currentToken
+	if prevToken != nil {
+		l.prevEnd = prevToken.End
+	}
 	l.currentToken = nil
 	if err := l.skipComments(); err != nil {
 		return err
diff --git a/parser/parse_system.go b/parser/parse_system.go
index f75f091..fcc3da8 100644
--- a/parser/parse_system.go
+++ b/parser/parse_system.go
@@ -562,6 +562,15 @@ func (p *Parser) parseCreateRole(pos Pos) (*CreateRole, error) {
 	}, nil
 }
 
+// keywordClauseEnd returns the end recorded for a clause whose last token was a
+// bare keyword: the end of the token behind it, which need not exist.
+func (p *Parser) keywordClauseEnd() Pos {
+	if p.current() == nil {
+		return p.prevEnd()
+	}
+	return p.current().End
+}
+
 func (p *Parser) parseAuthenticationClause(pos Pos) (*AuthenticationClause, error) {
 	auth := &AuthenticationClause{AuthPos: pos}
 
@@ -570,14 +579,14 @@ func (p *Parser) parseAuthenticationClause(pos Pos) (*AuthenticationClause, erro
 			return nil, err
 		}
 		auth.NotIdentified = true
-		auth.AuthEnd = p.current().End
+		auth.AuthEnd = p.keywordClauseEnd()
 		return auth, nil
 	}
 
 	if err := p.expectKeyword(KeywordIdentified); err != nil {
 		return nil, err
 	}
-	auth.AuthEnd = p.current().End
+	auth.AuthEnd = p.keywordClauseEnd()
 
 	if p.tryConsumeKeywords(KeywordWith) {
 		if p.matchKeyword(KeywordLdap) {
@@ -594,7 +603,7 @@ func (p *Parser) parseAuthenticationClause(pos Pos) (*AuthenticationClause, erro
 		} else if p.matchKeyword(KeywordKerberos) {
 			_ = p.lexer.consumeToken()
 			auth.IsKerberos = true
-			auth.AuthEnd = p.current().End
+			auth.AuthEnd = p.keywordClauseEnd()
 			if p.tryConsumeKeywords(KeywordRealm) {
 				realm, err := p.parseString(p.Pos())
 				if err != nil {
@@ -608,7 +617,7 @@ func (p *Parser) parseAuthenticationClause(pos Pos) (*AuthenticationClause, erro
 			authType := p.current().String
 			_ = p.lexer.consumeToken()
 			auth.AuthType = authType
-			auth.AuthEnd = p.current().End
+			auth.AuthEnd = p.keywordClauseEnd()
 
 			if p.tryConsumeKeywords(KeywordBy) {
 				value, err := p.parseString(p.Pos())
@@ -636,7 +645,7 @@ func (p *Parser) parseHostClause(pos Pos) (*HostClause, error) {
 		hostType := p.current().String
 		_ = p.lexer.consumeToken()
 		host.HostType = hostType
-		host.HostEnd = p.current().End
+		host.HostEnd = p.keywordClauseEnd()
 	case p.matchOneOfKeywords(KeywordName, KeywordRegexp, KeywordIp, KeywordLike):
 		hostType := p.current().String
 		_ = p.lexer.consumeToken()
@@ -666,7 +675,7 @@ func (p *Parser) parseDefaultRoleClause(pos Pos) (*DefaultRoleClause, error) {
 
 	if p.tryConsumeKeywords(KeywordNone) {
 		defaultRole.None = true
-		defaultRole.DefaultEnd = p.current().End
+		defaultRole.DefaultEnd = p.keywordClauseEnd()
 		return defaultRole, nil
 	}
 
@@ -699,10 +708,10 @@ func (p *Parser) parseGranteesClause(pos Pos) (*GranteesClause, error) {
 
 	if p.tryConsumeKeywords(KeywordAny) {
 		grantees.Any = true
-		grantees.GranteesEnd = p.current().End
+		grantees.GranteesEnd = p.keywordClauseEnd()
 	} else if p.tryConsumeKeywords(KeywordNone) {
 		grantees.None = true
-		grantees.GranteesEnd = p.current().End
+		grantees.GranteesEnd = p.keywordClauseEnd()
 	} else {
 		// Parse list of grantees
 		granteeList := make([]*RoleName, 0)
@@ -810,8 +819,11 @@ func (p *Parser) parseDefaultClause(createUser *CreateUser) (bool, error) {
 	if err != nil {
 		return false, err
 	}
+	if nextToken == nil || nextToken.Kind != TokenKindKeyword {
+		return false, nil
+	}
 
-	if nextToken.String == KeywordRole {
+	if strings.EqualFold(nextToken.String, KeywordRole) {
 		defaultRole, err := p.parseDefaultRoleClause(p.Pos())
 		if err != nil {
 			return false, err
@@ -819,12 +831,12 @@ func (p *Parser) parseDefaultClause(createUser *CreateUser) (bool, error) {
 		createUser.DefaultRole = defaultRole
 		createUser.StatementEnd = defaultRole.End()
 		return true, nil
-	} else if nextToken.String == KeywordDatabase {
+	} else if strings.EqualFold(nextToken.String, KeywordDatabase) {
 		_ = p.lexer.consumeToken() // consume DEFAULT
 		_ = p.lexer.consumeToken() // consume DATABASE
 		if p.tryConsumeKeywords(KeywordNone) {
 			createUser.DefaultDbNone = true
-			createUser.StatementEnd = p.current().End
+			createUser.StatementEnd = p.keywordClauseEnd()
 		} else {
 			db, err := p.parseIdent()
 			if err != nil {
diff --git a/parser/parser_common.go b/parser/parser_common.go
index 7532601..a12e105 100644
--- a/parser/parser_common.go
+++ b/parser/parser_common.go
@@ -62,6 +62,11 @@ func (p *Parser) End() Pos {
 	return p.current().End
 }
 
+// prevEnd returns the end of the last consumed token.
+func (p *Parser) prevEnd() Pos {
+	return p.lexer.prevEnd
+}
+
 func (p *Parser) Pos() Pos {
 	last := p.current()
 	if last == nil {
-- 
2.43.0


From 2345c019eacc5897ce616c9954732fce0ab39ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:20 +0000
Subject: [PATCH 09/66] fix: read and print SYSTEM SYNC, FLUSH, RELOAD, START
 and STOP in full

---
 parser/format.go       |  3 ++-
 parser/parse_system.go | 19 ++++++++++---------
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/parser/format.go b/parser/format.go
index a82c179..232c0a3 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -2511,6 +2511,7 @@ func (s *SystemFlushExpr) FormatSQL(formatter *Formatter) {
 	if s.Logs {
 		formatter.WriteString("LOGS")
 	} else {
+		formatter.WriteString("DISTRIBUTED ")
 		formatter.WriteExpr(s.Distributed)
 	}
 }
@@ -2535,7 +2536,7 @@ func (s *SystemStmt) FormatSQL(formatter *Formatter) {
 }
 
 func (s *SystemSyncExpr) FormatSQL(formatter *Formatter) {
-	formatter.WriteString("SYNC ")
+	formatter.WriteString("SYNC REPLICA ")
 	formatter.WriteExpr(s.Cluster)
 }
 
diff --git a/parser/parse_system.go b/parser/parse_system.go
index fcc3da8..b236a5f 100644
--- a/parser/parse_system.go
+++ b/parser/parse_system.go
@@ -83,10 +83,10 @@ func (p *Parser) parseSystemReloadExpr(pos Pos) (*SystemReloadExpr, error) {
 		_ = p.lexer.consumeToken()
 	case p.tryConsumeKeywords(KeywordEmbedded):
 		typ = "EMBEDDED DICTIONARIES"
-		statementEnd = p.current().End
 		if err := p.expectKeyword(KeywordDictionaries); err != nil {
 			return nil, err
 		}
+		statementEnd = p.prevEnd()
 	default:
 		return nil, fmt.Errorf("expected DICTIONARIES|DICTIONARY|EMBEDDED")
 	}
@@ -154,21 +154,22 @@ func (p *Parser) parseSystemCtrlExpr(pos Pos) (*SystemCtrlExpr, error) {
 
 	var typ string
 	switch {
-	case p.tryConsumeKeywords(KeywordDistributed):
+	case p.matchOneOfKeywords(KeywordDistributed, KeywordFetches, KeywordMerges, KeywordTtl):
 		switch {
-		case p.matchKeyword(KeywordSends):
+		case p.tryConsumeKeywords(KeywordDistributed):
 			typ = "DISTRIBUTED SENDS"
-		case p.matchKeyword(KeywordFetches):
+			if err := p.expectKeyword(KeywordSends); err != nil {
+				return nil, err
+			}
+		case p.tryConsumeKeywords(KeywordFetches):
 			typ = "FETCHES"
-		case p.matchKeyword(KeywordMerges):
+		case p.tryConsumeKeywords(KeywordMerges):
 			typ = "MERGES"
-		case p.matchKeyword(KeywordTtl):
+		case p.tryConsumeKeywords(KeywordTtl):
 			typ = "TTL MERGES"
 			if err := p.expectKeyword(KeywordMerges); err != nil {
 				return nil, err
 			}
-		default:
-			return nil, fmt.Errorf("expected SENDS|FETCHES|MERGES|TTL")
 		}
 		cluster, err := p.parseTableIdentifier(p.Pos())
 		if err != nil {
@@ -194,7 +195,7 @@ func (p *Parser) parseSystemCtrlExpr(pos Pos) (*SystemCtrlExpr, error) {
 			Type:         typ,
 		}, nil
 	default:
-		return nil, fmt.Errorf("expected DISTRIBUTED|REPLICATED")
+		return nil, fmt.Errorf("expected DISTRIBUTED|FETCHES|MERGES|TTL|REPLICATED")
 	}
 }
 
-- 
2.43.0


From 261b236310a5b455d65f81709221d1647b173162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:06 +0000
Subject: [PATCH 10/66] fix: reject empty role settings, read role setting
 words in any case

---
 parser/ast.go          |  3 +++
 parser/parse_system.go | 12 ++++++++++--
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/parser/ast.go b/parser/ast.go
index b6eb41f..1643079 100644
--- a/parser/ast.go
+++ b/parser/ast.go
@@ -1655,6 +1655,9 @@ func (s *SettingPair) Pos() Pos {
 }
 
 func (s *SettingPair) End() Pos {
+	if s.Value == nil {
+		return s.Name.NameEnd
+	}
 	return s.Value.End()
 }
 
diff --git a/parser/parse_system.go b/parser/parse_system.go
index b236a5f..d2f4ef7 100644
--- a/parser/parse_system.go
+++ b/parser/parse_system.go
@@ -437,7 +437,12 @@ func (p *Parser) parseRoleSetting(_ Pos) (*RoleSetting, error) {
 		if err != nil {
 			return nil, err
 		}
-		switch name.Name {
+		// a quoted name is a setting, whatever it spells
+		word := ""
+		if name.QuoteType == Unquoted {
+			word = strings.ToUpper(name.Name)
+		}
+		switch word {
 		case "NONE", "READABLE", "WRITABLE", "CONST", "CHANGEABLE_IN_READONLY":
 			return &RoleSetting{
 				Modifier:     name,
@@ -460,7 +465,7 @@ func (p *Parser) parseRoleSetting(_ Pos) (*RoleSetting, error) {
 			// docs: https://clickhouse.com/docs/en/sql-reference/statements/alter/role
 			// the operator "=" was required if the variable name is NOT in
 			// ["MIN", "MAX", "PROFILE"] and value is existed.
-			if value != nil && name.Name != "MIN" && name.Name != "MAX" && name.Name != "PROFILE" && op != TokenKindSingleEQ {
+			if value != nil && word != "MIN" && word != "MAX" && word != "PROFILE" && op != TokenKindSingleEQ {
 				return nil, fmt.Errorf("expected operator = or no value, but got %s", op)
 			}
 			pairs = append(pairs, &SettingPair{
@@ -475,6 +480,9 @@ func (p *Parser) parseRoleSetting(_ Pos) (*RoleSetting, error) {
 		}
 
 	}
+	if len(pairs) == 0 {
+		return nil, fmt.Errorf("expected a setting, but got %q", p.currentTokenKind())
+	}
 	return &RoleSetting{
 		SettingPairs: pairs,
 	}, nil
-- 
2.43.0


From 6e7819ce480f386155f84e42b4b39fe08ce471c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:47 +0000
Subject: [PATCH 11/66] fix: print DROP USER and ROLE modifiers behind FROM,
 and end nodes at their last part

---
 parser/ast.go          | 9 ++++++---
 parser/format.go       | 6 +++---
 parser/parse_system.go | 4 ++++
 3 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/parser/ast.go b/parser/ast.go
index 1643079..b7f4252 100644
--- a/parser/ast.go
+++ b/parser/ast.go
@@ -1616,12 +1616,12 @@ func (r *RoleName) Pos() Pos {
 }
 
 func (r *RoleName) End() Pos {
-	if r.Scope != nil {
-		return r.Scope.End()
-	}
 	if r.OnCluster != nil {
 		return r.OnCluster.End()
 	}
+	if r.Scope != nil {
+		return r.Scope.End()
+	}
 	return r.Name.End()
 }
 
@@ -6227,6 +6227,9 @@ func (c *CheckStmt) Pos() Pos {
 }
 
 func (c *CheckStmt) End() Pos {
+	if c.Partition == nil {
+		return c.Table.End()
+	}
 	return c.Partition.End()
 }
 
diff --git a/parser/format.go b/parser/format.go
index 232c0a3..62131c5 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -1438,13 +1438,13 @@ func (d *DropUserOrRole) FormatSQL(formatter *Formatter) {
 		}
 		formatter.WriteExpr(name)
 	}
-	if len(d.Modifier) != 0 {
-		formatter.WriteString(" " + d.Modifier)
-	}
 	if d.From != nil {
 		formatter.WriteString(" FROM ")
 		formatter.WriteExpr(d.From)
 	}
+	if len(d.Modifier) != 0 {
+		formatter.WriteString(" " + d.Modifier)
+	}
 }
 
 func (e *EngineExpr) FormatSQL(formatter *Formatter) {
diff --git a/parser/parse_system.go b/parser/parse_system.go
index d2f4ef7..694be07 100644
--- a/parser/parse_system.go
+++ b/parser/parse_system.go
@@ -998,12 +998,16 @@ func (p *Parser) parserDropUserOrRole(pos Pos) (*DropUserOrRole, error) {
 		if err != nil {
 			return nil, err
 		}
+		statementEnd = from.End()
 	}
 
 	modifier, err := p.tryParseModifier()
 	if err != nil {
 		return nil, err
 	}
+	if modifier != "" {
+		statementEnd = p.prevEnd()
+	}
 
 	return &DropUserOrRole{
 		DropPos:      pos,
-- 
2.43.0


From 35191a144f3ebf8cec6e3a15f9e9709936669e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:27 +0000
Subject: [PATCH 12/66] fix: record SYSTEM, INDEX, CONSTRAINT and NONE
 privileges as written, and print ON CLUSTER before them

---
 parser/ast.go          | 11 ++++++++++-
 parser/format.go       |  2 +-
 parser/parse_system.go | 12 +++++++-----
 3 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/parser/ast.go b/parser/ast.go
index b7f4252..64d58f5 100644
--- a/parser/ast.go
+++ b/parser/ast.go
@@ -1,5 +1,7 @@
 package parser
 
+import "strings"
+
 type OrderDirection string
 
 const (
@@ -6370,7 +6372,14 @@ func (p *PrivilegeClause) Pos() Pos {
 }
 
 func (p *PrivilegeClause) End() Pos {
-	return p.PrivilegeEnd
+	if p.PrivilegeEnd != 0 {
+		return p.PrivilegeEnd
+	}
+	// the parser leaves PrivilegeEnd unset
+	if p.Params != nil {
+		return p.Params.End()
+	}
+	return p.PrivilegePos + Pos(len(strings.Join(p.Keywords, " ")))
 }
 
 func (p *PrivilegeClause) Accept(visitor ASTVisitor) error {
diff --git a/parser/format.go b/parser/format.go
index 62131c5..8aae3a9 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -1562,8 +1562,8 @@ func (g *GlobalInOperation) FormatSQL(formatter *Formatter) {
 func (g *GrantPrivilegeStmt) FormatSQL(formatter *Formatter) {
 	formatter.WriteString("GRANT ")
 	if g.OnCluster != nil {
-		formatter.WriteByte(whitespace)
 		formatter.WriteExpr(g.OnCluster)
+		formatter.WriteByte(whitespace)
 	}
 	for i, privilege := range g.Privileges {
 		if i > 0 {
diff --git a/parser/parse_system.go b/parser/parse_system.go
index 694be07..3ce19c0 100644
--- a/parser/parse_system.go
+++ b/parser/parse_system.go
@@ -1057,11 +1057,12 @@ func (p *Parser) parsePrivilegeAlter(pos Pos) (*PrivilegeClause, error) {
 			keywords = append(keywords, KeywordColumn)
 		case p.tryConsumeKeywords(KeywordIndex):
 			keywords = append(keywords, KeywordIndex)
+		case p.tryConsumeKeywords(KeywordConstraint):
 			keywords = append(keywords, KeywordConstraint)
 		case p.tryConsumeKeywords(KeywordTtl):
 			keywords = append(keywords, KeywordTtl)
 		default:
-			return nil, fmt.Errorf("expected COLUMN|INDEX")
+			return nil, fmt.Errorf("expected COLUMN|INDEX|CONSTRAINT|TTL")
 		}
 	case p.tryConsumeKeywords(KeywordOrder):
 		if err := p.expectKeyword(KeywordBy); err != nil {
@@ -1161,7 +1162,7 @@ func (p *Parser) parsePrivilegeShow(pos Pos) (*PrivilegeClause, error) {
 }
 
 func (p *Parser) parsePrivilegeSystem(pos Pos) (*PrivilegeClause, error) {
-	keywords := []string{KeywordShow}
+	keywords := []string{KeywordSystem}
 	switch {
 	case p.matchOneOfKeywords(KeywordShutdown, KeywordMerges, KeywordFetches, KeywordSends, KeywordMoves, KeywordCluster):
 		keyword := p.current().String
@@ -1253,11 +1254,12 @@ func (p *Parser) parsePrivilegeClause(pos Pos) (*PrivilegeClause, error) {
 		return p.parsePrivilegeDrop(pos)
 	case p.tryConsumeKeywords(KeywordShow):
 		return p.parsePrivilegeShow(pos)
-	case p.matchKeyword(KeywordAll), p.matchTokenKind(KeywordNone):
+	case p.matchOneOfKeywords(KeywordAll, KeywordNone):
+		keyword := p.current().ToString()
 		_ = p.lexer.consumeToken()
 		return &PrivilegeClause{
 			PrivilegePos: pos,
-			Keywords:     []string{KeywordAll},
+			Keywords:     []string{keyword},
 		}, nil
 	case p.tryConsumeKeywords(KeywordKill):
 		if err := p.expectKeyword(KeywordQuery); err != nil {
@@ -1413,7 +1415,7 @@ func (p *Parser) parseGrantPrivilegeStmt(pos Pos) (*GrantPrivilegeStmt, error) {
 		return nil, err
 	}
 	if len(options) != 0 {
-		statementEnd = p.End()
+		statementEnd = p.keywordClauseEnd()
 	}
 
 	return &GrantPrivilegeStmt{
-- 
2.43.0


From e53b3a6221104aca421b5ad0258a881caeac9dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:01 +0000
Subject: [PATCH 13/66] fix: print DETACH as DETACH, not as DROP

---
 parser/ast.go          |  2 ++
 parser/format.go       | 12 ++++++++++--
 parser/parser_drop.go  |  6 ++++--
 parser/parser_table.go |  8 ++++----
 4 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/parser/ast.go b/parser/ast.go
index 64d58f5..d096475 100644
--- a/parser/ast.go
+++ b/parser/ast.go
@@ -5579,6 +5579,7 @@ func (e *ExtractExpr) Accept(visitor ASTVisitor) error {
 type DropDatabase struct {
 	DropPos      Pos
 	StatementEnd Pos
+	IsDetach     bool `json:",omitempty"` // DETACH instead of DROP
 	Name         *Ident
 	IfExists     bool
 	OnCluster    *ClusterClause
@@ -5614,6 +5615,7 @@ func (d *DropDatabase) Accept(visitor ASTVisitor) error {
 type DropStmt struct {
 	DropPos      Pos
 	StatementEnd Pos
+	IsDetach     bool `json:",omitempty"` // DETACH instead of DROP
 
 	DropTarget  string
 	Name        *TableIdentifier
diff --git a/parser/format.go b/parser/format.go
index 8aae3a9..73b78fe 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -1394,7 +1394,11 @@ func (s *DistinctOn) FormatSQL(formatter *Formatter) {
 }
 
 func (d *DropDatabase) FormatSQL(formatter *Formatter) {
-	formatter.WriteString("DROP DATABASE ")
+	if d.IsDetach {
+		formatter.WriteString("DETACH DATABASE ")
+	} else {
+		formatter.WriteString("DROP DATABASE ")
+	}
 	if d.IfExists {
 		formatter.WriteString("IF EXISTS ")
 	}
@@ -1409,7 +1413,11 @@ func (d *DropDatabase) FormatSQL(formatter *Formatter) {
 }
 
 func (d *DropStmt) FormatSQL(formatter *Formatter) {
-	formatter.WriteString("DROP ")
+	if d.IsDetach {
+		formatter.WriteString("DETACH ")
+	} else {
+		formatter.WriteString("DROP ")
+	}
 	if d.IsTemporary {
 		formatter.WriteString("TEMPORARY ")
 	}
diff --git a/parser/parser_drop.go b/parser/parser_drop.go
index dc06329..93c7df6 100644
--- a/parser/parser_drop.go
+++ b/parser/parser_drop.go
@@ -1,6 +1,6 @@
 package parser
 
-func (p *Parser) parseDropDatabase(pos Pos) (*DropDatabase, error) {
+func (p *Parser) parseDropDatabase(pos Pos, isDetach bool) (*DropDatabase, error) {
 	if err := p.expectKeyword(KeywordDatabase); err != nil {
 		return nil, err
 	}
@@ -35,6 +35,7 @@ func (p *Parser) parseDropDatabase(pos Pos) (*DropDatabase, error) {
 
 	return &DropDatabase{
 		DropPos:      pos,
+		IsDetach:     isDetach,
 		Name:         name,
 		IfExists:     isExists,
 		OnCluster:    onCluster,
@@ -43,7 +44,7 @@ func (p *Parser) parseDropDatabase(pos Pos) (*DropDatabase, error) {
 	}, nil
 }
 
-func (p *Parser) parseDropStmt(pos Pos) (*DropStmt, error) {
+func (p *Parser) parseDropStmt(pos Pos, isDetach bool) (*DropStmt, error) {
 	var isTemporary bool
 	dropTarget := KeywordTable
 	switch {
@@ -80,6 +81,7 @@ func (p *Parser) parseDropStmt(pos Pos) (*DropStmt, error) {
 
 	return &DropStmt{
 		DropPos:      pos,
+		IsDetach:     isDetach,
 		DropTarget:   dropTarget,
 		Name:         name,
 		IfExists:     isExists,
diff --git a/parser/parser_table.go b/parser/parser_table.go
index b5bbcb5..5293674 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -53,17 +53,17 @@ func (p *Parser) parseDDL(pos Pos) (DDL, error) {
 		}
 	case p.matchKeyword(KeywordDrop),
 		p.matchKeyword(KeywordDetach):
+		isDetach := p.matchKeyword(KeywordDetach)
 		_ = p.lexer.consumeToken()
 		switch {
 		case p.matchKeyword(KeywordDatabase):
-			return p.parseDropDatabase(pos)
+			return p.parseDropDatabase(pos, isDetach)
 		case p.matchKeyword(KeywordTemporary),
 			p.matchKeyword(KeywordView),
 			p.matchKeyword(KeywordDictionary),
 			p.matchKeyword(KeywordTable):
-			return p.parseDropStmt(pos)
-		case p.matchKeyword(KeywordUser),
-			p.matchKeyword(KeywordRole):
+			return p.parseDropStmt(pos, isDetach)
+		case !isDetach && p.matchOneOfKeywords(KeywordUser, KeywordRole):
 			return p.parserDropUserOrRole(pos)
 		default:
 			return nil, fmt.Errorf("expected keyword: DATABASE|TABLE, but got %q", p.currentTokenString())
-- 
2.43.0


From c15dcfb4c065d4c53826f8524cd8b986d4067925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:07 +0000
Subject: [PATCH 14/66] fix: keep the parentheses of USING where the text needs
 them

---
 parser/format.go | 39 ++++++++++++++++++++++++++++++++++++++-
 1 file changed, 38 insertions(+), 1 deletion(-)

diff --git a/parser/format.go b/parser/format.go
index 73b78fe..9a32e92 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -1897,7 +1897,11 @@ func writeJoinSQL(formatter *Formatter, expr Expr) {
 		formatter.Indent()
 		formatter.Break()
 		formatter.WriteExpr(joinExpr.Left)
-		if joinExpr.Constraints != nil {
+		if using, ok := joinExpr.Constraints.(*UsingClause); ok && isCommaJoin(joinExpr.Right) {
+			// without parentheses the next table would be one more column
+			formatter.WriteByte(whitespace)
+			using.formatList(formatter, true)
+		} else if joinExpr.Constraints != nil {
 			formatter.WriteByte(whitespace)
 			formatter.WriteExpr(joinExpr.Constraints)
 		}
@@ -1908,6 +1912,12 @@ func writeJoinSQL(formatter *Formatter, expr Expr) {
 	}
 }
 
+// isCommaJoin reports whether the right side of a join is written behind a comma.
+func isCommaJoin(right Expr) bool {
+	joinExpr, ok := right.(*JoinExpr)
+	return right != nil && (!ok || len(joinExpr.Modifiers) == 0)
+}
+
 func (j *JoinTableExpr) FormatSQL(formatter *Formatter) {
 	formatter.WriteExpr(j.Table)
 	if j.HasFinal {
@@ -2773,8 +2783,35 @@ func (u *UseStmt) FormatSQL(formatter *Formatter) {
 }
 
 func (u *UsingClause) FormatSQL(formatter *Formatter) {
+	// without parentheses around the list, a first column that starts with one
+	// would be read as the whole list
+	u.formatList(formatter, !u.startsWithName())
+}
+
+func (u *UsingClause) startsWithName() bool {
+	if len(u.Using.Items) == 0 {
+		return true
+	}
+	column := u.Using.Items[0]
+	if columnExpr, ok := column.(*ColumnExpr); ok {
+		column = columnExpr.Expr
+	}
+	switch column.(type) {
+	case *Ident, *Path, *FunctionExpr:
+		return true
+	}
+	return false
+}
+
+func (u *UsingClause) formatList(formatter *Formatter, parens bool) {
 	formatter.WriteString("USING ")
+	if parens {
+		formatter.WriteByte('(')
+	}
 	formatter.WriteExpr(u.Using)
+	if parens {
+		formatter.WriteByte(')')
+	}
 }
 
 func (w *WhenClause) FormatSQL(formatter *Formatter) {
-- 
2.43.0


From b00ea9fd6fd7a1c686ddfa8f5167585018e11ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:53 +0000
Subject: [PATCH 15/66] fix: report a list cut short by the end of input, and
 an empty USING list

---
 parser/parser_column.go | 6 ++----
 parser/parser_query.go  | 3 +++
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/parser/parser_column.go b/parser/parser_column.go
index 7dfcaf6..6ae601c 100644
--- a/parser/parser_column.go
+++ b/parser/parser_column.go
@@ -735,17 +735,15 @@ func (p *Parser) parseColumnExprListWithTerm(term TokenKind, pos Pos) (*ColumnEx
 	}
 	columnExprList.HasDistinct = p.tryConsumeKeywords(KeywordDistinct)
 	columnList := make([]Expr, 0)
-	for !p.lexer.isEOF() || p.current() != nil {
+	for {
 		if term != "" && p.matchTokenKind(term) {
 			break
 		}
+		// at the end of input this reports the missing expression
 		columnExpr, err := p.parseColumnsExpr(p.Pos())
 		if err != nil {
 			return nil, err
 		}
-		if columnExpr == nil {
-			break
-		}
 		columnList = append(columnList, columnExpr)
 		if p.tryConsumeTokenKind(TokenKindComma) == nil {
 			break
diff --git a/parser/parser_query.go b/parser/parser_query.go
index 8ca526a..35c5dce 100644
--- a/parser/parser_query.go
+++ b/parser/parser_query.go
@@ -156,6 +156,9 @@ func (p *Parser) tryParseJoinConstraints(pos Pos) (Expr, error) {
 		if err != nil {
 			return nil, err
 		}
+		if len(columnExprList.Items) == 0 {
+			return nil, fmt.Errorf("expected a column, but got %q", p.currentTokenKind())
+		}
 		if hasParen {
 			if err := p.expectTokenKind(TokenKindRParen); err != nil {
 				return nil, err
-- 
2.43.0


From 973134ecc765cdd70691f4608a11ff07f21f543a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:23 +0000
Subject: [PATCH 16/66] fix: balance the parentheses of INSERT lists and keep
 VALUES without rows

---
 parser/format.go       | 2 +-
 parser/parser_table.go | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/parser/format.go b/parser/format.go
index 9a32e92..35e7ff8 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -1708,7 +1708,7 @@ func (i *InsertStmt) FormatSQL(formatter *Formatter) {
 	if i.SelectExpr != nil {
 		formatter.Break()
 		formatter.WriteExpr(i.SelectExpr)
-	} else if len(i.Values) > 0 {
+	} else if i.Values != nil {
 		formatter.Break()
 		formatter.WriteString("VALUES")
 		formatter.Indent()
diff --git a/parser/parser_table.go b/parser/parser_table.go
index 5293674..e686746 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -1823,7 +1823,7 @@ func (p *Parser) parseColumnNamesExpr(pos Pos) (*ColumnNamesExpr, error) {
 	}
 
 	var columnNames []NestedIdentifier
-	for !p.lexer.isEOF() && p.tryConsumeTokenKind(TokenKindRParen) == nil {
+	for !p.matchTokenKind(TokenKindRParen) || len(columnNames) > 0 {
 		name, err := p.ParseNestedIdentifier(p.Pos())
 		if err != nil {
 			return nil, err
@@ -1881,7 +1881,7 @@ func (p *Parser) parseAssignmentValues(pos Pos) (*AssignmentValues, error) {
 	var value Expr
 	var err error
 	values := make([]Expr, 0)
-	for !p.lexer.isEOF() && p.tryConsumeTokenKind(TokenKindRParen) == nil {
+	for !p.matchTokenKind(TokenKindRParen) || len(values) > 0 {
 		switch {
 		case p.matchTokenKind(TokenKindLParen):
 			value, err = p.parseAssignmentValues(p.Pos())
@@ -1949,7 +1949,8 @@ func (p *Parser) parseInsertStmt(pos Pos) (*InsertStmt, error) {
 		// consume VALUES keyword
 		_ = p.lexer.consumeToken()
 		values := make([]*AssignmentValues, 0)
-		for !p.lexer.isEOF() {
+		// the rows may follow outside of the statement
+		for p.matchTokenKind(TokenKindLParen) || len(values) > 0 {
 			value, err := p.parseAssignmentValues(p.Pos())
 			if err != nil {
 				return nil, err
-- 
2.43.0


From 05609ac884632b5e14d923d80660416f74fc626f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:55 +0000
Subject: [PATCH 17/66] fix: keep the FUNCTION keyword of INSERT, read ALTER
 clauses of one keyword

---
 parser/format.go       | 3 +++
 parser/parser_alter.go | 5 +----
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/parser/format.go b/parser/format.go
index 35e7ff8..c20b9da 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -1693,6 +1693,9 @@ func (i *InsertStmt) FormatSQL(formatter *Formatter) {
 	if i.HasTableKeyword {
 		formatter.WriteString("TABLE ")
 	}
+	if _, ok := i.Table.(*FunctionExpr); ok {
+		formatter.WriteString("FUNCTION ")
+	}
 	formatter.WriteExpr(i.Table)
 	if i.ColumnNames != nil {
 		formatter.Break()
diff --git a/parser/parser_alter.go b/parser/parser_alter.go
index 9523f01..c9467b1 100644
--- a/parser/parser_alter.go
+++ b/parser/parser_alter.go
@@ -25,7 +25,7 @@ func (p *Parser) parseAlterTable(pos Pos) (*AlterTable, error) {
 	}
 	alterTable.OnCluster = onCluster
 
-	for !p.lexer.isEOF() {
+	for {
 		var alter AlterTableClause
 		switch {
 		case p.matchKeyword(KeywordAdd):
@@ -71,9 +71,6 @@ func (p *Parser) parseAlterTable(pos Pos) (*AlterTable, error) {
 			break
 		}
 	}
-	if len(alterTable.AlterExprs) == 0 {
-		return nil, errors.New("expected token: ADD|DROP")
-	}
 	alterTable.StatementEnd = alterTable.AlterExprs[len(alterTable.AlterExprs)-1].End()
 
 	return alterTable, nil
-- 
2.43.0


From 05eee8bc30744abb2f814b8abe034e875a8974a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:28 +0000
Subject: [PATCH 18/66] fix: format and walk a dictionary argument such as
 user()

---
 parser/parser_table.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/parser/parser_table.go b/parser/parser_table.go
index e686746..d1cc7ee 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -2390,12 +2390,19 @@ func (p *Parser) parseDictionaryArgExpr(pos Pos) (*DictionaryArgExpr, error) {
 		}
 		// Check if it's followed by optional parentheses
 		if p.matchTokenKind(TokenKindLParen) {
+			lParenPos := p.Pos()
 			_ = p.lexer.consumeToken() // consume (
+			rParenPos := p.Pos()
 			if err := p.expectTokenKind(TokenKindRParen); err != nil {
 				return nil, err
 			}
 			value = &FunctionExpr{
 				Name: ident,
+				Params: &ParamExprList{
+					LeftParenPos:  lParenPos,
+					RightParenPos: rParenPos,
+					Items:         &ColumnExprList{ListPos: rParenPos, ListEnd: rParenPos},
+				},
 			}
 		} else {
 			value = ident
-- 
2.43.0


From 78dd02eec4cffd4ef86d2d81e4a842a946b78334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:57 +0000
Subject: [PATCH 19/66] fix: print CONSTRAINT ... CHECK in full and column
 COMMENT where it is parsed, reject NULL NOT NULL

---
 parser/format.go       | 11 ++++++-----
 parser/parser_table.go |  9 ++++++---
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/parser/format.go b/parser/format.go
index c20b9da..ca8a855 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -681,6 +681,10 @@ func (c *ColumnDef) FormatSQL(formatter *Formatter) {
 		formatter.WriteString(" ALIAS ")
 		formatter.WriteExpr(c.AliasExpr)
 	}
+	if c.Comment != nil {
+		formatter.WriteString(" COMMENT ")
+		formatter.WriteExpr(c.Comment)
+	}
 	if c.Codec != nil {
 		formatter.WriteByte(whitespace)
 		formatter.WriteExpr(c.Codec)
@@ -689,10 +693,6 @@ func (c *ColumnDef) FormatSQL(formatter *Formatter) {
 		formatter.WriteByte(whitespace)
 		formatter.WriteExpr(c.TTL)
 	}
-	if c.Comment != nil {
-		formatter.WriteString(" COMMENT ")
-		formatter.WriteExpr(c.Comment)
-	}
 }
 
 func (c *ColumnExpr) FormatSQL(formatter *Formatter) {
@@ -767,8 +767,9 @@ func (c *CompressionCodec) FormatSQL(formatter *Formatter) {
 }
 
 func (c *ConstraintClause) FormatSQL(formatter *Formatter) {
+	formatter.WriteString("CONSTRAINT ")
 	formatter.WriteExpr(c.Constraint)
-	formatter.WriteByte(whitespace)
+	formatter.WriteString(" CHECK ")
 	formatter.WriteExpr(c.Expr)
 }
 
diff --git a/parser/parser_table.go b/parser/parser_table.go
index d1cc7ee..c59848b 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -690,9 +690,12 @@ func (p *Parser) parseTableColumnExpr(pos Pos) (*ColumnDef, error) {
 	if nullable != nil {
 		columnEnd = nullable.End()
 	}
-	notNull, err := p.tryParseNotNull(p.Pos())
-	if err != nil {
-		return nil, err
+	var notNull *NotNullLiteral
+	if nullable == nil {
+		notNull, err = p.tryParseNotNull(p.Pos())
+		if err != nil {
+			return nil, err
+		}
 	}
 	if notNull != nil {
 		columnEnd = notNull.End()
-- 
2.43.0


From 0e1e4110db074c1da4e07d6540fabf475c530c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:15 +0000
Subject: [PATCH 20/66] fix: read PARTITION ID and ALL of DROP and DETACH, end
 PARTITION ALL, require PARTITION behind IN

---
 parser/ast.go          |  4 ++++
 parser/parser_alter.go | 29 ++++++-----------------------
 2 files changed, 10 insertions(+), 23 deletions(-)

diff --git a/parser/ast.go b/parser/ast.go
index d096475..35d274c 100644
--- a/parser/ast.go
+++ b/parser/ast.go
@@ -2318,6 +2318,7 @@ type PartitionClause struct {
 	Expr         Expr
 	ID           *StringLiteral
 	All          bool
+	AllEnd       Pos `json:",omitempty"`
 }
 
 func (p *PartitionClause) Pos() Pos {
@@ -2328,6 +2329,9 @@ func (p *PartitionClause) End() Pos {
 	if p.ID != nil {
 		return p.ID.LiteralEnd
 	}
+	if p.All {
+		return p.AllEnd
+	}
 	return p.Expr.End()
 }
 
diff --git a/parser/parser_alter.go b/parser/parser_alter.go
index c9467b1..c4a967a 100644
--- a/parser/parser_alter.go
+++ b/parser/parser_alter.go
@@ -326,18 +326,10 @@ func (p *Parser) parseAlterTableDrop(pos Pos) (AlterTableClause, error) {
 
 // Syntax: ALTER TABLE DETACH partitionClause
 func (p *Parser) parseAlterTableDetachPartition(pos Pos) (AlterTableClause, error) {
-	partitionPos := p.Pos()
-	if err := p.expectKeyword(KeywordPartition); err != nil {
-		return nil, err
-	}
-	partition := &PartitionClause{
-		PartitionPos: partitionPos,
-	}
-	expr, err := p.parseExpr(p.Pos())
+	partition, err := p.parsePartitionClause(p.Pos())
 	if err != nil {
 		return nil, err
 	}
-	partition.Expr = expr
 
 	settings, err := p.tryParseSettingsClause(p.Pos())
 	if err != nil {
@@ -374,6 +366,7 @@ func (p *Parser) parsePartitionClause(pos Pos) (*PartitionClause, error) {
 		partition.ID = id
 	} else if p.tryConsumeKeywords(KeywordAll) {
 		partition.All = true
+		partition.AllEnd = p.prevEnd()
 	} else {
 		expr, err := p.parseExpr(p.Pos())
 		if err != nil {
@@ -467,18 +460,10 @@ func (p *Parser) parseAlterTableDropPartition(pos Pos) (AlterTableClause, error)
 		_ = p.lexer.consumeToken()
 		hasDetached = true
 	}
-	partitionPos := p.Pos()
-	if err := p.expectKeyword(KeywordPartition); err != nil {
-		return nil, err
-	}
-	partition := &PartitionClause{
-		PartitionPos: partitionPos,
-	}
-	expr, err := p.parseExpr(p.Pos())
+	partition, err := p.parsePartitionClause(p.Pos())
 	if err != nil {
 		return nil, err
 	}
-	partition.Expr = expr
 
 	settings, err := p.tryParseSettingsClause(p.Pos())
 	if err != nil {
@@ -563,13 +548,11 @@ func (p *Parser) parseAlterTableClearClause(pos Pos) (AlterTableClause, error) {
 
 	var partition *PartitionClause
 	if p.tryConsumeKeywords(KeywordIn) {
-		partition, err = p.tryParsePartitionClause(p.Pos())
+		partition, err = p.parsePartitionClause(p.Pos())
 		if err != nil {
 			return nil, err
 		}
-		if partition != nil {
-			statementEnd = partition.End()
-		}
+		statementEnd = partition.End()
 	}
 
 	if kind == KeywordProjection {
@@ -816,7 +799,7 @@ func (p *Parser) parseAlterTableMaterialize(pos Pos) (AlterTableClause, error) {
 	statementEnd := name.End()
 	var partition *PartitionClause
 	if p.tryConsumeKeywords(KeywordIn) {
-		partition, err = p.tryParsePartitionClause(p.Pos())
+		partition, err = p.parsePartitionClause(p.Pos())
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From fbde0a3764f27771e814a387d3cba4bfe51f34f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:27 +0000
Subject: [PATCH 21/66] fix: print IF NOT EXISTS of ADD INDEX behind the INDEX
 keyword

---
 parser/format.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/parser/format.go b/parser/format.go
index ca8a855..6c4fb9b 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -249,11 +249,11 @@ func (a *AlterTableAddColumn) FormatSQL(formatter *Formatter) {
 }
 
 func (a *AlterTableAddIndex) FormatSQL(formatter *Formatter) {
-	formatter.WriteString("ADD ")
+	formatter.WriteString("ADD INDEX ")
 	if a.IfNotExists {
 		formatter.WriteString("IF NOT EXISTS ")
 	}
-	formatter.WriteExpr(a.Index)
+	a.Index.formatDefinition(formatter)
 	if a.After != nil {
 		formatter.WriteString(" AFTER ")
 		formatter.WriteExpr(a.After)
@@ -2653,6 +2653,11 @@ func (t *TableIdentifier) FormatSQL(formatter *Formatter) {
 func (a *TableIndex) FormatSQL(formatter *Formatter) {
 	formatter.WriteString("INDEX")
 	formatter.WriteByte(whitespace)
+	a.formatDefinition(formatter)
+}
+
+// formatDefinition writes the index without its leading INDEX keyword.
+func (a *TableIndex) formatDefinition(formatter *Formatter) {
 	formatter.WriteExpr(a.Name)
 	// Add space only if column expression doesn't start with '('
 	columnExprStr := Format(a.ColumnExpr)
-- 
2.43.0


From 05c83cdca494dedc5e26d730c73eb6d15d0eafe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:27 +0000
Subject: [PATCH 22/66] fix: read no alias in ORDER BY and PARTITION BY of a
 table engine, and end ORDER BY a AS at EOF with an error

---
 parser/parser_table.go | 49 ++++++++++++++++++++++++++++++------------
 1 file changed, 35 insertions(+), 14 deletions(-)

diff --git a/parser/parser_table.go b/parser/parser_table.go
index c59848b..1ce55f8 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -935,6 +935,35 @@ func (p *Parser) tryParsePartitionByClause(pos Pos) (*PartitionByClause, error)
 	}, nil
 }
 
+// tryParseTablePartitionByClause parses the PARTITION BY of a table engine, which
+// takes no aliases: an AS behind it starts the table's query.
+func (p *Parser) tryParseTablePartitionByClause(pos Pos) (*PartitionByClause, error) {
+	if !p.tryConsumeKeywords(KeywordPartition) {
+		return nil, nil // nolint
+	}
+
+	if err := p.expectKeyword(KeywordBy); err != nil {
+		return nil, err
+	}
+
+	columnExprList := &ColumnExprList{ListPos: p.Pos()}
+	for {
+		expr, err := p.parseExpr(p.Pos())
+		if err != nil {
+			return nil, err
+		}
+		columnExprList.Items = append(columnExprList.Items, &ColumnExpr{Expr: expr})
+		columnExprList.ListEnd = expr.End()
+		if p.tryConsumeTokenKind(TokenKindComma) == nil {
+			break
+		}
+	}
+	return &PartitionByClause{
+		PartitionPos: pos,
+		Expr:         columnExprList,
+	}, nil
+}
+
 func (p *Parser) tryParsePrimaryKeyClause(pos Pos) (*PrimaryKeyClause, error) {
 	if !p.tryConsumeKeywords(KeywordPrimary) {
 		return nil, nil // nolint
@@ -978,7 +1007,8 @@ func (p *Parser) tryParseTableOrderByClause(pos Pos) (*OrderByClause, error) {
 		return nil, err
 	}
 
-	sortingKey, err := p.parseOrderExpr(pos)
+	// a sorting key takes no alias, an AS behind it starts the table's query
+	sortingKey, err := p.parseOrderExpr(pos, false)
 	if err != nil {
 		return nil, err
 	}
@@ -993,7 +1023,7 @@ func (p *Parser) parseOrderByClause(pos Pos) (*OrderByClause, error) {
 	orderByListExpr := &OrderByClause{OrderPos: pos, ListEnd: pos}
 	items := make([]Expr, 0)
 	for {
-		expr, err := p.parseOrderExpr(pos)
+		expr, err := p.parseOrderExpr(pos, true)
 		if err != nil {
 			return nil, err
 		}
@@ -1026,7 +1056,7 @@ func (p *Parser) parseOrderByClause(pos Pos) (*OrderByClause, error) {
 	return orderByListExpr, nil
 }
 
-func (p *Parser) parseOrderExpr(pos Pos) (*OrderExpr, error) {
+func (p *Parser) parseOrderExpr(pos Pos, allowAlias bool) (*OrderExpr, error) {
 	// parse column expr
 	columnExpr, err := p.parseExpr(pos)
 	if err != nil {
@@ -1034,16 +1064,7 @@ func (p *Parser) parseOrderExpr(pos Pos) (*OrderExpr, error) {
 	}
 
 	var alias *Ident
-	if p.matchKeyword(KeywordAs) {
-		// It should be a subquery instead of an order by alias if the `AS` is followed by `SELECT` keyword.
-		if nextToken, err := p.lexer.peekToken(); err == nil && nextToken.ToString() == KeywordSelect {
-			return &OrderExpr{
-				OrderPos: pos,
-				Expr:     columnExpr,
-			}, nil
-		}
-		// consume the `AS` keyword
-		_ = p.lexer.consumeToken()
+	if allowAlias && p.tryConsumeKeywords(KeywordAs) {
 		// after AS the token can only be an alias name, reserved keyword or not
 		alias, err = p.parseAnyKeyword()
 		if err != nil {
@@ -1446,7 +1467,7 @@ func (p *Parser) parseEngineExpr(pos Pos) (*EngineExpr, error) {
 			engineExpr.OrderBy = orderBy
 			engineEnd = orderBy.End()
 		case p.matchKeyword(KeywordPartition):
-			partitionBy, err := p.tryParsePartitionByClause(p.Pos())
+			partitionBy, err := p.tryParseTablePartitionByClause(p.Pos())
 			if err != nil {
 				return nil, err
 			}
-- 
2.43.0


From 14ce46e2bdc25164fba3d48bc851421b4143fb34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:35 +0000
Subject: [PATCH 23/66] fix: subtract behind a placeholder, and leave the
 lexer's tokens of .5 alone

---
 parser/lexer.go         |  9 ++++++---
 parser/parser_common.go | 10 ++++++++--
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index 64fe0ed..0d97b78 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -352,10 +352,13 @@ func (l *Lexer) hasPrecedenceToken(last *Token) bool {
 		last.Kind == TokenKindInt ||
 		last.Kind == TokenKindFloat ||
 		last.Kind == TokenKindString ||
-		// A closing bracket also terminates an expression, so a following
-		// +/- is a binary operator, e.g. (1)-1 or arr[1]-1.
+		// A closing bracket or a placeholder also terminates an expression, so
+		// a following +/- is a binary operator, e.g. (1)-1, arr[1]-1, {a:Int8}-1
+		// or ?-1.
 		last.Kind == TokenKindRParen ||
-		last.Kind == TokenKindRBracket)
+		last.Kind == TokenKindRBracket ||
+		last.Kind == TokenKindRBrace ||
+		last.Kind == TokenKindQuestionMark)
 }
 
 // consumeToken moves on to the next token. A lexical error is remembered: most
diff --git a/parser/parser_common.go b/parser/parser_common.go
index a12e105..bac1825 100644
--- a/parser/parser_common.go
+++ b/parser/parser_common.go
@@ -370,8 +370,14 @@ func (p *Parser) parseNumber(pos Pos) (*NumberLiteral, error) {
 		if curToken.Base != 10 {
 			return nil, fmt.Errorf("invalid decimal literal: %q", curToken.String)
 		}
-		curToken.String = "." + curToken.String
-		curToken.Kind = TokenKindFloat
+		// the token belongs to the lexer, which may come back to it
+		curToken = &Token{
+			Pos:    pos,
+			End:    curToken.End,
+			Kind:   TokenKindFloat,
+			String: "." + curToken.String,
+			Base:   curToken.Base,
+		}
 	default:
 		return nil, fmt.Errorf("expected <int> or <float>, but got %q", p.currentTokenKind())
 	}
-- 
2.43.0


From db3f90e34a002fdd68f99f21f4b6f7f45440f625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:35 +0000
Subject: [PATCH 24/66] fix: end an enum type at EOF with an error, not a panic

---
 parser/parser_column.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser_column.go b/parser/parser_column.go
index 6ae601c..31d393f 100644
--- a/parser/parser_column.go
+++ b/parser/parser_column.go
@@ -1312,7 +1312,7 @@ func (p *Parser) parseColumnTypeArgs(ident *Ident) (ColumnType, error) { // noli
 				return p.parseComplexType(ident, p.Pos())
 			}
 		case p.matchTokenKind(TokenKindString):
-			if peekToken, err := p.lexer.peekToken(); err == nil && peekToken.Kind == TokenKindSingleEQ {
+			if peekToken, err := p.lexer.peekToken(); err == nil && peekToken != nil && peekToken.Kind == TokenKindSingleEQ {
 				// enum values
 				return p.parseEnumType(ident, p.Pos())
 			}
-- 
2.43.0


From 68a4958afd27b3516c253e4877e90b4964fc0ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:35 +0000
Subject: [PATCH 25/66] fix: any parameter name in typed placeholders, keep
 quotes of named table arguments

---
 parser/parser_table.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser/parser_table.go b/parser/parser_table.go
index 1ce55f8..3029a0f 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -845,6 +845,9 @@ func (p *Parser) parseTableArgList(pos Pos) (*TableArgListExpr, error) {
 				NameEnd: p.current().End,
 				Name:    p.current().String,
 			}
+			if p.current().QuoteType != Unquoted {
+				name.QuoteType = p.current().QuoteType
+			}
 			// Consume the = token
 			if err := p.lexer.consumeToken(); err != nil {
 				return nil, err
@@ -1874,7 +1877,8 @@ func (p *Parser) parseTypedPlaceholder(pos Pos) (Expr, error) {
 		return nil, err
 	}
 
-	name, err := p.parseIdent()
+	// as in a query parameter, the token can only be the parameter name
+	name, err := p.parseAnyKeyword()
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 87330621f96e2743659bfd51ca16511bcb33ff61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:27 +0000
Subject: [PATCH 26/66] fix: reject SHOW DATABASES NOT without LIKE or ILIKE

---
 parser/parser_table.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/parser_table.go b/parser/parser_table.go
index 3029a0f..9c9724b 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -1667,6 +1667,9 @@ func (p *Parser) parseShowStmt(pos Pos) (*ShowStmt, error) {
 		if p.matchKeyword(KeywordNot) {
 			stmt.NotLike = true
 			_ = p.lexer.consumeToken()
+			if !p.matchOneOfKeywords(KeywordLike, KeywordIlike) {
+				return nil, fmt.Errorf("expected LIKE or ILIKE after NOT, got %q", p.currentTokenString())
+			}
 		}
 
 		if p.matchKeyword(KeywordLike) || p.matchKeyword(KeywordIlike) {
-- 
2.43.0


From 76fd8d977d33770408438f85b56e659db6a7e546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:49 +0000
Subject: [PATCH 27/66] fix: reject repeated clauses of a table engine and of
 CREATE USER, which were lost

---
 parser/parse_system.go | 22 ++++++++++++++++++++++
 parser/parser_table.go | 18 ++++++++++++++++++
 2 files changed, 40 insertions(+)

diff --git a/parser/parse_system.go b/parser/parse_system.go
index 3ce19c0..2446c8a 100644
--- a/parser/parse_system.go
+++ b/parser/parse_system.go
@@ -1,6 +1,7 @@
 package parser
 
 import (
+	"errors"
 	"fmt"
 	"strings"
 )
@@ -837,12 +838,18 @@ func (p *Parser) parseDefaultClause(createUser *CreateUser) (bool, error) {
 		if err != nil {
 			return false, err
 		}
+		if createUser.DefaultRole != nil {
+			return false, errors.New("duplicate DEFAULT ROLE clause")
+		}
 		createUser.DefaultRole = defaultRole
 		createUser.StatementEnd = defaultRole.End()
 		return true, nil
 	} else if strings.EqualFold(nextToken.String, KeywordDatabase) {
 		_ = p.lexer.consumeToken() // consume DEFAULT
 		_ = p.lexer.consumeToken() // consume DATABASE
+		if createUser.DefaultDbNone || createUser.DefaultDatabase != nil {
+			return false, errors.New("duplicate DEFAULT DATABASE clause")
+		}
 		if p.tryConsumeKeywords(KeywordNone) {
 			createUser.DefaultDbNone = true
 			createUser.StatementEnd = p.keywordClauseEnd()
@@ -868,6 +875,9 @@ func (p *Parser) parseOptionalClauses(createUser *CreateUser) error {
 			if err != nil {
 				return err
 			}
+			if createUser.Authentication != nil {
+				return errors.New("duplicate IDENTIFIED clause")
+			}
 			createUser.Authentication = auth
 			createUser.StatementEnd = auth.End()
 
@@ -880,6 +890,9 @@ func (p *Parser) parseOptionalClauses(createUser *CreateUser) error {
 			if err != nil {
 				return err
 			}
+			if createUser.ValidUntil != nil {
+				return errors.New("duplicate VALID UNTIL clause")
+			}
 			createUser.ValidUntil = validUntil
 			createUser.StatementEnd = validUntil.End()
 
@@ -888,6 +901,9 @@ func (p *Parser) parseOptionalClauses(createUser *CreateUser) error {
 			if err != nil {
 				return err
 			}
+			if createUser.Hosts != nil {
+				return errors.New("duplicate HOST clause")
+			}
 			createUser.Hosts = hosts
 			createUser.StatementEnd = hosts[len(hosts)-1].End()
 
@@ -905,6 +921,9 @@ func (p *Parser) parseOptionalClauses(createUser *CreateUser) error {
 			if err != nil {
 				return err
 			}
+			if createUser.Grantees != nil {
+				return errors.New("duplicate GRANTEES clause")
+			}
 			createUser.Grantees = grantees
 			createUser.StatementEnd = grantees.End()
 
@@ -914,6 +933,9 @@ func (p *Parser) parseOptionalClauses(createUser *CreateUser) error {
 			if err != nil {
 				return err
 			}
+			if createUser.Settings != nil {
+				return errors.New("duplicate SETTINGS clause")
+			}
 			createUser.Settings = settings
 			if len(settings) > 0 {
 				createUser.StatementEnd = settings[len(settings)-1].End()
diff --git a/parser/parser_table.go b/parser/parser_table.go
index 9c9724b..fe5d06e 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -1463,6 +1463,9 @@ func (p *Parser) parseEngineExpr(pos Pos) (*EngineExpr, error) {
 	for !p.lexer.isEOF() {
 		switch {
 		case p.matchKeyword(KeywordOrder):
+			if engineExpr.OrderBy != nil {
+				return nil, fmt.Errorf("duplicate ORDER BY clause")
+			}
 			orderBy, err := p.tryParseTableOrderByClause(p.Pos())
 			if err != nil {
 				return nil, err
@@ -1470,6 +1473,9 @@ func (p *Parser) parseEngineExpr(pos Pos) (*EngineExpr, error) {
 			engineExpr.OrderBy = orderBy
 			engineEnd = orderBy.End()
 		case p.matchKeyword(KeywordPartition):
+			if engineExpr.PartitionBy != nil {
+				return nil, fmt.Errorf("duplicate PARTITION BY clause")
+			}
 			partitionBy, err := p.tryParseTablePartitionByClause(p.Pos())
 			if err != nil {
 				return nil, err
@@ -1477,6 +1483,9 @@ func (p *Parser) parseEngineExpr(pos Pos) (*EngineExpr, error) {
 			engineExpr.PartitionBy = partitionBy
 			engineEnd = partitionBy.End()
 		case p.matchKeyword(KeywordPrimary):
+			if engineExpr.PrimaryKey != nil {
+				return nil, fmt.Errorf("duplicate PRIMARY KEY clause")
+			}
 			primaryKey, err := p.tryParsePrimaryKeyClause(p.Pos())
 			if err != nil {
 				return nil, err
@@ -1484,6 +1493,9 @@ func (p *Parser) parseEngineExpr(pos Pos) (*EngineExpr, error) {
 			engineExpr.PrimaryKey = primaryKey
 			engineEnd = primaryKey.End()
 		case p.matchKeyword(KeywordSample):
+			if engineExpr.SampleBy != nil {
+				return nil, fmt.Errorf("duplicate SAMPLE BY clause")
+			}
 			sampleBy, err := p.tryParseSampleByClause(p.Pos())
 			if err != nil {
 				return nil, err
@@ -1491,6 +1503,9 @@ func (p *Parser) parseEngineExpr(pos Pos) (*EngineExpr, error) {
 			engineExpr.SampleBy = sampleBy
 			engineEnd = sampleBy.End()
 		case p.matchKeyword(KeywordTtl):
+			if engineExpr.TTL != nil {
+				return nil, fmt.Errorf("duplicate TTL clause")
+			}
 			ttl, err := p.tryParseTTLClause(p.Pos(), true)
 			if err != nil {
 				return nil, err
@@ -1498,6 +1513,9 @@ func (p *Parser) parseEngineExpr(pos Pos) (*EngineExpr, error) {
 			engineExpr.TTL = ttl
 			engineEnd = ttl.End()
 		case p.matchKeyword(KeywordSettings):
+			if engineExpr.Settings != nil {
+				return nil, fmt.Errorf("duplicate SETTINGS clause")
+			}
 			settingsClause, err := p.tryParseSettingsClause(p.Pos())
 			if err != nil {
 				return nil, err
-- 
2.43.0


From be3aa85a1f59449f8be50e801aa82ef31833a606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:01 +0000
Subject: [PATCH 28/66] fix: keep the quotes of a table engine's name

---
 parser/ast.go          | 3 +++
 parser/format.go       | 2 +-
 parser/parser_table.go | 3 +++
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/parser/ast.go b/parser/ast.go
index 35d274c..71eb611 100644
--- a/parser/ast.go
+++ b/parser/ast.go
@@ -3755,6 +3755,9 @@ type EngineExpr struct {
 	EnginePos   Pos
 	EngineEnd   Pos
 	Name        string
+	// NameQuoteType is the quotation of a quoted Name.
+	NameQuoteType int `json:",omitempty"`
+
 	Params      *ParamExprList
 	PrimaryKey  *PrimaryKeyClause
 	PartitionBy *PartitionByClause
diff --git a/parser/format.go b/parser/format.go
index 6c4fb9b..f011a29 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -1458,7 +1458,7 @@ func (d *DropUserOrRole) FormatSQL(formatter *Formatter) {
 
 func (e *EngineExpr) FormatSQL(formatter *Formatter) {
 	formatter.WriteString("ENGINE = ")
-	formatter.WriteString(e.Name)
+	formatter.WriteExpr(&Ident{Name: e.Name, QuoteType: e.NameQuoteType})
 	if e.Params != nil {
 		formatter.WriteExpr(e.Params)
 	}
diff --git a/parser/parser_table.go b/parser/parser_table.go
index fe5d06e..5ac5916 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -1447,6 +1447,9 @@ func (p *Parser) parseEngineExpr(pos Pos) (*EngineExpr, error) {
 			return nil, err
 		}
 		engineExpr.Name = ident.Name
+		if ident.QuoteType != Unquoted {
+			engineExpr.NameQuoteType = ident.QuoteType
+		}
 		engineEnd = ident.End()
 		if p.matchTokenKind(TokenKindLParen) {
 			params, err := p.parseFunctionParams(p.Pos())
-- 
2.43.0


From 344a3273847630a47bd58007f9323067e492b2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:27 +0000
Subject: [PATCH 29/66] fix: print DISTINCT of a second argument list and of an
 array

---
 parser/ast.go    |  6 +++---
 parser/format.go | 10 ++++------
 2 files changed, 7 insertions(+), 9 deletions(-)

diff --git a/parser/ast.go b/parser/ast.go
index 71eb611..191877c 100644
--- a/parser/ast.go
+++ b/parser/ast.go
@@ -3752,9 +3752,9 @@ func (i *IntervalExpr) Accept(visitor ASTVisitor) error {
 
 // TODO(@git-hulk): split into EngineClause and EngineExpr
 type EngineExpr struct {
-	EnginePos   Pos
-	EngineEnd   Pos
-	Name        string
+	EnginePos Pos
+	EngineEnd Pos
+	Name      string
 	// NameQuoteType is the quotation of a quoted Name.
 	NameQuoteType int `json:",omitempty"`
 
diff --git a/parser/format.go b/parser/format.go
index f011a29..b65ac7e 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -518,12 +518,7 @@ func (a *AlterTableUpdate) FormatSQL(formatter *Formatter) {
 
 func (a *ArrayParamList) FormatSQL(formatter *Formatter) {
 	formatter.WriteString("[")
-	for i, item := range a.Items.Items {
-		if i > 0 {
-			formatter.WriteString(", ")
-		}
-		formatter.WriteExpr(item)
-	}
+	formatter.WriteExpr(a.Items)
 	formatter.WriteString("]")
 }
 
@@ -649,6 +644,9 @@ func (o *ClusterClause) FormatSQL(formatter *Formatter) {
 
 func (c *ColumnArgList) FormatSQL(formatter *Formatter) {
 	formatter.WriteByte('(')
+	if c.Distinct {
+		formatter.WriteString("DISTINCT ")
+	}
 	for i, item := range c.Items {
 		if i > 0 {
 			formatter.WriteString(", ")
-- 
2.43.0


From 91879aed6d753e309db1b48f3346457b1459cf49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:54 +0000
Subject: [PATCH 30/66] fix: reject IDENTIFIED WITH nothing, print an empty
 kerberos REALM

---
 parser/format.go       | 2 +-
 parser/parse_system.go | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/parser/format.go b/parser/format.go
index b65ac7e..1d72f33 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -555,7 +555,7 @@ func (a *AuthenticationClause) FormatSQL(formatter *Formatter) {
 	if a.IsKerberos {
 		formatter.Break()
 		formatter.WriteString("WITH kerberos")
-		if a.KerberosRealm != nil && a.KerberosRealm.Literal != "" {
+		if a.KerberosRealm != nil {
 			formatter.WriteString(" REALM ")
 			formatter.WriteExpr(a.KerberosRealm)
 		}
diff --git a/parser/parse_system.go b/parser/parse_system.go
index 2446c8a..cfacd8d 100644
--- a/parser/parse_system.go
+++ b/parser/parse_system.go
@@ -622,7 +622,7 @@ func (p *Parser) parseAuthenticationClause(pos Pos) (*AuthenticationClause, erro
 				auth.KerberosRealm = realm
 				auth.AuthEnd = realm.End()
 			}
-		} else if p.matchTokenKind(TokenKindIdent) {
+		} else if p.matchTokenKind(TokenKindIdent) && p.current().QuoteType == Unquoted {
 			// Auth types like no_password, plaintext_password, etc.
 			authType := p.current().String
 			_ = p.lexer.consumeToken()
@@ -637,6 +637,8 @@ func (p *Parser) parseAuthenticationClause(pos Pos) (*AuthenticationClause, erro
 				auth.AuthValue = value
 				auth.AuthEnd = value.End()
 			}
+		} else {
+			return nil, fmt.Errorf("expected an authentication type after WITH, got %q", p.currentTokenString())
 		}
 	}
 
-- 
2.43.0


From 27694e45fc38f88aad5059aa04f435ba65540f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:56 +0000
Subject: [PATCH 31/66] fix: read the comment behind a view's query that ends
 in a select item

---
 parser/parser_column.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser/parser_column.go b/parser/parser_column.go
index 31d393f..c5573c4 100644
--- a/parser/parser_column.go
+++ b/parser/parser_column.go
@@ -1206,6 +1206,8 @@ func (p *Parser) parseSelectItem() (*SelectItem, error) {
 		if err != nil {
 			return nil, err
 		}
+	case p.matchKeyword(KeywordComment) && p.peekTokenKind(TokenKindString):
+		// the comment of the view the query belongs to
 	case p.matchTokenKind(TokenKindIdent) && !p.isSelectItemTerminatorKeyword():
 		// A bare alias can be a normal identifier or non-reserved keyword; a
 		// reserved keyword here starts the next clause (e.g. `SELECT a FROM ...`).
-- 
2.43.0


From 8d469eca4e6397153e3fe3263a71ed8824b4d0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:56 +0000
Subject: [PATCH 32/66] fix: print the UUID of a live view

---
 parser/format.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/format.go b/parser/format.go
index 1d72f33..747cb15 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -856,6 +856,10 @@ func (c *CreateLiveView) FormatSQL(formatter *Formatter) {
 		formatter.WriteString("IF NOT EXISTS ")
 	}
 	formatter.WriteExpr(c.Name)
+	if c.UUID != nil {
+		formatter.WriteByte(whitespace)
+		formatter.WriteExpr(c.UUID)
+	}
 
 	if c.OnCluster != nil {
 		formatter.Break()
-- 
2.43.0


From be2dd4a4ab4f641bc541f160a5d3961bcb8de2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:07 +0000
Subject: [PATCH 33/66] fix: print an empty column list

---
 parser/format.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser/format.go b/parser/format.go
index 747cb15..78480a1 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -2702,6 +2702,8 @@ func (t *TableSchemaClause) FormatSQL(formatter *Formatter) {
 		formatter.Dedent()
 		formatter.NewLine()
 		formatter.WriteByte(')')
+	} else if t.AliasTable == nil && t.TableFunction == nil {
+		formatter.WriteString("()")
 	}
 	if t.AliasTable != nil {
 		formatter.WriteString(" AS ")
-- 
2.43.0


From 67b5e58f20536d95ae64fff1528e3e1257f7a7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:33 +0000
Subject: [PATCH 34/66] fix: beautifying leaves line breaks inside strings and
 quoted names alone

---
 parser/format.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/parser/format.go b/parser/format.go
index 78480a1..f42d7da 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -74,6 +74,15 @@ func (f *Formatter) WriteByte(b byte) {
 	}
 }
 
+// writeVerbatim writes text whose line breaks are part of a literal or of a
+// quoted name, so that beautifying must not indent behind them.
+func (f *Formatter) writeVerbatim(s string) {
+	if f.mode == FormatModeBeautify {
+		f.writeIndentIfNeeded()
+	}
+	f.builder.WriteString(s)
+}
+
 func (f *Formatter) WriteExpr(expr Expr) {
 	if expr == nil {
 		return
@@ -1670,15 +1679,15 @@ func (i *Ident) FormatSQL(formatter *Formatter) {
 	switch i.QuoteType {
 	case BackTicks:
 		formatter.WriteByte('`')
-		formatter.WriteString(i.Name)
+		formatter.writeVerbatim(i.Name)
 		formatter.WriteByte('`')
 	case DoubleQuote:
 		formatter.WriteByte('"')
-		formatter.WriteString(i.Name)
+		formatter.writeVerbatim(i.Name)
 		formatter.WriteByte('"')
 	case SingleQuote:
 		formatter.WriteByte('\'')
-		formatter.WriteString(i.Name)
+		formatter.writeVerbatim(i.Name)
 		formatter.WriteByte('\'')
 	default:
 		formatter.WriteString(i.Name)
@@ -2501,7 +2510,7 @@ func (s *ShowStmt) FormatSQL(formatter *Formatter) {
 
 func (s *StringLiteral) FormatSQL(formatter *Formatter) {
 	formatter.WriteByte('\'')
-	formatter.WriteString(s.Literal)
+	formatter.writeVerbatim(s.Literal)
 	formatter.WriteByte('\'')
 }
 
@@ -2666,7 +2675,7 @@ func (a *TableIndex) formatDefinition(formatter *Formatter) {
 	if len(columnExprStr) > 0 && columnExprStr[0] != '(' {
 		formatter.WriteByte(whitespace)
 	}
-	formatter.WriteString(columnExprStr)
+	formatter.writeVerbatim(columnExprStr)
 	formatter.WriteByte(whitespace)
 	formatter.WriteString("TYPE")
 	formatter.WriteByte(whitespace)
-- 
2.43.0


From 62c055a810e077e909048af5be8a5cf38ed1b9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:33 +0000
Subject: [PATCH 35/66] fix: read the column names behind INSERT INTO FUNCTION
 f(...)

---
 parser/parser_column.go | 12 ++++++++++--
 parser/parser_table.go  | 19 ++++++++++++++++++-
 2 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/parser/parser_column.go b/parser/parser_column.go
index c5573c4..9e07293 100644
--- a/parser/parser_column.go
+++ b/parser/parser_column.go
@@ -1041,7 +1041,8 @@ func (p *Parser) parseKeywordArgFunctionParams(pos Pos, form keywordArgForm) (*P
 	return paramExprList, nil
 }
 
-func (p *Parser) parseFunctionParams(pos Pos) (*ParamExprList, error) {
+// parseFunctionParamList parses the first argument list of a function.
+func (p *Parser) parseFunctionParamList(pos Pos) (*ParamExprList, error) {
 	if err := p.expectTokenKind(TokenKindLParen); err != nil {
 		return nil, err
 	}
@@ -1053,10 +1054,17 @@ func (p *Parser) parseFunctionParams(pos Pos) (*ParamExprList, error) {
 	if err := p.expectTokenKind(TokenKindRParen); err != nil {
 		return nil, err
 	}
-	paramExprList := &ParamExprList{
+	return &ParamExprList{
 		LeftParenPos:  pos,
 		RightParenPos: rightParenPos,
 		Items:         params,
+	}, nil
+}
+
+func (p *Parser) parseFunctionParams(pos Pos) (*ParamExprList, error) {
+	paramExprList, err := p.parseFunctionParamList(pos)
+	if err != nil {
+		return nil, err
 	}
 
 	// For some aggregate functions might support parametric arguments:
diff --git a/parser/parser_table.go b/parser/parser_table.go
index 5ac5916..a7b2c93 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -1963,6 +1963,23 @@ func (p *Parser) parseAssignmentValues(pos Pos) (*AssignmentValues, error) {
 	}, nil
 }
 
+// parseInsertFunctionExpr parses the table function to insert into. A second
+// parenthesis behind it holds the column names, not more arguments.
+func (p *Parser) parseInsertFunctionExpr() (*FunctionExpr, error) {
+	name, err := p.parseAnyKeyword()
+	if err != nil {
+		return nil, err
+	}
+	params, err := p.parseFunctionParamList(p.Pos())
+	if err != nil {
+		return nil, err
+	}
+	return &FunctionExpr{
+		Name:   name,
+		Params: params,
+	}, nil
+}
+
 func (p *Parser) parseInsertStmt(pos Pos) (*InsertStmt, error) {
 	if err := p.expectKeyword(KeywordInsert); err != nil {
 		return nil, err
@@ -1977,7 +1994,7 @@ func (p *Parser) parseInsertStmt(pos Pos) (*InsertStmt, error) {
 	var table Expr
 	var err error
 	if p.tryConsumeKeywords(KeywordFunction) {
-		table, err = p.parseFunctionExpr(p.Pos())
+		table, err = p.parseInsertFunctionExpr()
 	} else {
 		table, err = p.parseTableIdentifier(p.Pos())
 	}
-- 
2.43.0


From 925c647a9b35e7d3be132ecbb7a71f38c38d3a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:25 +0000
Subject: [PATCH 36/66] fix: a Walk callback returning false skips that subtree
 only, as documented

---
 parser/walk.go | 23 +++++------------------
 1 file changed, 5 insertions(+), 18 deletions(-)

diff --git a/parser/walk.go b/parser/walk.go
index e129a35..17368bc 100644
--- a/parser/walk.go
+++ b/parser/walk.go
@@ -14,7 +14,7 @@ func Walk(node Expr, fn WalkFunc) bool {
 		return true
 	}
 	if !fn(node) {
-		return false
+		return true // only the subtree of node is skipped
 	}
 
 	switch n := node.(type) {
@@ -1648,25 +1648,12 @@ func WalkWithBreak(node Expr, fn WalkFunc) bool {
 		return true
 	}
 
-	// Call the function first - if it returns false, stop immediately
-	if !fn(node) {
-		return false
-	}
-
-	// For early termination support, use a helper that converts our function
-	// to one that collects a boolean result
+	// Once fn returns false, every remaining subtree is skipped without
+	// calling it again.
 	var continueWalk = true
 	Walk(node, func(child Expr) bool {
-		// Skip the current node since we already processed it
-		if child == node {
-			return true
-		}
-		// Call our termination-aware function
-		if !fn(child) {
-			continueWalk = false
-			return false
-		}
-		return true
+		continueWalk = continueWalk && fn(child)
+		return continueWalk
 	})
 
 	return continueWalk
-- 
2.43.0


From a228d0b4afd32f6a63d98a58d14d5e982430bd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:36 +0000
Subject: [PATCH 37/66] fix: end the SETTINGS of CREATE USER where the next
 clause starts

---
 parser/parse_system.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/parse_system.go b/parser/parse_system.go
index cfacd8d..c5938de 100644
--- a/parser/parse_system.go
+++ b/parser/parse_system.go
@@ -433,7 +433,9 @@ func (p *Parser) tryParseRoleSettings(pos Pos) ([]*RoleSetting, error) {
 
 func (p *Parser) parseRoleSetting(_ Pos) (*RoleSetting, error) {
 	pairs := make([]*SettingPair, 0)
-	for p.matchTokenKind(TokenKindIdent) {
+	// behind a setting, these words start the next clause of CREATE USER
+	for p.matchTokenKind(TokenKindIdent) && (len(pairs) == 0 ||
+		!p.matchOneOfKeywords(KeywordIdentified, KeywordValid, KeywordHost, KeywordDefault, KeywordGrantees)) {
 		name, err := p.parseIdent()
 		if err != nil {
 			return nil, err
-- 
2.43.0


From d059e5d3400ff509df945e33dbc68b1427ebdc19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:54 +0000
Subject: [PATCH 38/66] fix: read no alias in GROUP BY of a TTL

---
 parser/parser_query.go | 15 +++++++++++++--
 parser/parser_table.go | 20 +++++++++++++++-----
 2 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/parser/parser_query.go b/parser/parser_query.go
index 35c5dce..10f957c 100644
--- a/parser/parser_query.go
+++ b/parser/parser_query.go
@@ -556,11 +556,20 @@ func (p *Parser) tryParseGroupByClause(pos Pos) (*GroupByClause, error) {
 	if !p.matchKeyword(KeywordGroup) {
 		return nil, nil
 	}
-	return p.parseGroupByClause(pos)
+	return p.parseGroupByClause(pos, true)
+}
+
+// tryParseTTLGroupByClause parses the GROUP BY of a TTL. It takes no aliases: an
+// AS behind it starts the table's query.
+func (p *Parser) tryParseTTLGroupByClause(pos Pos) (*GroupByClause, error) {
+	if !p.matchKeyword(KeywordGroup) {
+		return nil, nil
+	}
+	return p.parseGroupByClause(pos, false)
 }
 
 // syntax: groupByClause? (WITH (CUBE | ROLLUP))? (WITH TOTALS)?
-func (p *Parser) parseGroupByClause(pos Pos) (*GroupByClause, error) {
+func (p *Parser) parseGroupByClause(pos Pos, allowAlias bool) (*GroupByClause, error) {
 	if err := p.expectKeyword(KeywordGroup); err != nil {
 		return nil, err
 	}
@@ -585,6 +594,8 @@ func (p *Parser) parseGroupByClause(pos Pos) (*GroupByClause, error) {
 		groupByEnd = p.End()
 		_ = p.lexer.consumeToken()
 		aggregateType = "ALL"
+	case !allowAlias:
+		expr, err = p.parseTableExprList()
 	default:
 		expr, err = p.parseColumnExprListWithLParen(p.Pos())
 	}
diff --git a/parser/parser_table.go b/parser/parser_table.go
index a7b2c93..366a3cc 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -949,6 +949,19 @@ func (p *Parser) tryParseTablePartitionByClause(pos Pos) (*PartitionByClause, er
 		return nil, err
 	}
 
+	columnExprList, err := p.parseTableExprList()
+	if err != nil {
+		return nil, err
+	}
+	return &PartitionByClause{
+		PartitionPos: pos,
+		Expr:         columnExprList,
+	}, nil
+}
+
+// parseTableExprList parses the expressions of a table engine's clause, which
+// have no aliases.
+func (p *Parser) parseTableExprList() (*ColumnExprList, error) {
 	columnExprList := &ColumnExprList{ListPos: p.Pos()}
 	for {
 		expr, err := p.parseExpr(p.Pos())
@@ -961,10 +974,7 @@ func (p *Parser) tryParseTablePartitionByClause(pos Pos) (*PartitionByClause, er
 			break
 		}
 	}
-	return &PartitionByClause{
-		PartitionPos: pos,
-		Expr:         columnExprList,
-	}, nil
+	return columnExprList, nil
 }
 
 func (p *Parser) tryParsePrimaryKeyClause(pos Pos) (*PrimaryKeyClause, error) {
@@ -1277,7 +1287,7 @@ func (p *Parser) tryParseTTLPolicy(pos Pos) (*TTLPolicy, error) {
 	}
 	policy.Where = where
 
-	groupBy, err := p.tryParseGroupByClause(p.Pos())
+	groupBy, err := p.tryParseTTLGroupByClause(p.Pos())
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From aa4fc55ab913bf28cb77b906a2b95d0fcace69ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:59 +0000
Subject: [PATCH 39/66] fix: Walk and visitors reach the TargetPair nodes of
 RENAME

---
 parser/ast.go  | 5 +----
 parser/walk.go | 5 +----
 2 files changed, 2 insertions(+), 8 deletions(-)

diff --git a/parser/ast.go b/parser/ast.go
index 191877c..10f665d 100644
--- a/parser/ast.go
+++ b/parser/ast.go
@@ -6306,10 +6306,7 @@ func (r *RenameStmt) Accept(visitor ASTVisitor) error {
 	visitor.Enter(r)
 	defer visitor.Leave(r)
 	for _, pair := range r.TargetPairList {
-		if err := pair.Old.Accept(visitor); err != nil {
-			return err
-		}
-		if err := pair.New.Accept(visitor); err != nil {
+		if err := pair.Accept(visitor); err != nil {
 			return err
 		}
 	}
diff --git a/parser/walk.go b/parser/walk.go
index 17368bc..1eeacff 100644
--- a/parser/walk.go
+++ b/parser/walk.go
@@ -593,10 +593,7 @@ func Walk(node Expr, fn WalkFunc) bool {
 		}
 	case *RenameStmt:
 		for _, pair := range n.TargetPairList {
-			if !Walk(pair.Old, fn) {
-				return false
-			}
-			if !Walk(pair.New, fn) {
+			if !Walk(pair, fn) {
 				return false
 			}
 		}
-- 
2.43.0


From 285494c373d66eda7dba0ed01805a2944272ebab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:48 +0000
Subject: [PATCH 40/66] fix: Walk and visitors reach the keys of a map literal,
 not copies of them

---
 parser/ast.go  | 3 ++-
 parser/walk.go | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/parser/ast.go b/parser/ast.go
index 10f665d..90a9009 100644
--- a/parser/ast.go
+++ b/parser/ast.go
@@ -2908,7 +2908,8 @@ func (m *MapLiteral) End() Pos {
 func (m *MapLiteral) Accept(visitor ASTVisitor) error {
 	visitor.Enter(m)
 	defer visitor.Leave(m)
-	for _, kv := range m.KeyValues {
+	for i := range m.KeyValues {
+		kv := &m.KeyValues[i]
 		if err := kv.Key.Accept(visitor); err != nil {
 			return err
 		}
diff --git a/parser/walk.go b/parser/walk.go
index 1eeacff..194c2bd 100644
--- a/parser/walk.go
+++ b/parser/walk.go
@@ -1379,7 +1379,8 @@ func Walk(node Expr, fn WalkFunc) bool {
 			return false
 		}
 	case *MapLiteral:
-		for _, kv := range n.KeyValues {
+		for i := range n.KeyValues {
+			kv := &n.KeyValues[i]
 			if !Walk(&kv.Key, fn) {
 				return false
 			}
-- 
2.43.0


From 4b0f2a1a39255a5c5bf8981b9396d94b40f78574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:52 +0000
Subject: [PATCH 41/66] fix: accept NULL and .5 as table function arguments,
 NULL as a literal default

---
 parser/parser_common.go | 1 +
 parser/parser_table.go  | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/parser/parser_common.go b/parser/parser_common.go
index bac1825..e759b83 100644
--- a/parser/parser_common.go
+++ b/parser/parser_common.go
@@ -417,6 +417,7 @@ func (p *Parser) parseLiteral(pos Pos) (Literal, error) {
 		return p.parseIdent()
 	case p.matchKeyword(KeywordNull):
 		// accept the NULL keyword
+		_ = p.lexer.consumeToken()
 		return &NullLiteral{NullPos: pos}, nil
 	default:
 		return nil, fmt.Errorf("expected <int>, <string>, <ident> or keyword <NULL>, but got %q", p.currentTokenKind())
diff --git a/parser/parser_table.go b/parser/parser_table.go
index 366a3cc..4a42926 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -809,6 +809,8 @@ func (p *Parser) parseTableArgPrimaryExpr(pos Pos) (Expr, error) {
 	case p.matchTokenKind(TokenKindInt), p.matchTokenKind(TokenKindFloat),
 		p.matchTokenKind(TokenKindString), p.matchKeyword(KeywordNull):
 		return p.parseLiteral(p.Pos())
+	case p.matchTokenKind(TokenKindDot): // .5
+		return p.parseNumber(p.Pos())
 	default:
 		return nil, fmt.Errorf("unexpected token: %q, expected <Name>, <literal>", p.currentTokenString())
 	}
-- 
2.43.0


From 52e73676f8719a548a45380fcb195467526433c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:35 +0000
Subject: [PATCH 42/66] fix: take no quoted name for a grant option

---
 parser/parse_system.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/parse_system.go b/parser/parse_system.go
index c5938de..103ea62 100644
--- a/parser/parse_system.go
+++ b/parser/parse_system.go
@@ -1363,6 +1363,9 @@ func (p *Parser) parseGrantOption(_ Pos) (string, error) {
 	if err != nil {
 		return "", err
 	}
+	if ident.QuoteType != Unquoted {
+		return "", fmt.Errorf("expected the name of an option without quotes")
+	}
 	if err := p.expectKeyword(KeywordOption); err != nil {
 		return "", err
 	}
-- 
2.43.0


From a130262aa955a82243dd337f43faa9bb4b3da663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:09 +0000
Subject: [PATCH 43/66] fix: end lists at the end of input as anywhere else; no
 comma without a column

---
 parser/parser_column.go | 5 +++--
 parser/parser_table.go  | 6 +++---
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/parser/parser_column.go b/parser/parser_column.go
index 9e07293..d29e853 100644
--- a/parser/parser_column.go
+++ b/parser/parser_column.go
@@ -353,7 +353,7 @@ func (p *Parser) parseColumnExtractExpr(pos Pos) (*ExtractExpr, error) {
 	}
 
 	parameters := make([]Expr, 0)
-	for !p.lexer.isEOF() {
+	for {
 		expr, err := p.parseExpr(p.Pos())
 		if err != nil {
 			return nil, err
@@ -770,7 +770,8 @@ func (p *Parser) parseSelectItems() ([]*SelectItem, error) {
 		if p.tryConsumeTokenKind(TokenKindComma) == nil {
 			break
 		}
-		if p.isSelectItemTerminatorKeyword() {
+		// a trailing comma may end the list
+		if p.isSelectItemTerminatorKeyword() || p.matchTokenKind(";") || p.matchTokenKind(TokenKindRParen) {
 			break
 		}
 	}
diff --git a/parser/parser_table.go b/parser/parser_table.go
index 4a42926..f70158a 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -228,7 +228,7 @@ func (p *Parser) parseCreateNamedCollection(pos Pos) (*CreateNamedCollection, er
 
 	// parse parameters
 	params := make([]*NamedCollectionParam, 0)
-	for !p.lexer.isEOF() {
+	for {
 		param, err := p.parseNamedCollectionParam(p.Pos())
 		if err != nil {
 			return nil, err
@@ -606,7 +606,7 @@ func (p *Parser) parseTableSchemaClause(pos Pos) (*TableSchemaClause, error) {
 
 func (p *Parser) parseTableColumns() ([]Expr, error) {
 	columns := make([]Expr, 0)
-	for !p.lexer.isEOF() {
+	for !p.matchTokenKind(TokenKindRParen) {
 		switch {
 		case p.matchKeyword(KeywordIndex):
 			indexPos := p.Pos()
@@ -647,7 +647,7 @@ func (p *Parser) parseTableColumns() ([]Expr, error) {
 				return nil, err
 			}
 			if column == nil {
-				break
+				return nil, fmt.Errorf("expected a column definition, but got %q", p.currentTokenKind())
 			}
 			columns = append(columns, column)
 		}
-- 
2.43.0


From 5e4436439c2fb114aa04162a59a0adfddc6b7949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:20 +0000
Subject: [PATCH 44/66] fix: keep the comma of a one-element tuple (a,)

---
 parser/ast.go           | 9 +++++----
 parser/format.go        | 3 +++
 parser/parser_column.go | 1 +
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/parser/ast.go b/parser/ast.go
index 90a9009..045d495 100644
--- a/parser/ast.go
+++ b/parser/ast.go
@@ -3865,10 +3865,11 @@ func (c *ColumnArgList) Accept(visitor ASTVisitor) error {
 }
 
 type ColumnExprList struct {
-	ListPos     Pos
-	ListEnd     Pos
-	HasDistinct bool
-	Items       []Expr
+	ListPos       Pos
+	ListEnd       Pos
+	HasDistinct   bool
+	Items         []Expr
+	TrailingComma bool `json:",omitempty"` // (a,) is a tuple, (a) is not
 }
 
 func (c *ColumnExprList) Pos() Pos {
diff --git a/parser/format.go b/parser/format.go
index f42d7da..9923316 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -720,6 +720,9 @@ func (c *ColumnExprList) FormatSQL(formatter *Formatter) {
 			formatter.WriteString(", ")
 		}
 	}
+	if c.TrailingComma {
+		formatter.WriteByte(',')
+	}
 }
 
 func (c *ColumnNamesExpr) FormatSQL(formatter *Formatter) {
diff --git a/parser/parser_column.go b/parser/parser_column.go
index d29e853..3689035 100644
--- a/parser/parser_column.go
+++ b/parser/parser_column.go
@@ -737,6 +737,7 @@ func (p *Parser) parseColumnExprListWithTerm(term TokenKind, pos Pos) (*ColumnEx
 	columnList := make([]Expr, 0)
 	for {
 		if term != "" && p.matchTokenKind(term) {
+			columnExprList.TrailingComma = len(columnList) > 0
 			break
 		}
 		// at the end of input this reports the missing expression
-- 
2.43.0


From 1525dcdb782168ceeeb9da446339f73b6d0f8f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:50 +0000
Subject: [PATCH 45/66] fix: positions of nodes that start after, or end
 beyond, what they cover

---
 parser/ast.go           |  4 ++--
 parser/parser_column.go |  6 +++---
 parser/parser_table.go  | 10 +++++-----
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/parser/ast.go b/parser/ast.go
index 045d495..7b2bb1c 100644
--- a/parser/ast.go
+++ b/parser/ast.go
@@ -3695,7 +3695,7 @@ type EnumType struct {
 }
 
 func (e *EnumType) Pos() Pos {
-	return e.ListPos
+	return e.Name.Pos()
 }
 
 func (e *EnumType) End() Pos {
@@ -4824,7 +4824,7 @@ type AliasExpr struct {
 }
 
 func (a *AliasExpr) Pos() Pos {
-	return a.AliasPos
+	return a.Expr.Pos()
 }
 
 func (a *AliasExpr) End() Pos {
diff --git a/parser/parser_column.go b/parser/parser_column.go
index 3689035..89f3b00 100644
--- a/parser/parser_column.go
+++ b/parser/parser_column.go
@@ -1457,7 +1457,7 @@ func (p *Parser) parseJSONPath() (*JSONPath, error) {
 	}, nil
 }
 
-func (p *Parser) parseJSONMaxDynamicOptions(pos Pos) (*JSONOption, error) {
+func (p *Parser) parseJSONMaxDynamicOptions(_ Pos) (*JSONOption, error) {
 	ident, err := p.parseIdent()
 	if err != nil {
 		return nil, err
@@ -1469,13 +1469,13 @@ func (p *Parser) parseJSONMaxDynamicOptions(pos Pos) (*JSONOption, error) {
 
 	switch ident.Name {
 	case "max_dynamic_types":
-		number, err := p.parseNumber(pos)
+		number, err := p.parseNumber(p.Pos())
 		if err != nil {
 			return nil, err
 		}
 		return &JSONOption{MaxDynamicTypes: number}, nil
 	case "max_dynamic_paths":
-		number, err := p.parseNumber(pos)
+		number, err := p.parseNumber(p.Pos())
 		if err != nil {
 			return nil, err
 		}
diff --git a/parser/parser_table.go b/parser/parser_table.go
index f70158a..aaf7d88 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -578,13 +578,13 @@ func (p *Parser) parseTableSchemaClause(pos Pos) (*TableSchemaClause, error) {
 			}, nil
 		case p.matchTokenKind(TokenKindLParen):
 			// it's a table function
-			argsExpr, err := p.parseTableArgList(pos)
+			argsExpr, err := p.parseTableArgList(p.Pos())
 			if err != nil {
 				return nil, err
 			}
 			return &TableSchemaClause{
 				SchemaPos: pos,
-				SchemaEnd: p.End(),
+				SchemaEnd: p.prevEnd(),
 				TableFunction: &TableFunctionExpr{
 					Name: ident,
 					Args: argsExpr,
@@ -593,7 +593,7 @@ func (p *Parser) parseTableSchemaClause(pos Pos) (*TableSchemaClause, error) {
 		default:
 			return &TableSchemaClause{
 				SchemaPos: pos,
-				SchemaEnd: p.End(),
+				SchemaEnd: p.prevEnd(),
 				AliasTable: &TableIdentifier{
 					Table: ident,
 				},
@@ -1184,7 +1184,7 @@ func (p *Parser) parseInterpolateClause(interpolatePos Pos) (*InterpolateClause,
 		item := &InterpolateItem{Column: column}
 
 		if p.tryConsumeKeywords(KeywordAs) {
-			expr, err := p.parseExpr(interpolatePos)
+			expr, err := p.parseExpr(p.Pos())
 			if err != nil {
 				return nil, err
 			}
@@ -1298,7 +1298,7 @@ func (p *Parser) tryParseTTLPolicy(pos Pos) (*TTLPolicy, error) {
 }
 
 func (p *Parser) parseTTLExpr(pos Pos) (*TTLExpr, error) {
-	columnExpr, err := p.parseExpr(pos)
+	columnExpr, err := p.parseExpr(p.Pos())
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 32edc11c7c312f985a49343f149cd81c3a827044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:40 +0000
Subject: [PATCH 46/66] fix: a window frame bound UNBOUNDED ends where it ends

---
 parser/ast.go          | 3 ++-
 parser/parser_query.go | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/ast.go b/parser/ast.go
index 7b2bb1c..7db432c 100644
--- a/parser/ast.go
+++ b/parser/ast.go
@@ -5218,6 +5218,7 @@ type WindowFrameUnbounded struct {
 	UnboundedPos Pos
 	UnboundedEnd Pos
 	Direction    string
+	end          Pos // of the direction
 }
 
 func (f *WindowFrameUnbounded) Pos() Pos {
@@ -5225,7 +5226,7 @@ func (f *WindowFrameUnbounded) Pos() Pos {
 }
 
 func (f *WindowFrameUnbounded) End() Pos {
-	return f.UnboundedEnd
+	return f.end
 }
 
 func (f *WindowFrameUnbounded) Accept(visitor ASTVisitor) error {
diff --git a/parser/parser_query.go b/parser/parser_query.go
index 10f957c..7408d1c 100644
--- a/parser/parser_query.go
+++ b/parser/parser_query.go
@@ -828,6 +828,7 @@ func (p *Parser) parseFrameUnbounded() (Expr, error) {
 	return &WindowFrameUnbounded{
 		UnboundedPos: unboundedPos,
 		Direction:    direction,
+		end:          p.prevEnd(),
 	}, nil
 }
 
-- 
2.43.0


From d968f5808483603a1978718618f702c7d25e2683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:35 +0000
Subject: [PATCH 47/66] fix: CREATE TABLE, VIEW and LIVE VIEW without engine or
 query end where their last clause ends

---
 parser/ast.go | 50 +++++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 47 insertions(+), 3 deletions(-)

diff --git a/parser/ast.go b/parser/ast.go
index 7db432c..136cc31 100644
--- a/parser/ast.go
+++ b/parser/ast.go
@@ -1354,7 +1354,21 @@ func (c *CreateTable) Pos() Pos {
 }
 
 func (c *CreateTable) End() Pos {
-	return c.StatementEnd
+	// StatementEnd is only set when a query or a storage engine ends the statement
+	if c.StatementEnd != 0 {
+		return c.StatementEnd
+	}
+	switch {
+	case c.Comment != nil:
+		return c.Comment.End()
+	case c.TableSchema != nil:
+		return c.TableSchema.End()
+	case c.OnCluster != nil:
+		return c.OnCluster.End()
+	case c.UUID != nil:
+		return c.UUID.End()
+	}
+	return c.Name.End()
 }
 
 func (c *CreateTable) Type() string {
@@ -1524,7 +1538,21 @@ func (c *CreateView) Pos() Pos {
 }
 
 func (c *CreateView) End() Pos {
-	return c.StatementEnd
+	// StatementEnd is only set when a query or a storage engine ends the statement
+	if c.StatementEnd != 0 {
+		return c.StatementEnd
+	}
+	switch {
+	case c.Comment != nil:
+		return c.Comment.End()
+	case c.TableSchema != nil:
+		return c.TableSchema.End()
+	case c.OnCluster != nil:
+		return c.OnCluster.End()
+	case c.UUID != nil:
+		return c.UUID.End()
+	}
+	return c.Name.End()
 }
 
 func (c *CreateView) Type() string {
@@ -4065,7 +4093,23 @@ func (c *CreateLiveView) Pos() Pos {
 }
 
 func (c *CreateLiveView) End() Pos {
-	return c.StatementEnd
+	// StatementEnd is only set when a query or a storage engine ends the statement
+	if c.StatementEnd != 0 {
+		return c.StatementEnd
+	}
+	switch {
+	case c.TableSchema != nil:
+		return c.TableSchema.End()
+	case c.Destination != nil:
+		return c.Destination.End()
+	case c.WithTimeout != nil:
+		return c.WithTimeout.End()
+	case c.OnCluster != nil:
+		return c.OnCluster.End()
+	case c.UUID != nil:
+		return c.UUID.End()
+	}
+	return c.Name.End()
 }
 
 func (c *CreateLiveView) Accept(visitor ASTVisitor) error {
-- 
2.43.0


From 6239bb3fffdbc3002d8915a1b3243a5ac8266a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:43 +0000
Subject: [PATCH 48/66] fix: keep a member access of a number apart from the
 number

---
 parser/format.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/parser/format.go b/parser/format.go
index 9923316..6109b53 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -1699,10 +1699,27 @@ func (i *Ident) FormatSQL(formatter *Formatter) {
 
 func (i *IndexOperation) FormatSQL(formatter *Formatter) {
 	formatter.WriteExpr(i.Object)
+	if endsInNumber(i.Object) {
+		// 1.a is no number, and 1.5 is another one
+		formatter.WriteByte(whitespace)
+	}
 	formatter.WriteString(string(i.Operation))
 	formatter.WriteExpr(i.Index)
 }
 
+// endsInNumber tells whether the text of a member access's object ends in a
+// number, which a dot written right behind it would become a part of.
+func endsInNumber(expr Expr) bool {
+	switch e := expr.(type) {
+	case *NumberLiteral:
+		return true
+	case *IndexOperation:
+		return endsInNumber(e.Index)
+	default:
+		return false
+	}
+}
+
 func (i *InsertStmt) FormatSQL(formatter *Formatter) {
 	formatter.WriteString("INSERT INTO ")
 	if i.HasTableKeyword {
-- 
2.43.0


From 19f5bfb9084c8e04cd8f7fdfcfed2dc33bfae509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:56 +0000
Subject: [PATCH 49/66] fix: reject GROUP BY, LIMIT BY and PARTITION BY of
 nothing in front of a parenthesis

---
 parser/parser_query.go | 4 ++--
 parser/parser_table.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser/parser_query.go b/parser/parser_query.go
index 7408d1c..2ae0101 100644
--- a/parser/parser_query.go
+++ b/parser/parser_query.go
@@ -597,7 +597,7 @@ func (p *Parser) parseGroupByClause(pos Pos, allowAlias bool) (*GroupByClause, e
 	case !allowAlias:
 		expr, err = p.parseTableExprList()
 	default:
-		expr, err = p.parseColumnExprListWithLParen(p.Pos())
+		expr, err = p.parseColumnExprList(p.Pos())
 	}
 	if err != nil {
 		return nil, err
@@ -726,7 +726,7 @@ func (p *Parser) parseLimitByClause(pos Pos) (Expr, error) {
 	if !p.tryConsumeKeywords(KeywordBy) {
 		return limit, nil
 	}
-	if by, err = p.parseColumnExprListWithLParen(p.Pos()); err != nil {
+	if by, err = p.parseColumnExprList(p.Pos()); err != nil {
 		return nil, err
 	}
 	return &LimitByClause{
diff --git a/parser/parser_table.go b/parser/parser_table.go
index aaf7d88..5ac61b1 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -930,7 +930,7 @@ func (p *Parser) tryParsePartitionByClause(pos Pos) (*PartitionByClause, error)
 	}
 
 	// parse partition key list
-	columnExpr, err := p.parseColumnExprListWithLParen(p.Pos())
+	columnExpr, err := p.parseColumnExprList(p.Pos())
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 952a7821c45a0723fdad4c0c1d946ee42fb9d189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:47 +0000
Subject: [PATCH 50/66] fix: reject expressions nested too deeply instead of
 overflowing the stack

A megabyte of opening parentheses ended the whole process, which no caller
can recover from.
---
 parser/parser_column.go | 8 ++++++++
 parser/parser_common.go | 6 ++++++
 2 files changed, 14 insertions(+)

diff --git a/parser/parser_column.go b/parser/parser_column.go
index 89f3b00..13c852f 100644
--- a/parser/parser_column.go
+++ b/parser/parser_column.go
@@ -271,6 +271,14 @@ func (p *Parser) parseExpr(pos Pos) (Expr, error) {
 }
 
 func (p *Parser) parseSubExpr(pos Pos, precedence int) (Expr, error) {
+	// Every nested expression is read by a nested call, so this bounds the
+	// stack: overflowing it would end the whole process.
+	if p.exprDepth >= maxExprDepth {
+		return nil, fmt.Errorf("expression is nested too deeply, at most %d levels are supported", maxExprDepth)
+	}
+	p.exprDepth++
+	defer func() { p.exprDepth-- }()
+
 	expr, err := p.parseUnaryExpr(pos)
 	if err != nil {
 		return nil, err
diff --git a/parser/parser_common.go b/parser/parser_common.go
index e759b83..e061e94 100644
--- a/parser/parser_common.go
+++ b/parser/parser_common.go
@@ -6,6 +6,9 @@ import (
 	"strings"
 )
 
+// maxExprDepth is how deeply expressions may be nested.
+const maxExprDepth = 20000
+
 type Parser struct {
 	lexer *Lexer
 	lines lineStarts // lazily built on the first error, for position lookup
@@ -15,6 +18,9 @@ type Parser struct {
 	// position at most once. See the KeywordInterval case there for why the
 	// memo is sound and what it prevents.
 	failedIntervalOffsets map[Pos]struct{}
+
+	// exprDepth is the nesting level of the expression being parsed.
+	exprDepth int
 }
 
 // lineStarts returns the line-start offsets for the input, building them on
-- 
2.43.0


From f50ea9167d3ec60105ddd3590f731f1448e560cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:43 +0000
Subject: [PATCH 51/66] fix: keep the trailing comma of USING inside
 parentheses

---
 parser/format.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parser/format.go b/parser/format.go
index 6109b53..db829a5 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -2826,8 +2826,9 @@ func (u *UseStmt) FormatSQL(formatter *Formatter) {
 
 func (u *UsingClause) FormatSQL(formatter *Formatter) {
 	// without parentheses around the list, a first column that starts with one
-	// would be read as the whole list
-	u.formatList(formatter, !u.startsWithName())
+	// would be read as the whole list, and a trailing comma would take what
+	// follows as one more column
+	u.formatList(formatter, u.Using.TrailingComma || !u.startsWithName())
 }
 
 func (u *UsingClause) startsWithName() bool {
-- 
2.43.0


From 0f58ec4c27adb4e6e68b66d4e90266e5b31fc2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:43 +0000
Subject: [PATCH 52/66] fix: keep a member access of a signed number apart from
 the number

---
 parser/format.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser/format.go b/parser/format.go
index db829a5..f7da395 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -1713,6 +1713,8 @@ func endsInNumber(expr Expr) bool {
 	switch e := expr.(type) {
 	case *NumberLiteral:
 		return true
+	case *UnaryExpr:
+		return endsInNumber(e.Expr)
 	case *IndexOperation:
 		return endsInNumber(e.Index)
 	default:
-- 
2.43.0


From 30cfe025ff87cddf6999652aef892660fd9eb6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:43 +0000
Subject: [PATCH 53/66] fix: reject a query without parentheses as an operand

---
 parser/parser_column.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/parser/parser_column.go b/parser/parser_column.go
index 13c852f..6bb6059 100644
--- a/parser/parser_column.go
+++ b/parser/parser_column.go
@@ -623,7 +623,7 @@ func (p *Parser) parseColumnExpr(pos Pos) (Expr, error) { //nolint:funlen
 		return p.parseColumnCastExpr(pos)
 	case p.matchKeyword(KeywordCase):
 		return p.parseColumnCaseExpr(pos)
-	case p.matchKeyword(KeywordSelect):
+	case p.matchKeyword(KeywordSelect) && p.isBehindLParen():
 		return p.parseSelectQuery(pos)
 	case p.matchKeyword(KeywordExtract):
 		return p.parseColumnExtractExpr(pos)
@@ -675,6 +675,14 @@ func (p *Parser) parseColumnExpr(pos Pos) (Expr, error) { //nolint:funlen
 	}
 }
 
+// isBehindLParen reports whether the last consumed token is a '('. Only there a
+// query may be an operand without parentheses of its own, as in EXISTS(SELECT 1):
+// anywhere else what follows the query cannot be told from a part of it.
+func (p *Parser) isBehindLParen() bool {
+	end := p.lexer.prevEnd
+	return end > 0 && p.lexer.input[end-1] == '('
+}
+
 func (p *Parser) parseColumnCastExpr(pos Pos) (Expr, error) {
 	if err := p.expectKeyword(KeywordCast); err != nil {
 		return nil, err
-- 
2.43.0


From fbbd852114051fb343136cf9b14f99076e77606f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:19 +0000
Subject: [PATCH 54/66] fix: reject white space between the dot and the digits
 of a number

---
 parser/parser_common.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/parser_common.go b/parser/parser_common.go
index e061e94..17a2cad 100644
--- a/parser/parser_common.go
+++ b/parser/parser_common.go
@@ -369,6 +369,9 @@ func (p *Parser) parseNumber(pos Pos) (*NumberLiteral, error) {
 		err = p.expectTokenKind(TokenKindFloat)
 	case p.matchTokenKind(TokenKindDot):
 		_ = p.lexer.consumeToken()
+		if p.matchTokenKind(TokenKindInt) && p.Pos() != curToken.End {
+			return nil, errors.New("unexpected space behind the dot of a number")
+		}
 		curToken = p.current()
 		if err := p.expectTokenKind(TokenKindInt); err != nil {
 			return nil, err
-- 
2.43.0


From 799b6faa998b028e2a74be99c17eeacf8bc2bb4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:58 +0000
Subject: [PATCH 55/66] fix: DROP and DETACH, FREEZE and REMOVE TTL end with
 their last token

---
 parser/parser_alter.go  |  4 ++--
 parser/parser_common.go | 13 +++++++++++++
 parser/parser_drop.go   |  4 ++--
 3 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/parser/parser_alter.go b/parser/parser_alter.go
index c4a967a..e8bbf28 100644
--- a/parser/parser_alter.go
+++ b/parser/parser_alter.go
@@ -484,7 +484,7 @@ func (p *Parser) parseAlterTableFreezePartition(pos Pos) (AlterTableClause, erro
 	}
 	alterTable := &AlterTableFreezePartition{
 		FreezePos:    pos,
-		StatementEnd: p.Pos(),
+		StatementEnd: p.prevEnd(),
 	}
 	if p.matchKeyword(KeywordPartition) {
 		partition, err := p.parsePartitionClause(p.Pos())
@@ -509,7 +509,7 @@ func (p *Parser) parseAlterTableRemoveTTL(pos Pos) (AlterTableClause, error) {
 
 	return &AlterTableRemoveTTL{
 		RemovePos:    pos,
-		StatementEnd: p.Pos(),
+		StatementEnd: p.prevEnd(),
 	}, nil
 }
 
diff --git a/parser/parser_common.go b/parser/parser_common.go
index 17a2cad..ce33c86 100644
--- a/parser/parser_common.go
+++ b/parser/parser_common.go
@@ -73,6 +73,19 @@ func (p *Parser) prevEnd() Pos {
 	return p.lexer.prevEnd
 }
 
+// prevQuotedEnd is prevEnd behind the closing quote of a quoted token, which is
+// not counted as a part of the token itself.
+func (p *Parser) prevQuotedEnd() Pos {
+	end := p.prevEnd()
+	if int(end) < len(p.lexer.input) {
+		switch p.lexer.input[end] {
+		case '\'', '`', '"':
+			end++
+		}
+	}
+	return end
+}
+
 func (p *Parser) Pos() Pos {
 	last := p.current()
 	if last == nil {
diff --git a/parser/parser_drop.go b/parser/parser_drop.go
index 93c7df6..72fa7f0 100644
--- a/parser/parser_drop.go
+++ b/parser/parser_drop.go
@@ -30,7 +30,7 @@ func (p *Parser) parseDropDatabase(pos Pos, isDetach bool) (*DropDatabase, error
 		return nil, err
 	}
 	if modifier != "" {
-		statementEnd = p.Pos()
+		statementEnd = p.prevEnd()
 	}
 
 	return &DropDatabase{
@@ -88,7 +88,7 @@ func (p *Parser) parseDropStmt(pos Pos, isDetach bool) (*DropStmt, error) {
 		OnCluster:    onCluster,
 		IsTemporary:  isTemporary,
 		Modifier:     modifier,
-		StatementEnd: p.Pos(),
+		StatementEnd: p.prevQuotedEnd(),
 	}, nil
 }
 
-- 
2.43.0


From 0475604c4fdda002b08e2b259872ac3e6b5e3a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:30 +0000
Subject: [PATCH 56/66] fix: reject a second FORMAT clause of a query, which
 was dropped

---
 parser/parser_table.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/parser/parser_table.go b/parser/parser_table.go
index 5ac61b1..fdbe1f6 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -1593,9 +1593,11 @@ func (p *Parser) parseStmt(pos Pos) (Expr, error) {
 	if err != nil {
 		return nil, err
 	}
-	_, err = p.tryParseFormat(p.Pos())
-	if err != nil {
-		return nil, err
+	// a query has read its FORMAT clause already
+	if _, ok := expr.(*SelectQuery); !ok {
+		if _, err = p.tryParseFormat(p.Pos()); err != nil {
+			return nil, err
+		}
 	}
 
 	// Statement can be terminated by ';' or EOF
-- 
2.43.0


From e524288e730e5ed6059741afbfbd9a2746828341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:41 +0000
Subject: [PATCH 57/66] fix: reject a second ON CLUSTER of DROP USER and DROP
 ROLE, which was dropped

---
 parser/parse_system.go | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/parser/parse_system.go b/parser/parse_system.go
index 103ea62..05aa7b7 100644
--- a/parser/parse_system.go
+++ b/parser/parse_system.go
@@ -1010,14 +1010,6 @@ func (p *Parser) parserDropUserOrRole(pos Pos) (*DropUserOrRole, error) {
 	}
 	statementEnd := names[len(names)-1].End()
 
-	onCluster, err := p.tryParseClusterClause(p.Pos())
-	if err != nil {
-		return nil, err
-	}
-	if onCluster != nil {
-		statementEnd = onCluster.End()
-	}
-
 	var from *Ident
 	if p.tryConsumeKeywords(KeywordFrom) {
 		from, err = p.parseIdent()
-- 
2.43.0


From 047dd187ae2e5dca82999a1b0d121b33151669cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:52 +0000
Subject: [PATCH 58/66] fix: reject a repeated WITH CUBE, ROLLUP or TOTALS,
 which was dropped

---
 parser/parser_query.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser/parser_query.go b/parser/parser_query.go
index 2ae0101..6b42577 100644
--- a/parser/parser_query.go
+++ b/parser/parser_query.go
@@ -618,11 +618,11 @@ func (p *Parser) parseGroupByClause(pos Pos, allowAlias bool) (*GroupByClause, e
 		// end before it is consumed
 		keywordEnd := p.End()
 		switch {
-		case p.tryConsumeKeywords(KeywordCube):
+		case !groupBy.WithCube && p.tryConsumeKeywords(KeywordCube):
 			groupBy.WithCube = true
-		case p.tryConsumeKeywords(KeywordRollup):
+		case !groupBy.WithRollup && p.tryConsumeKeywords(KeywordRollup):
 			groupBy.WithRollup = true
-		case p.tryConsumeKeywords(KeywordTotals):
+		case !groupBy.WithTotals && p.tryConsumeKeywords(KeywordTotals):
 			groupBy.WithTotals = true
 		default:
 			return nil, fmt.Errorf("expected CUBE, ROLLUP or TOTALS, got %s", p.currentTokenKind())
-- 
2.43.0


From 83ca80336b6369080554cddbaa9afaeeafe00845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:34 +0000
Subject: [PATCH 59/66] fix: keep the parentheses of USING around a reserved
 keyword

---
 parser/format.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/parser/format.go b/parser/format.go
index f7da395..4376eb8 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -2830,7 +2830,21 @@ func (u *UsingClause) FormatSQL(formatter *Formatter) {
 	// without parentheses around the list, a first column that starts with one
 	// would be read as the whole list, and a trailing comma would take what
 	// follows as one more column
-	u.formatList(formatter, u.Using.TrailingComma || !u.startsWithName())
+	u.formatList(formatter, u.Using.TrailingComma || !u.startsWithName() || u.endsWithReserved())
+}
+
+// endsWithReserved reports whether the last column is a reserved keyword, which
+// is a name only in front of a comma or a closing parenthesis.
+func (u *UsingClause) endsWithReserved() bool {
+	if len(u.Using.Items) == 0 {
+		return false
+	}
+	column := u.Using.Items[len(u.Using.Items)-1]
+	if columnExpr, ok := column.(*ColumnExpr); ok {
+		column = columnExpr.Expr
+	}
+	ident, ok := column.(*Ident)
+	return ok && ident.QuoteType == Unquoted && reservedKeywords.Contains(strings.ToUpper(ident.Name))
 }
 
 func (u *UsingClause) startsWithName() bool {
-- 
2.43.0


From 1e9dbe861f5c7241b00543da9c3b3c30d54c575d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:47 +0000
Subject: [PATCH 60/66] fix: accept EXCEPT of two queries behind a select item

---
 parser/parser_column.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/parser/parser_column.go b/parser/parser_column.go
index 6bb6059..3155207 100644
--- a/parser/parser_column.go
+++ b/parser/parser_column.go
@@ -1204,6 +1204,19 @@ func (p *Parser) parseColumnsExpr(pos Pos) (*ColumnExpr, error) {
 	}, nil
 }
 
+// isExceptOfQueries reports whether the current token is the EXCEPT between two
+// queries, which, unlike the modifier EXCEPT(columns), has a query behind it.
+func (p *Parser) isExceptOfQueries() bool {
+	if !p.matchKeyword(KeywordExcept) {
+		return false
+	}
+	savedState := p.lexer.saveState()
+	defer p.lexer.restoreState(savedState)
+	_ = p.lexer.consumeToken()
+	p.tryConsumeTokenKind(TokenKindLParen)
+	return p.matchOneOfKeywords(KeywordSelect, KeywordWith) && !p.peekTokenKind(TokenKindComma) && !p.peekTokenKind(TokenKindRParen)
+}
+
 func (p *Parser) parseSelectItem() (*SelectItem, error) {
 	expr, err := p.parseExpr(p.Pos())
 	if err != nil {
@@ -1212,6 +1225,9 @@ func (p *Parser) parseSelectItem() (*SelectItem, error) {
 
 	modifiers := make([]*FunctionExpr, 0)
 	for {
+		if p.isExceptOfQueries() {
+			break
+		}
 		if p.matchKeyword(KeywordExcept) || p.matchKeyword(KeywordApply) || p.matchKeyword(KeywordReplace) {
 			modifier, err := p.parseFunctionExpr(p.Pos())
 			if err != nil {
-- 
2.43.0


From a2e7501ea21cfe54c968c39f966b37a41259c8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:45 +0000
Subject: [PATCH 61/66] fix: POPULATE of a view without a query ends the
 statement with its last token

---
 parser/parser_view.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser_view.go b/parser/parser_view.go
index 02e31bc..b247e03 100644
--- a/parser/parser_view.go
+++ b/parser/parser_view.go
@@ -155,7 +155,7 @@ func (p *Parser) parseCreateMaterializedView(pos Pos) (*CreateMaterializedView,
 			return nil, fmt.Errorf("POPULATE requires ENGINE to be specified")
 		}
 		createMaterializedView.Populate = true
-		createMaterializedView.StatementEnd = p.Pos()
+		createMaterializedView.StatementEnd = p.prevEnd()
 	}
 
 	// COMMENT can appear either before or after AS SELECT.
-- 
2.43.0


From 7e343f5ba1e5d951d8fde7b4e5ebbe9602d68d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:28 +0000
Subject: [PATCH 62/66] fix: read +> as two tokens, not as the lambda arrow

---
 parser/lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index 0d97b78..2c4420c 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -405,7 +405,7 @@ func (l *Lexer) readToken() error {
 		// hasPrecedenceToken is used to distinguish between unary and binary operators
 		if !l.hasPrecedenceToken(prevToken) && l.peekOk(1) && IsDigit(l.peekN(1)) {
 			return l.consumeNumber()
-		} else if l.peekOk(1) && l.peekN(1) == '>' {
+		} else if l.peekN(0) == '-' && l.peekOk(1) && l.peekN(1) == '>' {
 			l.currentToken = &Token{
 				String: l.slice(0, 2),
 				Kind:   TokenKindArrow,
-- 
2.43.0


From a05ec83bcfb8232a394993e0a5f22c8b03ce6c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:55 +0000
Subject: [PATCH 63/66] fix: accept cast and extract as names where no
 parenthesis follows

---
 parser/parser_column.go | 4 ++--
 parser/parser_table.go  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser/parser_column.go b/parser/parser_column.go
index 3155207..2c430f4 100644
--- a/parser/parser_column.go
+++ b/parser/parser_column.go
@@ -619,13 +619,13 @@ func (p *Parser) parseColumnExpr(pos Pos) (Expr, error) { //nolint:funlen
 			return p.parseString(p.Pos())
 		}
 		return p.parseIdentOrFunction(pos)
-	case p.matchKeyword(KeywordCast):
+	case p.matchKeyword(KeywordCast) && p.peekTokenKind(TokenKindLParen):
 		return p.parseColumnCastExpr(pos)
 	case p.matchKeyword(KeywordCase):
 		return p.parseColumnCaseExpr(pos)
 	case p.matchKeyword(KeywordSelect) && p.isBehindLParen():
 		return p.parseSelectQuery(pos)
-	case p.matchKeyword(KeywordExtract):
+	case p.matchKeyword(KeywordExtract) && p.peekTokenKind(TokenKindLParen):
 		return p.parseColumnExtractExpr(pos)
 	case p.matchTokenKind(TokenKindIdent):
 		return p.parseIdentOrFunction(pos)
diff --git a/parser/parser_table.go b/parser/parser_table.go
index fdbe1f6..6699b0e 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -763,7 +763,7 @@ func (p *Parser) parseTableArgExpr(pos Pos) (Expr, error) {
 
 func (p *Parser) parseTableArgPrimaryExpr(pos Pos) (Expr, error) {
 	switch {
-	case p.matchKeyword(KeywordCast):
+	case p.matchKeyword(KeywordCast) && p.peekTokenKind(TokenKindLParen):
 		// CAST has its own syntax, so reading it as an ordinary function call
 		// stops at the AS separator: numbers(CAST(1 + 1 AS UInt64)) failed
 		// looking for ')'. CAST is not reserved, so it also matches
-- 
2.43.0


From 77abd19784e006088f00fcf3e47b219703c44035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:04 +0000
Subject: [PATCH 64/66] fix: keep the parentheses around a set operation that
 is an operand of another

---
 parser/ast.go          |  1 +
 parser/format.go       |  6 ++++++
 parser/parser_query.go | 21 +++++++++++++++++----
 3 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/parser/ast.go b/parser/ast.go
index 136cc31..17cb8cc 100644
--- a/parser/ast.go
+++ b/parser/ast.go
@@ -5349,6 +5349,7 @@ type SelectQuery struct {
 	UnionDistinct *SelectQuery
 	Except        *SelectQuery
 	Intersect     *SelectQuery
+	HasParen      bool `json:",omitempty"` // a EXCEPT (b EXCEPT c) is not a EXCEPT b EXCEPT c
 }
 
 func (s *SelectQuery) Pos() Pos {
diff --git a/parser/format.go b/parser/format.go
index 4376eb8..a4b7edc 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -2341,6 +2341,9 @@ func (s *SelectItem) FormatSQL(formatter *Formatter) {
 }
 
 func (s *SelectQuery) FormatSQL(formatter *Formatter) {
+	if s.HasParen {
+		formatter.WriteByte('(')
+	}
 	if s.With != nil {
 		formatter.WriteString("WITH")
 		formatter.Indent()
@@ -2448,6 +2451,9 @@ func (s *SelectQuery) FormatSQL(formatter *Formatter) {
 		formatter.Break()
 		formatter.WriteExpr(s.Intersect)
 	}
+	if s.HasParen {
+		formatter.WriteByte(')')
+	}
 }
 
 func (s *SetStmt) FormatSQL(formatter *Formatter) {
diff --git a/parser/parser_query.go b/parser/parser_query.go
index 6b42577..1251dc2 100644
--- a/parser/parser_query.go
+++ b/parser/parser_query.go
@@ -1083,13 +1083,13 @@ func (p *Parser) parseSelectQuery(_ Pos) (*SelectQuery, error) {
 	case p.tryConsumeKeywords(KeywordUnion):
 		switch {
 		case p.tryConsumeKeywords(KeywordAll):
-			unionAllExpr, err := p.parseSelectQuery(p.Pos())
+			unionAllExpr, err := p.parseSetOperand()
 			if err != nil {
 				return nil, err
 			}
 			selectStmt.UnionAll = unionAllExpr
 		case p.tryConsumeKeywords(KeywordDistinct):
-			unionDistinctExpr, err := p.parseSelectQuery(p.Pos())
+			unionDistinctExpr, err := p.parseSetOperand()
 			if err != nil {
 				return nil, err
 			}
@@ -1098,13 +1098,13 @@ func (p *Parser) parseSelectQuery(_ Pos) (*SelectQuery, error) {
 			return nil, fmt.Errorf("expected ALL or DISTINCT, got %s", p.currentTokenKind())
 		}
 	case p.tryConsumeKeywords(KeywordExcept):
-		exceptExpr, err := p.parseSelectQuery(p.Pos())
+		exceptExpr, err := p.parseSetOperand()
 		if err != nil {
 			return nil, err
 		}
 		selectStmt.Except = exceptExpr
 	case p.tryConsumeKeywords(KeywordIntersect):
-		intersectExpr, err := p.parseSelectQuery(p.Pos())
+		intersectExpr, err := p.parseSetOperand()
 		if err != nil {
 			return nil, err
 		}
@@ -1118,6 +1118,19 @@ func (p *Parser) parseSelectQuery(_ Pos) (*SelectQuery, error) {
 	return selectStmt, nil
 }
 
+// parseSetOperand parses the query behind UNION, EXCEPT or INTERSECT. The
+// parentheses around it matter when it is itself such an operation.
+func (p *Parser) parseSetOperand() (*SelectQuery, error) {
+	hasParen := p.matchTokenKind(TokenKindLParen)
+	query, err := p.parseSelectQuery(p.Pos())
+	if err != nil {
+		return nil, err
+	}
+	query.HasParen = hasParen && (query.UnionAll != nil || query.UnionDistinct != nil ||
+		query.Except != nil || query.Intersect != nil)
+	return query, nil
+}
+
 func (p *Parser) parseSelectStmt(pos Pos) (*SelectQuery, error) { // nolint: funlen
 	withClause, err := p.tryParseWithClause(pos)
 	if err != nil {
-- 
2.43.0


From b173014daea17abc5a178829732a7fd4d0ad2b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:52 +0000
Subject: [PATCH 65/66] fix: keep the space between a number after :: and a
 member access

---
 parser/format.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/format.go b/parser/format.go
index a4b7edc..b22c93f 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -1717,6 +1717,9 @@ func endsInNumber(expr Expr) bool {
 		return endsInNumber(e.Expr)
 	case *IndexOperation:
 		return endsInNumber(e.Index)
+	case *BinaryOperation:
+		// only :: binds tighter than the dot
+		return endsInNumber(e.RightExpr)
 	default:
 		return false
 	}
-- 
2.43.0


From dd03e20e6b873b6f3a760577b79ed5f61566bea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:08 +0000
Subject: [PATCH 66/66] fix: apply a subscript or member access behind :: to
 the converted value

---
 parser/parser_column.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/parser/parser_column.go b/parser/parser_column.go
index 2c430f4..7a757e2 100644
--- a/parser/parser_column.go
+++ b/parser/parser_column.go
@@ -151,7 +151,15 @@ func (p *Parser) parseInfix(expr Expr, precedence int) (Expr, error) {
 			}, nil
 		}
 
-		rightExpr, err := p.parseSubExpr(p.Pos(), precedence)
+		var rightExpr Expr
+		var err error
+		if p.matchTokenKind(TokenKindIdent) && (p.peekTokenKind(TokenKindLBracket) || p.peekTokenKind(TokenKindDot)) {
+			// "::" binds tighter than subscript and member access, so these
+			// apply to the converted value and not to the name of the type
+			rightExpr, err = p.parseIdent()
+		} else {
+			rightExpr, err = p.parseSubExpr(p.Pos(), precedence)
+		}
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0

