From 01fd083699fd3a069f17102eea1b8c4114c04a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:01 +0000
Subject: [PATCH 01/21] fix: i1 and bool occupy one byte, not zero

---
 internals/ctypes/types.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/internals/ctypes/types.go b/internals/ctypes/types.go
index b02bae1..9541bf9 100644
--- a/internals/ctypes/types.go
+++ b/internals/ctypes/types.go
@@ -97,11 +97,11 @@ func (i *Integer) String() string {
 func (_ *Integer) CandiceType() {}
 
 func (i *Integer) SizeOf() int64 {
-	return int64(i.BitSize / 8)
+	return int64((i.BitSize + 7) / 8)
 }
 
 func (i *Integer) Alignment() int64 {
-	return int64(i.BitSize / 8)
+	return int64((i.BitSize + 7) / 8)
 }
 
 type UInteger struct {
@@ -114,11 +114,11 @@ func (i *UInteger) String() string {
 }
 
 func (i *UInteger) SizeOf() int64 {
-	return int64(i.BitSize / 8)
+	return int64((i.BitSize + 7) / 8)
 }
 
 func (i *UInteger) Alignment() int64 {
-	return int64(i.BitSize / 8)
+	return int64((i.BitSize + 7) / 8)
 }
 
 func (_ *UInteger) CandiceType() {}
@@ -156,7 +156,7 @@ type Float struct {
 func (_ *Float) CandiceType() {}
 
 func (f *Float) SizeOf() int64 {
-	return int64(f.BitSize / 8)
+	return int64((f.BitSize + 7) / 8)
 }
 
 func (f *Float) String() string {
@@ -164,7 +164,7 @@ func (f *Float) String() string {
 }
 
 func (f *Float) Alignment() int64 {
-	return int64(f.BitSize / 8)
+	return int64((f.BitSize + 7) / 8)
 }
 
 type Array struct {
-- 
2.43.0


From 7025e74087169970f5d8930e9aeaf47ae3fe4142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:01 +0000
Subject: [PATCH 02/21] fix: alignment of an empty struct or union is 1

---
 internals/ctypes/types.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internals/ctypes/types.go b/internals/ctypes/types.go
index 9541bf9..ecc0845 100644
--- a/internals/ctypes/types.go
+++ b/internals/ctypes/types.go
@@ -322,7 +322,7 @@ func (u *Union) SizeOf() int64 {
 }
 
 func (u *Union) Alignment() int64 {
-	maximumAlignment := int64(0)
+	maximumAlignment := int64(1)
 	for _, t := range u.Fields {
 		alignment := t.Alignment()
 		if alignment > maximumAlignment {
@@ -415,7 +415,7 @@ func (s *Struct) SizeOf() int64 {
 }
 
 func (s *Struct) Alignment() int64 {
-	maximumAlignment := int64(0)
+	maximumAlignment := int64(1)
 	for _, t := range s.Fields {
 		alignment := t.Alignment()
 		if alignment >= maximumAlignment {
-- 
2.43.0


From 459802f1ba1a75a4c4b994868509f7707d9c532e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:01 +0000
Subject: [PATCH 03/21] fix: union size is a multiple of its alignment

---
 internals/ctypes/types.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internals/ctypes/types.go b/internals/ctypes/types.go
index ecc0845..c8472e6 100644
--- a/internals/ctypes/types.go
+++ b/internals/ctypes/types.go
@@ -318,7 +318,8 @@ func (u *Union) SizeOf() int64 {
 		}
 	}
 
-	return max
+	alignment := u.Alignment()
+	return max + (alignment-(max%alignment))%alignment
 }
 
 func (u *Union) Alignment() int64 {
-- 
2.43.0


From 7938f93aeb0f58d2d4ffd279808c75c477bb17a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:44 +0000
Subject: [PATCH 04/21] fix: bytes of string and char literals are kept as they
 are (no UTF-8 re-encoding)

---
 internals/lexer/lexer.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internals/lexer/lexer.go b/internals/lexer/lexer.go
index 657608b..e15507b 100644
--- a/internals/lexer/lexer.go
+++ b/internals/lexer/lexer.go
@@ -257,12 +257,12 @@ func (l *Lexer) readString() string {
 
 			// Read it as a literal
 			l.readChar()
-			s += string(l.ch)
+			s += string([]byte{l.ch})
 			l.readChar()
 			continue
 		}
 
-		s += string(l.ch)
+		s += string([]byte{l.ch})
 		l.readChar()
 	}
 
@@ -270,7 +270,7 @@ func (l *Lexer) readString() string {
 }
 
 func (l *Lexer) newToken(tokenType token.TypeToken, ch byte) token.Token {
-	return token.Token{Type: tokenType, Literal: string(ch), Line: l.line, Position: l.column - 1, OverallPosition: l.position}
+	return token.Token{Type: tokenType, Literal: string([]byte{ch}), Line: l.line, Position: l.column - 1, OverallPosition: l.position}
 }
 
 func isDigit(ch byte) bool {
-- 
2.43.0


From d7a4a6a9c07bddfa76b8f1c88f6f35a8dd14c949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:44 +0000
Subject: [PATCH 05/21] fix: escape sequences in char literals

---
 internals/lexer/lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internals/lexer/lexer.go b/internals/lexer/lexer.go
index e15507b..34e059d 100644
--- a/internals/lexer/lexer.go
+++ b/internals/lexer/lexer.go
@@ -88,7 +88,7 @@ func (l *Lexer) readTwoBytesToken(t token.TypeToken, peek byte) token.Token {
 func (l *Lexer) readCharLiteral() token.Token {
 	l.readChar()
 	var literal byte
-	if l.peekChar() == '\\' {
+	if l.ch == '\\' {
 		// it's a \n or \t
 		l.readChar()
 		c := l.ch
-- 
2.43.0


From 417813d66b5b5bf0b5078bcc4dce3bcaa33095b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:44 +0000
Subject: [PATCH 06/21] fix: a comment at the end of the file does not count a
 line

---
 internals/lexer/lexer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internals/lexer/lexer.go b/internals/lexer/lexer.go
index 34e059d..d2629db 100644
--- a/internals/lexer/lexer.go
+++ b/internals/lexer/lexer.go
@@ -47,6 +47,9 @@ func (l *Lexer) skipUntilJL() {
 	for l.ch != '\n' && l.ch != 0 {
 		l.readChar()
 	}
+	if l.ch == 0 {
+		return
+	}
 	l.readChar()
 	l.line++
 	l.column = 1
-- 
2.43.0


From 58b9d90c55fb6e7fc77fd16ee950023c70c1a866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:03 +0000
Subject: [PATCH 07/21] fix: newlines inside string and char literals count as
 lines

---
 internals/lexer/lexer.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/internals/lexer/lexer.go b/internals/lexer/lexer.go
index d2629db..451f5a7 100644
--- a/internals/lexer/lexer.go
+++ b/internals/lexer/lexer.go
@@ -95,6 +95,7 @@ func (l *Lexer) readCharLiteral() token.Token {
 		// it's a \n or \t
 		l.readChar()
 		c := l.ch
+		l.countJumpLine()
 		l.readChar()
 		if c == 'n' {
 			c = '\n'
@@ -106,6 +107,7 @@ func (l *Lexer) readCharLiteral() token.Token {
 		literal = c
 	} else {
 		literal = l.ch
+		l.countJumpLine()
 		l.readChar()
 	}
 
@@ -160,8 +162,8 @@ func (l *Lexer) NextToken() token.Token {
 		tok = l.newToken(token.RBRACKET, l.ch)
 	case '"':
 		tok.Type = token.STRING
-		tok.Literal = l.readString()
 		tok.Line = l.line
+		tok.Literal = l.readString()
 		tok.Position = l.column - uint32(len(tok.Literal))
 		tok.OverallPosition = l.position
 	case '=':
@@ -245,6 +247,14 @@ func (l *Lexer) parseNumericToken() token.Token {
 	return tok
 }
 
+// countJumpLine counts the line that ends with the current character of a literal
+func (l *Lexer) countJumpLine() {
+	if l.ch == '\n' {
+		l.line++
+		l.column = 1
+	}
+}
+
 func (l *Lexer) readString() string {
 	s := ""
 	l.readChar()
@@ -260,11 +270,13 @@ func (l *Lexer) readString() string {
 
 			// Read it as a literal
 			l.readChar()
+			l.countJumpLine()
 			s += string([]byte{l.ch})
 			l.readChar()
 			continue
 		}
 
+		l.countJumpLine()
 		s += string([]byte{l.ch})
 		l.readChar()
 	}
-- 
2.43.0


From 531a6e2e67e2246255140b89d4191caabdfe4589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:27 +0000
Subject: [PATCH 08/21] fix: leave the scope of a block that has statements
 after its return

---
 internals/semantic/semantic.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 3b49395..1fdcf05 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -296,7 +296,7 @@ func (s *Semantic) analyzeBlock(block *ast.Block) {
 	s.enterFrame()
 	for _, stmt := range block.Statements {
 		if s.returns {
-			return
+			break
 		}
 		s.analyzeStatement(stmt)
 	}
-- 
2.43.0


From 87235208c8fb7a95df869061da7edd8306266c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:27 +0000
Subject: [PATCH 09/21] fix: a switch without default does not return on every
 path

---
 internals/semantic/semantic.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 1fdcf05..fb91885 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -1436,7 +1436,7 @@ func (s *Semantic) analyzeSwitchStatement(switchStatement *ast.SwitchStatement)
 		s.analyzeBlock(switchStatement.Default)
 		allCasesReturn = allCasesReturn && s.returns
 	} else {
-		s.returns = false
+		allCasesReturn = false
 	}
 
 	s.returns = allCasesReturn
-- 
2.43.0


From cc1690eeebe6a4d4721353d268d27d7df5beaa28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:55 +0000
Subject: [PATCH 10/21] fix: analyse else-if conditions after a branch that
 returns

---
 internals/semantic/semantic.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index fb91885..40fcc8e 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -414,8 +414,8 @@ func (s *Semantic) analyzeIfStatement(ifStatement *ast.IfStatement) {
 	s.analyzeBlock(ifStatement.Block)
 	if !s.returns {
 		doesReturn = false
-		s.returns = false
 	}
+	s.returns = false
 
 	for _, currentIf := range ifStatement.ElseIfs {
 		condition := s.analyzeExpression(currentIf.Condition)
-- 
2.43.0


From 717fdf990f098add72cd64c083173a66c3b75df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:16 +0000
Subject: [PATCH 11/21] fix: functions without a return type have type void
 when used as values before their definition

---
 internals/semantic/semantic.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 40fcc8e..9246daa 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -340,9 +340,11 @@ func (s *Semantic) replaceAnonymousFunctionParameterTypes(fun *ctypes.Function)
 		s.variables.Add(fun.Names[i], s.newType(fun.Parameters[i]))
 	}
 
-	if fun.Return != nil {
-		s.replaceAnonymous(fun.Return)
+	if fun.Return == nil {
+		fun.Return = ctypes.VoidType
 	}
+
+	s.replaceAnonymous(fun.Return)
 }
 
 func (s *Semantic) analyzeFunctionType(functionToken token.Token, fun *ctypes.Function, block *ast.Block) {
-- 
2.43.0


From bca388139e06421f99beafaa67dbd0a00afee6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:38 +0000
Subject: [PATCH 12/21] fix: break and continue in a function body don't refer
 to a loop around the function

---
 internals/semantic/semantic.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 9246daa..b3ab073 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -362,6 +362,10 @@ func (s *Semantic) analyzeFunctionType(functionToken token.Token, fun *ctypes.Fu
 	fun.Return = s.UnwrapAnonymous(fun.Return)
 	s.currentExpectedReturnType = fun.Return
 
+	// a loop around the function isn't a loop of its body
+	temporaryInsideBreakableBlock := s.insideBreakableBlock
+	s.insideBreakableBlock = false
+
 	if block != nil {
 		for _, statement := range block.Statements {
 			if s.returns {
@@ -371,6 +375,9 @@ func (s *Semantic) analyzeFunctionType(functionToken token.Token, fun *ctypes.Fu
 		}
 	}
 
+	s.insideBreakableBlock = temporaryInsideBreakableBlock
+
+
 	if !s.returns && fun.Return != ctypes.VoidType {
 		s.error("not all paths of the function '"+fun.String()+"' return a value", functionToken)
 	}
-- 
2.43.0


From 42cd95a2a2920ad9549b0c1cec022513a03a728f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:14 +0000
Subject: [PATCH 13/21] fix: constants can't be mutated with ++ and -- or
 through a capture, and may be read in the target of an assignment

---
 internals/semantic/semantic.go | 36 +++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index b3ab073..34d73a1 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -291,6 +291,15 @@ func (s *Semantic) analyzeAssigmentStatement(assign *ast.AssignmentStatement) {
 	}
 }
 
+// analyzeReadExpression analyzes a part of an expression that is only read, even if the whole expression is modified
+func (s *Semantic) analyzeReadExpression(expression ast.Expression) ctypes.Type {
+	previousExpectNonConstantExpression := s.expectNonConstantExpression
+	s.expectNonConstantExpression = false
+	t := s.analyzeExpression(expression)
+	s.expectNonConstantExpression = previousExpectNonConstantExpression
+	return t
+}
+
 func (s *Semantic) analyzeBlock(block *ast.Block) {
 	s.expectStatementInsideFunction(block.Token)
 	s.enterFrame()
@@ -377,7 +386,6 @@ func (s *Semantic) analyzeFunctionType(functionToken token.Token, fun *ctypes.Fu
 
 	s.insideBreakableBlock = temporaryInsideBreakableBlock
 
-
 	if !s.returns && fun.Return != ctypes.VoidType {
 		s.error("not all paths of the function '"+fun.String()+"' return a value", functionToken)
 	}
@@ -834,7 +842,7 @@ func (s *Semantic) analyzeIndexAccess(indexAccess *ast.IndexAccess) ctypes.Type
 		s.errorWithStatement("expected a pointer or an array for an index access, instead we got "+leftType.String(), indexAccess.Token)
 	}
 
-	indexType := s.analyzeExpression(indexAccess.Access)
+	indexType := s.analyzeReadExpression(indexAccess.Access)
 	if !ctypes.IsNumeric(indexType) {
 		s.typeMismatchError(indexAccess.String(), indexAccess.Access, indexAccess.Token, ctypes.I32, indexType)
 	}
@@ -988,7 +996,7 @@ func (s *Semantic) analyzeFunctionCall(call *ast.Call) ctypes.Type {
 			continue
 		}
 
-		paramType := s.analyzeExpression(param)
+		paramType := s.analyzeReadExpression(param)
 
 		if i >= len(funcType.Parameters) {
 			continue
@@ -1012,14 +1020,6 @@ func (s *Semantic) analyzeIdentifier(identifier *ast.Identifier) ctypes.Type {
 	if identifierType := s.variables.Get(identifier.Name); identifierType != nil {
 		identifier.Type = identifierType.Type
 
-		if identifierType.parentFunction != s.currentFunctionBeingAnalyzed && identifierType.parentFunction != nil {
-			s.currentAnonymousFunctionBeingAnalyzed.CapturedVariables =
-				append(s.currentAnonymousFunctionBeingAnalyzed.CapturedVariables, identifier.Name)
-			identifierTypeUnwrap := s.UnwrapAnonymous(s.replaceAnonymous(identifierType.Type))
-			s.variables.Add(identifier.Name, &SemanticType{Type: identifierTypeUnwrap, parentFunction: s.currentFunctionBeingAnalyzed})
-			return identifierTypeUnwrap
-		}
-
 		if !identifierType.IsConstant && s.expectConstantExpression {
 			s.errorWithStatement("this expression should be constant and '"+identifier.String()+"' is not a constant variable", identifier.Token)
 		}
@@ -1028,6 +1028,14 @@ func (s *Semantic) analyzeIdentifier(identifier *ast.Identifier) ctypes.Type {
 			s.errorWithStatement("you are trying to mutate a constant, '"+identifier.String()+"' is a constant variable", identifier.Token)
 		}
 
+		if identifierType.parentFunction != s.currentFunctionBeingAnalyzed && identifierType.parentFunction != nil {
+			s.currentAnonymousFunctionBeingAnalyzed.CapturedVariables =
+				append(s.currentAnonymousFunctionBeingAnalyzed.CapturedVariables, identifier.Name)
+			identifierTypeUnwrap := s.UnwrapAnonymous(s.replaceAnonymous(identifierType.Type))
+			s.variables.Add(identifier.Name, &SemanticType{Type: identifierTypeUnwrap, parentFunction: s.currentFunctionBeingAnalyzed, IsConstant: identifierType.IsConstant})
+			return identifierTypeUnwrap
+		}
+
 		return identifierType.Type
 	}
 
@@ -1036,7 +1044,13 @@ func (s *Semantic) analyzeIdentifier(identifier *ast.Identifier) ctypes.Type {
 }
 
 func (s *Semantic) analyzePrefixOperation(prefixOperation *ast.PrefixOperation) ctypes.Type {
+	previousExpectNonConstantExpression := s.expectNonConstantExpression
+	if prefixOperation.Operation == ops.AddOne || prefixOperation.Operation == ops.SubtractOne {
+		s.expectNonConstantExpression = true
+	}
+
 	t := s.UnwrapAnonymous(s.analyzeExpression(prefixOperation.Right))
+	s.expectNonConstantExpression = previousExpectNonConstantExpression
 	prefixOperation.Type = t
 	if prefixOperation.Operation == ops.Add {
 		if !ctypes.IsNumeric(t) {
-- 
2.43.0


From cd2d420a4237a3d7aba0f4d6c957967556c38d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:17 +0000
Subject: [PATCH 14/21] fix: a declaration or switch inside a constant
 expression keeps expecting constants

---
 internals/semantic/semantic.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 34d73a1..f7c73f2 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -534,17 +534,17 @@ func (s *Semantic) analyzeBuiltinCall(call *ast.BuiltinCall) ctypes.Type {
 }
 
 func (s *Semantic) analyzeDeclarationStatement(declaration *ast.DeclarationStatement) {
+	previousExpectConstantExpression := s.expectConstantExpression
 	s.expectConstantExpression = declaration.Constant
 
 	ctype := s.analyzeExpression(declaration.Expression)
+	s.expectConstantExpression = previousExpectConstantExpression
 
 	if list, ok := ctype.(*ctypes.TypeList); ok {
 		s.errorWithStatement(fmt.Sprintf("the expression returns %d values, but you only declared 1", len(list.Types)), declaration.Token)
 		return
 	}
 
-	s.expectConstantExpression = false
-
 	if ctypes.VoidType == ctype {
 		s.errorWithStatement("you can't declare a void variable", declaration.Token)
 		return
@@ -1439,9 +1439,10 @@ func (s *Semantic) analyzeSwitchStatement(switchStatement *ast.SwitchStatement)
 	allCasesReturn := true
 
 	for _, caseStatement := range switchStatement.Cases {
+		previousExpectConstantExpression := s.expectConstantExpression
 		s.expectConstantExpression = true
 		caseExpression := s.UnwrapAnonymous(s.analyzeExpression(caseStatement.Case))
-		s.expectConstantExpression = false
+		s.expectConstantExpression = previousExpectConstantExpression
 		if !s.areTypesEqual(condition, caseExpression) {
 			s.typeMismatchError(caseExpression.String(), caseStatement.Case, caseStatement.Token, condition, caseExpression)
 			return
-- 
2.43.0


From 73ef3f6e6b7939e73c77086b7fd1622f4ef33267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:09 +0000
Subject: [PATCH 15/21] fix: function and list types with different lengths are
 different types

---
 internals/semantic/semantic.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index f7c73f2..8a501c6 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -680,7 +680,7 @@ func (s *Semantic) existsTypeInUnion(union *ctypes.Union, other ctypes.Type) boo
 func (s *Semantic) checkPossibleCommaTypeEquality(first, second ctypes.Type) bool {
 	if firstTypeList, isList := first.(*ctypes.TypeList); isList {
 		secondTypeList, ok := second.(*ctypes.TypeList)
-		if !ok {
+		if !ok || len(firstTypeList.Types) != len(secondTypeList.Types) {
 			return false
 		}
 
@@ -713,7 +713,7 @@ func (s *Semantic) areTypesEqual(first, second ctypes.Type) bool {
 
 	if firstFunc, ok := first.(*ctypes.Function); ok {
 		secondFunc, ok := second.(*ctypes.Function)
-		if !ok {
+		if !ok || len(firstFunc.Parameters) != len(secondFunc.Parameters) {
 			return false
 		}
 		for i, param := range firstFunc.Parameters {
@@ -768,7 +768,7 @@ func (s *Semantic) areTypesEqualIncludingUnions(first, second ctypes.Type) bool
 
 	if firstFunc, ok := first.(*ctypes.Function); ok {
 		secondFunc, ok := second.(*ctypes.Function)
-		if !ok {
+		if !ok || len(firstFunc.Parameters) != len(secondFunc.Parameters) {
 			return false
 		}
 		for i, param := range firstFunc.Parameters {
@@ -1162,7 +1162,7 @@ func (s *Semantic) findFunctionInAllModules(t ctypes.Type, accessName string) *c
 		}
 
 		if funk, isFunction := v.Type.(*ctypes.Function); isFunction {
-			if !s.areTypesEqual(funk.Parameters[0], t) {
+			if len(funk.Parameters) == 0 || !s.areTypesEqual(funk.Parameters[0], t) {
 				continue
 			}
 
@@ -1177,7 +1177,7 @@ func (s *Semantic) findFunctionInAllModules(t ctypes.Type, accessName string) *c
 	}
 
 	if funk, isFunction := v.Type.(*ctypes.Function); isFunction {
-		if !s.areTypesEqual(funk.Parameters[0], t) {
+		if len(funk.Parameters) == 0 || !s.areTypesEqual(funk.Parameters[0], t) {
 			return nil
 		}
 
@@ -1248,7 +1248,12 @@ func (s *Semantic) analyzeFieldAccess(binaryOperation *ast.BinaryOperation) ctyp
 		}
 
 		fn := variable.Type.(*ctypes.Function)
-		if len(fn.Parameters) == 0 || !s.areTypesEqual(fn.Parameters[0], left) {
+		if len(fn.Parameters) == 0 {
+			s.errorWithStatement("can't call "+binaryOperation.String()+" as a method, it doesn't have parameters", binaryOperation.Token)
+			return ctypes.TODO()
+		}
+
+		if !s.areTypesEqual(fn.Parameters[0], left) {
 			s.typeMismatchError(binaryOperation.String(), binaryOperation.Left, binaryOperation.Token, fn.Parameters[0], left)
 			return ctypes.TODO()
 		}
-- 
2.43.0


From 74db4172914de5353b7fb854a41fdef2dbb0ccf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:53 +0000
Subject: [PATCH 16/21] fix: only numbers and pointers can be compared

---
 internals/semantic/semantic.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 8a501c6..c22991b 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -1402,6 +1402,8 @@ func (s *Semantic) analyzeArithmetic(binaryOperation *ast.BinaryOperation) ctype
 	if binaryOperation.Operation.IsComparison() {
 		if ctypes.IsArray(left) {
 			s.errorWithStatement("Candice can't compare arrays for you, you should try to cast them to a pointer and then compare again if you want a pointer comparison", binaryOperation.Token)
+		} else if !ctypes.IsNumeric(left) && !ctypes.IsPointer(left) {
+			s.cantOperateThisOperationError(binaryOperation, left, right)
 		}
 		return ctypes.I1
 	}
-- 
2.43.0


From d1e94bac42a49ac504ebdedb0b90e77f5f163853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:39 +0000
Subject: [PATCH 17/21] fix: printing a multiple declaration doesn't rename its
 variables

---
 internals/ast/statements.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internals/ast/statements.go b/internals/ast/statements.go
index 98c2fec..b0a7f74 100644
--- a/internals/ast/statements.go
+++ b/internals/ast/statements.go
@@ -117,10 +117,11 @@ func (m *MultipleDeclarationStatement) GetToken() token.Token {
 func (_ *MultipleDeclarationStatement) statementNode() {}
 
 func (m *MultipleDeclarationStatement) String() string {
+	originalNames := make([]string, len(m.Names))
 	for i := range m.Names {
-		m.Names[i] = RetrieveID(m.Names[i])
+		originalNames[i] = RetrieveID(m.Names[i])
 	}
-	names := strings.Join(m.Names, ", ")
+	names := strings.Join(originalNames, ", ")
 	return fmt.Sprintf("%s :%s = %s;", names, m.Type.String(), m.Expression.String())
 }
 
-- 
2.43.0


From 5e3eff61dae4c54abae12280e8a0e6d8ebb71f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:46 +0000
Subject: [PATCH 18/21] fix: the target of an assignment may start with a
 parenthesis

---
 internals/parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internals/parser/parser.go b/internals/parser/parser.go
index 97cd7d1..e8c3e05 100644
--- a/internals/parser/parser.go
+++ b/internals/parser/parser.go
@@ -175,7 +175,7 @@ func (p *Parser) parseStatement() ast.Statement {
 		return p.parseExtern()
 	case token.IDENT:
 		return p.parseIdentifierStatement()
-	case token.ASTERISK:
+	case token.ASTERISK, token.LPAREN:
 		return p.parsePossibleAssignment()
 	case token.IF:
 		return p.parseIf()
-- 
2.43.0


From ca8b1961c11787b396f88e812f964546440af969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:26 +0000
Subject: [PATCH 19/21] fix: an assignment inside the target of another one
 keeps rejecting constants

---
 internals/semantic/semantic.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index c22991b..33e6840 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -283,9 +283,10 @@ func (s *Semantic) analyzeExternStatement(extern *ast.ExternStatement) {
 func (s *Semantic) analyzeAssigmentStatement(assign *ast.AssignmentStatement) {
 	s.expectStatementInsideFunction(assign.Token)
 	right := s.analyzeExpression(assign.Expression)
+	previousExpectNonConstantExpression := s.expectNonConstantExpression
 	s.expectNonConstantExpression = true
 	left := s.analyzeExpression(assign.Left)
-	s.expectNonConstantExpression = false
+	s.expectNonConstantExpression = previousExpectNonConstantExpression
 	if !s.areTypesEqualIncludingUnions(left, right) {
 		s.typeMismatchError(assign.String(), assign.Expression, s.currentStatementBeingAnalyzed.GetToken(), left, right)
 	}
-- 
2.43.0


From e82f52177554b68dba8f5f8a76a120aa2a2427ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:01 +0000
Subject: [PATCH 20/21] fix: a return outside of a function is an error

---
 internals/semantic/semantic.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 33e6840..b003935 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -463,6 +463,7 @@ func (s *Semantic) analyzeIfStatement(ifStatement *ast.IfStatement) {
 }
 
 func (s *Semantic) analyzeReturnStatement(returnStatement *ast.ReturnStatement) {
+	s.expectStatementInsideFunction(returnStatement.Token)
 	theType := s.UnwrapAnonymous(s.analyzeExpression(returnStatement.Expression))
 	if !s.areTypesEqual(theType, s.currentExpectedReturnType) {
 		s.typeMismatchError(returnStatement.String(), returnStatement.Expression, returnStatement.Token, s.currentExpectedReturnType, theType)
-- 
2.43.0


From 8e046f09f74db2883245a223211310ad9bb24518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:24 +0000
Subject: [PATCH 21/21] fix: constants of an imported module can't be mutated,
 and its variables are not constants

---
 internals/semantic/semantic.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index b003935..7abf15d 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -1151,6 +1151,14 @@ func (s *Semantic) analyzeModuleAccess(module *Semantic, binaryOp *ast.BinaryOpe
 		return ctypes.TODO()
 	}
 
+	if !accessedElement.IsConstant && s.expectConstantExpression {
+		s.errorWithStatement("this expression should be constant and '"+identifier.String()+"' is not a constant variable", identifier.Token)
+	}
+
+	if accessedElement.IsConstant && s.expectNonConstantExpression {
+		s.errorWithStatement("you are trying to mutate a constant, '"+identifier.String()+"' is a constant variable", identifier.Token)
+	}
+
 	binaryOp.Type = accessedElement.Type
 
 	return accessedElement.Type
-- 
2.43.0

