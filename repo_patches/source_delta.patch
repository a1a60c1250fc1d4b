From a0e2bf1e16a0a8734ad9ec7f535d36965cfa5467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:14 +0000
Subject: [PATCH 01/56] fix: visit the property names of assignment patterns

---
 internal/linter/linter.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/internal/linter/linter.go b/internal/linter/linter.go
index 1e3a6fd..9c417b5 100644
--- a/internal/linter/linter.go
+++ b/internal/linter/linter.go
@@ -426,7 +426,15 @@ func visitLintNodes(file *ast.SourceFile, runListeners func(kind ast.Kind, node
 		case ast.KindSpreadElement, ast.KindSpreadAssignment:
 			patternVisitor(node.Expression())
 		case ast.KindPropertyAssignment:
-			patternVisitor(node.Initializer())
+			initializer := node.Initializer()
+			node.ForEachChild(func(child *ast.Node) bool {
+				if child == initializer {
+					patternVisitor(child)
+				} else {
+					childVisitor(child)
+				}
+				return false
+			})
 		default:
 			node.ForEachChild(childVisitor)
 		}
-- 
2.43.0


From c9b54b17e88ace9e81221d0ac64da7cee14b5d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:25 +0000
Subject: [PATCH 02/56] fix: treat assignment targets with a default value as
 patterns

---
 internal/linter/linter.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/internal/linter/linter.go b/internal/linter/linter.go
index 9c417b5..d0ba387 100644
--- a/internal/linter/linter.go
+++ b/internal/linter/linter.go
@@ -436,7 +436,15 @@ func visitLintNodes(file *ast.SourceFile, runListeners func(kind ast.Kind, node
 				return false
 			})
 		default:
-			node.ForEachChild(childVisitor)
+			if ast.IsAssignmentExpression(node, true) {
+				// A target with a default value.
+				expr := node.AsBinaryExpression()
+				patternVisitor(expr.Left)
+				childVisitor(expr.OperatorToken)
+				childVisitor(expr.Right)
+			} else {
+				node.ForEachChild(childVisitor)
+			}
 		}
 
 		runListeners(rule.ListenerOnExit(kind), node)
-- 
2.43.0


From bd4cb68c45cf80add75b100ce8c6e947e7429e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:25 +0000
Subject: [PATCH 03/56] fix: treat the targets of for-in and for-of loops as
 patterns

---
 internal/linter/linter.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/internal/linter/linter.go b/internal/linter/linter.go
index d0ba387..c22992f 100644
--- a/internal/linter/linter.go
+++ b/internal/linter/linter.go
@@ -459,6 +459,16 @@ func visitLintNodes(file *ast.SourceFile, runListeners func(kind ast.Kind, node
 			runListeners(kind, node)
 			node.ForEachChild(childVisitor)
 			runListeners(rule.ListenerOnExit(kind), node)
+		case ast.KindForInStatement, ast.KindForOfStatement:
+			initializer := node.Initializer()
+			node.ForEachChild(func(child *ast.Node) bool {
+				if child == initializer && !ast.IsVariableDeclarationList(child) {
+					patternVisitor(child)
+				} else {
+					childVisitor(child)
+				}
+				return false
+			})
 		default:
 			if ast.IsAssignmentExpression(node, true) {
 				expr := node.AsBinaryExpression()
-- 
2.43.0


From 49e2556d2dd6465afcd74263eb5d86d7a190189b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:39 +0000
Subject: [PATCH 04/56] fix: pass project-less files to the inferred program in
 a fixed order

---
 cmd/tsgolint/headless.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/tsgolint/headless.go b/cmd/tsgolint/headless.go
index 8ed760f..312f344 100644
--- a/cmd/tsgolint/headless.go
+++ b/cmd/tsgolint/headless.go
@@ -291,6 +291,9 @@ func runHeadless(args []string) int {
 			workload.Programs[tsconfig] = append(workload.Programs[tsconfig], file)
 		}
 	}
+	// The order of root files decides which of several global declarations
+	// comes first, so it must not depend on map iteration order.
+	slices.Sort(workload.UnmatchedFiles)
 
 	if logLevel == utils.LogLevelDebug {
 		for file, tsconfig := range result {
-- 
2.43.0


From ff745a95d0d1aaebe773016d8e0c3a955c147cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:34 +0000
Subject: [PATCH 05/56] fix: do not crash on enums merged with namespaces or
 empty enums

---
 internal/rules/no_mixed_enums/no_mixed_enums.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/internal/rules/no_mixed_enums/no_mixed_enums.go b/internal/rules/no_mixed_enums/no_mixed_enums.go
index c2ac6ee..b03656a 100644
--- a/internal/rules/no_mixed_enums/no_mixed_enums.go
+++ b/internal/rules/no_mixed_enums/no_mixed_enums.go
@@ -51,9 +51,14 @@ var NoMixedEnumsRule = rule.Rule{
 		getDesiredTypeForDefinition := func(node *ast.Node) allowedType {
 			symbol := ctx.TypeChecker.GetSymbolAtLocation(node.Name())
 
-			declaration := symbol.Declarations[0]
+			// The enum may be merged with namespaces and with enums without members.
+			for _, declaration := range symbol.Declarations {
+				if ast.IsEnumDeclaration(declaration) && len(declaration.Members()) > 0 {
+					return getMemberType(declaration.Members()[0])
+				}
+			}
 
-			return getMemberType(declaration.Members()[0])
+			return getMemberType(node.Members()[0])
 		}
 		return rule.RuleListeners{
 			ast.KindEnumDeclaration: func(node *ast.Node) {
-- 
2.43.0


From df663e52867ef323b295cfea11810c456b181e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:26 +0000
Subject: [PATCH 06/56] fix: keep the range of a missing node well-formed

---
 internal/utils/utils.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/utils/utils.go b/internal/utils/utils.go
index 5d71d0e..430149c 100644
--- a/internal/utils/utils.go
+++ b/internal/utils/utils.go
@@ -13,7 +13,9 @@ import (
 )
 
 func TrimNodeTextRange(sourceFile *ast.SourceFile, node *ast.Node) core.TextRange {
-	return scanner.GetRangeOfTokenAtPosition(sourceFile, node.Pos()).WithEnd(node.End())
+	start := scanner.GetRangeOfTokenAtPosition(sourceFile, node.Pos()).Pos()
+	// A node that is missing from the source (after a syntax error) has no token of its own.
+	return core.NewTextRange(min(start, node.End()), node.End())
 }
 
 func GetCommentsInRange(sourceFile *ast.SourceFile, inRange core.TextRange) iter.Seq[ast.CommentRange] {
-- 
2.43.0


From 34eae270472be66d5fc1d9ea434f20e2376ece5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:28 +0000
Subject: [PATCH 07/56] fix: do not slice past the ends of unterminated
 template parts

---
 .../no_unnecessary_template_expression.go                    | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/rules/no_unnecessary_template_expression/no_unnecessary_template_expression.go b/internal/rules/no_unnecessary_template_expression/no_unnecessary_template_expression.go
index 845c323..73b4101 100644
--- a/internal/rules/no_unnecessary_template_expression/no_unnecessary_template_expression.go
+++ b/internal/rules/no_unnecessary_template_expression/no_unnecessary_template_expression.go
@@ -132,6 +132,11 @@ var NoUnnecessaryTemplateExpressionRule = rule.Rule{
 		}
 
 		isUnnecessaryValueInterpolation := func(expression *ast.Node, prevQuasiEnd int, nextQuasiLiteral *ast.TemplateMiddleOrTail) bool {
+			// After a syntax error the closing delimiters may be missing.
+			if ast.NodeIsMissing(nextQuasiLiteral) || ast.IsUnterminatedLiteral(nextQuasiLiteral) || ast.IsUnterminatedLiteral(expression) {
+				return false
+			}
+
 			if utils.HasCommentsInRange(ctx.SourceFile, core.NewTextRange(prevQuasiEnd, nextQuasiLiteral.Pos())) || utils.HasCommentsInRange(ctx.SourceFile, core.NewTextRange(nextQuasiLiteral.Pos(), utils.TrimNodeTextRange(ctx.SourceFile, nextQuasiLiteral).Pos())) {
 				return false
 			}
-- 
2.43.0


From 050084b39e7fe3ff0e2a48f19f4a7421ab7b215d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:47 +0000
Subject: [PATCH 08/56] fix: do not follow circular aliases forever

---
 internal/rules/no_deprecated/no_deprecated.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/rules/no_deprecated/no_deprecated.go b/internal/rules/no_deprecated/no_deprecated.go
index ad824b1..f0fb971 100644
--- a/internal/rules/no_deprecated/no_deprecated.go
+++ b/internal/rules/no_deprecated/no_deprecated.go
@@ -158,7 +158,12 @@ var NoDeprecatedRule = rule.Rule{
 
 			targetSymbol := ctx.TypeChecker.GetAliasedSymbol(symbol)
 
-			for utils.IsSymbolFlagSet(symbol, ast.SymbolFlagsAlias) {
+			// Aliases may refer to each other in a circle (which is an error, but must not hang the linter).
+			seen := map[*ast.Symbol]bool{}
+
+			for !seen[symbol] && utils.IsSymbolFlagSet(symbol, ast.SymbolFlagsAlias) {
+				seen[symbol] = true
+
 				isDeprecated, reason := getJsDocDeprecation(symbol)
 				if isDeprecated {
 					return true, reason
-- 
2.43.0


From c35c856a307b843e7aa249a8bd14d4b6215e2ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:45 +0000
Subject: [PATCH 09/56] fix: no-duplicate-type-constituents: do not re-scan
 other constituents

The fix re-scanned the whole union from its start, which misreads template
literal types (and panics on valid code).
---
 .../no_duplicate_type_constituents.go         | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/internal/rules/no_duplicate_type_constituents/no_duplicate_type_constituents.go b/internal/rules/no_duplicate_type_constituents/no_duplicate_type_constituents.go
index 9608518..d54e0d6 100644
--- a/internal/rules/no_duplicate_type_constituents/no_duplicate_type_constituents.go
+++ b/internal/rules/no_duplicate_type_constituents/no_duplicate_type_constituents.go
@@ -95,7 +95,17 @@ var NoDuplicateTypeConstituentsRule = rule.Rule{
 				}
 
 				parent := unwindedParentType(constituentNode, kind)
-				s := scanner.GetScannerForSourceFile(ctx.SourceFile, parent.Pos())
+				// Only the tokens between the preceding constituent and this one are
+				// scanned: a constituent cannot always be re-scanned token by token
+				// (e.g. a template literal type).
+				scanStart := parent.Pos()
+				parent.ForEachChild(func(child *ast.Node) bool {
+					if child.End() <= constituentNode.Pos() {
+						scanStart = child.End()
+					}
+					return false
+				})
+				s := scanner.GetScannerForSourceFile(ctx.SourceFile, scanStart)
 				foundBefore := false
 				prevStart := 0
 				bracketBeforeTokens := []core.TextRange{}
@@ -125,7 +135,7 @@ var NoDuplicateTypeConstituentsRule = rule.Rule{
 					for range bracketBeforeTokens {
 						s.Scan()
 						if s.Token() != ast.KindCloseParenToken {
-							panic(fmt.Sprintf("expected next scanned token to be ')', got '%v'", s.Token()))
+							return nil
 						}
 						fixes = append(fixes, rule.RuleFixRemoveRange(s.TokenRange()))
 					}
@@ -137,7 +147,8 @@ var NoDuplicateTypeConstituentsRule = rule.Rule{
 						s.Scan()
 
 						if s.TokenStart() >= parent.End() {
-							panic("couldn't find '&' or '|' token")
+							// the separator is missing (malformed code)
+							return nil
 						}
 
 						if s.Token() == ast.KindAmpersandToken || s.Token() == ast.KindBarToken {
@@ -145,7 +156,7 @@ var NoDuplicateTypeConstituentsRule = rule.Rule{
 							break
 						}
 						if s.Token() != ast.KindCloseParenToken {
-							panic(fmt.Sprintf("expected next scanned token to be ')', got '%v'", s.Token()))
+							return nil
 						}
 						closingParensCount++
 						fixes = append(fixes, rule.RuleFixRemoveRange(s.TokenRange()))
-- 
2.43.0


From 6bd8579280651b57cd8728d69802cf907e96dacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:03 +0000
Subject: [PATCH 10/56] fix: no-unnecessary-template-expression: skip templates
 that are cut off

Ranges past the end of the file were reported for them.
---
 .../no_unnecessary_template_expression.go      | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/internal/rules/no_unnecessary_template_expression/no_unnecessary_template_expression.go b/internal/rules/no_unnecessary_template_expression/no_unnecessary_template_expression.go
index 73b4101..e542657 100644
--- a/internal/rules/no_unnecessary_template_expression/no_unnecessary_template_expression.go
+++ b/internal/rules/no_unnecessary_template_expression/no_unnecessary_template_expression.go
@@ -317,6 +317,18 @@ var NoUnnecessaryTemplateExpressionRule = rule.Rule{
 			}
 		}
 
+		// A template that is cut off (malformed code) has no closing backtick.
+		isTerminated := func(templateSpans *ast.NodeList) bool {
+			last := templateSpans.Nodes[len(templateSpans.Nodes)-1]
+			var tail *ast.TemplateMiddleOrTail
+			if last.Kind == ast.KindTemplateSpan {
+				tail = last.AsTemplateSpan().Literal
+			} else {
+				tail = last.AsTemplateLiteralTypeSpan().Literal
+			}
+			return !ast.NodeIsMissing(tail) && strings.HasSuffix(sourceText[tail.Pos():tail.End()], "`")
+		}
+
 		return rule.RuleListeners{
 			ast.KindTemplateExpression: func(node *ast.Node) {
 				if ast.IsTaggedTemplateExpression(node.Parent) {
@@ -324,6 +336,9 @@ var NoUnnecessaryTemplateExpressionRule = rule.Rule{
 				}
 
 				expr := node.AsTemplateExpression()
+				if !isTerminated(expr.TemplateSpans) {
+					return
+				}
 				firstSpan := expr.TemplateSpans.Nodes[0].AsTemplateSpan()
 
 				if isTrivialInterpolation(expr.TemplateSpans, expr.Head, firstSpan.Literal) {
@@ -339,6 +354,9 @@ var NoUnnecessaryTemplateExpressionRule = rule.Rule{
 			},
 			ast.KindTemplateLiteralType: func(node *ast.Node) {
 				expr := node.AsTemplateLiteralTypeNode()
+				if !isTerminated(expr.TemplateSpans) {
+					return
+				}
 				firstSpan := expr.TemplateSpans.Nodes[0].AsTemplateLiteralTypeSpan()
 
 				if isTrivialInterpolation(expr.TemplateSpans, expr.Head, firstSpan.Literal) {
-- 
2.43.0


From 2ab010729fc0047ff4b5a7332ff5f7f02f5c2094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:56 +0000
Subject: [PATCH 11/56] fix: no-unsafe-type-assertion: no inverted range for
 JSDoc casts

---
 .../no_unsafe_type_assertion/no_unsafe_type_assertion.go     | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/rules/no_unsafe_type_assertion/no_unsafe_type_assertion.go b/internal/rules/no_unsafe_type_assertion/no_unsafe_type_assertion.go
index 971725c..e147e4d 100644
--- a/internal/rules/no_unsafe_type_assertion/no_unsafe_type_assertion.go
+++ b/internal/rules/no_unsafe_type_assertion/no_unsafe_type_assertion.go
@@ -56,6 +56,11 @@ func isObjectLiteralType(t *checker.Type) bool {
 }
 
 func getAssertionRange(sourceFile *ast.SourceFile, node, expression, typeAnnotation *ast.Node) core.TextRange {
+	if typeAnnotation.Flags&ast.NodeFlagsReparsed != 0 {
+		// The type comes from a JSDoc comment in front of the expression.
+		return utils.TrimNodeTextRange(sourceFile, node)
+	}
+
 	if ast.IsAsExpression(node) {
 		asKeywordRange := scanner.GetScannerForSourceFile(sourceFile, expression.End()).TokenRange()
 		return asKeywordRange.WithEnd(typeAnnotation.End())
-- 
2.43.0


From 15f7fb66fe0f8d70d3de02b763f0559e585c5c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:56 +0000
Subject: [PATCH 12/56] fix: dot-notation: no overlapping edits when the
 closing bracket is missing

---
 internal/rules/dot_notation/dot_notation.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/rules/dot_notation/dot_notation.go b/internal/rules/dot_notation/dot_notation.go
index bfed552..7ccc917 100644
--- a/internal/rules/dot_notation/dot_notation.go
+++ b/internal/rules/dot_notation/dot_notation.go
@@ -216,6 +216,10 @@ var DotNotationRule = rule.Rule{
 
 				leftBracketRange := scanner.GetRangeOfTokenAtPosition(ctx.SourceFile, objectRange.End())
 				rightBracketRange := scanner.GetRangeOfTokenAtPosition(ctx.SourceFile, propertyRange.End())
+				if ctx.SourceFile.Text()[rightBracketRange.Pos():rightBracketRange.End()] != "]" {
+					// the closing bracket is missing (malformed code)
+					return nil
+				}
 
 				replaceStart := leftBracketRange.Pos()
 				fixes := make([]rule.RuleFix, 0, 3)
-- 
2.43.0


From 1440dd777c1ef0bae6fe77cf39d7395996400ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:26 +0000
Subject: [PATCH 13/56] fix: CLI code box: split lines the way positions do

The box was cut at line feeds only, while positions count every ECMAScript
line terminator: files that use others made the CLI panic.
---
 cmd/tsgolint/main.go | 37 ++++++++++++-------------------------
 1 file changed, 12 insertions(+), 25 deletions(-)

diff --git a/cmd/tsgolint/main.go b/cmd/tsgolint/main.go
index 4429b31..29da974 100644
--- a/cmd/tsgolint/main.go
+++ b/cmd/tsgolint/main.go
@@ -244,9 +244,6 @@ func printDiagnostic(d rule.RuleDiagnostic, w *bufio.Writer, comparePathOptions
 	codeboxStartLine := max(diagnosticStartLine-1, 0)
 	codeboxEndLine := min(diagnosticEndline+1, len(lineMap)-1)
 
-	codeboxStart := scanner.GetECMAPositionOfLineAndUTF16Character(d.SourceFile, codeboxStartLine, 0)
-	codeboxEnd := scanner.GetECMAEndLinePosition(d.SourceFile, codeboxEndLine) + 1
-
 	w.Write([]byte{' ', 0x1b, '[', '7', 'm', 0x1b, '[', '1', 'm', 0x1b, '[', '3', '8', ';', '5', ';', '3', '7', 'm', ' '})
 	w.WriteString(d.RuleName)
 	w.WriteString(" \x1b[0m — ")
@@ -271,9 +268,6 @@ func printDiagnostic(d rule.RuleDiagnostic, w *bufio.Writer, comparePathOptions
 	w.WriteString("\x1b[0m \x1b[2m)─────\x1b[0m\n")
 
 	indentSize := math.MaxInt
-	line := codeboxStartLine
-	lineIndentCalculated := false
-	lastNonSpaceIndex := -1
 
 	lineStarts := make([]int, 13)
 	lineEnds := make([]int, 13)
@@ -283,29 +277,22 @@ func printDiagnostic(d rule.RuleDiagnostic, w *bufio.Writer, comparePathOptions
 		return
 	}
 
-	for i, char := range text[codeboxStart:codeboxEnd] {
-		if char == '\n' {
-			if line != codeboxEndLine {
-				lineIndentCalculated = false
-				lineEnds[line-codeboxStartLine] = lastNonSpaceIndex - int(lineMap[line]) + codeboxStart
-				lastNonSpaceIndex = -1
-				line++
-			}
-			continue
+	for line := codeboxStartLine; line <= codeboxEndLine; line++ {
+		lineEnd := len(text)
+		if line+1 < len(lineMap) {
+			lineEnd = int(lineMap[line+1])
 		}
-
-		if !lineIndentCalculated && !unicode.IsSpace(char) {
-			lineIndentCalculated = true
-			lineStarts[line-codeboxStartLine] = i - int(lineMap[line]) + codeboxStart
-			indentSize = min(indentSize, lineStarts[line-codeboxStartLine])
+		lineText := strings.TrimRightFunc(text[lineMap[line]:lineEnd], unicode.IsSpace)
+		if lineText == "" {
+			continue
 		}
 
-		if lineIndentCalculated && !unicode.IsSpace(char) {
-			lastNonSpaceIndex = i + 1
-		}
+		lineStarts[line-codeboxStartLine] = len(lineText) - len(strings.TrimLeftFunc(lineText, unicode.IsSpace))
+		lineEnds[line-codeboxStartLine] = len(lineText)
+		indentSize = min(indentSize, lineStarts[line-codeboxStartLine])
 	}
-	if line == codeboxEndLine {
-		lineEnds[line-codeboxStartLine] = lastNonSpaceIndex - int(lineMap[line]) + codeboxStart
+	if indentSize == math.MaxInt {
+		indentSize = 0
 	}
 
 	diagnosticHighlightActive := false
-- 
2.43.0


From 27c2b77a86a51db953de6401d4366ffe793bc790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:04 +0000
Subject: [PATCH 14/56] fix: use-unknown-in-catch-callback-variable: accept the
 rest of an empty tuple

It panicked on one.
---
 .../use_unknown_in_catch_callback_variable.go              | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/rules/use_unknown_in_catch_callback_variable/use_unknown_in_catch_callback_variable.go b/internal/rules/use_unknown_in_catch_callback_variable/use_unknown_in_catch_callback_variable.go
index 4d46911..a3f8cf7 100644
--- a/internal/rules/use_unknown_in_catch_callback_variable/use_unknown_in_catch_callback_variable.go
+++ b/internal/rules/use_unknown_in_catch_callback_variable/use_unknown_in_catch_callback_variable.go
@@ -79,7 +79,12 @@ var UseUnknownInCatchCallbackVariableRule = rule.Rule{
 						if !checker.Checker_isArrayOrTupleType(ctx.TypeChecker, firstParamType) {
 							return true
 						}
-						firstParamType = checker.Checker_getTypeArguments(ctx.TypeChecker, firstParamType)[0]
+						typeArguments := checker.Checker_getTypeArguments(ctx.TypeChecker, firstParamType)
+						if len(typeArguments) == 0 {
+							// the rest of an empty tuple receives no argument at all
+							continue
+						}
+						firstParamType = typeArguments[0]
 					}
 
 					if !utils.IsTypeFlagSet(firstParamType, checker.TypeFlagsUnknown) {
-- 
2.43.0


From 07efca877daafac5c6b44078381fc69207899c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:43 +0000
Subject: [PATCH 15/56] fix: await-thenable: accept iterables without type
 arguments

Promise.all(x) panicked when x was a user-defined iterable object.
---
 internal/rules/await_thenable/await_thenable.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/rules/await_thenable/await_thenable.go b/internal/rules/await_thenable/await_thenable.go
index e9cdd39..f83d6bb 100644
--- a/internal/rules/await_thenable/await_thenable.go
+++ b/internal/rules/await_thenable/await_thenable.go
@@ -306,6 +306,11 @@ func getValueTypesOfArrayLike(
 		return []*checker.Type{numberIndexType}
 	}
 
+	if !utils.IsObjectType(t) || checker.Type_objectFlags(t)&checker.ObjectFlagsReference == 0 {
+		// an iterable without type arguments
+		return nil
+	}
+
 	typeArguments := checker.Checker_getTypeArguments(typeChecker, t)
 	if len(typeArguments) != 0 {
 		return typeArguments[:1]
-- 
2.43.0


From ce0a1e5cde609576ac1e63fd438bf53b799db591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:44 +0000
Subject: [PATCH 16/56] fix: do not follow circular type parameter constraints
 forever

---
 internal/utils/ts_eslint.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/utils/ts_eslint.go b/internal/utils/ts_eslint.go
index ef71320..79e55fe 100644
--- a/internal/utils/ts_eslint.go
+++ b/internal/utils/ts_eslint.go
@@ -116,7 +116,8 @@ func GetTypeName(
 		if decls != nil && len(decls) > 0 {
 			if ast.IsTypeParameterDeclaration(decls[0]) {
 				typeParamDecl := decls[0].AsTypeParameterDeclaration()
-				if typeParamDecl.Constraint != nil {
+				// a circular constraint (malformed code) has no base constraint
+				if typeParamDecl.Constraint != nil && checker.Checker_getBaseConstraintOfType(typeChecker, t) != nil {
 					return GetTypeName(typeChecker, checker.Checker_getTypeFromTypeNode(typeChecker, typeParamDecl.Constraint))
 				}
 			}
-- 
2.43.0


From 58f8548732c96e4c943e34479579ad2c2d592664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:44 +0000
Subject: [PATCH 17/56] fix: prefer-readonly: skip parameter properties that
 are binding patterns

---
 internal/rules/prefer_readonly/prefer_readonly.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/rules/prefer_readonly/prefer_readonly.go b/internal/rules/prefer_readonly/prefer_readonly.go
index 3b5d8be..413fa64 100644
--- a/internal/rules/prefer_readonly/prefer_readonly.go
+++ b/internal/rules/prefer_readonly/prefer_readonly.go
@@ -143,7 +143,8 @@ func (scope *classScope) addDeclaredVariable(node *ast.Node) {
 		return
 	}
 
-	if ast.IsComputedPropertyName(nameNode) {
+	// a parameter property may not be a binding pattern (malformed code)
+	if ast.IsComputedPropertyName(nameNode) || ast.IsBindingPattern(nameNode) {
 		return
 	}
 
-- 
2.43.0


From 9221b88a1cd180fef7d9497ac257304c389ba070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:44 +0000
Subject: [PATCH 18/56] fix: no-base-to-string: judge a part of a recursive
 type on its own

What was assumed about a type while a type that contains it was resolved
stayed in the memo, and hid reports on later expressions.
---
 .../no_base_to_string/no_base_to_string.go     | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/internal/rules/no_base_to_string/no_base_to_string.go b/internal/rules/no_base_to_string/no_base_to_string.go
index 525bea4..fb96f98 100644
--- a/internal/rules/no_base_to_string/no_base_to_string.go
+++ b/internal/rules/no_base_to_string/no_base_to_string.go
@@ -50,6 +50,8 @@ const (
 type certaintyMemo struct {
 	values    map[*checker.Type]usefulness
 	resolving map[*checker.Type]struct{}
+	// assumed is set when a result relies on a type that is still being resolved
+	assumed bool
 }
 
 func newCertaintyMemo() *certaintyMemo {
@@ -65,13 +67,26 @@ func (m *certaintyMemo) get(t *checker.Type, compute func() usefulness) usefulne
 	}
 
 	if _, ok := m.resolving[t]; ok {
+		m.assumed = true
 		return usefulnessAlways
 	}
 
+	assumedBefore := m.assumed
+	m.assumed = false
+
 	m.resolving[t] = struct{}{}
 	certainty := compute()
 	delete(m.resolving, t)
-	m.values[t] = certainty
+
+	// What was found for a part of a self referencing type holds only within
+	// that type, it must not be reused elsewhere.
+	if len(m.resolving) == 0 {
+		m.assumed = false
+	}
+	if !m.assumed {
+		m.values[t] = certainty
+	}
+	m.assumed = m.assumed || assumedBefore
 
 	return certainty
 }
@@ -220,6 +235,7 @@ var NoBaseToStringRule = rule.Rule{
 		) usefulness {
 			if slices.Contains(visited, t) {
 				// don't report if this is a self referencing array or tuple type
+				toStringMemo.assumed = true
 				return usefulnessAlways
 			}
 
-- 
2.43.0


From 55033f7568af880b655f4b65fbe4b73022a214bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:29 +0000
Subject: [PATCH 19/56] fix: no-misused-spread: no overlapping edits when the
 closing brace is missing

---
 internal/rules/no_misused_spread/no_misused_spread.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/rules/no_misused_spread/no_misused_spread.go b/internal/rules/no_misused_spread/no_misused_spread.go
index 2e06e64..807983d 100644
--- a/internal/rules/no_misused_spread/no_misused_spread.go
+++ b/internal/rules/no_misused_spread/no_misused_spread.go
@@ -179,7 +179,8 @@ var NoMisusedSpreadRule = rule.Rule{
 
 			if ast.IsObjectLiteralExpression(node.Parent) {
 				properties := node.Parent.AsObjectLiteralExpression().Properties
-				if len(properties.Nodes) == 1 {
+				// the closing brace may be missing (malformed code)
+				if len(properties.Nodes) == 1 && properties.End() < node.Parent.End() {
 					return []rule.RuleSuggestion{
 						{
 							Message: buildReplaceMapSpreadInObjectMessage(),
-- 
2.43.0


From 82e8af9ff5cd54f52a70a3d59cb3a074b271ac35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:25 +0000
Subject: [PATCH 20/56] fix: no-misused-promises: accept computed property
 names

---
 internal/rules/no_misused_promises/no_misused_promises.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/rules/no_misused_promises/no_misused_promises.go b/internal/rules/no_misused_promises/no_misused_promises.go
index 139f968..964d6cd 100644
--- a/internal/rules/no_misused_promises/no_misused_promises.go
+++ b/internal/rules/no_misused_promises/no_misused_promises.go
@@ -671,7 +671,11 @@ var NoMisusedPromisesRule = rule.Rule{
 			if objType == nil {
 				return nil
 			}
-			propertySymbol := checker.Checker_getPropertyOfType(ctx.TypeChecker, objType, propertyNode.Name().Text())
+			propertyName, ok := ast.TryGetTextOfPropertyName(propertyNode.Name())
+			if !ok {
+				return nil
+			}
+			propertySymbol := checker.Checker_getPropertyOfType(ctx.TypeChecker, objType, propertyName)
 			return localExpectationForSymbol(propertySymbol, t)
 		}
 
-- 
2.43.0


From c31ff9ccb7d5a85a0b13a52727e8cf084b956910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:25 +0000
Subject: [PATCH 21/56] fix: unbound-method: accept a this parameter without a
 type

---
 internal/rules/unbound_method/unbound_method.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/rules/unbound_method/unbound_method.go b/internal/rules/unbound_method/unbound_method.go
index 38218f0..b9b8611 100644
--- a/internal/rules/unbound_method/unbound_method.go
+++ b/internal/rules/unbound_method/unbound_method.go
@@ -164,7 +164,7 @@ func checkMethod(valueDeclaration *ast.Node, ignoreStatic bool) ( /* dangerous *
 
 	firstParamIsThis := len(params) > 0 && ast.IsParameterDeclaration(params[0]) && ast.IsIdentifier(params[0].Name()) && params[0].Name().Text() == "this"
 
-	thisArgIsVoid := firstParamIsThis && params[0].Type().Kind == ast.KindVoidKeyword
+	thisArgIsVoid := firstParamIsThis && params[0].Type() != nil && params[0].Type().Kind == ast.KindVoidKeyword
 
 	dangerous := !thisArgIsVoid && (!ignoreStatic || !utils.IncludesModifier(valueDeclaration, ast.KindStaticKeyword))
 
-- 
2.43.0


From de4dc0ab4bece57df824e86dc2e32e6cc6ab0f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:25 +0000
Subject: [PATCH 22/56] fix: require-await: remove the closing angle bracket
 after trivia, if it is there

---
 internal/rules/require_await/require_await.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/internal/rules/require_await/require_await.go b/internal/rules/require_await/require_await.go
index ff624f5..9996dcd 100644
--- a/internal/rules/require_await/require_await.go
+++ b/internal/rules/require_await/require_await.go
@@ -175,10 +175,13 @@ func buildRemoveAsyncFixes(sourceFile *ast.SourceFile, node *ast.Node, asyncToke
 	case !isGenerator && isTypeReferenceNamed(typeRef, "Promise") && typeRef.TypeArguments != nil && len(typeRef.TypeArguments.Nodes) > 0:
 		// Unwrap `Promise<T>` to `T` by deleting `Promise<` and the trailing `>`.
 		// `TypeArguments.Loc` spans the content between the angle brackets, so
-		// `Pos()-1` is the `<` and `End()` is the `>` (same invariant as parameter
-		// lists; `parseBracketedList` sets these bounds).
+		// `Pos()-1` is the `<`, and the `>` follows `End()` after any trivia, unless
+		// it is missing.
 		openAnglePos := typeRef.TypeArguments.Loc.Pos() - 1
-		closeAnglePos := typeRef.TypeArguments.Loc.End()
+		closeAnglePos := scanner.SkipTrivia(text, typeRef.TypeArguments.Loc.End())
+		if closeAnglePos >= len(text) || text[closeAnglePos] != '>' {
+			return fixes
+		}
 		fixes = append(fixes,
 			rule.RuleFixRemoveRange(core.NewTextRange(closeAnglePos, closeAnglePos+1)),
 			rule.RuleFixRemoveRange(core.NewTextRange(typeNameStart, openAnglePos+1)),
-- 
2.43.0


From 9bb4d61bfc69bf73ba3e8c17f78bc18cdd868595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:25 +0000
Subject: [PATCH 23/56] fix: no-unnecessary-type-parameters: no duplicate edits
 for JSDoc types

---
 .../no_unnecessary_type_parameters.go                      | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/rules/no_unnecessary_type_parameters/no_unnecessary_type_parameters.go b/internal/rules/no_unnecessary_type_parameters/no_unnecessary_type_parameters.go
index 7126797..5924b7d 100644
--- a/internal/rules/no_unnecessary_type_parameters/no_unnecessary_type_parameters.go
+++ b/internal/rules/no_unnecessary_type_parameters/no_unnecessary_type_parameters.go
@@ -631,8 +631,15 @@ func checkNoUnnecessaryTypeParametersNode(ctx rule.RuleContext, node *ast.Node,
 				removalRange := getTypeParameterListRemovalRange(ctx, typeParameters, candidate.node)
 				fixes := make([]rule.RuleFix, 0, len(candidate.references)+1)
 
+				// The types of JSDoc comments are in the tree twice.
+				seenRanges := make(map[core.TextRange]struct{}, len(candidate.references))
+
 				for _, reference := range candidate.references {
 					referenceRange := utils.TrimNodeTextRange(ctx.SourceFile, reference)
+					if _, seen := seenRanges[referenceRange]; seen {
+						continue
+					}
+					seenRanges[referenceRange] = struct{}{}
 					if referenceRange.Pos() < removalRange.End() && referenceRange.End() > removalRange.Pos() {
 						continue
 					}
-- 
2.43.0


From 3b44937a831bbf24d2364bccd50a1af9a31f729d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:25 +0000
Subject: [PATCH 24/56] fix: no-unnecessary-type-assertion: no inverted range
 for JSDoc casts

---
 .../no_unnecessary_type_assertion.go          | 68 +++++++++++++------
 1 file changed, 46 insertions(+), 22 deletions(-)

diff --git a/internal/rules/no_unnecessary_type_assertion/no_unnecessary_type_assertion.go b/internal/rules/no_unnecessary_type_assertion/no_unnecessary_type_assertion.go
index 7e5bb44..4d06cda 100644
--- a/internal/rules/no_unnecessary_type_assertion/no_unnecessary_type_assertion.go
+++ b/internal/rules/no_unnecessary_type_assertion/no_unnecessary_type_assertion.go
@@ -564,17 +564,23 @@ var NoUnnecessaryTypeAssertionRule = rule.Rule{
 			return []rule.RuleFix{rule.RuleFixRemoveRange(openingAngleBracket.WithEnd(closingAngleBracket.End()))}
 		}
 
-		reportUnnecessaryTypeAssertion := func(node *ast.Node, uncastType, castType *checker.Type) {
+		// In JavaScript the type of a cast comes from a JSDoc comment in front of the expression.
+		isJSDocCast := func(node *ast.Node) bool {
 			typeNode := node.Type()
-			expression := node.Expression()
-			expressionForType := ast.SkipParentheses(expression)
+			return typeNode.Flags&ast.NodeFlagsReparsed != 0 ||
+				node.Kind == ast.KindAsExpression && typeNode.Pos() < node.Expression().Pos()
+		}
 
-			if typeNode.Pos() < expression.Pos() {
-				searchStart := node.Pos()
-				if ast.IsParenthesizedExpression(node.Parent) {
-					searchStart = node.Parent.Pos()
-				}
+		// The range of the comment of a JSDoc cast, and the fixes that remove it: there are none, and the range is that
+		// of the expression, if the comment does not directly belong to it.
+		getJSDocCastRangeAndFixes := func(node *ast.Node) (core.TextRange, []rule.RuleFix) {
+			expression := node.Expression()
+			searchStart := node.Pos()
+			if ast.IsParenthesizedExpression(node.Parent) {
+				searchStart = node.Parent.Pos()
+			}
 
+			if searchStart <= expression.Pos() {
 				beforeExpression := ctx.SourceFile.Text()[searchStart:expression.Pos()]
 				commentStartOffset := strings.LastIndex(beforeExpression, "/**")
 				commentEndOffset := strings.LastIndex(beforeExpression, "*/")
@@ -585,23 +591,34 @@ var NoUnnecessaryTypeAssertionRule = rule.Rule{
 					for fixEnd < expression.Pos() && utils.IsStrWhiteSpace(rune(ctx.SourceFile.Text()[fixEnd])) {
 						fixEnd++
 					}
-
-					assertionRange := core.NewTextRange(commentStart, commentEnd)
-					ctx.ReportDiagnosticWithFixes(
-						buildUnnecessaryTypeAssertionDiagnostic(
-							assertionRange,
-							utils.TrimNodeTextRange(ctx.SourceFile, expressionForType),
-							ctx.TypeChecker.TypeToString(uncastType),
-							ctx.TypeChecker.TypeToString(castType),
-						),
-						func() []rule.RuleFix {
-							return []rule.RuleFix{rule.RuleFixRemoveRange(core.NewTextRange(commentStart, fixEnd))}
-						},
-					)
-					return
+					return core.NewTextRange(commentStart, commentEnd), []rule.RuleFix{
+						rule.RuleFixRemoveRange(core.NewTextRange(commentStart, fixEnd)),
+					}
 				}
 			}
 
+			return utils.TrimNodeTextRange(ctx.SourceFile, expression), nil
+		}
+
+		reportUnnecessaryTypeAssertion := func(node *ast.Node, uncastType, castType *checker.Type) {
+			typeNode := node.Type()
+			expression := node.Expression()
+			expressionForType := ast.SkipParentheses(expression)
+
+			if isJSDocCast(node) {
+				assertionRange, fixes := getJSDocCastRangeAndFixes(node)
+				ctx.ReportDiagnosticWithFixes(
+					buildUnnecessaryTypeAssertionDiagnostic(
+						assertionRange,
+						utils.TrimNodeTextRange(ctx.SourceFile, expressionForType),
+						ctx.TypeChecker.TypeToString(uncastType),
+						ctx.TypeChecker.TypeToString(castType),
+					),
+					func() []rule.RuleFix { return fixes },
+				)
+				return
+			}
+
 			if node.Kind == ast.KindAsExpression {
 				s := scanner.GetScannerForSourceFile(ctx.SourceFile, expression.End())
 				asKeywordRange := s.TokenRange()
@@ -1131,6 +1148,13 @@ var NoUnnecessaryTypeAssertionRule = rule.Rule{
 					!isNullishLiteralToUnion(node, castType)
 
 				if isContextuallyUnnecessary {
+					if isJSDocCast(node) {
+						assertionRange, fixes := getJSDocCastRangeAndFixes(node)
+						ctx.ReportDiagnosticWithFixes(buildContextuallyUnnecessaryMessage(assertionRange), func() []rule.RuleFix {
+							return fixes
+						})
+						return
+					}
 					ctx.ReportDiagnosticWithFixes(buildContextuallyUnnecessaryMessage(node.Loc), func() []rule.RuleFix {
 						return buildAssertionFixes(node)
 					})
-- 
2.43.0


From ab1e8a343573a4c0bd8d9aae18b524320376f809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:16 +0000
Subject: [PATCH 25/56] fix: restrict-template-expressions, no-base-to-string:
 do not follow recursive array types forever

---
 .../no_base_to_string/no_base_to_string.go    | 15 +++++++
 .../restrict_template_expressions.go          | 40 ++++++++++++++++++-
 2 files changed, 53 insertions(+), 2 deletions(-)

diff --git a/internal/rules/no_base_to_string/no_base_to_string.go b/internal/rules/no_base_to_string/no_base_to_string.go
index fb96f98..bab9693 100644
--- a/internal/rules/no_base_to_string/no_base_to_string.go
+++ b/internal/rules/no_base_to_string/no_base_to_string.go
@@ -91,12 +91,17 @@ func (m *certaintyMemo) get(t *checker.Type, compute func() usefulness) usefulne
 	return certainty
 }
 
+// Recursive generic types can contain infinitely many array and tuple types,
+// this is the number of them after which the remaining ones are not looked at.
+const maxExaminedArrays = 500
+
 var NoBaseToStringRule = rule.Rule{
 	Name: "no-base-to-string",
 	Run: func(ctx rule.RuleContext, options any) rule.RuleListeners {
 		opts := utils.UnmarshalOptions[NoBaseToStringOptions](options, "no-base-to-string")
 		toStringMemo := newCertaintyMemo()
 		joinMemo := newCertaintyMemo()
+		examinedArrays := 0
 
 		var collectToStringCertainty func(
 			t *checker.Type,
@@ -117,6 +122,7 @@ var NoBaseToStringRule = rule.Rule{
 				t = ctx.TypeChecker.GetTypeAtLocation(node)
 			}
 
+			examinedArrays = 0
 			certainty := collectToStringCertainty(
 				t,
 				[]*checker.Type{},
@@ -132,6 +138,7 @@ var NoBaseToStringRule = rule.Rule{
 			node *ast.Node,
 			t *checker.Type,
 		) {
+			examinedArrays = 0
 			certainty := collectJoinCertainty(t, []*checker.Type{})
 
 			if certainty == usefulnessAlways {
@@ -275,6 +282,14 @@ var NoBaseToStringRule = rule.Rule{
 					})
 				}
 
+				if checker.Checker_isArrayOrTupleType(ctx.TypeChecker, t) {
+					if examinedArrays >= maxExaminedArrays {
+						toStringMemo.assumed = true
+						return usefulnessAlways
+					}
+					examinedArrays++
+				}
+
 				if checker.IsTupleType(t) {
 					return collectTupleCertainty(t, append(visited, t))
 				}
diff --git a/internal/rules/restrict_template_expressions/restrict_template_expressions.go b/internal/rules/restrict_template_expressions/restrict_template_expressions.go
index cbcbe97..c9d2c1e 100644
--- a/internal/rules/restrict_template_expressions/restrict_template_expressions.go
+++ b/internal/rules/restrict_template_expressions/restrict_template_expressions.go
@@ -26,6 +26,10 @@ func buildInvalidTypeDiagnostic(diagnosticRange core.TextRange, t string) rule.R
 	}
 }
 
+// Recursive generic types can contain infinitely many array types, this is the
+// number of them after which the remaining ones are not looked at.
+const maxExaminedArrays = 1000
+
 var RestrictTemplateExpressionsRule = rule.Rule{
 	Name: "restrict-template-expressions",
 	Run: func(ctx rule.RuleContext, options any) rule.RuleListeners {
@@ -50,7 +54,25 @@ var RestrictTemplateExpressionsRule = rule.Rule{
 
 		globalRegexpType := checker.Checker_globalRegExpType(ctx.TypeChecker)
 
+		// Array types can refer to themselves. One met again while it is being
+		// examined is allowed as far as it is concerned.
+		var examinedArrays, disallowedArrays utils.Set[*checker.Type]
+
 		var isTypeAllowed func(innerType *checker.Type) bool
+		isArrayAllowed := func(t *checker.Type) bool {
+			if disallowedArrays.Has(t) {
+				return false
+			}
+			if examinedArrays.Has(t) || examinedArrays.Len() >= maxExaminedArrays {
+				return true
+			}
+			examinedArrays.Add(t)
+			if isTypeAllowed(utils.GetNumberIndexType(ctx.TypeChecker, t)) {
+				return true
+			}
+			disallowedArrays.Add(t)
+			return false
+		}
 		isTypeAllowed = func(innerType *checker.Type) bool {
 			return utils.Every(utils.UnionTypeParts(innerType), func(t *checker.Type) bool {
 				return utils.Some(utils.IntersectionTypeParts(t), func(t *checker.Type) bool {
@@ -58,11 +80,25 @@ var RestrictTemplateExpressionsRule = rule.Rule{
 						utils.MatchesTypeOrBaseType(ctx.TypeChecker, t, func(t *checker.Type) bool {
 							return utils.TypeMatchesSomeSpecifier(t, opts.Allow, ctx.Program)
 						}) ||
-						(opts.AllowArray && checker.Checker_isArrayOrTupleType(ctx.TypeChecker, t) && isTypeAllowed(utils.GetNumberIndexType(ctx.TypeChecker, t))) ||
+						(opts.AllowArray && checker.Checker_isArrayOrTupleType(ctx.TypeChecker, t) && isArrayAllowed(t)) ||
 						(opts.AllowRegExp && t == globalRegexpType)
 				})
 			})
 		}
+		isExpressionTypeAllowed := func(t *checker.Type) bool {
+			disallowedArrays.Clear()
+			for {
+				examinedArrays.Clear()
+				disallowedBefore := disallowedArrays.Len()
+				if !isTypeAllowed(t) {
+					return false
+				}
+				// Nothing relied on an array that turned out to be disallowed.
+				if disallowedArrays.Len() == disallowedBefore {
+					return true
+				}
+			}
+		}
 
 		return rule.RuleListeners{
 			ast.KindTemplateExpression: func(node *ast.Node) {
@@ -77,7 +113,7 @@ var RestrictTemplateExpressionsRule = rule.Rule{
 						ctx.TypeChecker,
 						expression,
 					)
-					if !isTypeAllowed(expressionType) {
+					if !isExpressionTypeAllowed(expressionType) {
 						diagnosticRange := utils.TrimNodeTextRange(ctx.SourceFile, expression)
 						ctx.ReportDiagnostic(buildInvalidTypeDiagnostic(
 							diagnosticRange,
-- 
2.43.0


From 8e44dccc5e26d069e9648febfef68d1f3fa05b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:06 +0000
Subject: [PATCH 26/56] fix: prefer-readonly-parameter-types,
 no-unnecessary-type-assertion: do not follow recursive types forever

---
 .../no_unnecessary_type_assertion.go                      | 7 +++++++
 .../prefer_readonly_parameter_types.go                    | 8 ++++++++
 2 files changed, 15 insertions(+)

diff --git a/internal/rules/no_unnecessary_type_assertion/no_unnecessary_type_assertion.go b/internal/rules/no_unnecessary_type_assertion/no_unnecessary_type_assertion.go
index 4d06cda..829d062 100644
--- a/internal/rules/no_unnecessary_type_assertion/no_unnecessary_type_assertion.go
+++ b/internal/rules/no_unnecessary_type_assertion/no_unnecessary_type_assertion.go
@@ -58,6 +58,10 @@ func buildUnnecessaryTypeAssertionDiagnostic(assertion core.TextRange, expressio
 	}
 }
 
+// Recursive generic types can contain infinitely many other types, this is the
+// number of types after which one that is searched for counts as found.
+const maxSeenTypes = 2000
+
 var NoUnnecessaryTypeAssertionRule = rule.Rule{
 	Name: "no-unnecessary-type-assertion",
 	Run: func(ctx rule.RuleContext, options any) rule.RuleListeners {
@@ -185,6 +189,9 @@ var NoUnnecessaryTypeAssertionRule = rule.Rule{
 			if _, ok := seenTypes[t]; ok {
 				return false
 			}
+			if len(seenTypes) >= maxSeenTypes {
+				return true
+			}
 			seenTypes[t] = struct{}{}
 			if predicate(t) {
 				return true
diff --git a/internal/rules/prefer_readonly_parameter_types/prefer_readonly_parameter_types.go b/internal/rules/prefer_readonly_parameter_types/prefer_readonly_parameter_types.go
index a55c730..e8de24e 100644
--- a/internal/rules/prefer_readonly_parameter_types/prefer_readonly_parameter_types.go
+++ b/internal/rules/prefer_readonly_parameter_types/prefer_readonly_parameter_types.go
@@ -217,6 +217,10 @@ func isTypeReadonlyObject(
 	return readonlynessReadonly
 }
 
+// Recursive generic types can contain infinitely many other types, this is the
+// number of types after which the parts of the remaining ones are not looked at.
+const maxSeenTypes = 2000
+
 func isTypeReadonlyRecurser(
 	program *compiler.Program,
 	typeChecker *checker.Checker,
@@ -273,6 +277,10 @@ func isTypeReadonlyRecurser(
 		return readonlynessReadonly
 	}
 
+	if len(seenTypes) > maxSeenTypes {
+		return readonlynessReadonly
+	}
+
 	if len(utils.GetCallSignatures(typeChecker, t)) > 0 && len(checker.Checker_getPropertiesOfType(typeChecker, t)) == 0 {
 		return readonlynessReadonly
 	}
-- 
2.43.0


From f6709720bd46fec3b28331eec184ba942aa465df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:31 +0000
Subject: [PATCH 27/56] fix: no-unnecessary-qualifier: do not follow circular
 aliases forever

---
 .../no_unnecessary_qualifier/no_unnecessary_qualifier.go     | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/rules/no_unnecessary_qualifier/no_unnecessary_qualifier.go b/internal/rules/no_unnecessary_qualifier/no_unnecessary_qualifier.go
index 68692ab..56d402d 100644
--- a/internal/rules/no_unnecessary_qualifier/no_unnecessary_qualifier.go
+++ b/internal/rules/no_unnecessary_qualifier/no_unnecessary_qualifier.go
@@ -47,7 +47,10 @@ var NoUnnecessaryQualifierRule = rule.Rule{
 			}
 
 			if utils.IsSymbolFlagSet(symbol, ast.SymbolFlagsAlias) {
-				return symbolIsNamespaceInScope(ctx.TypeChecker.GetAliasedSymbol(symbol))
+				// a circular alias resolves to itself
+				if aliased := ctx.TypeChecker.GetAliasedSymbol(symbol); aliased != symbol {
+					return symbolIsNamespaceInScope(aliased)
+				}
 			}
 
 			return false
-- 
2.43.0


From e1b313d59e4573a8f2c4774876e690fa06c09949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:38 +0000
Subject: [PATCH 28/56] fix: name the enum of a quoted member in
 switch-exhaustiveness-check suggestions

---
 .../switch_exhaustiveness_check.go                           | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/rules/switch_exhaustiveness_check/switch_exhaustiveness_check.go b/internal/rules/switch_exhaustiveness_check/switch_exhaustiveness_check.go
index 27842db..6c4d278 100644
--- a/internal/rules/switch_exhaustiveness_check/switch_exhaustiveness_check.go
+++ b/internal/rules/switch_exhaustiveness_check/switch_exhaustiveness_check.go
@@ -191,6 +191,11 @@ func buildCaseTest(typeChecker *checker.Checker, missingBranchType *checker.Type
 		caseTest = typeChecker.TypeToString(missingBranchType)
 	}
 
+	if utils.IsTypeFlagSet(missingBranchType, checker.TypeFlagsEnumLiteral) && missingBranchType.Symbol() != nil && missingBranchType.Symbol().Parent != nil {
+		// The type need not be exactly the enum: name the enum through the member.
+		symbolName = typeChecker.TypeToString(checker.Checker_getDeclaredTypeOfSymbol(typeChecker, missingBranchType.Symbol().Parent))
+	}
+
 	if symbolName != "" && requiresQuoting(missingBranchName) {
 		return fmt.Sprintf("%s[%s]", symbolName, utils.QuoteSingleStringLiteral(missingBranchName))
 	}
-- 
2.43.0


From 4c7728f99addaa1d52d0f300174b0a56fa68e4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:38 +0000
Subject: [PATCH 29/56] fix: see through parentheses in no-floating-promises

---
 .../rules/no_floating_promises/no_floating_promises.go   | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/internal/rules/no_floating_promises/no_floating_promises.go b/internal/rules/no_floating_promises/no_floating_promises.go
index 3fd2337..a196547 100644
--- a/internal/rules/no_floating_promises/no_floating_promises.go
+++ b/internal/rules/no_floating_promises/no_floating_promises.go
@@ -232,11 +232,12 @@ var NoFloatingPromisesRule = rule.Rule{
 		}
 
 		isAsyncIife := func(node *ast.ExpressionStatement) bool {
-			if !ast.IsCallExpression(node.Expression) {
+			expression := ast.SkipParentheses(node.Expression)
+			if !ast.IsCallExpression(expression) {
 				return false
 			}
 
-			callee := ast.SkipParentheses(node.Expression.AsCallExpression().Expression)
+			callee := ast.SkipParentheses(expression.AsCallExpression().Expression)
 
 			return ast.IsArrowFunction(callee) || ast.IsFunctionExpression(callee)
 		}
@@ -261,6 +262,8 @@ var NoFloatingPromisesRule = rule.Rule{
 
 		var isUnhandledPromise func(node *ast.Node) *unhandledPromise
 		isUnhandledPromise = func(node *ast.Node) *unhandledPromise {
+			node = ast.SkipParentheses(node)
+
 			if ast.IsAssignmentExpression(node, false) {
 				return nil
 			}
@@ -309,7 +312,7 @@ var NoFloatingPromisesRule = rule.Rule{
 				// rejection handler handles the promise.
 
 				callExpr := node.AsCallExpression()
-				callee := callExpr.Expression
+				callee := ast.SkipParentheses(callExpr.Expression)
 				if ast.IsAccessExpression(callee) {
 					// TODO(port): getStaticMemberAccessValue -> GetAccessedPropertyName is an
 					// enhancement, we should probably add tests for it
-- 
2.43.0


From feb7415314f83b5e01536fe58dbf07b04cf4ed09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:28 +0000
Subject: [PATCH 30/56] fix: report mixed types containing an enum in
 strict-boolean-expressions

---
 .../strict_boolean_expressions.go                   | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/internal/rules/strict_boolean_expressions/strict_boolean_expressions.go b/internal/rules/strict_boolean_expressions/strict_boolean_expressions.go
index 779b7f4..91ab36e 100644
--- a/internal/rules/strict_boolean_expressions/strict_boolean_expressions.go
+++ b/internal/rules/strict_boolean_expressions/strict_boolean_expressions.go
@@ -328,6 +328,8 @@ type typeInfo struct {
 	isUnion        bool
 	isIntersection bool
 	isEnum         bool
+	// whether all parts that are not nullish are strings or numbers
+	isStringOrNumber bool
 }
 
 func analyzeTypeParts(typeChecker *checker.Checker, types []*checker.Type) typeInfo {
@@ -338,6 +340,7 @@ func analyzeTypeParts(typeChecker *checker.Checker, types []*checker.Type) typeI
 	variants := make(map[typeVariant]bool)
 
 	metNotTruthy := false
+	info.isStringOrNumber = true
 
 	for _, part := range info.types {
 		partInfo := analyzeTypePart(typeChecker, part)
@@ -348,6 +351,11 @@ func analyzeTypeParts(typeChecker *checker.Checker, types []*checker.Type) typeI
 		if partInfo.isEnum {
 			info.isEnum = true
 		}
+		switch partInfo.variant {
+		case typeVariantNullish, typeVariantString, typeVariantNumber:
+		default:
+			info.isStringOrNumber = false
+		}
 		if partInfo.variant == typeVariantBoolean || partInfo.variant == typeVariantNumber || partInfo.variant == typeVariantString || partInfo.variant == typeVariantBigInt {
 			if metNotTruthy {
 				continue
@@ -554,8 +562,9 @@ func checkCondition(ctx rule.RuleContext, node *ast.Node, types []*checker.Type,
 			ctx.ReportNode(node, buildConditionErrorObjectMessage())
 		}
 	case typeVariantMixed:
-		if info.isEnum {
-			if info.isNullable && !opts.AllowNullableEnum {
+		// Only a nullable enum with both string and number members counts as an enum.
+		if info.isEnum && info.isNullable && info.isStringOrNumber {
+			if !opts.AllowNullableEnum {
 				ctx.ReportNode(node, buildConditionErrorNullableEnumMessage())
 			}
 			return
-- 
2.43.0


From f6c9e5c568b26053d105444317f85add1cd08f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:15 +0000
Subject: [PATCH 31/56] fix: see numbers in a union beside a regular expression
 in restrict-plus-operands

---
 .../rules/restrict_plus_operands/restrict_plus_operands.go    | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/rules/restrict_plus_operands/restrict_plus_operands.go b/internal/rules/restrict_plus_operands/restrict_plus_operands.go
index 6a3f5b9..8f5c9ef 100644
--- a/internal/rules/restrict_plus_operands/restrict_plus_operands.go
+++ b/internal/rules/restrict_plus_operands/restrict_plus_operands.go
@@ -115,7 +115,9 @@ var RestrictPlusOperandsRule = rule.Rule{
 
 				// RegExps also contain checker.TypeFlagsAny & checker.TypeFlagsObject
 				if part == globalRegexpType {
-					if opts.AllowRegExp && !utils.IsTypeFlagSet(otherType, checker.TypeFlagsNumberLike) {
+					if opts.AllowRegExp && !utils.Some(utils.UnionTypeParts(otherType), func(t *checker.Type) bool {
+						return utils.IsTypeFlagSet(t, checker.TypeFlagsNumberLike)
+					}) {
 						continue
 					}
 				} else if (opts.AllowAny || !utils.IsTypeAnyType(part)) && !utils.Every(utils.IntersectionTypeParts(part), utils.IsObjectType) {
-- 
2.43.0


From ffb4d15f13af1b4cf0cbea2ed47f21202f8ecbf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:41 +0000
Subject: [PATCH 32/56] fix: see through parentheses around a type in
 no-redundant-type-constituents

---
 .../no_redundant_type_constituents.go                      | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/internal/rules/no_redundant_type_constituents/no_redundant_type_constituents.go b/internal/rules/no_redundant_type_constituents/no_redundant_type_constituents.go
index 9425c24..946487b 100644
--- a/internal/rules/no_redundant_type_constituents/no_redundant_type_constituents.go
+++ b/internal/rules/no_redundant_type_constituents/no_redundant_type_constituents.go
@@ -42,7 +42,7 @@ func buildPrimitiveOverriddenMessage(literal, primitive string) rule.RuleMessage
 }
 
 func isNodeInsideReturnType(node *ast.Node) bool {
-	return ast.IsFunctionLike(node.Parent)
+	return ast.IsFunctionLike(ast.WalkUpParenthesizedTypes(node.Parent))
 }
 
 type typeFlagsWithNodeOrType struct {
@@ -96,7 +96,10 @@ var NoRedundantTypeConstituentsRule = rule.Rule{
 	Run: func(ctx rule.RuleContext, options any) rule.RuleListeners {
 		var getTypeNodeTypePartFlags func(node *ast.Node) []typeFlagsWithNodeOrType
 		getTypeNodeTypePartFlags = func(node *ast.Node) []typeFlagsWithNodeOrType {
-			node = ast.SkipParentheses(node)
+			// parentheses around a single member don't change what it is
+			if inner := ast.SkipTypeParentheses(node); !ast.IsUnionTypeNode(inner) {
+				node = inner
+			}
 
 			flags := checker.TypeFlagsNone
 			switch node.Kind {
-- 
2.43.0


From 9321e0798125d4efcdb13dfc831cb675e24d1e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:49 +0000
Subject: [PATCH 33/56] fix: recognise rethrown errors behind parentheses and
 quoted member names in only-throw-error

---
 .../rules/only_throw_error/only_throw_error.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/internal/rules/only_throw_error/only_throw_error.go b/internal/rules/only_throw_error/only_throw_error.go
index f9d5e57..c7a7bb1 100644
--- a/internal/rules/only_throw_error/only_throw_error.go
+++ b/internal/rules/only_throw_error/only_throw_error.go
@@ -26,6 +26,7 @@ func buildUndefMessage() rule.RuleMessage {
 // 2. promise.catch(e => { throw e; })
 // 3. promise.then(onFulfilled, e => { throw e; })
 func isRethrownError(ctx rule.RuleContext, node *ast.Node) bool {
+	node = ast.SkipParentheses(node)
 	if !ast.IsIdentifier(node) {
 		return false
 	}
@@ -68,19 +69,20 @@ func isRethrownError(ctx rule.RuleContext, node *ast.Node) bool {
 	}
 
 	// The arrow function must be a direct argument of a call expression
-	if funcNode.Parent == nil || !ast.IsCallExpression(funcNode.Parent) {
+	funcArg := ast.WalkUpParenthesizedExpressions(funcNode.Parent)
+	if funcArg == nil || !ast.IsCallExpression(funcArg) {
 		return false
 	}
 
-	callExpr := funcNode.Parent.AsCallExpression()
+	callExpr := funcArg.AsCallExpression()
 
 	// Check if this is a .catch() or .then() call
-	if !ast.IsPropertyAccessExpression(callExpr.Expression) {
+	callee := ast.SkipParentheses(callExpr.Expression)
+	if !ast.IsAccessExpression(callee) {
 		return false
 	}
 
-	propAccess := callExpr.Expression.AsPropertyAccessExpression()
-	methodName := propAccess.Name().Text()
+	methodName, _ := checker.Checker_getAccessedPropertyName(ctx.TypeChecker, callee)
 
 	// For .catch(e => { throw e; }), the arrow function must be the first argument (onRejected)
 	// For .then(onFulfilled, e => { throw e; }), the arrow function must be the second argument (onRejected)
@@ -90,14 +92,14 @@ func isRethrownError(ctx rule.RuleContext, node *ast.Node) bool {
 	if methodName == "catch" {
 		// .catch(onRejected)
 		// First argument must be our arrow function
-		if len(args) >= 1 && args[0] == funcNode {
+		if len(args) >= 1 && ast.SkipParentheses(args[0]) == funcNode {
 			isRejectionHandler = true
 		}
 	} else if methodName == "then" {
 		// .then(onFulfilled, onRejected)
 		// Second argument must be our arrow function, and onFulfilled must not be
 		// a spread element (which would shift the argument positions).
-		if len(args) >= 2 && args[1] == funcNode && !ast.IsSpreadElement(args[0]) {
+		if len(args) >= 2 && ast.SkipParentheses(args[1]) == funcNode && !ast.IsSpreadElement(args[0]) {
 			isRejectionHandler = true
 		}
 	}
@@ -107,7 +109,7 @@ func isRethrownError(ctx rule.RuleContext, node *ast.Node) bool {
 	}
 
 	// Verify that the object is actually a thenable (Promise)
-	objectNode := propAccess.Expression
+	objectNode := callee.Expression()
 	objectType := ctx.TypeChecker.GetTypeAtLocation(objectNode)
 	if !utils.IsThenableType(ctx.TypeChecker, objectNode, objectType) {
 		return false
-- 
2.43.0


From 4f0a9885c6f36b4b857b6ac1b42b37c243ec79e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:07 +0000
Subject: [PATCH 34/56] fix: don't take files of a directory whose name begins
 with the project's for files of the project in allow lists

---
 internal/utils/type_matches_specifier.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/utils/type_matches_specifier.go b/internal/utils/type_matches_specifier.go
index c97cd54..58ed40e 100644
--- a/internal/utils/type_matches_specifier.go
+++ b/internal/utils/type_matches_specifier.go
@@ -173,8 +173,9 @@ func typeDeclaredInFile(
 ) bool {
 	cwd := program.Host().GetCurrentDirectory()
 	if relativePath == "" {
+		dir := tspath.EnsureTrailingDirectorySeparator(cwd)
 		return Some(declarationFiles, func(f *ast.SourceFile) bool {
-			return strings.HasPrefix(f.FileName(), cwd)
+			return strings.HasPrefix(f.FileName(), dir)
 		})
 	}
 	absPath := tspath.GetNormalizedAbsolutePath(relativePath, cwd)
-- 
2.43.0


From 986ed5303377082c372632dc1e1e967e23745c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:41 +0000
Subject: [PATCH 35/56] fix: see every way of writing to a member, also from
 nested classes, in prefer-readonly

---
 .../rules/prefer_readonly/prefer_readonly.go  | 93 +++++--------------
 1 file changed, 23 insertions(+), 70 deletions(-)

diff --git a/internal/rules/prefer_readonly/prefer_readonly.go b/internal/rules/prefer_readonly/prefer_readonly.go
index 413fa64..161deb9 100644
--- a/internal/rules/prefer_readonly/prefer_readonly.go
+++ b/internal/rules/prefer_readonly/prefer_readonly.go
@@ -166,7 +166,8 @@ func (scope *classScope) addDeclaredVariable(node *ast.Node) {
 	scope.privateModifiableMembers.set(name, node)
 }
 
-func (scope *classScope) addVariableModification(node *ast.Node) {
+// addVariableModification notes that a member is modified by code of this class, or of a class nested in it (innermost is false).
+func (scope *classScope) addVariableModification(node *ast.Node, innermost bool) {
 	if node == nil || !ast.IsPropertyAccessExpression(node) {
 		return
 	}
@@ -174,7 +175,7 @@ func (scope *classScope) addVariableModification(node *ast.Node) {
 	modifierType := scope.typeChecker.GetTypeAtLocation(node.Expression())
 	relation := scope.getTypeToClassRelation(modifierType)
 
-	if relation == typeToClassRelationInstance && scope.constructorScopeDepth == directlyInsideConstructor {
+	if relation == typeToClassRelationInstance && innermost && scope.constructorScopeDepth == directlyInsideConstructor {
 		scope.memberVariableWithConstructorModifications[node.Name().Text()] = struct{}{}
 		return
 	}
@@ -229,6 +230,14 @@ func (scope *classScope) getTypeToClassRelation(t *checker.Type) typeToClassRela
 		return typeToClassRelationNone
 	}
 
+	// a value of a type parameter constrained to the class is an instance of it
+	if constraint, isTypeParameter := utils.GetConstraintInfo(scope.typeChecker, t); isTypeParameter {
+		if constraint == nil {
+			return typeToClassRelationNone
+		}
+		t = constraint
+	}
+
 	if utils.IsIntersectionType(t) {
 		result := typeToClassRelationNone
 		for _, part := range t.Types() {
@@ -313,30 +322,14 @@ func typeIsOrHasBaseType(typeChecker *checker.Checker, t *checker.Type, baseType
 	return false
 }
 
-func isDestructuringAssignment(node *ast.Node) bool {
-	current := node.Parent
-
-	for current != nil {
-		parent := current.Parent
-		if parent == nil {
-			break
-		}
-
-		if ast.IsObjectLiteralExpression(parent) || ast.IsArrayLiteralExpression(parent) || ast.IsSpreadAssignment(parent) ||
-			(ast.IsSpreadElement(parent) && parent.Parent != nil && ast.IsArrayLiteralExpression(parent.Parent)) {
-			current = parent
-			continue
-		}
-
-		if ast.IsBinaryExpression(parent) && !ast.IsPropertyAccessExpression(current) {
-			binExpr := parent.AsBinaryExpression()
-			return binExpr.Left == current && binExpr.OperatorToken.Kind == ast.KindEqualsToken
-		}
-
-		break
+// isModification returns whether a value is written to, or the property deleted, through the given expression:
+// by an assignment, an update, a destructuring pattern or the head of a loop.
+func isModification(node *ast.Node) bool {
+	for node.Parent != nil && (ast.IsParenthesizedExpression(node.Parent) || ast.IsNonNullExpression(node.Parent) || ast.IsAssertionExpression(node.Parent)) {
+		node = node.Parent
 	}
 
-	return false
+	return node.Parent != nil && node.Parent.Kind == ast.KindDeleteExpression || ast.IsAssignmentTarget(node)
 }
 
 func getTypeAnnotationForViolatingNode(
@@ -466,51 +459,6 @@ var PreferReadonlyRule = rule.Rule{
 			}
 		}
 
-		handleParentBinaryExpression := func(node *ast.Node, parent *ast.Node, scope *classScope) {
-			if parent.AsBinaryExpression().Left == node && ast.IsAssignmentExpression(parent, false) {
-				scope.addVariableModification(node)
-			}
-		}
-
-		handleParentPostfixOrPrefixUnaryExpression := func(node *ast.Node, scope *classScope) {
-			if node.Kind == ast.KindPostfixUnaryExpression {
-				if node.AsPostfixUnaryExpression().Operator == ast.KindPlusPlusToken || node.AsPostfixUnaryExpression().Operator == ast.KindMinusMinusToken {
-					operand := node.AsPostfixUnaryExpression().Operand
-					if ast.IsPropertyAccessExpression(operand) {
-						scope.addVariableModification(operand)
-					}
-				}
-				return
-			}
-
-			if ast.IsPrefixUnaryExpression(node) {
-				if node.AsPrefixUnaryExpression().Operator == ast.KindPlusPlusToken || node.AsPrefixUnaryExpression().Operator == ast.KindMinusMinusToken {
-					operand := node.AsPrefixUnaryExpression().Operand
-					if ast.IsPropertyAccessExpression(operand) {
-						scope.addVariableModification(operand)
-					}
-				}
-			}
-		}
-
-		handlePropertyAccessExpression := func(node *ast.Node, scope *classScope) {
-			parent := node.Parent
-
-			if ast.IsBinaryExpression(parent) {
-				handleParentBinaryExpression(node, parent, scope)
-				return
-			}
-
-			if parent.Kind == ast.KindDeleteExpression || isDestructuringAssignment(node) {
-				scope.addVariableModification(node)
-				return
-			}
-
-			if parent.Kind == ast.KindPostfixUnaryExpression || ast.IsPrefixUnaryExpression(parent) {
-				handleParentPostfixOrPrefixUnaryExpression(parent, scope)
-			}
-		}
-
 		enterNonConstructorScope := func() {
 			if len(classScopeStack) == 0 {
 				return
@@ -593,7 +541,12 @@ var PreferReadonlyRule = rule.Rule{
 				if len(classScopeStack) == 0 {
 					return
 				}
-				handlePropertyAccessExpression(node, classScopeStack[len(classScopeStack)-1])
+				if !isModification(node) {
+					return
+				}
+				for i, scope := range classScopeStack {
+					scope.addVariableModification(node, i == len(classScopeStack)-1)
+				}
 			},
 		}
 	},
-- 
2.43.0


From e59be48a82f87f5b3f220c7d69a80954b11c7a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:57 +0000
Subject: [PATCH 36/56] fix: no-unsafe-assignment: check the properties after
 one that is assigned in place

---
 internal/rules/no_unsafe_assignment/no_unsafe_assignment.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/rules/no_unsafe_assignment/no_unsafe_assignment.go b/internal/rules/no_unsafe_assignment/no_unsafe_assignment.go
index 2692c11..745f0cb 100644
--- a/internal/rules/no_unsafe_assignment/no_unsafe_assignment.go
+++ b/internal/rules/no_unsafe_assignment/no_unsafe_assignment.go
@@ -668,14 +668,14 @@ var NoUnsafeAssignmentRule = rule.Rule{
 					}
 
 					if init == nil {
-						return
+						continue
 					}
 					init = ast.SkipParentheses(init)
 
 					if ast.IsAssignmentExpression(init, false) {
 						// node.value.type === AST_NODE_TYPES.TSEmptyBodyFunctionExpression
 						// handled by other selector
-						return
+						continue
 					}
 
 					checkAssignment(
-- 
2.43.0


From fc0304a4cda8d44e3a8752ab3e4a36ea0a5bf614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:57 +0000
Subject: [PATCH 37/56] fix: no-unsafe-*: compare generics that are written
 through an alias

---
 .../no_unsafe_assignment/no_unsafe_assignment.go  |  2 +-
 internal/utils/ts_eslint.go                       | 15 ++++++++++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/internal/rules/no_unsafe_assignment/no_unsafe_assignment.go b/internal/rules/no_unsafe_assignment/no_unsafe_assignment.go
index 745f0cb..b0e03ae 100644
--- a/internal/rules/no_unsafe_assignment/no_unsafe_assignment.go
+++ b/internal/rules/no_unsafe_assignment/no_unsafe_assignment.go
@@ -522,7 +522,7 @@ var NoUnsafeAssignmentRule = rule.Rule{
 			if compType == comparisonTypeNone {
 				return false
 			}
-			if !checker.IsNonDeferredTypeReference(senderType) {
+			if !utils.IsTypeReference(senderType) {
 				return false
 			}
 
diff --git a/internal/utils/ts_eslint.go b/internal/utils/ts_eslint.go
index 79e55fe..90dfbe0 100644
--- a/internal/utils/ts_eslint.go
+++ b/internal/utils/ts_eslint.go
@@ -287,6 +287,14 @@ func IsTypeUnknownArrayType(
 		IsTypeUnknownType(checker.Checker_getTypeArguments(typeChecker, t)[0])
 }
 
+// IsTypeReference reports whether t is an instance of a generic type, including
+// one whose type arguments are resolved lazily because an alias stands for it.
+func IsTypeReference(t *checker.Type) bool {
+	return IsTypeFlagSet(t, checker.TypeFlagsObject) && checker.Type_objectFlags(t)&checker.ObjectFlagsReference != 0
+}
+
+const maxComparedTypes = 1000
+
 /**
  * Does a simple check to see if there is an any being assigned to a non-any type.
  *
@@ -341,7 +349,12 @@ func isUnsafeAssignmentWorker(
 		visited[t] = NewSetFromItems(receiver)
 	}
 
-	if checker.IsNonDeferredTypeReference(t) && checker.IsNonDeferredTypeReference(receiver) {
+	// a recursive alias can expand without end
+	if len(visited) > maxComparedTypes {
+		return nil, nil, false
+	}
+
+	if IsTypeReference(t) && IsTypeReference(receiver) {
 		// TODO - figure out how to handle cases like this,
 		// where the types are assignable, but not the same type
 		/*
-- 
2.43.0


From f7cd6a6a7305951b7db1273cac0937ff7f7d22a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:57 +0000
Subject: [PATCH 38/56] fix: no-unsafe-*: new Map() may stand in parentheses

---
 internal/utils/ts_eslint.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/utils/ts_eslint.go b/internal/utils/ts_eslint.go
index 90dfbe0..0518c34 100644
--- a/internal/utils/ts_eslint.go
+++ b/internal/utils/ts_eslint.go
@@ -374,6 +374,9 @@ func isUnsafeAssignmentWorker(
 			return nil, nil, false
 		}
 
+		if senderNode != nil {
+			senderNode = ast.SkipParentheses(senderNode)
+		}
 		if senderNode != nil && ast.IsNewExpression(senderNode) && ast.IsIdentifier(senderNode.Expression()) && senderNode.Expression().Text() == "Map" && len(senderNode.Arguments()) == 0 && senderNode.TypeArguments() == nil {
 			// special case to handle `new Map()`
 			// unfortunately Map's default empty constructor is typed to return `Map<any, any>` :(
-- 
2.43.0


From 2923b83521cbe38b9627299f605901cd98a4b081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:57 +0000
Subject: [PATCH 39/56] fix: no-unsafe-member-access: parentheses do not begin
 a new access

---
 .../rules/no_unsafe_member_access/no_unsafe_member_access.go  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/rules/no_unsafe_member_access/no_unsafe_member_access.go b/internal/rules/no_unsafe_member_access/no_unsafe_member_access.go
index 59c1e2c..5d634eb 100644
--- a/internal/rules/no_unsafe_member_access/no_unsafe_member_access.go
+++ b/internal/rules/no_unsafe_member_access/no_unsafe_member_access.go
@@ -99,8 +99,8 @@ var NoUnsafeMemberAccessRule = rule.Rule{
 			}
 
 			expression := node.Expression()
-			if ast.IsAccessExpression(expression) {
-				objectState := checkMemberExpression(expression)
+			if object := ast.SkipParentheses(expression); ast.IsAccessExpression(object) {
+				objectState := checkMemberExpression(object)
 				if objectState == stateUnsafe {
 					// if the object is unsafe, we know this will be unsafe as well
 					// we don't need to report, as we have already reported on the inner member expr
-- 
2.43.0


From 3c68ead9e6462caac89c5eed18a5d6357afaee55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:57 +0000
Subject: [PATCH 40/56] fix: no-unsafe-return: accessors and functions without
 a calling context have signatures of their own

---
 internal/rules/no_unsafe_return/no_unsafe_return.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/internal/rules/no_unsafe_return/no_unsafe_return.go b/internal/rules/no_unsafe_return/no_unsafe_return.go
index bd30a09..7d9cac7 100644
--- a/internal/rules/no_unsafe_return/no_unsafe_return.go
+++ b/internal/rules/no_unsafe_return/no_unsafe_return.go
@@ -107,7 +107,14 @@ var NoUnsafeReturnRule = rule.Rule{
 			if functionType == nil {
 				functionType = ctx.TypeChecker.GetTypeAtLocation(functionNode)
 			}
-			callSignatures := utils.CollectAllCallSignatures(ctx.TypeChecker, functionType)
+			var callSignatures []*checker.Signature
+			// the type of an accessor is that of the property
+			if !ast.IsAccessor(functionNode) {
+				callSignatures = utils.CollectAllCallSignatures(ctx.TypeChecker, functionType)
+			}
+			if len(callSignatures) == 0 {
+				callSignatures = []*checker.Signature{ctx.TypeChecker.GetSignatureFromDeclaration(functionNode)}
+			}
 			var expectedRange *core.TextRange
 			var expectedType string
 			if returnTypeNode := functionNode.Type(); returnTypeNode != nil {
-- 
2.43.0


From e232f00ffd4511f54caeeca908fc324e2db64c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:14 +0000
Subject: [PATCH 41/56] fix: prefer-optional-chain: keep the base of a chain
 that a non-null assertion follows

---
 .../rules/prefer_optional_chain/prefer_optional_chain.go  | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/rules/prefer_optional_chain/prefer_optional_chain.go b/internal/rules/prefer_optional_chain/prefer_optional_chain.go
index 9fcd745..5744fd1 100644
--- a/internal/rules/prefer_optional_chain/prefer_optional_chain.go
+++ b/internal/rules/prefer_optional_chain/prefer_optional_chain.go
@@ -1292,14 +1292,14 @@ func (processor *chainProcessor) flattenForFix(node *ast.Node) []ChainPart {
 		default:
 			text := processor.getNodeText(n)
 
-			if parentIsNonNull && ast.IsIdentifier(n) {
-				text += "!"
-			}
-
 			if n.Kind == ast.KindAsExpression || n.Kind == ast.KindTypeAssertionExpression {
 				text = "(" + text + ")"
 			}
 
+			if parentIsNonNull {
+				text += "!"
+			}
+
 			parts = append(parts, ChainPart{
 				text:        text,
 				optional:    false,
-- 
2.43.0


From 706a561b70322be03a401bf63d924356c0fc4582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:40 +0000
Subject: [PATCH 42/56] fix: prefer-includes, prefer-string-starts-ends-with:
 only constants have a known value

---
 internal/rules/prefer_includes/prefer_includes.go           | 2 +-
 .../prefer_string_starts_ends_with.go                       | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/rules/prefer_includes/prefer_includes.go b/internal/rules/prefer_includes/prefer_includes.go
index 4f66a41..6918eb4 100644
--- a/internal/rules/prefer_includes/prefer_includes.go
+++ b/internal/rules/prefer_includes/prefer_includes.go
@@ -153,7 +153,7 @@ var PreferIncludesRule = rule.Rule{
 			}
 
 			valueDecl := symbol.ValueDeclaration
-			if valueDecl.Kind != ast.KindVariableDeclaration {
+			if valueDecl.Kind != ast.KindVariableDeclaration || !ast.IsVarConst(valueDecl) {
 				return ""
 			}
 
diff --git a/internal/rules/prefer_string_starts_ends_with/prefer_string_starts_ends_with.go b/internal/rules/prefer_string_starts_ends_with/prefer_string_starts_ends_with.go
index 98ec941..c571e2c 100644
--- a/internal/rules/prefer_string_starts_ends_with/prefer_string_starts_ends_with.go
+++ b/internal/rules/prefer_string_starts_ends_with/prefer_string_starts_ends_with.go
@@ -193,7 +193,7 @@ var PreferStringStartsEndsWithRule = rule.Rule{
 
 			if ast.IsIdentifier(node) {
 				symbol := ctx.TypeChecker.GetSymbolAtLocation(node)
-				if symbol == nil || symbol.ValueDeclaration == nil || !ast.IsVariableDeclaration(symbol.ValueDeclaration) {
+				if symbol == nil || symbol.ValueDeclaration == nil || !ast.IsVariableDeclaration(symbol.ValueDeclaration) || !ast.IsVarConst(symbol.ValueDeclaration) {
 					return "", false
 				}
 				decl := symbol.ValueDeclaration.AsVariableDeclaration()
@@ -228,7 +228,7 @@ var PreferStringStartsEndsWithRule = rule.Rule{
 			}
 			if ast.IsIdentifier(node) {
 				symbol := ctx.TypeChecker.GetSymbolAtLocation(node)
-				if symbol == nil || symbol.ValueDeclaration == nil || !ast.IsVariableDeclaration(symbol.ValueDeclaration) {
+				if symbol == nil || symbol.ValueDeclaration == nil || !ast.IsVariableDeclaration(symbol.ValueDeclaration) || !ast.IsVarConst(symbol.ValueDeclaration) {
 					return nullishKindUnknown
 				}
 				decl := symbol.ValueDeclaration.AsVariableDeclaration()
@@ -423,7 +423,7 @@ var PreferStringStartsEndsWithRule = rule.Rule{
 				}
 			case ast.IsIdentifier(node):
 				symbol := ctx.TypeChecker.GetSymbolAtLocation(node)
-				if symbol == nil || symbol.ValueDeclaration == nil || !ast.IsVariableDeclaration(symbol.ValueDeclaration) {
+				if symbol == nil || symbol.ValueDeclaration == nil || !ast.IsVariableDeclaration(symbol.ValueDeclaration) || !ast.IsVarConst(symbol.ValueDeclaration) {
 					return nil, false
 				}
 				decl := symbol.ValueDeclaration.AsVariableDeclaration()
-- 
2.43.0


From e21cc2b4ec508b3a8c28fe7446219a487944eedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:57 +0000
Subject: [PATCH 43/56] fix: prefer-includes: read the escapes and flags of
 patterns

---
 .../rules/prefer_includes/prefer_includes.go  | 37 ++++++++++++++++---
 1 file changed, 32 insertions(+), 5 deletions(-)

diff --git a/internal/rules/prefer_includes/prefer_includes.go b/internal/rules/prefer_includes/prefer_includes.go
index 6918eb4..e23aaa5 100644
--- a/internal/rules/prefer_includes/prefer_includes.go
+++ b/internal/rules/prefer_includes/prefer_includes.go
@@ -31,18 +31,40 @@ var PreferIncludesRule = rule.Rule{
 	Run: func(ctx rule.RuleContext, options any) rule.RuleListeners {
 
 		// Escape special characters for string literal
-		// The pattern from regex already has escape sequences, we only need to escape apostrophes
+		// The pattern from regex already has escape sequences, we only need to escape apostrophes and line breaks
 		escapeString := func(s string) string {
-			return strings.ReplaceAll(s, "'", "\\'")
+			var b strings.Builder
+			escaped := false
+			for _, ch := range s {
+				switch {
+				case escaped:
+					escaped = false
+					b.WriteRune(ch)
+				case ch == '\'':
+					b.WriteString("\\'")
+				case ch == '\n':
+					b.WriteString("\\n")
+				case ch == '\r':
+					b.WriteString("\\r")
+				default:
+					escaped = ch == '\\'
+					b.WriteRune(ch)
+				}
+			}
+			return b.String()
 		}
 
 		// Check if a pattern string contains only simple literal characters
 		// The TypeScript version uses a proper ECMAScript regex parser (@eslint-community/regexpp),
 		// but we just check for unescaped metacharacters and escaped special sequences.
 		isSimpleLiteralPattern := func(pattern string) bool {
-			prevRune := rune(0)
+			escaped := false
 			for _, ch := range pattern {
-				if prevRune != '\\' {
+				if !escaped {
+					if ch == '\\' {
+						escaped = true
+						continue
+					}
 					// Unescaped regex metacharacters
 					switch ch {
 					case '.', '*', '+', '?', '|', '^', '$', '[', ']', '(', ')', '{', '}':
@@ -56,7 +78,7 @@ var PreferIncludesRule = rule.Rule{
 						return false
 					}
 				}
-				prevRune = ch
+				escaped = false
 			}
 			return true
 		}
@@ -127,6 +149,11 @@ var PreferIncludesRule = rule.Rule{
 				return ""
 			}
 
+			// Reject patterns with any flags
+			if len(args) > 1 {
+				return ""
+			}
+
 			pattern := args[0].AsStringLiteral().Text
 
 			// Validate pattern compiles and is simple literal
-- 
2.43.0


From 9c897fae2296622e6877e4514a4e09b4dc243497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:57 +0000
Subject: [PATCH 44/56] fix: prefer-string-starts-ends-with: keep the
 parentheses of the argument and quote as JavaScript does

---
 .../prefer_string_starts_ends_with.go            | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/internal/rules/prefer_string_starts_ends_with/prefer_string_starts_ends_with.go b/internal/rules/prefer_string_starts_ends_with/prefer_string_starts_ends_with.go
index c571e2c..b86be62 100644
--- a/internal/rules/prefer_string_starts_ends_with/prefer_string_starts_ends_with.go
+++ b/internal/rules/prefer_string_starts_ends_with/prefer_string_starts_ends_with.go
@@ -7,6 +7,7 @@ import (
 	"unicode"
 	"unicode/utf16"
 
+	"github.com/go-json-experiment/json/jsontext"
 	"github.com/microsoft/typescript-go/shim/ast"
 	"github.com/microsoft/typescript-go/shim/core"
 	"github.com/microsoft/typescript-go/shim/scanner"
@@ -42,6 +43,15 @@ const (
 	nullishKindUndefined
 )
 
+// quoteString writes text as a JavaScript string literal
+func quoteString(text string) string {
+	quoted, err := jsontext.AppendQuote(nil, text)
+	if err != nil {
+		return strconv.Quote(text)
+	}
+	return string(quoted)
+}
+
 var PreferStringStartsEndsWithRule = rule.Rule{
 	Name: "prefer-string-starts-ends-with",
 	Run: func(ctx rule.RuleContext, options any) rule.RuleListeners {
@@ -629,7 +639,7 @@ var PreferStringStartsEndsWithRule = rule.Rule{
 
 					fixes = append(fixes,
 						rule.RuleFixReplaceRange(propertyRange, fmt.Sprintf("%s%s", memberOptionalOperator(memberNode), method)),
-						rule.RuleFixReplaceRange(argRange, strconv.Quote(parsed.text)),
+						rule.RuleFixReplaceRange(argRange, quoteString(parsed.text)),
 						rule.RuleFixRemoveRange(callRange.WithPos(callRange.End()).WithEnd(binRange.End())),
 					)
 
@@ -762,8 +772,8 @@ var PreferStringStartsEndsWithRule = rule.Rule{
 			arg := callExpr.Arguments.Nodes[0]
 
 			ctx.ReportNodeWithFixes(&callExpr.Node, message, func() []rule.RuleFix {
-				arg = ast.SkipParentheses(arg)
 				needsParen := !ast.IsLiteralExpression(arg) &&
+					!ast.IsParenthesizedExpression(arg) &&
 					arg.Kind != ast.KindNoSubstitutionTemplateLiteral &&
 					arg.Kind != ast.KindTemplateExpression &&
 					!ast.IsIdentifier(arg) &&
@@ -782,7 +792,7 @@ var PreferStringStartsEndsWithRule = rule.Rule{
 						rule.RuleFixInsertAfter(arg, ")"),
 					)
 				}
-				fixes = append(fixes, rule.RuleFixInsertAfter(arg, fmt.Sprintf("%s%s(%s", memberOptionalOperator(memberNode), method, strconv.Quote(parsed.text))))
+				fixes = append(fixes, rule.RuleFixInsertAfter(arg, fmt.Sprintf("%s%s(%s", memberOptionalOperator(memberNode), method, quoteString(parsed.text))))
 
 				return fixes
 			})
-- 
2.43.0


From e2cb8f7dfb8d222c51ac222d64b8d1929c2f2224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:07 +0000
Subject: [PATCH 45/56] fix: prefer-string-starts-ends-with: a slice that ends
 at 0 is empty

---
 .../prefer_string_starts_ends_with.go                        | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/internal/rules/prefer_string_starts_ends_with/prefer_string_starts_ends_with.go b/internal/rules/prefer_string_starts_ends_with/prefer_string_starts_ends_with.go
index b86be62..f2e3656 100644
--- a/internal/rules/prefer_string_starts_ends_with/prefer_string_starts_ends_with.go
+++ b/internal/rules/prefer_string_starts_ends_with/prefer_string_starts_ends_with.go
@@ -662,10 +662,7 @@ var PreferStringStartsEndsWithRule = rule.Rule{
 				} else if len(args) == 2 {
 					if n, ok := staticNumber(args[0]); ok && n == 0 && isLengthExpression(args[1], bin.Right) {
 						isStartsWith = true
-					} else if (isLengthExpression(args[1], obj) || func() bool {
-						n, ok := staticNumber(args[1])
-						return ok && n == 0
-					}()) && isLengthAheadOfEnd(args[0], bin.Right, obj) {
+					} else if isLengthExpression(args[1], obj) && isLengthAheadOfEnd(args[0], bin.Right, obj) {
 						isEndsWith = true
 					}
 				}
-- 
2.43.0


From 950b530093dae2ced2b17904c0b0baba89342202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:18 +0000
Subject: [PATCH 46/56] fix: prefer-nullish-coalescing: a compound assignment
 is not a nullish assignment

---
 .../prefer_nullish_coalescing/prefer_nullish_coalescing.go  | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/rules/prefer_nullish_coalescing/prefer_nullish_coalescing.go b/internal/rules/prefer_nullish_coalescing/prefer_nullish_coalescing.go
index a5b5673..a65b4bc 100644
--- a/internal/rules/prefer_nullish_coalescing/prefer_nullish_coalescing.go
+++ b/internal/rules/prefer_nullish_coalescing/prefer_nullish_coalescing.go
@@ -821,6 +821,12 @@ var PreferNullishCoalescingRule = rule.Rule{
 				}
 
 				binExpr := assignmentExprUnwrapped.AsBinaryExpression()
+				// Only these operators assign the right operand as it is if the left one is nullish
+				switch binExpr.OperatorToken.Kind {
+				case ast.KindEqualsToken, ast.KindBarBarEqualsToken, ast.KindQuestionQuestionEqualsToken:
+				default:
+					return
+				}
 				if !isMemberAccessLike(binExpr.Left) {
 					return
 				}
-- 
2.43.0


From 0e8298033d1a2b7bc54a7c4b6495bcf9b3bfa5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:29 +0000
Subject: [PATCH 47/56] fix: no-unnecessary-type-conversion: ~~ keeps integers
 of 32 bits only

---
 .../no_unnecessary_type_conversion.go                          | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/rules/no_unnecessary_type_conversion/no_unnecessary_type_conversion.go b/internal/rules/no_unnecessary_type_conversion/no_unnecessary_type_conversion.go
index c3f6bcf..4161ebc 100644
--- a/internal/rules/no_unnecessary_type_conversion/no_unnecessary_type_conversion.go
+++ b/internal/rules/no_unnecessary_type_conversion/no_unnecessary_type_conversion.go
@@ -93,7 +93,8 @@ var NoUnnecessaryTypeConversionRule = rule.Rule{
 				}
 
 				value, err := strconv.ParseFloat(literal.String(), 64)
-				if err != nil || math.Trunc(value) != value {
+				// ~~ keeps integers of 32 bits only
+				if err != nil || math.Trunc(value) != value || value < math.MinInt32 || value > math.MaxInt32 {
 					return false
 				}
 			}
-- 
2.43.0


From efe244a93d47af481982663d2999c655a21fd1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:29 +0000
Subject: [PATCH 48/56] fix: no-unnecessary-type-conversion: a keyword does not
 run into the replacement

---
 .../no_unnecessary_type_conversion.go            | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/internal/rules/no_unnecessary_type_conversion/no_unnecessary_type_conversion.go b/internal/rules/no_unnecessary_type_conversion/no_unnecessary_type_conversion.go
index 4161ebc..89b30ef 100644
--- a/internal/rules/no_unnecessary_type_conversion/no_unnecessary_type_conversion.go
+++ b/internal/rules/no_unnecessary_type_conversion/no_unnecessary_type_conversion.go
@@ -5,10 +5,12 @@ import (
 	"math"
 	"strconv"
 	"strings"
+	"unicode/utf8"
 
 	"github.com/microsoft/typescript-go/shim/ast"
 	"github.com/microsoft/typescript-go/shim/checker"
 	"github.com/microsoft/typescript-go/shim/core"
+	"github.com/microsoft/typescript-go/shim/scanner"
 	"github.com/typescript-eslint/tsgolint/internal/rule"
 	"github.com/typescript-eslint/tsgolint/internal/utils"
 )
@@ -149,6 +151,16 @@ var NoUnnecessaryTypeConversionRule = rule.Rule{
 			return sourceText[r.Pos():r.End()]
 		}
 
+		// a keyword right before the node, as in `typeof+x`, must not run into the replacement
+		separateFromKeyword := func(node *ast.Node, code string) string {
+			before, _ := utf8.DecodeLastRuneInString(sourceText[:utils.TrimNodeTextRange(ctx.SourceFile, node).Pos()])
+			first, _ := utf8.DecodeRuneInString(code)
+			if scanner.IsIdentifierPart(before) && scanner.IsIdentifierPart(first) {
+				return " " + code
+			}
+			return code
+		}
+
 		buildWrappingFix := func(node *ast.Node, innerNodes []*ast.Node, wrap func(code ...string) string) rule.RuleFix {
 			innerCodes := make([]string, len(innerNodes))
 			for i, innerNode := range innerNodes {
@@ -160,7 +172,7 @@ var NoUnnecessaryTypeConversionRule = rule.Rule{
 			}
 
 			if wrap == nil {
-				return rule.RuleFixReplace(ctx.SourceFile, node, strings.Join(innerCodes, ""))
+				return rule.RuleFixReplace(ctx.SourceFile, node, separateFromKeyword(node, strings.Join(innerCodes, "")))
 			}
 
 			code := wrap(innerCodes...)
@@ -168,7 +180,7 @@ var NoUnnecessaryTypeConversionRule = rule.Rule{
 				code = "(" + code + ")"
 			}
 
-			return rule.RuleFixReplace(ctx.SourceFile, node, code)
+			return rule.RuleFixReplace(ctx.SourceFile, node, separateFromKeyword(node, code))
 		}
 
 		buildSuggestions := func(node *ast.Node, primitiveType string, innerNodes ...*ast.Node) []rule.RuleSuggestion {
-- 
2.43.0


From 82ccb94a1193c330fa7e7d54e7702770398ef7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:42 +0000
Subject: [PATCH 49/56] fix: prefer-find: local variables may be called NaN or
 undefined

---
 internal/rules/prefer_find/prefer_find.go | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/internal/rules/prefer_find/prefer_find.go b/internal/rules/prefer_find/prefer_find.go
index d6a87c3..84bf0ba 100644
--- a/internal/rules/prefer_find/prefer_find.go
+++ b/internal/rules/prefer_find/prefer_find.go
@@ -255,17 +255,18 @@ var PreferFindRule = rule.Rule{
 			case ast.KindBigIntLiteral:
 				return parseBigIntLiteral(node.Text())
 			case ast.KindIdentifier:
-				identifier := node.AsIdentifier().Text
-				switch identifier {
-				case "undefined":
-					return staticValue{kind: staticValueUndefined}, true
-				case "NaN":
-					return staticValue{kind: staticValueNumber, numberValue: math.NaN()}, true
-				case "Infinity":
-					return staticValue{kind: staticValueNumber, numberValue: math.Inf(1)}, true
-				}
-
 				symbol := ctx.TypeChecker.GetSymbolAtLocation(node)
+				// local variables may have these names, too
+				if symbol == nil || len(symbol.Declarations) == 0 || utils.IsSymbolFromDefaultLibrary(ctx.Program, symbol) {
+					switch node.AsIdentifier().Text {
+					case "undefined":
+						return staticValue{kind: staticValueUndefined}, true
+					case "NaN":
+						return staticValue{kind: staticValueNumber, numberValue: math.NaN()}, true
+					case "Infinity":
+						return staticValue{kind: staticValueNumber, numberValue: math.Inf(1)}, true
+					}
+				}
 				if symbol == nil {
 					return staticValue{}, false
 				}
-- 
2.43.0


From eefa0324a8273786ef27e89b993aee8558f4dded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:33 +0000
Subject: [PATCH 50/56] fix: no-unnecessary-condition: null | undefined is
 always nullish

---
 .../no_unnecessary_condition/no_unnecessary_condition.go     | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/rules/no_unnecessary_condition/no_unnecessary_condition.go b/internal/rules/no_unnecessary_condition/no_unnecessary_condition.go
index 795150e..70979f8 100644
--- a/internal/rules/no_unnecessary_condition/no_unnecessary_condition.go
+++ b/internal/rules/no_unnecessary_condition/no_unnecessary_condition.go
@@ -236,6 +236,7 @@ func isIndeterminateType(t *checker.Type) bool {
 // - null
 // - undefined
 // - void (treated as undefined at runtime)
+// - unions of these
 //
 // Returns false for:
 // - Non-nullish types (string, number, object, etc.)
@@ -244,6 +245,10 @@ func isIndeterminateType(t *checker.Type) bool {
 // Note: This is different from isNullishType which returns true if a type
 // CAN BE nullish (including unions like string | null).
 func isAlwaysNullishType(t *checker.Type) bool {
+	if utils.IsUnionType(t) {
+		return utils.Every(t.Types(), isAlwaysNullishType)
+	}
+
 	flags := checker.Type_flags(t)
 	return flags&(checker.TypeFlagsNull|checker.TypeFlagsUndefined|checker.TypeFlagsVoid) != 0
 }
-- 
2.43.0


From 3f71a89d780a18a2d956f6b7ff19903beeb45de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:23 +0000
Subject: [PATCH 51/56] fix: no-unnecessary-condition: ?. after plain links of
 a chain that short-circuits

---
 .../no_unnecessary_condition/no_unnecessary_condition.go     | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/rules/no_unnecessary_condition/no_unnecessary_condition.go b/internal/rules/no_unnecessary_condition/no_unnecessary_condition.go
index 70979f8..ffa3a1c 100644
--- a/internal/rules/no_unnecessary_condition/no_unnecessary_condition.go
+++ b/internal/rules/no_unnecessary_condition/no_unnecessary_condition.go
@@ -1270,6 +1270,11 @@ var NoUnnecessaryConditionRule = rule.Rule{
 					}
 				} else {
 					exprType = getResolvedType(expression)
+					// In foo?.bar.baz?.qux the type of foo?.bar.baz includes the undefined of the
+					// short-circuit, after which the second ?. is not evaluated
+					if exprType != nil && isMemberExpressionNullableOriginFromObject(expression) {
+						exprType = removeNullishFromType(exprType)
+					}
 				}
 			} else {
 				// For simple access like foo?.bar, check foo's type
-- 
2.43.0


From 09c07ca9190c5cdaab1eefa2727937fe4795adf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:02 +0000
Subject: [PATCH 52/56] fix: no-confusing-void-expression: fixes keep what is
 returned and leave well-formed statements

---
 .../no_confusing_void_expression.go           | 53 +++++++++++++------
 internal/utils/ts_eslint.go                   | 19 +++++++
 2 files changed, 56 insertions(+), 16 deletions(-)

diff --git a/internal/rules/no_confusing_void_expression/no_confusing_void_expression.go b/internal/rules/no_confusing_void_expression/no_confusing_void_expression.go
index fefa74d..694b117 100644
--- a/internal/rules/no_confusing_void_expression/no_confusing_void_expression.go
+++ b/internal/rules/no_confusing_void_expression/no_confusing_void_expression.go
@@ -1,6 +1,8 @@
 package no_confusing_void_expression
 
 import (
+	"unicode/utf8"
+
 	"github.com/microsoft/typescript-go/shim/ast"
 	"github.com/microsoft/typescript-go/shim/checker"
 	"github.com/microsoft/typescript-go/shim/scanner"
@@ -129,6 +131,24 @@ var NoConfusingVoidExpressionRule = rule.Rule{
 			return parent
 		}
 
+		// leaves the returned expression as a statement of its own
+		removeReturnFixes := func(returnStatement *ast.Node) []rule.RuleFix {
+			expr := returnStatement.AsReturnStatement().Expression
+			returnToken := scanner.GetRangeOfTokenAtPosition(ctx.SourceFile, returnStatement.Pos())
+			nextToken := scanner.ScanTokenAtPosition(ctx.SourceFile, expr.Pos())
+			if utils.CannotBeginStatement(nextToken) {
+				return []rule.RuleFix{
+					rule.RuleFixReplaceRange(returnToken, ";("),
+					rule.RuleFixInsertAfter(expr, ")"),
+				}
+			}
+			replaceText := ""
+			if utils.ContinuesStatement(nextToken) {
+				replaceText = ";"
+			}
+			return []rule.RuleFix{rule.RuleFixReplaceRange(returnToken, replaceText)}
+		}
+
 		isVoidReturningFunction := func(functionNode *ast.Node) bool {
 			// Game plan:
 			//   - If the function node has a type annotation, check if it includes `void`.
@@ -192,6 +212,11 @@ var NoConfusingVoidExpressionRule = rule.Rule{
 			}
 
 			insertVoidFix := func() rule.RuleFix {
+				start := utils.TrimNodeTextRange(ctx.SourceFile, node).Pos()
+				if last, _ := utf8.DecodeLastRuneInString(ctx.SourceFile.Text()[:start]); scanner.IsIdentifierPart(last) {
+					// e.g. `return[f][0]()`
+					return rule.RuleFixInsertBefore(ctx.SourceFile, node, " void ")
+				}
 				return rule.RuleFixInsertBefore(ctx.SourceFile, node, "void ")
 			}
 
@@ -210,9 +235,13 @@ var NoConfusingVoidExpressionRule = rule.Rule{
 					body := invalidAncestor.Body()
 					if !ast.IsBlock(body) && canFix(body) {
 						withoutParens := ast.SkipParentheses(body)
+						before, after := "{ ", "; }"
+						if utils.CannotBeginStatement(scanner.ScanTokenAtPosition(ctx.SourceFile, withoutParens.Pos())) {
+							before, after = "{ (", "); }"
+						}
 						fixes = []rule.RuleFix{
-							rule.RuleFixReplaceRange(body.Loc.WithEnd(withoutParens.Pos()), "{ "),
-							rule.RuleFixReplaceRange(body.Loc.WithPos(withoutParens.End()), "; }"),
+							rule.RuleFixReplaceRange(body.Loc.WithEnd(withoutParens.Pos()), before),
+							rule.RuleFixReplaceRange(body.Loc.WithPos(withoutParens.End()), after),
 						}
 					}
 
@@ -240,13 +269,7 @@ var NoConfusingVoidExpressionRule = rule.Rule{
 						expr := invalidAncestor.AsReturnStatement().Expression
 						var fixes []rule.RuleFix
 						if canFix(expr) {
-							replaceText := ""
-							nextToken := scanner.ScanTokenAtPosition(ctx.SourceFile, expr.Pos())
-							if nextToken == ast.KindOpenParenToken || nextToken == ast.KindOpenBracketToken || nextToken == ast.KindBacktickToken {
-								replaceText = ";"
-							}
-							returnToken := scanner.GetRangeOfTokenAtPosition(ctx.SourceFile, invalidAncestor.Pos())
-							fixes = append(fixes, rule.RuleFixReplaceRange(returnToken, replaceText))
+							fixes = append(fixes, removeReturnFixes(invalidAncestor)...)
 						}
 
 						return fixes
@@ -255,14 +278,12 @@ var NoConfusingVoidExpressionRule = rule.Rule{
 				}
 
 				ctx.ReportNodeWithFixes(node, buildInvalidVoidExprReturnMessage(), func() []rule.RuleFix {
-					var fixes []rule.RuleFix
-					replaceText := ""
-					nextToken := scanner.ScanTokenAtPosition(ctx.SourceFile, invalidAncestor.AsReturnStatement().Expression.Pos())
-					if nextToken == ast.KindOpenParenToken || nextToken == ast.KindOpenBracketToken || nextToken == ast.KindBacktickToken {
-						replaceText = ";"
+					expr := invalidAncestor.AsReturnStatement().Expression
+					if !canFix(expr) {
+						// what it returns may be something
+						return nil
 					}
-					returnToken := scanner.GetRangeOfTokenAtPosition(ctx.SourceFile, invalidAncestor.Pos())
-					fixes = append(fixes, rule.RuleFixReplaceRange(returnToken, replaceText), rule.RuleFixInsertAfter(invalidAncestor, "; return;"))
+					fixes := append(removeReturnFixes(invalidAncestor), rule.RuleFixInsertAfter(invalidAncestor, "; return;"))
 
 					if !ast.IsBlock(invalidAncestor.Parent) {
 						// e.g. `if (cond) return console.error();`
diff --git a/internal/utils/ts_eslint.go b/internal/utils/ts_eslint.go
index 0518c34..c6d7faf 100644
--- a/internal/utils/ts_eslint.go
+++ b/internal/utils/ts_eslint.go
@@ -660,3 +660,22 @@ func GetNameFromMember(sourceFile *ast.SourceFile, member *ast.Node) (string, Me
 	r := TrimNodeTextRange(sourceFile, member)
 	return sourceFile.Text()[r.Pos():r.End()], MemberNameTypeExpression
 }
+
+// Whether an expression that begins with this token has to be put in parentheses to begin a statement.
+func CannotBeginStatement(token ast.Kind) bool {
+	switch token {
+	case ast.KindOpenBraceToken, ast.KindFunctionKeyword, ast.KindClassKeyword, ast.KindAsyncKeyword, ast.KindLetKeyword, ast.KindAtToken:
+		return true
+	}
+	return false
+}
+
+// Whether a statement that begins with this token is taken for the continuation of one before it that has no semicolon.
+func ContinuesStatement(token ast.Kind) bool {
+	switch token {
+	case ast.KindOpenParenToken, ast.KindOpenBracketToken, ast.KindBacktickToken, ast.KindTemplateHead, ast.KindNoSubstitutionTemplateLiteral,
+		ast.KindPlusToken, ast.KindMinusToken, ast.KindSlashToken, ast.KindSlashEqualsToken, ast.KindLessThanToken:
+		return true
+	}
+	return false
+}
-- 
2.43.0


From d94a3f41d31f7e92b01375562a736d030dc65947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:02 +0000
Subject: [PATCH 53/56] fix: no-meaningless-void-operator: what remains is
 parsed as the operand was

---
 .../no_meaningless_void_operator.go           | 68 +++++++++++++++++--
 1 file changed, 64 insertions(+), 4 deletions(-)

diff --git a/internal/rules/no_meaningless_void_operator/no_meaningless_void_operator.go b/internal/rules/no_meaningless_void_operator/no_meaningless_void_operator.go
index b5a29e1..badb7e7 100644
--- a/internal/rules/no_meaningless_void_operator/no_meaningless_void_operator.go
+++ b/internal/rules/no_meaningless_void_operator/no_meaningless_void_operator.go
@@ -2,9 +2,12 @@ package no_meaningless_void_operator
 
 import (
 	"fmt"
+	"slices"
+	"strings"
 
 	"github.com/microsoft/typescript-go/shim/ast"
 	"github.com/microsoft/typescript-go/shim/checker"
+	"github.com/microsoft/typescript-go/shim/scanner"
 	"github.com/typescript-eslint/tsgolint/internal/rule"
 	"github.com/typescript-eslint/tsgolint/internal/utils"
 )
@@ -22,6 +25,52 @@ func buildRemoveVoidMessage() rule.RuleMessage {
 	}
 }
 
+// What to put around the operand, which begins with the given token, when the operator in front of it goes.
+func statementGuards(file *ast.SourceFile, node *ast.Node, token ast.Kind) (string, string) {
+	start := utils.TrimNodeTextRange(file, node).Pos()
+	for current := node; current.Parent != nil; current = current.Parent {
+		parent := current.Parent
+		if ast.IsArrowFunction(parent) {
+			if parent.Body() == current && token == ast.KindOpenBraceToken {
+				return "(", ")"
+			}
+			return "", ""
+		}
+		if parent.Kind == ast.KindExportAssignment {
+			if utils.CannotBeginStatement(token) {
+				return "(", ")"
+			}
+			return "", ""
+		}
+		if utils.TrimNodeTextRange(file, parent).Pos() != start {
+			return "", ""
+		}
+		if !ast.IsExpressionStatement(parent) {
+			continue
+		}
+		before, after := "", ""
+		if utils.CannotBeginStatement(token) {
+			before, after, token = "(", ")", ast.KindOpenParenToken
+		}
+		if utils.ContinuesStatement(token) && followsOpenStatement(file, parent) {
+			before = ";" + before
+		}
+		return before, after
+	}
+	return "", ""
+}
+
+// Whether the statement before this one ends without a semicolon.
+func followsOpenStatement(file *ast.SourceFile, statement *ast.Node) bool {
+	parent := statement.Parent
+	if parent == nil || !parent.CanHaveStatements() {
+		return false
+	}
+	statements := parent.Statements()
+	i := slices.Index(statements, statement)
+	return i > 0 && file.Text()[statements[i-1].End()-1] != ';'
+}
+
 var NoMeaninglessVoidOperatorRule = rule.Rule{
 	Name: "no-meaningless-void-operator",
 	Run: func(ctx rule.RuleContext, options any) rule.RuleListeners {
@@ -41,17 +90,28 @@ var NoMeaninglessVoidOperatorRule = rule.Rule{
 					return utils.IsTypeFlagSet(t, checker.TypeFlagsVoidLike|checker.TypeFlagsNever)
 				})
 
-				fixRemoveVoidKeyword := func() rule.RuleFix {
-					return rule.RuleFixRemoveRange(utils.TrimNodeTextRange(ctx.SourceFile, node).WithEnd(arg.Pos()))
+				fixRemoveVoidKeyword := func() []rule.RuleFix {
+					keyword := utils.TrimNodeTextRange(ctx.SourceFile, node).WithEnd(arg.Pos())
+					argRange := utils.TrimNodeTextRange(ctx.SourceFile, arg)
+					if strings.ContainsAny(ctx.SourceFile.Text()[arg.Pos():argRange.Pos()], "\r\n\u2028\u2029") {
+						// what comes before the operator may not be followed by a line break
+						keyword = keyword.WithEnd(argRange.Pos())
+					}
+					before, after := statementGuards(ctx.SourceFile, node, scanner.ScanTokenAtPosition(ctx.SourceFile, arg.Pos()))
+					fixes := []rule.RuleFix{rule.RuleFixReplaceRange(keyword, before)}
+					if after != "" {
+						fixes = append(fixes, rule.RuleFixInsertAfter(arg, after))
+					}
+					return fixes
 				}
 
 				if isAlwaysVoidLike {
-					ctx.ReportNodeWithFixes(node, buildMeaninglessVoidOperatorMessage(ctx.TypeChecker.TypeToString(argType)), func() []rule.RuleFix { return []rule.RuleFix{fixRemoveVoidKeyword()} })
+					ctx.ReportNodeWithFixes(node, buildMeaninglessVoidOperatorMessage(ctx.TypeChecker.TypeToString(argType)), func() []rule.RuleFix { return fixRemoveVoidKeyword() })
 				} else if opts.CheckNever && isAlwaysVoidLikeOrNever {
 					ctx.ReportNodeWithSuggestions(node, buildMeaninglessVoidOperatorMessage(ctx.TypeChecker.TypeToString(argType)), func() []rule.RuleSuggestion {
 						return []rule.RuleSuggestion{{
 							Message:  buildRemoveVoidMessage(),
-							FixesArr: []rule.RuleFix{fixRemoveVoidKeyword()},
+							FixesArr: fixRemoveVoidKeyword(),
 						}}
 					})
 				}
-- 
2.43.0


From e19b32e7a45951e22278af1f929fe17f9375b7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:10 +0000
Subject: [PATCH 54/56] fix: no-misused-promises, strict-void-return:
 parentheses around functions and their types

---
 internal/rules/no_misused_promises/no_misused_promises.go | 1 +
 internal/rules/strict_void_return/strict_void_return.go   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/internal/rules/no_misused_promises/no_misused_promises.go b/internal/rules/no_misused_promises/no_misused_promises.go
index 964d6cd..b0a8611 100644
--- a/internal/rules/no_misused_promises/no_misused_promises.go
+++ b/internal/rules/no_misused_promises/no_misused_promises.go
@@ -761,6 +761,7 @@ var NoMisusedPromisesRule = rule.Rule{
 				ast.KindIndexedAccessType,
 				ast.KindInferType,
 				ast.KindIntersectionType,
+				ast.KindParenthesizedType,
 				ast.KindQualifiedName,
 				ast.KindThisType,
 				ast.KindTypeOperator,
diff --git a/internal/rules/strict_void_return/strict_void_return.go b/internal/rules/strict_void_return/strict_void_return.go
index 2689502..73b9bf4 100644
--- a/internal/rules/strict_void_return/strict_void_return.go
+++ b/internal/rules/strict_void_return/strict_void_return.go
@@ -77,6 +77,7 @@ var StrictVoidReturnRule = rule.Rule{
 
 		var reportIfNonVoidFunction func(funcNode *ast.Node)
 		reportIfNonVoidFunction = func(funcNode *ast.Node) {
+			funcNode = ast.SkipParentheses(funcNode)
 			actualType := checker.Checker_getApparentType(ctx.TypeChecker, ctx.TypeChecker.GetTypeAtLocation(funcNode))
 			if utils.Every(utils.GetCallSignatures(ctx.TypeChecker, actualType), func(signature *checker.Signature) bool {
 				return isAllowedType(checker.Checker_getReturnTypeOfSignature(ctx.TypeChecker, signature))
-- 
2.43.0


From 02ecf872cc16e743f9629717f9a8d79eb2d6fed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:46 +0000
Subject: [PATCH 55/56] fix: no-misused-promises: members of instantiated
 generic heritage types

---
 .../rules/no_misused_promises/no_misused_promises.go  | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/internal/rules/no_misused_promises/no_misused_promises.go b/internal/rules/no_misused_promises/no_misused_promises.go
index b0a8611..8d4114d 100644
--- a/internal/rules/no_misused_promises/no_misused_promises.go
+++ b/internal/rules/no_misused_promises/no_misused_promises.go
@@ -347,17 +347,18 @@ var NoMisusedPromisesRule = rule.Rule{
 			t *checker.Type,
 			memberName string,
 		) *ast.Symbol {
+			// the property knows the type arguments of `t`, the member of its symbol does not
+			if property := checker.Checker_getPropertyOfType(ctx.TypeChecker, t, memberName); property != nil {
+				return property
+			}
+
 			// TODO(port)
 			// const escapedMemberName = ts.escapeLeadingUnderscores(memberName);
 			symbol := checker.Type_symbol(t)
 			if symbol != nil {
 				symbol = symbol.Members[memberName]
 			}
-			if symbol != nil {
-				return symbol
-			}
-
-			return checker.Checker_getPropertyOfType(ctx.TypeChecker, t, memberName)
+			return symbol
 		}
 
 		isVoidReturningFunctionType := func(
-- 
2.43.0


From abe10e0fc254a87213b1e8d697b581fcb604617c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:46 +0000
Subject: [PATCH 56/56] fix: strict-void-return: static members are not members
 of instances

---
 internal/rules/strict_void_return/strict_void_return.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/rules/strict_void_return/strict_void_return.go b/internal/rules/strict_void_return/strict_void_return.go
index 73b9bf4..ad162af 100644
--- a/internal/rules/strict_void_return/strict_void_return.go
+++ b/internal/rules/strict_void_return/strict_void_return.go
@@ -217,6 +217,10 @@ var StrictVoidReturnRule = rule.Rule{
 		}
 
 		getBaseMemberTypes := func(memberNode *ast.Node) []*checker.Type {
+			if ast.IsStatic(memberNode) {
+				// heritage types are those of instances
+				return nil
+			}
 			classLikeNode := memberNode.Parent
 			if classLikeNode == nil {
 				return nil
-- 
2.43.0

