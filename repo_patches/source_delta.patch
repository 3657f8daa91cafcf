From f2a6342121619cbbd87806156d31bd8e2ac01f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:04 +0000
Subject: [PATCH 01/28] fix: do not panic on a declaration that follows a
 duplicated local variable

---
 ast/ast.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ast/ast.go b/ast/ast.go
index baec22e..251d55b 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -147,6 +147,10 @@ func createFunctionOrProcedure(Type StatementType, directive Statement, name str
 }
 
 func appendVarStatements(existingVariables map[string]VarStatement, newVariables []Token) (map[string]VarStatement, error) {
+	if existingVariables == nil { // предыдущее объявление было с ошибкой
+		existingVariables = map[string]VarStatement{}
+	}
+
 	for _, v := range newVariables {
 		if _, ok := existingVariables[v.literal]; ok {
 			return map[string]VarStatement{}, fmt.Errorf("%w: with the specified name %q", errVariableAlreadyDefined, v.literal)
-- 
2.43.0


From 3264f935e96d23d180793685689d1b1d30a124ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:37 +0000
Subject: [PATCH 02/28] =?UTF-8?q?fix:=20leave=20loop=20context=20after=20a?=
 =?UTF-8?q?=20=D0=9F=D0=BE=D0=BA=D0=B0=20loop,=20so=20=D0=9F=D1=80=D0=B5?=
 =?UTF-8?q?=D1=80=D0=B2=D0=B0=D1=82=D1=8C/=D0=9F=D1=80=D0=BE=D0=B4=D0=BE?=
 =?UTF-8?q?=D0=BB=D0=B6=D0=B8=D1=82=D1=8C=20outside=20it=20are=20rejected?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 ast/grammar.y | 2 +-
 ast/y.go      | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/ast/grammar.y b/ast/grammar.y
index 364143f..332b3fc 100644
--- a/ast/grammar.y
+++ b/ast/grammar.y
@@ -243,7 +243,7 @@ stmt_loop: For Each token_identifier In loopExp Loop { setLoopFlag(true, yylex)
         $$ = &LoopStatement{
             WhileExpr: $2,
             Body: $5,
-        }
+        }; setLoopFlag(false, yylex)
 };
 
 
diff --git a/ast/y.go b/ast/y.go
index 34afd52..dcbe769 100644
--- a/ast/y.go
+++ b/ast/y.go
@@ -1001,6 +1001,7 @@ yydefault:
 				WhileExpr: yyDollar[2].stmt,
 				Body:      yyDollar[5].opt_body,
 			}
+			setLoopFlag(false, yylex)
 		}
 	case 40:
 		yyDollar = yyS[yypt-1 : yypt+1]
-- 
2.43.0


From 285f04cddb736ae3281e9a4c75aceebeced91fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:38 +0000
Subject: [PATCH 03/28] fix: a block starting with a separator no longer
 inherits statements of an earlier block

---
 ast/grammar.y | 2 +-
 ast/y.go      | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/ast/grammar.y b/ast/grammar.y
index 332b3fc..12d6477 100644
--- a/ast/grammar.y
+++ b/ast/grammar.y
@@ -148,7 +148,7 @@ opt_body: { $$ = nil }
     
 
 body: stmt { $$ = Statements{$1}}
-    | opt_body separator opt_stmt { 
+    | opt_body separator opt_stmt { $$ = $1
         if $2.literal == ":" && len($1) > 0 {
             if _, ok := $1[len($1)-1].(*GoToLabelStatement); !ok {
                 yylex.Error("semicolon (;) is expected")
diff --git a/ast/y.go b/ast/y.go
index dcbe769..483a2ac 100644
--- a/ast/y.go
+++ b/ast/y.go
@@ -840,6 +840,7 @@ yydefault:
 		yyDollar = yyS[yypt-3 : yypt+1]
 //line .\grammar.y:151
 		{
+			yyVAL.body = yyDollar[1].opt_body
 			if yyDollar[2].token.literal == ":" && len(yyDollar[1].opt_body) > 0 {
 				if _, ok := yyDollar[1].opt_body[len(yyDollar[1].opt_body)-1].(*GoToLabelStatement); !ok {
 					yylex.Error("semicolon (;) is expected")
-- 
2.43.0


From 47e5784c4cbbbd606d16c17039cebbb5808592ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:39 +0000
Subject: [PATCH 04/28] =?UTF-8?q?fix:=20keep=20=D0=98=D0=BD=D0=B0=D1=87?=
 =?UTF-8?q?=D0=B5=D0=95=D1=81=D0=BB=D0=B8=20branches=20in=20source=20order?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 ast/grammar.y | 4 ++--
 ast/y.go      | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ast/grammar.y b/ast/grammar.y
index 12d6477..56d79f8 100644
--- a/ast/grammar.y
+++ b/ast/grammar.y
@@ -203,10 +203,10 @@ stmt_if : If expr Then opt_body opt_elseif_list opt_else EndIf {
 /* ИначеЕсли */
 opt_elseif_list : { $$ = Statements{} }
         | ElseIf expr Then opt_body opt_elseif_list {
-             $$ = append($5, &IfStatement{
+             $$ = append(Statements{ &IfStatement{
                 Expression: $2,
                 TrueBlock:  $4,
-            })
+            }}, $5...)
         };
 
 /* Иначе */
diff --git a/ast/y.go b/ast/y.go
index 483a2ac..edf6137 100644
--- a/ast/y.go
+++ b/ast/y.go
@@ -927,10 +927,10 @@ yydefault:
 		yyDollar = yyS[yypt-5 : yypt+1]
 //line .\grammar.y:205
 		{
-			yyVAL.opt_elseif_list = append(yyDollar[5].opt_elseif_list, &IfStatement{
+			yyVAL.opt_elseif_list = append(Statements{&IfStatement{
 				Expression: yyDollar[2].stmt,
 				TrueBlock:  yyDollar[4].opt_body,
-			})
+			}}, yyDollar[5].opt_elseif_list...)
 		}
 	case 31:
 		yyDollar = yyS[yypt-0 : yypt+1]
-- 
2.43.0


From a164200c0423dd53c8c398e3d139819be71cc6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:10 +0000
Subject: [PATCH 05/28] =?UTF-8?q?fix:=20keep=20unary=20minus=20and=20?=
 =?UTF-8?q?=D0=9D=D0=B5=20on=20every=20kind=20of=20operand?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 ast/ast.go        | 13 +++++++++++--
 ast/ast_print.go  |  7 ++++++-
 ast/ast_struct.go | 25 +++++++++++++++++++++++++
 3 files changed, 42 insertions(+), 3 deletions(-)

diff --git a/ast/ast.go b/ast/ast.go
index 251d55b..bef646c 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -162,6 +162,10 @@ func appendVarStatements(existingVariables map[string]VarStatement, newVariables
 }
 
 func unaryMinus(iv interface{}) interface{} {
+	if isNegative(iv) || isNegated(iv) { // --а, -Не а
+		return ExprStatements{Statements: Statements{iv}}.UnaryMinus()
+	}
+
 	switch v := iv.(type) {
 	case int:
 		return -v
@@ -176,17 +180,22 @@ func unaryMinus(iv interface{}) interface{} {
 	case IUnary:
 		return v.UnaryMinus()
 	default:
-		return v
+		// у остальных выражений нет своего признака, что бы не потерять минус заворачиваем в скобки
+		return ExprStatements{Statements: Statements{v}}.UnaryMinus()
 	}
 }
 
 func not(iv interface{}) interface{} {
+	if isNegated(iv) { // Не Не а
+		return ExprStatements{Statements: Statements{iv}}.Not()
+	}
+
 	switch v := iv.(type) {
 	case bool:
 		return !v
 	case INot:
 		return v.Not()
 	default:
-		return v
+		return ExprStatements{Statements: Statements{v}}.Not()
 	}
 }
diff --git a/ast/ast_print.go b/ast/ast_print.go
index f071ccb..47a9162 100644
--- a/ast/ast_print.go
+++ b/ast/ast_print.go
@@ -332,6 +332,11 @@ func (p *astPrint) printExpression(expr Statement, level int) string {
 	case ExprStatements:
 		if v.not {
 			builder.WriteString("Не ")
+		}
+		if v.unaryMinus {
+			builder.WriteString("-")
+		}
+		if v.not || v.unaryMinus {
 			builder.WriteString("(")
 		}
 
@@ -339,7 +344,7 @@ func (p *astPrint) printExpression(expr Statement, level int) string {
 			builder.WriteString(p.printExpression(s, IF(level == 0, 0, level+1)))
 		}
 
-		if v.not {
+		if v.not || v.unaryMinus {
 			builder.WriteString(")")
 		}
 	case *ExpStatement:
diff --git a/ast/ast_struct.go b/ast/ast_struct.go
index 913dec1..a2a6466 100644
--- a/ast/ast_struct.go
+++ b/ast/ast_struct.go
@@ -203,6 +203,31 @@ func (e *ExpStatement) Not() interface{} {
 	return e
 }
 
+// isNegated выражение с отрицанием (Не а)
+func isNegated(iv interface{}) bool {
+	v, ok := iv.(interface{ negated() bool })
+	return ok && v.negated()
+}
+
+// isNegative выражение с унарным минусом (-а)
+func isNegative(iv interface{}) bool {
+	v, ok := iv.(interface{ negative() bool })
+	return ok && v.negative()
+}
+
+func (f addStatementField) negated() bool {
+	return f.not
+}
+
+func (f addStatementField) negative() bool {
+	return f.unaryMinus
+}
+
+func (e ExprStatements) UnaryMinus() interface{} {
+	e.unaryMinus = true
+	return e
+}
+
 func (e ExprStatements) Not() interface{} {
 	e.not = true
 	return e
-- 
2.43.0


From 774464d2d1e956af2367513f3591553e128944d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:55 +0000
Subject: [PATCH 06/28] fix: print the fractional part of numbers

---
 ast/ast_print.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ast/ast_print.go b/ast/ast_print.go
index 47a9162..2857d08 100644
--- a/ast/ast_print.go
+++ b/ast/ast_print.go
@@ -2,6 +2,7 @@ package ast
 
 import (
 	"fmt"
+	"strconv"
 	"strings"
 	"time"
 )
@@ -150,8 +151,10 @@ func (p *astPrint) printFunctionOrProcedure(pf *FunctionOrProcedure) (result str
 
 func (p *astPrint) printVarStatement(v Statement) string {
 	switch val := v.(type) {
-	case float64, float32:
-		return fmt.Sprintf("%.0f", val)
+	case float64:
+		return strconv.FormatFloat(val, 'f', -1, 64)
+	case float32:
+		return strconv.FormatFloat(float64(val), 'f', -1, 32)
 	case int, int64, int32:
 		return fmt.Sprintf("%d", val)
 	case string:
-- 
2.43.0


From 47df1c3f12a37497b93156997a797cb6ca5c50cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:56 +0000
Subject: [PATCH 07/28] =?UTF-8?q?fix:=20print=20unary=20minus=20and=20?=
 =?UTF-8?q?=D0=9D=D0=B5=20of=20arguments,=20defaults,=20call=20chains=20an?=
 =?UTF-8?q?d=20exceptions?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 ast/ast_print.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ast/ast_print.go b/ast/ast_print.go
index 2857d08..a242704 100644
--- a/ast/ast_print.go
+++ b/ast/ast_print.go
@@ -115,7 +115,7 @@ func (p *astPrint) printFunctionOrProcedure(pf *FunctionOrProcedure) (result str
 			val = "Знач "
 		}
 
-		if asText := p.printVarStatement(param.Default); asText != "" {
+		if asText := p.printExpression(param.Default, 0); asText != "" {
 			def = " = " + asText
 		}
 
@@ -164,7 +164,7 @@ func (p *astPrint) printVarStatement(v Statement) string {
 	case time.Time:
 		return fmt.Sprintf(`'%s'`, val.Format("20060102150405"))
 	case CallChainStatement:
-		not := IF[string](val.not, "Не ", "")
+		not := IF[string](val.not, "Не ", "") + IF[string](val.unaryMinus, "-", "")
 		return not + p.printCallChainStatement(val)
 	case UndefinedStatement:
 		return "Неопределено"
@@ -191,7 +191,7 @@ func (p *astPrint) printVarStatement(v Statement) string {
 func (p *astPrint) printParams(Params Statements) string {
 	params := make([]string, len(Params), len(Params))
 	for i, parm := range Params {
-		params[i] = p.printVarStatement(parm)
+		params[i] = p.printExpression(parm, 0)
 	}
 
 	return strings.Join(params, ", ")
@@ -242,7 +242,7 @@ func (p *astPrint) printBodyItem(item Statement, depth int) string {
 	case ThrowStatement:
 		builder.WriteString("ВызватьИсключение")
 		if v.Param != nil {
-			if param, ok := v.Param.(ExprStatements); ok {
+			if param, ok := v.Param.(ExprStatements); ok && !param.not && !param.unaryMinus {
 				builder.WriteString("(" + p.printParams(param.Statements) + ")")
 			} else {
 				builder.WriteString("(" + p.printParams(Statements{v.Param}) + ")")
-- 
2.43.0


From 810b70831b38f4d2abf00fbadb3ab3ddbeb0712d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:58 +0000
Subject: [PATCH 08/28] fix: keep brackets around a negated operand when
 printing

---
 ast/ast_print.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ast/ast_print.go b/ast/ast_print.go
index a242704..d259ff0 100644
--- a/ast/ast_print.go
+++ b/ast/ast_print.go
@@ -344,6 +344,11 @@ func (p *astPrint) printExpression(expr Statement, level int) string {
 		}
 
 		for _, s := range v.Statements {
+			// (Не а) = б без скобок читается как Не (а = б)
+			if _, isExp := s.(*ExpStatement); level > 0 && isNegated(s) && !isExp {
+				builder.WriteString("(" + p.printExpression(s, level+1) + ")")
+				continue
+			}
 			builder.WriteString(p.printExpression(s, IF(level == 0, 0, level+1)))
 		}
 
-- 
2.43.0


From 07a4d2f8e9da971d6fb766a1ea811b8411baa74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:59 +0000
Subject: [PATCH 09/28] =?UTF-8?q?fix:=20do=20not=20glue=20=D0=9F=D0=BE?=
 =?UTF-8?q?=D0=BF=D1=8B=D1=82=D0=BA=D0=B0/=D0=98=D1=81=D0=BA=D0=BB=D1=8E?=
 =?UTF-8?q?=D1=87=D0=B5=D0=BD=D0=B8=D0=B5=20to=20the=20next=20statement=20?=
 =?UTF-8?q?when=20printing=20in=20one=20line?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 ast/ast_print.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ast/ast_print.go b/ast/ast_print.go
index d259ff0..42e259f 100644
--- a/ast/ast_print.go
+++ b/ast/ast_print.go
@@ -416,7 +416,7 @@ func (p *astPrint) printTryStatement(try TryStatement, depth int) string {
 	builder := &strings.Builder{}
 
 	spaces := strings.Repeat(" ", p.conf.Margin*depth)
-	builder.WriteString("Попытка")
+	builder.WriteString("Попытка ")
 
 	if try.Body != nil {
 		builder.WriteString(p.printBody(try.Body, depth+1))
@@ -425,7 +425,7 @@ func (p *astPrint) printTryStatement(try TryStatement, depth int) string {
 	}
 
 	builder.WriteString(spaces)
-	builder.WriteString("Исключение")
+	builder.WriteString("Исключение ")
 	if try.Catch != nil {
 		builder.WriteString(p.printBody(try.Catch, depth+1))
 	} else {
-- 
2.43.0


From 55f9b86701602d4d4cf84fcb5d4d9df6e3b46d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:00 +0000
Subject: [PATCH 10/28] fix: print module variables in a stable order, also
 when the module has nothing else

---
 ast/ast_print.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/ast/ast_print.go b/ast/ast_print.go
index 42e259f..70afe8a 100644
--- a/ast/ast_print.go
+++ b/ast/ast_print.go
@@ -2,6 +2,7 @@ package ast
 
 import (
 	"fmt"
+	"sort"
 	"strconv"
 	"strings"
 	"time"
@@ -48,14 +49,14 @@ func (ast *AstNode) PrintStatementWithConf(stat Statement, conf PrintConf) strin
 }
 
 func (p *astPrint) print() string {
-	if len(p.ast.ModuleStatement.Body) == 0 {
+	if len(p.ast.ModuleStatement.Body) == 0 && len(p.ast.ModuleStatement.GlobalVariables) == 0 {
 		return ""
 	}
 
 	builder := &strings.Builder{}
 
-	for _, v := range p.ast.ModuleStatement.GlobalVariables {
-		builder.WriteString(p.printGlobalVariables(v))
+	for _, name := range sortedKeys(p.ast.ModuleStatement.GlobalVariables) {
+		builder.WriteString(p.printGlobalVariables(p.ast.ModuleStatement.GlobalVariables[name]))
 		builder.WriteString(p.newLine(1))
 	}
 
@@ -459,6 +460,17 @@ func (p *astPrint) printGoTo(gotoStat Statement, depth int) string {
 	return builder.String()
 }
 
+// sortedKeys порядок обхода map случайный, а вывод должен быть одинаковым
+func sortedKeys[T any](m map[string]T) []string {
+	keys := make([]string, 0, len(m))
+	for k := range m {
+		keys = append(keys, k)
+	}
+
+	sort.Strings(keys)
+	return keys
+}
+
 func (p *astPrint) newLine(count int) string {
 	if p.conf.OneLine {
 		return ""
-- 
2.43.0


From d4a098223b0c9e3699950181eb693a66f7ce4c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:01 +0000
Subject: [PATCH 11/28] fix: print local variable declarations of procedures
 and functions

---
 ast/ast_print.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ast/ast_print.go b/ast/ast_print.go
index 70afe8a..adb027a 100644
--- a/ast/ast_print.go
+++ b/ast/ast_print.go
@@ -145,6 +145,11 @@ func (p *astPrint) printFunctionOrProcedure(pf *FunctionOrProcedure) (result str
 	builder.WriteString(" ")
 	builder.WriteString(export)
 	builder.WriteString(p.newLine(1))
+	for _, name := range sortedKeys(pf.ExplicitVariables) {
+		builder.WriteString(strings.Repeat(" ", p.conf.Margin*depth))
+		builder.WriteString("Перем " + name + ";")
+		builder.WriteString(p.newLine(1))
+	}
 	builder.WriteString(p.printBody(pf.Body, depth))
 
 	return
-- 
2.43.0


From 318bb65aeb24ef6dd5e60e1ce7a2df178695fb53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:03 +0000
Subject: [PATCH 12/28] fix: PrintStatement prints procedures and functions

---
 ast/ast_print.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ast/ast_print.go b/ast/ast_print.go
index adb027a..b50cd1d 100644
--- a/ast/ast_print.go
+++ b/ast/ast_print.go
@@ -223,6 +223,8 @@ func (p *astPrint) printBodyItem(item Statement, depth int) string {
 	builder.WriteString(spaces)
 
 	switch v := item.(type) {
+	case *FunctionOrProcedure:
+		builder.WriteString(p.printFunctionOrProcedure(v))
 	case *IfStatement:
 		builder.WriteString(p.printIfStatement(v, depth))
 		builder.WriteString(";")
-- 
2.43.0


From ec7bc011dda6e5a7ed658b6187c81d20f43e703e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:04 +0000
Subject: [PATCH 13/28] fix: Walk reports no enclosing function for module
 statements that follow one

---
 ast/ast_struct.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ast/ast_struct.go b/ast/ast_struct.go
index a2a6466..6fbf51d 100644
--- a/ast/ast_struct.go
+++ b/ast/ast_struct.go
@@ -357,6 +357,7 @@ func (m *ModuleStatement) Append(item Statement, yylex yyLexer) {
 
 func walkHelper(parent *FunctionOrProcedure, parentStm Statement, statements Statements, callBack fCallBack) {
 	for i, item := range statements {
+		parent := parent // выражения модуля после процедуры к ней не относятся
 		switch v := item.(type) {
 		case *IfStatement:
 			walkHelper(parent, v, Statements{v.Expression}, callBack)
-- 
2.43.0


From 8f5fb19d94eb0accd60a85bb2a537419e81a1899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:40 +0000
Subject: [PATCH 14/28] fix: a date literal ends at its closing quote even when
 a string follows

---
 ast/tokens.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ast/tokens.go b/ast/tokens.go
index 8ae885c..0fed805 100644
--- a/ast/tokens.go
+++ b/ast/tokens.go
@@ -277,7 +277,7 @@ eos:
 			return "", fmt.Errorf("unexpected EOF")
 		case cl == end:
 			// пропускаем двойные "
-			if t.nextLet() == '"' {
+			if end == '"' && t.nextLet() == '"' {
 				t.nextPos()
 				ret = append(ret, '"', '"')
 				continue
@@ -288,7 +288,7 @@ eos:
 			// для случаев (в 1с такое допускается, считается одна строка)
 			// d = "ввава"
 			// "fffff"
-			if t.currentLet() == '"' {
+			if end == '"' && t.currentLet() == '"' {
 				continue
 			}
 
-- 
2.43.0


From 96b8e2156118b5eade0fee402a226a06a6815474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:42 +0000
Subject: [PATCH 15/28] fix: report syntax errors at the start of the offending
 string, date or label

---
 ast/ast.go    | 4 ++--
 ast/tokens.go | 8 ++++++++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/ast/ast.go b/ast/ast.go
index bef646c..1b2e90b 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -73,8 +73,8 @@ func (ast *AstNode) SrsCode() string {
 }
 
 func (ast *AstNode) Error(s string) {
-	pos := ast.currentToken.GetPosition()
-	pos.Column -= len([]rune(ast.currentToken.literal)) + 1
+	pos := ast.currentToken.startPosition()
+	pos.Column--
 
 	ast.err = fmt.Errorf("%s. line: %d, column: %d (unexpected literal: %q)", s, pos.Line, pos.Column, ast.currentToken.literal)
 }
diff --git a/ast/tokens.go b/ast/tokens.go
index 0fed805..e890eba 100644
--- a/ast/tokens.go
+++ b/ast/tokens.go
@@ -27,6 +27,7 @@ type Token struct {
 	literal  string
 	position Position
 	offset   int
+	start    int // смещение начала токена
 	prevDot  bool
 }
 
@@ -124,6 +125,7 @@ func (t *Token) next() (int, string, error) {
 	t.skipSpace()
 	t.skipComment()
 	t.skipRegions()
+	t.start = t.offset
 
 	if t.prevDot {
 		defer func() { t.prevDot = false }()
@@ -378,6 +380,12 @@ func (t *Token) GetPosition() Position {
 	}
 }
 
+// startPosition позиция начала токена, литерал может отличаться от исходного текста (строки, даты, метки)
+func (t Token) startPosition() Position {
+	t.offset = t.start
+	return t.GetPosition()
+}
+
 func (t *Token) nextPos() {
 	srsCode := t.ast.SrsCode()
 	_, size := utf8.DecodeRuneInString(srsCode[t.offset:])
-- 
2.43.0


From 76812932f3331262817e9d5ca496603cb8aebaed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:43 +0000
Subject: [PATCH 16/28] fix: fast_tolower lowercases Latin letters and
 terminates on malformed UTF-8

---
 ast/fast_tolower/gowrap.go | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/ast/fast_tolower/gowrap.go b/ast/fast_tolower/gowrap.go
index 1729e20..7d07fbf 100644
--- a/ast/fast_tolower/gowrap.go
+++ b/ast/fast_tolower/gowrap.go
@@ -7,6 +7,16 @@ package fast_tolower
 #include <stdint.h>
 #include <stdio.h> // for printf
 
+// за первым байтом символа должно идти count байт продолжения, иначе можно выйти за конец строки
+static int isTail(const char* str, int count) {
+     for (int i = 1; i <= count; i++) {
+        if (((unsigned char)str[i] & 0xC0) != 0x80) {
+            return 0;
+        }
+     }
+     return 1;
+}
+
 void fastToLower(char* str) {
      for (int i = 0; str[i] != '\0';) {
         unsigned char byte = str[i];
@@ -15,24 +25,26 @@ void fastToLower(char* str) {
         if (byte <= 0x7F) {
             currentChar = byte; // Один байт (ASCII)
             i++;
-        } else if (byte >= 0xC0 && byte <= 0xDF) {
+        } else if (byte >= 0xC0 && byte <= 0xDF && isTail(str + i, 1)) {
             currentChar = (str[i] & 0x1F) << 6 | (str[i+1] & 0x3F);
             i += 2;
-        } else if (byte >= 0xE0 && byte <= 0xEF) {
+        } else if (byte >= 0xE0 && byte <= 0xEF && isTail(str + i, 2)) {
             currentChar = (str[i] & 0x0F) << 12 | (str[i+1] & 0x3F) << 6 | (str[i+2] & 0x3F);
             i += 3;
-        } else if (byte >= 0xF0 && byte <= 0xF7) {
+        } else if (byte >= 0xF0 && byte <= 0xF7 && isTail(str + i, 3)) {
             currentChar = (str[i] & 0x07) << 18 | (str[i+1] & 0x3F) << 12 | (str[i+2] & 0x3F) << 6 | (str[i+3] & 0x3F);
             i += 4;
+        } else {
+            i++; // некорректный байт UTF-8 оставляем как есть
         }
 
-		if (currentChar >= 'A' && currentChar <= 'Z') {
-			str[i-1] = tolower(str[i]);
-		} else if (currentChar >= 1040 && currentChar <= 1071) { // диапазон А - Я
+		if (byte <= 0x7F && currentChar >= 'A' && currentChar <= 'Z') {
+			str[i-1] = tolower(byte);
+		} else if (byte <= 0xDF && currentChar >= 1040 && currentChar <= 1071) { // диапазон А - Я
 			int codepoint = currentChar + 32;
 	 		str[i-2] = 0xC0 | (codepoint >> 6);   // Старший байт
 			str[i-1] = 0x80 | (codepoint & 0x3F); // Младший байт
-		} else if (currentChar == 1025) { // Ё
+		} else if (byte <= 0xDF && currentChar == 1025) { // Ё
 			str[i-2] = 209;
 			str[i-1] = 145;
 		}
-- 
2.43.0


From 1291c7b35343b06c0f777df5a9a409e0827b29bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:48 +0000
Subject: [PATCH 17/28] verif: scheduling points in the lexer behind the verif
 build tag

---
 ast/ast.go       |  2 ++
 ast/verif_off.go |  6 ++++++
 ast/verif_on.go  | 12 ++++++++++++
 3 files changed, 20 insertions(+)
 create mode 100644 ast/verif_off.go
 create mode 100644 ast/verif_on.go

diff --git a/ast/ast.go b/ast/ast.go
index 1b2e90b..cd8dfbb 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -51,6 +51,7 @@ func (ast *AstNode) JSON() ([]byte, error) {
 }
 
 func (ast *AstNode) Lex(lval *yySymType) int {
+	verifPoint()
 	if len(ast.code) == 0 {
 		return EOF
 	}
@@ -69,6 +70,7 @@ func (ast *AstNode) Lex(lval *yySymType) int {
 }
 
 func (ast *AstNode) SrsCode() string {
+	verifPoint()
 	return ast.code
 }
 
diff --git a/ast/verif_off.go b/ast/verif_off.go
new file mode 100644
index 0000000..b4ce62d
--- /dev/null
+++ b/ast/verif_off.go
@@ -0,0 +1,6 @@
+//go:build !verif
+
+package ast
+
+// verifPoint точка переключения для проверки чередований, вне сборки с тегом verif ничего не делает
+func verifPoint() {}
diff --git a/ast/verif_on.go b/ast/verif_on.go
new file mode 100644
index 0000000..3aa9db8
--- /dev/null
+++ b/ast/verif_on.go
@@ -0,0 +1,12 @@
+//go:build verif
+
+package ast
+
+// VerifPoint вызывается при каждом обращении лексера к исходному тексту и при чтении каждого токена
+var VerifPoint func()
+
+func verifPoint() {
+	if VerifPoint != nil {
+		VerifPoint()
+	}
+}
-- 
2.43.0


From 4e839499c857e7fcaebf2776b7003783637d68ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:37 +0000
Subject: [PATCH 18/28] =?UTF-8?q?fix:=20print=20unary=20minus=20and=20?=
 =?UTF-8?q?=D0=9D=D0=B5=20of=20expression=20statements?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 ast/ast_print.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ast/ast_print.go b/ast/ast_print.go
index b50cd1d..62ceba7 100644
--- a/ast/ast_print.go
+++ b/ast/ast_print.go
@@ -241,7 +241,7 @@ func (p *astPrint) printBodyItem(item Statement, depth int) string {
 	case ContinueStatement:
 		builder.WriteString("Продолжить;")
 	case CallChainStatement:
-		builder.WriteString(p.printCallChainStatement(v))
+		builder.WriteString(p.printVarStatement(v))
 		builder.WriteString(";")
 	case TryStatement:
 		builder.WriteString(p.printTryStatement(v, depth))
@@ -268,7 +268,7 @@ func (p *astPrint) printBodyItem(item Statement, depth int) string {
 		builder.WriteString(p.printGoTo(v, depth))
 		builder.WriteString(p.newLine(1))
 	default:
-		builder.WriteString(p.printVarStatement(v))
+		builder.WriteString(p.printExpression(v, 0))
 		builder.WriteString(";")
 	}
 
-- 
2.43.0


From 76f3443975b27d312f78207f44683a8fe6b34159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:08 +0000
Subject: [PATCH 19/28] fix: printing with a negative margin panicked

---
 ast/ast_print.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ast/ast_print.go b/ast/ast_print.go
index 62ceba7..96a0d85 100644
--- a/ast/ast_print.go
+++ b/ast/ast_print.go
@@ -27,6 +27,7 @@ func (ast *AstNode) Print(conf PrintConf) string {
 		return ""
 	}
 
+	conf.Margin = max(conf.Margin, 0) // отрицательных отступов не бывает
 	p := &astPrint{conf: conf, ast: ast}
 	return p.print()
 }
@@ -44,6 +45,7 @@ func (ast *AstNode) PrintStatementWithConf(stat Statement, conf PrintConf) strin
 		return ""
 	}
 
+	conf.Margin = max(conf.Margin, 0) // отрицательных отступов не бывает
 	p := &astPrint{conf: conf}
 	return p.printBodyItem(stat, 0)
 }
-- 
2.43.0


From d1c83c9e0bb3653f5dac14a9b0d44aecb6f05f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:30 +0000
Subject: [PATCH 20/28] fix: a long run of comment or # lines overflowed the
 stack

---
 ast/tokens.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/ast/tokens.go b/ast/tokens.go
index e890eba..0ef40dd 100644
--- a/ast/tokens.go
+++ b/ast/tokens.go
@@ -319,12 +319,7 @@ func (t *Token) skipComment() {
 		return
 	}
 
-	// проверяем что на новой строке нет комментария или новой области, если есть, рекурсия
-	if cl := t.currentLet(); cl == '/' {
-		t.skipComment()
-	} else if cl := t.currentLet(); cl == '#' {
-		t.skipRegions()
-	}
+	t.skipLines()
 }
 
 func (t *Token) skipRegions() {
@@ -336,11 +331,16 @@ func (t *Token) skipRegions() {
 		t.skipSpace()
 	}
 
-	// проверяем что на новой строке нет комментария или новой области, если есть, рекурсия
-	if cl := t.currentLet(); cl == '/' {
-		t.skipComment()
-	} else if cl := t.currentLet(); cl == '#' {
-		t.skipRegions()
+	t.skipLines()
+}
+
+// skipLines пропускает комментарии и области на следующих строках (без рекурсии, их может быть сколько угодно)
+func (t *Token) skipLines() {
+	for t.currentLet() == '#' || t.currentLet() == '/' && t.nextLet() == '/' {
+		for ch := t.currentLet(); ch != EOL && ch != EOF; ch = t.currentLet() {
+			t.nextPos()
+		}
+		t.skipSpace()
 	}
 }
 
-- 
2.43.0


From 08fe1e1d341346ed6324527056dc0401a7b3fcd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:19 +0000
Subject: [PATCH 21/28] =?UTF-8?q?fix:=20a=20long=20list=20of=20=D0=98?=
 =?UTF-8?q?=D0=BD=D0=B0=D1=87=D0=B5=D0=95=D1=81=D0=BB=D0=B8=20branches=20t?=
 =?UTF-8?q?ook=20quadratic=20time?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 ast/ast.go    | 7 +++++++
 ast/grammar.y | 6 +++---
 ast/y.go      | 6 +++---
 3 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/ast/ast.go b/ast/ast.go
index cd8dfbb..5f26a6b 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -8,6 +8,7 @@ import (
 	"fmt"
 	"github.com/pkg/errors"
 	"reflect"
+	"slices"
 	"strings"
 	"sync/atomic"
 )
@@ -131,6 +132,12 @@ func setTryFlag(flag bool, yylex yyLexer) {
 	}
 }
 
+// reverse правило разбирает ветки ИначеЕсли начиная с последней
+func reverse(list Statements) Statements {
+	slices.Reverse(list)
+	return list
+}
+
 func createFunctionOrProcedure(Type StatementType, directive Statement, name string, params []ParamStatement, export Statement, variables map[string]VarStatement, body Statements) *FunctionOrProcedure {
 	result := &FunctionOrProcedure{
 		Type:              Type,
diff --git a/ast/grammar.y b/ast/grammar.y
index 56d79f8..16ba18e 100644
--- a/ast/grammar.y
+++ b/ast/grammar.y
@@ -195,7 +195,7 @@ stmt_if : If expr Then opt_body opt_elseif_list opt_else EndIf {
     $$ = &IfStatement {
         Expression: $2,
         TrueBlock:  $4,
-        IfElseBlock: $5,
+        IfElseBlock: reverse($5),
         ElseBlock: $6,
     }
 };
@@ -203,10 +203,10 @@ stmt_if : If expr Then opt_body opt_elseif_list opt_else EndIf {
 /* ИначеЕсли */
 opt_elseif_list : { $$ = Statements{} }
         | ElseIf expr Then opt_body opt_elseif_list {
-             $$ = append(Statements{ &IfStatement{
+             $$ = append($5, &IfStatement{
                 Expression: $2,
                 TrueBlock:  $4,
-            }}, $5...)
+            })
         };
 
 /* Иначе */
diff --git a/ast/y.go b/ast/y.go
index edf6137..23f9733 100644
--- a/ast/y.go
+++ b/ast/y.go
@@ -913,7 +913,7 @@ yydefault:
 			yyVAL.stmt_if = &IfStatement{
 				Expression:  yyDollar[2].stmt,
 				TrueBlock:   yyDollar[4].opt_body,
-				IfElseBlock: yyDollar[5].opt_elseif_list,
+				IfElseBlock: reverse(yyDollar[5].opt_elseif_list),
 				ElseBlock:   yyDollar[6].opt_else,
 			}
 		}
@@ -927,10 +927,10 @@ yydefault:
 		yyDollar = yyS[yypt-5 : yypt+1]
 //line .\grammar.y:205
 		{
-			yyVAL.opt_elseif_list = append(Statements{&IfStatement{
+			yyVAL.opt_elseif_list = append(yyDollar[5].opt_elseif_list, &IfStatement{
 				Expression: yyDollar[2].stmt,
 				TrueBlock:  yyDollar[4].opt_body,
-			}}, yyDollar[5].opt_elseif_list...)
+			})
 		}
 	case 31:
 		yyDollar = yyS[yypt-0 : yypt+1]
-- 
2.43.0


From 0b1243b6f40e2495e70db5b3506bfefa439360b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:05 +0000
Subject: [PATCH 22/28] fix: print an operation held by value and a list held
 by pointer instead of recursing without end

---
 ast/ast_print.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ast/ast_print.go b/ast/ast_print.go
index 96a0d85..55be7b7 100644
--- a/ast/ast_print.go
+++ b/ast/ast_print.go
@@ -342,6 +342,10 @@ func (p *astPrint) printExpression(expr Statement, level int) string {
 	builder := &strings.Builder{}
 
 	switch v := expr.(type) {
+	case *ExprStatements:
+		return p.printExpression(*v, level)
+	case ExpStatement:
+		return p.printExpression(&v, level)
 	case ExprStatements:
 		if v.not {
 			builder.WriteString("Не ")
-- 
2.43.0


From 56d8223bc63e04ecdc8517a55a2af7524ccecd06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:06 +0000
Subject: [PATCH 23/28] fix: print several expressions in brackets as a list

---
 ast/ast_print.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ast/ast_print.go b/ast/ast_print.go
index 55be7b7..42d1f46 100644
--- a/ast/ast_print.go
+++ b/ast/ast_print.go
@@ -353,10 +353,18 @@ func (p *astPrint) printExpression(expr Statement, level int) string {
 		if v.unaryMinus {
 			builder.WriteString("-")
 		}
-		if v.not || v.unaryMinus {
+		// несколько выражений (или ни одного) без скобок не читаются
+		list := len(v.Statements) > 1 || len(v.Statements) == 1 && v.Statements[0] == nil
+		if v.not || v.unaryMinus || list {
 			builder.WriteString("(")
 		}
 
+		if list {
+			builder.WriteString(p.printParams(v.Statements))
+			builder.WriteString(")")
+			break
+		}
+
 		for _, s := range v.Statements {
 			// (Не а) = б без скобок читается как Не (а = б)
 			if _, isExp := s.(*ExpStatement); level > 0 && isNegated(s) && !isExp {
-- 
2.43.0


From ff9f55417fd1e908cc352fb05ca84e5948a625a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:07 +0000
Subject: [PATCH 24/28] fix: print labels and jumps used as values

---
 ast/ast_print.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ast/ast_print.go b/ast/ast_print.go
index 42d1f46..ce11711 100644
--- a/ast/ast_print.go
+++ b/ast/ast_print.go
@@ -176,6 +176,10 @@ func (p *astPrint) printVarStatement(v Statement) string {
 		return not + p.printCallChainStatement(val)
 	case UndefinedStatement:
 		return "Неопределено"
+	case *GoToLabelStatement:
+		return "~" + val.Name
+	case GoToStatement:
+		return "Перейти ~" + val.Label.Name
 	case MethodStatement:
 		not := IF[string](val.not, "Не ", "")
 		return not + val.Name + "(" + p.printParams(val.Param.Statements) + ")"
-- 
2.43.0


From 24c4038b4064b727d6fc32d1dd98d706eb9fef7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:07 +0000
Subject: [PATCH 25/28] fix: keep the brackets of a comparison that stands as a
 statement

---
 ast/ast_print.go | 44 ++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 42 insertions(+), 2 deletions(-)

diff --git a/ast/ast_print.go b/ast/ast_print.go
index ce11711..344a528 100644
--- a/ast/ast_print.go
+++ b/ast/ast_print.go
@@ -68,7 +68,7 @@ func (p *astPrint) print() string {
 			builder.WriteString(p.newLine(3))
 		} else {
 			builder.WriteString(p.newLine(1))
-			builder.WriteString(p.printBodyItem(node, 0))
+			builder.WriteString(p.printBlockItem(node, 0))
 		}
 	}
 
@@ -214,7 +214,7 @@ func (p *astPrint) printBody(items Statements, depth int) string {
 
 	for _, item := range items {
 		builder.WriteString(p.newLine(1))
-		builder.WriteString(p.printBodyItem(item, depth))
+		builder.WriteString(p.printBlockItem(item, depth))
 	}
 
 	builder.WriteString(p.newLine(1))
@@ -222,6 +222,20 @@ func (p *astPrint) printBody(items Statements, depth int) string {
 	return builder.String()
 }
 
+// printBlockItem печатает оператор блока
+func (p *astPrint) printBlockItem(item Statement, depth int) string {
+	switch v := single(item).(type) {
+	case *ExpStatement:
+		if readsAsAssignment(v) {
+			return strings.Repeat(" ", p.conf.Margin*depth) + "(" + p.printExpression(v, 0) + ");"
+		}
+	case GoToStatement, *GoToLabelStatement: // (~м)
+		return p.printBodyItem(v, depth)
+	}
+
+	return p.printBodyItem(item, depth)
+}
+
 func (p *astPrint) printBodyItem(item Statement, depth int) string {
 	builder := &strings.Builder{}
 
@@ -281,6 +295,32 @@ func (p *astPrint) printBodyItem(item Statement, depth int) string {
 	return builder.String()
 }
 
+// single выражение, которое стоит в скобках одно
+func single(stat Statement) Statement {
+	for {
+		v, ok := stat.(ExprStatements)
+		if !ok || len(v.Statements) != 1 || v.not || v.unaryMinus {
+			return stat
+		}
+		stat = v.Statements[0]
+	}
+}
+
+// readsAsAssignment сравнение (а = б), которое отдельным оператором без скобок читается как присваивание
+func readsAsAssignment(e *ExpStatement) bool {
+	if e.Operation != OpEq || e.not || e.unaryMinus {
+		return false
+	}
+
+	switch left := single(e.Left).(type) {
+	case VarStatement, CallChainStatement, MethodStatement:
+		return !isNegated(left) && !isNegative(left)
+	case ItemStatement:
+		return true
+	}
+	return false
+}
+
 func (p *astPrint) printIfStatement(expr *IfStatement, depth int) string {
 	builder := &strings.Builder{}
 
-- 
2.43.0


From 0874b364dd5ed94af5cf59ee1ced5a26433433a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:55 +0000
Subject: [PATCH 26/28] fix: a second Parse of the same object added to the
 tree and the error of the first

---
 ast/ast.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ast/ast.go b/ast/ast.go
index 5f26a6b..6a9f5ca 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -36,6 +36,11 @@ func NewAST(code string) *AstNode {
 }
 
 func (ast *AstNode) Parse() error {
+	ast.err, ast.currentToken, ast.isFunction = nil, Token{}, false
+	ast.isLoop.Store(0)
+	ast.isTry.Store(0)
+	ast.GlobalVariables, ast.Body = nil, nil
+
 	if len(strings.TrimSpace(ast.code)) == 0 {
 		return nil
 	}
-- 
2.43.0


From ca43447148974b559959674080fb9602e79f1592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:30 +0000
Subject: [PATCH 27/28] fix: the scanner wrote to standard output at every look
 at an undecodable character

---
 ast/tokens.go | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/ast/tokens.go b/ast/tokens.go
index 0ef40dd..0c5746a 100644
--- a/ast/tokens.go
+++ b/ast/tokens.go
@@ -361,11 +361,6 @@ func (t *Token) currentLet() rune {
 	}
 
 	char, _ := utf8.DecodeRuneInString(srsCode[t.offset:])
-	if char == utf8.RuneError {
-		fmt.Println(fmt.Errorf("error decoding the character"))
-		return char
-	}
-
 	return char
 }
 
-- 
2.43.0


From 639d4c689b0f95f168d6f7631564cbbd00cfc050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:50 +0000
Subject: [PATCH 28/28] fix: a parameter default with unary plus was printed
 without the plus and could not be read back

---
 ast/ast_print.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/ast/ast_print.go b/ast/ast_print.go
index 344a528..f62b936 100644
--- a/ast/ast_print.go
+++ b/ast/ast_print.go
@@ -118,7 +118,7 @@ func (p *astPrint) printFunctionOrProcedure(pf *FunctionOrProcedure) (result str
 			val = "Знач "
 		}
 
-		if asText := p.printExpression(param.Default, 0); asText != "" {
+		if asText := p.printDefault(param.Default); asText != "" {
 			def = " = " + asText
 		}
 
@@ -465,6 +465,27 @@ func (p *astPrint) printExpression(expr Statement, level int) string {
 	return builder.String()
 }
 
+// printDefault значение параметра по умолчанию: литерал или выражение со знаком, без знака выражение не читается
+func (p *astPrint) printDefault(value Statement) string {
+	expr := value
+	for {
+		v, ok := expr.(ExprStatements)
+		if !ok || v.not || v.unaryMinus || len(v.Statements) != 1 || v.Statements[0] == nil {
+			break
+		}
+		expr = v.Statements[0] // скобки вокруг одного выражения
+	}
+
+	switch expr.(type) {
+	case ExprStatements, *ExpStatement, VarStatement, MethodStatement, CallChainStatement, ItemStatement, TernaryStatement, NewObjectStatement:
+		if asText := p.printExpression(expr, 1); !strings.HasPrefix(asText, "-") {
+			return "+" + asText
+		}
+	}
+
+	return p.printExpression(value, 0)
+}
+
 func (p *astPrint) printCallChainStatement(call Statement) string {
 	switch v := call.(type) {
 	case CallChainStatement:
-- 
2.43.0

