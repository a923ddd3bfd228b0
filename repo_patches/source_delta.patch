From ee6d722fa2324ba28c618da362b1d58d17a47538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:46 +0000
Subject: [PATCH 01/43] fix: v6 evaluation: comparing two values of an
 uncomparable type is an error, not a panic

---
 v6/pkg/walkers/semantics/walk.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/v6/pkg/walkers/semantics/walk.go b/v6/pkg/walkers/semantics/walk.go
index b386296..70a482a 100644
--- a/v6/pkg/walkers/semantics/walk.go
+++ b/v6/pkg/walkers/semantics/walk.go
@@ -21,6 +21,7 @@ package semantics
 
 import (
 	"fmt"
+	"reflect"
 
 	"github.com/yaacov/tree-search-language/v6/pkg/tsl"
 )
@@ -207,6 +208,10 @@ func evaluateEquality(leftVal, rightVal interface{}) (bool, error) {
 			return leftStringValue == rightStringValue, nil
 		}
 	}
+	// Values of one uncomparable type (e.g. maps) have no equality, comparing them would panic
+	if reflect.TypeOf(leftVal) == reflect.TypeOf(rightVal) && !reflect.ValueOf(leftVal).Comparable() {
+		return false, tsl.TypeMismatchError{Expected: "comparable values", Got: fmt.Sprintf("%T and %T", leftVal, rightVal)}
+	}
 	// Fallback to Go’s built‑in equality for identical types
 	return leftVal == rightVal, nil
 }
-- 
2.43.0


From d932db15031e72868af960e65b5148953638b161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:46 +0000
Subject: [PATCH 02/43] fix: v6 evaluation: modulus by a fraction below one is
 a division by zero error, not a panic

---
 v6/pkg/walkers/semantics/walk.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/v6/pkg/walkers/semantics/walk.go b/v6/pkg/walkers/semantics/walk.go
index 70a482a..1d0813f 100644
--- a/v6/pkg/walkers/semantics/walk.go
+++ b/v6/pkg/walkers/semantics/walk.go
@@ -242,7 +242,12 @@ func evaluateMathExpression(operator tsl.Operator, leftVal, rightVal interface{}
 		if rightNum == 0 {
 			return nil, tsl.DivisionByZeroError{Operation: "modulus"}
 		}
-		return float64(int64(leftNum) % int64(rightNum)), nil
+		divisor := int64(rightNum)
+		if divisor == 0 {
+			// The modulus is taken on the integer parts: 0 < |divisor| < 1 is zero too
+			return nil, tsl.DivisionByZeroError{Operation: "modulus"}
+		}
+		return float64(int64(leftNum) % divisor), nil
 	default:
 		return nil, tsl.UnexpectedOperatorError{Operator: operator}
 	}
-- 
2.43.0


From 40071400c9c1a88fa75dff603e91007acbb64944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:46 +0000
Subject: [PATCH 03/43] fix: v6 evaluation: a short date literal has the value
 of a date in in and between

---
 v6/pkg/walkers/semantics/walk.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/v6/pkg/walkers/semantics/walk.go b/v6/pkg/walkers/semantics/walk.go
index 1d0813f..835091d 100644
--- a/v6/pkg/walkers/semantics/walk.go
+++ b/v6/pkg/walkers/semantics/walk.go
@@ -87,6 +87,13 @@ func Walk(n *tsl.TSLNode, eval EvalFunc) (interface{}, error) {
 	case tsl.KindNullLiteral:
 		// null literal should be handled by the is expression
 		return nil, nil
+	case tsl.KindDateLiteral, tsl.KindTimestampLiteral:
+		// short dates (YYYY-MM-DD) denote an instant too
+		value := n.Value()
+		if date, ok := toDate(value); ok {
+			return date, nil
+		}
+		return value, nil
 	default:
 		return n.Value(), nil
 	}
-- 
2.43.0


From 28d9c6ba63abd267b4c1396abc43b30b1c77af71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:38 +0000
Subject: [PATCH 04/43] fix: v6: a detached operand reads as nil and the
 walkers survive it

---
 v6/pkg/tsl/tsl.go               | 16 ++++++++++++----
 v6/pkg/walkers/graphviz/walk.go |  5 +++++
 v6/pkg/walkers/ident/walk.go    |  6 +++---
 v6/pkg/walkers/sql/walk.go      |  8 ++++++++
 4 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/v6/pkg/tsl/tsl.go b/v6/pkg/tsl/tsl.go
index 69e1008..d69e2e9 100644
--- a/v6/pkg/tsl/tsl.go
+++ b/v6/pkg/tsl/tsl.go
@@ -43,6 +43,14 @@ type TSLArrayLiteral struct {
 	Values []*TSLNode
 }
 
+// newNode wraps a C node, a missing node is nil
+func newNode(cNode *C.ast_node) *TSLNode {
+	if cNode == nil {
+		return nil
+	}
+	return &TSLNode{cNode: cNode}
+}
+
 // ParseTSL parses a TSL expression and returns the AST root node
 func ParseTSL(input string) (*TSLNode, error) {
 	cInput := C.CString(input)
@@ -112,20 +120,20 @@ func (n *TSLNode) Value() interface{} {
 	case KindBinaryExpr:
 		return TSLExpressionOp{
 			Operator: Operator(C.get_binary_op(n.cNode)),
-			Left:     &TSLNode{cNode: C.get_binary_left(n.cNode)},
-			Right:    &TSLNode{cNode: C.get_binary_right(n.cNode)},
+			Left:     newNode(C.get_binary_left(n.cNode)),
+			Right:    newNode(C.get_binary_right(n.cNode)),
 		}
 	case KindUnaryExpr:
 		return TSLExpressionOp{
 			Operator: Operator(C.get_unary_op(n.cNode)),
 			Left:     nil,
-			Right:    &TSLNode{cNode: C.get_unary_child(n.cNode)},
+			Right:    newNode(C.get_unary_child(n.cNode)),
 		}
 	case KindArrayLiteral:
 		size := int(C.get_array_size(n.cNode))
 		values := make([]*TSLNode, size)
 		for i := 0; i < size; i++ {
-			values[i] = &TSLNode{cNode: C.get_array_element(n.cNode, C.int(i))}
+			values[i] = newNode(C.get_array_element(n.cNode, C.int(i)))
 		}
 		return TSLArrayLiteral{Values: values}
 	case KindNullLiteral:
diff --git a/v6/pkg/walkers/graphviz/walk.go b/v6/pkg/walkers/graphviz/walk.go
index 5ca4f5a..548aa7d 100644
--- a/v6/pkg/walkers/graphviz/walk.go
+++ b/v6/pkg/walkers/graphviz/walk.go
@@ -75,6 +75,11 @@ func handleChildren(in string, children []*tsl.TSLNode) (string, []string, error
 	result := ""
 
 	for _, child := range children {
+		// A detached operand has no vertex
+		if child == nil {
+			continue
+		}
+
 		childID := randStr(4)
 		childrenIDs = append(childrenIDs, childID)
 
diff --git a/v6/pkg/walkers/ident/walk.go b/v6/pkg/walkers/ident/walk.go
index 2b05a3c..c5bc4f5 100644
--- a/v6/pkg/walkers/ident/walk.go
+++ b/v6/pkg/walkers/ident/walk.go
@@ -97,7 +97,7 @@ func walkAndReplace(n *tsl.TSLNode, check func(s string) (string, error)) (*tsl.
 
 		// Process both sides of the binary expression
 		left := op.Left
-		if left.Type() == tsl.KindIdentifier {
+		if left != nil && left.Type() == tsl.KindIdentifier {
 			newNode, err := processIdentifier(left, check)
 			if err != nil {
 				return nil, err
@@ -111,7 +111,7 @@ func walkAndReplace(n *tsl.TSLNode, check func(s string) (string, error)) (*tsl.
 		}
 
 		right := op.Right
-		if right.Type() == tsl.KindIdentifier {
+		if right != nil && right.Type() == tsl.KindIdentifier {
 			newNode, err := processIdentifier(right, check)
 			if err != nil {
 				return nil, err
@@ -131,7 +131,7 @@ func walkAndReplace(n *tsl.TSLNode, check func(s string) (string, error)) (*tsl.
 
 		// Process the operand
 		right := op.Right
-		if right.Type() == tsl.KindIdentifier {
+		if right != nil && right.Type() == tsl.KindIdentifier {
 			newNode, err := processIdentifier(right, check)
 			if err != nil {
 				return nil, err
diff --git a/v6/pkg/walkers/sql/walk.go b/v6/pkg/walkers/sql/walk.go
index 062a796..43161fe 100644
--- a/v6/pkg/walkers/sql/walk.go
+++ b/v6/pkg/walkers/sql/walk.go
@@ -36,6 +36,11 @@ import (
 //
 // Squirrel: https://github.com/Masterminds/squirrel
 func Walk(n *tsl.TSLNode) (s sq.Sqlizer, err error) {
+	if n == nil {
+		// A detached operand
+		return nil, tsl.UnexpectedLiteralError{}
+	}
+
 	switch n.Type() {
 	case tsl.KindIdentifier:
 		s = sq.Expr(n.Value().(string))
@@ -69,6 +74,9 @@ func Walk(n *tsl.TSLNode) (s sq.Sqlizer, err error) {
 
 // Helper function to walk array nodes and return values
 func walkArrayValues(n *tsl.TSLNode) ([]sq.Sqlizer, error) {
+	if n == nil {
+		return nil, tsl.UnexpectedLiteralError{}
+	}
 	if n.Type() != tsl.KindArrayLiteral {
 		return nil, tsl.UnexpectedTypeError{Type: n.Type()}
 	}
-- 
2.43.0


From 3d31f4f704627aa326cb82b7b75b5482a3311131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:05 +0000
Subject: [PATCH 05/43] fix: v6 sql: bind short dates instead of panicking, and
 timestamps as UTC with their fraction

---
 v6/pkg/walkers/sql/walk.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/v6/pkg/walkers/sql/walk.go b/v6/pkg/walkers/sql/walk.go
index 43161fe..3d494fe 100644
--- a/v6/pkg/walkers/sql/walk.go
+++ b/v6/pkg/walkers/sql/walk.go
@@ -47,9 +47,15 @@ func Walk(n *tsl.TSLNode) (s sq.Sqlizer, err error) {
 	case tsl.KindNumericLiteral:
 		s = sq.Expr("?", n.Value().(float64))
 	case tsl.KindDateLiteral, tsl.KindTimestampLiteral:
-		// Format time value using SQL timestamp format
-		t := n.Value().(time.Time)
-		s = sq.Expr("?", t.Format("2006-01-02 15:04:05"))
+		switch v := n.Value().(type) {
+		case time.Time:
+			// Format time value using SQL timestamp format, SQL timestamps
+			// carry no zone
+			s = sq.Expr("?", v.UTC().Format("2006-01-02 15:04:05.999999999"))
+		default:
+			// Short dates (YYYY-MM-DD) are bound as they are
+			s = sq.Expr("?", v)
+		}
 	case tsl.KindStringLiteral:
 		s = sq.Expr("?", n.Value().(string))
 	case tsl.KindBooleanLiteral:
-- 
2.43.0


From c5fb02f01dfd8a66b60ad4e4645048a14c61f372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:37 +0000
Subject: [PATCH 06/43] fix: v6 sql: keep the grouping of comparisons and
 negations used as operands

---
 v6/pkg/walkers/sql/walk.go | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/v6/pkg/walkers/sql/walk.go b/v6/pkg/walkers/sql/walk.go
index 3d494fe..a04db3e 100644
--- a/v6/pkg/walkers/sql/walk.go
+++ b/v6/pkg/walkers/sql/walk.go
@@ -96,6 +96,7 @@ func walkArrayValues(n *tsl.TSLNode) ([]sq.Sqlizer, error) {
 		if err != nil {
 			return nil, err
 		}
+		values[i] = group(node, values[i])
 	}
 
 	return values, nil
@@ -110,6 +111,11 @@ func binaryStep(n *tsl.TSLNode) (s sq.Sqlizer, err error) {
 		return
 	}
 
+	// Keep the grouping of comparisons used as operands
+	if op.Operator != tsl.OpAnd && op.Operator != tsl.OpOr {
+		l = group(op.Left, l)
+	}
+
 	// Handle array operations specially
 	switch op.Operator {
 	case tsl.OpIn:
@@ -135,6 +141,9 @@ func binaryStep(n *tsl.TSLNode) (s sq.Sqlizer, err error) {
 	if err != nil {
 		return
 	}
+	if op.Operator != tsl.OpAnd && op.Operator != tsl.OpOr {
+		r = group(op.Right, r)
+	}
 
 	switch op.Operator {
 	// Arithmetic operators
@@ -209,6 +218,22 @@ func unaryStep(n *tsl.TSLNode) (s sq.Sqlizer, err error) {
 	}
 }
 
+// group wraps the SQL of a comparison or a negation, which binds weaker than the
+// operator it is an operand of, in parentheses
+func group(n *tsl.TSLNode, s sq.Sqlizer) sq.Sqlizer {
+	op, ok := n.Value().(tsl.TSLExpressionOp)
+	if !ok {
+		return s
+	}
+
+	switch op.Operator {
+	case tsl.OpPlus, tsl.OpMinus, tsl.OpStar, tsl.OpSlash, tsl.OpPercent, tsl.OpUMinus, tsl.OpAnd, tsl.OpOr:
+		// Already grouped
+		return s
+	}
+	return sq.Expr("(?)", s)
+}
+
 // Helper to generate SQL placeholders
 func placeholders(n int) string {
 	if n <= 0 {
-- 
2.43.0


From 114564adb54f73f144cb65438b291a3d684ef789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:37 +0000
Subject: [PATCH 07/43] fix: v6 sql: in with an empty list is an error, not
 invalid SQL

---
 v6/pkg/walkers/sql/walk.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/v6/pkg/walkers/sql/walk.go b/v6/pkg/walkers/sql/walk.go
index a04db3e..8c15529 100644
--- a/v6/pkg/walkers/sql/walk.go
+++ b/v6/pkg/walkers/sql/walk.go
@@ -123,6 +123,10 @@ func binaryStep(n *tsl.TSLNode) (s sq.Sqlizer, err error) {
 		if err != nil {
 			return nil, err
 		}
+		if len(values) == 0 {
+			// SQL has no empty list
+			return nil, tsl.UnexpectedTypeError{Type: "empty array"}
+		}
 		return sq.Expr("? IN ("+placeholders(len(values))+")", append([]interface{}{l}, sqlizersToInterface(values)...)...), nil
 
 	case tsl.OpBetween:
-- 
2.43.0


From 415b1baf023c735efca082013c53586548ba6d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:09 +0000
Subject: [PATCH 08/43] fix: v6 evaluation: like patterns match their other
 characters literally, across lines

---
 v6/pkg/walkers/semantics/evaluators.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/v6/pkg/walkers/semantics/evaluators.go b/v6/pkg/walkers/semantics/evaluators.go
index 8641a9f..c37c3a2 100644
--- a/v6/pkg/walkers/semantics/evaluators.go
+++ b/v6/pkg/walkers/semantics/evaluators.go
@@ -176,11 +176,16 @@ func evaluateLikePattern(value interface{}, pattern interface{}) (bool, error) {
 		}
 	}
 
-	// Convert SQL LIKE pattern to regex pattern
-	patternStr = strings.ReplaceAll(patternStr, "%", ".*")
-	patternStr = strings.ReplaceAll(patternStr, "_", ".")
-	matched, _ := regexp.MatchString("^"+patternStr+"$", valueStr)
-	return matched, nil
+	return matchLike("(?s)", valueStr, patternStr)
+}
+
+// matchLike matches a text against a SQL LIKE pattern, using regular expression flags
+func matchLike(flags, value, pattern string) (bool, error) {
+	// Convert SQL LIKE pattern to regex pattern, all but % and _ stand for themselves
+	expr := regexp.QuoteMeta(pattern)
+	expr = strings.ReplaceAll(expr, "%", ".*")
+	expr = strings.ReplaceAll(expr, "_", ".")
+	return regexp.MatchString("^"+flags+expr+"$", value)
 }
 
 // evaluateIlikePattern performs case-insensitive pattern matching with SQL LIKE semantics
@@ -201,7 +206,7 @@ func evaluateIlikePattern(value interface{}, pattern interface{}) (bool, error)
 		}
 	}
 
-	return evaluateLikePattern(strings.ToLower(valueStr), strings.ToLower(patternStr))
+	return matchLike("(?is)", valueStr, patternStr)
 }
 
 // evaluateRegexMatch evaluates if a string matches a regular expression pattern
-- 
2.43.0


From 496b240cc9d51cbcb9d2d00f9a8b93220434142f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:09 +0000
Subject: [PATCH 09/43] fix: v6 ident: release the copy of a tree whose root is
 an identifier

---
 v6/pkg/walkers/ident/walk.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/v6/pkg/walkers/ident/walk.go b/v6/pkg/walkers/ident/walk.go
index c5bc4f5..6dbf88d 100644
--- a/v6/pkg/walkers/ident/walk.go
+++ b/v6/pkg/walkers/ident/walk.go
@@ -71,6 +71,10 @@ func Walk(n *tsl.TSLNode, check func(s string) (string, error)) (*tsl.TSLNode, e
 		return nil, err
 	}
 
+	if newTree != treeCopy {
+		treeCopy.Free() // The root was an identifier and has been replaced
+	}
+
 	return newTree, nil
 }
 
-- 
2.43.0


From dc8dbbef3f896a74aaf66436ad934e6e2fa618b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:11 +0000
Subject: [PATCH 10/43] fix: v6 ident: check and replace the identifiers inside
 arrays and ranges

---
 v6/pkg/tsl/tsl.go            |  8 ++++++++
 v6/pkg/tsl/tsl_ast.c         | 11 +++++++++++
 v6/pkg/tsl/tsl_ast.h         |  1 +
 v6/pkg/walkers/ident/walk.go | 21 +++++++++++++++++++++
 4 files changed, 41 insertions(+)

diff --git a/v6/pkg/tsl/tsl.go b/v6/pkg/tsl/tsl.go
index d69e2e9..e9fc839 100644
--- a/v6/pkg/tsl/tsl.go
+++ b/v6/pkg/tsl/tsl.go
@@ -202,3 +202,11 @@ func (n *TSLNode) AttachChild(child *TSLNode) bool {
 	}
 	return C.ast_attach_unary_child(n.cNode, child.cNode) != 0
 }
+
+// AttachElement safely attaches a child node as an element of an array node
+func (n *TSLNode) AttachElement(index int, child *TSLNode) bool {
+	if n == nil || child == nil || n.Type() != KindArrayLiteral {
+		return false
+	}
+	return C.ast_attach_array_element(n.cNode, C.int(index), child.cNode) != 0
+}
diff --git a/v6/pkg/tsl/tsl_ast.c b/v6/pkg/tsl/tsl_ast.c
index f6226d6..6cd7c56 100644
--- a/v6/pkg/tsl/tsl_ast.c
+++ b/v6/pkg/tsl/tsl_ast.c
@@ -285,3 +285,14 @@ int ast_attach_unary_child(ast_node *node, ast_node *child) {
     node->data.unary.child = child;
     return 1;
 }
+
+int ast_attach_array_element(ast_node *node, int index, ast_node *child) {
+    if (!node || node->type != AST_ARRAY) return 0;
+    if (index < 0 || index >= node->data.array.size) return 0;
+    
+    if (node->data.array.elements[index]) {
+        ast_free(node->data.array.elements[index]);
+    }
+    node->data.array.elements[index] = child;
+    return 1;
+}
diff --git a/v6/pkg/tsl/tsl_ast.h b/v6/pkg/tsl/tsl_ast.h
index 8fae504..3251c43 100644
--- a/v6/pkg/tsl/tsl_ast.h
+++ b/v6/pkg/tsl/tsl_ast.h
@@ -62,6 +62,7 @@ ast_node *ast_detach_unary_child(ast_node *node);
 int ast_attach_binary_left(ast_node *node, ast_node *child);
 int ast_attach_binary_right(ast_node *node, ast_node *child);
 int ast_attach_unary_child(ast_node *node, ast_node *child);
+int ast_attach_array_element(ast_node *node, int index, ast_node *child);
 
 /* AST printing functions */
 void ast_print(const ast_node *node);
diff --git a/v6/pkg/walkers/ident/walk.go b/v6/pkg/walkers/ident/walk.go
index 6dbf88d..d14f74b 100644
--- a/v6/pkg/walkers/ident/walk.go
+++ b/v6/pkg/walkers/ident/walk.go
@@ -150,6 +150,27 @@ func walkAndReplace(n *tsl.TSLNode, check func(s string) (string, error)) (*tsl.
 
 		return n, nil
 
+	case tsl.KindArrayLiteral:
+		array := n.Value().(tsl.TSLArrayLiteral)
+
+		// Process the elements
+		for i, element := range array.Values {
+			if element != nil && element.Type() == tsl.KindIdentifier {
+				newNode, err := processIdentifier(element, check)
+				if err != nil {
+					return nil, err
+				}
+				n.AttachElement(i, newNode)
+			} else {
+				_, err := walkAndReplace(element, check)
+				if err != nil {
+					return nil, err
+				}
+			}
+		}
+
+		return n, nil
+
 	case tsl.KindIdentifier:
 		return processIdentifier(n, check)
 
-- 
2.43.0


From 9d17d4fbd6cce396d60a84faa4a07d04ad8c1257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:13 +0000
Subject: [PATCH 11/43] fix: v6 parser: parse under a lock, the C parser keeps
 its state in globals

---
 v6/pkg/tsl/tsl.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/v6/pkg/tsl/tsl.go b/v6/pkg/tsl/tsl.go
index e9fc839..98f4e28 100644
--- a/v6/pkg/tsl/tsl.go
+++ b/v6/pkg/tsl/tsl.go
@@ -23,6 +23,7 @@ package tsl
 */
 import "C"
 import (
+	"sync"
 	"time"
 	"unsafe"
 )
@@ -51,11 +52,17 @@ func newNode(cNode *C.ast_node) *TSLNode {
 	return &TSLNode{cNode: cNode}
 }
 
+// parserMutex guards the C parser, which keeps its state in globals
+var parserMutex sync.Mutex
+
 // ParseTSL parses a TSL expression and returns the AST root node
 func ParseTSL(input string) (*TSLNode, error) {
 	cInput := C.CString(input)
 	defer C.free(unsafe.Pointer(cInput))
 
+	parserMutex.Lock()
+	defer parserMutex.Unlock()
+
 	cNode := C.parse_input_string(cInput)
 	if cNode == nil {
 		errStr := C.GoString(C.get_error_string())
-- 
2.43.0


From e3aab5e5a4f45c3c6c1e7b6dceedfd2c795752bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:44 +0000
Subject: [PATCH 12/43] fix: v6 graphviz: draw null literals, and report
 unknown nodes

---
 v6/pkg/walkers/graphviz/walk.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/v6/pkg/walkers/graphviz/walk.go b/v6/pkg/walkers/graphviz/walk.go
index 548aa7d..973ede7 100644
--- a/v6/pkg/walkers/graphviz/walk.go
+++ b/v6/pkg/walkers/graphviz/walk.go
@@ -35,6 +35,7 @@ const stringStyle = baseRecordStyle + " color=blue"
 const booleanStyle = baseRecordStyle + " color=purple"
 const dateStyle = baseRecordStyle + " color=orange"
 const timestampStyle = baseRecordStyle + " color=orange"
+const nullStyle = baseRecordStyle + " color=gray"
 const opStyle = baseBoxStyle + " color=black"
 const arrayStyle = baseBoxStyle + " color=green"
 
@@ -128,6 +129,8 @@ func Walk(in string, n *tsl.TSLNode, nodeID string) (out string, err error) {
 		out = formatLeafNodeWithInput(in, nodeID, dateStyle, n.Type(), n.Value())
 	case tsl.KindTimestampLiteral:
 		out = formatLeafNodeWithInput(in, nodeID, timestampStyle, n.Type(), n.Value())
+	case tsl.KindNullLiteral:
+		out = formatLeafNodeWithInput(in, nodeID, nullStyle, n.Type(), n.Value())
 	case tsl.KindBinaryExpr:
 		expr := n.Value().(tsl.TSLExpressionOp)
 		st := formatOperatorNode(nodeID, expr.Operator.String())
@@ -162,6 +165,9 @@ func Walk(in string, n *tsl.TSLNode, nodeID string) (out string, err error) {
 		}
 
 		return fmt.Sprintf("%s%s%s\n%s -> { %s }", in, st, childrenStr, nodeID, strings.Join(childrenIDs, ", ")), nil
+
+	default:
+		err = tsl.UnexpectedLiteralError{Literal: n.Type()}
 	}
 
 	return
-- 
2.43.0


From e4920345800d06569d1647aae68b19ee7cf0b75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:45 +0000
Subject: [PATCH 13/43] fix: v6 graphviz: give every vertex an ID of its own,
 and do not repeat the input for each child

---
 v6/pkg/walkers/graphviz/walk.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/v6/pkg/walkers/graphviz/walk.go b/v6/pkg/walkers/graphviz/walk.go
index 973ede7..fa01496 100644
--- a/v6/pkg/walkers/graphviz/walk.go
+++ b/v6/pkg/walkers/graphviz/walk.go
@@ -71,20 +71,21 @@ func formatOperatorNode(nodeID string, operator string) string {
 }
 
 // handleChildren processes child nodes and returns their formatted string and IDs
-func handleChildren(in string, children []*tsl.TSLNode) (string, []string, error) {
+func handleChildren(nodeID string, children []*tsl.TSLNode) (string, []string, error) {
 	childrenIDs := []string{}
 	result := ""
 
-	for _, child := range children {
+	for i, child := range children {
 		// A detached operand has no vertex
 		if child == nil {
 			continue
 		}
 
-		childID := randStr(4)
+		// The path from the root is a unique ID
+		childID := fmt.Sprintf("%s_%d", nodeID, i)
 		childrenIDs = append(childrenIDs, childID)
 
-		r, err := Walk(in, child, childID)
+		r, err := Walk("", child, childID)
 		if err != nil {
 			return "", nil, err
 		}
@@ -135,7 +136,7 @@ func Walk(in string, n *tsl.TSLNode, nodeID string) (out string, err error) {
 		expr := n.Value().(tsl.TSLExpressionOp)
 		st := formatOperatorNode(nodeID, expr.Operator.String())
 
-		childrenStr, childrenIDs, err := handleChildren(in, []*tsl.TSLNode{expr.Left, expr.Right})
+		childrenStr, childrenIDs, err := handleChildren(nodeID, []*tsl.TSLNode{expr.Left, expr.Right})
 		if err != nil {
 			return "", err
 		}
@@ -146,7 +147,7 @@ func Walk(in string, n *tsl.TSLNode, nodeID string) (out string, err error) {
 		expr := n.Value().(tsl.TSLExpressionOp)
 		st := formatOperatorNode(nodeID, expr.Operator.String())
 
-		childrenStr, childrenIDs, err := handleChildren(in, []*tsl.TSLNode{expr.Right})
+		childrenStr, childrenIDs, err := handleChildren(nodeID, []*tsl.TSLNode{expr.Right})
 		if err != nil {
 			return "", err
 		}
@@ -159,7 +160,7 @@ func Walk(in string, n *tsl.TSLNode, nodeID string) (out string, err error) {
 		// Use arrayStyle instead of opStyle for arrays
 		st = strings.Replace(st, opStyle, arrayStyle, 1)
 
-		childrenStr, childrenIDs, err := handleChildren(in, array.Values)
+		childrenStr, childrenIDs, err := handleChildren(nodeID, array.Values)
 		if err != nil {
 			return "", err
 		}
-- 
2.43.0


From d835148f12652958b1f0cdcb859dce5af293dfa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:46 +0000
Subject: [PATCH 14/43] fix: v6 graphviz: escape the values in labels

---
 v6/pkg/walkers/graphviz/walk.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/v6/pkg/walkers/graphviz/walk.go b/v6/pkg/walkers/graphviz/walk.go
index fa01496..06e648d 100644
--- a/v6/pkg/walkers/graphviz/walk.go
+++ b/v6/pkg/walkers/graphviz/walk.go
@@ -39,6 +39,10 @@ const nullStyle = baseRecordStyle + " color=gray"
 const opStyle = baseBoxStyle + " color=black"
 const arrayStyle = baseBoxStyle + " color=green"
 
+// Characters with a meaning in record labels
+var labelEscaper = strings.NewReplacer(
+	"\\", "\\\\", "\"", "\\\"", "\n", "\\n", "{", "\\{", "}", "\\}", "|", "\\|", "<", "\\<", ">", "\\>")
+
 // Generate a random string of specified length using only letters
 func randStr(l int) string {
 	const pool = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
@@ -49,6 +53,11 @@ func randStr(l int) string {
 	return string(bytes)
 }
 
+// escapeLabel escapes the characters that have a meaning in record labels
+func escapeLabel(s string) string {
+	return labelEscaper.Replace(s)
+}
+
 // formatLeafNodeWithInput creates a graphviz node string for leaf nodes including input string
 func formatLeafNodeWithInput(in string, nodeID string, style string, nodeType tsl.Kind, value interface{}) string {
 	if in != "" {
@@ -58,7 +67,7 @@ func formatLeafNodeWithInput(in string, nodeID string, style string, nodeType ts
 		nodeID,
 		style,
 		nodeType.String(),
-		value)
+		escapeLabel(fmt.Sprintf("%v", value)))
 	return fmt.Sprintf("%s%s", in, nodeStr)
 }
 
-- 
2.43.0


From 03f462499459da89939b0d220b43e98778fed545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:29 +0000
Subject: [PATCH 15/43] fix: v6 lexer: a quoted string is a date only if all of
 it has the form of one

---
 v6/pkg/parser/tsl_lexer.l |  31 ++++++++-
 v6/pkg/tsl/lex.yy.c       | 143 ++++++++++++++++++++++----------------
 2 files changed, 114 insertions(+), 60 deletions(-)

diff --git a/v6/pkg/parser/tsl_lexer.l b/v6/pkg/parser/tsl_lexer.l
index 8828151..c1652bc 100644
--- a/v6/pkg/parser/tsl_lexer.l
+++ b/v6/pkg/parser/tsl_lexer.l
@@ -16,12 +16,39 @@ extern int error_pos;
     error_pos = yycolumn; \
     yycolumn += yyleng;
 
+/* Match a prefix of s with a template, where 0 stands for any digit.
+   Return the rest of s, or NULL if it does not match */
+static char *match_template(char *s, const char *template) {
+    for (; *template; s++, template++) {
+        if (*template == '0' ? (*s < '0' || *s > '9') : *s != *template) return NULL;
+    }
+    return s;
+}
+
 /* Check if string is a date/time format and return appropriate token */
 int check_date_formats(char *s) {
-    if (strlen(s) == 10 && s[4] == '-' && s[7] == '-') {
+    char *rest = match_template(s, "0000-00-00");
+    if (!rest) return 0;
+    if (*rest == '\0') {
         yylval.str = s;
         return DATE;
-    } else if (strstr(s, "T") && (strstr(s, "Z") || strstr(s, "+"))) {
+    }
+
+    rest = match_template(rest, "T00:00:00");
+    if (!rest) return 0;
+    if (*rest == '.') {
+        rest = match_template(rest, ".0");
+        if (!rest) return 0;
+        while (*rest >= '0' && *rest <= '9') rest++;
+    }
+
+    if (*rest == 'Z') {
+        rest++;
+    } else {
+        char *offset = match_template(rest, "+00:00");
+        rest = offset ? offset : match_template(rest, "-00:00");
+    }
+    if (rest && *rest == '\0') {
         yylval.str = s;
         return RFC3339;
     }
diff --git a/v6/pkg/tsl/lex.yy.c b/v6/pkg/tsl/lex.yy.c
index 7625f96..ae5e64a 100644
--- a/v6/pkg/tsl/lex.yy.c
+++ b/v6/pkg/tsl/lex.yy.c
@@ -1,6 +1,6 @@
-#line 1 "../tsl/lex.yy.c"
+#line 2 "../tsl/lex.yy.c"
 
-#line 3 "../tsl/lex.yy.c"
+#line 4 "../tsl/lex.yy.c"
 
 #define  YY_INT_ALIGNED short int
 
@@ -585,12 +585,39 @@ extern int error_pos;
     error_pos = yycolumn; \
     yycolumn += yyleng;
 
+/* Match a prefix of s with a template, where 0 stands for any digit.
+   Return the rest of s, or NULL if it does not match */
+static char *match_template(char *s, const char *template) {
+    for (; *template; s++, template++) {
+        if (*template == '0' ? (*s < '0' || *s > '9') : *s != *template) return NULL;
+    }
+    return s;
+}
+
 /* Check if string is a date/time format and return appropriate token */
 int check_date_formats(char *s) {
-    if (strlen(s) == 10 && s[4] == '-' && s[7] == '-') {
+    char *rest = match_template(s, "0000-00-00");
+    if (!rest) return 0;
+    if (*rest == '\0') {
         yylval.str = s;
         return DATE;
-    } else if (strstr(s, "T") && (strstr(s, "Z") || strstr(s, "+"))) {
+    }
+
+    rest = match_template(rest, "T00:00:00");
+    if (!rest) return 0;
+    if (*rest == '.') {
+        rest = match_template(rest, ".0");
+        if (!rest) return 0;
+        while (*rest >= '0' && *rest <= '9') rest++;
+    }
+
+    if (*rest == 'Z') {
+        rest++;
+    } else {
+        char *offset = match_template(rest, "+00:00");
+        rest = offset ? offset : match_template(rest, "-00:00");
+    }
+    if (rest && *rest == '\0') {
         yylval.str = s;
         return RFC3339;
     }
@@ -636,13 +663,13 @@ char* strip_quotes(char* text, int offset) {
     free(raw);
     return processed;
 }
-#line 639 "../tsl/lex.yy.c"
+#line 667 "../tsl/lex.yy.c"
 /* Basic building blocks */
 /* Date and time components */
 /* Identifier patterns */
 /* Numeric patterns */
 #define YY_NO_INPUT 1
-#line 645 "../tsl/lex.yy.c"
+#line 673 "../tsl/lex.yy.c"
 
 #define INITIAL 0
 
@@ -857,12 +884,12 @@ YY_DECL
 		}
 
 	{
-#line 108 "tsl_lexer.l"
+#line 135 "tsl_lexer.l"
 
 
-#line 111 "tsl_lexer.l"
+#line 138 "tsl_lexer.l"
     /* Keywords (case-insensitive) */
-#line 865 "../tsl/lex.yy.c"
+#line 893 "../tsl/lex.yy.c"
 
 	while ( /*CONSTCOND*/1 )		/* loops until end-of-file is reached */
 		{
@@ -921,157 +948,157 @@ do_action:	/* This label is used only to access EOF actions. */
 
 case 1:
 YY_RULE_SETUP
-#line 112 "tsl_lexer.l"
+#line 139 "tsl_lexer.l"
 { return K_LIKE; }
 	YY_BREAK
 case 2:
 YY_RULE_SETUP
-#line 113 "tsl_lexer.l"
+#line 140 "tsl_lexer.l"
 { return K_ILIKE; }
 	YY_BREAK
 case 3:
 YY_RULE_SETUP
-#line 114 "tsl_lexer.l"
+#line 141 "tsl_lexer.l"
 { return K_AND; }
 	YY_BREAK
 case 4:
 YY_RULE_SETUP
-#line 115 "tsl_lexer.l"
+#line 142 "tsl_lexer.l"
 { return K_OR; }
 	YY_BREAK
 case 5:
 YY_RULE_SETUP
-#line 116 "tsl_lexer.l"
+#line 143 "tsl_lexer.l"
 { return K_BETWEEN; }
 	YY_BREAK
 case 6:
 YY_RULE_SETUP
-#line 117 "tsl_lexer.l"
+#line 144 "tsl_lexer.l"
 { return K_IN; }
 	YY_BREAK
 case 7:
 YY_RULE_SETUP
-#line 118 "tsl_lexer.l"
+#line 145 "tsl_lexer.l"
 { return K_IS; }
 	YY_BREAK
 case 8:
 YY_RULE_SETUP
-#line 119 "tsl_lexer.l"
+#line 146 "tsl_lexer.l"
 { return K_NULL; }
 	YY_BREAK
 case 9:
 YY_RULE_SETUP
-#line 120 "tsl_lexer.l"
+#line 147 "tsl_lexer.l"
 { return K_NOT; }
 	YY_BREAK
 case 10:
 YY_RULE_SETUP
-#line 121 "tsl_lexer.l"
+#line 148 "tsl_lexer.l"
 { return K_TRUE; }
 	YY_BREAK
 case 11:
 YY_RULE_SETUP
-#line 122 "tsl_lexer.l"
+#line 149 "tsl_lexer.l"
 { return K_FALSE; }
 	YY_BREAK
 case 12:
 YY_RULE_SETUP
-#line 123 "tsl_lexer.l"
+#line 150 "tsl_lexer.l"
 { return K_LEN; }
 	YY_BREAK
 case 13:
 YY_RULE_SETUP
-#line 124 "tsl_lexer.l"
+#line 151 "tsl_lexer.l"
 { return K_ANY; }
 	YY_BREAK
 case 14:
 YY_RULE_SETUP
-#line 125 "tsl_lexer.l"
+#line 152 "tsl_lexer.l"
 { return K_ALL; }
 	YY_BREAK
 case 15:
 YY_RULE_SETUP
-#line 126 "tsl_lexer.l"
+#line 153 "tsl_lexer.l"
 { return K_SUM; }
 	YY_BREAK
 /* Comparison operators */
 case 16:
 YY_RULE_SETUP
-#line 129 "tsl_lexer.l"
+#line 156 "tsl_lexer.l"
 { return LE; }
 	YY_BREAK
 case 17:
 YY_RULE_SETUP
-#line 130 "tsl_lexer.l"
+#line 157 "tsl_lexer.l"
 { return LT; }
 	YY_BREAK
 case 18:
 YY_RULE_SETUP
-#line 131 "tsl_lexer.l"
+#line 158 "tsl_lexer.l"
 { return GE; }
 	YY_BREAK
 case 19:
 YY_RULE_SETUP
-#line 132 "tsl_lexer.l"
+#line 159 "tsl_lexer.l"
 { return GT; }
 	YY_BREAK
 case 20:
 YY_RULE_SETUP
-#line 133 "tsl_lexer.l"
+#line 160 "tsl_lexer.l"
 { return NE; }
 	YY_BREAK
 case 21:
 YY_RULE_SETUP
-#line 134 "tsl_lexer.l"
+#line 161 "tsl_lexer.l"
 { return EQ; }
 	YY_BREAK
 case 22:
 YY_RULE_SETUP
-#line 135 "tsl_lexer.l"
+#line 162 "tsl_lexer.l"
 { return REQ; }
 	YY_BREAK
 case 23:
 YY_RULE_SETUP
-#line 136 "tsl_lexer.l"
+#line 163 "tsl_lexer.l"
 { return RNE; }
 	YY_BREAK
 /* Date and time literals */
 case 24:
 YY_RULE_SETUP
-#line 139 "tsl_lexer.l"
+#line 166 "tsl_lexer.l"
 { yylval.str = strdup(yytext); return RFC3339; }
 	YY_BREAK
 case 25:
 YY_RULE_SETUP
-#line 140 "tsl_lexer.l"
+#line 167 "tsl_lexer.l"
 { yylval.str = strdup(yytext); return DATE; }
 	YY_BREAK
 /* Numeric literals */
 case 26:
 YY_RULE_SETUP
-#line 143 "tsl_lexer.l"
+#line 170 "tsl_lexer.l"
 { yylval.str = strdup(yytext); return NUMERIC_LITERAL; }
 	YY_BREAK
 case 27:
 YY_RULE_SETUP
-#line 144 "tsl_lexer.l"
+#line 171 "tsl_lexer.l"
 { yylval.str = strdup(yytext); return NUMERIC_LITERAL; }
 	YY_BREAK
 case 28:
 YY_RULE_SETUP
-#line 145 "tsl_lexer.l"
+#line 172 "tsl_lexer.l"
 { yylval.str = strdup(yytext); return NUMERIC_LITERAL; }
 	YY_BREAK
 case 29:
 YY_RULE_SETUP
-#line 146 "tsl_lexer.l"
+#line 173 "tsl_lexer.l"
 { yylval.str = strdup(yytext); return NUMERIC_LITERAL; }
 	YY_BREAK
 /* String literals and identifiers */
 case 30:
 /* rule 30 can match eol */
 YY_RULE_SETUP
-#line 149 "tsl_lexer.l"
+#line 176 "tsl_lexer.l"
 {
                             char *s = strip_quotes(yytext, 1);
                             int token = check_date_formats(s);
@@ -1083,7 +1110,7 @@ YY_RULE_SETUP
 case 31:
 /* rule 31 can match eol */
 YY_RULE_SETUP
-#line 157 "tsl_lexer.l"
+#line 184 "tsl_lexer.l"
 {
                             char *s = strip_quotes(yytext, 1);
                             int token = check_date_formats(s);
@@ -1095,7 +1122,7 @@ YY_RULE_SETUP
 case 32:
 /* rule 32 can match eol */
 YY_RULE_SETUP
-#line 165 "tsl_lexer.l"
+#line 192 "tsl_lexer.l"
 {
                             char *s = strip_quotes(yytext, 1);
                             int token = check_date_formats(s);
@@ -1106,77 +1133,77 @@ YY_RULE_SETUP
 	YY_BREAK
 case 33:
 YY_RULE_SETUP
-#line 173 "tsl_lexer.l"
+#line 200 "tsl_lexer.l"
 { yylval.str = strdup(yytext); return IDENTIFIER; }
 	YY_BREAK
 /* Operators and delimiters */
 case 34:
 YY_RULE_SETUP
-#line 176 "tsl_lexer.l"
+#line 203 "tsl_lexer.l"
 { return LPAREN; }
 	YY_BREAK
 case 35:
 YY_RULE_SETUP
-#line 177 "tsl_lexer.l"
+#line 204 "tsl_lexer.l"
 { return RPAREN; }
 	YY_BREAK
 case 36:
 YY_RULE_SETUP
-#line 178 "tsl_lexer.l"
+#line 205 "tsl_lexer.l"
 { return COMMA; }
 	YY_BREAK
 case 37:
 YY_RULE_SETUP
-#line 179 "tsl_lexer.l"
+#line 206 "tsl_lexer.l"
 { return PLUS; }
 	YY_BREAK
 case 38:
 YY_RULE_SETUP
-#line 180 "tsl_lexer.l"
+#line 207 "tsl_lexer.l"
 { return MINUS; }
 	YY_BREAK
 case 39:
 YY_RULE_SETUP
-#line 181 "tsl_lexer.l"
+#line 208 "tsl_lexer.l"
 { return STAR; }
 	YY_BREAK
 case 40:
 YY_RULE_SETUP
-#line 182 "tsl_lexer.l"
+#line 209 "tsl_lexer.l"
 { return SLASH; }
 	YY_BREAK
 case 41:
 YY_RULE_SETUP
-#line 183 "tsl_lexer.l"
+#line 210 "tsl_lexer.l"
 { return PERCENT; }
 	YY_BREAK
 case 42:
 YY_RULE_SETUP
-#line 184 "tsl_lexer.l"
+#line 211 "tsl_lexer.l"
 { return LBRACKET; }
 	YY_BREAK
 case 43:
 YY_RULE_SETUP
-#line 185 "tsl_lexer.l"
+#line 212 "tsl_lexer.l"
 { return RBRACKET; }
 	YY_BREAK
 /* Whitespace handling */
 case 44:
 /* rule 44 can match eol */
 YY_RULE_SETUP
-#line 188 "tsl_lexer.l"
+#line 215 "tsl_lexer.l"
 { yycolumn = 1; /* Reset column on newline */ }
 	YY_BREAK
 case 45:
 /* rule 45 can match eol */
 YY_RULE_SETUP
-#line 189 "tsl_lexer.l"
+#line 216 "tsl_lexer.l"
 { /* Track column for whitespace */ }
 	YY_BREAK
 /* Error handling */
 case 46:
 YY_RULE_SETUP
-#line 192 "tsl_lexer.l"
+#line 219 "tsl_lexer.l"
 { 
                            fprintf(stderr, "Error: Unknown character '%s' at column %d\n", 
                                    yytext, yycolumn); 
@@ -1185,10 +1212,10 @@ YY_RULE_SETUP
 	YY_BREAK
 case 47:
 YY_RULE_SETUP
-#line 198 "tsl_lexer.l"
+#line 225 "tsl_lexer.l"
 ECHO;
 	YY_BREAK
-#line 1191 "../tsl/lex.yy.c"
+#line 1219 "../tsl/lex.yy.c"
 case YY_STATE_EOF(INITIAL):
 	yyterminate();
 
@@ -2156,6 +2183,6 @@ void yyfree (void * ptr )
 
 #define YYTABLES_NAME "yytables"
 
-#line 198 "tsl_lexer.l"
+#line 225 "tsl_lexer.l"
 
 
-- 
2.43.0


From 60454338767c76dd3332473d7b2343dee056afe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:32 +0000
Subject: [PATCH 16/43] fix: v6 lexer: an unknown character is a syntax error,
 not the end of the input

---
 v6/pkg/parser/tsl_lexer.l | 2 +-
 v6/pkg/tsl/lex.yy.c       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/v6/pkg/parser/tsl_lexer.l b/v6/pkg/parser/tsl_lexer.l
index c1652bc..725450f 100644
--- a/v6/pkg/parser/tsl_lexer.l
+++ b/v6/pkg/parser/tsl_lexer.l
@@ -218,7 +218,7 @@ NUMBER_WITH_SUFFIX ({INTEGER}|{DECIMAL}){SIZE_SUFFIX}
 .                         { 
                            fprintf(stderr, "Error: Unknown character '%s' at column %d\n", 
                                    yytext, yycolumn); 
-                           return -1; 
+                           return YYUNDEF; /* a syntax error, -1 would be the end of input */
                           }
 
 %%
diff --git a/v6/pkg/tsl/lex.yy.c b/v6/pkg/tsl/lex.yy.c
index ae5e64a..56e2eaf 100644
--- a/v6/pkg/tsl/lex.yy.c
+++ b/v6/pkg/tsl/lex.yy.c
@@ -1207,7 +1207,7 @@ YY_RULE_SETUP
 { 
                            fprintf(stderr, "Error: Unknown character '%s' at column %d\n", 
                                    yytext, yycolumn); 
-                           return -1; 
+                           return YYUNDEF; /* a syntax error, -1 would be the end of input */
                           }
 	YY_BREAK
 case 47:
-- 
2.43.0


From 4cd40f5f7970385068521ec2d0edbac300264fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:34 +0000
Subject: [PATCH 17/43] fix: v6 parser: the error position is never negative

---
 v6/pkg/parser/tsl_parser.y  | 3 ++-
 v6/pkg/tsl/tsl_parser.tab.c | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/v6/pkg/parser/tsl_parser.y b/v6/pkg/parser/tsl_parser.y
index 401d005..fb1761f 100644
--- a/v6/pkg/parser/tsl_parser.y
+++ b/v6/pkg/parser/tsl_parser.y
@@ -254,7 +254,8 @@ void cleanup_parser_memory(void) {
 
 /* Enhanced error handling function */
 void yyerror(const char *s) {
-    set_error_position(yycolumn - 2);  // Subtract 2 to account for token start
+    int pos = yycolumn - 2;  // Subtract 2 to account for token start
+    set_error_position(pos > 0 ? pos : 0);
     if (error_string) {
         free(error_string);
     }
diff --git a/v6/pkg/tsl/tsl_parser.tab.c b/v6/pkg/tsl/tsl_parser.tab.c
index 116b36e..56aaf2d 100644
--- a/v6/pkg/tsl/tsl_parser.tab.c
+++ b/v6/pkg/tsl/tsl_parser.tab.c
@@ -1779,7 +1779,8 @@ void cleanup_parser_memory(void) {
 
 /* Enhanced error handling function */
 void yyerror(const char *s) {
-    set_error_position(yycolumn - 2);  // Subtract 2 to account for token start
+    int pos = yycolumn - 2;  // Subtract 2 to account for token start
+    set_error_position(pos > 0 ? pos : 0);
     if (error_string) {
         free(error_string);
     }
-- 
2.43.0


From ea1ccc6f989edbff02e0a3430ab17dfb062fc8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:37 +0000
Subject: [PATCH 18/43] fix: v6 parser: release the symbols discarded by a
 syntax error

---
 v6/pkg/parser/tsl_parser.y  |   5 +
 v6/pkg/tsl/tsl_parser.tab.c | 322 ++++++++++++++++++++++++------------
 2 files changed, 222 insertions(+), 105 deletions(-)

diff --git a/v6/pkg/parser/tsl_parser.y b/v6/pkg/parser/tsl_parser.y
index fb1761f..335a79c 100644
--- a/v6/pkg/parser/tsl_parser.y
+++ b/v6/pkg/parser/tsl_parser.y
@@ -64,6 +64,11 @@ char *error_string = NULL;
 %type <node> additive_expr multiplicative_expr not_expr unary_expr
 %type <node> primary array_elements array opt_array_elements
 
+/* Release the values of symbols discarded on errors, the value of input is also in ast_root */
+%destructor { free($$); } <str>
+%destructor { ast_free($$); } <node>
+%destructor { } input
+
 %start input
 
 %%
diff --git a/v6/pkg/tsl/tsl_parser.tab.c b/v6/pkg/tsl/tsl_parser.tab.c
index 56aaf2d..253cb76 100644
--- a/v6/pkg/tsl/tsl_parser.tab.c
+++ b/v6/pkg/tsl/tsl_parser.tab.c
@@ -574,12 +574,12 @@ static const yytype_int8 yytranslate[] =
 /* YYRLINE[YYN] -- Source line where rule number YYN was defined.  */
 static const yytype_uint8 yyrline[] =
 {
-       0,    72,    72,    76,    80,    81,    85,    86,    90,    91,
-      92,    93,    94,    95,    96,    97,    98,    99,   100,   101,
-     105,   109,   110,   114,   122,   131,   132,   139,   140,   141,
-     145,   146,   147,   148,   152,   153,   154,   155,   156,   157,
-     161,   162,   163,   164,   165,   169,   173,   174,   175,   179,
-     185,   199,   200,   201,   202,   203,   204,   205
+       0,    77,    77,    81,    85,    86,    90,    91,    95,    96,
+      97,    98,    99,   100,   101,   102,   103,   104,   105,   106,
+     110,   114,   115,   119,   127,   136,   137,   144,   145,   146,
+     150,   151,   152,   153,   157,   158,   159,   160,   161,   162,
+     166,   167,   168,   169,   170,   174,   178,   179,   180,   184,
+     190,   204,   205,   206,   207,   208,   209,   210
 };
 #endif
 
@@ -943,7 +943,119 @@ yydestruct (const char *yymsg,
   YY_SYMBOL_PRINT (yymsg, yykind, yyvaluep, yylocationp);
 
   YY_IGNORE_MAYBE_UNINITIALIZED_BEGIN
-  YY_USE (yykind);
+  switch (yykind)
+    {
+    case YYSYMBOL_RFC3339: /* RFC3339  */
+#line 68 "tsl_parser.y"
+            { free(((*yyvaluep).str)); }
+#line 952 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_DATE: /* DATE  */
+#line 68 "tsl_parser.y"
+            { free(((*yyvaluep).str)); }
+#line 958 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_NUMERIC_LITERAL: /* NUMERIC_LITERAL  */
+#line 68 "tsl_parser.y"
+            { free(((*yyvaluep).str)); }
+#line 964 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_STRING_LITERAL: /* STRING_LITERAL  */
+#line 68 "tsl_parser.y"
+            { free(((*yyvaluep).str)); }
+#line 970 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_IDENTIFIER: /* IDENTIFIER  */
+#line 68 "tsl_parser.y"
+            { free(((*yyvaluep).str)); }
+#line 976 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_input: /* input  */
+#line 70 "tsl_parser.y"
+            { }
+#line 982 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_expr: /* expr  */
+#line 69 "tsl_parser.y"
+            { ast_free(((*yyvaluep).node)); }
+#line 988 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_or_expr: /* or_expr  */
+#line 69 "tsl_parser.y"
+            { ast_free(((*yyvaluep).node)); }
+#line 994 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_and_expr: /* and_expr  */
+#line 69 "tsl_parser.y"
+            { ast_free(((*yyvaluep).node)); }
+#line 1000 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_comparison_expr: /* comparison_expr  */
+#line 69 "tsl_parser.y"
+            { ast_free(((*yyvaluep).node)); }
+#line 1006 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_additive_expr: /* additive_expr  */
+#line 69 "tsl_parser.y"
+            { ast_free(((*yyvaluep).node)); }
+#line 1012 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_multiplicative_expr: /* multiplicative_expr  */
+#line 69 "tsl_parser.y"
+            { ast_free(((*yyvaluep).node)); }
+#line 1018 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_not_expr: /* not_expr  */
+#line 69 "tsl_parser.y"
+            { ast_free(((*yyvaluep).node)); }
+#line 1024 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_unary_expr: /* unary_expr  */
+#line 69 "tsl_parser.y"
+            { ast_free(((*yyvaluep).node)); }
+#line 1030 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_array: /* array  */
+#line 69 "tsl_parser.y"
+            { ast_free(((*yyvaluep).node)); }
+#line 1036 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_opt_array_elements: /* opt_array_elements  */
+#line 69 "tsl_parser.y"
+            { ast_free(((*yyvaluep).node)); }
+#line 1042 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_array_elements: /* array_elements  */
+#line 69 "tsl_parser.y"
+            { ast_free(((*yyvaluep).node)); }
+#line 1048 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_primary: /* primary  */
+#line 69 "tsl_parser.y"
+            { ast_free(((*yyvaluep).node)); }
+#line 1054 "../tsl/tsl_parser.tab.c"
+        break;
+
+      default:
+        break;
+    }
   YY_IGNORE_MAYBE_UNINITIALIZED_END
 }
 
@@ -1206,118 +1318,118 @@ yyreduce:
   switch (yyn)
     {
   case 2: /* input: expr  */
-#line 72 "tsl_parser.y"
+#line 77 "tsl_parser.y"
          { (yyval.node) = (yyvsp[0].node); ast_root = (yyvsp[0].node); }
-#line 1212 "../tsl/tsl_parser.tab.c"
+#line 1324 "../tsl/tsl_parser.tab.c"
     break;
 
   case 5: /* or_expr: or_expr K_OR and_expr  */
-#line 81 "tsl_parser.y"
+#line 86 "tsl_parser.y"
                                    { (yyval.node) = ast_create_binary(K_OR, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1218 "../tsl/tsl_parser.tab.c"
+#line 1330 "../tsl/tsl_parser.tab.c"
     break;
 
   case 7: /* and_expr: and_expr K_AND comparison_expr  */
-#line 86 "tsl_parser.y"
+#line 91 "tsl_parser.y"
                                           { (yyval.node) = ast_create_binary(K_AND, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1224 "../tsl/tsl_parser.tab.c"
+#line 1336 "../tsl/tsl_parser.tab.c"
     break;
 
   case 9: /* comparison_expr: comparison_expr EQ additive_expr  */
-#line 91 "tsl_parser.y"
+#line 96 "tsl_parser.y"
                                             { (yyval.node) = ast_create_binary(EQ, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1230 "../tsl/tsl_parser.tab.c"
+#line 1342 "../tsl/tsl_parser.tab.c"
     break;
 
   case 10: /* comparison_expr: comparison_expr NE additive_expr  */
-#line 92 "tsl_parser.y"
+#line 97 "tsl_parser.y"
                                             { (yyval.node) = ast_create_binary(NE, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1236 "../tsl/tsl_parser.tab.c"
+#line 1348 "../tsl/tsl_parser.tab.c"
     break;
 
   case 11: /* comparison_expr: comparison_expr LT additive_expr  */
-#line 93 "tsl_parser.y"
+#line 98 "tsl_parser.y"
                                             { (yyval.node) = ast_create_binary(LT, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1242 "../tsl/tsl_parser.tab.c"
+#line 1354 "../tsl/tsl_parser.tab.c"
     break;
 
   case 12: /* comparison_expr: comparison_expr LE additive_expr  */
-#line 94 "tsl_parser.y"
+#line 99 "tsl_parser.y"
                                             { (yyval.node) = ast_create_binary(LE, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1248 "../tsl/tsl_parser.tab.c"
+#line 1360 "../tsl/tsl_parser.tab.c"
     break;
 
   case 13: /* comparison_expr: comparison_expr GT additive_expr  */
-#line 95 "tsl_parser.y"
+#line 100 "tsl_parser.y"
                                             { (yyval.node) = ast_create_binary(GT, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1254 "../tsl/tsl_parser.tab.c"
+#line 1366 "../tsl/tsl_parser.tab.c"
     break;
 
   case 14: /* comparison_expr: comparison_expr GE additive_expr  */
-#line 96 "tsl_parser.y"
+#line 101 "tsl_parser.y"
                                             { (yyval.node) = ast_create_binary(GE, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1260 "../tsl/tsl_parser.tab.c"
+#line 1372 "../tsl/tsl_parser.tab.c"
     break;
 
   case 15: /* comparison_expr: comparison_expr REQ additive_expr  */
-#line 97 "tsl_parser.y"
+#line 102 "tsl_parser.y"
                                             { (yyval.node) = ast_create_binary(REQ, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1266 "../tsl/tsl_parser.tab.c"
+#line 1378 "../tsl/tsl_parser.tab.c"
     break;
 
   case 16: /* comparison_expr: comparison_expr RNE additive_expr  */
-#line 98 "tsl_parser.y"
+#line 103 "tsl_parser.y"
                                             { (yyval.node) = ast_create_binary(RNE, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1272 "../tsl/tsl_parser.tab.c"
+#line 1384 "../tsl/tsl_parser.tab.c"
     break;
 
   case 17: /* comparison_expr: comparison_expr K_LIKE additive_expr  */
-#line 99 "tsl_parser.y"
+#line 104 "tsl_parser.y"
                                             { (yyval.node) = ast_create_binary(K_LIKE, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1278 "../tsl/tsl_parser.tab.c"
+#line 1390 "../tsl/tsl_parser.tab.c"
     break;
 
   case 18: /* comparison_expr: comparison_expr K_ILIKE additive_expr  */
-#line 100 "tsl_parser.y"
+#line 105 "tsl_parser.y"
                                             { (yyval.node) = ast_create_binary(K_ILIKE, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1284 "../tsl/tsl_parser.tab.c"
+#line 1396 "../tsl/tsl_parser.tab.c"
     break;
 
   case 19: /* comparison_expr: comparison_expr K_NOT K_LIKE additive_expr  */
-#line 101 "tsl_parser.y"
+#line 106 "tsl_parser.y"
                                                   { 
         ast_node *like_expr = ast_create_binary(K_LIKE, (yyvsp[-3].node), (yyvsp[0].node));
         (yyval.node) = ast_create_unary(K_NOT, like_expr);
     }
-#line 1293 "../tsl/tsl_parser.tab.c"
+#line 1405 "../tsl/tsl_parser.tab.c"
     break;
 
   case 20: /* comparison_expr: comparison_expr K_NOT K_ILIKE additive_expr  */
-#line 105 "tsl_parser.y"
+#line 110 "tsl_parser.y"
                                                   { 
         ast_node *ilike_expr = ast_create_binary(K_ILIKE, (yyvsp[-3].node), (yyvsp[0].node));
         (yyval.node) = ast_create_unary(K_NOT, ilike_expr);
     }
-#line 1302 "../tsl/tsl_parser.tab.c"
+#line 1414 "../tsl/tsl_parser.tab.c"
     break;
 
   case 21: /* comparison_expr: comparison_expr K_IS K_NULL  */
-#line 109 "tsl_parser.y"
+#line 114 "tsl_parser.y"
                                             { (yyval.node) = ast_create_binary(K_IS, (yyvsp[-2].node), ast_create_null()); }
-#line 1308 "../tsl/tsl_parser.tab.c"
+#line 1420 "../tsl/tsl_parser.tab.c"
     break;
 
   case 22: /* comparison_expr: comparison_expr K_IS K_NOT K_NULL  */
-#line 110 "tsl_parser.y"
+#line 115 "tsl_parser.y"
                                             { 
         ast_node *is_null = ast_create_binary(K_IS, (yyvsp[-3].node), ast_create_null());
         (yyval.node) = ast_create_unary(K_NOT, is_null);
     }
-#line 1317 "../tsl/tsl_parser.tab.c"
+#line 1429 "../tsl/tsl_parser.tab.c"
     break;
 
   case 23: /* comparison_expr: comparison_expr K_BETWEEN additive_expr K_AND additive_expr  */
-#line 114 "tsl_parser.y"
+#line 119 "tsl_parser.y"
                                                                   {
         ast_node **elements = malloc(2 * sizeof(ast_node*));
         elements[0] = (yyvsp[-2].node);
@@ -1326,11 +1438,11 @@ yyreduce:
         (yyval.node) = ast_create_binary(K_BETWEEN, (yyvsp[-4].node), range);
         free(elements);
     }
-#line 1330 "../tsl/tsl_parser.tab.c"
+#line 1442 "../tsl/tsl_parser.tab.c"
     break;
 
   case 24: /* comparison_expr: comparison_expr K_NOT K_BETWEEN additive_expr K_AND additive_expr  */
-#line 122 "tsl_parser.y"
+#line 127 "tsl_parser.y"
                                                                         {
         ast_node **elements = malloc(2 * sizeof(ast_node*));
         elements[0] = (yyvsp[-2].node);
@@ -1340,145 +1452,145 @@ yyreduce:
         (yyval.node) = ast_create_unary(K_NOT, between);
         free(elements);
     }
-#line 1344 "../tsl/tsl_parser.tab.c"
+#line 1456 "../tsl/tsl_parser.tab.c"
     break;
 
   case 25: /* comparison_expr: comparison_expr K_IN additive_expr  */
-#line 131 "tsl_parser.y"
+#line 136 "tsl_parser.y"
                                              { (yyval.node) = ast_create_binary(K_IN, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1350 "../tsl/tsl_parser.tab.c"
+#line 1462 "../tsl/tsl_parser.tab.c"
     break;
 
   case 26: /* comparison_expr: comparison_expr K_NOT K_IN additive_expr  */
-#line 132 "tsl_parser.y"
+#line 137 "tsl_parser.y"
                                                {
         ast_node *in_expr = ast_create_binary(K_IN, (yyvsp[-3].node), (yyvsp[0].node));
         (yyval.node) = ast_create_unary(K_NOT, in_expr);
     }
-#line 1359 "../tsl/tsl_parser.tab.c"
+#line 1471 "../tsl/tsl_parser.tab.c"
     break;
 
   case 28: /* additive_expr: additive_expr PLUS multiplicative_expr  */
-#line 140 "tsl_parser.y"
+#line 145 "tsl_parser.y"
                                                { (yyval.node) = ast_create_binary(PLUS, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1365 "../tsl/tsl_parser.tab.c"
+#line 1477 "../tsl/tsl_parser.tab.c"
     break;
 
   case 29: /* additive_expr: additive_expr MINUS multiplicative_expr  */
-#line 141 "tsl_parser.y"
+#line 146 "tsl_parser.y"
                                                { (yyval.node) = ast_create_binary(MINUS, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1371 "../tsl/tsl_parser.tab.c"
+#line 1483 "../tsl/tsl_parser.tab.c"
     break;
 
   case 31: /* multiplicative_expr: multiplicative_expr STAR not_expr  */
-#line 146 "tsl_parser.y"
+#line 151 "tsl_parser.y"
                                            { (yyval.node) = ast_create_binary(STAR, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1377 "../tsl/tsl_parser.tab.c"
+#line 1489 "../tsl/tsl_parser.tab.c"
     break;
 
   case 32: /* multiplicative_expr: multiplicative_expr SLASH not_expr  */
-#line 147 "tsl_parser.y"
+#line 152 "tsl_parser.y"
                                            { (yyval.node) = ast_create_binary(SLASH, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1383 "../tsl/tsl_parser.tab.c"
+#line 1495 "../tsl/tsl_parser.tab.c"
     break;
 
   case 33: /* multiplicative_expr: multiplicative_expr PERCENT not_expr  */
-#line 148 "tsl_parser.y"
+#line 153 "tsl_parser.y"
                                            { (yyval.node) = ast_create_binary(PERCENT, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1389 "../tsl/tsl_parser.tab.c"
+#line 1501 "../tsl/tsl_parser.tab.c"
     break;
 
   case 35: /* not_expr: K_NOT not_expr  */
-#line 153 "tsl_parser.y"
+#line 158 "tsl_parser.y"
                                    { (yyval.node) = ast_create_unary(K_NOT, (yyvsp[0].node)); }
-#line 1395 "../tsl/tsl_parser.tab.c"
+#line 1507 "../tsl/tsl_parser.tab.c"
     break;
 
   case 36: /* not_expr: K_LEN not_expr  */
-#line 154 "tsl_parser.y"
+#line 159 "tsl_parser.y"
                                    { (yyval.node) = ast_create_unary(K_LEN, (yyvsp[0].node)); }
-#line 1401 "../tsl/tsl_parser.tab.c"
+#line 1513 "../tsl/tsl_parser.tab.c"
     break;
 
   case 37: /* not_expr: K_ANY not_expr  */
-#line 155 "tsl_parser.y"
+#line 160 "tsl_parser.y"
                                    { (yyval.node) = ast_create_unary(K_ANY, (yyvsp[0].node)); }
-#line 1407 "../tsl/tsl_parser.tab.c"
+#line 1519 "../tsl/tsl_parser.tab.c"
     break;
 
   case 38: /* not_expr: K_ALL not_expr  */
-#line 156 "tsl_parser.y"
+#line 161 "tsl_parser.y"
                                    { (yyval.node) = ast_create_unary(K_ALL, (yyvsp[0].node)); }
-#line 1413 "../tsl/tsl_parser.tab.c"
+#line 1525 "../tsl/tsl_parser.tab.c"
     break;
 
   case 39: /* not_expr: K_SUM not_expr  */
-#line 157 "tsl_parser.y"
+#line 162 "tsl_parser.y"
                                    { (yyval.node) = ast_create_unary(K_SUM, (yyvsp[0].node)); }
-#line 1419 "../tsl/tsl_parser.tab.c"
+#line 1531 "../tsl/tsl_parser.tab.c"
     break;
 
   case 41: /* unary_expr: MINUS unary_expr  */
-#line 162 "tsl_parser.y"
+#line 167 "tsl_parser.y"
                                    { (yyval.node) = ast_create_unary(UMINUS, (yyvsp[0].node)); }
-#line 1425 "../tsl/tsl_parser.tab.c"
+#line 1537 "../tsl/tsl_parser.tab.c"
     break;
 
   case 42: /* unary_expr: PLUS unary_expr  */
-#line 163 "tsl_parser.y"
+#line 168 "tsl_parser.y"
                                    { (yyval.node) = (yyvsp[0].node); }
-#line 1431 "../tsl/tsl_parser.tab.c"
+#line 1543 "../tsl/tsl_parser.tab.c"
     break;
 
   case 43: /* unary_expr: LPAREN expr RPAREN  */
-#line 164 "tsl_parser.y"
+#line 169 "tsl_parser.y"
                                    { (yyval.node) = (yyvsp[-1].node); }
-#line 1437 "../tsl/tsl_parser.tab.c"
+#line 1549 "../tsl/tsl_parser.tab.c"
     break;
 
   case 44: /* unary_expr: array  */
-#line 165 "tsl_parser.y"
+#line 170 "tsl_parser.y"
                                    { (yyval.node) = (yyvsp[0].node); }
-#line 1443 "../tsl/tsl_parser.tab.c"
+#line 1555 "../tsl/tsl_parser.tab.c"
     break;
 
   case 45: /* array: LBRACKET opt_array_elements RBRACKET  */
-#line 169 "tsl_parser.y"
+#line 174 "tsl_parser.y"
                                            { (yyval.node) = (yyvsp[-1].node); }
-#line 1449 "../tsl/tsl_parser.tab.c"
+#line 1561 "../tsl/tsl_parser.tab.c"
     break;
 
   case 46: /* opt_array_elements: %empty  */
-#line 173 "tsl_parser.y"
+#line 178 "tsl_parser.y"
                                   { (yyval.node) = ast_create_array(0, NULL); }
-#line 1455 "../tsl/tsl_parser.tab.c"
+#line 1567 "../tsl/tsl_parser.tab.c"
     break;
 
   case 47: /* opt_array_elements: array_elements  */
-#line 174 "tsl_parser.y"
+#line 179 "tsl_parser.y"
                                   { (yyval.node) = (yyvsp[0].node); }
-#line 1461 "../tsl/tsl_parser.tab.c"
+#line 1573 "../tsl/tsl_parser.tab.c"
     break;
 
   case 48: /* opt_array_elements: array_elements COMMA  */
-#line 175 "tsl_parser.y"
+#line 180 "tsl_parser.y"
                                   { (yyval.node) = (yyvsp[-1].node); }
-#line 1467 "../tsl/tsl_parser.tab.c"
+#line 1579 "../tsl/tsl_parser.tab.c"
     break;
 
   case 49: /* array_elements: expr  */
-#line 179 "tsl_parser.y"
+#line 184 "tsl_parser.y"
                                     { 
                                       ast_node **elements = malloc(sizeof(ast_node*));
                                       elements[0] = (yyvsp[0].node);
                                       (yyval.node) = ast_create_array(1, elements);
                                       free(elements);
                                     }
-#line 1478 "../tsl/tsl_parser.tab.c"
+#line 1590 "../tsl/tsl_parser.tab.c"
     break;
 
   case 50: /* array_elements: array_elements COMMA expr  */
-#line 185 "tsl_parser.y"
+#line 190 "tsl_parser.y"
                                     {
                                       ast_node **elements = malloc(((yyvsp[-2].node)->data.array.size + 1) * sizeof(ast_node*));
                                       // Copy existing elements
@@ -1490,53 +1602,53 @@ yyreduce:
                                       free(elements);
                                       ast_free((yyvsp[-2].node));
                                     }
-#line 1494 "../tsl/tsl_parser.tab.c"
+#line 1606 "../tsl/tsl_parser.tab.c"
     break;
 
   case 51: /* primary: NUMERIC_LITERAL  */
-#line 199 "tsl_parser.y"
+#line 204 "tsl_parser.y"
                             { (yyval.node) = ast_create_number((yyvsp[0].str)); free((yyvsp[0].str)); }
-#line 1500 "../tsl/tsl_parser.tab.c"
+#line 1612 "../tsl/tsl_parser.tab.c"
     break;
 
   case 52: /* primary: STRING_LITERAL  */
-#line 200 "tsl_parser.y"
+#line 205 "tsl_parser.y"
                             { (yyval.node) = ast_create_string((yyvsp[0].str)); free((yyvsp[0].str)); }
-#line 1506 "../tsl/tsl_parser.tab.c"
+#line 1618 "../tsl/tsl_parser.tab.c"
     break;
 
   case 53: /* primary: IDENTIFIER  */
-#line 201 "tsl_parser.y"
+#line 206 "tsl_parser.y"
                             { (yyval.node) = ast_create_identifier((yyvsp[0].str)); free((yyvsp[0].str)); }
-#line 1512 "../tsl/tsl_parser.tab.c"
+#line 1624 "../tsl/tsl_parser.tab.c"
     break;
 
   case 54: /* primary: RFC3339  */
-#line 202 "tsl_parser.y"
+#line 207 "tsl_parser.y"
                             { (yyval.node) = ast_create_rfc3339((yyvsp[0].str)); free((yyvsp[0].str)); }
-#line 1518 "../tsl/tsl_parser.tab.c"
+#line 1630 "../tsl/tsl_parser.tab.c"
     break;
 
   case 55: /* primary: DATE  */
-#line 203 "tsl_parser.y"
+#line 208 "tsl_parser.y"
                             { (yyval.node) = ast_create_date((yyvsp[0].str)); free((yyvsp[0].str)); }
-#line 1524 "../tsl/tsl_parser.tab.c"
+#line 1636 "../tsl/tsl_parser.tab.c"
     break;
 
   case 56: /* primary: K_TRUE  */
-#line 204 "tsl_parser.y"
+#line 209 "tsl_parser.y"
                             { (yyval.node) = ast_create_boolean(1); }
-#line 1530 "../tsl/tsl_parser.tab.c"
+#line 1642 "../tsl/tsl_parser.tab.c"
     break;
 
   case 57: /* primary: K_FALSE  */
-#line 205 "tsl_parser.y"
+#line 210 "tsl_parser.y"
                             { (yyval.node) = ast_create_boolean(0); }
-#line 1536 "../tsl/tsl_parser.tab.c"
+#line 1648 "../tsl/tsl_parser.tab.c"
     break;
 
 
-#line 1540 "../tsl/tsl_parser.tab.c"
+#line 1652 "../tsl/tsl_parser.tab.c"
 
       default: break;
     }
@@ -1729,7 +1841,7 @@ yyreturnlab:
   return yyresult;
 }
 
-#line 208 "tsl_parser.y"
+#line 213 "tsl_parser.y"
 
 
 /* API function implementation */
-- 
2.43.0


From e39a209f738d20223268acb0d6e363830c9c3a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:40 +0000
Subject: [PATCH 19/43] fix: v6 parser: release the source of a cloned array
 element

---
 v6/pkg/parser/tsl_parser.y  |  1 +
 v6/pkg/tsl/tsl_parser.tab.c | 37 +++++++++++++++++++------------------
 2 files changed, 20 insertions(+), 18 deletions(-)

diff --git a/v6/pkg/parser/tsl_parser.y b/v6/pkg/parser/tsl_parser.y
index 335a79c..e6ce176 100644
--- a/v6/pkg/parser/tsl_parser.y
+++ b/v6/pkg/parser/tsl_parser.y
@@ -197,6 +197,7 @@ array_elements:
                                       $$ = ast_create_array($1->data.array.size + 1, elements);
                                       free(elements);
                                       ast_free($1);
+                                      ast_free($3);
                                     }
     ;
 
diff --git a/v6/pkg/tsl/tsl_parser.tab.c b/v6/pkg/tsl/tsl_parser.tab.c
index 253cb76..2bf1617 100644
--- a/v6/pkg/tsl/tsl_parser.tab.c
+++ b/v6/pkg/tsl/tsl_parser.tab.c
@@ -579,7 +579,7 @@ static const yytype_uint8 yyrline[] =
      110,   114,   115,   119,   127,   136,   137,   144,   145,   146,
      150,   151,   152,   153,   157,   158,   159,   160,   161,   162,
      166,   167,   168,   169,   170,   174,   178,   179,   180,   184,
-     190,   204,   205,   206,   207,   208,   209,   210
+     190,   205,   206,   207,   208,   209,   210,   211
 };
 #endif
 
@@ -1601,54 +1601,55 @@ yyreduce:
                                       (yyval.node) = ast_create_array((yyvsp[-2].node)->data.array.size + 1, elements);
                                       free(elements);
                                       ast_free((yyvsp[-2].node));
+                                      ast_free((yyvsp[0].node));
                                     }
-#line 1606 "../tsl/tsl_parser.tab.c"
+#line 1607 "../tsl/tsl_parser.tab.c"
     break;
 
   case 51: /* primary: NUMERIC_LITERAL  */
-#line 204 "tsl_parser.y"
+#line 205 "tsl_parser.y"
                             { (yyval.node) = ast_create_number((yyvsp[0].str)); free((yyvsp[0].str)); }
-#line 1612 "../tsl/tsl_parser.tab.c"
+#line 1613 "../tsl/tsl_parser.tab.c"
     break;
 
   case 52: /* primary: STRING_LITERAL  */
-#line 205 "tsl_parser.y"
+#line 206 "tsl_parser.y"
                             { (yyval.node) = ast_create_string((yyvsp[0].str)); free((yyvsp[0].str)); }
-#line 1618 "../tsl/tsl_parser.tab.c"
+#line 1619 "../tsl/tsl_parser.tab.c"
     break;
 
   case 53: /* primary: IDENTIFIER  */
-#line 206 "tsl_parser.y"
+#line 207 "tsl_parser.y"
                             { (yyval.node) = ast_create_identifier((yyvsp[0].str)); free((yyvsp[0].str)); }
-#line 1624 "../tsl/tsl_parser.tab.c"
+#line 1625 "../tsl/tsl_parser.tab.c"
     break;
 
   case 54: /* primary: RFC3339  */
-#line 207 "tsl_parser.y"
+#line 208 "tsl_parser.y"
                             { (yyval.node) = ast_create_rfc3339((yyvsp[0].str)); free((yyvsp[0].str)); }
-#line 1630 "../tsl/tsl_parser.tab.c"
+#line 1631 "../tsl/tsl_parser.tab.c"
     break;
 
   case 55: /* primary: DATE  */
-#line 208 "tsl_parser.y"
+#line 209 "tsl_parser.y"
                             { (yyval.node) = ast_create_date((yyvsp[0].str)); free((yyvsp[0].str)); }
-#line 1636 "../tsl/tsl_parser.tab.c"
+#line 1637 "../tsl/tsl_parser.tab.c"
     break;
 
   case 56: /* primary: K_TRUE  */
-#line 209 "tsl_parser.y"
+#line 210 "tsl_parser.y"
                             { (yyval.node) = ast_create_boolean(1); }
-#line 1642 "../tsl/tsl_parser.tab.c"
+#line 1643 "../tsl/tsl_parser.tab.c"
     break;
 
   case 57: /* primary: K_FALSE  */
-#line 210 "tsl_parser.y"
+#line 211 "tsl_parser.y"
                             { (yyval.node) = ast_create_boolean(0); }
-#line 1648 "../tsl/tsl_parser.tab.c"
+#line 1649 "../tsl/tsl_parser.tab.c"
     break;
 
 
-#line 1652 "../tsl/tsl_parser.tab.c"
+#line 1653 "../tsl/tsl_parser.tab.c"
 
       default: break;
     }
@@ -1841,7 +1842,7 @@ yyreturnlab:
   return yyresult;
 }
 
-#line 213 "tsl_parser.y"
+#line 214 "tsl_parser.y"
 
 
 /* API function implementation */
-- 
2.43.0


From 2f135fbb2b76ae8382963837d6c8569eaf05fc78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:42 +0000
Subject: [PATCH 20/43] fix: v6 parser: an upper case I suffix is binary too

---
 v6/pkg/tsl/tsl_ast.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/v6/pkg/tsl/tsl_ast.c b/v6/pkg/tsl/tsl_ast.c
index 6cd7c56..36a9e33 100644
--- a/v6/pkg/tsl/tsl_ast.c
+++ b/v6/pkg/tsl/tsl_ast.c
@@ -24,7 +24,7 @@ ast_node *ast_create_number(const char *value_str) {
     
     if (*endptr != '\0') {  // Has suffix
         double multiplier = 1024.0;  // Default to binary (Ki)
-        if (*(endptr + 1) != 'i') {  // If not Ki/Mi/Gi, use decimal K/M/G
+        if (tolower(*(endptr + 1)) != 'i') {  // If not Ki/Mi/Gi, use decimal K/M/G
             multiplier = 1000.0;
         }
         switch(tolower(*endptr)) {
-- 
2.43.0


From f69c9c0275cf58d774a0da47a9f0ffa0974e262e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:46 +0000
Subject: [PATCH 21/43] fix: v6 parser: input with a NUL is an error, not
 parsed up to it

---
 v6/pkg/tsl/tsl.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/v6/pkg/tsl/tsl.go b/v6/pkg/tsl/tsl.go
index 98f4e28..2610d77 100644
--- a/v6/pkg/tsl/tsl.go
+++ b/v6/pkg/tsl/tsl.go
@@ -23,6 +23,7 @@ package tsl
 */
 import "C"
 import (
+	"strings"
 	"sync"
 	"time"
 	"unsafe"
@@ -57,6 +58,15 @@ var parserMutex sync.Mutex
 
 // ParseTSL parses a TSL expression and returns the AST root node
 func ParseTSL(input string) (*TSLNode, error) {
+	// A C string would end at the first NUL
+	if pos := strings.IndexByte(input, 0); pos >= 0 {
+		return nil, &SyntaxError{
+			Message:  "unexpected NUL character",
+			Position: pos,
+			Input:    input,
+		}
+	}
+
 	cInput := C.CString(input)
 	defer C.free(unsafe.Pointer(cInput))
 
-- 
2.43.0


From 5d1d53130f63ad211387889b26c6e3b3e082e5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:39 +0000
Subject: [PATCH 22/43] fix: v5 evaluation: compare dates as instants, == also
 compares their location

---
 v5/pkg/walkers/semantics/walk.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/v5/pkg/walkers/semantics/walk.go b/v5/pkg/walkers/semantics/walk.go
index aa6ef09..2d4391b 100644
--- a/v5/pkg/walkers/semantics/walk.go
+++ b/v5/pkg/walkers/semantics/walk.go
@@ -455,9 +455,9 @@ func handleDateOp(n tsl.Node, eval EvalFunc) (bool, error) {
 
 	switch n.Func {
 	case tsl.EqOp:
-		return left == right, nil
+		return left.Equal(right), nil
 	case tsl.NotEqOp:
-		return left != right, nil
+		return !left.Equal(right), nil
 	case tsl.LtOp:
 		return right.After(left), nil
 	case tsl.LteOp:
@@ -684,7 +684,7 @@ func handleDateArrayOp(n tsl.Node, eval EvalFunc) (bool, error) {
 			if !ok {
 				return false, tsl.UnexpectedLiteralError{Literal: n.Func}
 			}
-			b = b || left == t
+			b = b || left.Equal(t)
 		}
 		return b, nil
 	case tsl.NotInOp:
@@ -694,7 +694,7 @@ func handleDateArrayOp(n tsl.Node, eval EvalFunc) (bool, error) {
 			if !ok {
 				return false, tsl.UnexpectedLiteralError{Literal: n.Func}
 			}
-			b = b && left != t
+			b = b && !left.Equal(t)
 		}
 		return b, nil
 	}
-- 
2.43.0


From 0f707039a5e25960e5bdc2f6423c159c003d2c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:45 +0000
Subject: [PATCH 23/43] fix: v5 evaluation: evaluate nested arithmetic and the
 modulo operator

---
 v5/pkg/walkers/semantics/walk.go | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/v5/pkg/walkers/semantics/walk.go b/v5/pkg/walkers/semantics/walk.go
index 2d4391b..88bbc58 100644
--- a/v5/pkg/walkers/semantics/walk.go
+++ b/v5/pkg/walkers/semantics/walk.go
@@ -21,6 +21,7 @@ package semantics
 
 import (
 	"fmt"
+	"math"
 	"regexp"
 	"strings"
 	"time"
@@ -83,7 +84,7 @@ func Walk(n tsl.Node, eval EvalFunc) (bool, error) {
 	}
 
 	// Check for math ops.
-	if l.Func == tsl.AddOp || l.Func == tsl.SubtractOp || l.Func == tsl.MultiplyOp || l.Func == tsl.DivideOp {
+	if isMathOp(l) {
 		newNode, err := handleMathOpLeft(n, eval)
 		if err != nil {
 			return false, err
@@ -105,7 +106,7 @@ func Walk(n tsl.Node, eval EvalFunc) (bool, error) {
 		}
 
 		// Check for math ops.
-		if r.Func == tsl.AddOp || r.Func == tsl.SubtractOp || r.Func == tsl.MultiplyOp || r.Func == tsl.DivideOp {
+		if isMathOp(r) {
 			newNode, err := handleMathOpRight(n, eval)
 			if err != nil {
 				return false, err
@@ -286,6 +287,14 @@ func evalIdentNode(node tsl.Node, eval EvalFunc) (tsl.Node, error) {
 	return n, nil
 }
 
+func isMathOp(n tsl.Node) bool {
+	switch n.Func {
+	case tsl.AddOp, tsl.SubtractOp, tsl.MultiplyOp, tsl.DivideOp, tsl.ModuloOp:
+		return true
+	}
+	return false
+}
+
 func handleMathOp(n tsl.Node, eval EvalFunc) (tsl.Node, error) {
 	var err error
 
@@ -306,6 +315,20 @@ func handleMathOp(n tsl.Node, eval EvalFunc) (tsl.Node, error) {
 		}
 	}
 
+	// Check for nested math ops.
+	if isMathOp(left) {
+		left, err = handleMathOp(left, eval)
+		if err != nil {
+			return n, err
+		}
+	}
+	if isMathOp(right) {
+		right, err = handleMathOp(right, eval)
+		if err != nil {
+			return n, err
+		}
+	}
+
 	// Check for null
 	if left.Func == tsl.NullOp || right.Func == tsl.NullOp {
 		n = tsl.Node{
@@ -341,6 +364,11 @@ func handleMathOp(n tsl.Node, eval EvalFunc) (tsl.Node, error) {
 			Func: tsl.NumberOp,
 			Left: left.Left.(float64) / right.Left.(float64),
 		}
+	case tsl.ModuloOp:
+		n = tsl.Node{
+			Func: tsl.NumberOp,
+			Left: math.Mod(left.Left.(float64), right.Left.(float64)),
+		}
 	default:
 		return n, tsl.UnexpectedLiteralError{Literal: fmt.Sprintf("%v %v", left.Left, right.Left)}
 	}
-- 
2.43.0


From 1497a868df958c7db38178157e0837ccbb74881e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:46 +0000
Subject: [PATCH 24/43] fix: v5 evaluation: a list valued identifier on the
 right is an error, not a panic

---
 v5/pkg/walkers/semantics/walk.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/v5/pkg/walkers/semantics/walk.go b/v5/pkg/walkers/semantics/walk.go
index 88bbc58..d820677 100644
--- a/v5/pkg/walkers/semantics/walk.go
+++ b/v5/pkg/walkers/semantics/walk.go
@@ -131,6 +131,10 @@ func runSemantics(n tsl.Node, eval EvalFunc) (bool, error) {
 			// Any comparison operation on a null element is false.
 			return false, nil
 		}
+		if r.Func == tsl.ArrayOp && r.Right == nil {
+			// A list value of an identifier has no literals to compare with.
+			return false, tsl.UnexpectedLiteralError{Literal: fmt.Sprintf("%v", r.Left)}
+		}
 
 		switch l.Func {
 		case tsl.ArrayOp:
-- 
2.43.0


From 27ad7c9ef92b629679fc079f08eb7a19edfd63c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:48 +0000
Subject: [PATCH 25/43] fix: v5 and v4 evaluation: % and _ of like patterns
 match line breaks too

---
 v4/pkg/walkers/semantics/walk.go | 2 +-
 v5/pkg/walkers/semantics/walk.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/v4/pkg/walkers/semantics/walk.go b/v4/pkg/walkers/semantics/walk.go
index b134180..68de446 100644
--- a/v4/pkg/walkers/semantics/walk.go
+++ b/v4/pkg/walkers/semantics/walk.go
@@ -370,7 +370,7 @@ func likeToRegExp(l string) string {
 	e := regexp.QuoteMeta(l)
 	e = strings.Replace(e, "%", ".*", -1)
 	e = strings.Replace(e, "_", ".", -1)
-	e = fmt.Sprintf("^%s$", e)
+	e = fmt.Sprintf("(?s)^%s$", e)
 
 	return e
 }
diff --git a/v5/pkg/walkers/semantics/walk.go b/v5/pkg/walkers/semantics/walk.go
index d820677..df740f9 100644
--- a/v5/pkg/walkers/semantics/walk.go
+++ b/v5/pkg/walkers/semantics/walk.go
@@ -772,7 +772,7 @@ func likeToRegExp(l string) string {
 	e := regexp.QuoteMeta(l)
 	e = strings.Replace(e, "%", ".*", -1)
 	e = strings.Replace(e, "_", ".", -1)
-	e = fmt.Sprintf("^%s$", e)
+	e = fmt.Sprintf("(?s)^%s$", e)
 
 	return e
 }
-- 
2.43.0


From 7ac148fede908d4a72b11021c96aa115fb591495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:49 +0000
Subject: [PATCH 26/43] fix: v4 evaluation: list elements of another type are
 an error, not a panic

---
 v4/pkg/walkers/semantics/walk.go | 64 ++++++++++++++++++++++++++------
 1 file changed, 52 insertions(+), 12 deletions(-)

diff --git a/v4/pkg/walkers/semantics/walk.go b/v4/pkg/walkers/semantics/walk.go
index 68de446..435dd4a 100644
--- a/v4/pkg/walkers/semantics/walk.go
+++ b/v4/pkg/walkers/semantics/walk.go
@@ -275,23 +275,43 @@ func handleStringArrayOp(n tsl.Node, eval EvalFunc) (bool, error) {
 
 	switch n.Func {
 	case tsl.BetweenOp:
-		begin := right[0].Left.(string)
-		end := right[1].Left.(string)
+		begin, ok := right[0].Left.(string)
+		if !ok {
+			return false, tsl.UnexpectedLiteralError{Literal: n.Func}
+		}
+		end, ok := right[1].Left.(string)
+		if !ok {
+			return false, tsl.UnexpectedLiteralError{Literal: n.Func}
+		}
 		return left >= begin && left < end, nil
 	case tsl.NotBetweenOp:
-		begin := right[0].Left.(string)
-		end := right[1].Left.(string)
+		begin, ok := right[0].Left.(string)
+		if !ok {
+			return false, tsl.UnexpectedLiteralError{Literal: n.Func}
+		}
+		end, ok := right[1].Left.(string)
+		if !ok {
+			return false, tsl.UnexpectedLiteralError{Literal: n.Func}
+		}
 		return left < begin || left >= end, nil
 	case tsl.InOp:
 		b := false
 		for _, node := range right {
-			b = b || left == node.Left.(string)
+			v, ok := node.Left.(string)
+			if !ok {
+				return false, tsl.UnexpectedLiteralError{Literal: n.Func}
+			}
+			b = b || left == v
 		}
 		return b, nil
 	case tsl.NotInOp:
 		b := true
 		for _, node := range right {
-			b = b && left != node.Left.(string)
+			v, ok := node.Left.(string)
+			if !ok {
+				return false, tsl.UnexpectedLiteralError{Literal: n.Func}
+			}
+			b = b && left != v
 		}
 		return b, nil
 	}
@@ -308,23 +328,43 @@ func handleNumberArrayOp(n tsl.Node, eval EvalFunc) (bool, error) {
 
 	switch n.Func {
 	case tsl.BetweenOp:
-		begin := right[0].Left.(float64)
-		end := right[1].Left.(float64)
+		begin, ok := right[0].Left.(float64)
+		if !ok {
+			return false, tsl.UnexpectedLiteralError{Literal: n.Func}
+		}
+		end, ok := right[1].Left.(float64)
+		if !ok {
+			return false, tsl.UnexpectedLiteralError{Literal: n.Func}
+		}
 		return left >= begin && left < end, nil
 	case tsl.NotBetweenOp:
-		begin := right[0].Left.(float64)
-		end := right[1].Left.(float64)
+		begin, ok := right[0].Left.(float64)
+		if !ok {
+			return false, tsl.UnexpectedLiteralError{Literal: n.Func}
+		}
+		end, ok := right[1].Left.(float64)
+		if !ok {
+			return false, tsl.UnexpectedLiteralError{Literal: n.Func}
+		}
 		return left < begin || left >= end, nil
 	case tsl.InOp:
 		b := false
 		for _, node := range right {
-			b = b || left == node.Left.(float64)
+			v, ok := node.Left.(float64)
+			if !ok {
+				return false, tsl.UnexpectedLiteralError{Literal: n.Func}
+			}
+			b = b || left == v
 		}
 		return b, nil
 	case tsl.NotInOp:
 		b := true
 		for _, node := range right {
-			b = b && left != node.Left.(float64)
+			v, ok := node.Left.(float64)
+			if !ok {
+				return false, tsl.UnexpectedLiteralError{Literal: n.Func}
+			}
+			b = b && left != v
 		}
 		return b, nil
 	}
-- 
2.43.0


From 2e12b18ebbbda9376d89b438b0f04110a56d87ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:50 +0000
Subject: [PATCH 27/43] fix: v5 parser: accept dates and booleans in lists

---
 v5/pkg/tsl/listener.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/v5/pkg/tsl/listener.go b/v5/pkg/tsl/listener.go
index ba796ba..9130dc4 100644
--- a/v5/pkg/tsl/listener.go
+++ b/v5/pkg/tsl/listener.go
@@ -385,7 +385,7 @@ func (l *Listener) popLiterals(in []Node) (out []Node) {
 	p := l.pop()
 
 	// Run recurtion on literals.
-	if p.Func == StringOp || p.Func == NumberOp {
+	if p.Func == StringOp || p.Func == NumberOp || p.Func == BooleanOp || p.Func == DateOp {
 		return l.popLiterals(append(in, p))
 	}
 
-- 
2.43.0


From 4aad9a9fe7d473bdde1b91c790116090eb751185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:29 +0000
Subject: [PATCH 28/43] fix: v5 and v4 sql: bind dates used in arithmetic,
 instead of writing them unquoted

---
 v4/pkg/walkers/sql/ops.go  | 19 +++++++++++++++++++
 v4/pkg/walkers/sql/walk.go | 10 +++++++---
 v5/pkg/walkers/sql/ops.go  | 19 +++++++++++++++++++
 v5/pkg/walkers/sql/walk.go | 12 ++++++++----
 4 files changed, 53 insertions(+), 7 deletions(-)

diff --git a/v4/pkg/walkers/sql/ops.go b/v4/pkg/walkers/sql/ops.go
index 9e56548..146a114 100644
--- a/v4/pkg/walkers/sql/ops.go
+++ b/v4/pkg/walkers/sql/ops.go
@@ -44,6 +44,25 @@ func (n notExpr) ToSql() (sql string, args []interface{}, err error) {
 	return
 }
 
+// leftArgsExpr is an expression with the arguments of its left hand side
+type leftArgsExpr struct {
+	args []interface{}
+	expr sq.Sqlizer
+}
+
+// ToSql adds the arguments of the left hand side before those of the expression
+func (e leftArgsExpr) ToSql() (sql string, args []interface{}, err error) {
+	sql, exprArgs, err := e.expr.ToSql()
+	if err != nil {
+		return "", nil, err
+	}
+
+	args = append(args, e.args...)
+	args = append(args, exprArgs...)
+
+	return
+}
+
 // mathExpToSQL take a math expresion and return it's string, args and error.
 func mathExpToSQL(n []sq.Sqlizer, mathOp string) (sql string, args []interface{}, err error) {
 	var left string
diff --git a/v4/pkg/walkers/sql/walk.go b/v4/pkg/walkers/sql/walk.go
index de25a97..1f954c8 100644
--- a/v4/pkg/walkers/sql/walk.go
+++ b/v4/pkg/walkers/sql/walk.go
@@ -95,14 +95,13 @@ func binaryStep(n tsl.Node) (s sq.Sqlizer, err error) {
 // unaryStep handle a unary operator step for Walk.
 func unaryStep(n tsl.Node) (s sq.Sqlizer, err error) {
 	var l sq.Sqlizer
-	var sql string
 
 	l, err = Walk(n.Left.(tsl.Node))
 	if err != nil {
 		return
 	}
 
-	sql, _, err = l.ToSql()
+	sql, leftArgs, err := l.ToSql()
 	if err != nil {
 		return
 	}
@@ -153,6 +152,11 @@ func unaryStep(n tsl.Node) (s sq.Sqlizer, err error) {
 		err = tsl.UnexpectedLiteralError{Literal: n.Func}
 	}
 
+	// Keep the arguments of the left hand side, the operators above use only its text.
+	if err == nil && n.Func != tsl.NotOp && len(leftArgs) > 0 {
+		s = leftArgsExpr{args: leftArgs, expr: s}
+	}
+
 	return
 }
 
@@ -176,7 +180,7 @@ func Walk(n tsl.Node) (s sq.Sqlizer, err error) {
 		f := strconv.FormatFloat(n.Left.(float64), 'g', -1, 64)
 		s = sq.Expr(f)
 	case tsl.StringOp:
-		s = sq.Expr(n.Left.(string))
+		s = sq.Expr("?", n.Left.(string))
 	case tsl.AndOp, tsl.OrOp, tsl.AddOp, tsl.SubtractOp, tsl.MultiplyOp, tsl.DivideOp,
 		tsl.ModuloOp:
 		return binaryStep(n)
diff --git a/v5/pkg/walkers/sql/ops.go b/v5/pkg/walkers/sql/ops.go
index e98695d..028f5a0 100644
--- a/v5/pkg/walkers/sql/ops.go
+++ b/v5/pkg/walkers/sql/ops.go
@@ -44,6 +44,25 @@ func (n notExpr) ToSql() (sql string, args []interface{}, err error) {
 	return
 }
 
+// leftArgsExpr is an expression with the arguments of its left hand side
+type leftArgsExpr struct {
+	args []interface{}
+	expr sq.Sqlizer
+}
+
+// ToSql adds the arguments of the left hand side before those of the expression
+func (e leftArgsExpr) ToSql() (sql string, args []interface{}, err error) {
+	sql, exprArgs, err := e.expr.ToSql()
+	if err != nil {
+		return "", nil, err
+	}
+
+	args = append(args, e.args...)
+	args = append(args, exprArgs...)
+
+	return
+}
+
 // mathExpToSQL take a math expresion and return it's string, args and error.
 func mathExpToSQL(n []sq.Sqlizer, mathOp string) (sql string, args []interface{}, err error) {
 	var left string
diff --git a/v5/pkg/walkers/sql/walk.go b/v5/pkg/walkers/sql/walk.go
index d0c206b..0b0d0c0 100644
--- a/v5/pkg/walkers/sql/walk.go
+++ b/v5/pkg/walkers/sql/walk.go
@@ -108,14 +108,13 @@ func binaryStep(n tsl.Node) (s sq.Sqlizer, err error) {
 // unaryStep handle a unary operator step for Walk.
 func unaryStep(n tsl.Node) (s sq.Sqlizer, err error) {
 	var l sq.Sqlizer
-	var sql string
 
 	l, err = Walk(n.Left.(tsl.Node))
 	if err != nil {
 		return
 	}
 
-	sql, _, err = l.ToSql()
+	sql, leftArgs, err := l.ToSql()
 	if err != nil {
 		return
 	}
@@ -166,6 +165,11 @@ func unaryStep(n tsl.Node) (s sq.Sqlizer, err error) {
 		err = tsl.UnexpectedLiteralError{Literal: n.Func}
 	}
 
+	// Keep the arguments of the left hand side, the operators above use only its text.
+	if err == nil && n.Func != tsl.NotOp && len(leftArgs) > 0 {
+		s = leftArgsExpr{args: leftArgs, expr: s}
+	}
+
 	return
 }
 
@@ -190,9 +194,9 @@ func Walk(n tsl.Node) (s sq.Sqlizer, err error) {
 		s = sq.Expr(f)
 	case tsl.DateOp:
 		f := n.Left.(time.Time).Format(time.RFC3339)
-		s = sq.Expr(f)
+		s = sq.Expr("?", f)
 	case tsl.StringOp:
-		s = sq.Expr(n.Left.(string))
+		s = sq.Expr("?", n.Left.(string))
 	case tsl.BooleanOp:
 		// No Booleans in SQL, convert to 0 for false and 1 for true.
 		value := "0"
-- 
2.43.0


From ff8c1138cbf49594ca9ecfc2b6a89c0606943bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:30 +0000
Subject: [PATCH 29/43] fix: v5 sql: bind dates with their fraction of a second

---
 v5/pkg/walkers/sql/walk.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/v5/pkg/walkers/sql/walk.go b/v5/pkg/walkers/sql/walk.go
index 0b0d0c0..7a2eeb5 100644
--- a/v5/pkg/walkers/sql/walk.go
+++ b/v5/pkg/walkers/sql/walk.go
@@ -56,7 +56,7 @@ func nodesToStrings(in interface{}) (s []interface{}) {
 			}
 			s = append(s, v)
 		case tsl.DateOp:
-			d := n.Left.(time.Time).Format(time.RFC3339)
+			d := n.Left.(time.Time).Format(time.RFC3339Nano)
 			s = append(s, d)
 		default:
 			s = append(s, n.Left)
@@ -193,7 +193,7 @@ func Walk(n tsl.Node) (s sq.Sqlizer, err error) {
 		f := strconv.FormatFloat(n.Left.(float64), 'g', -1, 64)
 		s = sq.Expr(f)
 	case tsl.DateOp:
-		f := n.Left.(time.Time).Format(time.RFC3339)
+		f := n.Left.(time.Time).Format(time.RFC3339Nano)
 		s = sq.Expr("?", f)
 	case tsl.StringOp:
 		s = sq.Expr("?", n.Left.(string))
-- 
2.43.0


From 65b7893b7a22aca9758e0f36d9708d92d0ab6077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:31 +0000
Subject: [PATCH 30/43] fix: v5 and v4 sql: compare with identifiers and
 arithmetic, instead of binding their nodes

---
 v4/pkg/walkers/sql/walk.go | 46 ++++++++++++++++++++++++++++++++++++++
 v5/pkg/walkers/sql/walk.go | 46 ++++++++++++++++++++++++++++++++++++++
 2 files changed, 92 insertions(+)

diff --git a/v4/pkg/walkers/sql/walk.go b/v4/pkg/walkers/sql/walk.go
index 1f954c8..dfa3817 100644
--- a/v4/pkg/walkers/sql/walk.go
+++ b/v4/pkg/walkers/sql/walk.go
@@ -93,6 +93,47 @@ func binaryStep(n tsl.Node) (s sq.Sqlizer, err error) {
 }
 
 // unaryStep handle a unary operator step for Walk.
+// isExpression checks for nodes that are not literals or arrays of literals
+func isExpression(n tsl.Node) bool {
+	switch n.Func {
+	case tsl.IdentOp, tsl.AddOp, tsl.SubtractOp, tsl.MultiplyOp, tsl.DivideOp, tsl.ModuloOp:
+		return true
+	}
+	return false
+}
+
+// SQL of the operators that compare two expressions
+var expressionOps = map[string]string{
+	tsl.EqOp:    "=",
+	tsl.NotEqOp: "<>",
+	tsl.LtOp:    "<",
+	tsl.LteOp:   "<=",
+	tsl.GtOp:    ">",
+	tsl.GteOp:   ">=",
+	tsl.LikeOp:  "LIKE",
+	tsl.ILikeOp: "ILIKE",
+}
+
+// expressionStep compares the left hand side with an expression
+func expressionStep(op string, left string, args []interface{}, n tsl.Node) (s sq.Sqlizer, err error) {
+	sqlOp, ok := expressionOps[op]
+	if !ok {
+		return nil, tsl.UnexpectedLiteralError{Literal: op}
+	}
+
+	r, err := Walk(n)
+	if err != nil {
+		return nil, err
+	}
+	right, rightArgs, err := r.ToSql()
+	if err != nil {
+		return nil, err
+	}
+
+	args = append(args[:len(args):len(args)], rightArgs...)
+	return sq.Expr(fmt.Sprintf("%s %s %s", left, sqlOp, right), args...), nil
+}
+
 func unaryStep(n tsl.Node) (s sq.Sqlizer, err error) {
 	var l sq.Sqlizer
 
@@ -106,6 +147,11 @@ func unaryStep(n tsl.Node) (s sq.Sqlizer, err error) {
 		return
 	}
 
+	// The right hand side can be an identifier or an arithmetic expression.
+	if r, ok := n.Right.(tsl.Node); ok && isExpression(r) {
+		return expressionStep(n.Func, sql, leftArgs, r)
+	}
+
 	right := nodesToStrings(n.Right)
 
 	switch n.Func {
diff --git a/v5/pkg/walkers/sql/walk.go b/v5/pkg/walkers/sql/walk.go
index 7a2eeb5..86cb779 100644
--- a/v5/pkg/walkers/sql/walk.go
+++ b/v5/pkg/walkers/sql/walk.go
@@ -106,6 +106,47 @@ func binaryStep(n tsl.Node) (s sq.Sqlizer, err error) {
 }
 
 // unaryStep handle a unary operator step for Walk.
+// isExpression checks for nodes that are not literals or arrays of literals
+func isExpression(n tsl.Node) bool {
+	switch n.Func {
+	case tsl.IdentOp, tsl.AddOp, tsl.SubtractOp, tsl.MultiplyOp, tsl.DivideOp, tsl.ModuloOp:
+		return true
+	}
+	return false
+}
+
+// SQL of the operators that compare two expressions
+var expressionOps = map[string]string{
+	tsl.EqOp:    "=",
+	tsl.NotEqOp: "<>",
+	tsl.LtOp:    "<",
+	tsl.LteOp:   "<=",
+	tsl.GtOp:    ">",
+	tsl.GteOp:   ">=",
+	tsl.LikeOp:  "LIKE",
+	tsl.ILikeOp: "ILIKE",
+}
+
+// expressionStep compares the left hand side with an expression
+func expressionStep(op string, left string, args []interface{}, n tsl.Node) (s sq.Sqlizer, err error) {
+	sqlOp, ok := expressionOps[op]
+	if !ok {
+		return nil, tsl.UnexpectedLiteralError{Literal: op}
+	}
+
+	r, err := Walk(n)
+	if err != nil {
+		return nil, err
+	}
+	right, rightArgs, err := r.ToSql()
+	if err != nil {
+		return nil, err
+	}
+
+	args = append(args[:len(args):len(args)], rightArgs...)
+	return sq.Expr(fmt.Sprintf("%s %s %s", left, sqlOp, right), args...), nil
+}
+
 func unaryStep(n tsl.Node) (s sq.Sqlizer, err error) {
 	var l sq.Sqlizer
 
@@ -119,6 +160,11 @@ func unaryStep(n tsl.Node) (s sq.Sqlizer, err error) {
 		return
 	}
 
+	// The right hand side can be an identifier or an arithmetic expression.
+	if r, ok := n.Right.(tsl.Node); ok && isExpression(r) {
+		return expressionStep(n.Func, sql, leftArgs, r)
+	}
+
 	right := nodesToStrings(n.Right)
 
 	switch n.Func {
-- 
2.43.0


From 5400f3ec98a637c474be1c2981e47026c8507001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:31 +0000
Subject: [PATCH 31/43] fix: v5 and v4 graphviz: give every vertex an ID of its
 own

---
 v4/pkg/walkers/graphviz/walk.go | 6 +++---
 v5/pkg/walkers/graphviz/walk.go | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/v4/pkg/walkers/graphviz/walk.go b/v4/pkg/walkers/graphviz/walk.go
index cacabe7..6785f0b 100644
--- a/v4/pkg/walkers/graphviz/walk.go
+++ b/v4/pkg/walkers/graphviz/walk.go
@@ -105,7 +105,7 @@ func Walk(in string, n tsl.Node, nodeID string) (out string, err error) {
 
 		// Add left child.
 		if n.Left != nil {
-			leftID := randStr(4)
+			leftID := fmt.Sprintf("%s_0", nodeID) // the path from the root is a unique ID
 			childrens = append(childrens, leftID)
 
 			l, err := Walk(in, n.Left.(tsl.Node), leftID)
@@ -127,8 +127,8 @@ func Walk(in string, n tsl.Node, nodeID string) (out string, err error) {
 			}
 
 			// Add all nodes to graph.
-			for _, v := range nn {
-				rightID := randStr(4)
+			for i, v := range nn {
+				rightID := fmt.Sprintf("%s_%d", nodeID, i+1)
 				childrens = append(childrens, rightID)
 
 				r, err := Walk(in, v, rightID)
diff --git a/v5/pkg/walkers/graphviz/walk.go b/v5/pkg/walkers/graphviz/walk.go
index c12c81a..94a5bea 100644
--- a/v5/pkg/walkers/graphviz/walk.go
+++ b/v5/pkg/walkers/graphviz/walk.go
@@ -114,7 +114,7 @@ func Walk(in string, n tsl.Node, nodeID string) (out string, err error) {
 
 		// Add left child.
 		if n.Left != nil {
-			leftID := randStr(4)
+			leftID := fmt.Sprintf("%s_0", nodeID) // the path from the root is a unique ID
 			childrens = append(childrens, leftID)
 
 			l, err := Walk(in, n.Left.(tsl.Node), leftID)
@@ -136,8 +136,8 @@ func Walk(in string, n tsl.Node, nodeID string) (out string, err error) {
 			}
 
 			// Add all nodes to graph.
-			for _, v := range nn {
-				rightID := randStr(4)
+			for i, v := range nn {
+				rightID := fmt.Sprintf("%s_%d", nodeID, i+1)
 				childrens = append(childrens, rightID)
 
 				r, err := Walk(in, v, rightID)
-- 
2.43.0


From 79bcd2059a142c06479da1b499dc4904798c2fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:32 +0000
Subject: [PATCH 32/43] fix: v5 and v4 graphviz: do not repeat the input for
 each child

---
 v4/pkg/walkers/graphviz/walk.go | 4 ++--
 v5/pkg/walkers/graphviz/walk.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/v4/pkg/walkers/graphviz/walk.go b/v4/pkg/walkers/graphviz/walk.go
index 6785f0b..eb015d9 100644
--- a/v4/pkg/walkers/graphviz/walk.go
+++ b/v4/pkg/walkers/graphviz/walk.go
@@ -108,7 +108,7 @@ func Walk(in string, n tsl.Node, nodeID string) (out string, err error) {
 			leftID := fmt.Sprintf("%s_0", nodeID) // the path from the root is a unique ID
 			childrens = append(childrens, leftID)
 
-			l, err := Walk(in, n.Left.(tsl.Node), leftID)
+			l, err := Walk("", n.Left.(tsl.Node), leftID)
 			if err != nil {
 				return "", err
 			}
@@ -131,7 +131,7 @@ func Walk(in string, n tsl.Node, nodeID string) (out string, err error) {
 				rightID := fmt.Sprintf("%s_%d", nodeID, i+1)
 				childrens = append(childrens, rightID)
 
-				r, err := Walk(in, v, rightID)
+				r, err := Walk("", v, rightID)
 				if err != nil {
 					return "", err
 				}
diff --git a/v5/pkg/walkers/graphviz/walk.go b/v5/pkg/walkers/graphviz/walk.go
index 94a5bea..bb4605d 100644
--- a/v5/pkg/walkers/graphviz/walk.go
+++ b/v5/pkg/walkers/graphviz/walk.go
@@ -117,7 +117,7 @@ func Walk(in string, n tsl.Node, nodeID string) (out string, err error) {
 			leftID := fmt.Sprintf("%s_0", nodeID) // the path from the root is a unique ID
 			childrens = append(childrens, leftID)
 
-			l, err := Walk(in, n.Left.(tsl.Node), leftID)
+			l, err := Walk("", n.Left.(tsl.Node), leftID)
 			if err != nil {
 				return "", err
 			}
@@ -140,7 +140,7 @@ func Walk(in string, n tsl.Node, nodeID string) (out string, err error) {
 				rightID := fmt.Sprintf("%s_%d", nodeID, i+1)
 				childrens = append(childrens, rightID)
 
-				r, err := Walk(in, v, rightID)
+				r, err := Walk("", v, rightID)
 				if err != nil {
 					return "", err
 				}
-- 
2.43.0


From ac09d4a09a7a6a2dbffc8968629fad295e47e5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:32 +0000
Subject: [PATCH 33/43] fix: v5 and v4 graphviz: escape the values in labels

---
 v4/pkg/walkers/graphviz/walk.go | 12 ++++++++----
 v5/pkg/walkers/graphviz/walk.go | 16 ++++++++++------
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/v4/pkg/walkers/graphviz/walk.go b/v4/pkg/walkers/graphviz/walk.go
index eb015d9..c4bdc6b 100644
--- a/v4/pkg/walkers/graphviz/walk.go
+++ b/v4/pkg/walkers/graphviz/walk.go
@@ -33,6 +33,10 @@ const numberStyle = "shape=record color=blue"
 const stringStyle = "shape=record color=blue"
 const opStyle = "shape=box color=black"
 
+// Characters with a meaning in record labels.
+var labelEscaper = strings.NewReplacer(
+	"\\", "\\\\", "\"", "\\\"", "\n", "\\n", "{", "\\{", "}", "\\}", "|", "\\|", "<", "\\<", ">", "\\>")
+
 // Generate a random string.
 func randStr(l int) string {
 	bytes := make([]byte, l)
@@ -77,7 +81,7 @@ func Walk(in string, n tsl.Node, nodeID string) (out string, err error) {
 			nodeID,
 			identStyle,
 			n.Func,
-			n.Left)
+			labelEscaper.Replace(fmt.Sprintf("%v", n.Left)))
 		out = fmt.Sprintf("%s%s", in, nodeLabel)
 	case tsl.StringOp:
 		// Add leaf label and value.
@@ -85,15 +89,15 @@ func Walk(in string, n tsl.Node, nodeID string) (out string, err error) {
 			nodeID,
 			stringStyle,
 			n.Func,
-			n.Left)
+			labelEscaper.Replace(fmt.Sprintf("%v", n.Left)))
 		out = fmt.Sprintf("%s%s", in, nodeLabel)
 	case tsl.NumberOp:
 		// Add leaf label and value.
-		nodeLabel := fmt.Sprintf("%s [%s label=\"%s | %g\" ]",
+		nodeLabel := fmt.Sprintf("%s [%s label=\"%s | %s\" ]",
 			nodeID,
 			numberStyle,
 			n.Func,
-			n.Left)
+			labelEscaper.Replace(fmt.Sprintf("%v", n.Left)))
 		out = fmt.Sprintf("%s%s", in, nodeLabel)
 	default:
 		// Add node label.
diff --git a/v5/pkg/walkers/graphviz/walk.go b/v5/pkg/walkers/graphviz/walk.go
index bb4605d..186c4f0 100644
--- a/v5/pkg/walkers/graphviz/walk.go
+++ b/v5/pkg/walkers/graphviz/walk.go
@@ -34,6 +34,10 @@ const stringStyle = "shape=record color=blue"
 const dateStyle = "shape=record color=orange"
 const opStyle = "shape=box color=black"
 
+// Characters with a meaning in record labels.
+var labelEscaper = strings.NewReplacer(
+	"\\", "\\\\", "\"", "\\\"", "\n", "\\n", "{", "\\{", "}", "\\}", "|", "\\|", "<", "\\<", ">", "\\>")
+
 // Generate a random string.
 func randStr(l int) string {
 	bytes := make([]byte, l)
@@ -78,7 +82,7 @@ func Walk(in string, n tsl.Node, nodeID string) (out string, err error) {
 			nodeID,
 			identStyle,
 			n.Func,
-			n.Left)
+			labelEscaper.Replace(fmt.Sprintf("%v", n.Left)))
 		out = fmt.Sprintf("%s%s", in, nodeLabel)
 	case tsl.StringOp:
 		// Add leaf label and value.
@@ -86,23 +90,23 @@ func Walk(in string, n tsl.Node, nodeID string) (out string, err error) {
 			nodeID,
 			stringStyle,
 			n.Func,
-			n.Left)
+			labelEscaper.Replace(fmt.Sprintf("%v", n.Left)))
 		out = fmt.Sprintf("%s%s", in, nodeLabel)
 	case tsl.NumberOp:
 		// Add leaf label and value.
-		nodeLabel := fmt.Sprintf("%s [%s label=\"%s | %g\" ]",
+		nodeLabel := fmt.Sprintf("%s [%s label=\"%s | %s\" ]",
 			nodeID,
 			numberStyle,
 			n.Func,
-			n.Left)
+			labelEscaper.Replace(fmt.Sprintf("%v", n.Left)))
 		out = fmt.Sprintf("%s%s", in, nodeLabel)
 	case tsl.BooleanOp, tsl.DateOp:
 		// Add leaf label and value.
-		nodeLabel := fmt.Sprintf("%s [%s label=\"%s | %v\" ]",
+		nodeLabel := fmt.Sprintf("%s [%s label=\"%s | %s\" ]",
 			nodeID,
 			dateStyle,
 			n.Func,
-			n.Left)
+			labelEscaper.Replace(fmt.Sprintf("%v", n.Left)))
 		out = fmt.Sprintf("%s%s", in, nodeLabel)
 	default:
 		// Add node label.
-- 
2.43.0


From c2767016abc8f1be90f8b8a6d5183cc58a19b91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:57 +0000
Subject: [PATCH 34/43] fix: v5 and v4 mongo: arithmetic on the left is an
 error, not a field without a name

---
 v4/pkg/walkers/mongo/walk.go | 42 ++++++++++++++++++++++--------------
 v5/pkg/walkers/mongo/walk.go | 42 ++++++++++++++++++++++--------------
 2 files changed, 52 insertions(+), 32 deletions(-)

diff --git a/v4/pkg/walkers/mongo/walk.go b/v4/pkg/walkers/mongo/walk.go
index 58fc5a3..da2ca73 100644
--- a/v4/pkg/walkers/mongo/walk.go
+++ b/v4/pkg/walkers/mongo/walk.go
@@ -23,15 +23,15 @@ import (
 	"github.com/yaacov/tree-search-language/v4/pkg/tsl"
 )
 
-// Returns the identifier setring from an IdentOp operator node.
-func identString(n interface{}) string {
+// Returns the identifier string from an IdentOp operator node.
+func identString(n interface{}) (string, error) {
 	// This is an identifier.
-	if str, ok := n.(tsl.Node).Left.(string); ok {
-		return str
+	if node, ok := n.(tsl.Node); ok && node.Func == tsl.IdentOp {
+		return node.Left.(string), nil
 	}
 
-	// This is not an identifier.
-	return ""
+	// This is not an identifier, mongo operators apply to fields.
+	return "", tsl.UnexpectedLiteralError{Literal: n}
 }
 
 // bsonFromArray helper method creates a slice of bson values from an interface,
@@ -79,11 +79,21 @@ func bsonFromArray(a interface{}) (values []interface{}, err error) {
 func Walk(n tsl.Node) (b bson.D, err error) {
 	var values []interface{}
 	var l, r bson.D
+	var field string
 
 	// Note: tsl function constants should be the same as mongo bson
 	// functions (e.g. tsl.AndOp is "$and" in tsl and in mongo bson),
 	// this is the reason we can use n.Func as a function name in the mongo
 	// bson Element construction.
+	switch n.Func {
+	case tsl.EqOp, tsl.NotEqOp, tsl.LtOp, tsl.LteOp, tsl.GtOp, tsl.GteOp, tsl.InOp, tsl.NotInOp,
+		tsl.IsNilOp, tsl.IsNotNilOp, tsl.RegexOp, tsl.NotRegexOp, tsl.BetweenOp, tsl.NotBetweenOp:
+		field, err = identString(n.Left)
+		if err != nil {
+			return
+		}
+	}
+
 	switch n.Func {
 	case tsl.OrOp, tsl.AndOp:
 		l, err = Walk(n.Left.(tsl.Node))
@@ -96,21 +106,21 @@ func Walk(n tsl.Node) (b bson.D, err error) {
 		}
 		b = bson.D{{n.Func, bson.A{l, r}}}
 	case tsl.EqOp, tsl.NotEqOp, tsl.LtOp, tsl.LteOp, tsl.GtOp, tsl.GteOp:
-		b = bson.D{{identString(n.Left), bson.D{{n.Func, n.Right.(tsl.Node).Left}}}}
+		b = bson.D{{field, bson.D{{n.Func, n.Right.(tsl.Node).Left}}}}
 	case tsl.InOp, tsl.NotInOp:
 		values, err = bsonFromArray(n.Right)
 		if err != nil {
 			return
 		}
-		b = bson.D{{identString(n.Left), bson.D{{n.Func, values}}}}
+		b = bson.D{{field, bson.D{{n.Func, values}}}}
 	case tsl.IsNilOp:
-		b = bson.D{{identString(n.Left), bson.D{{"$exists", false}}}}
+		b = bson.D{{field, bson.D{{"$exists", false}}}}
 	case tsl.IsNotNilOp:
-		b = bson.D{{identString(n.Left), bson.D{{"$exists", true}}}}
+		b = bson.D{{field, bson.D{{"$exists", true}}}}
 	case tsl.RegexOp:
-		b = bson.D{{identString(n.Left), primitive.Regex{n.Right.(tsl.Node).Left.(string), ""}}}
+		b = bson.D{{field, primitive.Regex{n.Right.(tsl.Node).Left.(string), ""}}}
 	case tsl.NotRegexOp:
-		b = bson.D{{identString(n.Left),
+		b = bson.D{{field,
 			bson.D{{"$not", primitive.Regex{n.Right.(tsl.Node).Left.(string), ""}}}}}
 	case tsl.BetweenOp:
 		// Mongo does not have a between function, translating sql's between into
@@ -122,8 +132,8 @@ func Walk(n tsl.Node) (b bson.D, err error) {
 		}
 		b = bson.D{{"$and",
 			bson.A{
-				bson.D{{identString(n.Left), bson.D{{"$gte", values[0]}}}},
-				bson.D{{identString(n.Left), bson.D{{"$lte", values[1]}}}},
+				bson.D{{field, bson.D{{"$gte", values[0]}}}},
+				bson.D{{field, bson.D{{"$lte", values[1]}}}},
 			}}}
 	case tsl.NotBetweenOp:
 		// Mongo does not have a between function, translating sql's not between into
@@ -134,8 +144,8 @@ func Walk(n tsl.Node) (b bson.D, err error) {
 		}
 		b = bson.D{{"$or",
 			bson.A{
-				bson.D{{identString(n.Left), bson.D{{"$lt", values[0]}}}},
-				bson.D{{identString(n.Left), bson.D{{"$gt", values[1]}}}},
+				bson.D{{field, bson.D{{"$lt", values[0]}}}},
+				bson.D{{field, bson.D{{"$gt", values[1]}}}},
 			}}}
 	default:
 		// If here than the operator is not supported.
diff --git a/v5/pkg/walkers/mongo/walk.go b/v5/pkg/walkers/mongo/walk.go
index ce84147..296d7d1 100644
--- a/v5/pkg/walkers/mongo/walk.go
+++ b/v5/pkg/walkers/mongo/walk.go
@@ -23,15 +23,15 @@ import (
 	"github.com/yaacov/tree-search-language/v5/pkg/tsl"
 )
 
-// Returns the identifier setring from an IdentOp operator node.
-func identString(n interface{}) string {
+// Returns the identifier string from an IdentOp operator node.
+func identString(n interface{}) (string, error) {
 	// This is an identifier.
-	if str, ok := n.(tsl.Node).Left.(string); ok {
-		return str
+	if node, ok := n.(tsl.Node); ok && node.Func == tsl.IdentOp {
+		return node.Left.(string), nil
 	}
 
-	// This is not an identifier.
-	return ""
+	// This is not an identifier, mongo operators apply to fields.
+	return "", tsl.UnexpectedLiteralError{Literal: n}
 }
 
 // bsonFromArray helper method creates a slice of bson values from an interface,
@@ -79,11 +79,21 @@ func bsonFromArray(a interface{}) (values []interface{}, err error) {
 func Walk(n tsl.Node) (b bson.D, err error) {
 	var values []interface{}
 	var l, r bson.D
+	var field string
 
 	// Note: tsl function constants should be the same as mongo bson
 	// functions (e.g. tsl.AndOp is "$and" in tsl and in mongo bson),
 	// this is the reason we can use n.Func as a function name in the mongo
 	// bson Element construction.
+	switch n.Func {
+	case tsl.EqOp, tsl.NotEqOp, tsl.LtOp, tsl.LteOp, tsl.GtOp, tsl.GteOp, tsl.InOp, tsl.NotInOp,
+		tsl.IsNilOp, tsl.IsNotNilOp, tsl.RegexOp, tsl.NotRegexOp, tsl.BetweenOp, tsl.NotBetweenOp:
+		field, err = identString(n.Left)
+		if err != nil {
+			return
+		}
+	}
+
 	switch n.Func {
 	case tsl.OrOp, tsl.AndOp:
 		l, err = Walk(n.Left.(tsl.Node))
@@ -96,21 +106,21 @@ func Walk(n tsl.Node) (b bson.D, err error) {
 		}
 		b = bson.D{{n.Func, bson.A{l, r}}}
 	case tsl.EqOp, tsl.NotEqOp, tsl.LtOp, tsl.LteOp, tsl.GtOp, tsl.GteOp:
-		b = bson.D{{identString(n.Left), bson.D{{n.Func, n.Right.(tsl.Node).Left}}}}
+		b = bson.D{{field, bson.D{{n.Func, n.Right.(tsl.Node).Left}}}}
 	case tsl.InOp, tsl.NotInOp:
 		values, err = bsonFromArray(n.Right)
 		if err != nil {
 			return
 		}
-		b = bson.D{{identString(n.Left), bson.D{{n.Func, values}}}}
+		b = bson.D{{field, bson.D{{n.Func, values}}}}
 	case tsl.IsNilOp:
-		b = bson.D{{identString(n.Left), bson.D{{"$exists", false}}}}
+		b = bson.D{{field, bson.D{{"$exists", false}}}}
 	case tsl.IsNotNilOp:
-		b = bson.D{{identString(n.Left), bson.D{{"$exists", true}}}}
+		b = bson.D{{field, bson.D{{"$exists", true}}}}
 	case tsl.RegexOp:
-		b = bson.D{{identString(n.Left), primitive.Regex{n.Right.(tsl.Node).Left.(string), ""}}}
+		b = bson.D{{field, primitive.Regex{n.Right.(tsl.Node).Left.(string), ""}}}
 	case tsl.NotRegexOp:
-		b = bson.D{{identString(n.Left),
+		b = bson.D{{field,
 			bson.D{{"$not", primitive.Regex{n.Right.(tsl.Node).Left.(string), ""}}}}}
 	case tsl.BetweenOp:
 		// Mongo does not have a between function, translating sql's between into
@@ -122,8 +132,8 @@ func Walk(n tsl.Node) (b bson.D, err error) {
 		}
 		b = bson.D{{"$and",
 			bson.A{
-				bson.D{{identString(n.Left), bson.D{{"$gte", values[0]}}}},
-				bson.D{{identString(n.Left), bson.D{{"$lte", values[1]}}}},
+				bson.D{{field, bson.D{{"$gte", values[0]}}}},
+				bson.D{{field, bson.D{{"$lte", values[1]}}}},
 			}}}
 	case tsl.NotBetweenOp:
 		// Mongo does not have a between function, translating sql's not between into
@@ -134,8 +144,8 @@ func Walk(n tsl.Node) (b bson.D, err error) {
 		}
 		b = bson.D{{"$or",
 			bson.A{
-				bson.D{{identString(n.Left), bson.D{{"$lt", values[0]}}}},
-				bson.D{{identString(n.Left), bson.D{{"$gt", values[1]}}}},
+				bson.D{{field, bson.D{{"$lt", values[0]}}}},
+				bson.D{{field, bson.D{{"$gt", values[1]}}}},
 			}}}
 	default:
 		// If here than the operator is not supported.
-- 
2.43.0


From 2fb9dbd113baca01109f2ee48879689d911734c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:58 +0000
Subject: [PATCH 35/43] fix: v5 and v4 mongo: an identifier or arithmetic on
 the right is an error, not a value

---
 v4/pkg/walkers/mongo/walk.go | 43 ++++++++++++++++++++++++++++++++----
 v5/pkg/walkers/mongo/walk.go | 43 ++++++++++++++++++++++++++++++++----
 2 files changed, 78 insertions(+), 8 deletions(-)

diff --git a/v4/pkg/walkers/mongo/walk.go b/v4/pkg/walkers/mongo/walk.go
index da2ca73..84c4d14 100644
--- a/v4/pkg/walkers/mongo/walk.go
+++ b/v4/pkg/walkers/mongo/walk.go
@@ -34,6 +34,28 @@ func identString(n interface{}) (string, error) {
 	return "", tsl.UnexpectedLiteralError{Literal: n}
 }
 
+// Returns the value of a literal node.
+func literalValue(n interface{}) (interface{}, error) {
+	if node, ok := n.(tsl.Node); ok {
+		switch node.Func {
+		case tsl.StringOp, tsl.NumberOp:
+			return node.Left, nil
+		}
+	}
+
+	// This is not a literal, mongo operators do not compare fields.
+	return nil, tsl.UnexpectedLiteralError{Literal: n}
+}
+
+// Returns the text of a string literal node.
+func stringValue(n interface{}) (string, error) {
+	if node, ok := n.(tsl.Node); ok && node.Func == tsl.StringOp {
+		return node.Left.(string), nil
+	}
+
+	return "", tsl.UnexpectedLiteralError{Literal: n}
+}
+
 // bsonFromArray helper method creates a slice of bson values from an interface,
 // supported values can be strings or floats.
 func bsonFromArray(a interface{}) (values []interface{}, err error) {
@@ -79,7 +101,8 @@ func bsonFromArray(a interface{}) (values []interface{}, err error) {
 func Walk(n tsl.Node) (b bson.D, err error) {
 	var values []interface{}
 	var l, r bson.D
-	var field string
+	var field, regex string
+	var value interface{}
 
 	// Note: tsl function constants should be the same as mongo bson
 	// functions (e.g. tsl.AndOp is "$and" in tsl and in mongo bson),
@@ -106,7 +129,11 @@ func Walk(n tsl.Node) (b bson.D, err error) {
 		}
 		b = bson.D{{n.Func, bson.A{l, r}}}
 	case tsl.EqOp, tsl.NotEqOp, tsl.LtOp, tsl.LteOp, tsl.GtOp, tsl.GteOp:
-		b = bson.D{{field, bson.D{{n.Func, n.Right.(tsl.Node).Left}}}}
+		value, err = literalValue(n.Right)
+		if err != nil {
+			return
+		}
+		b = bson.D{{field, bson.D{{n.Func, value}}}}
 	case tsl.InOp, tsl.NotInOp:
 		values, err = bsonFromArray(n.Right)
 		if err != nil {
@@ -118,10 +145,18 @@ func Walk(n tsl.Node) (b bson.D, err error) {
 	case tsl.IsNotNilOp:
 		b = bson.D{{field, bson.D{{"$exists", true}}}}
 	case tsl.RegexOp:
-		b = bson.D{{field, primitive.Regex{n.Right.(tsl.Node).Left.(string), ""}}}
+		regex, err = stringValue(n.Right)
+		if err != nil {
+			return
+		}
+		b = bson.D{{field, primitive.Regex{regex, ""}}}
 	case tsl.NotRegexOp:
+		regex, err = stringValue(n.Right)
+		if err != nil {
+			return
+		}
 		b = bson.D{{field,
-			bson.D{{"$not", primitive.Regex{n.Right.(tsl.Node).Left.(string), ""}}}}}
+			bson.D{{"$not", primitive.Regex{regex, ""}}}}}
 	case tsl.BetweenOp:
 		// Mongo does not have a between function, translating sql's between into
 		// two none eq operators.
diff --git a/v5/pkg/walkers/mongo/walk.go b/v5/pkg/walkers/mongo/walk.go
index 296d7d1..037984d 100644
--- a/v5/pkg/walkers/mongo/walk.go
+++ b/v5/pkg/walkers/mongo/walk.go
@@ -34,6 +34,28 @@ func identString(n interface{}) (string, error) {
 	return "", tsl.UnexpectedLiteralError{Literal: n}
 }
 
+// Returns the value of a literal node.
+func literalValue(n interface{}) (interface{}, error) {
+	if node, ok := n.(tsl.Node); ok {
+		switch node.Func {
+		case tsl.StringOp, tsl.NumberOp, tsl.BooleanOp, tsl.DateOp:
+			return node.Left, nil
+		}
+	}
+
+	// This is not a literal, mongo operators do not compare fields.
+	return nil, tsl.UnexpectedLiteralError{Literal: n}
+}
+
+// Returns the text of a string literal node.
+func stringValue(n interface{}) (string, error) {
+	if node, ok := n.(tsl.Node); ok && node.Func == tsl.StringOp {
+		return node.Left.(string), nil
+	}
+
+	return "", tsl.UnexpectedLiteralError{Literal: n}
+}
+
 // bsonFromArray helper method creates a slice of bson values from an interface,
 // supported values can be strings or floats.
 func bsonFromArray(a interface{}) (values []interface{}, err error) {
@@ -79,7 +101,8 @@ func bsonFromArray(a interface{}) (values []interface{}, err error) {
 func Walk(n tsl.Node) (b bson.D, err error) {
 	var values []interface{}
 	var l, r bson.D
-	var field string
+	var field, regex string
+	var value interface{}
 
 	// Note: tsl function constants should be the same as mongo bson
 	// functions (e.g. tsl.AndOp is "$and" in tsl and in mongo bson),
@@ -106,7 +129,11 @@ func Walk(n tsl.Node) (b bson.D, err error) {
 		}
 		b = bson.D{{n.Func, bson.A{l, r}}}
 	case tsl.EqOp, tsl.NotEqOp, tsl.LtOp, tsl.LteOp, tsl.GtOp, tsl.GteOp:
-		b = bson.D{{field, bson.D{{n.Func, n.Right.(tsl.Node).Left}}}}
+		value, err = literalValue(n.Right)
+		if err != nil {
+			return
+		}
+		b = bson.D{{field, bson.D{{n.Func, value}}}}
 	case tsl.InOp, tsl.NotInOp:
 		values, err = bsonFromArray(n.Right)
 		if err != nil {
@@ -118,10 +145,18 @@ func Walk(n tsl.Node) (b bson.D, err error) {
 	case tsl.IsNotNilOp:
 		b = bson.D{{field, bson.D{{"$exists", true}}}}
 	case tsl.RegexOp:
-		b = bson.D{{field, primitive.Regex{n.Right.(tsl.Node).Left.(string), ""}}}
+		regex, err = stringValue(n.Right)
+		if err != nil {
+			return
+		}
+		b = bson.D{{field, primitive.Regex{regex, ""}}}
 	case tsl.NotRegexOp:
+		regex, err = stringValue(n.Right)
+		if err != nil {
+			return
+		}
 		b = bson.D{{field,
-			bson.D{{"$not", primitive.Regex{n.Right.(tsl.Node).Left.(string), ""}}}}}
+			bson.D{{"$not", primitive.Regex{regex, ""}}}}}
 	case tsl.BetweenOp:
 		// Mongo does not have a between function, translating sql's between into
 		// two none eq operators.
-- 
2.43.0


From 67d8a2af9e65bc0eefa7a5ed0add66e4c5422983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:13 +0000
Subject: [PATCH 36/43] fix: v5 and v4 sql: an empty list takes no arguments
 from its left hand side

---
 v4/pkg/walkers/sql/walk.go | 5 +++++
 v5/pkg/walkers/sql/walk.go | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/v4/pkg/walkers/sql/walk.go b/v4/pkg/walkers/sql/walk.go
index dfa3817..a9326eb 100644
--- a/v4/pkg/walkers/sql/walk.go
+++ b/v4/pkg/walkers/sql/walk.go
@@ -198,6 +198,11 @@ func unaryStep(n tsl.Node) (s sq.Sqlizer, err error) {
 		err = tsl.UnexpectedLiteralError{Literal: n.Func}
 	}
 
+	// The SQL of an empty list does not use the left hand side at all.
+	if (n.Func == tsl.InOp || n.Func == tsl.NotInOp) && len(right) == 0 {
+		return
+	}
+
 	// Keep the arguments of the left hand side, the operators above use only its text.
 	if err == nil && n.Func != tsl.NotOp && len(leftArgs) > 0 {
 		s = leftArgsExpr{args: leftArgs, expr: s}
diff --git a/v5/pkg/walkers/sql/walk.go b/v5/pkg/walkers/sql/walk.go
index 86cb779..712e60d 100644
--- a/v5/pkg/walkers/sql/walk.go
+++ b/v5/pkg/walkers/sql/walk.go
@@ -211,6 +211,11 @@ func unaryStep(n tsl.Node) (s sq.Sqlizer, err error) {
 		err = tsl.UnexpectedLiteralError{Literal: n.Func}
 	}
 
+	// The SQL of an empty list does not use the left hand side at all.
+	if (n.Func == tsl.InOp || n.Func == tsl.NotInOp) && len(right) == 0 {
+		return
+	}
+
 	// Keep the arguments of the left hand side, the operators above use only its text.
 	if err == nil && n.Func != tsl.NotOp && len(leftArgs) > 0 {
 		s = leftArgsExpr{args: leftArgs, expr: s}
-- 
2.43.0


From 25801a3003ecd7f924bb06ab7c1a6518127364c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:02 +0000
Subject: [PATCH 37/43] fix: v4 evaluation: is null of an arithmetic expression
 is an error, as every other use of it

---
 v4/pkg/walkers/semantics/walk.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/v4/pkg/walkers/semantics/walk.go b/v4/pkg/walkers/semantics/walk.go
index 435dd4a..6d4f181 100644
--- a/v4/pkg/walkers/semantics/walk.go
+++ b/v4/pkg/walkers/semantics/walk.go
@@ -108,10 +108,16 @@ func Walk(n tsl.Node, eval EvalFunc) (bool, error) {
 		}
 
 		return false, tsl.UnexpectedLiteralError{Literal: fmt.Sprintf("%v", r.Left)}
-	case tsl.IsNotNilOp:
-		return l.Func != tsl.NullOp, nil
-	case tsl.IsNilOp:
-		return l.Func == tsl.NullOp, nil
+	case tsl.IsNotNilOp, tsl.IsNilOp:
+		switch l.Func {
+		case tsl.NullOp:
+			return n.Func == tsl.IsNilOp, nil
+		case tsl.StringOp, tsl.NumberOp:
+			return n.Func == tsl.IsNotNilOp, nil
+		}
+
+		// Arithmetic on the left hand side is not supported.
+		return false, tsl.UnexpectedLiteralError{Literal: l.Func}
 	case tsl.AndOp, tsl.OrOp:
 		return handleLogicalOp(n, eval)
 	case tsl.NotOp:
-- 
2.43.0


From e10dcd89a52c04c7c490d66f1f1df4bb7bc7406f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:53 +0000
Subject: [PATCH 38/43] fix: refuse element indexes that do not fit in a C int

---
 v6/pkg/tsl/tsl.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/v6/pkg/tsl/tsl.go b/v6/pkg/tsl/tsl.go
index 2610d77..606b0a7 100644
--- a/v6/pkg/tsl/tsl.go
+++ b/v6/pkg/tsl/tsl.go
@@ -225,5 +225,9 @@ func (n *TSLNode) AttachElement(index int, child *TSLNode) bool {
 	if n == nil || child == nil || n.Type() != KindArrayLiteral {
 		return false
 	}
+	// C.int may drop high bits of the index
+	if index < 0 || index >= int(C.get_array_size(n.cNode)) {
+		return false
+	}
 	return C.ast_attach_array_element(n.cNode, C.int(index), child.cNode) != 0
 }
-- 
2.43.0


From d26a5cfd8b364490254074765d194bd0223fa59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:21 +0000
Subject: [PATCH 39/43] fix: v5 and v4 guard the parser tables that concurrent
 ParseTSL calls share

---
 v4/pkg/tsl/tsl.go | 8 ++++++++
 v5/pkg/tsl/tsl.go | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/v4/pkg/tsl/tsl.go b/v4/pkg/tsl/tsl.go
index 5d1f08a..ea2fca9 100644
--- a/v4/pkg/tsl/tsl.go
+++ b/v4/pkg/tsl/tsl.go
@@ -16,11 +16,16 @@
 package tsl
 
 import (
+	"sync"
+
 	"github.com/antlr/antlr4/runtime/Go/antlr"
 
 	"github.com/yaacov/tree-search-language/v4/pkg/parser"
 )
 
+// parserMutex guards the prediction tables that all lexers and parsers share
+var parserMutex sync.Mutex
+
 // ParseTSL parses the input string into TSL tree.
 func ParseTSL(input string) (tree Node, err error) {
 	// Setup the ErrorListener.
@@ -40,6 +45,9 @@ func ParseTSL(input string) (tree Node, err error) {
 	p.RemoveErrorListeners()
 	p.AddErrorListener(errorListener)
 
+	parserMutex.Lock()
+	defer parserMutex.Unlock()
+
 	// Parse the expression (by walking the tree).
 	var listener Listener
 	antlr.ParseTreeWalkerDefault.Walk(&listener, p.Start())
diff --git a/v5/pkg/tsl/tsl.go b/v5/pkg/tsl/tsl.go
index c882193..53a3777 100644
--- a/v5/pkg/tsl/tsl.go
+++ b/v5/pkg/tsl/tsl.go
@@ -16,11 +16,16 @@
 package tsl
 
 import (
+	"sync"
+
 	"github.com/antlr/antlr4/runtime/Go/antlr"
 
 	"github.com/yaacov/tree-search-language/v5/pkg/parser"
 )
 
+// parserMutex guards the prediction tables that all lexers and parsers share
+var parserMutex sync.Mutex
+
 // ParseTSL parses the input string into TSL tree.
 func ParseTSL(input string) (tree Node, err error) {
 	// Setup the ErrorListener.
@@ -40,6 +45,9 @@ func ParseTSL(input string) (tree Node, err error) {
 	p.RemoveErrorListeners()
 	p.AddErrorListener(errorListener)
 
+	parserMutex.Lock()
+	defer parserMutex.Unlock()
+
 	// Parse the expression (by walking the tree).
 	var listener Listener
 	antlr.ParseTreeWalkerDefault.Walk(&listener, p.Start())
-- 
2.43.0


From 2f40b216b0d36846f250029fd1c6fc95c74db9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:53 +0000
Subject: [PATCH 40/43] fix: v5 tsl_gorm looks on_loan up in the column gorm
 makes for OnLoan

---
 v5/cmd/tsl_gorm/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/v5/cmd/tsl_gorm/main.go b/v5/cmd/tsl_gorm/main.go
index b1374d4..6d0ec9f 100644
--- a/v5/cmd/tsl_gorm/main.go
+++ b/v5/cmd/tsl_gorm/main.go
@@ -42,7 +42,7 @@ var columnNamesMap = map[string]string{
 	"author":      "author",
 	"spec.pages":  "pages",
 	"spec.rating": "rating",
-	"on_loan":     "onloan",
+	"on_loan":     "on_loan",
 }
 
 // checkColumnName checks if a coulumn name is valid in user space replace it
-- 
2.43.0


From 1cfcda575ad17c5432621a31116b3d8f4241b647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:53 +0000
Subject: [PATCH 41/43] fix: v5 tsl_mongo looks on_loan up under its document
 key

---
 v5/cmd/tsl_mongo/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/v5/cmd/tsl_mongo/main.go b/v5/cmd/tsl_mongo/main.go
index a34a9ab..a27dfa2 100644
--- a/v5/cmd/tsl_mongo/main.go
+++ b/v5/cmd/tsl_mongo/main.go
@@ -44,7 +44,7 @@ var columnNamesMap = map[string]string{
 	"author":      "author",
 	"spec.pages":  "spec.pages",
 	"spec.rating": "spec.rating",
-	"on_loan":     "onloan",
+	"on_loan":     "on-loan",
 }
 
 // checkColumnName checks if a coulumn name is valid in user space replace it
-- 
2.43.0


From 13be55e21c9e46b806de92ad1405967e7b50ae74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:02 +0000
Subject: [PATCH 42/43] fix: % of numbers outside the range of int64 (v6)

---
 v6/pkg/walkers/semantics/walk.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/v6/pkg/walkers/semantics/walk.go b/v6/pkg/walkers/semantics/walk.go
index 835091d..fd08a72 100644
--- a/v6/pkg/walkers/semantics/walk.go
+++ b/v6/pkg/walkers/semantics/walk.go
@@ -21,6 +21,7 @@ package semantics
 
 import (
 	"fmt"
+	"math"
 	"reflect"
 
 	"github.com/yaacov/tree-search-language/v6/pkg/tsl"
@@ -249,12 +250,13 @@ func evaluateMathExpression(operator tsl.Operator, leftVal, rightVal interface{}
 		if rightNum == 0 {
 			return nil, tsl.DivisionByZeroError{Operation: "modulus"}
 		}
-		divisor := int64(rightNum)
+		divisor := math.Trunc(rightNum)
 		if divisor == 0 {
 			// The modulus is taken on the integer parts: 0 < |divisor| < 1 is zero too
 			return nil, tsl.DivisionByZeroError{Operation: "modulus"}
 		}
-		return float64(int64(leftNum) % divisor), nil
+		// Numbers outside the range of int64 have an integer part too
+		return math.Mod(math.Trunc(leftNum), divisor), nil
 	default:
 		return nil, tsl.UnexpectedOperatorError{Operator: operator}
 	}
-- 
2.43.0


From 9c85f193bf3958c683ad6a3cb3a915db3afa0929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:02 +0000
Subject: [PATCH 43/43] fix: not between is the opposite of between for NaN too
 (v5, v4)

---
 v4/pkg/walkers/semantics/walk.go | 3 ++-
 v5/pkg/walkers/semantics/walk.go | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/v4/pkg/walkers/semantics/walk.go b/v4/pkg/walkers/semantics/walk.go
index 6d4f181..cb6d615 100644
--- a/v4/pkg/walkers/semantics/walk.go
+++ b/v4/pkg/walkers/semantics/walk.go
@@ -352,7 +352,8 @@ func handleNumberArrayOp(n tsl.Node, eval EvalFunc) (bool, error) {
 		if !ok {
 			return false, tsl.UnexpectedLiteralError{Literal: n.Func}
 		}
-		return left < begin || left >= end, nil
+		// not x < y is not the same as x >= y when the number is a NaN
+		return !(left >= begin && left < end), nil
 	case tsl.InOp:
 		b := false
 		for _, node := range right {
diff --git a/v5/pkg/walkers/semantics/walk.go b/v5/pkg/walkers/semantics/walk.go
index df740f9..e27fd2b 100644
--- a/v5/pkg/walkers/semantics/walk.go
+++ b/v5/pkg/walkers/semantics/walk.go
@@ -655,7 +655,8 @@ func handleNumberArrayOp(n tsl.Node, eval EvalFunc) (bool, error) {
 		if !ok {
 			return false, tsl.UnexpectedLiteralError{Literal: n.Func}
 		}
-		return left < begin || left >= end, nil
+		// not x < y is not the same as x >= y when the number is a NaN
+		return !(left >= begin && left < end), nil
 	case tsl.InOp:
 		b := false
 		for _, node := range right {
-- 
2.43.0

