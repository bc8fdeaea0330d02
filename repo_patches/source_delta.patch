From 654221b44c8f98f2729ef5d89894ff016886d155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:32 +0000
Subject: [PATCH 01/32] fix: report lexer and parser syntax errors from Parse

---
 parser.go | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/parser.go b/parser.go
index a95c699..b0877a0 100644
--- a/parser.go
+++ b/parser.go
@@ -62,15 +62,16 @@ func (lst *errorListener) SyntaxError(recognizer antlr.Recognizer, offendingSymb
 // as string literals (i.e. quoted.)
 
 func Parse(input string) (Path, error) {
-	pr := getParser(input)
-	pr.RemoveErrorListeners()
-	errListener := errorListener{}
-	pr.AddErrorListener(&errListener)
-	if errListener.err != nil {
-		return Path{}, fmt.Errorf("%w, input: %s", errListener.err, input)
+	if input == "/" {
+		return Append(SelectRootPath), nil
 	}
+	pr, errListener := getParser(input)
 	if len(input) > 0 && input[0] == '/' {
-		p, err := astSimplePath(pr.SimplePath().(*parser.SimplePathContext).SimplePathExpr())
+		c := pr.SimplePath()
+		if errListener.err != nil {
+			return Path{}, fmt.Errorf("%w, input: %s", errListener.err, input)
+		}
+		p, err := astSimplePath(c.(*parser.SimplePathContext).SimplePathExpr())
 		if err != nil {
 			return p, err
 		}
@@ -78,20 +79,27 @@ func Parse(input string) (Path, error) {
 	}
 
 	c := pr.Path()
+	if errListener.err != nil {
+		return Path{}, fmt.Errorf("%w, input: %s", errListener.err, input)
+	}
 	// Build a matcher from AST
 	return astPath(c.Expression())
 }
 
-// GetParser returns a parser that will parse the input string
-func getParser(input string) *parser.JsonpathParser {
+// GetParser returns a parser that will parse the input string, and
+// the listener that collects the first syntax error detected by the
+// lexer or the parser
+func getParser(input string) (*parser.JsonpathParser, *errorListener) {
+	errListener := &errorListener{}
 	lexer := parser.NewJsonpathLexer(antlr.NewInputStream(input))
 	lexer.RemoveErrorListeners()
-	errListener := errorListener{}
-	lexer.AddErrorListener(&errListener)
+	lexer.AddErrorListener(errListener)
 	stream := antlr.NewCommonTokenStream(lexer, 0)
 	p := parser.NewJsonpathParser(stream)
 	p.BuildParseTrees = true
-	return p
+	p.RemoveErrorListeners()
+	p.AddErrorListener(errListener)
+	return p, errListener
 }
 
 func astPath(ctx parser.IExpressionContext) (path Path, err error) {
-- 
2.43.0


From 7df8d60334cab9338ea410d3f62790bb970ef941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:52 +0000
Subject: [PATCH 02/32] fix: MapModel.Key reports missing keys as missing

---
 docmodel.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/docmodel.go b/docmodel.go
index 8776056..7155418 100644
--- a/docmodel.go
+++ b/docmodel.go
@@ -62,7 +62,8 @@ func (MapModel) Key(in any, key string) (any, bool) {
 	if !ok {
 		return nil, false
 	}
-	return obj[key], true
+	value, ok := obj[key]
+	return value, ok
 }
 
 func (MapModel) Keys(in any) []string {
-- 
2.43.0


From 1dde0c31512105ab6118436bdee2125b6d64d705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:53 +0000
Subject: [PATCH 03/32] fix: negative index before the start of an array
 selects nothing

---
 slice.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/slice.go b/slice.go
index f9d2d23..9a4c66d 100644
--- a/slice.go
+++ b/slice.go
@@ -21,6 +21,8 @@ func isArray(p DocPath) bool {
 	return p.Last().Type == ArrayNode
 }
 
+// normalizeIndex returns the non-negative array index for a possibly
+// negative index, or -1 if there is no such index
 func normalizeIndex(index any, len int) int {
 	i, ok := valueAsInt(index)
 	if !ok {
@@ -32,7 +34,20 @@ func normalizeIndex(index any, len int) int {
 	if -len <= i {
 		return i + len
 	}
-	return 0
+	return -1
+}
+
+// normalizeBound is similar to normalizeIndex, but bounds before the
+// start of the array are clamped to the start of the array
+func normalizeBound(bound any, len int) int {
+	i, ok := valueAsInt(bound)
+	if !ok {
+		return -1
+	}
+	if i < -len {
+		return 0
+	}
+	return normalizeIndex(i, len)
 }
 
 func (sel *indexSelector) match(ctx *context) bool {
@@ -93,7 +108,7 @@ func getRange(ctx *context, start, end expression, len int) (from, to int) {
 	var s int
 	if start != nil {
 		ivalue, _ := start.evaluate(ctx)
-		s = normalizeIndex(ivalue.value, len)
+		s = normalizeBound(ivalue.value, len)
 	}
 	if s < 0 {
 		return -1, -1
@@ -101,7 +116,7 @@ func getRange(ctx *context, start, end expression, len int) (from, to int) {
 	var e int
 	if end != nil {
 		ivalue, _ := end.evaluate(ctx)
-		e = normalizeIndex(ivalue.value, len)
+		e = normalizeBound(ivalue.value, len)
 	} else {
 		e = len
 	}
-- 
2.43.0


From edfd4c897cbd5c9a5cdd6bdcea802f1b2eb9d49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:54 +0000
Subject: [PATCH 04/32] fix: honor the start of a slice that ends with an empty
 step

---
 parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index b0877a0..4303096 100644
--- a/parser.go
+++ b/parser.go
@@ -345,7 +345,7 @@ func astSlice(ctx *parser.SliceContext) (selector, error) {
 	}
 	if expressions[2] == nil {
 		return &rangeSelector{
-			start: exprValue{value: 0},
+			start: expressions[0],
 			end:   expressions[1],
 		}, nil
 	}
-- 
2.43.0


From 2ff1f5b32ba8fc600c396b8449f7630c6ce9bed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:55 +0000
Subject: [PATCH 05/32] fix: visit value nodes once during recursive descent

---
 path.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/path.go b/path.go
index 9033815..32a8d07 100644
--- a/path.go
+++ b/path.go
@@ -183,9 +183,6 @@ func evaluateAt(ctx *context, path Path, pathIx int, capture func(DocPath)) erro
 		node := ctx.path.Last().Node
 		switch ctx.doc.Type(node) {
 		case ValueNode:
-			if err := evaluateAt(ctx, path, pathIx+1, capture); err != nil {
-				return err
-			}
 		case ObjectNode:
 			for _, key := range ctx.doc.Keys(node) {
 				value, _ := ctx.doc.Key(node, key)
-- 
2.43.0


From 3396e456885d6efe6f3187e05e8d60462cda948c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:57 +0000
Subject: [PATCH 06/32] fix: trailing recursive descent does not panic

---
 parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 4303096..6b8bfed 100644
--- a/parser.go
+++ b/parser.go
@@ -139,7 +139,7 @@ func astPath(ctx parser.IExpressionContext) (path Path, err error) {
 			return
 		}
 		path.selectors = append(path.selectors, wildcardSelector{})
-		path.recursive = append(path.recursive[:len(path.recursive)-1], true)
+		path.recursive = append(path.recursive[:len(path.recursive)-1], true, false)
 		return
 
 	case *parser.RecursiveDescentExpressionContext:
-- 
2.43.0


From 9f8fc1834cf7fb2dcb7d39451f7f66482980ef8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:23 +0000
Subject: [PATCH 07/32] fix: slices with negative steps go backwards, and large
 steps do not overflow

---
 slice.go | 138 +++++++++++++++++++++++++------------------------------
 1 file changed, 62 insertions(+), 76 deletions(-)

diff --git a/slice.go b/slice.go
index 9a4c66d..7335888 100644
--- a/slice.go
+++ b/slice.go
@@ -165,49 +165,69 @@ type sliceSelector struct {
 	step  expression
 }
 
-func (sel *sliceSelector) match(ctx *context) bool {
-	if !isArrayElement(ctx.path) {
-		return false
+// getReverseRange returns the first and one past the last index of a
+// slice that goes backwards
+func getReverseRange(ctx *context, start, end expression, len int) (from, to int, valid bool) {
+	bound := func(expr expression) (int, bool) {
+		ivalue, _ := expr.evaluate(ctx)
+		i, ok := valueAsInt(ivalue.value)
+		if !ok {
+			return 0, false
+		}
+		if i < 0 {
+			i += len
+		}
+		if i < 0 {
+			return -1, true
+		}
+		if i >= len {
+			return len - 1, true
+		}
+		return i, true
 	}
-	n := ctx.doc.Len(ctx.path.P[len(ctx.path.P)-2].Node)
-	start, end := getRange(ctx, sel.start, sel.end, n)
-	if start < 0 {
-		return false
+	from, to, valid = len-1, -1, true
+	if start != nil {
+		from, valid = bound(start)
 	}
-	index := ctx.path.Last().Index
-	if index < start || index >= end {
-		return false
+	if valid && end != nil {
+		to, valid = bound(end)
 	}
-	var step int
-	if start < end {
-		step = 1
-	} else {
-		step = -1
+	return
+}
+
+// getBounds returns the slice bounds and the step for an array of
+// length len. Returns false if the slice cannot select anything
+func (sel *sliceSelector) getBounds(ctx *context, len int) (start, end, step int, valid bool) {
+	ivalue, err := sel.step.evaluate(ctx)
+	if err != nil {
+		return
 	}
-	if sel.step != nil {
-		ivalue, err := sel.step.evaluate(ctx)
-		if err != nil {
-			return false
-		}
-		var ok bool
-		step, ok = valueAsInt(ivalue.value)
-		if !ok {
-			return false
-		}
+	step, ok := valueAsInt(ivalue.value)
+	if !ok || step == 0 {
+		return
 	}
-	if step == 0 {
+	if step < 0 {
+		start, end, valid = getReverseRange(ctx, sel.start, sel.end, len)
+		return
+	}
+	start, end = getRange(ctx, sel.start, sel.end, len)
+	return start, end, step, start >= 0
+}
+
+func (sel *sliceSelector) match(ctx *context) bool {
+	if !isArrayElement(ctx.path) {
 		return false
 	}
-	if start < end {
-		if step < 0 {
-			return false
-		}
-		return (index-start)%step == 0
+	n := ctx.doc.Len(ctx.path.P[len(ctx.path.P)-2].Node)
+	start, end, step, valid := sel.getBounds(ctx, n)
+	if !valid {
+		return false
 	}
+	index := ctx.path.Last().Index
 	if step > 0 {
-		return false
+		return index >= start && index < end && (index-start)%step == 0
 	}
-	return (start-index)%(-step) == 0
+	return index <= start && index > end && (start-index)%(-step) == 0
 }
 
 func (sel *sliceSelector) selectChildNodes(ctx *context) (children iterator, canSelect bool) {
@@ -215,54 +235,20 @@ func (sel *sliceSelector) selectChildNodes(ctx *context) (children iterator, can
 		return emptyIterator{}, true
 	}
 	n := ctx.doc.Len(ctx.path.Last().Node)
-	start, end := getRange(ctx, sel.start, sel.end, n)
-	if start < 0 {
-		return emptyIterator{}, true
-	}
-	var step int
-	if start < end {
-		step = 1
-	} else {
-		step = -1
-	}
-	if sel.step != nil {
-		ivalue, err := sel.step.evaluate(ctx)
-		if err != nil {
-			return nil, false
-		}
-		var ok bool
-		step, ok = valueAsInt(ivalue.value)
-		if !ok {
-			return nil, false
-		}
-	}
-	if step == 0 {
+	start, end, step, valid := sel.getBounds(ctx, n)
+	if !valid || n == 0 {
 		return emptyIterator{}, true
 	}
-	if start < end {
-		if step < 0 {
-			return emptyIterator{}, true
-		}
-
-		if end > n {
-			end = n
-		}
-		return &rangeIterator{
-			doc:   ctx.doc,
-			node:  ctx.path.Last().Node,
-			from:  start,
-			to:    end,
-			step:  step,
-			state: 0,
-		}, true
+	if end > n {
+		end = n
 	}
-	if step > 0 {
-		return emptyIterator{}, true
+	// Steps longer than the array cannot select a second element
+	if step > n {
+		step = n
 	}
-	if start >= n {
-		return emptyIterator{}, true
+	if step < -n {
+		step = -n
 	}
-
 	return &rangeIterator{
 		doc:   ctx.doc,
 		node:  ctx.path.Last().Node,
-- 
2.43.0


From e9b5d643054907a86aeccf162a8ab07b10b55f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:24 +0000
Subject: [PATCH 08/32] fix: accept slices and unions after recursive descent

---
 parser.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/parser.go b/parser.go
index 6b8bfed..cfd6383 100644
--- a/parser.go
+++ b/parser.go
@@ -172,6 +172,20 @@ func astPath(ctx parser.IExpressionContext) (path Path, err error) {
 		path.recursive = append(path.recursive, right.recursive...)
 		return
 
+	case *parser.RecursiveDescentMemberIndexExpressionContext:
+		var left, right Path
+		if left, err = astPath(expr.Expression()); err != nil {
+			return
+		}
+		if right, err = astBracketedSelector(expr.AllIndexExpression()); err != nil {
+			return
+		}
+		// Combine paths
+		path.selectors = append(left.selectors, right.selectors...)
+		path.recursive = append(left.recursive[:len(left.recursive)-1], true)
+		path.recursive = append(path.recursive, right.recursive...)
+		return
+
 	case *parser.ArrayLiteralExpressionContext: // Paths of the form where member index is at the end(...[0]) appear like array literals
 		list := expr.ArrayLiteral().(*parser.ArrayLiteralContext).ElementList().(*parser.ElementListContext).AllExpression()
 		path, err = astBracketedSelectorExpressions(list)
-- 
2.43.0


From 29c4b015c2733ae351078c614523f2015830ca35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:47 +0000
Subject: [PATCH 09/32] fix: root selector matches only the root, and does not
 compare nodes

---
 path.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/path.go b/path.go
index 32a8d07..34547f7 100644
--- a/path.go
+++ b/path.go
@@ -218,10 +218,7 @@ func evaluateAt(ctx *context, path Path, pathIx int, capture func(DocPath)) erro
 type rootElementSelector struct{}
 
 func (rootElementSelector) match(ctx *context) bool {
-	if ctx.path.Len() == 1 {
-		return true
-	}
-	return ctx.path.Last().Node == ctx.doc.Root()
+	return ctx.path.Len() == 1
 }
 
 func (rootElementSelector) selectChildNodes(*context) (children iterator, canSelect bool) {
-- 
2.43.0


From 315adadc7bcb096630b01ce13f58c52c076c66a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:49 +0000
Subject: [PATCH 10/32] fix: evaluate $ paths in expressions from the document
 root

---
 expression.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/expression.go b/expression.go
index b874fcd..4b9ee3b 100644
--- a/expression.go
+++ b/expression.go
@@ -249,6 +249,15 @@ type pathExpression struct {
 
 func (expr pathExpression) evaluate(ctx *context) (exprValue, error) {
 	result := make([]any, 0)
+	if len(expr.path.selectors) > 0 {
+		if _, ok := expr.path.selectors[0].(rootElementSelector); ok {
+			// Evaluate from the document root, not from the current node
+			ctx = &context{
+				doc:  ctx.doc,
+				path: DocPath{P: ctx.path.P[:1:1]},
+			}
+		}
+	}
 	err := evaluateAt(ctx, expr.path, 0, func(item DocPath) {
 		result = append(result, item.Last().Node)
 	})
-- 
2.43.0


From 0cdfb4787386a72cfcf55598ae5c5494bcb920d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:50 +0000
Subject: [PATCH 11/32] fix: a path that selects nothing is false

---
 expression.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/expression.go b/expression.go
index 4b9ee3b..f4a2f3b 100644
--- a/expression.go
+++ b/expression.go
@@ -99,6 +99,10 @@ func (c exprValue) asBool() bool {
 	if s, ok := value.(string); ok {
 		return len(s) != 0
 	}
+	if list, ok := c.value.([]any); ok {
+		// A list of nodes selected by a path, empty if there are none
+		return len(list) != 0
+	}
 	return c.value != nil
 }
 
-- 
2.43.0


From 4d981dd1d369847b55d3c3199eeb5d84d363a8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:51 +0000
Subject: [PATCH 12/32] fix: unary minus negates the value of its operand

---
 expression.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expression.go b/expression.go
index f4a2f3b..09b8bab 100644
--- a/expression.go
+++ b/expression.go
@@ -123,7 +123,7 @@ func (u unaryMinusExpression) evaluate(ctx *context) (exprValue, error) {
 	if err != nil {
 		return exprValue{}, err
 	}
-	num := valueAsNumber(c)
+	num := valueAsNumber(c.value)
 	if num == nil {
 		return exprValue{}, nil
 	}
-- 
2.43.0


From 73b3013b401477bb475c45e0159fb196930bcea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:53 +0000
Subject: [PATCH 13/32] fix: false has a numeric value

---
 expression.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/expression.go b/expression.go
index 09b8bab..43c5af0 100644
--- a/expression.go
+++ b/expression.go
@@ -44,8 +44,11 @@ func valueAsNumber(value any) any {
 		return f
 	}
 	b, ok := value.(bool)
-	if ok && b {
-		return 1
+	if ok {
+		if b {
+			return 1
+		}
+		return 0
 	}
 	s, ok := value.(string)
 	if ok {
-- 
2.43.0


From 95f7bf7c4c7120b704fbce39230ba663bc301fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:54 +0000
Subject: [PATCH 14/32] fix: do not truncate floats when comparing to integers

---
 expression.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/expression.go b/expression.go
index 43c5af0..11930f9 100644
--- a/expression.go
+++ b/expression.go
@@ -185,7 +185,7 @@ func (expr equalityExpression) evaluate(ctx *context) (exprValue, error) {
 			return exprValue{value: i == j}, nil
 		}
 		if f, ok := rightValue.(float64); ok {
-			return exprValue{value: i == int(f)}, nil
+			return exprValue{value: float64(i) == f}, nil
 		}
 		return exprValue{value: false}, nil
 	}
@@ -348,10 +348,20 @@ func compareExpr(ctx *context, left, right expression) (int, bool, error) {
 	}
 
 	if i, ok := lvalue.(int); ok {
-		j, ok := valueAsInt(rvalue)
-		if !ok {
+		n := valueAsNumber(rvalue)
+		if n == nil {
 			return 0, false, nil
 		}
+		if f, ok := n.(float64); ok {
+			if float64(i) < f {
+				return -1, true, nil
+			}
+			if float64(i) > f {
+				return 1, true, nil
+			}
+			return 0, true, nil
+		}
+		j := n.(int)
 		if i < j {
 			return -1, true, nil
 		}
-- 
2.43.0


From 8d34126278b5115dd26f4953c11e09ece7edfe1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:21 +0000
Subject: [PATCH 15/32] fix: null is equal to null

---
 expression.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/expression.go b/expression.go
index 11930f9..60d5964 100644
--- a/expression.go
+++ b/expression.go
@@ -180,6 +180,10 @@ func (expr equalityExpression) evaluate(ctx *context) (exprValue, error) {
 	leftValue := left.getValue()
 	rightValue := right.getValue()
 
+	if leftValue == nil && rightValue == nil {
+		return exprValue{value: true}, nil
+	}
+
 	if i, ok := leftValue.(int); ok {
 		if j, ok := rightValue.(int); ok {
 			return exprValue{value: i == j}, nil
@@ -226,6 +230,10 @@ func (expr equality3Expression) evaluate(ctx *context) (exprValue, error) {
 	}
 	leftValue := left.getValue()
 	rightValue := right.getValue()
+
+	if leftValue == nil && rightValue == nil {
+		return exprValue{value: true}, nil
+	}
 	if i, ok := leftValue.(int); ok {
 		if j, ok := rightValue.(int); ok {
 			return exprValue{value: i == j}, nil
-- 
2.43.0


From d71cad277ffeb759020de9f6f2021b8358971ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:22 +0000
Subject: [PATCH 16/32] fix: use node contents instead of raw document model
 nodes in expressions

---
 expression.go | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/expression.go b/expression.go
index 60d5964..48920f7 100644
--- a/expression.go
+++ b/expression.go
@@ -31,6 +31,32 @@ type nodeValue struct {
 	doc  DocModel
 }
 
+// getValue returns the value of a value node, and a slice containing
+// the elements of an array node. For an object node, returns the
+// nodeValue itself, because it has no value.
+func (n nodeValue) getValue() any {
+	switch n.doc.Type(n.node) {
+	case ArrayNode:
+		items := n.elements()
+		for i := range items {
+			items[i] = items[i].(nodeValue).getValue()
+		}
+		return items
+	case ObjectNode:
+		return n
+	}
+	return n.doc.Value(n.node)
+}
+
+// elements returns the elements of an array node
+func (n nodeValue) elements() []any {
+	items := make([]any, 0)
+	for i := 0; i < n.doc.Len(n.node); i++ {
+		items = append(items, nodeValue{node: n.doc.Elem(n.node, i), doc: n.doc})
+	}
+	return items
+}
+
 func (c exprValue) evaluate(*context) (exprValue, error) { return c, nil }
 
 // Return an int, float, bool, or string as int or float64. If not convertable, returns nil
@@ -61,7 +87,7 @@ func valueAsNumber(value any) any {
 			return f
 		}
 	}
-	if n, ok := value.(nodeValue); ok {
+	if n, ok := value.(nodeValue); ok && n.doc.Type(n.node) == ValueNode {
 		return valueAsNumber(n.doc.Value(n.node))
 	}
 	return nil
@@ -112,7 +138,7 @@ func (c exprValue) asBool() bool {
 func (c exprValue) getValue() any {
 	n, ok := c.value.(nodeValue)
 	if ok {
-		return n.doc.Value(n.node)
+		return n.getValue()
 	}
 	return c.value
 }
-- 
2.43.0


From 2fe268b2eed62758f0e6de7d7678591f25708c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:23 +0000
Subject: [PATCH 17/32] fix: in operator looks up the value in the list, or in
 the array node

---
 expression.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/expression.go b/expression.go
index 48920f7..7fed66f 100644
--- a/expression.go
+++ b/expression.go
@@ -705,16 +705,17 @@ func (expr inExpression) evaluate(ctx *context) (exprValue, error) {
 	arr, ok := r.value.([]any)
 	if !ok {
 		arr = []any{r.value}
+		if n, ok := r.value.(nodeValue); ok && n.doc.Type(n.node) == ArrayNode {
+			arr = n.elements()
+		}
 	}
 	for _, x := range arr {
-		var v any
-		if n, ok := x.(nodeValue); ok {
-			v = n.doc.Value(n.node)
-		} else {
-			v = x
+		eq, err := equalityExpression{left: l, right: exprValue{value: x}}.evaluate(ctx)
+		if err != nil {
+			return exprValue{}, err
 		}
-		if l == v {
-			return exprValue{value: true}, nil
+		if eq.asBool() {
+			return eq, nil
 		}
 	}
 	return exprValue{value: false}, nil
-- 
2.43.0


From aa8605fc7f6b58b7842158c85e9b6cc53b660d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:02 +0000
Subject: [PATCH 18/32] fix: accept paths that continue after recursive descent
 in expressions

---
 expression.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/expression.go b/expression.go
index 7fed66f..4b3d935 100644
--- a/expression.go
+++ b/expression.go
@@ -1133,6 +1133,18 @@ func astExpression(ctx parser.IExpressionContext, inPath bool) (expression, erro
 				if e := parse(c); e != nil {
 					return e, nil
 				}
+			case *parser.RecursiveDescentExpressionContext:
+				if e := parse(c); e != nil {
+					return e, nil
+				}
+			case *parser.RecursiveDescentTermExpressionContext:
+				if e := parse(c); e != nil {
+					return e, nil
+				}
+			case *parser.RecursiveDescentMemberIndexExpressionContext:
+				if e := parse(c); e != nil {
+					return e, nil
+				}
 			}
 		}
 	}
-- 
2.43.0


From dbff94b5af15ecbc071191de5cca407e4cac332d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:04 +0000
Subject: [PATCH 19/32] fix: decode all string escape sequences

---
 expression.go | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/expression.go b/expression.go
index 4b3d935..6f348b7 100644
--- a/expression.go
+++ b/expression.go
@@ -5,6 +5,8 @@ import (
 	"math"
 	"strconv"
 	"strings"
+	"unicode"
+	"unicode/utf16"
 
 	"github.com/antlr4-go/antlr/v4"
 
@@ -1197,7 +1199,14 @@ var singleEscapeRunes = map[rune]rune{
 	'f':  '\f',
 	'n':  '\n',
 	'r':  '\r',
+	't':  '\t',
 	'v':  '\v',
+	'0':  0,
+	// Line continuations
+	'\n':     -1,
+	'\r':     -1,
+	'\u2028': -1,
+	'\u2029': -1,
 }
 
 func unescapeString(in string) string {
@@ -1213,21 +1222,19 @@ func unescapeString(in string) string {
 				if len(buf) == 2 {
 					hex = false
 					esc = false
-					v, _ := strconv.ParseInt(string(buf), 16, 8)
+					v, _ := strconv.ParseInt(string(buf), 16, 32)
 					out = append(out, rune(v))
 					buf = nil
 				}
 			} else if uni {
 				buf = append(buf, r)
-				if len(buf) > 1 && buf[0] == '{' {
+				if buf[0] == '{' {
 					if r == '}' {
-						v, _ := strconv.ParseInt(string(buf[1:]), 16, 32)
+						v, _ := strconv.ParseInt(string(buf[1:len(buf)-1]), 16, 32)
 						out = append(out, rune(v))
 						buf = nil
 						uni = false
 						esc = false
-					} else {
-						out = append(out, r)
 					}
 				} else if len(buf) == 4 {
 					v, _ := strconv.ParseInt(string(buf), 16, 32)
@@ -1243,17 +1250,26 @@ func unescapeString(in string) string {
 				uni = true
 				buf = make([]rune, 0, 4)
 			} else {
-				if x, ok := singleEscapeRunes[r]; ok {
+				if x, ok := singleEscapeRunes[r]; !ok {
+					out = append(out, r)
+				} else if x >= 0 {
 					out = append(out, x)
 				}
 				esc = false
 			}
 		} else if r == '\\' {
 			esc = true
-		} else {
+		} else if r != '\n' && r != '\r' { // Only line continuations have these
 			out = append(out, r)
 		}
 	}
+	// Combine surrogate pairs
+	for i := 0; i+1 < len(out); i++ {
+		if r := utf16.DecodeRune(out[i], out[i+1]); r != unicode.ReplacementChar {
+			out[i] = r
+			out = append(out[:i+1], out[i+2:]...)
+		}
+	}
 	return string(out)
 }
 
-- 
2.43.0


From 4ad708059ac7cc53fb2ffa70875c49f8dca607ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:05 +0000
Subject: [PATCH 20/32] fix: numeric literals with digit separators and upper
 case exponents

---
 expression.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/expression.go b/expression.go
index 6f348b7..7a76781 100644
--- a/expression.go
+++ b/expression.go
@@ -1169,8 +1169,8 @@ func astLiteral(ctx *parser.LiteralContext) exprValue {
 
 func numericLiteral(ctx *parser.NumericLiteralContext) any {
 	if lit := ctx.DecimalLiteral(); lit != nil {
-		number := lit.GetText()
-		if strings.IndexRune(number, 'e') != -1 || strings.IndexRune(number, '.') != -1 {
+		number := strings.Replace(lit.GetText(), "_", "", -1)
+		if strings.IndexAny(number, "eE.") != -1 {
 			v, _ := strconv.ParseFloat(number, 64)
 			return float64(v)
 		}
@@ -1179,12 +1179,12 @@ func numericLiteral(ctx *parser.NumericLiteralContext) any {
 	}
 
 	if lit := ctx.HexIntegerLiteral(); lit != nil {
-		v, _ := strconv.ParseInt(lit.GetText()[2:], 16, 64)
+		v, _ := strconv.ParseInt(strings.Replace(lit.GetText()[2:], "_", "", -1), 16, 64)
 		return int(v)
 	}
 
 	if lit := ctx.OctalIntegerLiteral2(); lit != nil {
-		v, _ := strconv.ParseInt(lit.GetText()[2:], 8, 64)
+		v, _ := strconv.ParseInt(strings.Replace(lit.GetText()[2:], "_", "", -1), 8, 64)
 		return int(v)
 	}
 	lit := ctx.BinaryIntegerLiteral().GetText()[2:]
-- 
2.43.0


From 88d78000422d106a18feff20f18bb5e767c1f9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:06 +0000
Subject: [PATCH 21/32] fix: literal keys of simple paths are used as they are
 written

---
 simplepath.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simplepath.go b/simplepath.go
index 312a806..532809c 100644
--- a/simplepath.go
+++ b/simplepath.go
@@ -20,7 +20,8 @@ func astSimplePath(ctx parser.ISimplePathExprContext) (path Path, err error) {
 		}
 		path.selectors = []selector{
 			&keySelector{
-				key: v.String(),
+				key:  lit.GetText(),
+				expr: v,
 			},
 		}
 		path.recursive = []bool{false}
-- 
2.43.0


From f05a27cc8ebe106063f3b07853fd8a72fb721a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:07 +0000
Subject: [PATCH 22/32] fix: paths passed to callbacks and derived paths do not
 share storage

---
 docpath.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/docpath.go b/docpath.go
index f00616a..42d1b86 100644
--- a/docpath.go
+++ b/docpath.go
@@ -17,7 +17,7 @@ type Segment struct {
 
 // Add a key-value to the path. The value is of type valueType. Returns the new path
 func (path DocPath) Key(key string, value any, valueType NodeType) DocPath {
-	path.P = append(path.P, Segment{
+	path.P = append(path.P[:len(path.P):len(path.P)], Segment{
 		Node: value,
 		Name: key,
 		Type: valueType,
@@ -27,7 +27,7 @@ func (path DocPath) Key(key string, value any, valueType NodeType) DocPath {
 
 // Add an array index-value to the path. The value is of type valueType. Returns the new path
 func (path DocPath) Index(index int, value any, valueType NodeType) DocPath {
-	path.P = append(path.P, Segment{
+	path.P = append(path.P[:len(path.P):len(path.P)], Segment{
 		Node:  value,
 		Index: index,
 		Type:  valueType,
@@ -36,7 +36,7 @@ func (path DocPath) Index(index int, value any, valueType NodeType) DocPath {
 }
 
 func (path DocPath) Push(seg Segment) DocPath {
-	path.P = append(path.P, seg)
+	path.P = append(path.P[:len(path.P):len(path.P)], seg)
 	return path
 }
 
-- 
2.43.0


From 3fc0baf1b8e8f3e58be5126baa1f055c4e9c0ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:08 +0000
Subject: [PATCH 23/32] fix: IndexSelectorPath does not select the empty key

---
 path.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/path.go b/path.go
index 34547f7..0e9c736 100644
--- a/path.go
+++ b/path.go
@@ -64,7 +64,7 @@ func KeySelectorPath(key string) Path {
 // Returns a path that selects an index
 func IndexSelectorPath(index int) Path {
 	return Path{
-		selectors: []selector{&keySelector{expr: exprValue{value: index}}},
+		selectors: []selector{&keySelector{key: strconv.Itoa(index), expr: exprValue{value: index}}},
 		recursive: []bool{false},
 	}
 }
-- 
2.43.0


From 83d802053f0c5b04c27cf95dc97cfbc2b6681b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:33 +0000
Subject: [PATCH 24/32] fix: MakeKeyString and Join quote and escape all
 strings that are not identifiers

---
 escape.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/escape.go b/escape.go
index 7574379..0f0d84a 100644
--- a/escape.go
+++ b/escape.go
@@ -5,19 +5,33 @@ import (
 	"unicode"
 )
 
-const acceptableChars = "_*$.,@!~#%^"
+const acceptableChars = "_"
+
+// These are not identifiers in a path expression
+var reservedWords = map[string]struct{}{
+	"":      {},
+	"in":    {},
+	"null":  {},
+	"true":  {},
+	"false": {},
+}
 
 // MakeKeyString quotes or escapes the input string if necessary to be
 // used in a path expression
 func MakeKeyString(input string) string {
 	// If input has all digits, letters, and _, no need for escape or
 	// quote
-	bad := false
+	_, bad := reservedWords[input]
 	for i, r := range input {
 		if i == 0 && unicode.IsDigit(r) {
 			bad = true
 			break
 		}
+		// The lexer has its own Unicode tables, so only trust ASCII
+		if r > unicode.MaxASCII {
+			bad = true
+			break
+		}
 		if !unicode.IsDigit(r) && !unicode.IsLetter(r) && strings.IndexRune(acceptableChars, r) == -1 {
 			bad = true
 			break
@@ -27,6 +41,9 @@ func MakeKeyString(input string) string {
 		return input
 	}
 
+	// Backslashes and line breaks must be escaped
+	input = strings.NewReplacer("\\", "\\\\", "\n", "\\n", "\r", "\\r").Replace(input)
+
 	// Does it have double-quote?
 	if strings.IndexRune(input, '"') != -1 {
 		if strings.IndexRune(input, '\'') != -1 {
-- 
2.43.0


From ce56b78bcb87da153624abc8d217ec82765434a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:22 +0000
Subject: [PATCH 25/32] fix: strings are not ordered with node lists, arrays
 and objects

---
 expression.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/expression.go b/expression.go
index 7a76781..89994f0 100644
--- a/expression.go
+++ b/expression.go
@@ -430,6 +430,10 @@ func compareExpr(ctx *context, left, right expression) (int, bool, error) {
 	if i, ok := lvalue.(string); ok {
 		j, ok := rvalue.(string)
 		if !ok {
+			switch rvalue.(type) {
+			case []any, nodeValue:
+				return 0, false, nil
+			}
 			j = fmt.Sprint(rvalue)
 		}
 		if i < j {
-- 
2.43.0


From a5496fd4c9ac126dc7f66e7eab1e81de4cc9b8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:51 +0000
Subject: [PATCH 26/32] fix: slices and unions after .. are part of the
 recursive descent

---
 parser.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index cfd6383..6267f17 100644
--- a/parser.go
+++ b/parser.go
@@ -159,7 +159,13 @@ func astPath(ctx parser.IExpressionContext) (path Path, err error) {
 
 	case *parser.MemberIndexExpressionContext:
 		var left, right Path
-		if left, err = astPath(expr.Expression()); err != nil {
+		leftExpr := expr.Expression()
+		// The grammar also derives ..[] as a trailing .. followed by []
+		term, recursive := leftExpr.(*parser.RecursiveDescentTermExpressionContext)
+		if recursive {
+			leftExpr = term.Expression()
+		}
+		if left, err = astPath(leftExpr); err != nil {
 			return
 		}
 		indexExprs := expr.AllIndexExpression()
@@ -168,7 +174,7 @@ func astPath(ctx parser.IExpressionContext) (path Path, err error) {
 		}
 		// Combine paths
 		path.selectors = append(left.selectors, right.selectors...)
-		path.recursive = append(left.recursive[:len(left.recursive)-1], false)
+		path.recursive = append(left.recursive[:len(left.recursive)-1], recursive)
 		path.recursive = append(path.recursive, right.recursive...)
 		return
 
-- 
2.43.0


From bc1dbe862a34f00a9af046b09bd579a22a793b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:53 +0000
Subject: [PATCH 27/32] fix: reject slices with two bounds that are not
 separated by a colon

---
 parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser.go b/parser.go
index 6267f17..0bc6821 100644
--- a/parser.go
+++ b/parser.go
@@ -345,6 +345,10 @@ func astSlice(ctx *parser.SliceContext) (selector, error) {
 				index++
 			}
 		} else if expr, ok := ch.(parser.IExpressionContext); ok {
+			if expressions[index] != nil {
+				// The grammar does not require the second colon
+				return nil, ErrInvalidExpression(ctx.GetText())
+			}
 			var err error
 			expressions[index], err = astExpression(expr, false)
 			if err != nil {
-- 
2.43.0


From a2a7927e0b464292e595e33362f4b2a597989c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:48 +0000
Subject: [PATCH 28/32] fix: negative indexes in all numeric notations

---
 expression.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/expression.go b/expression.go
index 89994f0..a643fa2 100644
--- a/expression.go
+++ b/expression.go
@@ -807,7 +807,13 @@ func astExpression(ctx parser.IExpressionContext, inPath bool) (expression, erro
 		switch expr := ctx.(type) {
 		case *parser.LiteralExpressionContext:
 			return astLiteral(expr.Literal().(*parser.LiteralContext)), nil
-		case *parser.UnaryPlusExpressionContext, *parser.UnaryMinusExpressionContext, *parser.AdditiveExpressionContext:
+		case *parser.UnaryMinusExpressionContext:
+			if lit, ok := expr.Expression().(*parser.LiteralExpressionContext); ok && lit.Literal().NumericLiteral() != nil {
+				// A negative index, in any numeric notation
+				return astExpression(expr, false)
+			}
+			return exprValue{value: expr.GetText()}, nil
+		case *parser.UnaryPlusExpressionContext, *parser.AdditiveExpressionContext:
 			return exprValue{value: expr.GetText()}, nil
 		case *parser.FilterExpressionContext:
 			x, err := astExpression(expr.Expression(), false)
-- 
2.43.0


From 4391869ceb0ff7afda6d3146a492582d532b28ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:08 +0000
Subject: [PATCH 29/32] fix: reject slices without the second colon wherever
 they occur

---
 parser.go | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/parser.go b/parser.go
index 0bc6821..ef0bcea 100644
--- a/parser.go
+++ b/parser.go
@@ -27,6 +27,24 @@ func (lst *errorListener) SyntaxError(recognizer antlr.Recognizer, offendingSymb
 	}
 }
 
+// sliceListener reports slices in which two bounds are not separated
+// by a colon, because the grammar does not require the second colon
+type sliceListener struct {
+	parser.BaseJsonpathListener
+	lst *errorListener
+}
+
+func (s *sliceListener) ExitSlice(ctx *parser.SliceContext) {
+	bound := false
+	for _, ch := range ctx.GetChildren() {
+		_, isBound := ch.(parser.IExpressionContext)
+		if bound && isBound && s.lst.err == nil {
+			s.lst.err = ErrInvalidExpression(ctx.GetText())
+		}
+		bound = isBound
+	}
+}
+
 // Parse JSON path expression and return the compiled path.
 // The JSON path expression follows the syntax given in
 //
@@ -99,6 +117,7 @@ func getParser(input string) (*parser.JsonpathParser, *errorListener) {
 	p.BuildParseTrees = true
 	p.RemoveErrorListeners()
 	p.AddErrorListener(errListener)
+	p.AddParseListener(&sliceListener{lst: errListener})
 	return p, errListener
 }
 
@@ -345,10 +364,6 @@ func astSlice(ctx *parser.SliceContext) (selector, error) {
 				index++
 			}
 		} else if expr, ok := ch.(parser.IExpressionContext); ok {
-			if expressions[index] != nil {
-				// The grammar does not require the second colon
-				return nil, ErrInvalidExpression(ctx.GetText())
-			}
 			var err error
 			expressions[index], err = astExpression(expr, false)
 			if err != nil {
-- 
2.43.0


From 843bbe588a916490221e9a01decc4345b4c4c487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:58 +0000
Subject: [PATCH 30/32] fix: reject conditions that use names like $a, or names
 before .., as paths

---
 expression.go | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/expression.go b/expression.go
index a643fa2..e5a562a 100644
--- a/expression.go
+++ b/expression.go
@@ -732,13 +732,21 @@ func isPathExpression(ctx parser.IExpressionContext) bool {
 	switch expr := ctx.(type) {
 	case *parser.SelectorExpressionContext:
 		return true
-	case *parser.ChainExpressionContext, *parser.MemberIndexExpressionContext:
-		text := expr.GetText()
-		if strings.HasPrefix(text, "@") || strings.HasPrefix(text, "$") {
-			return true
+	case *parser.ChainExpressionContext, *parser.MemberIndexExpressionContext,
+		*parser.RecursiveDescentExpressionContext, *parser.RecursiveDescentTermExpressionContext, *parser.RecursiveDescentMemberIndexExpressionContext:
+		return startsAtNode(expr)
+	}
+	return false
+}
+
+// Determines if the expression starts with @ or $. An identifier that
+// starts with $ does not.
+func startsAtNode(tree antlr.Tree) bool {
+	for tree.GetChildCount() > 0 {
+		if sel, ok := tree.(*parser.SelectorContext); ok {
+			return sel.GetText() == "@" || sel.GetText() == "$"
 		}
-	case *parser.RecursiveDescentExpressionContext, *parser.RecursiveDescentTermExpressionContext, *parser.RecursiveDescentMemberIndexExpressionContext:
-		return true
+		tree = tree.GetChild(0)
 	}
 	return false
 }
@@ -1119,9 +1127,8 @@ func astExpression(ctx parser.IExpressionContext, inPath bool) (expression, erro
 		// Check if this is a path
 		// Path starts with @ or $
 		if ch := ctx.GetChild(0); ch != nil {
-			parse := func(c interface{ GetText() string }) expression {
-				tok := c.GetText()
-				if strings.HasPrefix(tok, "@") || strings.HasPrefix(tok, "$") {
+			parse := func(c antlr.Tree) expression {
+				if startsAtNode(c) {
 					if p, err := astPath(ctx); err == nil {
 						return pathExpression{path: p}
 					}
-- 
2.43.0


From 17bbbf0f7177ab00986c05f9d34f9a0eaefa3f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:26 +0000
Subject: [PATCH 31/32] fix: strings spelling hexadecimals, infinities or NaN
 are not numbers in arithmetic

---
 expression.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/expression.go b/expression.go
index e5a562a..637eb5d 100644
--- a/expression.go
+++ b/expression.go
@@ -84,8 +84,9 @@ func valueAsNumber(value any) any {
 		if err == nil {
 			return i
 		}
+		// Only decimals, not hexadecimals, infinities or NaN
 		f, err := strconv.ParseFloat(s, 64)
-		if err == nil {
+		if err == nil && !strings.ContainsAny(s, "xXnN") {
 			return f
 		}
 	}
-- 
2.43.0


From 7287ca3dbd765a8c5427b1b758534ea172cb9cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:38 +0000
Subject: [PATCH 32/32] fix: NaN is neither at most nor at least another number

---
 expression.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/expression.go b/expression.go
index 637eb5d..e8efa80 100644
--- a/expression.go
+++ b/expression.go
@@ -396,7 +396,8 @@ func compareExpr(ctx *context, left, right expression) (int, bool, error) {
 			if float64(i) > f {
 				return 1, true, nil
 			}
-			return 0, true, nil
+			// NaN is neither
+			return 0, float64(i) == f, nil
 		}
 		j := n.(int)
 		if i < j {
@@ -425,7 +426,8 @@ func compareExpr(ctx *context, left, right expression) (int, bool, error) {
 		if i > j {
 			return 1, true, nil
 		}
-		return 0, true, nil
+		// NaN is neither
+		return 0, i == j, nil
 	}
 
 	if i, ok := lvalue.(string); ok {
-- 
2.43.0

