From 46f572ca27bbd3b7733a202b35dbbfaebe851e84 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 15:54:44 +0000
Subject: [PATCH 01/60] fix: read every YAML spelling of a boolean (True, TRUE)
 instead of turning it into false

---
 engine/eval.go | 12 +++++++++---
 engine/util.go |  6 ++++++
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/engine/eval.go b/engine/eval.go
index 78be504..fa80386 100644
--- a/engine/eval.go
+++ b/engine/eval.go
@@ -57,9 +57,15 @@ func (e *engine) Eval(node *core.YispNode, env *core.Env, mode core.EvalMode) (*
 		}
 
 	case core.KindBool:
-		val := false
-		if node.Value == "true" {
-			val = true
+		val, ok := node.Value.(bool)
+		if !ok {
+			bStr, ok := node.Value.(string)
+			if !ok {
+				return nil, core.NewEvaluationError(node, fmt.Sprintf("invalid bool type: %T", node.Value))
+			}
+			if err := decodeScalar("!!bool", bStr, &val); err != nil {
+				return nil, core.NewEvaluationError(node, fmt.Sprintf("invalid bool value: %s", bStr))
+			}
 		}
 		result = &core.YispNode{
 			Kind:  core.KindBool,
diff --git a/engine/util.go b/engine/util.go
index d9279a8..326d764 100644
--- a/engine/util.go
+++ b/engine/util.go
@@ -24,6 +24,12 @@ func PrintYispNode(tag string, node *core.YispNode) {
 	fmt.Println(tag, string(b))
 }
 
+// decodeScalar resolves the text of a scalar the way the YAML decoder does
+func decodeScalar(tag, value string, out any) error {
+	node := yaml.Node{Kind: yaml.ScalarNode, Tag: tag, Value: value}
+	return node.Decode(out)
+}
+
 func EvalAndCastNode[T any](node *core.YispNode, env *core.Env, mode core.EvalMode, e core.Engine) (T, error) {
 	evaluated, err := e.Eval(node, env, mode)
 	if err != nil {
-- 
2.43.0


From 0b5bca09dd9cf9590bc1c393cc04f80f204961f1 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 15:54:50 +0000
Subject: [PATCH 02/60] fix: resolve integers like YAML does (hexadecimal,
 octal such as 0644, underscores)

---
 engine/eval.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engine/eval.go b/engine/eval.go
index fa80386..f3c1eab 100644
--- a/engine/eval.go
+++ b/engine/eval.go
@@ -109,7 +109,7 @@ func (e *engine) Eval(node *core.YispNode, env *core.Env, mode core.EvalMode) (*
 			}
 
 			var err error
-			i, err = strconv.Atoi(iStr)
+			err = decodeScalar("!!int", iStr, &i)
 			if err != nil {
 				return nil, core.NewEvaluationError(node, fmt.Sprintf("invalid int value: %s", iStr))
 			}
-- 
2.43.0


From 7d29d77186a34066f24c5f39fa40c83f6b8a2571 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 15:54:57 +0000
Subject: [PATCH 03/60] fix: keep the exact value of floats (no rounding to six
 digits, .inf/.nan accepted)

---
 engine/eval.go   |  3 +--
 engine/render.go | 26 +++++++++++++++++++++++++-
 2 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/engine/eval.go b/engine/eval.go
index f3c1eab..c538e37 100644
--- a/engine/eval.go
+++ b/engine/eval.go
@@ -2,7 +2,6 @@ package engine
 
 import (
 	"fmt"
-	"strconv"
 	"strings"
 
 	"github.com/totegamma/yisp/core"
@@ -85,7 +84,7 @@ func (e *engine) Eval(node *core.YispNode, env *core.Env, mode core.EvalMode) (*
 			}
 
 			var err error
-			f, err = strconv.ParseFloat(fStr, 64)
+			err = decodeScalar("!!float", fStr, &f)
 			if err != nil {
 				return nil, core.NewEvaluationError(node, fmt.Sprintf("invalid float value: %s", fStr))
 			}
diff --git a/engine/render.go b/engine/render.go
index 91a17fc..bdc6482 100644
--- a/engine/render.go
+++ b/engine/render.go
@@ -3,6 +3,9 @@ package engine
 import (
 	"bytes"
 	"fmt"
+	"math"
+	"strconv"
+	"strings"
 
 	"github.com/totegamma/yisp/core"
 	"github.com/totegamma/yisp/internal/yaml"
@@ -16,6 +19,27 @@ func (e *engine) getLineComment(node *core.YispNode) string {
 	return lineComment
 }
 
+// formatFloat writes a float so that it reads back as the same float
+func formatFloat(value any) string {
+	f, ok := value.(float64)
+	if !ok {
+		return fmt.Sprintf("%f", value)
+	}
+	switch {
+	case math.IsNaN(f):
+		return ".nan"
+	case math.IsInf(f, 1):
+		return ".inf"
+	case math.IsInf(f, -1):
+		return "-.inf"
+	}
+	str := strconv.FormatFloat(f, 'g', -1, 64)
+	if !strings.ContainsAny(str, ".e") {
+		str += ".0"
+	}
+	return str
+}
+
 // Render converts a YispNode to a yaml.Node
 func (e *engine) renderYamlNodes(node *core.YispNode) (*yaml.Node, error) {
 	switch node.Kind {
@@ -55,7 +79,7 @@ func (e *engine) renderYamlNodes(node *core.YispNode) (*yaml.Node, error) {
 	case core.KindFloat:
 		return &yaml.Node{
 			Kind:        yaml.ScalarNode,
-			Value:       fmt.Sprintf("%f", node.Value),
+			Value:       formatFloat(node.Value),
 			Tag:         "!!float",
 			HeadComment: node.Attr.HeadComment,
 			LineComment: e.getLineComment(node),
-- 
2.43.0


From 1366b80a454bbef2cc91912e7644b84b02e8f7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 15:55:15 +0000
Subject: [PATCH 04/60] fix: *name? yields the variable when it is defined, and
 empty path segments do not panic

---
 core/env.go | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/core/env.go b/core/env.go
index f99aa75..871df33 100644
--- a/core/env.go
+++ b/core/env.go
@@ -89,14 +89,9 @@ func (e *Env) Get(key string) (*YispNode, bool) {
 
 	split := strings.Split(key, ".")
 
-	fst := split[0]
-	optional := false
-	if fst[len(fst)-1] == '?' {
-		fst = fst[:len(fst)-1]
-		optional = true
-	}
+	fst, optional := strings.CutSuffix(split[0], "?")
 
-	value, ok := e.Vars[split[0]]
+	value, ok := e.Vars[fst]
 	if !ok {
 		if e.Parent != nil {
 			return e.Parent.Get(key)
@@ -111,12 +106,7 @@ func (e *Env) Get(key string) (*YispNode, bool) {
 	}
 
 	for _, key := range split[1:] {
-		if key[len(key)-1] == '?' {
-			key = key[:len(key)-1]
-			optional = true
-		} else {
-			optional = false
-		}
+		key, optional = strings.CutSuffix(key, "?")
 
 		maps, ok := value.Value.(map[string]*YispNode)
 		if !ok {
-- 
2.43.0


From 30854a211a22c92d2d00fc5d36bc2edd8d2d2467 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 15:55:46 +0000
Subject: [PATCH 05/60] fix: report operators called without arguments as an
 error instead of panicking

---
 engine/apply.go | 8 ++++++++
 engine/util.go  | 4 ++--
 lib/files.go    | 6 +++++-
 lib/maps.go     | 4 ++++
 lib/strings.go  | 4 ++++
 5 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/engine/apply.go b/engine/apply.go
index 9d76a39..ec525f1 100644
--- a/engine/apply.go
+++ b/engine/apply.go
@@ -396,11 +396,19 @@ func opInclude(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.E
 }
 
 func opProgn(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Engine) (*core.YispNode, error) {
+	if len(cdr) == 0 {
+		return nil, core.NewEvaluationError(nil, "progn requires at least 1 argument, got 0")
+	}
+
 	return cdr[len(cdr)-1], nil
 }
 
 func opPipeline(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Engine) (*core.YispNode, error) {
 
+	if len(cdr) == 0 {
+		return nil, core.NewEvaluationError(nil, "pipeline requires at least 1 argument, got 0")
+	}
+
 	value := cdr[0]
 
 	for _, fn := range cdr[1:] {
diff --git a/engine/util.go b/engine/util.go
index 326d764..a9ba997 100644
--- a/engine/util.go
+++ b/engine/util.go
@@ -58,7 +58,7 @@ func EvalAndCastAny[T any](value any, env *core.Env, mode core.EvalMode, e core.
 // It only compares values of the same type
 func compareValues(cdr []*core.YispNode, opName string, expectEqual bool) (*core.YispNode, error) {
 	if len(cdr) != 2 {
-		return nil, core.NewEvaluationError(cdr[0], fmt.Sprintf("%s requires 2 arguments, got %d", opName, len(cdr)))
+		return nil, core.NewEvaluationError(nil, fmt.Sprintf("%s requires 2 arguments, got %d", opName, len(cdr)))
 	}
 
 	firstNode := cdr[0]
@@ -121,7 +121,7 @@ func compareValues(cdr []*core.YispNode, opName string, expectEqual bool) (*core
 // It handles both integers and floating point numbers
 func compareNumbers(cdr []*core.YispNode, opName string, cmp func(float64, float64) bool) (*core.YispNode, error) {
 	if len(cdr) != 2 {
-		return nil, core.NewEvaluationError(cdr[0], fmt.Sprintf("%s requires 2 arguments, got %d", opName, len(cdr)))
+		return nil, core.NewEvaluationError(nil, fmt.Sprintf("%s requires 2 arguments, got %d", opName, len(cdr)))
 	}
 
 	firstNode := cdr[0]
diff --git a/lib/files.go b/lib/files.go
index 00fa479..7754c50 100644
--- a/lib/files.go
+++ b/lib/files.go
@@ -18,6 +18,10 @@ func init() {
 
 func opGlob(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Engine) (*core.YispNode, error) {
 
+	if len(cdr) == 0 {
+		return nil, core.NewEvaluationError(nil, "glob requires at least 1 argument, got 0")
+	}
+
 	result := make([]any, 0)
 
 	for _, node := range cdr {
@@ -91,7 +95,7 @@ func opGlob(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Engi
 func opReadAll(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Engine) (*core.YispNode, error) {
 
 	if len(cdr) != 1 {
-		return nil, core.NewEvaluationError(cdr[0], "read-file expects exactly one argument")
+		return nil, core.NewEvaluationError(nil, "read-file expects exactly one argument")
 	}
 
 	str, ok := cdr[0].Value.(string)
diff --git a/lib/maps.go b/lib/maps.go
index 32ad9e5..6237b51 100644
--- a/lib/maps.go
+++ b/lib/maps.go
@@ -18,6 +18,10 @@ func init() {
 
 func opFromEntries(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Engine) (*core.YispNode, error) {
 
+	if len(cdr) != 1 {
+		return nil, core.NewEvaluationError(nil, fmt.Sprintf("fromEntries requires 1 argument, got %d", len(cdr)))
+	}
+
 	node := cdr[0]
 	arr, ok := node.Value.([]any)
 	if !ok {
diff --git a/lib/strings.go b/lib/strings.go
index 2042682..c1cfc6d 100644
--- a/lib/strings.go
+++ b/lib/strings.go
@@ -101,6 +101,10 @@ func opQuote(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Eng
 
 func opFormat(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Engine) (*core.YispNode, error) {
 
+	if len(cdr) == 0 {
+		return nil, core.NewEvaluationError(nil, "format requires at least 1 argument, got 0")
+	}
+
 	formatNode := cdr[0]
 	argsNode := cdr[1:]
 
-- 
2.43.0


From 73ba93cff6cb18d3ae71b99afb29605a25ca8eaa Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 15:55:53 +0000
Subject: [PATCH 06/60] fix: reject malformed lambda parameter lists and
 surplus arguments instead of panicking

---
 engine/apply.go | 4 ++++
 engine/eval.go  | 7 ++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/engine/apply.go b/engine/apply.go
index ec525f1..347038d 100644
--- a/engine/apply.go
+++ b/engine/apply.go
@@ -23,6 +23,10 @@ func (e *engine) Apply(car *core.YispNode, cdr []*core.YispNode, env *core.Env,
 			return nil, core.NewEvaluationError(car, fmt.Sprintf("invalid lambda type: %T", car.Value))
 		}
 
+		if len(cdr) > len(lambda.Arguments) {
+			return nil, core.NewEvaluationError(car, fmt.Sprintf("lambda takes %d arguments, got %d", len(lambda.Arguments), len(cdr)))
+		}
+
 		newEnv := lambda.Clojure.CreateChild()
 		for i, node := range cdr {
 			if lambda.Arguments[i].Schema != nil {
diff --git a/engine/eval.go b/engine/eval.go
index c538e37..af81a74 100644
--- a/engine/eval.go
+++ b/engine/eval.go
@@ -188,8 +188,13 @@ func (e *engine) Eval(node *core.YispNode, env *core.Env, mode core.EvalMode) (*
 				paramsNode := nodes[1]
 				bodyNode := nodes[2]
 
+				paramItems, ok := paramsNode.Value.([]any)
+				if !ok {
+					return nil, core.NewEvaluationError(paramsNode, fmt.Sprintf("lambda requires a list of parameters, got %v", paramsNode.Kind))
+				}
+
 				params := make([]core.TypedSymbol, 0)
-				for _, item := range paramsNode.Value.([]any) {
+				for _, item := range paramItems {
 					paramNode, ok := item.(*core.YispNode)
 					if !ok {
 						return nil, core.NewEvaluationError(nil, fmt.Sprintf("invalid param type: %T", item))
-- 
2.43.0


From c2d6ecbcbdba482d5a15f138910102c8af23b7fb Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 15:56:01 +0000
Subject: [PATCH 07/60] fix: a variable named if, lambda or import is called,
 not taken for the special form

---
 engine/eval.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/engine/eval.go b/engine/eval.go
index af81a74..46eb695 100644
--- a/engine/eval.go
+++ b/engine/eval.go
@@ -150,9 +150,9 @@ func (e *engine) Eval(node *core.YispNode, env *core.Env, mode core.EvalMode) (*
 			}
 
 			// check special forms
-			op, ok := nodes[0].Value.(string)
-			if !ok {
-				op = ""
+			op := ""
+			if nodes[0].Kind == core.KindString {
+				op, _ = nodes[0].Value.(string)
 			}
 			switch op {
 			case "if":
-- 
2.43.0


From ab45a4daf5364fefd52939ab58c611e3b874bd03 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 15:56:45 +0000
Subject: [PATCH 08/60] fix: compare lists and maps structurally in ==, != and
 lists.contains instead of panicking or by identity

---
 core/util.go   | 86 ++++++++++++++++++++++++++++++++++++++++++++++++++
 engine/util.go | 42 +-----------------------
 lib/lists.go   |  2 +-
 3 files changed, 88 insertions(+), 42 deletions(-)

diff --git a/core/util.go b/core/util.go
index 5ab2c5e..40f768d 100644
--- a/core/util.go
+++ b/core/util.go
@@ -2,9 +2,11 @@ package core
 
 import (
 	"bufio"
+	"cmp"
 	"encoding/json"
 	"fmt"
 	"io"
+	"math"
 	"net/http"
 	"net/url"
 	"os"
@@ -450,3 +452,87 @@ func IsTruthy(node *YispNode) (bool, error) {
 		return false, nil
 	}
 }
+
+// Equal reports whether two nodes hold the same data. Numbers are compared by
+// value, lists and maps structurally; other values of different types differ.
+func Equal(a, b *YispNode) bool {
+	switch v1 := a.Value.(type) {
+	case int:
+		switch v2 := b.Value.(type) {
+		case int:
+			return v1 == v2
+		case float64:
+			return !math.IsNaN(v2) && CompareIntFloat(v1, v2) == 0
+		}
+		return false
+	case float64:
+		switch v2 := b.Value.(type) {
+		case int:
+			return !math.IsNaN(v1) && CompareIntFloat(v2, v1) == 0
+		case float64:
+			return v1 == v2
+		}
+		return false
+	case string:
+		v2, ok := b.Value.(string)
+		return ok && v1 == v2
+	case bool:
+		v2, ok := b.Value.(bool)
+		return ok && v1 == v2
+	case []any:
+		v2, ok := b.Value.([]any)
+		if !ok || len(v1) != len(v2) {
+			return false
+		}
+		for i := range v1 {
+			if !equalItems(v1[i], v2[i]) {
+				return false
+			}
+		}
+		return true
+	case *YispMap:
+		v2, ok := b.Value.(*YispMap)
+		if !ok || v1.Len() != v2.Len() {
+			return false
+		}
+		for key, item1 := range v1.AllFromFront() {
+			item2, ok := v2.Get(key)
+			if !ok || !equalItems(item1, item2) {
+				return false
+			}
+		}
+		return true
+	case nil:
+		return b.Value == nil
+	case *Lambda:
+		v2, ok := b.Value.(*Lambda)
+		return ok && v1 == v2
+	case *Schema:
+		v2, ok := b.Value.(*Schema)
+		return ok && v1 == v2
+	default:
+		return a == b
+	}
+}
+
+func equalItems(a, b any) bool {
+	node1, ok1 := a.(*YispNode)
+	node2, ok2 := b.(*YispNode)
+	return ok1 && ok2 && Equal(node1, node2)
+}
+
+// CompareIntFloat compares an integer with a float (not NaN) by exact value.
+// The result is negative, zero or positive like i-f.
+func CompareIntFloat(i int, f float64) int {
+	if f >= math.MaxInt64 {
+		return -1
+	}
+	if f < math.MinInt64 {
+		return 1
+	}
+	whole := math.Trunc(f)
+	if c := cmp.Compare(i, int(whole)); c != 0 {
+		return c
+	}
+	return cmp.Compare(whole, f)
+}
diff --git a/engine/util.go b/engine/util.go
index a9ba997..047cfe8 100644
--- a/engine/util.go
+++ b/engine/util.go
@@ -64,47 +64,7 @@ func compareValues(cdr []*core.YispNode, opName string, expectEqual bool) (*core
 	firstNode := cdr[0]
 	secondNode := cdr[1]
 
-	// Only compare values of the same type
-	equal := false
-
-	// Handle different type combinations
-	switch v1 := firstNode.Value.(type) {
-	case int:
-		switch v2 := secondNode.Value.(type) {
-		case int:
-			equal = v1 == v2
-		case float64:
-			equal = float64(v1) == v2
-		default:
-			equal = false // Different types
-		}
-	case float64:
-		switch v2 := secondNode.Value.(type) {
-		case int:
-			equal = v1 == float64(v2)
-		case float64:
-			equal = v1 == v2
-		default:
-			equal = false // Different types
-		}
-	case string:
-		switch v2 := secondNode.Value.(type) {
-		case string:
-			equal = v1 == v2
-		default:
-			equal = false // Different types
-		}
-	case bool:
-		switch v2 := secondNode.Value.(type) {
-		case bool:
-			equal = v1 == v2
-		default:
-			equal = false // Different types
-		}
-	default:
-		// For other types, we just check if they're the same type and value
-		equal = firstNode.Value == secondNode.Value
-	}
+	equal := core.Equal(firstNode, secondNode)
 
 	// For != operation, invert the result
 	if !expectEqual {
diff --git a/lib/lists.go b/lib/lists.go
index 75ae2be..b9aa1b9 100644
--- a/lib/lists.go
+++ b/lib/lists.go
@@ -129,7 +129,7 @@ func opListContains(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e c
 		if !ok {
 			return nil, core.NewEvaluationError(listNode, fmt.Sprintf("invalid item type: %T", item))
 		}
-		if itemNode.Value == elemNode.Value {
+		if core.Equal(itemNode, elemNode) {
 			return &core.YispNode{
 				Kind:  core.KindBool,
 				Value: true,
-- 
2.43.0


From 7e30b55992dd8b49664bf34cbd30b84ff1f415c0 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 15:56:53 +0000
Subject: [PATCH 09/60] fix: order large integers exactly instead of through
 float64

---
 engine/util.go | 48 ++++++++++++++++++++++++++++++++----------------
 1 file changed, 32 insertions(+), 16 deletions(-)

diff --git a/engine/util.go b/engine/util.go
index 047cfe8..2d06ad4 100644
--- a/engine/util.go
+++ b/engine/util.go
@@ -1,8 +1,10 @@
 package engine
 
 import (
+	gocmp "cmp"
 	"encoding/json"
 	"fmt"
+	"math"
 
 	"github.com/totegamma/yisp/core"
 	"github.com/totegamma/yisp/internal/yaml"
@@ -84,26 +86,40 @@ func compareNumbers(cdr []*core.YispNode, opName string, cmp func(float64, float
 		return nil, core.NewEvaluationError(nil, fmt.Sprintf("%s requires 2 arguments, got %d", opName, len(cdr)))
 	}
 
-	firstNode := cdr[0]
-	var firstNum float64
-	switch v := firstNode.Value.(type) {
-	case int:
-		firstNum = float64(v)
-	case float64:
-		firstNum = v
-	default:
-		return nil, core.NewEvaluationError(firstNode, fmt.Sprintf("invalid first argument type for %s: %T (value: %v)", opName, firstNode.Value, firstNode.Value))
+	for i, position := range []string{"first", "second"} {
+		switch cdr[i].Value.(type) {
+		case int, float64:
+		default:
+			return nil, core.NewEvaluationError(cdr[i], fmt.Sprintf("invalid %s argument type for %s: %T (value: %v)", position, opName, cdr[i].Value, cdr[i].Value))
+		}
 	}
 
-	secondNode := cdr[1]
-	var secondNum float64
-	switch v := secondNode.Value.(type) {
+	// Integers are not converted to float64, which would lose precision:
+	// the sign of the exact comparison is compared with 0 instead.
+	var firstNum, secondNum float64
+	switch v1 := cdr[0].Value.(type) {
 	case int:
-		secondNum = float64(v)
+		switch v2 := cdr[1].Value.(type) {
+		case int:
+			firstNum = float64(gocmp.Compare(v1, v2))
+		case float64:
+			if math.IsNaN(v2) {
+				firstNum = v2
+			} else {
+				firstNum = float64(core.CompareIntFloat(v1, v2))
+			}
+		}
 	case float64:
-		secondNum = v
-	default:
-		return nil, core.NewEvaluationError(secondNode, fmt.Sprintf("invalid second argument type for %s: %T (value: %v)", opName, secondNode.Value, secondNode.Value))
+		switch v2 := cdr[1].Value.(type) {
+		case int:
+			if math.IsNaN(v1) {
+				firstNum = v1
+			} else {
+				secondNum = float64(core.CompareIntFloat(v2, v1))
+			}
+		case float64:
+			firstNum, secondNum = v1, v2
+		}
 	}
 
 	return &core.YispNode{
-- 
2.43.0


From 8160e8e17d277c06212da7156b7513f4953f4e96 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 15:57:21 +0000
Subject: [PATCH 10/60] fix: fail when a result can not be written as YAML
 instead of dropping it silently

---
 engine/render.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/engine/render.go b/engine/render.go
index bdc6482..74a2f1b 100644
--- a/engine/render.go
+++ b/engine/render.go
@@ -241,6 +241,7 @@ func (e *engine) Render(node *core.YispNode) (string, error) {
 		buf := bytes.Buffer{}
 		enc := yaml.NewEncoder(&buf)
 		enc.SetIndent(2)
+		encoded := false
 		for _, item := range arr {
 			node, ok := item.(*core.YispNode)
 			if !ok {
@@ -255,9 +256,17 @@ func (e *engine) Render(node *core.YispNode) (string, error) {
 				continue
 			}
 
-			enc.Encode(rendered)
+			if err := enc.Encode(rendered); err != nil {
+				return "", err
+			}
+			encoded = true
+		}
+		if !encoded { // nothing to close
+			return "", nil
+		}
+		if err := enc.Close(); err != nil {
+			return "", err
 		}
-		enc.Close()
 		return buf.String(), nil
 
 	} else {
@@ -265,7 +274,10 @@ func (e *engine) Render(node *core.YispNode) (string, error) {
 		if err != nil {
 			return "", err
 		}
-		b, _ := yaml.Marshal(rendered)
+		b, err := yaml.Marshal(rendered)
+		if err != nil {
+			return "", err
+		}
 		return string(b), nil
 	}
 }
-- 
2.43.0


From 750d7e2568aafe3de39ec1cf9c1cc86258736122 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 15:57:28 +0000
Subject: [PATCH 11/60] fix: leave out functions and types nested in rendered
 data instead of crashing on them

---
 engine/render.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/engine/render.go b/engine/render.go
index 74a2f1b..f907c89 100644
--- a/engine/render.go
+++ b/engine/render.go
@@ -103,17 +103,20 @@ func (e *engine) renderYamlNodes(node *core.YispNode) (*yaml.Node, error) {
 		if !ok {
 			return nil, fmt.Errorf("invalid array value. Actual type: %T", node.Value)
 		}
-		results := make([]*yaml.Node, len(arr))
-		for i, item := range arr {
+		results := make([]*yaml.Node, 0, len(arr))
+		for _, item := range arr {
 			node, ok := item.(*core.YispNode)
 			if !ok {
 				return nil, fmt.Errorf("invalid item type: %T", item)
 			}
-			var err error
-			results[i], err = e.renderYamlNodes(node)
+			content, err := e.renderYamlNodes(node)
 			if err != nil {
 				return nil, err
 			}
+			if content == nil { // special object that is not rendered
+				continue
+			}
+			results = append(results, content)
 		}
 		return &yaml.Node{
 			Kind:        yaml.SequenceNode,
@@ -139,6 +142,9 @@ func (e *engine) renderYamlNodes(node *core.YispNode) (*yaml.Node, error) {
 			if err != nil {
 				return nil, err
 			}
+			if content == nil { // special object that is not rendered
+				continue
+			}
 
 			results = append(results, &yaml.Node{
 				Kind:        yaml.ScalarNode,
-- 
2.43.0


From dd3173aa72f8b493b12a77b20f77fd8c891562e4 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:00:55 +0000
Subject: [PATCH 12/60] fix: keep a line comment on its own key instead of
 repeating it on the next one

---
 engine/render.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/engine/render.go b/engine/render.go
index f907c89..c2efe22 100644
--- a/engine/render.go
+++ b/engine/render.go
@@ -19,6 +19,17 @@ func (e *engine) getLineComment(node *core.YispNode) string {
 	return lineComment
 }
 
+// getKeyLineComment returns the line comment of the key that holds node. The
+// source position goes there only for block collections: they start on the
+// line after the key, everything else carries its own line comment.
+func (e *engine) getKeyLineComment(node *core.YispNode, content *yaml.Node) string {
+	lineComment := node.Attr.KeyLineComment
+	if e.renderSources && len(content.Content) > 0 && content.Style&yaml.FlowStyle == 0 {
+		lineComment += node.Sourcemap()
+	}
+	return lineComment
+}
+
 // formatFloat writes a float so that it reads back as the same float
 func formatFloat(value any) string {
 	f, ok := value.(float64)
@@ -150,7 +161,7 @@ func (e *engine) renderYamlNodes(node *core.YispNode) (*yaml.Node, error) {
 				Kind:        yaml.ScalarNode,
 				Value:       key,
 				HeadComment: node.Attr.KeyHeadComment,
-				LineComment: e.getLineComment(node),
+				LineComment: e.getKeyLineComment(node, content),
 				FootComment: node.Attr.KeyFootComment,
 				Style:       node.Attr.KeyStyle,
 			})
-- 
2.43.0


From fadb5d394894964c3300f3163068a337e3368d1a Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:02:09 +0000
Subject: [PATCH 13/60] fix: map keys keep their own type and style (quoted
 keys stay strings, << only merges unquoted)

---
 core/types.go    | 11 +++++++++++
 engine/eval.go   |  4 +++-
 engine/parse.go  | 12 +++++++++++-
 engine/render.go | 22 +++++++++++++++++++++-
 4 files changed, 46 insertions(+), 3 deletions(-)

diff --git a/core/types.go b/core/types.go
index 2bfb08c..bfa8a74 100644
--- a/core/types.go
+++ b/core/types.go
@@ -92,6 +92,7 @@ type Attribute struct {
 	LineComment string
 	FootComment string
 
+	KeyTag   string
 	KeyStyle yaml.Style
 	Style    yaml.Style
 }
@@ -111,6 +112,16 @@ func (a Attribute) Merge(other Attribute) Attribute {
 	return merged
 }
 
+// WithKeyOf returns the attribute with everything about the key taken from other
+func (a Attribute) WithKeyOf(other Attribute) Attribute {
+	a.KeyHeadComment = other.KeyHeadComment
+	a.KeyLineComment = other.KeyLineComment
+	a.KeyFootComment = other.KeyFootComment
+	a.KeyTag = other.KeyTag
+	a.KeyStyle = other.KeyStyle
+	return a
+}
+
 func (a *Attribute) File() string {
 	if len(a.Sources) == 0 {
 		return ""
diff --git a/engine/eval.go b/engine/eval.go
index 46eb695..4dec4ea 100644
--- a/engine/eval.go
+++ b/engine/eval.go
@@ -412,7 +412,9 @@ func (e *engine) Eval(node *core.YispNode, env *core.Env, mode core.EvalMode) (*
 					return nil, core.NewEvaluationError(node, fmt.Sprintf("invalid merge item type: %T", val))
 				}
 			} else {
-				results.Set(key, val)
+				entry := *val // the value may come from elsewhere, the key is the one written here
+				entry.Attr = val.Attr.WithKeyOf(node.Attr)
+				results.Set(key, &entry)
 			}
 		}
 
diff --git a/engine/parse.go b/engine/parse.go
index 9232107..bdb536f 100644
--- a/engine/parse.go
+++ b/engine/parse.go
@@ -1,6 +1,8 @@
 package engine
 
 import (
+	"fmt"
+
 	"github.com/rs/xid"
 
 	"github.com/totegamma/yisp/core"
@@ -18,6 +20,9 @@ func Parse(filename string, node *yaml.Node) (*core.YispNode, error) {
 			return nil, nil
 		}
 		result, err = Parse(filename, node.Content[0])
+		if err != nil {
+			return nil, err
+		}
 		result.Attr = core.Attribute{
 			Sources: []core.FilePos{
 				{
@@ -67,8 +72,12 @@ func Parse(filename string, node *yaml.Node) (*core.YispNode, error) {
 			keyNode := node.Content[i]
 			valueNode := node.Content[i+1]
 
+			if keyNode.Kind != yaml.ScalarNode {
+				return nil, fmt.Errorf("%s:%d:%d: map keys must be scalars", filename, keyNode.Line, keyNode.Column)
+			}
+
 			key := keyNode.Value
-			if key == "<<" {
+			if keyNode.Tag == "!!merge" {
 				key = core.YISP_SPECIAL_MERGE_KEY + xid.New().String()
 			}
 
@@ -77,6 +86,7 @@ func Parse(filename string, node *yaml.Node) (*core.YispNode, error) {
 				return nil, err
 			}
 
+			value.Attr.KeyTag = keyNode.Tag
 			value.Attr.KeyStyle = keyNode.Style
 			value.Attr.KeyHeadComment = keyNode.HeadComment
 			value.Attr.KeyLineComment = keyNode.LineComment
diff --git a/engine/render.go b/engine/render.go
index c2efe22..7ac140f 100644
--- a/engine/render.go
+++ b/engine/render.go
@@ -30,6 +30,25 @@ func (e *engine) getKeyLineComment(node *core.YispNode, content *yaml.Node) stri
 	return lineComment
 }
 
+// keyTag returns the tag of the key that holds node: keys are strings and quoted
+// when they would read back as something else, unless the source had another type.
+func keyTag(node *core.YispNode) string {
+	switch node.Attr.KeyTag {
+	case "!!null", "!!bool", "!!int", "!!float", "!!timestamp", "!!binary":
+		return ""
+	default:
+		return "!!str"
+	}
+}
+
+// keyStyle returns the style of the key that holds node
+func keyStyle(key string, node *core.YispNode) yaml.Style {
+	if key == "<<" && node.Attr.KeyStyle == 0 { // would read back as a merge
+		return yaml.DoubleQuotedStyle
+	}
+	return node.Attr.KeyStyle
+}
+
 // formatFloat writes a float so that it reads back as the same float
 func formatFloat(value any) string {
 	f, ok := value.(float64)
@@ -160,10 +179,11 @@ func (e *engine) renderYamlNodes(node *core.YispNode) (*yaml.Node, error) {
 			results = append(results, &yaml.Node{
 				Kind:        yaml.ScalarNode,
 				Value:       key,
+				Tag:         keyTag(node),
 				HeadComment: node.Attr.KeyHeadComment,
 				LineComment: e.getKeyLineComment(node, content),
 				FootComment: node.Attr.KeyFootComment,
-				Style:       node.Attr.KeyStyle,
+				Style:       keyStyle(key, node),
 			})
 
 			results = append(results, content)
-- 
2.43.0


From 288f155ccc392725a4bd38fe72d99643fcf02910 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:03:18 +0000
Subject: [PATCH 14/60] fix: keep style and comments of a top-level value
 instead of replacing them with the document's

---
 engine/parse.go | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/engine/parse.go b/engine/parse.go
index bdb536f..bd9c243 100644
--- a/engine/parse.go
+++ b/engine/parse.go
@@ -23,19 +23,9 @@ func Parse(filename string, node *yaml.Node) (*core.YispNode, error) {
 		if err != nil {
 			return nil, err
 		}
-		result.Attr = core.Attribute{
-			Sources: []core.FilePos{
-				{
-					File:   filename,
-					Line:   node.Line,
-					Column: node.Column,
-				},
-			},
-			HeadComment: node.HeadComment,
-			LineComment: node.LineComment,
-			FootComment: node.FootComment,
-			Style:       node.Style,
-		}
+		result.Attr.HeadComment = joinComments(node.HeadComment, result.Attr.HeadComment)
+		result.Attr.LineComment = joinComments(node.LineComment, result.Attr.LineComment)
+		result.Attr.FootComment = joinComments(result.Attr.FootComment, node.FootComment)
 
 	case yaml.SequenceNode:
 		s := make([]any, len(node.Content))
@@ -176,3 +166,11 @@ func Parse(filename string, node *yaml.Node) (*core.YispNode, error) {
 
 	return result, err
 }
+
+// joinComments puts two comments of the same kind after each other
+func joinComments(first, second string) string {
+	if first == "" || second == "" {
+		return first + second
+	}
+	return first + "\n\n" + second
+}
-- 
2.43.0


From 0ca47c38debf90fafe7e67649829fb4a1f2a2696 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:04:32 +0000
Subject: [PATCH 15/60] fix: order keys of plain data and defaults
 deterministically

---
 core/parse.go  | 6 ++++--
 core/schema.go | 8 ++++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/core/parse.go b/core/parse.go
index 5fa819c..b107ab0 100644
--- a/core/parse.go
+++ b/core/parse.go
@@ -4,7 +4,9 @@ import (
 	"encoding/json"
 	"fmt"
 	"io"
+	"maps"
 	"reflect"
+	"slices"
 
 	"gopkg.in/yaml.v3"
 )
@@ -82,8 +84,8 @@ func ParseAny(filename string, v any) (*YispNode, error) {
 			return nil, fmt.Errorf("expected map[string]any, got %T", v)
 		}
 
-		for key, value := range dict {
-			itemNode, err := ParseAny(filename, value)
+		for _, key := range slices.Sorted(maps.Keys(dict)) { // the order must not vary between runs
+			itemNode, err := ParseAny(filename, dict[key])
 			if err != nil {
 				return nil, err
 			}
diff --git a/core/schema.go b/core/schema.go
index a4e0f1d..f0cd36d 100644
--- a/core/schema.go
+++ b/core/schema.go
@@ -5,6 +5,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"io"
+	"maps"
 	"net/http"
 	"os"
 	"path/filepath"
@@ -383,7 +384,9 @@ func (s *Schema) Validate(node *YispNode) error {
 		}
 
 		processed := make(map[string]bool)
-		for key, subSchema := range s.GetProperties() {
+		properties := s.GetProperties()
+		for _, key := range slices.Sorted(maps.Keys(properties)) {
+			subSchema := properties[key]
 			item, ok := m.Get(key)
 			if !ok {
 				if slices.Contains(s.Required, key) {
@@ -507,7 +510,8 @@ func (s *Schema) InterpolateDefaults(node *YispNode) error {
 		if !ok {
 			return NewEvaluationError(node, fmt.Sprintf("expected map, got %T", node.Value))
 		}
-		for key, subSchema := range s.Properties {
+		for _, key := range slices.Sorted(maps.Keys(s.Properties)) { // the order must not vary between runs
+			subSchema := s.Properties[key]
 			item, ok := m.Get(key)
 			if !ok {
 				if slices.Contains(s.Required, key) {
-- 
2.43.0


From c2dd3465323bfa23e2c8414ea77b231f8678dc42 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:04:55 +0000
Subject: [PATCH 16/60] fix: read JSON integers as integers and give plain data
 its regular number types

---
 core/parse.go  | 30 +++++++++++++++++++++++++++++-
 core/schema.go |  9 ++-------
 2 files changed, 31 insertions(+), 8 deletions(-)

diff --git a/core/parse.go b/core/parse.go
index b107ab0..8aa05bd 100644
--- a/core/parse.go
+++ b/core/parse.go
@@ -5,14 +5,20 @@ import (
 	"fmt"
 	"io"
 	"maps"
+	"math"
 	"reflect"
 	"slices"
+	"strconv"
 
 	"gopkg.in/yaml.v3"
 )
 
 func ParseAny(filename string, v any) (*YispNode, error) {
 
+	if number, ok := v.(json.Number); ok {
+		v = parseNumber(number)
+	}
+
 	typ := reflect.TypeOf(v)
 	if typ == nil {
 		return &YispNode{
@@ -42,6 +48,12 @@ func ParseAny(filename string, v any) (*YispNode, error) {
 			},
 		}, nil
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+		value := reflect.ValueOf(v)
+		if value.CanInt() {
+			v = int(value.Int())
+		} else if value.Uint() <= math.MaxInt64 {
+			v = int(value.Uint())
+		}
 		return &YispNode{
 			Kind:  KindInt,
 			Value: v,
@@ -56,7 +68,7 @@ func ParseAny(filename string, v any) (*YispNode, error) {
 	case reflect.Float32, reflect.Float64:
 		return &YispNode{
 			Kind:  KindFloat,
-			Value: v,
+			Value: reflect.ValueOf(v).Float(),
 			Attr: Attribute{
 				Sources: []FilePos{
 					{
@@ -134,9 +146,25 @@ func ParseAny(filename string, v any) (*YispNode, error) {
 	}
 }
 
+// parseNumber keeps integers integers, unlike decoding JSON into float64
+func parseNumber(number json.Number) any {
+	if i, err := strconv.ParseInt(number.String(), 10, 64); err == nil {
+		return i
+	}
+	if u, err := strconv.ParseUint(number.String(), 10, 64); err == nil {
+		return u
+	}
+	f, err := number.Float64()
+	if err != nil {
+		return number.String()
+	}
+	return f
+}
+
 func ParseJson(filename string, reader io.Reader) (*YispNode, error) {
 	var data any
 	decoder := json.NewDecoder(reader)
+	decoder.UseNumber()
 	if err := decoder.Decode(&data); err != nil {
 		return nil, fmt.Errorf("failed to decode JSON: %v", err)
 	}
diff --git a/core/schema.go b/core/schema.go
index f0cd36d..3a7459b 100644
--- a/core/schema.go
+++ b/core/schema.go
@@ -1,6 +1,7 @@
 package core
 
 import (
+	"bytes"
 	"encoding/base64"
 	"encoding/json"
 	"fmt"
@@ -149,13 +150,7 @@ func (s *Schema) ToYispNode() (*YispNode, error) {
 		return nil, err
 	}
 
-	var anyValue any
-	err = json.Unmarshal(jsonStr, &anyValue)
-	if err != nil {
-		return nil, err
-	}
-
-	return ParseAny("", anyValue)
+	return ParseJson("", bytes.NewReader(jsonStr))
 }
 
 func LoadSchemaFromURL(url string) (*Schema, error) {
-- 
2.43.0


From 5be7efb45761c274448badd8fc1eee3178d673ef Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:05:02 +0000
Subject: [PATCH 17/60] fix: read every document of a plain YAML file, not only
 the first

---
 core/parse.go | 42 ++++++++++++++++++++++++++++++++++--------
 1 file changed, 34 insertions(+), 8 deletions(-)

diff --git a/core/parse.go b/core/parse.go
index 8aa05bd..076c833 100644
--- a/core/parse.go
+++ b/core/parse.go
@@ -2,6 +2,7 @@ package core
 
 import (
 	"encoding/json"
+	"errors"
 	"fmt"
 	"io"
 	"maps"
@@ -177,18 +178,43 @@ func ParseJson(filename string, reader io.Reader) (*YispNode, error) {
 	return node, nil
 }
 
-// ParseYaml parses standard YAML (not yisp-extended YAML) into a YispNode
+// ParseYaml parses standard YAML (not yisp-extended YAML) into a YispNode.
+// Several documents become a list of top-level documents.
 func ParseYaml(filename string, reader io.Reader) (*YispNode, error) {
-	var data any
 	decoder := yaml.NewDecoder(reader)
-	if err := decoder.Decode(&data); err != nil {
-		return nil, fmt.Errorf("failed to decode YAML: %v", err)
+
+	nodes := make([]*YispNode, 0)
+	for {
+		var data any
+		err := decoder.Decode(&data)
+		if errors.Is(err, io.EOF) {
+			break
+		}
+		if err != nil {
+			return nil, fmt.Errorf("failed to decode YAML: %v", err)
+		}
+
+		node, err := ParseAny(filename, data)
+		if err != nil {
+			return nil, fmt.Errorf("failed to parse YAML: %v", err)
+		}
+		nodes = append(nodes, node)
 	}
 
-	node, err := ParseAny(filename, data)
-	if err != nil {
-		return nil, fmt.Errorf("failed to parse YAML: %v", err)
+	if len(nodes) == 1 {
+		return nodes[0], nil
 	}
 
-	return node, nil
+	documents := make([]any, 0)
+	for _, node := range nodes {
+		if node.Kind != KindNull {
+			documents = append(documents, node)
+		}
+	}
+
+	return &YispNode{
+		Kind:           KindArray,
+		Value:          documents,
+		IsDocumentRoot: true,
+	}, nil
 }
-- 
2.43.0


From de19bc24e8efd23ec7a0549c950f8f5832d1f76c Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:07:02 +0000
Subject: [PATCH 18/60] fix: check numeric bounds, multipleOf and string length
 exactly

---
 core/schema.go | 38 +++++++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/core/schema.go b/core/schema.go
index 3a7459b..f062d74 100644
--- a/core/schema.go
+++ b/core/schema.go
@@ -7,11 +7,13 @@ import (
 	"fmt"
 	"io"
 	"maps"
+	"math"
 	"net/http"
 	"os"
 	"path/filepath"
 	"slices"
 	"strings"
+	"unicode/utf8"
 )
 
 var schemaTypeToKind = map[string]Kind{
@@ -292,21 +294,26 @@ func (s *Schema) Validate(node *YispNode) error {
 		if node.Kind != KindInt {
 			return NewEvaluationError(node, fmt.Sprintf("expected int, got %s", node.Kind))
 		}
-		if s.Minimum != nil && node.Value.(int) < int(*s.Minimum) {
-			return NewEvaluationError(node, fmt.Sprintf("value %d is less than minimum %f", node.Value.(int), *s.Minimum))
+		value, ok := node.Value.(int)
+		if !ok {
+			return NewEvaluationError(node, fmt.Sprintf("integer %v is out of range", node.Value))
+		}
+		// bounds are not converted to int, which would cut off their fraction
+		if s.Minimum != nil && CompareIntFloat(value, *s.Minimum) < 0 {
+			return NewEvaluationError(node, fmt.Sprintf("value %d is less than minimum %f", value, *s.Minimum))
 		}
-		if s.Maximum != nil && node.Value.(int) > int(*s.Maximum) {
-			return NewEvaluationError(node, fmt.Sprintf("value %d is greater than maximum %f", node.Value.(int), *s.Maximum))
+		if s.Maximum != nil && CompareIntFloat(value, *s.Maximum) > 0 {
+			return NewEvaluationError(node, fmt.Sprintf("value %d is greater than maximum %f", value, *s.Maximum))
 		}
-		if s.ExclusiveMinimum != nil && node.Value.(int) <= int(*s.ExclusiveMinimum) {
-			return NewEvaluationError(node, fmt.Sprintf("value %d is not greater than exclusive minimum %f", node.Value.(int), *s.ExclusiveMinimum))
+		if s.ExclusiveMinimum != nil && CompareIntFloat(value, *s.ExclusiveMinimum) <= 0 {
+			return NewEvaluationError(node, fmt.Sprintf("value %d is not greater than exclusive minimum %f", value, *s.ExclusiveMinimum))
 		}
-		if s.ExclusiveMaximum != nil && node.Value.(int) >= int(*s.ExclusiveMaximum) {
-			return NewEvaluationError(node, fmt.Sprintf("value %d is not less than exclusive maximum %f", node.Value.(int), *s.ExclusiveMaximum))
+		if s.ExclusiveMaximum != nil && CompareIntFloat(value, *s.ExclusiveMaximum) >= 0 {
+			return NewEvaluationError(node, fmt.Sprintf("value %d is not less than exclusive maximum %f", value, *s.ExclusiveMaximum))
 		}
 		if s.MultipleOf != nil {
-			if node.Value.(int)%*s.MultipleOf != 0 {
-				return NewEvaluationError(node, fmt.Sprintf("value %d is not a multiple of %d", node.Value.(int), *s.MultipleOf))
+			if *s.MultipleOf == 0 || value%*s.MultipleOf != 0 {
+				return NewEvaluationError(node, fmt.Sprintf("value %d is not a multiple of %d", value, *s.MultipleOf))
 			}
 		}
 	case "float":
@@ -326,7 +333,7 @@ func (s *Schema) Validate(node *YispNode) error {
 			return NewEvaluationError(node, fmt.Sprintf("value %f is not less than exclusive maximum %f", node.Value.(float64), *s.ExclusiveMaximum))
 		}
 		if s.MultipleOf != nil {
-			if int(node.Value.(float64))%*s.MultipleOf != 0 {
+			if math.Mod(node.Value.(float64), float64(*s.MultipleOf)) != 0 {
 				return NewEvaluationError(node, fmt.Sprintf("value %f is not a multiple of %d", node.Value.(float64), *s.MultipleOf))
 			}
 		}
@@ -342,11 +349,12 @@ func (s *Schema) Validate(node *YispNode) error {
 				return NewEvaluationError(node, fmt.Sprintf("expected string, got %s", node.Kind))
 			}
 		}
-		if s.MinLength != nil && len(node.Value.(string)) < *s.MinLength {
-			return NewEvaluationError(node, fmt.Sprintf("string length %d is less than minimum %d", len(node.Value.(string)), *s.MinLength))
+		length := utf8.RuneCountInString(node.Value.(string)) // JSON schema counts characters
+		if s.MinLength != nil && length < *s.MinLength {
+			return NewEvaluationError(node, fmt.Sprintf("string length %d is less than minimum %d", length, *s.MinLength))
 		}
-		if s.MaxLength != nil && len(node.Value.(string)) > *s.MaxLength {
-			return NewEvaluationError(node, fmt.Sprintf("string length %d is greater than maximum %d", len(node.Value.(string)), *s.MaxLength))
+		if s.MaxLength != nil && length > *s.MaxLength {
+			return NewEvaluationError(node, fmt.Sprintf("string length %d is greater than maximum %d", length, *s.MaxLength))
 		}
 	case "array":
 		if node.Kind != KindArray {
-- 
2.43.0


From 8852c3c8fe26f72ea646ee1c01e5127ef1018e5c Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:07:09 +0000
Subject: [PATCH 19/60] fix: checking an int-or-string does not turn the number
 into a string

---
 core/schema.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/core/schema.go b/core/schema.go
index f062d74..4d6b27d 100644
--- a/core/schema.go
+++ b/core/schema.go
@@ -343,11 +343,9 @@ func (s *Schema) Validate(node *YispNode) error {
 				if node.Kind != KindInt {
 					return NewEvaluationError(node, fmt.Sprintf("expected string or int, got %s", node.Kind))
 				}
-				node.Kind = KindString
-				node.Value = fmt.Sprintf("%d", node.Value.(int))
-			} else {
-				return NewEvaluationError(node, fmt.Sprintf("expected string, got %s", node.Kind))
+				return nil // the number stays a number: checking does not change the value
 			}
+			return NewEvaluationError(node, fmt.Sprintf("expected string, got %s", node.Kind))
 		}
 		length := utf8.RuneCountInString(node.Value.(string)) // JSON schema counts characters
 		if s.MinLength != nil && length < *s.MinLength {
-- 
2.43.0


From 66875de9fbb678d1219608c4239e4d6c92323ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:07:36 +0000
Subject: [PATCH 20/60] fix: follow references wherever a schema has them and
 check required properties that are not described

---
 core/schema.go | 54 ++++++++++++++++++++++++++++++--------------------
 1 file changed, 33 insertions(+), 21 deletions(-)

diff --git a/core/schema.go b/core/schema.go
index 4d6b27d..4fc5ca1 100644
--- a/core/schema.go
+++ b/core/schema.go
@@ -67,10 +67,13 @@ func (s *Schema) GetProperties() map[string]*Schema {
 
 	newProperties := make(map[string]*Schema, len(s.Properties))
 	for key, value := range s.Properties {
+		if value == nil {
+			continue
+		}
 		if value.Ref != "" {
 			refSchema, err := LoadSchemaFromID(value.Ref)
 			if err != nil {
-				fmt.Printf("Error loading schema from ref %s: %v\n", value.Ref, err)
+				fmt.Fprintf(os.Stderr, "Error loading schema from ref %s: %v\n", value.Ref, err)
 				continue
 			}
 			newProperties[key] = refSchema
@@ -86,7 +89,7 @@ func (s *Schema) GetItems() *Schema {
 	if s.Items != nil && s.Items.Ref != "" {
 		refSchema, err := LoadSchemaFromID(s.Items.Ref)
 		if err != nil {
-			fmt.Printf("Error loading schema from ref %s: %v\n", s.Items.Ref, err)
+			fmt.Fprintf(os.Stderr, "Error loading schema from ref %s: %v\n", s.Items.Ref, err)
 			return nil
 		}
 		return refSchema
@@ -114,14 +117,6 @@ func (s *Schema) GetAdditionalProperties() any {
 			return fmt.Sprintf("failed to unmarshal additionalProperties: %v", err)
 		}
 
-		if additionalSchema.Ref != "" {
-			refSchema, err := LoadSchemaFromID(additionalSchema.Ref)
-			if err != nil {
-				fmt.Printf("Error loading schema from ref %s: %v\n", additionalSchema.Ref, err)
-			}
-			return refSchema
-		}
-
 		return additionalSchema
 	}
 }
@@ -267,6 +262,18 @@ func LoadSchemaFromGVK(group, version, kind string) (*Schema, error) {
 
 func (s *Schema) Validate(node *YispNode) error {
 
+	if s == nil {
+		return NewEvaluationError(node, "schema is null")
+	}
+
+	if s.Ref != "" {
+		refSchema, err := LoadSchemaFromID(s.Ref)
+		if err != nil {
+			return NewEvaluationError(node, fmt.Sprintf("failed to load schema %s: %v", s.Ref, err))
+		}
+		return refSchema.Validate(node)
+	}
+
 	if s.OneOf != nil {
 		var errors []string
 		for _, subSchema := range s.OneOf {
@@ -359,7 +366,6 @@ func (s *Schema) Validate(node *YispNode) error {
 			return NewEvaluationError(node, fmt.Sprintf("expected array, got %s", node.Kind))
 		}
 		if s.Items != nil {
-			subSchema := s.GetItems()
 			arr, ok := node.Value.([]any)
 			if !ok {
 				return NewEvaluationError(node, fmt.Sprintf("expected array, got %T", node.Value))
@@ -370,7 +376,7 @@ func (s *Schema) Validate(node *YispNode) error {
 				if !ok {
 					return NewEvaluationError(node, fmt.Sprintf("expected YispNode, got %T", item))
 				}
-				if err := subSchema.Validate(itemNode); err != nil {
+				if err := s.Items.Validate(itemNode); err != nil {
 					return err
 				}
 			}
@@ -385,16 +391,16 @@ func (s *Schema) Validate(node *YispNode) error {
 		}
 
 		processed := make(map[string]bool)
-		properties := s.GetProperties()
-		for _, key := range slices.Sorted(maps.Keys(properties)) {
-			subSchema := properties[key]
+		for _, key := range s.Required {
+			if _, ok := m.Get(key); !ok {
+				return NewEvaluationError(node, fmt.Sprintf("missing required property: %s", key))
+			}
+		}
+		for _, key := range slices.Sorted(maps.Keys(s.Properties)) {
+			subSchema := s.Properties[key]
 			item, ok := m.Get(key)
 			if !ok {
-				if slices.Contains(s.Required, key) {
-					return NewEvaluationError(node, fmt.Sprintf("missing required property: %s", key))
-				} else {
-					continue
-				}
+				continue
 			}
 			itemNode, ok := item.(*YispNode)
 			if !ok {
@@ -470,7 +476,6 @@ func (s *Schema) Validate(node *YispNode) error {
 		}
 
 	default:
-		JsonPrint("schema", s)
 		return NewEvaluationError(node, fmt.Sprintf("unknown type: %s", s.Type))
 	}
 
@@ -478,6 +483,9 @@ func (s *Schema) Validate(node *YispNode) error {
 }
 
 func (s *Schema) InterpolateDefaults(node *YispNode) error {
+	if s == nil {
+		return nil
+	}
 	switch s.Type {
 	case "array":
 		if node.Kind != KindArray {
@@ -573,6 +581,10 @@ func (s *Schema) Cast(node *YispNode) (*YispNode, error) {
 
 func (s *Schema) Equals(other *Schema) bool {
 
+	if s == nil || other == nil {
+		return s == other
+	}
+
 	if s.Type != other.Type {
 		return false
 	}
-- 
2.43.0


From e22dc389d0277d5a9129bbd566b7e04d7c4cfa4f Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:08:47 +0000
Subject: [PATCH 21/60] fix: fill in defaults as values of their declared type,
 without touching shared values or absent optional parts

---
 core/schema.go  | 86 +++++++++++++++++++++++++++++++++----------------
 core/types.go   | 29 +++++++++++++++++
 engine/apply.go |  5 ++-
 engine/eval.go  | 22 ++++++-------
 4 files changed, 103 insertions(+), 39 deletions(-)

diff --git a/core/schema.go b/core/schema.go
index 4fc5ca1..3c57150 100644
--- a/core/schema.go
+++ b/core/schema.go
@@ -16,17 +16,6 @@ import (
 	"unicode/utf8"
 )
 
-var schemaTypeToKind = map[string]Kind{
-	"null":     KindNull,
-	"boolean":  KindBool,
-	"integer":  KindInt,
-	"float":    KindFloat,
-	"string":   KindString,
-	"array":    KindArray,
-	"object":   KindMap,
-	"function": KindLambda,
-}
-
 type Schema struct {
 	ID                   string             `json:"$id,omitempty"`
 	Ref                  string             `json:"$ref,omitempty"`
@@ -163,6 +152,7 @@ func LoadSchemaFromURL(url string) (*Schema, error) {
 		defer file.Close()
 		var schema Schema
 		decoder := json.NewDecoder(file)
+		decoder.UseNumber()
 		err = decoder.Decode(&schema)
 		if err != nil {
 			return nil, err
@@ -185,7 +175,12 @@ func LoadSchemaFromURL(url string) (*Schema, error) {
 		}
 
 		var schema Schema
-		err = json.Unmarshal(body, &schema)
+		decoder := json.NewDecoder(bytes.NewReader(body))
+		decoder.UseNumber()
+		err = decoder.Decode(&schema)
+		if err == nil && decoder.More() {
+			err = fmt.Errorf("unexpected data after the schema")
+		}
 		if err != nil {
 			return nil, err
 		}
@@ -231,6 +226,7 @@ func LoadSchemaFromID(id string) (*Schema, error) {
 
 	var schema Schema
 	decoder := json.NewDecoder(file)
+	decoder.UseNumber()
 	err = decoder.Decode(&schema)
 	if err != nil {
 		return nil, err
@@ -482,6 +478,39 @@ func (s *Schema) Validate(node *YispNode) error {
 	return nil
 }
 
+// defaultNode returns the default as a value of the declared type
+func (s *Schema) defaultNode() (*YispNode, error) {
+	node, err := ParseAny("", s.Default)
+	if err != nil {
+		return nil, err
+	}
+	s.adjustNumbers(node)
+	node.Type = s
+	return node, s.InterpolateDefaults(node)
+}
+
+// adjustNumbers makes the numbers of a default, for which a whole float and an
+// integer are the same, what the schema declares
+func (s *Schema) adjustNumbers(node *YispNode) {
+	if s == nil {
+		return
+	}
+	switch value := node.Value.(type) {
+	case int:
+		if s.Type == "float" {
+			node.Kind, node.Value = KindFloat, float64(value)
+		}
+	case []any:
+		for _, item := range value {
+			s.Items.adjustNumbers(item.(*YispNode))
+		}
+	case *YispMap:
+		for key, item := range value.AllFromFront() {
+			s.Properties[key].adjustNumbers(item.(*YispNode))
+		}
+	}
+}
+
 func (s *Schema) InterpolateDefaults(node *YispNode) error {
 	if s == nil {
 		return nil
@@ -526,26 +555,28 @@ func (s *Schema) InterpolateDefaults(node *YispNode) error {
 				if slices.Contains(s.Required, key) {
 					return NewEvaluationError(node, fmt.Sprintf("missing required property: %s", key))
 				}
+				if subSchema == nil {
+					continue
+				}
 				if subSchema.Default != nil {
-					defaultNode := &YispNode{
-						Kind:  schemaTypeToKind[subSchema.Type],
-						Value: subSchema.Default,
-						Tag:   node.Tag,
-						Attr:  node.Attr,
-						Type:  subSchema,
+					defaultNode, err := subSchema.defaultNode()
+					if err != nil {
+						return NewEvaluationError(node, fmt.Sprintf("invalid default for property %s: %v", key, err))
 					}
+					defaultNode.Attr = Attribute{Sources: node.Attr.Sources}
 					m.Set(key, defaultNode)
 					continue
 				}
-				dummyNode := &YispNode{
-					Kind: schemaTypeToKind[subSchema.Type],
-				}
-				err := subSchema.InterpolateDefaults(dummyNode)
-				if err != nil {
-					return NewEvaluationError(node, fmt.Sprintf("failed to interpolate dummy Node %v", err))
-				}
-				if !IsZero(dummyNode.Value) {
-					m.Set(key, dummyNode)
+				if subSchema.Type == "object" { // may have defaults inside
+					objectNode := &YispNode{
+						Kind:  KindMap,
+						Value: NewYispMap(),
+						Attr:  Attribute{Sources: node.Attr.Sources},
+					}
+					err := subSchema.InterpolateDefaults(objectNode)
+					if err == nil && objectNode.Value.(*YispMap).Len() > 0 {
+						m.Set(key, objectNode)
+					}
 				}
 				continue
 			}
@@ -564,6 +595,7 @@ func (s *Schema) InterpolateDefaults(node *YispNode) error {
 }
 
 func (s *Schema) Cast(node *YispNode) (*YispNode, error) {
+	node = node.Clone() // its parts may be used elsewhere
 	err := s.InterpolateDefaults(node)
 	if err != nil {
 		return nil, fmt.Errorf("failed to cast %v to %v (%v)", node, s, err)
diff --git a/core/types.go b/core/types.go
index bfa8a74..5afa163 100644
--- a/core/types.go
+++ b/core/types.go
@@ -163,6 +163,35 @@ func (n *YispNode) String() string {
 	}
 }
 
+// Clone returns a copy of the node that shares no list or map with the original
+func (n *YispNode) Clone() *YispNode {
+	clone := *n
+	switch value := n.Value.(type) {
+	case []any:
+		items := make([]any, len(value))
+		for i, item := range value {
+			items[i] = cloneItem(item)
+		}
+		clone.Value = items
+	case *YispMap:
+		if n.Kind == KindMap {
+			m := NewYispMap()
+			for key, item := range value.AllFromFront() {
+				m.Set(key, cloneItem(item))
+			}
+			clone.Value = m
+		}
+	}
+	return &clone
+}
+
+func cloneItem(item any) any {
+	if node, ok := item.(*YispNode); ok {
+		return node.Clone()
+	}
+	return item
+}
+
 func (n *YispNode) ToNative() (any, error) {
 	switch n.Kind {
 	case KindNull, KindBool, KindInt, KindFloat, KindString:
diff --git a/engine/apply.go b/engine/apply.go
index 347038d..afae3fe 100644
--- a/engine/apply.go
+++ b/engine/apply.go
@@ -1,6 +1,7 @@
 package engine
 
 import (
+	"bytes"
 	"encoding/json"
 	"fmt"
 	"os"
@@ -445,7 +446,9 @@ func opSchema(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.En
 	}
 
 	var schema core.Schema
-	err = json.Unmarshal(schemaBytes, &schema)
+	decoder := json.NewDecoder(bytes.NewReader(schemaBytes))
+	decoder.UseNumber()
+	err = decoder.Decode(&schema)
 	if err != nil {
 		return nil, core.NewEvaluationErrorWithParent(node, "failed to unmarshal schema", err)
 	}
diff --git a/engine/eval.go b/engine/eval.go
index 4dec4ea..5f45865 100644
--- a/engine/eval.go
+++ b/engine/eval.go
@@ -464,17 +464,6 @@ func (e *engine) Eval(node *core.YispNode, env *core.Env, mode core.EvalMode) (*
 		}
 	}
 
-	if node.Anchor != "" {
-		env.Root().Set(node.Anchor, result) // anchor is global
-
-		if result.Kind == core.KindLambda {
-			lambda, ok := result.Value.(*core.Lambda)
-			if ok {
-				lambda.Clojure.Set(node.Anchor, result)
-			}
-		}
-	}
-
 	if node.Tag != "" && node.Tag != "!quote" && node.Tag != "!yisp" {
 		typeName := strings.TrimPrefix(node.Tag, "!")
 		if typeName != "" && !strings.HasPrefix(typeName, "!") {
@@ -492,5 +481,16 @@ func (e *engine) Eval(node *core.YispNode, env *core.Env, mode core.EvalMode) (*
 		}
 	}
 
+	if node.Anchor != "" {
+		env.Root().Set(node.Anchor, result) // anchor is global
+
+		if result.Kind == core.KindLambda {
+			lambda, ok := result.Value.(*core.Lambda)
+			if ok {
+				lambda.Clojure.Set(node.Anchor, result)
+			}
+		}
+	}
+
 	return result, nil
 }
-- 
2.43.0


From ea86ab6937c93fcc3d65ba28b85293cb1154c0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:10:10 +0000
Subject: [PATCH 22/60] fix: maps.patch compares values in test, copies the
 values it inserts and rejects malformed indices

---
 lib/patch.go | 65 ++++++++++++++++++++++++++++++++++------------------
 1 file changed, 43 insertions(+), 22 deletions(-)

diff --git a/lib/patch.go b/lib/patch.go
index 9f799c1..28a6dd9 100644
--- a/lib/patch.go
+++ b/lib/patch.go
@@ -34,6 +34,18 @@ func parsePointer(path string) ([]string, error) {
 	return tokens, nil
 }
 
+// parseIndex parses an array index (RFC 6901: digits without leading zeros)
+func parseIndex(token string) (int, error) {
+	idx, err := strconv.Atoi(token)
+	if err != nil {
+		return 0, err
+	}
+	if strconv.Itoa(idx) != token {
+		return 0, fmt.Errorf("invalid array index: %s", token)
+	}
+	return idx, nil
+}
+
 // getValue retrieves a value from a YispNode using a JSON Pointer path
 func getValue(node *core.YispNode, path string) (*core.YispNode, error) {
 	tokens, err := parsePointer(path)
@@ -61,7 +73,7 @@ func getValue(node *core.YispNode, path string) (*core.YispNode, error) {
 			if !ok {
 				return nil, fmt.Errorf("expected array, got %T", current.Value)
 			}
-			idx, err := strconv.Atoi(token)
+			idx, err := parseIndex(token)
 			if err != nil {
 				return nil, fmt.Errorf("invalid array index: %s", token)
 			}
@@ -106,6 +118,8 @@ func addValue(node *core.YispNode, path string, value *core.YispNode) error {
 		return addValueWithWildcard(node, tokens, wildcardIndex, value)
 	}
 
+	value = value.Clone() // every place gets its own copy
+
 	current := node
 	for i := 0; i < len(tokens)-1; i++ {
 		token := tokens[i]
@@ -127,7 +141,7 @@ func addValue(node *core.YispNode, path string, value *core.YispNode) error {
 			if !ok {
 				return fmt.Errorf("expected array, got %T", current.Value)
 			}
-			idx, err := strconv.Atoi(token)
+			idx, err := parseIndex(token)
 			if err != nil {
 				return fmt.Errorf("invalid array index: %s", token)
 			}
@@ -160,7 +174,7 @@ func addValue(node *core.YispNode, path string, value *core.YispNode) error {
 		if lastToken == "-" {
 			current.Value = append(arr, value)
 		} else {
-			idx, err := strconv.Atoi(lastToken)
+			idx, err := parseIndex(lastToken)
 			if err != nil {
 				return fmt.Errorf("invalid array index: %s", lastToken)
 			}
@@ -211,7 +225,7 @@ func addValueWithWildcard(node *core.YispNode, tokens []string, wildcardIndex in
 			if !ok {
 				return fmt.Errorf("expected array, got %T", current.Value)
 			}
-			idx, err := strconv.Atoi(token)
+			idx, err := parseIndex(token)
 			if err != nil {
 				return fmt.Errorf("invalid array index: %s", token)
 			}
@@ -249,7 +263,7 @@ func addValueWithWildcard(node *core.YispNode, tokens []string, wildcardIndex in
 					if !ok {
 						return fmt.Errorf("expected map, got %T", targetNode.Value)
 					}
-					valueMap, ok := value.Value.(*core.YispMap)
+					valueMap, ok := value.Clone().Value.(*core.YispMap)
 					if !ok {
 						return fmt.Errorf("expected map, got %T", value.Value)
 					}
@@ -259,7 +273,7 @@ func addValueWithWildcard(node *core.YispNode, tokens []string, wildcardIndex in
 					}
 				} else {
 					// Replace the entire value
-					m.Set(key, value)
+					m.Set(key, value.Clone())
 				}
 			}
 		} else {
@@ -285,7 +299,7 @@ func addValueWithWildcard(node *core.YispNode, tokens []string, wildcardIndex in
 					if !ok {
 						return fmt.Errorf("expected map, got %T", existingValue.Value)
 					}
-					valueMap, ok := value.Value.(*core.YispMap)
+					valueMap, ok := value.Clone().Value.(*core.YispMap)
 					if !ok {
 						return fmt.Errorf("expected map, got %T", value.Value)
 					}
@@ -323,7 +337,7 @@ func addValueWithWildcard(node *core.YispNode, tokens []string, wildcardIndex in
 					if !ok {
 						return fmt.Errorf("expected map, got %T", targetNode.Value)
 					}
-					valueMap, ok := value.Value.(*core.YispMap)
+					valueMap, ok := value.Clone().Value.(*core.YispMap)
 					if !ok {
 						return fmt.Errorf("expected map, got %T", value.Value)
 					}
@@ -333,7 +347,7 @@ func addValueWithWildcard(node *core.YispNode, tokens []string, wildcardIndex in
 					}
 				} else {
 					// Replace the entire value
-					arr[i] = value
+					arr[i] = value.Clone()
 				}
 			}
 		} else {
@@ -359,7 +373,7 @@ func addValueWithWildcard(node *core.YispNode, tokens []string, wildcardIndex in
 					if !ok {
 						return fmt.Errorf("expected map, got %T", existingValue.Value)
 					}
-					valueMap, ok := value.Value.(*core.YispMap)
+					valueMap, ok := value.Clone().Value.(*core.YispMap)
 					if !ok {
 						return fmt.Errorf("expected map, got %T", value.Value)
 					}
@@ -410,6 +424,8 @@ func replaceValue(node *core.YispNode, path string, value *core.YispNode) error
 		return replaceValueWithWildcard(node, tokens, wildcardIndex, value)
 	}
 
+	value = value.Clone() // every place gets its own copy
+
 	current := node
 	for i := 0; i < len(tokens)-1; i++ {
 		token := tokens[i]
@@ -431,7 +447,7 @@ func replaceValue(node *core.YispNode, path string, value *core.YispNode) error
 			if !ok {
 				return fmt.Errorf("expected array, got %T", current.Value)
 			}
-			idx, err := strconv.Atoi(token)
+			idx, err := parseIndex(token)
 			if err != nil {
 				return fmt.Errorf("invalid array index: %s", token)
 			}
@@ -463,7 +479,7 @@ func replaceValue(node *core.YispNode, path string, value *core.YispNode) error
 		if !ok {
 			return fmt.Errorf("expected array, got %T", current.Value)
 		}
-		idx, err := strconv.Atoi(lastToken)
+		idx, err := parseIndex(lastToken)
 		if err != nil {
 			return fmt.Errorf("invalid array index: %s", lastToken)
 		}
@@ -502,7 +518,7 @@ func replaceValueWithWildcard(node *core.YispNode, tokens []string, wildcardInde
 			if !ok {
 				return fmt.Errorf("expected array, got %T", current.Value)
 			}
-			idx, err := strconv.Atoi(token)
+			idx, err := parseIndex(token)
 			if err != nil {
 				return fmt.Errorf("invalid array index: %s", token)
 			}
@@ -529,7 +545,7 @@ func replaceValueWithWildcard(node *core.YispNode, tokens []string, wildcardInde
 		if wildcardIndex == len(tokens)-1 {
 			// Iterate over all keys and replace the value
 			for key := range m.AllFromFront() {
-				m.Set(key, value)
+				m.Set(key, value.Clone())
 			}
 		} else {
 			// Wildcard is in the middle, need to apply remaining path to all matching keys
@@ -563,7 +579,7 @@ func replaceValueWithWildcard(node *core.YispNode, tokens []string, wildcardInde
 		if wildcardIndex == len(tokens)-1 {
 			// Iterate over all array elements and replace the value
 			for i := range arr {
-				arr[i] = value
+				arr[i] = value.Clone()
 			}
 		} else {
 			// Wildcard is in the middle, need to apply remaining path to all array elements
@@ -641,7 +657,7 @@ func deleteValue(node *core.YispNode, path string) error {
 			if !ok {
 				return fmt.Errorf("expected array, got %T", current.Value)
 			}
-			idx, err := strconv.Atoi(token)
+			idx, err := parseIndex(token)
 			if err != nil {
 				return fmt.Errorf("invalid array index: %s", token)
 			}
@@ -672,7 +688,7 @@ func deleteValue(node *core.YispNode, path string) error {
 		if !ok {
 			return fmt.Errorf("expected array, got %T", current.Value)
 		}
-		idx, err := strconv.Atoi(lastToken)
+		idx, err := parseIndex(lastToken)
 		if err != nil {
 			return fmt.Errorf("invalid array index: %s", lastToken)
 		}
@@ -715,7 +731,7 @@ func deleteValueWithWildcard(node *core.YispNode, tokens []string, wildcardIndex
 			if !ok {
 				return fmt.Errorf("expected array, got %T", current.Value)
 			}
-			idx, err := strconv.Atoi(token)
+			idx, err := parseIndex(token)
 			if err != nil {
 				return fmt.Errorf("invalid array index: %s", token)
 			}
@@ -873,6 +889,9 @@ func opOpPatch(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.E
 
 // applyPatches applies an array of patch operations to a target node
 func applyPatches(target *core.YispNode, patchesArray []any) error {
+	// The target is updated in place, values that also occur elsewhere are not
+	target.Value = target.Clone().Value
+
 	// Apply each patch operation
 	for _, patchAny := range patchesArray {
 		patchNode, ok := patchAny.(*core.YispNode)
@@ -971,6 +990,10 @@ func applyPatches(target *core.YispNode, patchesArray []any) error {
 				return core.NewEvaluationError(fromNode, fmt.Sprintf("expected string for from, got %T", fromNode.Value))
 			}
 
+			if strings.HasPrefix(path, from+"/") {
+				return core.NewEvaluationError(patchNode, "move operation failed: cannot move a value into itself")
+			}
+
 			// Get value from 'from' path
 			value, err := getValue(target, from)
 			if err != nil {
@@ -1029,11 +1052,9 @@ func applyPatches(target *core.YispNode, patchesArray []any) error {
 			if err != nil {
 				return core.NewEvaluationError(patchNode, fmt.Sprintf("test operation failed: %v", err))
 			}
-			// Compare values (simple comparison for now)
-			if value.Kind != expectedNode.Kind {
-				return core.NewEvaluationError(patchNode, fmt.Sprintf("test operation failed: kind mismatch"))
+			if !core.Equal(value, expectedNode) {
+				return core.NewEvaluationError(patchNode, "test operation failed: value mismatch")
 			}
-			// TODO: Deep comparison if needed
 
 		default:
 			return core.NewEvaluationError(patchNode, fmt.Sprintf("unknown operation: %s", op))
-- 
2.43.0


From 3c942a6478d856ea58e0ac38a0ab4ca0ccaf6be9 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:10:40 +0000
Subject: [PATCH 23/60] fix: merging does not modify the lists it is given

---
 core/util.go | 2 +-
 lib/k8s.go   | 8 ++++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/core/util.go b/core/util.go
index 40f768d..7893899 100644
--- a/core/util.go
+++ b/core/util.go
@@ -150,7 +150,7 @@ func DeepMergeYispNode(dst, src *YispNode, schema *Schema) (*YispNode, error) {
 				result = append(result, dstArray...)
 				result = append(result, srcArray...)
 			} else {
-				result = dstArray
+				result = slices.Clone(dstArray)
 				for _, srcItem := range srcArray {
 					srcNode, ok := srcItem.(*YispNode)
 					if !ok {
diff --git a/lib/k8s.go b/lib/k8s.go
index 313fefb..f6567d0 100644
--- a/lib/k8s.go
+++ b/lib/k8s.go
@@ -2,6 +2,7 @@ package lib
 
 import (
 	"fmt"
+	"slices"
 
 	"github.com/totegamma/yisp/core"
 )
@@ -32,6 +33,7 @@ func opPatch(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Eng
 		return nil, core.NewEvaluationError(patches, fmt.Sprintf("invalid patch type: %T", patches.Value))
 	}
 
+	targetArray = slices.Clone(targetArray)
 	for _, patchAny := range patchArray {
 		patchNode, ok := patchAny.(*core.YispNode)
 		if !ok {
@@ -64,7 +66,9 @@ func opPatch(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Eng
 		}
 	}
 
-	return targets, nil
+	result := *targets
+	result.Value = targetArray
+	return &result, nil
 }
 
 func getManifestID(node *core.YispNode) (string, error) {
@@ -133,5 +137,5 @@ func getManifestID(node *core.YispNode) (string, error) {
 		}
 	}
 
-	return fmt.Sprintf("%s/%s/%s/%s", apiVersion, kind, namespace, name), nil
+	return fmt.Sprintf("%q/%q/%q/%q", apiVersion, kind, namespace, name), nil
 }
-- 
2.43.0


From 55a44b37eb54337f945c90340aec643f98fbd223 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:11:17 +0000
Subject: [PATCH 24/60] fix: merge keys that are not strings (containerPort)
 match by value

---
 core/util.go | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/core/util.go b/core/util.go
index 7893899..7451fc8 100644
--- a/core/util.go
+++ b/core/util.go
@@ -172,11 +172,6 @@ func DeepMergeYispNode(dst, src *YispNode, schema *Schema) (*YispNode, error) {
 						return nil, fmt.Errorf("expected YispNode for merge key, got %T", keyItem)
 					}
 
-					key, ok := keyNode.Value.(string)
-					if !ok {
-						return nil, fmt.Errorf("expected string for merge key, got %T", keyNode.Value)
-					}
-
 					// Check if the key already exists in the result
 					found := false
 					for i, dstItem := range result {
@@ -200,12 +195,7 @@ func DeepMergeYispNode(dst, src *YispNode, schema *Schema) (*YispNode, error) {
 							return nil, fmt.Errorf("expected YispNode for existing merge key, got %T", existingKeyItem)
 						}
 
-						existingKey, ok := existingKeyNode.Value.(string)
-						if !ok {
-							return nil, fmt.Errorf("expected string for existing merge key, got %T", existingKeyNode.Value)
-						}
-
-						if existingKey == key {
+						if Equal(existingKeyNode, keyNode) {
 							// Merge the srcMap into the existing dstMap
 							mergedNode, err := DeepMergeYispNode(dstNode, srcNode, subSchema)
 							if err != nil {
-- 
2.43.0


From da17a82b7f5933af2d2327fdfe37defa88bcd5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:11:24 +0000
Subject: [PATCH 25/60] fix: lists.filter yields top-level documents exactly
 when it is given top-level documents

---
 lib/lists.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/lib/lists.go b/lib/lists.go
index b9aa1b9..280d720 100644
--- a/lib/lists.go
+++ b/lib/lists.go
@@ -150,7 +150,6 @@ func opFilter(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.En
 
 	arrNode := cdr[0]
 	fnNode := cdr[1]
-	isDocumentRoot := true
 	filtered := make([]any, 0)
 
 	if arrNode.Kind != core.KindArray {
@@ -167,9 +166,6 @@ func opFilter(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.En
 		if !ok {
 			return nil, core.NewEvaluationError(arrNode, fmt.Sprintf("invalid item type: %T", item))
 		}
-		if !itemNode.IsDocumentRoot {
-			isDocumentRoot = false
-		}
 		args := []*core.YispNode{itemNode}
 		rawResult, err := e.Apply(fnNode, args, env, mode)
 		if err != nil {
@@ -189,14 +185,14 @@ func opFilter(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.En
 	return &core.YispNode{
 		Kind:           core.KindArray,
 		Value:          filtered,
-		IsDocumentRoot: isDocumentRoot,
+		IsDocumentRoot: arrNode.IsDocumentRoot,
 	}, nil
 }
 
 func opFlatten(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Engine) (*core.YispNode, error) {
 
 	flattened := make([]any, 0)
-	isDocumentRoot := true
+	isDocumentRoot := len(cdr) > 0
 
 	for _, node := range cdr {
 		if !node.IsDocumentRoot {
-- 
2.43.0


From c758fb5b84289d5af6d7a0f0b1e8d6f9108d80bf Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:17:17 +0000
Subject: [PATCH 26/60] fix: local paths with special characters (%, ?, #, :)
 resolve as file names, not as URLs

---
 core/util.go | 56 ++++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 41 insertions(+), 15 deletions(-)

diff --git a/core/util.go b/core/util.go
index 7451fc8..57c2170 100644
--- a/core/util.go
+++ b/core/util.go
@@ -12,6 +12,7 @@ import (
 	"os"
 	"path/filepath"
 	"slices"
+	"strings"
 )
 
 // JsonPrint prints an object as formatted JSON with a tag
@@ -311,41 +312,38 @@ func CallEngineByPath(path, base string, env *Env, e Engine) (*YispNode, error)
 			return nil, fmt.Errorf("failed to get current working directory: %v", err)
 		}
 	} else {
-		targetURL, err := url.Parse(path)
+		location, err := ResolvePath(path, base)
 		if err != nil {
-			return nil, fmt.Errorf("failed to parse URL: %v", err)
+			return nil, err
 		}
 
-		if base != "" {
-			baseURL, err := url.Parse(base)
+		if isRemote(location) {
+			targetURL, err := url.Parse(location)
 			if err != nil {
-				return nil, fmt.Errorf("failed to parse base URL: %v", err)
+				return nil, fmt.Errorf("failed to parse URL: %v", err)
 			}
-			targetURL = baseURL.ResolveReference(targetURL)
-		}
-
-		if targetURL.Scheme == "http" || targetURL.Scheme == "https" {
-			reader, err = fetchRemote(targetURL.String())
+			reader, err = fetchRemote(location)
 			if err != nil {
 				return nil, fmt.Errorf("failed to fetch remote file: %v", err)
 			}
+			extension = filepath.Ext(targetURL.Path)
 		} else {
 
-			stat, err := os.Stat(targetURL.Path)
+			stat, err := os.Stat(location)
 			if err != nil {
 				return nil, fmt.Errorf("failed to stat file: %v", err)
 			}
 
 			if stat.IsDir() {
-				targetURL = &url.URL{Path: filepath.Join(targetURL.Path, "index.yisp")}
+				location = filepath.Join(location, "index.yisp")
 			}
-			reader, err = os.Open(targetURL.Path)
+			reader, err = os.Open(location)
 			if err != nil {
 				return nil, fmt.Errorf("failed to open file: %v", err)
 			}
+			extension = filepath.Ext(location)
 		}
-		extension = filepath.Ext(targetURL.Path)
-		source = targetURL.String()
+		source = location
 	}
 
 	switch extension {
@@ -369,6 +367,34 @@ func CallEngineByPath(path, base string, env *Env, e Engine) (*YispNode, error)
 
 }
 
+func isRemote(path string) bool {
+	return strings.HasPrefix(path, "http://") || strings.HasPrefix(path, "https://")
+}
+
+// ResolvePath resolves path, a file name or http(s) URL, relative to the file or URL base.
+func ResolvePath(path, base string) (string, error) {
+	if isRemote(path) {
+		return path, nil
+	}
+
+	if isRemote(base) {
+		targetURL, err := url.Parse(path)
+		if err != nil {
+			return "", fmt.Errorf("failed to parse URL: %v", err)
+		}
+		baseURL, err := url.Parse(base)
+		if err != nil {
+			return "", fmt.Errorf("failed to parse base URL: %v", err)
+		}
+		return baseURL.ResolveReference(targetURL).String(), nil
+	}
+
+	if base == "" || filepath.IsAbs(path) {
+		return path, nil
+	}
+	return filepath.Join(filepath.Dir(base), path), nil
+}
+
 func fetchRemote(rawURL string) (io.ReadCloser, error) {
 	resp, err := http.Get(rawURL)
 	if err != nil {
-- 
2.43.0


From a7436804d0ab1c7dda76fa22cf694f1b31a39607 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:17:25 +0000
Subject: [PATCH 27/60] fix: a program on standard input resolves files in the
 current directory and never confirms a command

---
 core/util.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/core/util.go b/core/util.go
index 57c2170..ab3308d 100644
--- a/core/util.go
+++ b/core/util.go
@@ -2,6 +2,7 @@ package core
 
 import (
 	"bufio"
+	"bytes"
 	"cmp"
 	"encoding/json"
 	"fmt"
@@ -305,12 +306,18 @@ func CallEngineByPath(path, base string, env *Env, e Engine) (*YispNode, error)
 	source := ""
 
 	if path == "-" {
-		var err error
-		reader = os.Stdin
-		source, err = os.Getwd()
+		// read completely first: what is left of the program must not answer a prompt
+		text, err := io.ReadAll(os.Stdin)
+		if err != nil {
+			return nil, fmt.Errorf("failed to read standard input: %v", err)
+		}
+		reader = bytes.NewReader(text)
+
+		cwd, err := os.Getwd()
 		if err != nil {
 			return nil, fmt.Errorf("failed to get current working directory: %v", err)
 		}
+		source = filepath.Join(cwd, "<stdin>")
 	} else {
 		location, err := ResolvePath(path, base)
 		if err != nil {
-- 
2.43.0


From 498157c5335ac6370f2bffa918a9696acde989d6 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:18:36 +0000
Subject: [PATCH 28/60] fix: include patterns may leave the directory
 (../*.yaml, /dir/*) and match names with unusual characters

---
 core/util.go    | 33 +++++++++++++++++++++++++++++++++
 engine/apply.go | 19 ++++++-------------
 2 files changed, 39 insertions(+), 13 deletions(-)

diff --git a/core/util.go b/core/util.go
index ab3308d..90b648c 100644
--- a/core/util.go
+++ b/core/util.go
@@ -14,6 +14,8 @@ import (
 	"path/filepath"
 	"slices"
 	"strings"
+
+	"github.com/bmatcuk/doublestar/v4"
 )
 
 // JsonPrint prints an object as formatted JSON with a tag
@@ -402,6 +404,37 @@ func ResolvePath(path, base string) (string, error) {
 	return filepath.Join(filepath.Dir(base), path), nil
 }
 
+// Glob returns the paths that match pattern, which is relative to the directory of the file base.
+// A pattern that is the name of an existing file stands for that file, whatever its characters.
+func Glob(pattern, base string) ([]string, error) {
+	if isRemote(pattern) || isRemote(base) {
+		return nil, nil
+	}
+
+	location, err := ResolvePath(pattern, base)
+	if err != nil {
+		return nil, err
+	}
+	if _, err := os.Lstat(location); err == nil {
+		return []string{filepath.Clean(pattern)}, nil
+	}
+
+	root, rest := doublestar.SplitPattern(pattern) // fs.FS knows neither .. nor absolute paths
+	location, err = ResolvePath(root, base)
+	if err != nil {
+		return nil, err
+	}
+
+	paths, err := doublestar.Glob(os.DirFS(location), rest)
+	if err != nil {
+		return nil, err
+	}
+	for i, path := range paths {
+		paths[i] = filepath.Join(root, path)
+	}
+	return paths, nil
+}
+
 func fetchRemote(rawURL string) (io.ReadCloser, error) {
 	resp, err := http.Get(rawURL)
 	if err != nil {
diff --git a/engine/apply.go b/engine/apply.go
index afae3fe..e126a08 100644
--- a/engine/apply.go
+++ b/engine/apply.go
@@ -4,12 +4,9 @@ import (
 	"bytes"
 	"encoding/json"
 	"fmt"
-	"os"
 	"path/filepath"
 	"strings"
 
-	"github.com/bmatcuk/doublestar/v4"
-
 	"github.com/totegamma/yisp/core"
 	"github.com/totegamma/yisp/lib"
 )
@@ -343,13 +340,7 @@ func opInclude(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.E
 			return nil, core.NewEvaluationError(node, fmt.Sprintf("invalid path type: %T", node.Value))
 		}
 
-		if after, ok := strings.CutPrefix(entry, "./"); ok {
-			entry = after
-		}
-
-		dirFs := os.DirFS(filepath.Dir(node.Attr.File()))
-
-		paths, err := doublestar.Glob(dirFs, entry)
+		paths, err := core.Glob(entry, node.Attr.File())
 		if err != nil {
 			return nil, core.NewEvaluationError(node, fmt.Sprintf("failed to glob path: %s", entry))
 		}
@@ -361,9 +352,11 @@ func opInclude(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.E
 		for _, path := range paths {
 
 			// continue if the file is the same as the including file
-			includingFile := filepath.Clean(node.Attr.File())
-			includedFile := filepath.Clean(filepath.Join(filepath.Dir(node.Attr.File()), path))
-			if includingFile == includedFile {
+			includedFile, err := core.ResolvePath(path, node.Attr.File())
+			if err != nil {
+				return nil, core.NewEvaluationErrorWithParent(node, fmt.Sprintf("failed to include file: %s", path), err)
+			}
+			if filepath.Clean(node.Attr.File()) == filepath.Clean(includedFile) {
 				continue
 			}
 
-- 
2.43.0


From f4d63b3145f230beaa1080a677ffad3ae563519b Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:18:44 +0000
Subject: [PATCH 29/60] fix: files.glob and files.read find files relative to
 the program, not the current directory, and skip directories

---
 lib/files.go | 33 +++++++++++++++------------------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/lib/files.go b/lib/files.go
index 7754c50..5362c63 100644
--- a/lib/files.go
+++ b/lib/files.go
@@ -4,9 +4,6 @@ import (
 	"fmt"
 	"os"
 	"path/filepath"
-	"strings"
-
-	"github.com/bmatcuk/doublestar/v4"
 
 	"github.com/totegamma/yisp/core"
 )
@@ -30,27 +27,27 @@ func opGlob(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Engi
 			return nil, core.NewEvaluationError(node, fmt.Sprintf("invalid argument type for open: %T", node))
 		}
 
-		if after, ok := strings.CutPrefix(entry, "./"); ok {
-			entry = after
-		}
-
-		dirFs := os.DirFS(filepath.Dir(node.Attr.File()))
-
-		paths, err := doublestar.Glob(dirFs, entry)
+		paths, err := core.Glob(entry, node.Attr.File())
 		if err != nil {
 			return nil, core.NewEvaluationError(node, fmt.Sprintf("failed to glob path: %s", entry))
 		}
 
 		for _, path := range paths {
 
-			includingFile := filepath.Clean(node.Attr.File())
-			includedFile := filepath.Clean(filepath.Join(filepath.Dir(node.Attr.File()), path))
-			if includingFile == includedFile {
+			location, err := core.ResolvePath(path, node.Attr.File())
+			if err != nil {
+				return nil, core.NewEvaluationErrorWithParent(node, fmt.Sprintf("failed to read file: %s", path), err)
+			}
+			if filepath.Clean(node.Attr.File()) == filepath.Clean(location) {
+				continue
+			}
+
+			if stat, err := os.Stat(location); err == nil && stat.IsDir() {
 				continue
 			}
 
 			filename := filepath.Base(path)
-			body, err := os.ReadFile(path)
+			body, err := os.ReadFile(location)
 			if err != nil {
 				return nil, core.NewEvaluationError(node, fmt.Sprintf("failed to read file: %s", path))
 			}
@@ -75,7 +72,7 @@ func opGlob(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Engi
 				Attr: core.Attribute{
 					Sources: []core.FilePos{
 						{
-							File:   path,
+							File:   location,
 							Line:   node.Attr.Line(),
 							Column: node.Attr.Column(),
 						},
@@ -103,9 +100,9 @@ func opReadAll(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.E
 		return nil, core.NewEvaluationError(cdr[0], fmt.Sprintf("invalid argument type for read-file: %T", cdr[0]))
 	}
 
-	path := str
-	if cdr[0].Attr.File() != "" {
-		path = filepath.Clean(filepath.Join(filepath.Dir(cdr[0].Attr.File()), str))
+	path, err := core.ResolvePath(str, cdr[0].Attr.File())
+	if err != nil {
+		return nil, core.NewEvaluationErrorWithParent(cdr[0], fmt.Sprintf("failed to read file: %s", str), err)
 	}
 
 	body, err := os.ReadFile(path)
-- 
2.43.0


From c7eb3c3522d13a1ccff2049f69d7e06368baaf7d Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:19:56 +0000
Subject: [PATCH 30/60] fix: yisp build reports failures on standard error with
 a non-zero exit status

---
 cmd/build.go | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/cmd/build.go b/cmd/build.go
index ba80db5..122b3b1 100644
--- a/cmd/build.go
+++ b/cmd/build.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"github.com/spf13/cobra"
 	"github.com/spf13/viper"
+	"os"
 	"path/filepath"
 	"strings"
 
@@ -56,8 +57,8 @@ var buildCmd = &cobra.Command{
 		if yamlFile != "-" && !strings.HasPrefix(yamlFile, "http://") && !strings.HasPrefix(yamlFile, "https://") {
 			yamlFile, err = filepath.Abs(yamlFile)
 			if err != nil {
-				fmt.Println("Error:", err)
-				return
+				fmt.Fprintln(os.Stderr, "Error:", err)
+				os.Exit(1)
 			}
 		}
 
@@ -65,44 +66,44 @@ var buildCmd = &cobra.Command{
 		case "yaml":
 			result, err := e.EvaluateFileToYaml(yamlFile)
 			if err != nil {
-				fmt.Println("Error:", err)
-				return
+				fmt.Fprintln(os.Stderr, "Error:", err)
+				os.Exit(1)
 			}
 
 			fmt.Println(result)
 		case "json":
 			resultAny, err := e.EvaluateFileToAny(yamlFile)
 			if err != nil {
-				fmt.Println("Error:", err)
-				return
+				fmt.Fprintln(os.Stderr, "Error:", err)
+				os.Exit(1)
 			}
 
 			resultArr, ok := resultAny.([]any)
 			if !ok {
-				fmt.Println("Error: Result is not an array")
-				return
+				fmt.Fprintln(os.Stderr, "Error: Result is not an array")
+				os.Exit(1)
 			}
 
 			if len(resultArr) == 0 {
-				fmt.Println("Error: Result is empty")
-				return
+				fmt.Fprintln(os.Stderr, "Error: Result is empty")
+				os.Exit(1)
 			}
 
 			if len(resultArr) > 1 {
-				fmt.Printf("Error: Json output only supports a single document, but got %v objects\n", len(resultArr))
-				return
+				fmt.Fprintf(os.Stderr, "Error: Json output only supports a single document, but got %v objects\n", len(resultArr))
+				os.Exit(1)
 			}
 
 			jsonResult, err := json.MarshalIndent(resultArr[0], "", "  ")
 			if err != nil {
-				fmt.Println("Error:", err)
-				return
+				fmt.Fprintln(os.Stderr, "Error:", err)
+				os.Exit(1)
 			}
 
 			fmt.Println(string(jsonResult))
 		default:
-			fmt.Println("Error: Unsupported output format. Use 'yaml' or 'json'.")
-			return
+			fmt.Fprintln(os.Stderr, "Error: Unsupported output format. Use 'yaml' or 'json'.")
+			os.Exit(1)
 		}
 	},
 }
-- 
2.43.0


From a217110a241ed9340602c6a4b65665fc32afce3f Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:20:04 +0000
Subject: [PATCH 31/60] fix: JSON output of plain files, and without functions
 and types

---
 engine/engine.go | 47 ++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 46 insertions(+), 1 deletion(-)

diff --git a/engine/engine.go b/engine/engine.go
index af6146f..f8363a0 100644
--- a/engine/engine.go
+++ b/engine/engine.go
@@ -115,7 +115,15 @@ func (e *engine) EvaluateFileToAny(path string) (any, error) {
 		}
 	}
 
-	result, err := evaluated.ToNative()
+	if evaluated.Kind != core.KindArray || !evaluated.IsDocumentRoot { // plain file with a single document
+		evaluated = &core.YispNode{
+			Kind:           core.KindArray,
+			Value:          []any{evaluated},
+			IsDocumentRoot: true,
+		}
+	}
+
+	result, err := withoutSpecialObjects(evaluated).ToNative()
 	if err != nil {
 		return "", err
 	}
@@ -123,6 +131,43 @@ func (e *engine) EvaluateFileToAny(path string) (any, error) {
 	return result, nil
 }
 
+// withoutSpecialObjects leaves out functions and types, which are not data, like rendering does
+func withoutSpecialObjects(node *core.YispNode) *core.YispNode {
+	isSpecial := func(item any) bool {
+		node, ok := item.(*core.YispNode)
+		return ok && (node.Kind == core.KindLambda || node.Kind == core.KindType)
+	}
+
+	result := *node
+	switch value := node.Value.(type) {
+	case []any:
+		items := make([]any, 0, len(value))
+		for _, item := range value {
+			if isSpecial(item) {
+				continue
+			}
+			if itemNode, ok := item.(*core.YispNode); ok {
+				item = withoutSpecialObjects(itemNode)
+			}
+			items = append(items, item)
+		}
+		result.Value = items
+	case *core.YispMap:
+		m := core.NewYispMap()
+		for key, item := range value.AllFromFront() {
+			if isSpecial(item) {
+				continue
+			}
+			if itemNode, ok := item.(*core.YispNode); ok {
+				item = withoutSpecialObjects(itemNode)
+			}
+			m.Set(key, item)
+		}
+		result.Value = m
+	}
+	return &result
+}
+
 func (e *engine) EvaluateBytesToYaml(data []byte, global map[string]any) (string, error) {
 	env := core.NewEnv()
 
-- 
2.43.0


From e1d1cedb328eb9c318027ba21f9544fc3ba7166a Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:20:31 +0000
Subject: [PATCH 32/60] fix: yisp krm reports failures as errors instead of
 panicking, and never with status 0

---
 cmd/krm.go | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/cmd/krm.go b/cmd/krm.go
index 1a19199..95ec263 100644
--- a/cmd/krm.go
+++ b/cmd/krm.go
@@ -44,13 +44,15 @@ var krmCmd = &cobra.Command{
 
 		inputStr, err := io.ReadAll(os.Stdin)
 		if err != nil {
-			panic(err)
+			fmt.Fprintln(os.Stderr, "Error:", err)
+			os.Exit(1)
 		}
 
 		var krmInput KRMInput
 		err = yaml.Unmarshal(inputStr, &krmInput)
 		if err != nil {
-			panic(err)
+			fmt.Fprintln(os.Stderr, "Error:", err)
+			os.Exit(1)
 		}
 
 		e := engine.NewEngine(engine.Options{
@@ -64,12 +66,18 @@ var krmCmd = &cobra.Command{
 
 		wd, err := os.Getwd()
 		if err != nil {
-			panic(err)
+			fmt.Fprintln(os.Stderr, "Error:", err)
+			os.Exit(1)
 		}
 
 		var items []any
 		for _, item := range krmInput.Items {
-			apiVersion, ok := item.(map[string]any)["apiVersion"]
+			resource, ok := item.(map[string]any)
+			if !ok {
+				fmt.Fprintf(os.Stderr, "Error: invalid item: %v\n", item)
+				os.Exit(1)
+			}
+			apiVersion, ok := resource["apiVersion"]
 			if ok && apiVersion == "krm.yisp.gammalab.net/v1" {
 				continue
 			}
@@ -78,7 +86,8 @@ var krmCmd = &cobra.Command{
 
 		itemNodes, err := core.ParseAny(filepath.Join(wd, "items.krm.yaml"), items)
 		if err != nil {
-			panic(err)
+			fmt.Fprintln(os.Stderr, "Error:", err)
+			os.Exit(1)
 		}
 		itemNodes.IsDocumentRoot = true
 
@@ -94,14 +103,15 @@ var krmCmd = &cobra.Command{
 			if target != "-" && !strings.HasPrefix(target, "http://") && !strings.HasPrefix(target, "https://") {
 				target, err = filepath.Abs(target)
 				if err != nil {
-					fmt.Println("Error:", err)
-					return
+					fmt.Fprintln(os.Stderr, "Error:", err)
+					os.Exit(1)
 				}
 			}
 
 			result, err := e.EvaluateFileToYamlWithEnv(target, env)
 			if err != nil {
-				panic(err)
+				fmt.Fprintln(os.Stderr, "Error:", err)
+				os.Exit(1)
 			}
 
 			fmt.Println(result)
@@ -114,7 +124,8 @@ var krmCmd = &cobra.Command{
 
 			result, err := e.EvaluateReaderToYamlWithEnv(scriptReader, env, tmp)
 			if err != nil {
-				panic(err)
+				fmt.Fprintln(os.Stderr, "Error:", err)
+				os.Exit(1)
 			}
 
 			fmt.Println(result)
-- 
2.43.0


From 93e486a53ef4e8a69665073b1c95f80f5136a164 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:21:15 +0000
Subject: [PATCH 33/60] fix: strings.quote keeps quotes that belong to the text
 and exact floats, and rejects lists and maps

---
 lib/strings.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lib/strings.go b/lib/strings.go
index c1cfc6d..34d7cc0 100644
--- a/lib/strings.go
+++ b/lib/strings.go
@@ -76,21 +76,22 @@ func opQuote(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Eng
 	case core.KindInt:
 		value = fmt.Sprintf("%d", cdr[0].Value)
 	case core.KindFloat:
-		value = fmt.Sprintf("%f", cdr[0].Value)
+		value = fmt.Sprintf("%v", cdr[0].Value)
 	case core.KindBool:
 		if cdr[0].Value.(bool) {
 			value = "true"
 		} else {
 			value = "false"
 		}
+	case core.KindNull:
+		value = "null"
 	default:
-		value = fmt.Sprintf("%v", cdr[0].Value)
+		return nil, core.NewEvaluationError(cdr[0], fmt.Sprintf("quote requires a scalar argument, got %v", cdr[0].Kind))
 	}
 
 	node := cdr[0]
 	str := fmt.Sprintf("%q", value)
-	str = strings.Trim(str, "\"")
-	str = strings.Trim(str, "'")
+	str = str[1 : len(str)-1] // without the enclosing quotes
 
 	return &core.YispNode{
 		Kind:  core.KindString,
-- 
2.43.0


From 7ec376c97769f949f6ca86d0add9427471a0de57 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:21:24 +0000
Subject: [PATCH 34/60] fix: strings.format prints lists and maps by value
 instead of by memory address

---
 lib/strings.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/strings.go b/lib/strings.go
index 34d7cc0..1f7562f 100644
--- a/lib/strings.go
+++ b/lib/strings.go
@@ -116,7 +116,11 @@ func opFormat(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.En
 
 	args := make([]any, len(argsNode))
 	for i, arg := range argsNode {
-		args[i] = arg.Value
+		value, err := arg.ToNative()
+		if err != nil {
+			return nil, core.NewEvaluationErrorWithParent(arg, "failed to format argument", err)
+		}
+		args[i] = value
 	}
 
 	return &core.YispNode{
-- 
2.43.0


From 3e5fcbbb2d5087aec3c90f5064eb2e58f406c52b Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:22:04 +0000
Subject: [PATCH 35/60] fix: strings.replace rejects surplus arguments instead
 of ignoring the count

---
 lib/strings.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/strings.go b/lib/strings.go
index 1f7562f..4ff7084 100644
--- a/lib/strings.go
+++ b/lib/strings.go
@@ -174,7 +174,7 @@ func opJoin(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Engi
 }
 
 func opReplace(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Engine) (*core.YispNode, error) {
-	if len(cdr) < 3 {
+	if len(cdr) < 3 || len(cdr) > 4 {
 		return nil, core.NewEvaluationError(nil, fmt.Sprintf("replace requires 3-4 arguments, got %d", len(cdr)))
 	}
 
-- 
2.43.0


From 4de320720197afa4cccd190bdb53ba83bf7dacf9 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:22:21 +0000
Subject: [PATCH 36/60] fix: cache-kube-schemas stores every definition exactly
 (no descriptor leak, no skipped failures)

---
 cmd/cachekubeschemas.go | 46 ++++++++++++++++++++---------------------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/cmd/cachekubeschemas.go b/cmd/cachekubeschemas.go
index df903a7..a57937f 100644
--- a/cmd/cachekubeschemas.go
+++ b/cmd/cachekubeschemas.go
@@ -5,9 +5,12 @@ import (
 	"encoding/json"
 	"fmt"
 	"github.com/spf13/cobra"
+	"maps"
 	"os"
 	"os/exec"
 	"path/filepath"
+	"slices"
+	"strings"
 )
 
 type open struct {
@@ -26,7 +29,15 @@ var cacheKubeSchemas = &cobra.Command{
 		}
 
 		var openapi open
-		err = json.Unmarshal([]byte(response), &openapi)
+		decoder := json.NewDecoder(strings.NewReader(response))
+		decoder.UseNumber() // keep numbers exactly as they are
+		err = decoder.Decode(&openapi)
+		if err == nil && !json.Valid([]byte(response)) {
+			err = fmt.Errorf("unexpected data after the document")
+		}
+		if err == nil && len(openapi.Definitions) == 0 {
+			err = fmt.Errorf("the response has no definitions")
+		}
 		if err != nil {
 			fmt.Fprintf(os.Stderr, "Error unmarshalling response: %v\n", err)
 			os.Exit(1)
@@ -97,25 +108,22 @@ func saveSchemas(openapi open) error {
 		os.Exit(1)
 	}
 
-	for key, def := range openapi.Definitions {
+	for _, key := range slices.Sorted(maps.Keys(openapi.Definitions)) {
 
+		def := openapi.Definitions[key]
+		if def == nil {
+			return fmt.Errorf("definition of %s is null", key)
+		}
 		def["$id"] = key
 
 		schemaPath := filepath.Join(schemasPath, fmt.Sprintf("%s.json", key))
 
-		file, err := os.Create(schemaPath)
+		schema, err := json.MarshalIndent(def, "", "  ")
 		if err != nil {
-			fmt.Println("Error creating file:", err)
-			continue
+			return fmt.Errorf("error encoding %s: %v", key, err)
 		}
-		defer file.Close()
-
-		encoder := json.NewEncoder(file)
-		encoder.SetIndent("", "  ")
-		err = encoder.Encode(def)
-		if err != nil {
-			fmt.Println("Error encoding JSON to file:", err)
-			continue
+		if err := os.WriteFile(schemaPath, append(schema, '\n'), 0644); err != nil {
+			return err
 		}
 		fmt.Printf("Created file: %s\n", schemaPath)
 
@@ -156,17 +164,9 @@ func saveSchemas(openapi open) error {
 
 			gvkPath := filepath.Join(gvkPath, fmt.Sprintf("%s_%s_%s.txt", group, version, kind))
 
-			file, err = os.Create(gvkPath)
-			if err != nil {
-				fmt.Println("Error creating file:", err)
-				continue
-			}
-
 			//write key
-			_, err = file.WriteString(key)
-			if err != nil {
-				fmt.Println("Error writing to file:", err)
-				continue
+			if err := os.WriteFile(gvkPath, []byte(key), 0644); err != nil {
+				return err
 			}
 			fmt.Printf("Created GVK file: %s\n", gvkPath)
 
-- 
2.43.0


From 6d941fd18d461c6793ec33a56f652b92a7cbec70 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:23:09 +0000
Subject: [PATCH 37/60] fix: cache fetched schemas verbatim, completely or not
 at all, also for long URLs

---
 core/schema.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/core/schema.go b/core/schema.go
index 3c57150..804e0a0 100644
--- a/core/schema.go
+++ b/core/schema.go
@@ -2,6 +2,7 @@ package core
 
 import (
 	"bytes"
+	"crypto/sha256"
 	"encoding/base64"
 	"encoding/json"
 	"fmt"
@@ -142,6 +143,9 @@ func (s *Schema) ToYispNode() (*YispNode, error) {
 func LoadSchemaFromURL(url string) (*Schema, error) {
 
 	cachekey := base64.StdEncoding.EncodeToString([]byte(url))
+	if len(cachekey) > 200 { // file names are limited to 255 bytes
+		cachekey = fmt.Sprintf("%x", sha256.Sum256([]byte(url)))
+	}
 	home, err := os.UserHomeDir()
 	if err != nil {
 		return nil, err
@@ -190,14 +194,14 @@ func LoadSchemaFromURL(url string) (*Schema, error) {
 			return nil, err
 		}
 
-		file, err := os.Create(schemasPath)
+		// the entry appears only when it is complete
+		temp := fmt.Sprintf("%s.%d.tmp", schemasPath, os.Getpid())
+		defer os.Remove(temp)
+		err = os.WriteFile(temp, body, 0644)
 		if err != nil {
 			return nil, err
 		}
-		defer file.Close()
-
-		encoder := json.NewEncoder(file)
-		err = encoder.Encode(&schema)
+		err = os.Rename(temp, schemasPath)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 314eb90f797fb53070007920156a1ed13c716da7 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:23:18 +0000
Subject: [PATCH 38/60] fix: schemas are read from the directory given with
 --cache-dir, where cache-kube-schemas puts them

---
 cmd/root.go    |  4 ++++
 core/schema.go | 26 ++++++++++++++++++++------
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/cmd/root.go b/cmd/root.go
index 6c8d24f..478a26d 100644
--- a/cmd/root.go
+++ b/cmd/root.go
@@ -6,6 +6,8 @@ import (
 
 	"github.com/spf13/cobra"
 	"github.com/spf13/viper"
+
+	"github.com/totegamma/yisp/core"
 )
 
 var rootCmd = &cobra.Command{
@@ -28,6 +30,8 @@ func init() {
 
 func initConfig() {
 
+	core.CacheDir, _ = rootCmd.PersistentFlags().GetString("cache-dir")
+
 	configPath, _ := rootCmd.PersistentFlags().GetString("config")
 
 	if configPath == "" {
diff --git a/core/schema.go b/core/schema.go
index 804e0a0..6c15288 100644
--- a/core/schema.go
+++ b/core/schema.go
@@ -140,17 +140,31 @@ func (s *Schema) ToYispNode() (*YispNode, error) {
 	return ParseJson("", bytes.NewReader(jsonStr))
 }
 
+// CacheDir is the directory of cached schemas, $HOME/.cache/yisp when empty
+var CacheDir string
+
+func cacheDir() (string, error) {
+	if CacheDir != "" {
+		return CacheDir, nil
+	}
+	home, err := os.UserHomeDir()
+	if err != nil {
+		return "", err
+	}
+	return filepath.Join(home, ".cache", "yisp"), nil
+}
+
 func LoadSchemaFromURL(url string) (*Schema, error) {
 
 	cachekey := base64.StdEncoding.EncodeToString([]byte(url))
 	if len(cachekey) > 200 { // file names are limited to 255 bytes
 		cachekey = fmt.Sprintf("%x", sha256.Sum256([]byte(url)))
 	}
-	home, err := os.UserHomeDir()
+	dir, err := cacheDir()
 	if err != nil {
 		return nil, err
 	}
-	schemasPath := filepath.Join(home, ".cache", "yisp", "schemas", cachekey+".json")
+	schemasPath := filepath.Join(dir, "schemas", cachekey+".json")
 	file, err := os.Open(schemasPath)
 	if err == nil {
 		defer file.Close()
@@ -217,11 +231,11 @@ func LoadSchemaFromID(id string) (*Schema, error) {
 		id = split[len(split)-1]
 	}
 
-	home, err := os.UserHomeDir()
+	dir, err := cacheDir()
 	if err != nil {
 		return nil, err
 	}
-	schemasPath := filepath.Join(home, ".cache", "yisp", "schemas", id+".json")
+	schemasPath := filepath.Join(dir, "schemas", id+".json")
 	file, err := os.Open(schemasPath)
 	if err != nil {
 		return nil, err
@@ -240,12 +254,12 @@ func LoadSchemaFromID(id string) (*Schema, error) {
 
 func LoadSchemaFromGVK(group, version, kind string) (*Schema, error) {
 
-	home, err := os.UserHomeDir()
+	dir, err := cacheDir()
 	if err != nil {
 		return nil, err
 	}
 
-	gvkPath := filepath.Join(home, ".cache", "yisp", "gvk", fmt.Sprintf("%s_%s_%s.txt", group, version, kind))
+	gvkPath := filepath.Join(dir, "gvk", fmt.Sprintf("%s_%s_%s.txt", group, version, kind))
 	file, err := os.Open(gvkPath)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From b80122cf68548cd62bba8d23dd49bdedb75a2f4e Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:40:36 +0000
Subject: [PATCH 39/60] fix: k8s.patch keeps the type of a manifest when the
 patch has none

---
 lib/k8s.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/k8s.go b/lib/k8s.go
index f6567d0..e716835 100644
--- a/lib/k8s.go
+++ b/lib/k8s.go
@@ -57,11 +57,14 @@ func opPatch(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Eng
 			}
 
 			if patchID == targetID {
-				targetArray[i], err = core.DeepMergeYispNode(targetNode, patchNode, targetNode.Type)
+				merged, err := core.DeepMergeYispNode(targetNode, patchNode, targetNode.Type)
 				if err != nil {
 					return nil, core.NewEvaluationErrorWithParent(patchNode, "failed to apply patch", err)
 				}
-
+				if merged.Type == nil { // a patch without a type leaves the manifest its own
+					merged.Type = targetNode.Type
+				}
+				targetArray[i] = merged
 			}
 		}
 	}
-- 
2.43.0


From e1c942f0a25ed39eb13546e8dfb0ecfe6337f604 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:48:07 +0000
Subject: [PATCH 40/60] fix: emit block scalars that read back as the same
 string

Strings starting with a line break or a tab, strings starting with a
space inside lists or below odd indentation, and folded strings with
indented lines lost or gained characters (or were not valid YAML).
---
 internal/yaml/emitterc.go | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/internal/yaml/emitterc.go b/internal/yaml/emitterc.go
index dde20e5..acae89b 100644
--- a/internal/yaml/emitterc.go
+++ b/internal/yaml/emitterc.go
@@ -1845,8 +1845,13 @@ func yaml_emitter_write_double_quoted_scalar(emitter *yaml_emitter_t, value []by
 }
 
 func yaml_emitter_write_block_scalar_hints(emitter *yaml_emitter_t, value []byte) bool {
-	if is_space(value, 0) || is_break(value, 0) {
-		indent_hint := []byte{'0' + byte(emitter.best_indent)}
+	if is_blank(value, 0) || is_break(value, 0) {
+		// The hint is relative to the indentation of the parent node.
+		parent := emitter.indents[len(emitter.indents)-1]
+		if parent < 0 {
+			parent = 0
+		}
+		indent_hint := []byte{'0' + byte(emitter.indent-parent)}
 		if !yaml_emitter_write_indicator(emitter, indent_hint, false, false, false) {
 			return false
 		}
@@ -1896,6 +1901,12 @@ func yaml_emitter_write_literal_scalar(emitter *yaml_emitter_t, value []byte) bo
 	if !yaml_emitter_process_line_comment(emitter) {
 		return false
 	}
+	if is_break(value, 0) {
+		// Without this the leading break would only end the header line.
+		if !put_break(emitter) {
+			return false
+		}
+	}
 	//emitter.indention = true
 	emitter.whitespace = true
 	breaks := true
@@ -1933,6 +1944,12 @@ func yaml_emitter_write_folded_scalar(emitter *yaml_emitter_t, value []byte) boo
 	if !yaml_emitter_process_line_comment(emitter) {
 		return false
 	}
+	if is_break(value, 0) {
+		// Without this the leading break would only end the header line.
+		if !put_break(emitter) {
+			return false
+		}
+	}
 
 	//emitter.indention = true
 	emitter.whitespace = true
@@ -1942,11 +1959,11 @@ func yaml_emitter_write_folded_scalar(emitter *yaml_emitter_t, value []byte) boo
 	for i := 0; i < len(value); {
 		if is_break(value, i) {
 			if !breaks && !leading_spaces && value[i] == '\n' {
-				k := 0
-				for is_break(value, k) {
+				k := i
+				for k < len(value) && is_break(value, k) {
 					k += width(value[k])
 				}
-				if !is_blankz(value, k) {
+				if k < len(value) && !is_blankz(value, k) {
 					if !put_break(emitter) {
 						return false
 					}
-- 
2.43.0


From 95a15092fcac4721ca2d9e575871e065542ab830 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:59:43 +0000
Subject: [PATCH 41/60] fix: comments of keys stay valid YAML before flow
 collections

The line comment of a key whose value is written in flow style was moved
to the next key or written where it made the output invalid.
---
 internal/yaml/emitterc.go | 24 ++++++++++++++++++++++++
 internal/yaml/encode.go   | 20 +++++++++++++++++++-
 2 files changed, 43 insertions(+), 1 deletion(-)

diff --git a/internal/yaml/emitterc.go b/internal/yaml/emitterc.go
index acae89b..ba5311c 100644
--- a/internal/yaml/emitterc.go
+++ b/internal/yaml/emitterc.go
@@ -527,9 +527,30 @@ func yaml_emitter_emit_document_end(emitter *yaml_emitter_t, event *yaml_event_t
 	return true
 }
 
+// Indent the start of a flow collection that was pushed to a line of its own by a comment.
+func yaml_emitter_indent_flow_start(emitter *yaml_emitter_t) bool {
+	if emitter.column > 0 || emitter.root_context {
+		return true
+	}
+	indent := emitter.best_indent
+	if emitter.indent > 0 {
+		indent += emitter.indent
+	}
+	for emitter.column < indent {
+		if !put(emitter, ' ') {
+			return false
+		}
+	}
+	emitter.whitespace = true
+	return true
+}
+
 // Expect a flow item node.
 func yaml_emitter_emit_flow_sequence_item(emitter *yaml_emitter_t, event *yaml_event_t, first, trail bool) bool {
 	if first {
+		if !yaml_emitter_indent_flow_start(emitter) {
+			return false
+		}
 		if !yaml_emitter_write_indicator(emitter, []byte{'['}, true, true, false) {
 			return false
 		}
@@ -613,6 +634,9 @@ func yaml_emitter_emit_flow_sequence_item(emitter *yaml_emitter_t, event *yaml_e
 // Expect a flow key node.
 func yaml_emitter_emit_flow_mapping_key(emitter *yaml_emitter_t, event *yaml_event_t, first, trail bool) bool {
 	if first {
+		if !yaml_emitter_indent_flow_start(emitter) {
+			return false
+		}
 		if !yaml_emitter_write_indicator(emitter, []byte{'{'}, true, true, false) {
 			return false
 		}
diff --git a/internal/yaml/encode.go b/internal/yaml/encode.go
index de9e72a..5917694 100644
--- a/internal/yaml/encode.go
+++ b/internal/yaml/encode.go
@@ -33,6 +33,7 @@ type encoder struct {
 	event    yaml_event_t
 	out      []byte
 	flow     bool
+	inFlow   int // depth of flow collections around the current node
 	indent   int
 	doneInit bool
 }
@@ -484,6 +485,8 @@ func (e *encoder) node(node *Node, tail string) {
 		style := yaml_BLOCK_SEQUENCE_STYLE
 		if node.Style&FlowStyle != 0 {
 			style = yaml_FLOW_SEQUENCE_STYLE
+			e.inFlow++
+			defer func() { e.inFlow-- }()
 		}
 		e.must(yaml_sequence_start_event_initialize(&e.event, []byte(node.Anchor), []byte(longTag(tag)), tag == "", style))
 		e.event.head_comment = []byte(node.HeadComment)
@@ -500,6 +503,8 @@ func (e *encoder) node(node *Node, tail string) {
 		style := yaml_BLOCK_MAPPING_STYLE
 		if node.Style&FlowStyle != 0 {
 			style = yaml_FLOW_MAPPING_STYLE
+			e.inFlow++
+			defer func() { e.inFlow-- }()
 		}
 		yaml_mapping_start_event_initialize(&e.event, []byte(node.Anchor), []byte(longTag(tag)), tag == "", style)
 		e.event.tail_comment = []byte(tail)
@@ -513,16 +518,24 @@ func (e *encoder) node(node *Node, tail string) {
 		var tail string
 		for i := 0; i+1 < len(node.Content); i += 2 {
 			k := node.Content[i]
+			v := node.Content[i+1]
 			foot := k.FootComment
 			if foot != "" {
 				kopy := *k
 				kopy.FootComment = ""
 				k = &kopy
 			}
+			if k.LineComment != "" && (e.inFlow > 0 || isOneLine(v)) {
+				// There is no line break between this key and its value,
+				// so the comment can only stand behind the value.
+				kopy, vopy := *k, *v
+				vopy.LineComment = strings.TrimSpace(k.LineComment + " " + v.LineComment)
+				kopy.LineComment = ""
+				k, v = &kopy, &vopy
+			}
 			e.node(k, tail)
 			tail = foot
 
-			v := node.Content[i+1]
 			e.node(v, "")
 		}
 
@@ -575,3 +588,8 @@ func (e *encoder) node(node *Node, tail string) {
 		failf("cannot encode node with unknown kind %d", node.Kind)
 	}
 }
+
+// isOneLine reports whether the node is a collection written in flow style.
+func isOneLine(n *Node) bool {
+	return (n.Kind == SequenceNode || n.Kind == MappingNode) && (n.Style&FlowStyle != 0 || len(n.Content) == 0)
+}
-- 
2.43.0


From f8ec0629d027d24beae141c38240046af27daf3e Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 17:04:11 +0000
Subject: [PATCH 42/60] fix: decoding an alias without an anchor is an error,
 not a panic

---
 internal/yaml/decode.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/yaml/decode.go b/internal/yaml/decode.go
index ae16220..a21d562 100644
--- a/internal/yaml/decode.go
+++ b/internal/yaml/decode.go
@@ -533,6 +533,9 @@ func (d *decoder) document(n *Node, out reflect.Value) (good bool) {
 }
 
 func (d *decoder) alias(n *Node, out reflect.Value) (good bool) {
+	if n.Alias == nil {
+		failf("unknown anchor '%s' referenced", n.Value)
+	}
 	if d.aliases[n] {
 		// TODO this could actually be allowed in some circumstances.
 		failf("anchor '%s' value contains itself", n.Value)
-- 
2.43.0


From 0281d25869aa05922c29ef5bd2d4ef2dd34b6178 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 17:14:13 +0000
Subject: [PATCH 43/60] fix: anchors in a function body belong to the call,
 other calls do not see them

---
 engine/eval.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engine/eval.go b/engine/eval.go
index 5f45865..82275b9 100644
--- a/engine/eval.go
+++ b/engine/eval.go
@@ -482,7 +482,7 @@ func (e *engine) Eval(node *core.YispNode, env *core.Env, mode core.EvalMode) (*
 	}
 
 	if node.Anchor != "" {
-		env.Root().Set(node.Anchor, result) // anchor is global
+		env.Set(node.Anchor, result) // global, except that a function call has anchors of its own
 
 		if result.Kind == core.KindLambda {
 			lambda, ok := result.Value.(*core.Lambda)
-- 
2.43.0


From 40f6aea05fac7c70085cb22a6540293d3a94b23a Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 17:14:34 +0000
Subject: [PATCH 44/60] fix: naming a function again does not change what its
 free variables mean

---
 engine/eval.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/engine/eval.go b/engine/eval.go
index 82275b9..caca876 100644
--- a/engine/eval.go
+++ b/engine/eval.go
@@ -7,6 +7,16 @@ import (
 	"github.com/totegamma/yisp/core"
 )
 
+// isLambdaForm reports whether the node is itself a lambda expression
+func isLambdaForm(node *core.YispNode) bool {
+	items, ok := node.Value.([]any)
+	if !ok || len(items) == 0 {
+		return false
+	}
+	head, ok := items[0].(*core.YispNode)
+	return ok && head.Kind == core.KindString && head.Value == "lambda"
+}
+
 // Eval evaluates a core.YispNode in the given environment
 func (e *engine) Eval(node *core.YispNode, env *core.Env, mode core.EvalMode) (*core.YispNode, error) {
 
@@ -487,7 +497,11 @@ func (e *engine) Eval(node *core.YispNode, env *core.Env, mode core.EvalMode) (*
 		if result.Kind == core.KindLambda {
 			lambda, ok := result.Value.(*core.Lambda)
 			if ok {
-				lambda.Clojure.Set(node.Anchor, result)
+				// a function can call itself by its name, unless the name means something else where it is written
+				_, bound := lambda.Clojure.Get(node.Anchor)
+				if isLambdaForm(node) || !bound {
+					lambda.Clojure.Set(node.Anchor, result)
+				}
 			}
 		}
 	}
-- 
2.43.0


From 43c8ba755f87adf53996ec97e71b3a751cd3ee98 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 17:41:46 +0000
Subject: [PATCH 45/60] fix: scalars tagged with a declared type keep their
 type

---
 engine/parse.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/engine/parse.go b/engine/parse.go
index bd9c243..841e1e1 100644
--- a/engine/parse.go
+++ b/engine/parse.go
@@ -2,6 +2,7 @@ package engine
 
 import (
 	"fmt"
+	"strings"
 
 	"github.com/rs/xid"
 
@@ -107,7 +108,7 @@ func Parse(filename string, node *yaml.Node) (*core.YispNode, error) {
 	case yaml.ScalarNode:
 
 		kind := core.KindString
-		switch node.Tag {
+		switch scalarTag(node) {
 		case "!null", "!!null":
 			kind = core.KindNull
 		case "!bool", "!!bool":
@@ -167,6 +168,21 @@ func Parse(filename string, node *yaml.Node) (*core.YispNode, error) {
 	return result, err
 }
 
+// scalarTag returns the tag that says how a scalar is read. The name of a declared type
+// says what to cast the value to: the value itself is read as if it had no tag.
+func scalarTag(node *yaml.Node) string {
+	switch node.Tag {
+	case "!null", "!bool", "!int", "!float", "!string":
+		return node.Tag
+	}
+	if strings.HasPrefix(node.Tag, "!!") {
+		return node.Tag
+	}
+	untagged := *node
+	untagged.Tag = ""
+	return untagged.ShortTag()
+}
+
 // joinComments puts two comments of the same kind after each other
 func joinComments(first, second string) string {
 	if first == "" || second == "" {
-- 
2.43.0


From 55f9e6afeb8f13f2bf5aa63fd7eeb165ec0679f3 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 17:45:16 +0000
Subject: [PATCH 46/60] fix: a whole float default beyond the range of int
 stays a float

---
 core/schema.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/schema.go b/core/schema.go
index 6c15288..2d441b5 100644
--- a/core/schema.go
+++ b/core/schema.go
@@ -518,6 +518,10 @@ func (s *Schema) adjustNumbers(node *YispNode) {
 		if s.Type == "float" {
 			node.Kind, node.Value = KindFloat, float64(value)
 		}
+	case uint64:
+		if s.Type == "float" {
+			node.Kind, node.Value = KindFloat, float64(value)
+		}
 	case []any:
 		for _, item := range value {
 			s.Items.adjustNumbers(item.(*YispNode))
-- 
2.43.0


From e33222643014ebdb9559bc66a0899578d3c97239 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 17:52:45 +0000
Subject: [PATCH 47/60] fix: a line comment does not add a line to a block
 scalar that starts with a line break

---
 internal/yaml/emitterc.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/internal/yaml/emitterc.go b/internal/yaml/emitterc.go
index ba5311c..1914a35 100644
--- a/internal/yaml/emitterc.go
+++ b/internal/yaml/emitterc.go
@@ -1925,8 +1925,9 @@ func yaml_emitter_write_literal_scalar(emitter *yaml_emitter_t, value []byte) bo
 	if !yaml_emitter_process_line_comment(emitter) {
 		return false
 	}
-	if is_break(value, 0) {
-		// Without this the leading break would only end the header line.
+	if is_break(value, 0) && emitter.column != 0 {
+		// Without this the leading break would only end the header line
+		// (a comment there has ended it already).
 		if !put_break(emitter) {
 			return false
 		}
@@ -1968,8 +1969,9 @@ func yaml_emitter_write_folded_scalar(emitter *yaml_emitter_t, value []byte) boo
 	if !yaml_emitter_process_line_comment(emitter) {
 		return false
 	}
-	if is_break(value, 0) {
-		// Without this the leading break would only end the header line.
+	if is_break(value, 0) && emitter.column != 0 {
+		// Without this the leading break would only end the header line
+		// (a comment there has ended it already).
 		if !put_break(emitter) {
 			return false
 		}
-- 
2.43.0


From fa682cd774750bebf97b0d751eae13c6a723aaac Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 18:11:19 +0000
Subject: [PATCH 48/60] fix: a file is not among the files it includes, however
 the paths are written

---
 core/util.go    | 13 +++++++++++++
 engine/apply.go |  3 +--
 lib/files.go    |  2 +-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/core/util.go b/core/util.go
index 90b648c..5dacac4 100644
--- a/core/util.go
+++ b/core/util.go
@@ -404,6 +404,19 @@ func ResolvePath(path, base string) (string, error) {
 	return filepath.Join(filepath.Dir(base), path), nil
 }
 
+// SamePath tells whether two paths, which may be absolute or relative to the working directory, name the same file.
+func SamePath(a, b string) bool {
+	if !isRemote(a) && !isRemote(b) {
+		if abs, err := filepath.Abs(a); err == nil {
+			a = abs
+		}
+		if abs, err := filepath.Abs(b); err == nil {
+			b = abs
+		}
+	}
+	return filepath.Clean(a) == filepath.Clean(b)
+}
+
 // Glob returns the paths that match pattern, which is relative to the directory of the file base.
 // A pattern that is the name of an existing file stands for that file, whatever its characters.
 func Glob(pattern, base string) ([]string, error) {
diff --git a/engine/apply.go b/engine/apply.go
index e126a08..37db835 100644
--- a/engine/apply.go
+++ b/engine/apply.go
@@ -4,7 +4,6 @@ import (
 	"bytes"
 	"encoding/json"
 	"fmt"
-	"path/filepath"
 	"strings"
 
 	"github.com/totegamma/yisp/core"
@@ -356,7 +355,7 @@ func opInclude(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.E
 			if err != nil {
 				return nil, core.NewEvaluationErrorWithParent(node, fmt.Sprintf("failed to include file: %s", path), err)
 			}
-			if filepath.Clean(node.Attr.File()) == filepath.Clean(includedFile) {
+			if core.SamePath(node.Attr.File(), includedFile) {
 				continue
 			}
 
diff --git a/lib/files.go b/lib/files.go
index 5362c63..eddc3e4 100644
--- a/lib/files.go
+++ b/lib/files.go
@@ -38,7 +38,7 @@ func opGlob(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Engi
 			if err != nil {
 				return nil, core.NewEvaluationErrorWithParent(node, fmt.Sprintf("failed to read file: %s", path), err)
 			}
-			if filepath.Clean(node.Attr.File()) == filepath.Clean(location) {
+			if core.SamePath(node.Attr.File(), location) {
 				continue
 			}
 
-- 
2.43.0


From 2365d3047bd52dc5e8faec7e9b96f0f8054f4e6d Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 18:14:02 +0000
Subject: [PATCH 49/60] fix: a glob pattern lists every file once

---
 core/util.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/core/util.go b/core/util.go
index 5dacac4..697f7ea 100644
--- a/core/util.go
+++ b/core/util.go
@@ -442,10 +442,16 @@ func Glob(pattern, base string) ([]string, error) {
 	if err != nil {
 		return nil, err
 	}
-	for i, path := range paths {
-		paths[i] = filepath.Join(root, path)
+	seen := make(map[string]bool, len(paths))
+	found := make([]string, 0, len(paths))
+	for _, path := range paths {
+		path = filepath.Join(root, path)
+		if !seen[path] { // a pattern like **/**/x finds a file several times
+			seen[path] = true
+			found = append(found, path)
+		}
 	}
-	return paths, nil
+	return found, nil
 }
 
 func fetchRemote(rawURL string) (io.ReadCloser, error) {
-- 
2.43.0


From ea04bff46cfd72e4b54537897631e2891355488f Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 18:28:33 +0000
Subject: [PATCH 50/60] fix: what follows the value of a JSON file is an error
 instead of being dropped

---
 core/parse.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/parse.go b/core/parse.go
index 076c833..8446ad3 100644
--- a/core/parse.go
+++ b/core/parse.go
@@ -169,6 +169,9 @@ func ParseJson(filename string, reader io.Reader) (*YispNode, error) {
 	if err := decoder.Decode(&data); err != nil {
 		return nil, fmt.Errorf("failed to decode JSON: %v", err)
 	}
+	if _, err := decoder.Token(); !errors.Is(err, io.EOF) {
+		return nil, errors.New("failed to decode JSON: unexpected data after the value")
+	}
 
 	node, err := ParseAny(filename, data)
 	if err != nil {
-- 
2.43.0


From 8a22260434566234cb8e87fe4c5d05ac3f2c390d Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 18:35:17 +0000
Subject: [PATCH 51/60] fix: close included and imported files once they are
 read

---
 core/util.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/util.go b/core/util.go
index 697f7ea..fc42206 100644
--- a/core/util.go
+++ b/core/util.go
@@ -331,10 +331,12 @@ func CallEngineByPath(path, base string, env *Env, e Engine) (*YispNode, error)
 			if err != nil {
 				return nil, fmt.Errorf("failed to parse URL: %v", err)
 			}
-			reader, err = fetchRemote(location)
+			body, err := fetchRemote(location)
 			if err != nil {
 				return nil, fmt.Errorf("failed to fetch remote file: %v", err)
 			}
+			defer body.Close()
+			reader = body
 			extension = filepath.Ext(targetURL.Path)
 		} else {
 
@@ -346,10 +348,12 @@ func CallEngineByPath(path, base string, env *Env, e Engine) (*YispNode, error)
 			if stat.IsDir() {
 				location = filepath.Join(location, "index.yisp")
 			}
-			reader, err = os.Open(location)
+			file, err := os.Open(location)
 			if err != nil {
 				return nil, fmt.Errorf("failed to open file: %v", err)
 			}
+			defer file.Close()
+			reader = file
 			extension = filepath.Ext(location)
 		}
 		source = location
-- 
2.43.0


From 4f3420e13cfeb331a1f0131a70371f2f2b140dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:04:25 +0000
Subject: [PATCH 52/60] fix: yisp build and krm added a line break to the
 result and ignored write errors

---
 cmd/build.go | 14 ++++++++++++--
 cmd/krm.go   |  4 ++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/cmd/build.go b/cmd/build.go
index 122b3b1..f5d2570 100644
--- a/cmd/build.go
+++ b/cmd/build.go
@@ -70,7 +70,7 @@ var buildCmd = &cobra.Command{
 				os.Exit(1)
 			}
 
-			fmt.Println(result)
+			printResult(result)
 		case "json":
 			resultAny, err := e.EvaluateFileToAny(yamlFile)
 			if err != nil {
@@ -100,7 +100,7 @@ var buildCmd = &cobra.Command{
 				os.Exit(1)
 			}
 
-			fmt.Println(string(jsonResult))
+			printResult(string(jsonResult) + "\n")
 		default:
 			fmt.Fprintln(os.Stderr, "Error: Unsupported output format. Use 'yaml' or 'json'.")
 			os.Exit(1)
@@ -108,6 +108,16 @@ var buildCmd = &cobra.Command{
 	},
 }
 
+// printResult writes the result as it is: a further line break would become
+// part of a block string at its end.
+func printResult(result string) {
+	_, err := os.Stdout.WriteString(result)
+	if err != nil {
+		fmt.Fprintln(os.Stderr, "Error:", err)
+		os.Exit(1)
+	}
+}
+
 func init() {
 	rootCmd.AddCommand(buildCmd)
 	buildCmd.Flags().BoolP("allow-cmd", "", false, "Allow command execution")
diff --git a/cmd/krm.go b/cmd/krm.go
index 95ec263..aa06363 100644
--- a/cmd/krm.go
+++ b/cmd/krm.go
@@ -114,7 +114,7 @@ var krmCmd = &cobra.Command{
 				os.Exit(1)
 			}
 
-			fmt.Println(result)
+			printResult(result)
 
 		} else {
 
@@ -128,7 +128,7 @@ var krmCmd = &cobra.Command{
 				os.Exit(1)
 			}
 
-			fmt.Println(result)
+			printResult(result)
 		}
 
 	},
-- 
2.43.0


From 6e8027d9a90b1d5af36cba8a594167177b7f6aea Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:06:18 +0000
Subject: [PATCH 53/60] fix: a config file with a syntax error was overwritten
 with an empty allow list

---
 cmd/root.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cmd/root.go b/cmd/root.go
index 478a26d..ca64087 100644
--- a/cmd/root.go
+++ b/cmd/root.go
@@ -1,6 +1,8 @@
 package cmd
 
 import (
+	"errors"
+	"fmt"
 	"os"
 	"path/filepath"
 
@@ -53,6 +55,11 @@ func initConfig() {
 	viper.SetConfigFile(configPath)
 
 	err := viper.ReadInConfig()
+	var malformed viper.ConfigParseError
+	if errors.As(err, &malformed) { // writing the defaults would lose what is in it
+		fmt.Fprintln(os.Stderr, "Error:", err)
+		os.Exit(1)
+	}
 	if err != nil {
 		viper.SetDefault("AllowedGoPkgs", []string{})
 		_ = viper.WriteConfig()
-- 
2.43.0


From 672266f45275c68a68fc847b8f5ed40f33096bae Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:48:38 +0000
Subject: [PATCH 54/60] fix: a flow collection as a mapping key is not indented

---
 internal/yaml/emitterc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/yaml/emitterc.go b/internal/yaml/emitterc.go
index 1914a35..96b507f 100644
--- a/internal/yaml/emitterc.go
+++ b/internal/yaml/emitterc.go
@@ -529,7 +529,7 @@ func yaml_emitter_emit_document_end(emitter *yaml_emitter_t, event *yaml_event_t
 
 // Indent the start of a flow collection that was pushed to a line of its own by a comment.
 func yaml_emitter_indent_flow_start(emitter *yaml_emitter_t) bool {
-	if emitter.column > 0 || emitter.root_context {
+	if emitter.column > 0 || emitter.root_context || emitter.simple_key_context {
 		return true
 	}
 	indent := emitter.best_indent
-- 
2.43.0


From 4327e6fab7eb1a3cad7b3e5375a6c9e5b96daaa0 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:48:47 +0000
Subject: [PATCH 55/60] fix: an error about a computed value or a number of
 arguments names the call

---
 core/error.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/error.go b/core/error.go
index fa5df4f..dcb7d10 100644
--- a/core/error.go
+++ b/core/error.go
@@ -25,6 +25,10 @@ func NewEvaluationErrorWithParent(node *YispNode, message string, parent error)
 
 	p, ok := parent.(*ErrorTypeEvaluation)
 	if ok {
+		if p.Node == nil || p.Node.Attr.File() == "" {
+			// the error does not know its place, this is the closest one
+			p.Node = node
+		}
 		return &ErrorTypeEvaluation{
 			Type:    "YispErrorEvaluation",
 			Node:    node,
-- 
2.43.0


From edd25226ba9a56a03aadd73314d9ae1f0e103a91 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 20:05:13 +0000
Subject: [PATCH 56/60] fix: reject a schema page with a stray closing bracket
 after the schema

---
 core/schema.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/schema.go b/core/schema.go
index 2d441b5..c257abb 100644
--- a/core/schema.go
+++ b/core/schema.go
@@ -196,8 +196,10 @@ func LoadSchemaFromURL(url string) (*Schema, error) {
 		decoder := json.NewDecoder(bytes.NewReader(body))
 		decoder.UseNumber()
 		err = decoder.Decode(&schema)
-		if err == nil && decoder.More() {
-			err = fmt.Errorf("unexpected data after the schema")
+		if err == nil {
+			if _, end := decoder.Token(); end != io.EOF {
+				err = fmt.Errorf("unexpected data after the schema")
+			}
 		}
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 3daf661475280f711af8ab76b3a7098c85270e1e Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:09:20 +0000
Subject: [PATCH 57/60] fix: source-map comments stay apart from other comments
 and off the next key or document

---
 engine/render.go | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/engine/render.go b/engine/render.go
index 7ac140f..9c5a758 100644
--- a/engine/render.go
+++ b/engine/render.go
@@ -12,22 +12,39 @@ import (
 )
 
 func (e *engine) getLineComment(node *core.YispNode) string {
-	lineComment := node.Attr.LineComment
 	if e.renderSources {
-		lineComment += node.Sourcemap()
+		return withSourcemap(node.Attr.LineComment, node)
 	}
-	return lineComment
+	return node.Attr.LineComment
+}
+
+// withSourcemap puts the source position of node after a comment
+func withSourcemap(comment string, node *core.YispNode) string {
+	position := node.Sourcemap()
+	if comment == "" || position == "" {
+		return comment + position
+	}
+	return comment + " " + position
+}
+
+// getCollectionLineComment returns the line comment of a list or map. The end of
+// a block collection is no place for its source position: it would end up at the
+// next key or document.
+func (e *engine) getCollectionLineComment(node *core.YispNode, contents []*yaml.Node) string {
+	if len(contents) > 0 && node.Attr.Style&yaml.FlowStyle == 0 {
+		return node.Attr.LineComment
+	}
+	return e.getLineComment(node)
 }
 
 // getKeyLineComment returns the line comment of the key that holds node. The
 // source position goes there only for block collections: they start on the
 // line after the key, everything else carries its own line comment.
 func (e *engine) getKeyLineComment(node *core.YispNode, content *yaml.Node) string {
-	lineComment := node.Attr.KeyLineComment
 	if e.renderSources && len(content.Content) > 0 && content.Style&yaml.FlowStyle == 0 {
-		lineComment += node.Sourcemap()
+		return withSourcemap(node.Attr.KeyLineComment, node)
 	}
-	return lineComment
+	return node.Attr.KeyLineComment
 }
 
 // keyTag returns the tag of the key that holds node: keys are strings and quoted
@@ -152,7 +169,7 @@ func (e *engine) renderYamlNodes(node *core.YispNode) (*yaml.Node, error) {
 			Kind:        yaml.SequenceNode,
 			Content:     results,
 			HeadComment: node.Attr.HeadComment,
-			LineComment: e.getLineComment(node),
+			LineComment: e.getCollectionLineComment(node, results),
 			FootComment: node.Attr.FootComment,
 			Style:       node.Attr.Style,
 		}, nil
@@ -194,7 +211,7 @@ func (e *engine) renderYamlNodes(node *core.YispNode) (*yaml.Node, error) {
 			Kind:        yaml.MappingNode,
 			Content:     results,
 			HeadComment: node.Attr.HeadComment,
-			LineComment: e.getLineComment(node),
+			LineComment: e.getCollectionLineComment(node, results),
 			FootComment: node.Attr.FootComment,
 			Style:       node.Attr.Style,
 		}, nil
-- 
2.43.0


From 672936edf76b485bbf06a6c9d74b59dc7c2f87a0 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:57:28 +0000
Subject: [PATCH 58/60] fix: a config that can not be written keeps the allow
 list

---
 cmd/allow.go | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/cmd/allow.go b/cmd/allow.go
index 4adbeb6..09eee4e 100644
--- a/cmd/allow.go
+++ b/cmd/allow.go
@@ -2,6 +2,9 @@ package cmd
 
 import (
 	"fmt"
+	"os"
+	"path/filepath"
+
 	"github.com/spf13/cobra"
 	"github.com/spf13/viper"
 )
@@ -20,14 +23,35 @@ var allowCmd = &cobra.Command{
 				pkg,
 			),
 		)
-		err := viper.WriteConfig()
+		err := writeConfig()
 		if err != nil {
-			panic(err)
+			fmt.Fprintln(os.Stderr, "Error:", err)
+			os.Exit(1)
 		}
 		fmt.Printf("Added %s to allowed go pkgs\n", pkg)
 	},
 }
 
+// writeConfig replaces the config file as a whole: when writing fails, what was in it is kept
+func writeConfig() error {
+	path := viper.ConfigFileUsed()
+	if target, err := filepath.EvalSymlinks(path); err == nil {
+		path = target
+	}
+
+	temp := filepath.Join(filepath.Dir(path), fmt.Sprintf("%d-%s", os.Getpid(), filepath.Base(path)))
+	defer os.Remove(temp)
+	if err := viper.WriteConfigAs(temp); err != nil {
+		return err
+	}
+	if info, err := os.Stat(path); err == nil {
+		if err := os.Chmod(temp, info.Mode()); err != nil {
+			return err
+		}
+	}
+	return os.Rename(temp, path)
+}
+
 func init() {
 	rootCmd.AddCommand(allowCmd)
 }
-- 
2.43.0


From 9933929aeaf8e87d4a14f9ebbc990de58090759f Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 22:34:47 +0000
Subject: [PATCH 59/60] fix: numbers and booleans that took the style of a
 string are rendered as strings

---
 engine/render.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/engine/render.go b/engine/render.go
index 9c5a758..2d5264f 100644
--- a/engine/render.go
+++ b/engine/render.go
@@ -66,6 +66,15 @@ func keyStyle(key string, node *core.YispNode) yaml.Style {
 	return node.Attr.KeyStyle
 }
 
+// plainStyle returns the style of a scalar that is no string. A value that got its style
+// from a string, like the length of a list read from a text, would read back as a string.
+func plainStyle(node *core.YispNode) yaml.Style {
+	if node.Attr.Style&yaml.TaggedStyle != 0 {
+		return node.Attr.Style
+	}
+	return node.Attr.Style &^ (yaml.DoubleQuotedStyle | yaml.SingleQuotedStyle | yaml.LiteralStyle | yaml.FoldedStyle)
+}
+
 // formatFloat writes a float so that it reads back as the same float
 func formatFloat(value any) string {
 	f, ok := value.(float64)
@@ -98,7 +107,7 @@ func (e *engine) renderYamlNodes(node *core.YispNode) (*yaml.Node, error) {
 			HeadComment: node.Attr.HeadComment,
 			LineComment: e.getLineComment(node),
 			FootComment: node.Attr.FootComment,
-			Style:       node.Attr.Style,
+			Style:       plainStyle(node),
 		}, nil
 
 	case core.KindBool:
@@ -109,7 +118,7 @@ func (e *engine) renderYamlNodes(node *core.YispNode) (*yaml.Node, error) {
 			HeadComment: node.Attr.HeadComment,
 			LineComment: e.getLineComment(node),
 			FootComment: node.Attr.FootComment,
-			Style:       node.Attr.Style,
+			Style:       plainStyle(node),
 		}, nil
 
 	case core.KindInt:
@@ -120,7 +129,7 @@ func (e *engine) renderYamlNodes(node *core.YispNode) (*yaml.Node, error) {
 			HeadComment: node.Attr.HeadComment,
 			LineComment: e.getLineComment(node),
 			FootComment: node.Attr.FootComment,
-			Style:       node.Attr.Style,
+			Style:       plainStyle(node),
 		}, nil
 
 	case core.KindFloat:
@@ -131,7 +140,7 @@ func (e *engine) renderYamlNodes(node *core.YispNode) (*yaml.Node, error) {
 			HeadComment: node.Attr.HeadComment,
 			LineComment: e.getLineComment(node),
 			FootComment: node.Attr.FootComment,
-			Style:       node.Attr.Style,
+			Style:       plainStyle(node),
 		}, nil
 
 	case core.KindString:
-- 
2.43.0


From 423ce7b002d5802bd0ff8a8c2db1e4a2510983f9 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 01:34:10 +0000
Subject: [PATCH 60/60] fix: merge lists whose patch strategy is
 merge,retainKeys, as Kubernetes declares it for volumes

---
 core/util.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/util.go b/core/util.go
index fc42206..1238c38 100644
--- a/core/util.go
+++ b/core/util.go
@@ -76,6 +76,9 @@ func DeepMergeYispNode(dst, src *YispNode, schema *Schema) (*YispNode, error) {
 		if schema.GetPatchStrategy() != "" {
 			strategy = schema.GetPatchStrategy()
 		}
+		if strategy == "merge,retainKeys" { // retainKeys is about the keys of an item, and only when a patch asks for it
+			strategy = "merge"
+		}
 		mergeKey = schema.GetPatchMergeKey()
 	}
 
-- 
2.43.0

