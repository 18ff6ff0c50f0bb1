From e4936e654fa2e6900b541f317d964f639163e4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:36 +0000
Subject: [PATCH 01/55] fix: logical and/or looked at the low byte of their
 operands only

---
 src/nkopcode.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/nkopcode.c b/src/nkopcode.c
index 4997d01..e992cda 100644
--- a/src/nkopcode.c
+++ b/src/nkopcode.c
@@ -966,8 +966,8 @@ void nkiOpcode_and(struct NKVM *vm)
 {
     // Do NOT try to inline these function calls in this expression. C
     // shortcutting will ruin your day.
-    nkbool in1 = nkiValueToInt(vm, nkiVmStackPop(vm));
-    nkbool in2 = nkiValueToInt(vm, nkiVmStackPop(vm));
+    nkint32_t in1 = nkiValueToInt(vm, nkiVmStackPop(vm));
+    nkint32_t in2 = nkiValueToInt(vm, nkiVmStackPop(vm));
     nkiVmStackPushInt(vm, in1 && in2);
 }
 
@@ -975,8 +975,8 @@ void nkiOpcode_or(struct NKVM *vm)
 {
     // Do NOT try to inline these function calls in this expression. C
     // shortcutting will ruin your day.
-    nkbool in1 = nkiValueToInt(vm, nkiVmStackPop(vm));
-    nkbool in2 = nkiValueToInt(vm, nkiVmStackPop(vm));
+    nkint32_t in1 = nkiValueToInt(vm, nkiVmStackPop(vm));
+    nkint32_t in2 = nkiValueToInt(vm, nkiVmStackPop(vm));
     nkiVmStackPushInt(vm, in1 || in2);
 }
 
-- 
2.43.0


From 10485cf07484fcef2573dd51518eef2dda9f5981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:52 +0000
Subject: [PATCH 02/55] fix: is_finished() shifted the stack offsets of
 everything evaluated after it

---
 src/nkvm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nkvm.c b/src/nkvm.c
index e6cd7ee..896978e 100644
--- a/src/nkvm.c
+++ b/src/nkvm.c
@@ -127,7 +127,7 @@ static void nkiVmInitOpcodeTable(void)
     NK_SETUP_OP(NK_OP_COROUTINE_CREATE,       nkiOpcode_coroutineCreate,        1);
     NK_SETUP_OP(NK_OP_COROUTINE_YIELD,        nkiOpcode_coroutineYield,         0);
     NK_SETUP_OP(NK_OP_COROUTINE_RESUME,       nkiOpcode_coroutineResume,        -1);
-    NK_SETUP_OP(NK_OP_COROUTINE_ISFINISHED,   nkiOpcode_coroutineIsFinished,    1);
+    NK_SETUP_OP(NK_OP_COROUTINE_ISFINISHED,   nkiOpcode_coroutineIsFinished,    0);
 
     NK_SETUP_OP(NK_OP_PUSHNIL,                nkiOpcode_pushNil,                1);
 
-- 
2.43.0


From b71b66960e39dae192da3f057e37bf6ee97f3c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:52 +0000
Subject: [PATCH 03/55] fix: integer arithmetic overflow was undefined
 behaviour; wrap around instead

---
 src/nkopcode.c | 14 +++++++-------
 src/nkopt.c    | 17 ++++++++++-------
 2 files changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/nkopcode.c b/src/nkopcode.c
index e992cda..3153534 100644
--- a/src/nkopcode.c
+++ b/src/nkopcode.c
@@ -56,8 +56,8 @@ void nkiOpcode_add(struct NKVM *vm)
 
             nkiVmStackPushInt(
                 vm,
-                in1->intData +
-                nkiValueToInt(vm, in2));
+                (nkint32_t)((nkuint32_t)in1->intData +
+                    (nkuint32_t)nkiValueToInt(vm, in2)));
             break;
 
         case NK_VALUETYPE_FLOAT:
@@ -164,8 +164,8 @@ void nkiOpcode_subtract(struct NKVM *vm)
         case NK_VALUETYPE_INT:
             nkiVmStackPushInt(
                 vm,
-                in1->intData -
-                nkiValueToInt(vm, in2));
+                (nkint32_t)((nkuint32_t)in1->intData -
+                    (nkuint32_t)nkiValueToInt(vm, in2)));
             break;
 
         case NK_VALUETYPE_FLOAT:
@@ -200,8 +200,8 @@ void nkiOpcode_multiply(struct NKVM *vm)
         case NK_VALUETYPE_INT:
             nkiVmStackPushInt(
                 vm,
-                in1->intData *
-                nkiValueToInt(vm, in2));
+                (nkint32_t)((nkuint32_t)in1->intData *
+                    (nkuint32_t)nkiValueToInt(vm, in2)));
             break;
 
         case NK_VALUETYPE_FLOAT:
@@ -325,7 +325,7 @@ void nkiOpcode_negate(struct NKVM *vm)
         case NK_VALUETYPE_INT: {
             nkiVmStackPushInt(
                 vm,
-                -(in1->intData));
+                (nkint32_t)(0 - (nkuint32_t)in1->intData));
         } break;
 
         case NK_VALUETYPE_FLOAT: {
diff --git a/src/nkopt.c b/src/nkopt.c
index 8507c0e..760e112 100644
--- a/src/nkopt.c
+++ b/src/nkopt.c
@@ -85,28 +85,31 @@ struct NKExpressionAstNode *nkiCompilerMakeImmediateExpressionNode(
     return newNode;
 }
 
-#define NK_APPLY_MATH()                                                 \
+/* Integers are added, subtracted, negated, and multiplied as unsigned
+ * values (mathType), so that they wrap around on overflow the same way
+ * they do at run time. */
+#define NK_APPLY_MATH(mathType)                                         \
     do {                                                                \
         switch((*node)->opOrValue->type) {                              \
                                                                         \
             case NK_TOKENTYPE_PLUS:                                     \
                 /* Addition. */                                         \
-                val = c0Val + c1Val;                                    \
+                val = (mathType)c0Val + (mathType)c1Val;                \
                 break;                                                  \
                                                                         \
             case NK_TOKENTYPE_MINUS:                                    \
                 if(!(*node)->children[1]) {                             \
                     /* Unary negation. */                               \
-                    val = -c0Val;                                       \
+                    val = -(mathType)c0Val;                             \
                 } else {                                                \
                     /* Subtraction. */                                  \
-                    val = c0Val - c1Val;                                \
+                    val = (mathType)c0Val - (mathType)c1Val;            \
                 }                                                       \
                 break;                                                  \
                                                                         \
             case NK_TOKENTYPE_MULTIPLY:                                 \
                 /* Multiplication. */                                   \
-                val = c0Val * c1Val;                                    \
+                val = (mathType)c0Val * (mathType)c1Val;                \
                 break;                                                  \
                                                                         \
             case NK_TOKENTYPE_DIVIDE:                                   \
@@ -188,7 +191,7 @@ void nkiCompilerOptimizeConstants(
                     char tmp[NK_PRINTF_INTCHARSNEED];
 
                     // Do the actual operation.
-                    NK_APPLY_MATH();
+                    NK_APPLY_MATH(nkuint32_t);
 
                     // TODO: Use sprintf_s on non-DOS systems.
 
@@ -211,7 +214,7 @@ void nkiCompilerOptimizeConstants(
                     char tmp[NK_PRINTF_FLOATCHARSNEEDED + 1];
 
                     // Do the actual operation.
-                    NK_APPLY_MATH();
+                    NK_APPLY_MATH(float);
 
                     // We aren't using sprintf_s here for DOS
                     // compatibility.
-- 
2.43.0


From baa7ef0a3439615f1df942c2323f09c93dc0a311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:15 +0000
Subject: [PATCH 04/55] fix: converting an out-of-range float to an integer was
 undefined behaviour

---
 src/nkvalue.c | 17 ++++++++++++++++-
 src/nkvalue.h |  5 +++++
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/nkvalue.c b/src/nkvalue.c
index ea887c0..841b014 100644
--- a/src/nkvalue.c
+++ b/src/nkvalue.c
@@ -94,6 +94,21 @@ const char *nkiValueTypeGetName(enum NKValueType type)
     }
 }
 
+nkint32_t nkiFloatToInt(float f)
+{
+    // Converting anything that doesn't fit is undefined behavior, so
+    // it has to be checked for first. Note that NaN fails every
+    // comparison.
+    if(f >= 2147483648.0f) {
+        return 2147483647L;
+    } else if(f >= -2147483648.0f) {
+        return (nkint32_t)f;
+    } else if(f < -2147483648.0f) {
+        return -2147483647L - 1L;
+    }
+    return 0;
+}
+
 nkint32_t nkiValueToInt(struct NKVM *vm, struct NKValue *value)
 {
     switch(value->type) {
@@ -102,7 +117,7 @@ nkint32_t nkiValueToInt(struct NKVM *vm, struct NKValue *value)
             return value->intData;
 
         case NK_VALUETYPE_FLOAT:
-            return (int)value->floatData;
+            return nkiFloatToInt(value->floatData);
 
         case NK_VALUETYPE_STRING:
         {
diff --git a/src/nkvalue.h b/src/nkvalue.h
index d9f6588..d777779 100644
--- a/src/nkvalue.h
+++ b/src/nkvalue.h
@@ -90,6 +90,11 @@ const char *nkiValueGetTypeNameOfValue(struct NKVM *vm, struct NKValue *val);
 /// Get a string representation for a type.
 const char *nkiValueTypeGetName(enum NKValueType type);
 
+/// Convert a floating point number to an integer. Fractions are
+/// dropped, numbers out of range become the nearest integer, and
+/// NaN becomes zero.
+nkint32_t nkiFloatToInt(float f);
+
 /// Convert a value to an integer.
 nkint32_t nkiValueToInt(struct NKVM *vm, struct NKValue *value);
 
-- 
2.43.0


From 0b1202e2dc3313e306e603295c3b971b541bdbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:21 +0000
Subject: [PATCH 05/55] fix: constant folding changed results (float digits
 lost, operands converted as text)

---
 src/nkopt.c | 36 +++++++++++++++++++++++++++++++-----
 1 file changed, 31 insertions(+), 5 deletions(-)

diff --git a/src/nkopt.c b/src/nkopt.c
index 760e112..272986f 100644
--- a/src/nkopt.c
+++ b/src/nkopt.c
@@ -85,6 +85,30 @@ struct NKExpressionAstNode *nkiCompilerMakeImmediateExpressionNode(
     return newNode;
 }
 
+/* Get the value of an immediate, converted to the type it would be
+ * converted to at run time. */
+nkint32_t nkiCompilerImmediateToInt(struct NKExpressionAstNode *node)
+{
+    if(!node) {
+        return 0;
+    }
+    if(node->opOrValue->type == NK_TOKENTYPE_FLOAT) {
+        return nkiFloatToInt((float)atof(node->opOrValue->str));
+    }
+    return (nkint32_t)atol(node->opOrValue->str);
+}
+
+float nkiCompilerImmediateToFloat(struct NKExpressionAstNode *node)
+{
+    if(!node) {
+        return 0;
+    }
+    if(node->opOrValue->type == NK_TOKENTYPE_INTEGER) {
+        return (float)(nkint32_t)atol(node->opOrValue->str);
+    }
+    return (float)atof(node->opOrValue->str);
+}
+
 /* Integers are added, subtracted, negated, and multiplied as unsigned
  * values (mathType), so that they wrap around on overflow the same way
  * they do at run time. */
@@ -182,8 +206,8 @@ void nkiCompilerOptimizeConstants(
                 case NK_TOKENTYPE_INTEGER: {
 
                     // Fetch original values.
-                    nkint32_t c0Val = (*node)->children[0] ? atol((*node)->children[0]->opOrValue->str) : 0;
-                    nkint32_t c1Val = (*node)->children[1] ? atol((*node)->children[1]->opOrValue->str) : 0;
+                    nkint32_t c0Val = nkiCompilerImmediateToInt((*node)->children[0]);
+                    nkint32_t c1Val = nkiCompilerImmediateToInt((*node)->children[1]);
                     nkint32_t val = 0;
 
                     // Using the same size we use for the floating
@@ -208,8 +232,8 @@ void nkiCompilerOptimizeConstants(
                 case NK_TOKENTYPE_FLOAT: {
 
                     // Fetch original values.
-                    float c0Val = (*node)->children[0] ? atof((*node)->children[0]->opOrValue->str) : 0;
-                    float c1Val = (*node)->children[1] ? atof((*node)->children[1]->opOrValue->str) : 0;
+                    float c0Val = nkiCompilerImmediateToFloat((*node)->children[0]);
+                    float c1Val = nkiCompilerImmediateToFloat((*node)->children[1]);
                     float val = 0;
                     char tmp[NK_PRINTF_FLOATCHARSNEEDED + 1];
 
@@ -223,7 +247,9 @@ void nkiCompilerOptimizeConstants(
                     // non-DOS systems.
 
                     // Set the string for the result.
-                    sprintf(tmp, "%f", val);
+                    // This takes enough digits to get exactly the
+                    // same value back.
+                    sprintf(tmp, "%.9g", val);
                     newNode->opOrValue->str = nkiStrdup(vm, tmp);
 
                     // Replace the original node.
-- 
2.43.0


From c2e4742753b19f080ae32d85da1438bbc3b0ba46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:02 +0000
Subject: [PATCH 06/55] fix: every var and return statement used up a level of
 the compiler's recursion limit

---
 src/nkcompil.c | 22 ++++++++++++++++++++--
 src/nkexpr.c   |  2 ++
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/nkcompil.c b/src/nkcompil.c
index 78d3843..17eba91 100644
--- a/src/nkcompil.c
+++ b/src/nkcompil.c
@@ -417,6 +417,7 @@ nkbool nkiCompilerCompileStatement(struct NKCompilerState *cs)
 
     if(nkiCompilerCurrentTokenType(cs) == NK_TOKENTYPE_INVALID) {
         nkiCompilerAddError(cs, "Ran out of tokens to parse.");
+        nkiCompilerPopRecursion(cs);
         return nkfalse;
     }
 
@@ -424,15 +425,24 @@ nkbool nkiCompilerCompileStatement(struct NKCompilerState *cs)
 
         case NK_TOKENTYPE_VAR:
             // "var" = Variable declaration.
-            return nkiCompilerCompileVariableDeclaration(cs);
+            if(!nkiCompilerCompileVariableDeclaration(cs)) {
+                nkiCompilerPopRecursion(cs);
+                return nkfalse;
+            }
+            break;
 
         case NK_TOKENTYPE_RETURN:
             // "return" = Return statement.
-            return nkiCompilerCompileReturnStatement(cs);
+            if(!nkiCompilerCompileReturnStatement(cs)) {
+                nkiCompilerPopRecursion(cs);
+                return nkfalse;
+            }
+            break;
 
         case NK_TOKENTYPE_CURLYBRACE_OPEN:
             // Curly braces mean we need to parse a block.
             if(!nkiCompilerCompileBlock(cs, nkfalse)) {
+                nkiCompilerPopRecursion(cs);
                 return nkfalse;
             }
             break;
@@ -440,6 +450,7 @@ nkbool nkiCompilerCompileStatement(struct NKCompilerState *cs)
         case NK_TOKENTYPE_IF:
             // "if" statements.
             if(!nkiCompilerCompileIfStatement(cs)) {
+                nkiCompilerPopRecursion(cs);
                 return nkfalse;
             }
             break;
@@ -447,6 +458,7 @@ nkbool nkiCompilerCompileStatement(struct NKCompilerState *cs)
         case NK_TOKENTYPE_WHILE:
             // "while" statements.
             if(!nkiCompilerCompileWhileStatement(cs)) {
+                nkiCompilerPopRecursion(cs);
                 return nkfalse;
             }
             break;
@@ -454,6 +466,7 @@ nkbool nkiCompilerCompileStatement(struct NKCompilerState *cs)
         case NK_TOKENTYPE_DO:
             // "do/while" statements.
             if(!nkiCompilerCompileDoWhileStatement(cs)) {
+                nkiCompilerPopRecursion(cs);
                 return nkfalse;
             }
             break;
@@ -461,6 +474,7 @@ nkbool nkiCompilerCompileStatement(struct NKCompilerState *cs)
         case NK_TOKENTYPE_FOR:
             // "for" statements.
             if(!nkiCompilerCompileForStatement(cs)) {
+                nkiCompilerPopRecursion(cs);
                 return nkfalse;
             }
             break;
@@ -468,6 +482,7 @@ nkbool nkiCompilerCompileStatement(struct NKCompilerState *cs)
         case NK_TOKENTYPE_BREAK:
             // "break" statements.
             if(!nkiCompilerCompileBreakStatement(cs)) {
+                nkiCompilerPopRecursion(cs);
                 return nkfalse;
             }
             break;
@@ -478,6 +493,7 @@ nkbool nkiCompilerCompileStatement(struct NKCompilerState *cs)
             struct NKToken *nextToken = nkiCompilerPeekToken(cs);
             if(nextToken && nextToken->type == NK_TOKENTYPE_IDENTIFIER) {
                 if(!nkiCompilerCompileFunctionDefinition(cs, nkfalse, NULL)) {
+                    nkiCompilerPopRecursion(cs);
                     return nkfalse;
                 }
                 break;
@@ -488,6 +504,7 @@ nkbool nkiCompilerCompileStatement(struct NKCompilerState *cs)
         default:
             // Fall back to just parsing an expression.
             if(!nkiCompilerCompileExpression(cs, nktrue)) {
+                nkiCompilerPopRecursion(cs);
                 return nkfalse;
             }
 
@@ -575,6 +592,7 @@ nkbool nkiCompilerCompileBlock(struct NKCompilerState *cs, nkbool noBracesOrCont
         noBracesOrContext)
     {
         nkiCompilerAddError(cs, "Extra closing curly brace.");
+        nkiCompilerPopRecursion(cs);
         return nkfalse;
     }
 
diff --git a/src/nkexpr.c b/src/nkexpr.c
index 9c605a1..95acae6 100644
--- a/src/nkexpr.c
+++ b/src/nkexpr.c
@@ -869,6 +869,7 @@ nkbool nkiCompilerEmitExpression(struct NKCompilerState *cs, struct NKExpression
     }
 
     if(!node) {
+        nkiCompilerPopRecursion(cs);
         return nkfalse;
     }
 
@@ -1012,6 +1013,7 @@ nkbool nkiCompilerEmitExpression(struct NKCompilerState *cs, struct NKExpression
             } else {
 
                 nkiCompilerAddError(cs, "Corrupted AST in FSE creation.");
+                nkiCompilerPopRecursion(cs);
                 return nkfalse;
             }
 
-- 
2.43.0


From d0f66c4c41cf86929bec2e560629c144d98121fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:11 +0000
Subject: [PATCH 07/55] fix: long expressions overflowed the native stack in
 the compiler

---
 src/nkexpr.c | 51 ++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 36 insertions(+), 15 deletions(-)

diff --git a/src/nkexpr.c b/src/nkexpr.c
index 95acae6..403b7c8 100644
--- a/src/nkexpr.c
+++ b/src/nkexpr.c
@@ -43,26 +43,37 @@
 
 #include "nkcommon.h"
 
-// TODO: Make a non-recursive version of this.
 void nkiCompilerDeleteExpressionNode(struct NKVM *vm, struct NKExpressionAstNode *node)
 {
-    if(!node) {
-        return;
-    }
+    // Long expressions make deep trees, so this can't be recursive.
+    // The nodes that are still to be deleted are chained together
+    // with their stackNext pointers instead.
+    struct NKExpressionAstNode *pending = node;
 
-    if(node->ownedToken) {
-        nkiCompilerDeleteToken(vm, node->opOrValue);
-        node->opOrValue = NULL;
+    if(pending) {
+        pending->stackNext = NULL;
     }
 
-    if(node->children[0]) {
-        nkiCompilerDeleteExpressionNode(vm, node->children[0]);
-    }
-    if(node->children[1]) {
-        nkiCompilerDeleteExpressionNode(vm, node->children[1]);
-    }
+    while(pending) {
+
+        nkuint32_t i;
+
+        node = pending;
+        pending = node->stackNext;
+
+        for(i = 0; i < 2; i++) {
+            if(node->children[i]) {
+                node->children[i]->stackNext = pending;
+                pending = node->children[i];
+            }
+        }
 
-    nkiFree(vm, node);
+        if(node->ownedToken) {
+            nkiCompilerDeleteToken(vm, node->opOrValue);
+        }
+
+        nkiFree(vm, node);
+    }
 }
 
 nkbool nkiCompilerIsSubexpressionEndingToken(struct NKToken *token)
@@ -1079,6 +1090,10 @@ struct NKExpressionAstNode *nkiCompilerCloneExpressionTree(
         return NULL;
     }
 
+    if(!nkiCompilerPushRecursion(cs)) {
+        return NULL;
+    }
+
     newNode = (struct NKExpressionAstNode *)nkiMalloc(
         cs->vm, sizeof(struct NKExpressionAstNode));
     nkiMemset(newNode, 0, sizeof(*newNode));
@@ -1100,6 +1115,7 @@ struct NKExpressionAstNode *nkiCompilerCloneExpressionTree(
     newNode->children[0] = nkiCompilerCloneExpressionTree(cs, node->children[0]);
     newNode->children[1] = nkiCompilerCloneExpressionTree(cs, node->children[1]);
 
+    nkiCompilerPopRecursion(cs);
     return newNode;
 }
 
@@ -1296,7 +1312,12 @@ struct NKExpressionAstNode *nkiCompilerCompileExpressionWithoutEmit(
     if(node) {
         nkiCompilerExpressionExpandIncrementsAndDecrements(
             cs, node, returnValueCanBeDiscarded);
-        nkiCompilerOptimizeConstants(cs->vm, &node);
+
+        // Don't go on with something that's nested too deeply (or
+        // broken in some other way).
+        if(!nkiGetErrorCount(cs->vm)) {
+            nkiCompilerOptimizeConstants(cs->vm, &node);
+        }
     }
 
     if(nkiGetErrorCount(cs->vm)) {
-- 
2.43.0


From 98b9b71347253158d8fe1830222912171e107260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:11 +0000
Subject: [PATCH 08/55] fix: calling the parenthesised result of a built-in
 like len() failed an assertion

---
 src/nkexpr.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nkexpr.c b/src/nkexpr.c
index 403b7c8..2f6f437 100644
--- a/src/nkexpr.c
+++ b/src/nkexpr.c
@@ -606,6 +606,7 @@ struct NKExpressionAstNode *nkiCompilerParseExpression(struct NKCompilerState *c
 
         if(firstPostfixOp) {
             if(valueNode->opOrValue->type == NK_TOKENTYPE_FUNCTIONSTYLEEXPRESSION &&
+                !valueNode->isRootFunctionCallNode &&
                 firstPostfixOp->opOrValue->type == NK_TOKENTYPE_PAREN_OPEN)
             {
                 assert(!valueNode->children[0]);
-- 
2.43.0


From ada5187b7b2f7a08ae6449cba58a8ef70e73493b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:06 +0000
Subject: [PATCH 09/55] fix: an operator or keyword in place of a value was
 compiled into code that corrupted the stack

---
 src/nkexpr.c | 24 ++++++++++++++++++++++++
 src/nkexpr.h |  4 ++++
 2 files changed, 28 insertions(+)

diff --git a/src/nkexpr.c b/src/nkexpr.c
index 2f6f437..c3a3c63 100644
--- a/src/nkexpr.c
+++ b/src/nkexpr.c
@@ -90,6 +90,18 @@ nkbool nkiCompilerIsExpressionEndingToken(struct NKToken *token)
         token->type == NK_TOKENTYPE_SEMICOLON;
 }
 
+nkbool nkiCompilerIsValueToken(struct NKToken *token)
+{
+    return token && (
+        token->type == NK_TOKENTYPE_INTEGER ||
+        token->type == NK_TOKENTYPE_FLOAT ||
+        token->type == NK_TOKENTYPE_STRING ||
+        token->type == NK_TOKENTYPE_IDENTIFIER ||
+        token->type == NK_TOKENTYPE_NEWOBJECT ||
+        token->type == NK_TOKENTYPE_NIL ||
+        token->type == NK_TOKENTYPE_FUNCTIONSTYLEEXPRESSION);
+}
+
 nkbool nkiCompilerIsPrefixOperator(struct NKToken *token)
 {
     return token && (
@@ -383,6 +395,18 @@ struct NKExpressionAstNode *nkiCompilerParseExpression(struct NKCompilerState *c
 
                     valueNode->ownedToken = nktrue;
 
+                } else if(!nkiCompilerIsValueToken(*currentToken)) {
+
+                    // Some operator or keyword that isn't a value.
+                    struct NKDynString *str =
+                        nkiDynStrCreate(cs->vm, "Expected a value instead of: ");
+                    nkiDynStrAppend(str, nkiCompilerCurrentTokenString(cs));
+                    nkiCompilerAddError(cs, str->data);
+                    nkiDynStrDelete(str);
+                    NK_CLEANUP_INLOOP();
+                    nkiCompilerPopRecursion(cs);
+                    return NULL;
+
                 } else {
 
                     // Function-style expression names get routed
diff --git a/src/nkexpr.h b/src/nkexpr.h
index 93cfceb..efa1ea0 100644
--- a/src/nkexpr.h
+++ b/src/nkexpr.h
@@ -53,6 +53,10 @@ struct NKCompilerState;
 // ----------------------------------------------------------------------
 // Infix Expression Parsing Utilities.
 
+/// Returns true if the token represents a value by itself (literals,
+/// identifiers, etc).
+nkbool nkiCompilerIsValueToken(struct NKToken *token);
+
 /// Returns true if the token represents a valid prefix operator
 /// ("++", "--", "-", etc).
 nkbool nkiCompilerIsPrefixOperator(struct NKToken *token);
-- 
2.43.0


From 9c1f3c9fa2fc8c001c89b81bfdd8b06928c7d5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:06 +0000
Subject: [PATCH 10/55] fix: a parenthesised expression could be closed with
 ']' or ','

---
 src/nkexpr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nkexpr.c b/src/nkexpr.c
index c3a3c63..f4a9256 100644
--- a/src/nkexpr.c
+++ b/src/nkexpr.c
@@ -349,7 +349,7 @@ struct NKExpressionAstNode *nkiCompilerParseExpression(struct NKCompilerState *c
             }
 
             // Make sure we ended on a closing parenthesis.
-            if(!(*currentToken) || !nkiCompilerIsSubexpressionEndingToken(*currentToken)) {
+            if(nkiCompilerCurrentTokenType(cs) != NK_TOKENTYPE_PAREN_CLOSE) {
                 nkiCompilerAddError(cs, "Bad expression end.");
                 NK_CLEANUP_INLOOP();
                 nkiCompilerPopRecursion(cs);
-- 
2.43.0


From 4d1fe49f8d068229e6bde6d7d66a3ab74aeaaf16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:43 +0000
Subject: [PATCH 11/55] fix: an unterminated string in a #line or #file
 directive read past the end of the script

---
 src/nktoken.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/nktoken.c b/src/nktoken.c
index 9590642..02e7c9c 100644
--- a/src/nktoken.c
+++ b/src/nktoken.c
@@ -322,7 +322,19 @@ nkbool nkiCompilerGetPreprocessorTokens(
             // Attempt to parse a quoted string.
             while(1) {
 
-                if(str[k] == '\\') {
+                if(!str[k] || str[k] == '\n') {
+
+                    // Ran into the end of the line (or of the whole
+                    // script) without finding the end of the string.
+                    nkiAddErrorEx(
+                        vm, lineNumber, fileIndex,
+                        "Unterminated string in preprocessor directive.");
+
+                    nkiCompilerFreeStringList(vm, tokens, tokenCount);
+
+                    return nkfalse;
+
+                } else if(str[k] == '\\') {
 
                     skipNext = !skipNext;
 
@@ -337,6 +349,8 @@ nkbool nkiCompilerGetPreprocessorTokens(
 
                     }
 
+                    skipNext = nkfalse;
+
                 } else {
 
                     skipNext = nkfalse;
-- 
2.43.0


From de4cb4e3541eb8e8cfef0a3e4b488f29959d75a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:56 +0000
Subject: [PATCH 12/55] fix: lines after a directive were numbered wrongly,
 except after #line with a plain newline

---
 src/nktoken.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/nktoken.c b/src/nktoken.c
index 02e7c9c..b7e212f 100644
--- a/src/nktoken.c
+++ b/src/nktoken.c
@@ -450,7 +450,7 @@ nkbool nkiCompilerTokenize(
         // Skip whitespace.
         while(i < len && nkiCompilerIsWhitespace(str[i])) {
             if(str[i] == '\n') {
-                lineNumber++;
+                lineNumber = (nkint32_t)((nkuint32_t)lineNumber + 1);
                 actualLineNumber++;
             }
             i++;
@@ -498,7 +498,10 @@ nkbool nkiCompilerTokenize(
                         return nkfalse;
                     }
 
-                    lineNumber = atol(tokenStringList[1]);
+                    // This is the number of the next line, and the end
+                    // of this one is going to be counted too.
+                    lineNumber = (nkint32_t)(
+                        (nkuint32_t)atol(tokenStringList[1]) - 1);
 
                     if(tokenCount > 2) {
                         fileIndex = nkiVmAddSourceFile(vm, tokenStringList[2]);
@@ -534,6 +537,10 @@ nkbool nkiCompilerTokenize(
             // Clean up.
             nkiCompilerFreeStringList(vm, tokenStringList, tokenCount);
 
+            // Leave the end of the line for the whitespace handling,
+            // so it gets counted like any other.
+            continue;
+
         } else if(str[i] == '(') {
 
             nkiCompilerAddToken(vm, NK_TOKENTYPE_PAREN_OPEN, "(", NK_TOKEN_STATE_PARAMETERS);
-- 
2.43.0


From 4a2a8a11fdb93df2176e12fb6cbaeb877bd8943f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:21 +0000
Subject: [PATCH 13/55] fix: errors in the first line of a script had no
 position, or the end of the previous script's

---
 src/nkcompil.c | 64 +++++++++++++++++++++++++++++++++-----------------
 1 file changed, 42 insertions(+), 22 deletions(-)

diff --git a/src/nkcompil.c b/src/nkcompil.c
index 17eba91..6a25ce6 100644
--- a/src/nkcompil.c
+++ b/src/nkcompil.c
@@ -920,6 +920,34 @@ nkbool nkiCompilerCompileFunctionDefinition(
     return ret;
 }
 
+// Everything that's emitted from here on belongs to the given
+// position.
+static void nkiCompilerAddPositionMarker(
+    struct NKCompilerState *cs,
+    nkuint32_t lineNumber,
+    nkuint32_t fileIndex,
+    nkuint32_t actualLineNumber)
+{
+    struct NKVMFilePositionMarker newMarker;
+
+    cs->currentLineNumber = lineNumber;
+    cs->currentFileIndex = fileIndex;
+    cs->currentActualLineNumber = actualLineNumber;
+
+    newMarker.fileIndex = fileIndex;
+    newMarker.lineNumber = lineNumber;
+    newMarker.instructionIndex = cs->instructionWriteIndex;
+    newMarker.actualLineNumber = actualLineNumber;
+
+    cs->vm->positionMarkerList =
+        (struct NKVMFilePositionMarker*)nkiReallocArray(
+            cs->vm, cs->vm->positionMarkerList,
+            sizeof(struct NKVMFilePositionMarker),
+            cs->vm->positionMarkerCount + 1);
+
+    cs->vm->positionMarkerList[cs->vm->positionMarkerCount++] = newMarker;
+}
+
 struct NKToken *nkiCompilerNextToken(struct NKCompilerState *cs)
 {
     if(cs->currentToken) {
@@ -929,24 +957,11 @@ struct NKToken *nkiCompilerNextToken(struct NKCompilerState *cs)
             if((nkint32_t)cs->currentLineNumber != cs->currentToken->lineNumber ||
                 cs->currentFileIndex != cs->currentToken->fileIndex)
             {
-                struct NKVMFilePositionMarker newMarker;
-
-                cs->currentLineNumber = cs->currentToken->lineNumber;
-                cs->currentFileIndex = cs->currentToken->fileIndex;
-                cs->currentActualLineNumber = cs->currentToken->actualLineNumber;
-
-                newMarker.fileIndex = cs->currentToken->fileIndex;
-                newMarker.lineNumber = cs->currentToken->lineNumber;
-                newMarker.instructionIndex = cs->instructionWriteIndex;
-                newMarker.actualLineNumber = cs->currentToken->actualLineNumber;
-
-                cs->vm->positionMarkerList =
-                    (struct NKVMFilePositionMarker*)nkiReallocArray(
-                        cs->vm, cs->vm->positionMarkerList,
-                        sizeof(struct NKVMFilePositionMarker),
-                        cs->vm->positionMarkerCount + 1);
-
-                cs->vm->positionMarkerList[cs->vm->positionMarkerCount++] = newMarker;
+                nkiCompilerAddPositionMarker(
+                    cs,
+                    cs->currentToken->lineNumber,
+                    cs->currentToken->fileIndex,
+                    cs->currentToken->actualLineNumber);
             }
         }
     }
@@ -1216,10 +1231,15 @@ nkbool nkiCompilerCompileScript(
     // Compile.
 
     cs->currentToken = tokenList.first;
-    cs->currentLineNumber =
-        cs->currentToken ? cs->currentToken->lineNumber : 0;
-    cs->currentFileIndex =
-        cs->currentToken ? cs->currentToken->fileIndex : NK_INVALID_VALUE;
+    cs->currentLineNumber = 0;
+    cs->currentFileIndex = NK_INVALID_VALUE;
+    if(cs->currentToken) {
+        nkiCompilerAddPositionMarker(
+            cs,
+            cs->currentToken->lineNumber,
+            cs->currentToken->fileIndex,
+            cs->currentToken->actualLineNumber);
+    }
 
     success = nkiCompilerCompileBlock(cs, nktrue);
 
-- 
2.43.0


From 5d7c633379df0772d055318be32d5cdd1ac276c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:55 +0000
Subject: [PATCH 14/55] fix: errors in a for loop's increment expression named
 the wrong line

---
 src/nkcompil.c | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/nkcompil.c b/src/nkcompil.c
index 6a25ce6..7eaeda4 100644
--- a/src/nkcompil.c
+++ b/src/nkcompil.c
@@ -1523,6 +1523,8 @@ nkbool nkiCompilerCompileForStatement(struct NKCompilerState *cs)
     nkuint32_t skipAddressWritePtr = 0;
     nkuint32_t loopStartAddress = 0;
     struct NKExpressionAstNode *incrementExpression = NULL;
+    struct NKToken *incrementToken = NULL;
+    struct NKToken *savedToken = NULL;
 
     if(!nkiCompilerPushRecursion(cs)) {
         return nkfalse;
@@ -1578,6 +1580,7 @@ nkbool nkiCompilerCompileForStatement(struct NKCompilerState *cs)
     // Parse the increment expression, but don't emit yet (we'll do
     // this at the end, before the jump back).
     incrementExpression = nkiCompilerCompileExpressionWithoutEmit(cs, nktrue);
+    incrementToken = cs->currentToken;
 
     // Skip ")"
     if(!incrementExpression || !nkiCompilerExpectAndSkipToken(cs, NK_TOKENTYPE_PAREN_CLOSE)) {
@@ -1597,6 +1600,16 @@ nkbool nkiCompilerCompileForStatement(struct NKCompilerState *cs)
     }
     nkiCompilerPopContext(cs);
 
+    // Go back to where the increment expression came from, so that
+    // errors about it (now or at run time) have the right position.
+    savedToken = cs->currentToken;
+    cs->currentToken = incrementToken;
+    nkiCompilerAddPositionMarker(
+        cs,
+        incrementToken->lineNumber,
+        incrementToken->fileIndex,
+        incrementToken->actualLineNumber);
+
     // Emit the increment expression.
     if(!nkiCompilerEmitExpression(cs, incrementExpression)) {
         nkiCompilerDeleteExpressionNode(cs->vm, incrementExpression);
@@ -1606,6 +1619,16 @@ nkbool nkiCompilerCompileForStatement(struct NKCompilerState *cs)
     }
     nkiCompilerAddInstructionSimple(cs, NK_OP_POP, nktrue);
 
+    // Continue with whatever comes after the loop.
+    cs->currentToken = savedToken;
+    if(savedToken) {
+        nkiCompilerAddPositionMarker(
+            cs,
+            savedToken->lineNumber,
+            savedToken->fileIndex,
+            savedToken->actualLineNumber);
+    }
+
     // Emit jump back to start.
     nkiCompilerEmitJump(cs, loopStartAddress);
 
-- 
2.43.0


From b1a59fa1ee57bb312e78c818891b2357b8b02281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:58 +0000
Subject: [PATCH 15/55] fix: the allocator's user data was dropped after VM
 creation

---
 src/nkx.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nkx.c b/src/nkx.c
index d50e0e1..3c9dd4c 100644
--- a/src/nkx.c
+++ b/src/nkx.c
@@ -78,6 +78,8 @@ struct NKVM *nkxVmCreateEx(
     nkiMemset(vm, 0, sizeof(*vm));
     vm->mallocReplacement = params->mallocReplacement;
     vm->freeReplacement = params->freeReplacement;
+    vm->mallocAndFreeReplacementUserData =
+        params->mallocAndFreeReplacementUserData;
 
     NK_SET_FAILURE_RECOVERY(vm);
 
-- 
2.43.0


From d59af0869e93fdf40723de3313f52fedba10f99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:36 +0000
Subject: [PATCH 16/55] fix: loading an image forgot the functions made for
 other native functions

---
 src/nksave.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/nksave.c b/src/nksave.c
index 4fa3d9c..2db1218 100644
--- a/src/nksave.c
+++ b/src/nksave.c
@@ -797,6 +797,14 @@ nkbool nkiSerializeFunctionTable_inner(
 {
     nkuint32_t i;
 
+    // Forget the internal functions made for external functions before
+    // loading, in case we don't actually find something.
+    if(!writeMode) {
+        for(i = 0; i < vm->externalFunctionCount; i++) {
+            vm->externalFunctionTable[i].internalFunctionId.id = NK_INVALID_VALUE;
+        }
+    }
+
     for(i = 0; i < tmpExternalFunctionCount; i++) {
 
         struct NKVMExternalFunction tmpExternalFunc = {0};
@@ -819,11 +827,6 @@ nkbool nkiSerializeFunctionTable_inner(
 
             for(n = 0; n < vm->externalFunctionCount; n++) {
 
-                // Clear out the internal function value,
-                // in case we don't actually find
-                // something.
-                vm->externalFunctionTable[n].internalFunctionId.id = NK_INVALID_VALUE;
-
                 if(!nkiStrcmp(tmpExternalFunc.name, vm->externalFunctionTable[n].name)) {
                     functionIdMapping[i].id = n;
                     vm->externalFunctionTable[n].internalFunctionId =
-- 
2.43.0


From 3e65a14080103feb7f1b39e804fda884bc381e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:36 +0000
Subject: [PATCH 17/55] fix: saving changed the collection interval, loading
 accepted a collection countdown that disabled the instruction limit

---
 src/nksave.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/nksave.c b/src/nksave.c
index 2db1218..f51f8a0 100644
--- a/src/nksave.c
+++ b/src/nksave.c
@@ -776,11 +776,25 @@ nkbool nkiSerializeGcState(
 
     // gcInterval needs a hard limit here because the instruction
     // count limit is only enforced on garbage collection intervals.
-    if(vm->gcInfo.gcInterval > 65536) {
+    if(!writeMode && vm->gcInfo.gcInterval > 65536) {
         vm->gcInfo.gcInterval = 65536;
     }
 
     NKI_SERIALIZE_BASIC(nkuint32_t, vm->gcInfo.gcCountdown);
+
+    // Same goes for the number of instructions until the next check,
+    // and zero would wrap around.
+    if(!writeMode) {
+        if(!vm->gcInfo.gcInterval) {
+            vm->gcInfo.gcInterval = 1;
+        }
+        if(!vm->gcInfo.gcCountdown ||
+            vm->gcInfo.gcCountdown > vm->gcInfo.gcInterval)
+        {
+            vm->gcInfo.gcCountdown = vm->gcInfo.gcInterval;
+        }
+    }
+
     NKI_SERIALIZE_BASIC(nkuint32_t, vm->gcInfo.gcNewObjectInterval);
     NKI_SERIALIZE_BASIC(nkuint32_t, vm->gcInfo.gcNewObjectCountdown);
 
-- 
2.43.0


From b835468128670150b1f0f9d945eebf66757c002e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:11 +0000
Subject: [PATCH 18/55] fix: loading an image reversed the entries in each hash
 bucket of an object

---
 src/nksave.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/nksave.c b/src/nksave.c
index f51f8a0..0fe52d2 100644
--- a/src/nksave.c
+++ b/src/nksave.c
@@ -271,6 +271,19 @@ nkbool nkiSerializeObject(
 
         }
 
+        // New entries go to the front of their bucket, so the order
+        // came out backwards.
+        for(n = 0; n < nkiVMObjectHashBucketCount; n++) {
+            struct NKVMObjectElement *reversed = NULL;
+            while(object->hashBuckets[n]) {
+                struct NKVMObjectElement *el = object->hashBuckets[n];
+                object->hashBuckets[n] = el->next;
+                el->next = reversed;
+                reversed = el;
+            }
+            object->hashBuckets[n] = reversed;
+        }
+
     }
 
     return nktrue;
-- 
2.43.0


From 149e7664a6241d2676b35d505e13f7c80f43c1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:11 +0000
Subject: [PATCH 19/55] fix: a field refused by the field limit was left in the
 object without being counted

---
 src/nkobjs.c | 12 +++++-------
 src/nksave.c |  7 +++++--
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/nkobjs.c b/src/nkobjs.c
index 8384f1a..d49dd9a 100644
--- a/src/nkobjs.c
+++ b/src/nkobjs.c
@@ -249,6 +249,11 @@ struct NKValue *nkiVmObjectFindOrAddEntry(
             return NULL;
         }
 
+        if(ob->size == NK_UINT_MAX || ob->size >= vm->limits.maxFieldsPerObject) {
+            nkiAddError(vm, "Reached object field count limit.");
+            return NULL;
+        }
+
         el = (struct NKVMObjectElement *)nkiMalloc(
             vm, sizeof(struct NKVMObjectElement));
         nkiMemset(el, 0, sizeof(struct NKVMObjectElement));
@@ -257,13 +262,6 @@ struct NKValue *nkiVmObjectFindOrAddEntry(
         *obList = el;
 
         ob->size++;
-        if(!ob->size || ob->size > vm->limits.maxFieldsPerObject) {
-            ob->size--;
-
-            nkiAddError(vm, "Reached object field count limit.");
-
-            return NULL;
-        }
     }
 
     return &el->value;
diff --git a/src/nksave.c b/src/nksave.c
index 0fe52d2..09706dd 100644
--- a/src/nksave.c
+++ b/src/nksave.c
@@ -265,10 +265,13 @@ nkbool nkiSerializeObject(
 
             value = nkiVmObjectFindOrAddEntry(vm, object, &key, nkfalse);
 
-            if(value) {
-                NKI_SERIALIZE_BASIC(struct NKValue, *value);
+            // Over the field count limit.
+            if(!value) {
+                return nkfalse;
             }
 
+            NKI_SERIALIZE_BASIC(struct NKValue, *value);
+
         }
 
         // New entries go to the front of their bucket, so the order
-- 
2.43.0


From 53cfdad048944389d60a9bbb82ec58072dcab997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:05 +0000
Subject: [PATCH 20/55] fix: a write failure inside an object's serialization
 callback was not noticed

---
 src/nkcorout.c |  2 +-
 src/nksave.c   |  5 +++++
 src/nkvm.h     |  4 ++++
 src/nkx.c      | 19 +++++++++++++++----
 4 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/nkcorout.c b/src/nkcorout.c
index 4377e5b..4dad365 100644
--- a/src/nkcorout.c
+++ b/src/nkcorout.c
@@ -124,7 +124,7 @@ void nkiCoroutineLibrary_coroutineSerializeData(
                 vm->serializationState.userdata,
                 vm->serializationState.writeMode))
         {
-            nkiAddError(vm, "Coroutine serialization failed.");
+            vm->serializationState.failed = nktrue;
         }
     } else {
         nkiAddError(vm, "Coroutine serialization failed.");
diff --git a/src/nksave.c b/src/nksave.c
index 09706dd..dcc4682 100644
--- a/src/nksave.c
+++ b/src/nksave.c
@@ -210,6 +210,9 @@ nkbool nkiSerializeErrorState(
         NKI_SERIALIZE_PUSHSERIALIZERSTATE();    \
         x;                                      \
         NKI_SERIALIZE_POPSERIALIZERSTATE();     \
+        if(vm->serializationState.failed) {     \
+            return nkfalse;                     \
+        }                                       \
     } while(0)
 
 nkbool nkiSerializeObject(
@@ -1485,6 +1488,8 @@ nkbool nkiSerializeExecutionContext(
 
 nkbool nkiVmSerialize(struct NKVM *vm, NKVMSerializationWriter writer, void *userdata, nkbool writeMode)
 {
+    vm->serializationState.failed = nkfalse;
+
     // Serialize format marker.
     {
         const char *formatMarker = "\0NKVM";
diff --git a/src/nkvm.h b/src/nkvm.h
index efaad10..17553fe 100644
--- a/src/nkvm.h
+++ b/src/nkvm.h
@@ -256,6 +256,10 @@ struct NKVM
         NKVMSerializationWriter writer;
         void *userdata;
         nkbool writeMode;
+
+        // Set when the writer fails inside of a callback that has no
+        // way to pass that on.
+        nkbool failed;
     } serializationState;
 
     nkuint32_t instructionsLeftBeforeTimeout;
diff --git a/src/nkx.c b/src/nkx.c
index 3c9dd4c..d6f4b47 100644
--- a/src/nkx.c
+++ b/src/nkx.c
@@ -981,10 +981,21 @@ nkbool nkxSerializeData(struct NKVM *vm, void *data, nkuint32_t size)
         return nkfalse;
     }
 
-    return vm->serializationState.writer(
-        data, size,
-        vm->serializationState.userdata,
-        vm->serializationState.writeMode);
+    // The writer must not be called again after it failed.
+    if(vm->serializationState.failed) {
+        return nkfalse;
+    }
+
+    if(!vm->serializationState.writer(
+            data, size,
+            vm->serializationState.userdata,
+            vm->serializationState.writeMode))
+    {
+        vm->serializationState.failed = nktrue;
+        return nkfalse;
+    }
+
+    return nktrue;
 }
 
 nkbool nkxInitSubsystem(
-- 
2.43.0


From 99e42c3f41a7cc1534c5ba75497cfcc14114cacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:17 +0000
Subject: [PATCH 21/55] fix: loading stored sizes from the image before
 checking them or having the memory; a VM without functions could not be
 loaded

---
 src/nksave.c | 88 ++++++++++++++++++++++++----------------------------
 src/nkvm.c   |  2 ++
 2 files changed, 42 insertions(+), 48 deletions(-)

diff --git a/src/nksave.c b/src/nksave.c
index dcc4682..56e1190 100644
--- a/src/nksave.c
+++ b/src/nksave.c
@@ -449,20 +449,20 @@ nkbool nkiSerializeStringTable(
     // capacity, if we're in READ mode.
     if(!writeMode) {
         nkiVmStringTableDestroy(vm);
-        vm->stringTable.capacity = capacity;
 
         // Thanks AFL! String table size can cause a 32-bit integer
         // overflow after being multiplied by the size of the string
         // pointer. (FIXME: We might not need this after the addition
         // of nkiMallocArray.)
-        if(~(nkuint32_t)0 / sizeof(struct NKVMString*) <= vm->stringTable.capacity) {
+        if(~(nkuint32_t)0 / sizeof(struct NKVMString*) <= capacity) {
             nkiAddError(vm, "String table too large.");
             return nkfalse;
         }
 
         vm->stringTable.stringTable =
             (struct NKVMString **)nkiMallocArray(
-                vm, sizeof(struct NKVMString*), vm->stringTable.capacity);
+                vm, sizeof(struct NKVMString*), capacity);
+        vm->stringTable.capacity = capacity;
 
         // Note: Memset takes a size_t here, which on 64-bit bit can
         // take higher values than our nkuint32_t type passed into
@@ -616,6 +616,7 @@ nkbool nkiSerializeInstructions(struct NKVM *vm, NKVMSerializationWriter writer,
 {
     // Find the actual end of the instruction buffer.
     nkuint32_t instructionLimitSearch = vm->instructionAddressMask;
+    nkuint32_t instructionAddressMask = vm->instructionAddressMask;
     if(writeMode) {
         while(instructionLimitSearch && vm->instructions[instructionLimitSearch].opcode == NK_OP_NOP) {
             instructionLimitSearch--;
@@ -630,38 +631,42 @@ nkbool nkiSerializeInstructions(struct NKVM *vm, NKVMSerializationWriter writer,
     // something like a literal value instead of a real opcode, and if
     // we cut off the address mask before it, that would read the
     // wrong value.
-    NKI_SERIALIZE_BASIC(nkuint32_t, vm->instructionAddressMask);
+    NKI_SERIALIZE_BASIC(nkuint32_t, instructionAddressMask);
 
     // Thanks AFL! Instruction address mask of 2^32-1 means that the
     // actual allocation is 2^32, which overflows to zero, and we're
     // left in a situation where we think we have a giant instruction
     // buffer when we really have a NULL pointer.
-    if(vm->instructionAddressMask == ~(nkuint32_t)0) {
+    if(instructionAddressMask == ~(nkuint32_t)0) {
         nkiAddError(vm, "Instruction address mask is too large.");
         return nkfalse;
     }
 
-    if(!nkiIsPow2(vm->instructionAddressMask + 1)) {
+    if(!nkiIsPow2(instructionAddressMask + 1)) {
         nkiAddError(vm, "Instruction address mask is not a power of two minus one.");
         return nkfalse;
     }
 
-    if(instructionLimitSearch > vm->instructionAddressMask) {
+    if(instructionLimitSearch > instructionAddressMask) {
         nkiAddError(vm, "Too many instructions for given instruction address mask.");
         return nkfalse;
     }
 
     // Recreate the entire instruction space if we're reading.
     if(!writeMode) {
-        nkiFree(vm, vm->instructions);
 
         // Thanks AFL!
-        vm->instructions = (struct NKInstruction *)nkiMallocArray(
-            vm,
-            sizeof(struct NKInstruction),
-            vm->instructionAddressMask + 1);
+        struct NKInstruction *newInstructions =
+            (struct NKInstruction *)nkiMallocArray(
+                vm,
+                sizeof(struct NKInstruction),
+                instructionAddressMask + 1);
 
-        nkiMemset(vm->instructions, 0, sizeof(struct NKInstruction) * (vm->instructionAddressMask + 1));
+        nkiMemset(newInstructions, 0, sizeof(struct NKInstruction) * (instructionAddressMask + 1));
+
+        nkiFree(vm, vm->instructions);
+        vm->instructions = newInstructions;
+        vm->instructionAddressMask = instructionAddressMask;
     }
 
     // Load/save the actual instructions themselves.
@@ -692,15 +697,15 @@ nkbool nkiSerializeStatics(struct NKVM *vm, NKVMSerializationWriter writer, void
         return nkfalse;
     }
 
-    vm->staticAddressMask = staticAddressMask;
-
     // Make new static space for read mode.
     if(!writeMode) {
+        struct NKValue *newStaticSpace = (struct NKValue *)nkiMallocArray(
+            vm, sizeof(struct NKValue), staticAddressMask + 1);
+        nkiMemset(newStaticSpace, 0, sizeof(struct NKValue) * (staticAddressMask + 1));
+
         nkiFree(vm, vm->staticSpace);
-        // Set to NULL first in case nkiMallocArray throws an error.
-        vm->staticSpace = NULL;
-        vm->staticSpace = (struct NKValue *)nkiMallocArray(
-            vm, sizeof(struct NKValue), vm->staticAddressMask + 1);
+        vm->staticSpace = newStaticSpace;
+        vm->staticAddressMask = staticAddressMask;
     }
 
     // Read/write the static space.
@@ -741,37 +746,25 @@ nkbool nkiSerializeStack(
         return nkfalse;
     }
 
-    stack->indexMask = stack->capacity - 1;
+    // Thanks AFL!
+    if(stackCapacity < stackSize) {
+        nkiAddError(vm, "Stack size exceeds stack capacity.");
+        return nkfalse;
+    }
 
     // Make new stack space for read mode.
     if(!writeMode) {
-        //     nkiFree(vm, stack->values);
-        //     stack->values = NULL;
 
-        //     stack->values = nkiMallocArray(vm,
-        //         sizeof(struct NKValue), stack->capacity);
+        struct NKValue *newValues = (struct NKValue *)nkiMallocArray(
+            vm, sizeof(struct NKValue), stackCapacity);
 
-        nkiVmStackClear(vm, stack, nktrue);
-        stack->values = (struct NKValue *)nkiReallocArray(
-            vm, stack->values, sizeof(struct NKValue),
-            stackCapacity);
+        nkiMemset(newValues, 0, sizeof(struct NKValue) * stackCapacity);
 
+        nkiFree(vm, stack->values);
+        stack->values = newValues;
         stack->capacity = stackCapacity;
         stack->indexMask = stackCapacity - 1;
         stack->size = stackSize;
-
-        // Thanks AFL!
-        if(!stack->values) {
-            return nkfalse;
-        }
-
-        nkiMemset(stack->values, 0,
-            sizeof(struct NKValue) * (stack->capacity));
-    }
-
-    // Thanks AFL!
-    if(stack->capacity < stack->size) {
-        return nkfalse;
     }
 
     NKI_SERIALIZE_DATA(
@@ -885,10 +878,6 @@ nkbool nkiSerializeFunctionTable_inner(
                     vm, sizeof(struct NKVMFunction),
                     tmpFunctionCount);
 
-            if(!newTable) {
-                return nkfalse;
-            }
-
             nkiFree(vm, vm->functionTable);
             vm->functionTable = newTable;
             vm->functionCount = tmpFunctionCount;
@@ -979,6 +968,7 @@ nkbool nkiSerializeGlobalsList(
         }
         nkiFree(vm, vm->globalVariables);
         vm->globalVariables = NULL;
+        vm->globalVariableCount = 0;
     }
 
     NKI_SERIALIZE_BASIC(nkuint32_t, globalVariableCount);
@@ -994,13 +984,15 @@ nkbool nkiSerializeGlobalsList(
         // was one.
         nkiMemset(vm->globalVariables, 0,
             sizeof(vm->globalVariables[0]) * globalVariableCount);
-
-        vm->globalVariableCount = globalVariableCount;
     }
 
     // Load/save each global name and index.
-    for(i = 0; i < vm->globalVariableCount; i++) {
+    for(i = 0; i < globalVariableCount; i++) {
         NKI_SERIALIZE_STRING(vm->globalVariables[i].name);
+        if(!writeMode) {
+            // Only complete entries count.
+            vm->globalVariableCount = i + 1;
+        }
         NKI_SERIALIZE_BASIC(nkuint32_t, vm->globalVariables[i].staticPosition);
     }
 
diff --git a/src/nkvm.c b/src/nkvm.c
index 896978e..dc62473 100644
--- a/src/nkvm.c
+++ b/src/nkvm.c
@@ -612,6 +612,8 @@ void nkiVmClearSourceFileList(struct NKVM *vm)
         nkiFree(vm, vm->sourceFileList);
         vm->sourceFileList = NULL;
     }
+
+    vm->sourceFileCount = 0;
 }
 
 struct NKVMFilePositionMarker *nkiVmFindSourceMarker(
-- 
2.43.0


From 5ec855bee3c4c061ebd901effb00cbc35d609585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:18 +0000
Subject: [PATCH 22/55] fix: an image could refer to a coroutine without a
 context or give a native function the wrong function id

---
 src/nksave.c | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/nksave.c b/src/nksave.c
index 56e1190..f9966f9 100644
--- a/src/nksave.c
+++ b/src/nksave.c
@@ -914,6 +914,21 @@ nkbool nkiSerializeFunctionTable_inner(
         }
     }
 
+    // The internal functions that the external functions refer to must
+    // refer back to them.
+    if(!writeMode) {
+        for(i = 0; i < vm->externalFunctionCount; i++) {
+            NKVMInternalFunctionID id = vm->externalFunctionTable[i].internalFunctionId;
+            if(id.id != NK_INVALID_VALUE &&
+                (id.id >= vm->functionCount ||
+                    vm->functionTable[id.id].externalFunctionId.id != i))
+            {
+                nkiAddError(vm, "External function refers to the wrong function.");
+                return nkfalse;
+            }
+        }
+    }
+
     return nktrue;
 }
 
@@ -1385,7 +1400,9 @@ nkbool nkiSerializeActiveCoroutines(
                 object->externalDataType.id == vm->internalObjectTypes.coroutine.id)
             {
                 executionContext = (struct NKVMExecutionContext*)object->externalData;
-            } else {
+            }
+
+            if(!executionContext) {
                 // Invalid coroutine object.
                 nkiAddError(vm, "Invalid object in coroutine chain.");
                 return nkfalse;
-- 
2.43.0


From f20b5f31a9e21f9d9ac57049f2ab3962c3fba598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:18 +0000
Subject: [PATCH 23/55] fix: objects carrying the mark of a future collection
 pass lost what they refer to; a failed load could leave a VM that runs

---
 src/nkgc.c   | 18 ++++++++++++++++++
 src/nksave.c |  6 ++++++
 src/nkx.c    |  4 ++++
 3 files changed, 28 insertions(+)

diff --git a/src/nkgc.c b/src/nkgc.c
index 8ffbef8..6047cf0 100644
--- a/src/nkgc.c
+++ b/src/nkgc.c
@@ -219,6 +219,24 @@ void nkiVmGarbageCollect(struct NKVM *vm)
 {
     struct NKVMGCState gcState;
     nkiMemset(&gcState, 0, sizeof(gcState));
+
+    // When the pass number wraps around, marks left by earlier passes
+    // would be mistaken for marks made by this one.
+    if(vm->gcInfo.lastGCPass == NK_UINT_MAX) {
+        nkuint32_t i;
+        for(i = 0; i < vm->objectTable.capacity; i++) {
+            if(vm->objectTable.objectTable[i]) {
+                vm->objectTable.objectTable[i]->lastGCPass = 0;
+            }
+        }
+        for(i = 0; i < vm->stringTable.capacity; i++) {
+            if(vm->stringTable.stringTable[i]) {
+                vm->stringTable.stringTable[i]->lastGCPass = 0;
+            }
+        }
+        vm->gcInfo.lastGCPass = 0;
+    }
+
     gcState.currentGCPass = ++vm->gcInfo.lastGCPass;
     gcState.vm = vm;
 
diff --git a/src/nksave.c b/src/nksave.c
index f9966f9..b3f6b89 100644
--- a/src/nksave.c
+++ b/src/nksave.c
@@ -240,6 +240,12 @@ nkbool nkiSerializeObject(
     }
 
     NKI_SERIALIZE_BASIC(nkuint32_t, object->lastGCPass);
+    if(!writeMode && object->lastGCPass > vm->gcInfo.lastGCPass) {
+        // It would be mistaken for an already marked object later.
+        nkiAddError(vm, "Object marked by a garbage collection pass that has not happened yet.");
+        return nkfalse;
+    }
+
     NKI_SERIALIZE_BASIC(NKVMExternalDataTypeID, object->externalDataType);
 
     // Serialize all hash buckets.
diff --git a/src/nkx.c b/src/nkx.c
index d6f4b47..33350a1 100644
--- a/src/nkx.c
+++ b/src/nkx.c
@@ -626,6 +626,10 @@ nkbool nkxVmSerialize(struct NKVM *vm, NKVMSerializationWriter writer, void *use
     nkbool ret = nkfalse;
     NK_SET_FAILURE_RECOVERY(ret);
     ret = nkiVmSerialize(vm, writer, userdata, writeMode);
+    if(!ret && !writeMode && !nkiVmHasErrors(vm)) {
+        // What has been loaded so far must not run.
+        nkiAddError(vm, "Could not load the VM state.");
+    }
     NK_CLEAR_FAILURE_RECOVERY();
     return ret;
 }
-- 
2.43.0


From f3b95e1623705824df3a519a3728d0085f722a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:17 +0000
Subject: [PATCH 24/55] fix: after a load that failed, names of source files
 were missing or dangling

---
 src/nksave.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/nksave.c b/src/nksave.c
index b3f6b89..573fc0a 100644
--- a/src/nksave.c
+++ b/src/nksave.c
@@ -133,6 +133,7 @@ nkbool nkiSerializeString_load(
     // Read actual string.
     if(!writer(*outData, len, userdata, writeMode)) {
         nkiFree(vm, *outData);
+        *outData = NULL;
         return nkfalse;
     }
 
@@ -1311,12 +1312,16 @@ nkbool nkiSerializeSourceFileList(
         }
 
         vm->sourceFileList = sourceFileList;
-        vm->sourceFileCount = sourceFileCount;
     }
 
     // Fill the list or write it out.
     for(i = 0; i < sourceFileCount; i++) {
         NKI_SERIALIZE_STRING(sourceFileList[i]);
+
+        // Only count the names that were really loaded.
+        if(!writeMode) {
+            vm->sourceFileCount = i + 1;
+        }
     }
 
     return nktrue;
-- 
2.43.0


From 014b3ea020a91db4ba72375704459f3e1e6dc9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:17 +0000
Subject: [PATCH 25/55] fix: deleting a VM needed memory, and after an
 allocation failure it freed blocks behind the host allocator's back

---
 src/nkvm.c | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/nkvm.c b/src/nkvm.c
index dc62473..3d09de7 100644
--- a/src/nkvm.c
+++ b/src/nkvm.c
@@ -290,7 +290,8 @@ void nkiVmDestroy(struct NKVM *vm)
 #if NK_EXTRA_FANCY_LEAK_TRACKING_LINUX
             free(vm->allocations->stackTrace);
 #endif
-            free(vm->allocations);
+            vm->freeReplacement(
+                vm->allocations, vm->mallocAndFreeReplacementUserData);
             vm->allocations = next;
         }
 
@@ -304,21 +305,20 @@ void nkiVmDestroy(struct NKVM *vm)
 
         NK_FAILURE_RECOVERY_DECL();
 
-        NK_SET_FAILURE_RECOVERY_VOID();
-
-        // Nuke the entire static address space and stack, then force
-        // a final garbage collection pass before we start making the
-        // VM unusable, so that GC callbacks get hit for external data
-        // and that stuff can clean up in a conventional manner.
-        nkiVmStackClear(
-            vm, &vm->rootExecutionContext.stack,
-            nkfalse);
-        nkiMemset(
-            vm->staticSpace, 0,
-            (vm->staticAddressMask + 1) * sizeof(struct NKValue));
-
-        nkiVmGarbageCollect(vm);
+        NK_SET_FAILURE_RECOVERY_BASE();
+        if(setjmp(catastrophicFailureJmpBuf)) {
+            // Something in here ran out of memory. Fall back to the
+            // catastrophic failure cleanup mode.
+            NK_CLEAR_FAILURE_RECOVERY();
+            nkiVmDestroy(vm);
+            return;
+        }
 
+        // Get rid of the objects before we start making the VM
+        // unusable, so that cleanup callbacks get hit for external
+        // data and that stuff can clean up in a conventional manner.
+        // Without a garbage collection pass, because that needs
+        // memory that we might not get.
         nkiVmObjectTableCleanAllObjects(vm);
 
         nkiVmStringTableCleanAllStrings(vm);
-- 
2.43.0


From 67778d71170b464b7e71e9fe8949180f265a0118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:15 +0000
Subject: [PATCH 26/55] fix: shrinking left stale references in other execution
 contexts, object keys and native data

---
 src/nkshrink.c | 129 +++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 103 insertions(+), 26 deletions(-)

diff --git a/src/nkshrink.c b/src/nkshrink.c
index 53d6e84..742fbfc 100644
--- a/src/nkshrink.c
+++ b/src/nkshrink.c
@@ -43,6 +43,76 @@
 
 #include "nkcommon.h"
 
+// Rewrite every value of the given type that refers to a slot in a
+// stack, to refer to another slot.
+static void nkiVmMoveStackReferences(
+    struct NKVMStack *stack, enum NKValueType type,
+    nkuint32_t oldSlot, nkuint32_t newSlot)
+{
+    nkuint32_t i;
+
+    for(i = 0; i < stack->size; i++) {
+        if(stack->values[i].type == type) {
+            if(type == NK_VALUETYPE_OBJECTID && stack->values[i].objectId == oldSlot) {
+                stack->values[i].objectId = newSlot;
+            }
+            if(type == NK_VALUETYPE_STRING && stack->values[i].stringTableEntry == oldSlot) {
+                stack->values[i].stringTableEntry = newSlot;
+            }
+        }
+    }
+}
+
+// Get the execution context of a coroutine object, or NULL.
+static struct NKVMExecutionContext *nkiVmGetCoroutineContext(
+    struct NKVM *vm, struct NKVMObject *ob)
+{
+    if(ob && ob->externalDataType.id == vm->internalObjectTypes.coroutine.id) {
+        return (struct NKVMExecutionContext *)ob->externalData;
+    }
+    return NULL;
+}
+
+// Same thing, but for the stacks of every execution context.
+static void nkiVmMoveAllStackReferences(
+    struct NKVM *vm, enum NKValueType type,
+    nkuint32_t oldSlot, nkuint32_t newSlot)
+{
+    nkuint32_t i;
+
+    nkiVmMoveStackReferences(
+        &vm->rootExecutionContext.stack, type, oldSlot, newSlot);
+
+    for(i = 0; i < vm->objectTable.capacity; i++) {
+        struct NKVMExecutionContext *context =
+            nkiVmGetCoroutineContext(vm, vm->objectTable.objectTable[i]);
+        if(context) {
+            nkiVmMoveStackReferences(
+                &context->stack, type, oldSlot, newSlot);
+        }
+    }
+}
+
+// External data may hold values that only its mark callback knows
+// of, which means that we cannot rewrite them.
+static nkbool nkiVmHasValuesInExternalData(struct NKVM *vm)
+{
+    nkuint32_t i;
+
+    for(i = 0; i < vm->objectTable.capacity; i++) {
+        struct NKVMObject *ob = vm->objectTable.objectTable[i];
+        if(ob && ob->externalData &&
+            ob->externalDataType.id < vm->externalTypeCount &&
+            ob->externalDataType.id != vm->internalObjectTypes.coroutine.id &&
+            vm->externalTypes[ob->externalDataType.id].gcMarkCallback)
+        {
+            return nktrue;
+        }
+    }
+
+    return nkfalse;
+}
+
 void nkiVmMoveObject(struct NKVM *vm, nkuint32_t oldSlot, nkuint32_t newSlot)
 {
     assert(vm->objectTable.capacity > newSlot);
@@ -58,13 +128,8 @@ void nkiVmMoveObject(struct NKVM *vm, nkuint32_t oldSlot, nkuint32_t newSlot)
         nkuint32_t i;
 
         // Rewrite all stack references.
-        for(i = 0; i < vm->currentExecutionContext->stack.size; i++) {
-            if(vm->currentExecutionContext->stack.values[i].type == NK_VALUETYPE_OBJECTID) {
-                if(vm->currentExecutionContext->stack.values[i].objectId == oldSlot) {
-                    vm->currentExecutionContext->stack.values[i].objectId = newSlot;
-                }
-            }
-        }
+        nkiVmMoveAllStackReferences(
+            vm, NK_VALUETYPE_OBJECTID, oldSlot, newSlot);
 
         // Rewrite all static references.
         for(i = 0; i <= vm->staticAddressMask; i++) {
@@ -81,14 +146,28 @@ void nkiVmMoveObject(struct NKVM *vm, nkuint32_t oldSlot, nkuint32_t newSlot)
             if(ob) {
                 nkuint32_t k;
                 for(k = 0; k < nkiVMObjectHashBucketCount; k++) {
-                    struct NKVMObjectElement *el;
-                    for(el = ob->hashBuckets[k]; el; el = el->next) {
-                        if(el->key.type == NK_VALUETYPE_OBJECTID && el->key.objectId == oldSlot) {
-                            el->key.objectId = newSlot;
-                        }
+                    struct NKVMObjectElement **elPtr = &ob->hashBuckets[k];
+                    while(*elPtr) {
+                        struct NKVMObjectElement *el = *elPtr;
                         if(el->value.type == NK_VALUETYPE_OBJECTID && el->value.objectId == oldSlot) {
                             el->value.objectId = newSlot;
                         }
+                        if(el->key.type == NK_VALUETYPE_OBJECTID && el->key.objectId == oldSlot) {
+                            // The hash depends on the object ID, so
+                            // this may belong into another bucket.
+                            struct NKVMObjectElement **bucket;
+                            el->key.objectId = newSlot;
+                            *elPtr = el->next;
+                            bucket = &ob->hashBuckets[
+                                nkiValueHash(vm, &el->key) & (nkiVMObjectHashBucketCount - 1)];
+                            el->next = *bucket;
+                            *bucket = el;
+                            if(*elPtr == el) {
+                                elPtr = &el->next;
+                            }
+                        } else {
+                            elPtr = &el->next;
+                        }
                     }
                 }
             }
@@ -111,13 +190,8 @@ void nkiVmMoveString(struct NKVM *vm, nkuint32_t oldSlot, nkuint32_t newSlot)
     vm->stringTable.stringTable[oldSlot] = NULL;
 
     // Rewrite all stack references.
-    for(i = 0; i < vm->currentExecutionContext->stack.size; i++) {
-        if(vm->currentExecutionContext->stack.values[i].type == NK_VALUETYPE_STRING) {
-            if(vm->currentExecutionContext->stack.values[i].stringTableEntry == oldSlot) {
-                vm->currentExecutionContext->stack.values[i].stringTableEntry = newSlot;
-            }
-        }
-    }
+    nkiVmMoveAllStackReferences(
+        vm, NK_VALUETYPE_STRING, oldSlot, newSlot);
 
     // Rewrite all static references.
     for(i = 0; i <= vm->staticAddressMask; i++) {
@@ -180,6 +254,7 @@ void nkiVmShrink(struct NKVM *vm)
     nkuint32_t emptyHoleSearch = 0;
     nkuint32_t objectSearch = 0;
     nkuint32_t i;
+    nkbool canMove;
 
     // VMs with errors may be in an unpredictable or inconsistent
     // state. Bail out here, just in case.
@@ -187,11 +262,11 @@ void nkiVmShrink(struct NKVM *vm)
         return;
     }
 
-    // FIXME: I don't think we can actually do the following code
-    // reliably. Moving objects around in the object table will mess
-    // up references to those objects!
+    // Moving objects and strings around in their tables would mess up
+    // references to them in external data.
+    canMove = !nkiVmHasValuesInExternalData(vm);
 
-    while(emptyHoleSearch < vm->objectTable.capacity) {
+    while(canMove && emptyHoleSearch < vm->objectTable.capacity) {
         if(!vm->objectTable.objectTable[emptyHoleSearch]) {
 
             // Skip up to the empty hole so we only look at moving
@@ -230,7 +305,7 @@ void nkiVmShrink(struct NKVM *vm)
     emptyHoleSearch = 0;
     objectSearch = 0;
 
-    while(emptyHoleSearch < vm->stringTable.capacity) {
+    while(canMove && emptyHoleSearch < vm->stringTable.capacity) {
         if(!vm->stringTable.stringTable[emptyHoleSearch]) {
 
             // Skip up to the empty hole so we only look at moving
@@ -268,8 +343,10 @@ void nkiVmShrink(struct NKVM *vm)
             vm->internalObjectTypes.coroutine.id)
         {
             struct NKVMExecutionContext *context =
-                (struct NKVMExecutionContext *)ob->externalData;
-            nkiVmShrinkStack(vm, &context->stack);
+                nkiVmGetCoroutineContext(vm, ob);
+            if(context) {
+                nkiVmShrinkStack(vm, &context->stack);
+            }
         }
     }
 }
-- 
2.43.0


From 5cb813668b4c71fd4f6ac090d3bb9e769f893f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:58 +0000
Subject: [PATCH 27/55] fix: releasing a handle that was never acquired wrapped
 the handle count

---
 src/nkobjs.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nkobjs.c b/src/nkobjs.c
index d49dd9a..5cd7e9a 100644
--- a/src/nkobjs.c
+++ b/src/nkobjs.c
@@ -343,6 +343,7 @@ void nkiVmObjectReleaseHandle(struct NKVM *vm, struct NKValue *value)
     if(ob->externalHandleCount == 0) {
         nkiAddError(
             vm, "Tried to release handle for object with no external handles.");
+        return;
     }
 
     ob->externalHandleCount--;
-- 
2.43.0


From 655e4951909a9d4018e5398d65d1fd63e28bcdbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:51 +0000
Subject: [PATCH 28/55] fix: releasing a handle from a cleanup callback during
 VM deletion used objects already freed

---
 src/nkobjs.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/nkobjs.c b/src/nkobjs.c
index 5cd7e9a..c845ff3 100644
--- a/src/nkobjs.c
+++ b/src/nkobjs.c
@@ -52,6 +52,18 @@ void nkiVmObjectTableInit(struct NKVM *vm)
 void nkiVmObjectDelete(struct NKVM *vm, struct NKVMObject *ob)
 {
     nkuint32_t i;
+
+    // Cut us out of the list of objects with external handles, so
+    // that cleanup callbacks of other objects can still release
+    // handles while the VM is being deleted.
+    if(ob->previousExternalHandleListPtr) {
+        *ob->previousExternalHandleListPtr = ob->nextObjectWithExternalHandles;
+        if(ob->nextObjectWithExternalHandles) {
+            ob->nextObjectWithExternalHandles->previousExternalHandleListPtr =
+                ob->previousExternalHandleListPtr;
+        }
+    }
+
     for(i = 0; i < nkiVMObjectHashBucketCount; i++) {
         struct NKVMObjectElement *el = ob->hashBuckets[i];
         while(el) {
-- 
2.43.0


From 57e8569c45b572d4ea0af1523b63195ea69f1998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:33 +0000
Subject: [PATCH 29/55] fix: a coroutine made from a native function reran the
 program; errors while creating a coroutine named the last line

---
 src/nkopcode.c | 10 ++++++++++
 src/nkvm.c     | 10 +++++++++-
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/nkopcode.c b/src/nkopcode.c
index 3153534..b24e4c8 100644
--- a/src/nkopcode.c
+++ b/src/nkopcode.c
@@ -612,6 +612,16 @@ void nkiOpcode_call(struct NKVM *vm)
 
         nkiMemset(&data, 0, sizeof(data));
 
+        // Coroutine creation sets up the call here, to be entered by
+        // the first resume. There's nothing in a native function that
+        // could be entered that way.
+        if(vm->currentExecutionContext->instructionPointer == NK_INVALID_VALUE) {
+            nkiAddError(
+                vm,
+                "Tried to create a coroutine from a native function.");
+            return;
+        }
+
         // First check that this is a valid function. Maybe we go
         // weird data from deserialization.
         if(funcOb->externalFunctionId.id >= vm->externalFunctionCount) {
diff --git a/src/nkvm.c b/src/nkvm.c
index 3d09de7..01d2a32 100644
--- a/src/nkvm.c
+++ b/src/nkvm.c
@@ -640,8 +640,16 @@ struct NKVMFilePositionMarker *nkiVmFindSourceMarker(
 
 struct NKVMFilePositionMarker *nkiVmFindCurrentSourceMarker(struct NKVM *vm)
 {
+    struct NKVMExecutionContext *context = vm->currentExecutionContext;
+
+    // A coroutine that is still being created has no position of its
+    // own yet.
+    if(context->instructionPointer == NK_INVALID_VALUE && context->parent) {
+        context = context->parent;
+    }
+
     return nkiVmFindSourceMarker(
         vm,
-        vm->currentExecutionContext->instructionPointer &
+        context->instructionPointer &
         vm->instructionAddressMask);
 }
-- 
2.43.0


From 92d6204f3246005e37dab1c2c8e7c50ae3207fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:12 +0000
Subject: [PATCH 30/55] fix: a push onto a full stack overwrote the bottom of
 the stack; a stack without storage could not grow

---
 src/nkopcode.c |  3 +++
 src/nkstack.c  | 16 ++++++++++++----
 src/nkvm.h     |  3 +++
 3 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/nkopcode.c b/src/nkopcode.c
index b24e4c8..8d0247b 100644
--- a/src/nkopcode.c
+++ b/src/nkopcode.c
@@ -527,6 +527,9 @@ void nkiOpcode_call(struct NKVM *vm)
 
                     // Make room for the _data contents on the stack.
                     nkiVmStackPush_internal(vm);
+                    if(nkiVmHasErrors(vm)) {
+                        return;
+                    }
 
                     stackValues = stack->values;
                     stackSize = stack->size;
diff --git a/src/nkstack.c b/src/nkstack.c
index dc9fffc..671ffd4 100644
--- a/src/nkstack.c
+++ b/src/nkstack.c
@@ -61,6 +61,14 @@ void nkiVmStackDestroy(struct NKVM *vm, struct NKVMStack *stack)
     }
 }
 
+// Somewhere to write to for those who push onto a stack that cannot
+// grow, so that nothing on the stack itself gets overwritten.
+static struct NKValue *nkiVmStackOverflowValue(struct NKVM *vm)
+{
+    nkiMemset(&vm->stackOverflowValue, 0, sizeof(vm->stackOverflowValue));
+    return &vm->stackOverflowValue;
+}
+
 struct NKValue *nkiVmStackPush_internal(struct NKVM *vm)
 {
     struct NKVMStack *stack = &vm->currentExecutionContext->stack;
@@ -71,7 +79,7 @@ struct NKValue *nkiVmStackPush_internal(struct NKVM *vm)
         stack->values = (struct NKValue *)nkiReallocArray(
             vm,
             stack->values,
-            stack->capacity, sizeof(struct NKValue));
+            1, sizeof(struct NKValue));
         nkiMemset(stack->values, 0, sizeof(struct NKValue));
         stack->capacity = 1;
     }
@@ -89,7 +97,7 @@ struct NKValue *nkiVmStackPush_internal(struct NKVM *vm)
                 vm,
                 "Stack overflow.");
 
-            return &stack->values[0];
+            return nkiVmStackOverflowValue(vm);
         }
 
         // Thanks AFL! Continued attempts to keep pushing stuff to the
@@ -105,14 +113,14 @@ struct NKValue *nkiVmStackPush_internal(struct NKVM *vm)
             nkiAddError(
                 vm,
                 "Stack ran out of address space.");
-            return &stack->values[0];
+            return nkiVmStackOverflowValue(vm);
         }
 
         if(newStackCapacity > vm->limits.maxStackSize) {
             nkiAddError(
                 vm,
                 "Reached stack capacity limit.");
-            return &stack->values[0];
+            return nkiVmStackOverflowValue(vm);
         }
 
         newStackIndexMask <<= 1;
diff --git a/src/nkvm.h b/src/nkvm.h
index 17553fe..e336b72 100644
--- a/src/nkvm.h
+++ b/src/nkvm.h
@@ -190,6 +190,9 @@ struct NKVM
     struct NKVMExecutionContext rootExecutionContext;
     struct NKVMExecutionContext *currentExecutionContext;
 
+    // What a failed stack push hands out.
+    struct NKValue stackOverflowValue;
+
     // Static data.
     struct NKValue *staticSpace;
     nkuint32_t staticAddressMask;
-- 
2.43.0


From 71e37273b4ca87bd60668a301ec4926e9c2bf4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:39 +0000
Subject: [PATCH 31/55] fix: yielding out of a host call ran the wrong context
 without end; a failed host call left frames and contexts behind; code ran
 after an error

---
 src/nkfunc.c   | 51 +++++++++++++++++++++++++++++++++++++++-----------
 src/nkopcode.c |  5 +++++
 src/nkvm.c     | 17 +++++++++++++++++
 src/nkvm.h     |  5 +++++
 4 files changed, 67 insertions(+), 11 deletions(-)

diff --git a/src/nkfunc.c b/src/nkfunc.c
index 00339f6..d05197d 100644
--- a/src/nkfunc.c
+++ b/src/nkfunc.c
@@ -80,9 +80,18 @@ void nkiVmCallFunction(
         // Save whatever the real instruction pointer was so that we
         // can restore it after we're done with this artificially
         // injected function call.
-        nkuint32_t oldInstructionPtr = vm->currentExecutionContext->instructionPointer;
+        struct NKVMExecutionContext *context = vm->currentExecutionContext;
+        nkuint32_t oldInstructionPtr = context->instructionPointer;
+        nkuint32_t oldStackSize = context->stack.size;
+        struct NKVMExecutionContext *oldHostCallContext = vm->hostCallContext;
+        nkuint32_t oldHostCallInstructionPointer = vm->hostCallInstructionPointer;
         nkuint32_t i;
 
+        // After an error nothing runs anymore.
+        if(nkiVmHasErrors(vm)) {
+            return;
+        }
+
         // Push the function ID itself onto the stack.
         *nkiVmStackPush_internal(vm) = *functionValue;
 
@@ -103,13 +112,17 @@ void nkiVmCallFunction(
         // the function call is complete.
         vm->currentExecutionContext->instructionPointer = (NK_UINT_MAX - 1);
 
+        // Remember where the call came from, for error positions and
+        // so that nothing inside of the call can yield out of it.
+        vm->hostCallContext = context;
+        vm->hostCallInstructionPointer = oldInstructionPtr;
+
         // Execute the call instruction. When this returns we will
         // either be inside the function in the VM, or we will have
         // just returned from the C function the function ID is
         // associated with. Or an error.
-        nkiOpcode_call(vm);
-        if(vm->errorState.firstError) {
-            return;
+        if(!nkiVmHasErrors(vm)) {
+            nkiOpcode_call(vm);
         }
 
         // The call opcode sets us in a position right before the
@@ -127,21 +140,37 @@ void nkiVmCallFunction(
         // we return, we'll just keep executing until we hit an error,
         // or the instruction pointer is at NK_UINT_MAX
         // (NK_UINT_MAX-1, +1 for the instruction iteration).
-        while(vm->currentExecutionContext->instructionPointer != NK_UINT_MAX &&
-            !vm->errorState.firstError)
+        while((vm->currentExecutionContext != context ||
+                context->instructionPointer != NK_UINT_MAX) &&
+            !nkiVmHasErrors(vm))
         {
             nkiVmIterate(vm);
         }
 
+        // Leave any coroutines that were stopped by an error.
+        while(vm->currentExecutionContext != context) {
+            struct NKVMExecutionContext *stopped = vm->currentExecutionContext;
+            vm->currentExecutionContext = stopped->parent;
+            stopped->parent = NULL;
+            stopped->coroutineState = NK_COROUTINE_INVALID;
+        }
+
         // Save return value.
-        if(returnValue) {
-            *returnValue = *nkiVmStackPop(vm);
-        } else {
-            nkiVmStackPop(vm);
+        if(!nkiVmHasErrors(vm)) {
+            if(returnValue) {
+                *returnValue = *nkiVmStackPop(vm);
+            } else {
+                nkiVmStackPop(vm);
+            }
         }
 
         // Restore old state.
-        vm->currentExecutionContext->instructionPointer = oldInstructionPtr;
+        context->instructionPointer = oldInstructionPtr;
+        if(context->stack.size > oldStackSize) {
+            context->stack.size = oldStackSize;
+        }
+        vm->hostCallContext = oldHostCallContext;
+        vm->hostCallInstructionPointer = oldHostCallInstructionPointer;
     }
 }
 
diff --git a/src/nkopcode.c b/src/nkopcode.c
index 8d0247b..e7280df 100644
--- a/src/nkopcode.c
+++ b/src/nkopcode.c
@@ -1252,6 +1252,11 @@ void nkiOpcode_coroutineYield(struct NKVM *vm)
 
         nkiAddError(vm, "Tried to yield from the root execution context.");
 
+    } else if(vm->currentExecutionContext == vm->hostCallContext) {
+
+        // The native code that made the call is still waiting for it.
+        nkiAddError(vm, "Tried to yield out of a call from native code.");
+
     } else {
 
         // Retrieve return value from the coroutine execution context.
diff --git a/src/nkvm.c b/src/nkvm.c
index 01d2a32..8c9a3f4 100644
--- a/src/nkvm.c
+++ b/src/nkvm.c
@@ -211,6 +211,8 @@ void nkiVmInit(struct NKVM *vm)
     nkiVmInitExecutionContext(vm, &vm->rootExecutionContext);
     vm->currentExecutionContext = &vm->rootExecutionContext;
     vm->currentExecutionContext->coroutineState = NK_COROUTINE_RUNNING;
+    vm->hostCallContext = NULL;
+    vm->hostCallInstructionPointer = 0;
 
     vm->instructions =
         (struct NKInstruction *)nkiMalloc(vm, sizeof(struct NKInstruction) * 4);
@@ -425,6 +427,11 @@ void nkiVmIterate(struct NKVM *vm)
 
 nkbool nkiVmExecuteProgram(struct NKVM *vm)
 {
+    // Nothing runs after an error.
+    if(nkiVmHasErrors(vm)) {
+        return nkfalse;
+    }
+
     while(vm->instructions[
             vm->currentExecutionContext->instructionPointer &
             vm->instructionAddressMask].opcode != NK_OP_END)
@@ -648,6 +655,16 @@ struct NKVMFilePositionMarker *nkiVmFindCurrentSourceMarker(struct NKVM *vm)
         context = context->parent;
     }
 
+    // A call from native code is positioned where that code was called.
+    if(context == vm->hostCallContext &&
+        context->instructionPointer == NK_UINT_MAX - 1)
+    {
+        return nkiVmFindSourceMarker(
+            vm,
+            vm->hostCallInstructionPointer &
+            vm->instructionAddressMask);
+    }
+
     return nkiVmFindSourceMarker(
         vm,
         context->instructionPointer &
diff --git a/src/nkvm.h b/src/nkvm.h
index e336b72..8248a0c 100644
--- a/src/nkvm.h
+++ b/src/nkvm.h
@@ -190,6 +190,11 @@ struct NKVM
     struct NKVMExecutionContext rootExecutionContext;
     struct NKVMExecutionContext *currentExecutionContext;
 
+    // The context the innermost nkiVmCallFunction() was made in, and
+    // where it was at the time.
+    struct NKVMExecutionContext *hostCallContext;
+    nkuint32_t hostCallInstructionPointer;
+
     // What a failed stack push hands out.
     struct NKValue stackOverflowValue;
 
-- 
2.43.0


From 87a95d1682a631977ddabdefbd2c8611c19ec2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:20 +0000
Subject: [PATCH 32/55] fix: setting up a native function again leaked its
 argument types, and freed them twice after an allocation failure

---
 src/nkx.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/nkx.c b/src/nkx.c
index 33350a1..7637cff 100644
--- a/src/nkx.c
+++ b/src/nkx.c
@@ -444,6 +444,12 @@ static void nkiSetupExternalFunction_addArgs(
 
     if(func->argTypes) {
         nkiFree(vm, func->argTypes);
+        func->argTypes = NULL;
+    }
+
+    if(func->argExternalTypes) {
+        nkiFree(vm, func->argExternalTypes);
+        func->argExternalTypes = NULL;
     }
 
     func->argTypes = (enum NKValueType *)nkiMallocArray(
-- 
2.43.0


From 6d0f1a7709a7b21aa589a332918b880c0330f67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:00 +0000
Subject: [PATCH 33/55] fix: a type whose registration ran out of memory stayed
 registered without a name; looking types up crashed

---
 src/nkvm.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/nkvm.c b/src/nkvm.c
index 8c9a3f4..aa8bc81 100644
--- a/src/nkvm.c
+++ b/src/nkvm.c
@@ -482,13 +482,10 @@ NKVMExternalDataTypeID nkiVmRegisterExternalType(
 
     ret.id = vm->externalTypeCount;
 
-    // Note: Increment after reallocation to maintain correct state at
-    // all times, in case of alloc failure.
     vm->externalTypes = (struct NKVMExternalType *)nkiReallocArray(
         vm, vm->externalTypes,
         sizeof(*(vm->externalTypes)),
         vm->externalTypeCount + 1);
-    vm->externalTypeCount++;
 
     nkiMemset(
         &vm->externalTypes[ret.id], 0,
@@ -502,6 +499,10 @@ NKVMExternalDataTypeID nkiVmRegisterExternalType(
     vm->externalTypes[ret.id].gcMarkCallback =
         gcMarkCallback;
 
+    // Note: Increment after all allocations to maintain correct state
+    // at all times, in case of alloc failure.
+    vm->externalTypeCount++;
+
     return ret;
 }
 
-- 
2.43.0


From 89b547b22672eaaaa58cbc198c48be97cc2f57fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:07 +0000
Subject: [PATCH 34/55] fix: memory running out in a mark callback let the
 collection delete objects that had not been marked

---
 src/nkgc.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/nkgc.c b/src/nkgc.c
index 6047cf0..afbddcf 100644
--- a/src/nkgc.c
+++ b/src/nkgc.c
@@ -181,6 +181,12 @@ void nkiVmGarbageCollect_markObject(
                 val.objectId = ob->objectTableIndex;
 
                 callback(vm, &val, ob->externalData, gcState);
+
+                // If memory ran out in there, some objects may not
+                // have been marked. Don't go on to delete them.
+                if(NK_CHECK_CATASTROPHE()) {
+                    NK_CATASTROPHE();
+                }
             }
         }
     }
-- 
2.43.0


From 6931ce5dc48923f62cdd8db61912ecc56f052886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:26 +0000
Subject: [PATCH 35/55] fix: a #line directive without a line number was
 accepted and made up one

---
 src/nktoken.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/nktoken.c b/src/nktoken.c
index b7e212f..80aed1d 100644
--- a/src/nktoken.c
+++ b/src/nktoken.c
@@ -498,6 +498,15 @@ nkbool nkiCompilerTokenize(
                         return nkfalse;
                     }
 
+                    if(!nkiCompilerIsNumber(tokenStringList[1][0])) {
+                        nkiAddErrorEx(
+                            vm, lineNumber,
+                            fileIndex,
+                            "Bad line number in #line directive.");
+                        nkiCompilerFreeStringList(vm, tokenStringList, tokenCount);
+                        return nkfalse;
+                    }
+
                     // This is the number of the next line, and the end
                     // of this one is going to be counted too.
                     lineNumber = (nkint32_t)(
-- 
2.43.0


From bd06699396c01d10e002618e7984115576ea3cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:52 +0000
Subject: [PATCH 36/55] fix: a number with several decimal points was accepted
 and cut off at the second

---
 src/nktoken.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/nktoken.c b/src/nktoken.c
index 80aed1d..688405a 100644
--- a/src/nktoken.c
+++ b/src/nktoken.c
@@ -743,6 +743,12 @@ nkbool nkiCompilerTokenize(
             {
                 tmp[i - numberStart] = str[i];
                 if(str[i] == '.') {
+                    if(isFloat) {
+                        nkiAddErrorEx(
+                            vm, lineNumber, fileIndex,
+                            "Number with more than one decimal point.");
+                        return nkfalse;
+                    }
                     isFloat = nktrue;
                 }
                 i++;
-- 
2.43.0


From 06bd6d29d68a0729986f63b1888094e459bc0193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:23 +0000
Subject: [PATCH 37/55] fix: compiling took time quadratic in the number of
 adjacent string literals

---
 src/nktoken.c | 63 ++++++++++++++++++++++++++++++++-------------------
 1 file changed, 40 insertions(+), 23 deletions(-)

diff --git a/src/nktoken.c b/src/nktoken.c
index 688405a..088c323 100644
--- a/src/nktoken.c
+++ b/src/nktoken.c
@@ -175,43 +175,60 @@ void nkiCompilerConsolidateStringLiterals(struct NKVM *vm, struct NKTokenList *t
             tok->next &&
             tok->next->type == NK_TOKENTYPE_STRING)
         {
-            // Found two strings in a row.
-            struct NKToken *next = tok->next;
-
-            // Make a concatenated string.
-            nkuint32_t len1 = nkiStrlen(tok->str);
-            nkuint32_t len2 = nkiStrlen(tok->next->str);
+            // Found at least two strings in a row. Find out how long
+            // they are all together, and put that in one string.
+            struct NKToken *end = tok;
+            nkuint32_t len = 0;
             char *newStr;
 
-            // Truncate string for safety.
-            if(len2 > ~(nkuint32_t)0 - len1) {
-                len2 = ~(nkuint32_t)0 - len1;
-                nkiAddError(vm, "String too long to concatenate.");
+            while(end && end->type == NK_TOKENTYPE_STRING) {
+
+                nkuint32_t partLen = nkiStrlen(end->str);
+
+                // Stop at this one for safety.
+                if(partLen > ~(nkuint32_t)0 - 1 - len) {
+                    nkiAddError(vm, "String too long to concatenate.");
+                    break;
+                }
+
+                len += partLen;
+                end = end->next;
             }
 
-            newStr = (char *)nkiMalloc(vm, len1 + len2 + 1);
-            nkiStrcpy(newStr, tok->str);
-            nkiStrcat(newStr, tok->next->str);
+            newStr = (char *)nkiMalloc(vm, len + 1);
+            newStr[len] = 0;
+            len = nkiStrlen(tok->str);
+            nkiMemcpy(newStr, tok->str, len);
 
             // Replace this token's string with it.
             nkiFree(vm, tok->str);
             tok->str = newStr;
 
-            // Snip the next token out of the list.
-            tok->next = next->next;
-            nkiCompilerDeleteToken(vm, next);
+            while(tok->next != end) {
 
-            // Fixup "last" pointer in the TokenList.
-            if(tok->next == NULL) {
-                assert(next == tokenList->last);
-                tokenList->last = tok;
+                struct NKToken *next = tok->next;
+                nkuint32_t partLen = nkiStrlen(next->str);
+                nkiMemcpy(newStr + len, next->str, partLen);
+                len += partLen;
+
+                // Snip the next token out of the list.
+                tok->next = next->next;
+
+                // Fixup "last" pointer in the TokenList.
+                if(tok->next == NULL) {
+                    assert(next == tokenList->last);
+                    tokenList->last = tok;
+                }
+
+                nkiCompilerDeleteToken(vm, next);
             }
 
+            // Don't look at it again if this is where it got too
+            // long.
+            tok = tok->next;
+
         } else {
 
-            // Only advance to the next one if we didn't do any
-            // actions (because we may have to concatenate even more
-            // stuff onto this token).
             tok = tok->next;
 
         }
-- 
2.43.0


From c75f7955eefad5fe61a66aea685e84dc9706777a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:31 +0000
Subject: [PATCH 38/55] fix: a garbage collection interval of zero, or clearing
 the error of the instruction limit, switched the limit off

---
 src/nkvm.c | 4 ++++
 src/nkx.c  | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/src/nkvm.c b/src/nkvm.c
index aa8bc81..2b77ea7 100644
--- a/src/nkvm.c
+++ b/src/nkvm.c
@@ -408,6 +408,10 @@ void nkiVmIterate(struct NKVM *vm)
             if(vm->instructionsLeftBeforeTimeout < vm->gcInfo.gcInterval) {
                 nkiAddError(vm, "Instruction count limit reached.");
                 vm->instructionsLeftBeforeTimeout = 0;
+
+                // Zero would wrap around if the VM keeps going after
+                // the error has been cleared.
+                vm->gcInfo.gcCountdown = vm->gcInfo.gcInterval;
                 return;
             }
             vm->instructionsLeftBeforeTimeout -= vm->gcInfo.gcInterval;
diff --git a/src/nkx.c b/src/nkx.c
index 7637cff..5129f88 100644
--- a/src/nkx.c
+++ b/src/nkx.c
@@ -727,6 +727,11 @@ nkuint32_t nkxGetMaxAllocatedMemory(struct NKVM *vm)
 
 void nkxSetGarbageCollectionInterval(struct NKVM *vm, nkuint32_t gcInterval)
 {
+    // Counting down from zero would wrap around.
+    if(!gcInterval) {
+        gcInterval = 1;
+    }
+
     if(vm->gcInfo.gcCountdown > gcInterval) {
         vm->gcInfo.gcCountdown = gcInterval;
     }
-- 
2.43.0


From 7452806fce4cebe4f9496a29aa7743e0715ddd89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:31 +0000
Subject: [PATCH 39/55] fix: instructions were counted wrong against the limit
 after changing the limit or the collection interval within an interval

---
 src/nksave.c | 1 +
 src/nkvm.c   | 7 +++++--
 src/nkvm.h   | 6 ++++++
 src/nkx.c    | 4 ++++
 4 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/nksave.c b/src/nksave.c
index 573fc0a..fdf6134 100644
--- a/src/nksave.c
+++ b/src/nksave.c
@@ -812,6 +812,7 @@ nkbool nkiSerializeGcState(
         {
             vm->gcInfo.gcCountdown = vm->gcInfo.gcInterval;
         }
+        vm->gcInfo.gcCountdownLength = vm->gcInfo.gcCountdown;
     }
 
     NKI_SERIALIZE_BASIC(nkuint32_t, vm->gcInfo.gcNewObjectInterval);
diff --git a/src/nkvm.c b/src/nkvm.c
index 2b77ea7..7c6fbef 100644
--- a/src/nkvm.c
+++ b/src/nkvm.c
@@ -224,6 +224,7 @@ void nkiVmInit(struct NKVM *vm)
     vm->gcInfo.lastGCPass = 0;
     vm->gcInfo.gcInterval = 1024;
     vm->gcInfo.gcCountdown = vm->gcInfo.gcInterval;
+    vm->gcInfo.gcCountdownLength = vm->gcInfo.gcInterval;
     vm->gcInfo.gcNewObjectInterval = 256;
     vm->gcInfo.gcNewObjectCountdown = vm->gcInfo.gcNewObjectInterval;
 
@@ -405,16 +406,17 @@ void nkiVmIterate(struct NKVM *vm)
 
         // Thanks AFL!
         if(vm->instructionsLeftBeforeTimeout != NK_INVALID_VALUE) {
-            if(vm->instructionsLeftBeforeTimeout < vm->gcInfo.gcInterval) {
+            if(vm->instructionsLeftBeforeTimeout < vm->gcInfo.gcCountdownLength) {
                 nkiAddError(vm, "Instruction count limit reached.");
                 vm->instructionsLeftBeforeTimeout = 0;
 
                 // Zero would wrap around if the VM keeps going after
                 // the error has been cleared.
                 vm->gcInfo.gcCountdown = vm->gcInfo.gcInterval;
+                vm->gcInfo.gcCountdownLength = vm->gcInfo.gcInterval;
                 return;
             }
-            vm->instructionsLeftBeforeTimeout -= vm->gcInfo.gcInterval;
+            vm->instructionsLeftBeforeTimeout -= vm->gcInfo.gcCountdownLength;
         }
 
         if(!vm->gcInfo.gcNewObjectCountdown) {
@@ -422,6 +424,7 @@ void nkiVmIterate(struct NKVM *vm)
             vm->gcInfo.gcNewObjectCountdown = vm->gcInfo.gcNewObjectInterval;
         }
         vm->gcInfo.gcCountdown = vm->gcInfo.gcInterval;
+        vm->gcInfo.gcCountdownLength = vm->gcInfo.gcInterval;
     }
 
     // Do the instruction.
diff --git a/src/nkvm.h b/src/nkvm.h
index 8248a0c..de891c7 100644
--- a/src/nkvm.h
+++ b/src/nkvm.h
@@ -78,6 +78,12 @@ struct NKGarbageCollectionInfo
     nkuint32_t lastGCPass;
     nkuint32_t gcInterval; // TODO: Move to VMLimits, maybe.
     nkuint32_t gcCountdown;
+
+    // Number of instructions between the last time they were taken
+    // off the instruction limit (or the limit was set) and the end of
+    // the countdown.
+    nkuint32_t gcCountdownLength;
+
     nkuint32_t gcNewObjectInterval; // TODO: Move to VMLimits, maybe.
     nkuint32_t gcNewObjectCountdown;
 };
diff --git a/src/nkx.c b/src/nkx.c
index 5129f88..035b70f 100644
--- a/src/nkx.c
+++ b/src/nkx.c
@@ -688,6 +688,9 @@ void nkxGetErrorText(struct NKVM *vm, char *buffer)
 void nkxSetRemainingInstructionLimit(struct NKVM *vm, nkuint32_t count)
 {
     vm->instructionsLeftBeforeTimeout = count;
+
+    // Whatever has been executed before doesn't count.
+    vm->gcInfo.gcCountdownLength = vm->gcInfo.gcCountdown;
 }
 
 nkuint32_t nkxGetRemainingInstructionLimit(struct NKVM *vm)
@@ -733,6 +736,7 @@ void nkxSetGarbageCollectionInterval(struct NKVM *vm, nkuint32_t gcInterval)
     }
 
     if(vm->gcInfo.gcCountdown > gcInterval) {
+        vm->gcInfo.gcCountdownLength -= vm->gcInfo.gcCountdown - gcInterval;
         vm->gcInfo.gcCountdown = gcInterval;
     }
     vm->gcInfo.gcInterval = gcInterval;
-- 
2.43.0


From ff96b1cf5fb6624266542c975ecbe997e6fa0161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:40 +0000
Subject: [PATCH 40/55] fix: recursion through native functions that call back,
 in coroutines, overflowed the native stack

---
 src/nkfunc.c | 8 ++++++++
 src/nkvm.c   | 1 +
 src/nkvm.h   | 3 +++
 3 files changed, 12 insertions(+)

diff --git a/src/nkfunc.c b/src/nkfunc.c
index d05197d..f8d53b7 100644
--- a/src/nkfunc.c
+++ b/src/nkfunc.c
@@ -92,6 +92,13 @@ void nkiVmCallFunction(
             return;
         }
 
+        // Every level of this is on the native stack, too.
+        if(vm->hostCallDepth >= 512) {
+            nkiAddError(vm, "Reached recursion limit calling functions from native code.");
+            return;
+        }
+        vm->hostCallDepth++;
+
         // Push the function ID itself onto the stack.
         *nkiVmStackPush_internal(vm) = *functionValue;
 
@@ -171,6 +178,7 @@ void nkiVmCallFunction(
         }
         vm->hostCallContext = oldHostCallContext;
         vm->hostCallInstructionPointer = oldHostCallInstructionPointer;
+        vm->hostCallDepth--;
     }
 }
 
diff --git a/src/nkvm.c b/src/nkvm.c
index 7c6fbef..062fee1 100644
--- a/src/nkvm.c
+++ b/src/nkvm.c
@@ -213,6 +213,7 @@ void nkiVmInit(struct NKVM *vm)
     vm->currentExecutionContext->coroutineState = NK_COROUTINE_RUNNING;
     vm->hostCallContext = NULL;
     vm->hostCallInstructionPointer = 0;
+    vm->hostCallDepth = 0;
 
     vm->instructions =
         (struct NKInstruction *)nkiMalloc(vm, sizeof(struct NKInstruction) * 4);
diff --git a/src/nkvm.h b/src/nkvm.h
index de891c7..fea6310 100644
--- a/src/nkvm.h
+++ b/src/nkvm.h
@@ -201,6 +201,9 @@ struct NKVM
     struct NKVMExecutionContext *hostCallContext;
     nkuint32_t hostCallInstructionPointer;
 
+    // How many nkiVmCallFunction()s are running inside of each other.
+    nkuint32_t hostCallDepth;
+
     // What a failed stack push hands out.
     struct NKValue stackOverflowValue;
 
-- 
2.43.0


From 8cb404dd645e57dea87e8f65b823b6499c6e6a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:03 +0000
Subject: [PATCH 41/55] fix: a host call with more arguments than the stack has
 room for added an error for every one of them, in quadratic time

---
 src/nkfunc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nkfunc.c b/src/nkfunc.c
index f8d53b7..5fd2494 100644
--- a/src/nkfunc.c
+++ b/src/nkfunc.c
@@ -103,7 +103,7 @@ void nkiVmCallFunction(
         *nkiVmStackPush_internal(vm) = *functionValue;
 
         // Push arguments.
-        for(i = 0; i < argumentCount; i++) {
+        for(i = 0; i < argumentCount && !nkiVmHasErrors(vm); i++) {
             *nkiVmStackPush_internal(vm) = arguments[i];
         }
 
-- 
2.43.0


From 364c329d0cb01ab5c9bcf5cc4e27ad1e76fd20df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:22 +0000
Subject: [PATCH 42/55] fix: allocating an array of elements of size zero
 divided by zero

---
 src/nkmem.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nkmem.c b/src/nkmem.c
index 40173cb..9d6315b 100644
--- a/src/nkmem.c
+++ b/src/nkmem.c
@@ -290,7 +290,7 @@ char *nkiStrdup(struct NKVM *vm, const char *str)
 // function to wrap all of them safely.
 void *nkiMallocArray(struct NKVM *vm, nkuint32_t size, nkuint32_t count)
 {
-    if(count >= ~(nkuint32_t)0 / size) {
+    if(size && count >= ~(nkuint32_t)0 / size) {
         nkiErrorStateSetAllocationFailFlag(vm);
         NK_CATASTROPHE();
         assert(0);
@@ -303,7 +303,7 @@ void *nkiMallocArray(struct NKVM *vm, nkuint32_t size, nkuint32_t count)
 // Thanks AFL! Looks like we needed one for realloc, too.
 void *nkiReallocArray(struct NKVM *vm, void *data, nkuint32_t size, nkuint32_t count)
 {
-    if(count >= ~(nkuint32_t)0 / size) {
+    if(size && count >= ~(nkuint32_t)0 / size) {
         nkiErrorStateSetAllocationFailFlag(vm);
         NK_CATASTROPHE();
         assert(0);
-- 
2.43.0


From 7c9adb1517b350b97ceea783529da1d48b6de540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:57 +0000
Subject: [PATCH 43/55] fix: loading an image into a VM that had errors lost
 them, and their memory

---
 src/nksave.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/nksave.c b/src/nksave.c
index fdf6134..0270487 100644
--- a/src/nksave.c
+++ b/src/nksave.c
@@ -175,6 +175,11 @@ nkbool nkiSerializeErrorState(
         nkuint32_t errorNum;
         struct NKError **lastPtr = &vm->errorState.firstError;
 
+        // Keep errors that were there before.
+        while(*lastPtr) {
+            lastPtr = &(*lastPtr)->next;
+        }
+
         for(errorNum = 0; errorNum < errorCount; errorNum++) {
             char *errorText = NULL;
             struct NKError *newError = NULL;
-- 
2.43.0


From acc8380fe29c9cd9569308e6d85938340e93583c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:57 +0000
Subject: [PATCH 44/55] fix: dumping the state of a VM with unknown opcodes
 crashed

---
 src/nkvm.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nkvm.c b/src/nkvm.c
index 062fee1..32106b0 100644
--- a/src/nkvm.c
+++ b/src/nkvm.c
@@ -140,6 +140,7 @@ static void nkiVmInitOpcodeTable(void)
         nkuint32_t i;
         for(i = NK_OPCODE_REALCOUNT; i < NK_OPCODE_PADDEDCOUNT; i++) {
             nkiOpcodeTable[i] = nkiOpcode_nop;
+            nkiOpcodeNameTable[i] = "NOP";
             nkiCompilerStackOffsetTable[i] = 0;
         }
     }
-- 
2.43.0


From 3a12f0a52165d3931eba1e3badd2336e4ec8f0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:04 +0000
Subject: [PATCH 45/55] fix: dumping the state of a VM with a coroutine whose
 loading failed crashed

---
 src/nkdbg.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nkdbg.c b/src/nkdbg.c
index d25e48a..f3a0c37 100644
--- a/src/nkdbg.c
+++ b/src/nkdbg.c
@@ -269,7 +269,7 @@ void nkiDbgDumpState(struct NKVM *vm, const char *script, FILE *stream)
             }
             fprintf(stream, "      externalDataType: " NK_PRINTF_UINT32 "\n", ob->externalDataType.id);
 
-            if(ob->externalDataType.id == vm->internalObjectTypes.coroutine.id) {
+            if(ob->externalData && ob->externalDataType.id == vm->internalObjectTypes.coroutine.id) {
                 fprintf(stream, "      coroutine data:\n");
                 nkiDbgDumpExecutionContext(vm, stream, (struct NKVMExecutionContext*)ob->externalData);
             }
@@ -742,7 +742,7 @@ void nkiDbgCheckCoroutines(struct NKVM *vm)
     //     for(i = 0; i < vm->objectTable.capacity; i++) {
     //         struct NKVMObject *ob = (struct NKVMObject*)vm->objectTable.data[i];
     //         if(ob) {
-    //             if(ob->externalDataType.id == vm->internalObjectTypes.coroutine.id) {
+    //             if(ob->externalData && ob->externalDataType.id == vm->internalObjectTypes.coroutine.id) {
     //                 printf("%u\n", ob->externalDataType.id);
     //                 printf("%u\n", vm->internalObjectTypes.coroutine.id);
     //                 assert(ob->externalData);
-- 
2.43.0


From e4844beaf06a10451ef57ad2f31e134d6b2b58b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:33 +0000
Subject: [PATCH 46/55] fix: looking up a global variable or the end of the
 program after an allocation failure read unfinished tables

---
 src/nkx.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/nkx.c b/src/nkx.c
index 035b70f..7b85b00 100644
--- a/src/nkx.c
+++ b/src/nkx.c
@@ -200,6 +200,10 @@ struct NKValue *nkxVmFindGlobalVariable(
         NK_CLEAR_FAILURE_RECOVERY();
         return ret;
     } else {
+        // The tables may be inconsistent after an allocation failure.
+        if(NK_CHECK_CATASTROPHE()) {
+            return NULL;
+        }
         return nkiVmFindGlobalVariable(vm, name);
     }
 }
@@ -1144,6 +1148,12 @@ void nkxValueSetFunction(struct NKVM *vm, struct NKValue *value, NKVMInternalFun
 
 nkbool nkxVmProgramHasEnded(struct NKVM *vm)
 {
+    // Nothing runs anymore after an allocation failure, and the
+    // instructions may not even be there.
+    if(NK_CHECK_CATASTROPHE()) {
+        return nktrue;
+    }
+
     return vm->instructions[
         vm->currentExecutionContext->instructionPointer &
         vm->instructionAddressMask].opcode == NK_OP_END;
-- 
2.43.0


From 4fcc60cf6f8997fa6141a578eae840c938676c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:24 +0000
Subject: [PATCH 47/55] fix: serializing data outside of serialization aborted
 instead of adding the error

---
 src/nkx.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nkx.c b/src/nkx.c
index 7b85b00..f7d8584 100644
--- a/src/nkx.c
+++ b/src/nkx.c
@@ -1000,7 +1000,7 @@ nkbool nkxSerializerGetWriteMode(struct NKVM *vm)
 nkbool nkxSerializeData(struct NKVM *vm, void *data, nkuint32_t size)
 {
     if(!vm->serializationState.writer) {
-        nkiAddError(vm, "Attempted to access serialization writer outside of serialization.");
+        nkxAddError(vm, "Attempted to access serialization writer outside of serialization.");
         return nkfalse;
     }
 
-- 
2.43.0


From a51a6cce9b7ef39792240a14a25416bfe03f2698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:55 +0000
Subject: [PATCH 48/55] fix: saving and loading went on, and succeeded, after
 memory ran out in a serialization callback

---
 src/nksave.c | 3 +++
 src/nkx.c    | 5 +++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/nksave.c b/src/nksave.c
index 0270487..5b79aef 100644
--- a/src/nksave.c
+++ b/src/nksave.c
@@ -216,6 +216,9 @@ nkbool nkiSerializeErrorState(
         NKI_SERIALIZE_PUSHSERIALIZERSTATE();    \
         x;                                      \
         NKI_SERIALIZE_POPSERIALIZERSTATE();     \
+        if(NK_CHECK_CATASTROPHE()) {            \
+            NK_CATASTROPHE();                   \
+        }                                       \
         if(vm->serializationState.failed) {     \
             return nkfalse;                     \
         }                                       \
diff --git a/src/nkx.c b/src/nkx.c
index f7d8584..987a1e0 100644
--- a/src/nkx.c
+++ b/src/nkx.c
@@ -1004,8 +1004,9 @@ nkbool nkxSerializeData(struct NKVM *vm, void *data, nkuint32_t size)
         return nkfalse;
     }
 
-    // The writer must not be called again after it failed.
-    if(vm->serializationState.failed) {
+    // The writer must not be called again after it failed, or after
+    // an allocation failure.
+    if(vm->serializationState.failed || NK_CHECK_CATASTROPHE()) {
         return nkfalse;
     }
 
-- 
2.43.0


From 195f5a4d7a278659d7be911ea4ac6b58c0a68ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:06 +0000
Subject: [PATCH 49/55] fix: running out of memory while calling a callable
 object left the field to look up uninitialised

---
 src/nkopcode.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nkopcode.c b/src/nkopcode.c
index e7280df..c4c01c7 100644
--- a/src/nkopcode.c
+++ b/src/nkopcode.c
@@ -501,12 +501,12 @@ void nkiOpcode_call(struct NKVM *vm)
             }
 
             // Check for the function call field.
-            nkxValueSetString(vm, &index, "_exec");
+            nkiValueSetString(vm, &index, "_exec");
             functionIdValue = nkiVmObjectFindOrAddEntry_public(
                 vm, objectIdValue, &index, nktrue);
 
             // Check for the data field.
-            nkxValueSetString(vm, &index, "_data");
+            nkiValueSetString(vm, &index, "_data");
             callableObjectData = nkiVmObjectFindOrAddEntry_public(
                 vm, objectIdValue, &index, nktrue);
 
-- 
2.43.0


From a4f53a967792694e227d0f26ece699c02bd2df4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:19 +0000
Subject: [PATCH 50/55] fix: errors after a failed interactive input named the
 lines of that input

---
 src/nkcompil.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/nkcompil.c b/src/nkcompil.c
index 7eaeda4..5cab4ab 100644
--- a/src/nkcompil.c
+++ b/src/nkcompil.c
@@ -1726,6 +1726,14 @@ void nkiCompilerClearReplErrorState(
     cs->instructionWriteIndex = instructionPointerReset;
     cs->vm->instructions[cs->instructionWriteIndex].opcode = NK_OP_END;
 
+    // Forget the source positions of the removed instructions.
+    while(cs->vm->positionMarkerCount &&
+        cs->vm->positionMarkerList[
+            cs->vm->positionMarkerCount - 1].instructionIndex >= instructionPointerReset)
+    {
+        cs->vm->positionMarkerCount--;
+    }
+
     // Re-init error state.
     nkiErrorStateDestroy(cs->vm);
     nkiErrorStateInit(cs->vm);
-- 
2.43.0


From 602fd3ef35560d5af881824a179658410b72d112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:19 +0000
Subject: [PATCH 51/55] fix: variables of an interactive input that did not
 compile could not be declared again

---
 src/nkcompil.c | 19 +++++++++++++++++++
 src/nkcompil.h |  6 ++++++
 2 files changed, 25 insertions(+)

diff --git a/src/nkcompil.c b/src/nkcompil.c
index 5cab4ab..5eb65d7 100644
--- a/src/nkcompil.c
+++ b/src/nkcompil.c
@@ -1215,6 +1215,10 @@ nkbool nkiCompilerCompileScript(
         return nkfalse;
     }
 
+    if(!cs->scriptFailed) {
+        cs->variablesBeforeScript = cs->context->variables;
+    }
+
     // Tokenize.
 
     nkiMemset(&tokenList, 0, sizeof(tokenList));
@@ -1225,6 +1229,7 @@ nkbool nkiCompilerCompileScript(
     if(!success) {
         nkiCompilerDestroyTokenList(cs->vm, &tokenList);
         nkiCompilerPopRecursion(cs);
+        cs->scriptFailed = nktrue;
         return nkfalse;
     }
 
@@ -1249,6 +1254,7 @@ nkbool nkiCompilerCompileScript(
     nkiCompilerDestroyTokenList(cs->vm, &tokenList);
 
     nkiCompilerPopRecursion(cs);
+    cs->scriptFailed = !success || nkiVmHasErrors(cs->vm);
     return success;
 }
 
@@ -1722,6 +1728,19 @@ void nkiCompilerClearReplErrorState(
     struct NKCompilerState *cs,
     nkuint32_t instructionPointerReset)
 {
+    // Forget the variables of an input that did not compile. Nothing
+    // has assigned them anything.
+    if(cs->scriptFailed) {
+        while(cs->context->variables != cs->variablesBeforeScript) {
+            struct NKCompilerStateContextVariable *var =
+                cs->context->variables;
+            cs->context->variables = var->next;
+            nkiFree(cs->vm, var->name);
+            nkiFree(cs->vm, var);
+        }
+        cs->scriptFailed = nkfalse;
+    }
+
     // Reset instruction write index.
     cs->instructionWriteIndex = instructionPointerReset;
     cs->vm->instructions[cs->instructionWriteIndex].opcode = NK_OP_END;
diff --git a/src/nkcompil.h b/src/nkcompil.h
index 36d8e46..9c04ac8 100644
--- a/src/nkcompil.h
+++ b/src/nkcompil.h
@@ -99,6 +99,12 @@ struct NKCompilerState
     nkuint32_t recursionCount;
 
     nkuint32_t staticVariableCount;
+
+    // If the last script did not compile, then these are the root
+    // variables there were before it. See
+    // nkiCompilerClearReplErrorState().
+    nkbool scriptFailed;
+    struct NKCompilerStateContextVariable *variablesBeforeScript;
 };
 
 extern nkint32_t nkiCompilerStackOffsetTable[NK_OPCODE_PADDEDCOUNT];
-- 
2.43.0


From db8573bdc401ab5e0ea19501e0fa9fe35b489f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:21 +0000
Subject: [PATCH 52/55] fix: calling a function of an interactive input that
 failed later ran other code

---
 src/interp/main.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/interp/main.c b/src/interp/main.c
index 7866673..71c38e1 100644
--- a/src/interp/main.c
+++ b/src/interp/main.c
@@ -384,6 +384,12 @@ int main(int argc, char *argv[])
             // Finalize and run.
             if(checkNoErrors(vm)) {
                 nkxCompilerPartiallyFinalize(compiler);
+
+                // Functions that this input defines are there even
+                // after an error later in it, so their code has to
+                // stay.
+                oldWritePointer = nkxCompilerGetInstructionWriteIndex(compiler);
+
                 nkxVmIterate(vm, NK_UINT_MAX);
             }
 
-- 
2.43.0


From ffa34e3997ff1ac8bbc78c23b7752b41e841f9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:21 +0000
Subject: [PATCH 53/55] fix: the interpreter freed the last interactive input
 twice after running out of memory

---
 src/interp/main.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/interp/main.c b/src/interp/main.c
index 71c38e1..b5c0731 100644
--- a/src/interp/main.c
+++ b/src/interp/main.c
@@ -380,6 +380,7 @@ int main(int argc, char *argv[])
             // Attempt to compile new code.
             nkxCompilerCompileScript(compiler, scriptText, "<stdin>");
             free(scriptText);
+            scriptText = NULL;
 
             // Finalize and run.
             if(checkNoErrors(vm)) {
-- 
2.43.0


From beff0ee3f56e97cb595382e800c2fddf4eba47a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:21 +0000
Subject: [PATCH 54/55] fix: an empty script was read from uninitialised
 memory, and an unreadable one taken for empty

---
 src/interp/main.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/interp/main.c b/src/interp/main.c
index b5c0731..ce36f99 100644
--- a/src/interp/main.c
+++ b/src/interp/main.c
@@ -133,6 +133,11 @@ char *loadScriptFromStream(nkuint32_t *scriptSize, FILE *in, nkbool stopOnNewlin
 
     *scriptSize = 0;
 
+    if(!buf) {
+        return NULL;
+    }
+    buf[0] = 0;
+
     while(fread(&buf[*scriptSize], 1, 1, in) > 0) {
 
         (*scriptSize)++;
@@ -166,6 +171,13 @@ char *loadScriptFromStream(nkuint32_t *scriptSize, FILE *in, nkbool stopOnNewlin
         }
     }
 
+    // Not everything that opens can be read.
+    if(ferror(in)) {
+        free(buf);
+        *scriptSize = 0;
+        return NULL;
+    }
+
     return buf;
 }
 
-- 
2.43.0


From 4333ac6573f817c1ce7544f74e56c6a1daf865e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:21 +0000
Subject: [PATCH 55/55] fix: loading something other than a regular file from a
 script wrote outside of the buffer

---
 src/interp/main.c | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/src/interp/main.c b/src/interp/main.c
index ce36f99..967f3a2 100644
--- a/src/interp/main.c
+++ b/src/interp/main.c
@@ -268,25 +268,13 @@ void loadFile(struct NKVMFunctionCallbackData *data)
     const char *filename = nkxValueToString(
         data->vm, &data->arguments[0]);
 
-    FILE *inFile = fopen(filename, "rb");
-    size_t fileSize;
+    char *buf = loadScript(filename, NULL);
 
-    if(!inFile) {
+    if(!buf) {
         nkxAddError(data->vm, "Cannot open file.");
         return;
     }
 
-    fseek(inFile, 0, SEEK_END);
-    fileSize = ftell(inFile);
-    fseek(inFile, 0, SEEK_SET);
-
-    char *buf = malloc(fileSize + 1);
-
-    fread(buf, fileSize, 1, inFile);
-    buf[fileSize] = 0;
-
-    fclose(inFile);
-
     nkxValueSetString(
         data->vm,
         &data->returnValue,
-- 
2.43.0

