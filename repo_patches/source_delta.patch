From ea5c47cf94576d63cd1f2ba22953a35e96290bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:11 +0000
Subject: [PATCH 01/35] fix: division and shifts no longer clobber argument
 registers rdx and rcx

---
 codegen.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/codegen.go b/codegen.go
index 330f8d8..2536c1f 100644
--- a/codegen.go
+++ b/codegen.go
@@ -703,9 +703,13 @@ func genExpr(asm asmWriter, expr *Node, takeAddr bool, fn *function) {
 		asm.ins(movq, rax, rbx)
 		restore(asm, fn, rax)
 		if expr.op == opDiv {
-			asm.ins(cqo) // Sign-extend rax into rdx
+			asm.ins(movq, rdx, r10) // rdx may hold an argument of an enclosing call
+			asm.ins(cqo)            // Sign-extend rax into rdx
 		}
 		asm.ins(ins[expr.op], rbx, rax)
+		if expr.op == opDiv {
+			asm.ins(movq, r10, rdx)
+		}
 		tag(asm, expr, rax)
 
 		// NOTES:
@@ -750,9 +754,11 @@ func genExpr(asm asmWriter, expr *Node, takeAddr bool, fn *function) {
 		save(asm, fn, rax)
 		genExpr(asm, expr.right, false, fn)
 		untag(asm, expr.right, rax)
+		asm.ins(movq, rcx, r10) // rcx may hold an argument of an enclosing call
 		asm.ins(movq, rax, rcx)
 		restore(asm, fn, rax)
 		asm.ins(ins[expr.op], cl, rax)
+		asm.ins(movq, r10, rcx)
 		tag(asm, expr, rax)
 
 	case opIdentifier:
-- 
2.43.0


From 35118e765211ba2ac614fdb04f82e4fa4d846e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:16 +0000
Subject: [PATCH 02/35] fix: closing a scope drops only the GC roots of that
 scope

---
 gc.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gc.go b/gc.go
index ce9b9e7..5e1fe7d 100644
--- a/gc.go
+++ b/gc.go
@@ -48,6 +48,7 @@ func (gs *GcState) OpenScope() {
 
 func (gs *GcState) CloseScope() {
 	gs.roots = gs.roots[:gs.scopes[len(gs.scopes)-1]]
+	gs.scopes = gs.scopes[:len(gs.scopes)-1]
 }
 
 func (gs *GcState) Add(off int, t *Type) {
-- 
2.43.0


From 7edf5ffe6551506b52b943cd6fc401f12d4919b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:21 +0000
Subject: [PATCH 03/35] fix: temporaries saved on the stack are GC roots while
 they are there

---
 codegen.go | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/codegen.go b/codegen.go
index 2536c1f..eae4144 100644
--- a/codegen.go
+++ b/codegen.go
@@ -513,14 +513,14 @@ func genAssignStmt(asm asmWriter, n *Node, fn *function) {
 
 	// Evaluate expression & push result to stack
 	genExpr(asm, n.right, false, fn)
-	save(asm, fn, rax)
+	saveRoot(asm, fn, rax, n.right.typ)
 
 	// Evaluate mem location to store
 	slot := n.left
 	genExpr(asm, slot, true, fn)
 
 	// Pop result
-	restore(asm, fn, rbx)
+	restoreRoot(asm, fn, rbx, n.right.typ)
 	src := rbx
 
 	// Write slot
@@ -581,7 +581,7 @@ func genFnCall(asm asmWriter, n *Node, f *function) {
 		fn = s.Type.AsFunction()
 	} else {
 		genExpr(asm, n.left, false, f)
-		save(asm, f, rax)
+		saveRoot(asm, f, rax, n.left.typ)
 		fn = n.left.typ.AsFunction()
 	}
 
@@ -614,7 +614,7 @@ func genFnCall(asm asmWriter, n *Node, f *function) {
 
 	// Recover fn address from stack, if required
 	if s == nil {
-		restore(asm, f, rax)
+		restoreRoot(asm, f, rax, n.left.typ)
 	}
 
 	// Align stack as per ABI
@@ -826,7 +826,7 @@ func genExpr(asm asmWriter, expr *Node, takeAddr bool, fn *function) {
 
 		// Calculate array address
 		genExpr(asm, expr.left, false, fn)
-		save(asm, fn, rax)
+		saveRoot(asm, fn, rax, expr.left.typ)
 
 		// Calculate index
 		genExpr(asm, expr.right, false, fn)
@@ -843,7 +843,7 @@ func genExpr(asm asmWriter, expr *Node, takeAddr bool, fn *function) {
 		asm.ins(cmpq, rax, rbx) // index - array.length
 
 		// Restore array address before jump!
-		restore(asm, fn, rax)
+		restoreRoot(asm, fn, rax, expr.left.typ)
 		asm.ins(jae, labelOp("ioob"))
 
 		// Displace + ptrSize to skip over length
@@ -906,6 +906,17 @@ func restore(asm asmWriter, fn *function, r reg) {
 	fn.decSp(1)
 }
 
+// As save but the value is also a GC root while it is on the stack
+func saveRoot(asm asmWriter, fn *function, r reg, t *Type) {
+	save(asm, fn, r)
+	fn.gcRoots.Add(fn.sp * ptrSize, t)
+}
+
+func restoreRoot(asm asmWriter, fn *function, r reg, t *Type) {
+	fn.gcRoots.Remove(fn.sp * ptrSize, t)
+	restore(asm, fn, r)
+}
+
 var ins = make(map[int]inst)
 func init() {
 	ins[opAdd] = addq
-- 
2.43.0


From cae15f63fb66bd6dde2dd348324759a5470c7bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:42 +0000
Subject: [PATCH 04/35] fix: registers are spilled before the called function
 value is saved

---
 codegen.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/codegen.go b/codegen.go
index eae4144..291daae 100644
--- a/codegen.go
+++ b/codegen.go
@@ -573,6 +573,8 @@ func genReturnStmt(asm asmWriter, expr *Node, fn *function) {
 
 func genFnCall(asm asmWriter, n *Node, f *function) {
 
+	f.SpillRegisters(asm)
+
 	// Determine how function is referenced
 	var s *Symbol
 	var fn *FunctionType
@@ -585,8 +587,6 @@ func genFnCall(asm asmWriter, n *Node, f *function) {
 		fn = n.left.typ.AsFunction()
 	}
 
-	f.SpillRegisters(asm)
-
 	// Generate arg code
 	for i, arg := range n.stmts {
 		// Evaluate expression, move into arg reg & record in use
-- 
2.43.0


From 12d8ff1857c249dc9762d4d943e88bb147bf7fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:03 +0000
Subject: [PATCH 05/35] fix: raw values for external calls are made after all
 arguments are evaluated

---
 codegen.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/codegen.go b/codegen.go
index 291daae..b054642 100644
--- a/codegen.go
+++ b/codegen.go
@@ -593,9 +593,12 @@ func genFnCall(asm asmWriter, n *Node, f *function) {
 		genExpr(asm, arg, false, f)
 		asm.ins(movq, rax, regs[i])
 		f.RegisterInUse(arg.typ)
+	}
 
-		// Create "raw" values for any external functions which require them
-		if fn.Is(External) && fn.RawValues {
+	// Create "raw" values for any external functions which require them. This must follow the evaluation of
+	// all arguments as it leaves registers without valid (i.e. GC visible) values
+	if fn.Is(External) && fn.RawValues {
+		for i, arg := range n.stmts {
 			switch arg.typ.Kind {
 			case String, Array, Bytes:
 				// Modify pointer to point past length
-- 
2.43.0


From b7654ddbadde638f1cf3a2ee3990d34c122b5cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:44 +0000
Subject: [PATCH 06/35] fix: a for loop evaluates its array once

---
 semantic.go | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/semantic.go b/semantic.go
index 455c491..26bc046 100644
--- a/semantic.go
+++ b/semantic.go
@@ -473,20 +473,14 @@ func lowerForStatement(n *Node) {
 
 		// 2 cases - arrayOrRange or range expression
 		if arrayOrRange.typ.Is(Array) {
-			var stmts []*Node
-
-			// Array literals need assigned to a slot first
-			if arrayOrRange.Is(opArrayLit) {
-				arrayLitSlot := newVar("$arrayLit$", intArrayType)
-				stmts = append(stmts, das(arrayLitSlot, arrayOrRange.left))
-				arrayOrRange = arrayLitSlot
-			}
+			// Assign array to a slot so it is only evaluated once
+			array := newVar("$array$", arrayOrRange.typ)
 			val := newVar("$idx$", intType)
-			while := while(lt(val.copy(), length(arrayOrRange)))
-			while.stmts = append(while.stmts, as(n.left, access(arrayOrRange, val.copy())))
+			while := while(lt(val.copy(), length(array)))
+			while.stmts = append(while.stmts, as(n.left, access(array, val.copy())))
 			while.stmts = append(while.stmts, n.stmts...)
 			while.stmts = append(while.stmts, inc(val.copy(), 1))
-			n.stmts = append(stmts, das(val, intLit(0)), while)
+			n.stmts = []*Node{das(array, arrayOrRange), das(val, intLit(0)), while}
 		} else {
 			val = n.left
 			initVal := arrayOrRange.left
-- 
2.43.0


From 8b3c0854a6daeb21611eb97ed9b61d9a413b7e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:49 +0000
Subject: [PATCH 07/35] fix: the variable of a for loop over an array is a GC
 root

---
 semantic.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/semantic.go b/semantic.go
index 26bc046..91c884b 100644
--- a/semantic.go
+++ b/semantic.go
@@ -477,7 +477,7 @@ func lowerForStatement(n *Node) {
 			array := newVar("$array$", arrayOrRange.typ)
 			val := newVar("$idx$", intType)
 			while := while(lt(val.copy(), length(array)))
-			while.stmts = append(while.stmts, as(n.left, access(array, val.copy())))
+			while.stmts = append(while.stmts, das(n.left, access(array, val.copy())))
 			while.stmts = append(while.stmts, n.stmts...)
 			while.stmts = append(while.stmts, inc(val.copy(), 1))
 			n.stmts = []*Node{das(array, arrayOrRange), das(val, intLit(0)), while}
-- 
2.43.0


From e18ecd5c179c2516e5c14085b40b9527e29c2092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:54 +0000
Subject: [PATCH 08/35] fix: integer literals which do not fit in 63 bits are
 rejected

---
 semantic.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/semantic.go b/semantic.go
index 91c884b..97b9849 100644
--- a/semantic.go
+++ b/semantic.go
@@ -458,7 +458,7 @@ func foldConstants(errs *[]error, n *Node) {
 
 	// Check for overflow
 	if n.op == opLit && n.token.Kind == lex.Integer {
-		_, err := strconv.ParseInt(n.token.Val, 0, 64)
+		_, err := strconv.ParseInt(n.token.Val, 0, 63) // One bit is used by the tag
 		if err != nil {
 			*errs = append(*errs, semanticError(errIntegerOverflowMsg, n.token))
 		}
-- 
2.43.0


From f5928ee8546b3b0df25c3e9d9a67b67cf7c20588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:47 +0000
Subject: [PATCH 09/35] fix: closures capture variables used in array indexes
 and do not capture struct fields

---
 closures.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/closures.go b/closures.go
index e902bcb..2d5ef8f 100644
--- a/closures.go
+++ b/closures.go
@@ -158,16 +158,11 @@ func (fc *freeVarChecker) IdentityFreeVars(n *Node) bool {
 	case opensScope(n):
 		fc.scopes = append(fc.scopes, n.symtab)
 
-	case n.Is(opIdentifier) && fc.isFree(n):
+	case n.Is(opIdentifier) && !fc.isField(n) && fc.isFree(n):
 		fc.free[n.sym] = true
 
-	case n.Is(opDot, opArray) && n.left.Is(opIdentifier):
-		if fc.isFree(n.left) {
-			fc.free[n.left.sym] = true
-		}
-		return false // No need to walk right!
-
 	case n.Is(opBlockFnDcl, opExprFnDcl) && n != fc.n:
+		fc.exitNode()
 		return false // Don't walk into other closures!
 	}
 	return true
@@ -182,6 +177,15 @@ func (fc *freeVarChecker) exitNode() bool {
 	return true
 }
 
+// Is node the right hand side of a dot selection? If so it names a field, not a variable
+func (fc *freeVarChecker) isField(n *Node) bool {
+	if len(fc.stack) < 2 {
+		return false
+	}
+	parent := fc.stack[len(fc.stack)-2]
+	return parent.Is(opDot) && parent.right == n
+}
+
 func (fc *freeVarChecker) isFree(n *Node) bool {
 	if n.sym == nil || n.sym.IsGlobal || n.sym.IsLiteral {
 		return false
-- 
2.43.0


From f02b18de47b338a85bb1b020d3bac944e79dce1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:52 +0000
Subject: [PATCH 10/35] fix: comparison of values which are not integers is an
 error

---
 typecheck.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/typecheck.go b/typecheck.go
index 3bb470d..80c338d 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -188,6 +188,10 @@ func typeCheck(n *Node, symtab *SymTab, fn *FunctionType, debug bool) (errs []er
 		if !left.hasType() || !right.hasType() {
 			goto end
 		}
+		if !left.typ.Is(Integer) {
+			errs = append(errs, semanticError2(errInvalidOperatorTypeMsg, left.token, left.typ, n.token.Val))
+			goto end
+		}
 		if !left.typ.Matches(right.typ) {
 			errs = append(errs, semanticError2(errMismatchedTypesMsg, left.token, left.typ, right.typ))
 			goto end
-- 
2.43.0


From 29ad59e1323d61d4192928197a8dd19f596a1faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:11 +0000
Subject: [PATCH 11/35] fix: type errors inside ternaries and array literals
 are reported

---
 typecheck.go | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/typecheck.go b/typecheck.go
index 80c338d..f6183d6 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -518,44 +518,48 @@ func typeCheckCase(n *Node, bound map[*Type]*Type, symtab *SymTab, fn *FunctionT
 	return errs
 }
 
-func typeCheckTernary(n *Node, symtab *SymTab, fn *FunctionType, debug bool) []error {
+func typeCheckTernary(n *Node, symtab *SymTab, fn *FunctionType, debug bool) (errs []error) {
 	cond := n.left
-	if errs := typeCheck(cond, symtab, fn, debug); !cond.hasType() {
+	errs = append(errs, typeCheck(cond, symtab, fn, debug)...)
+	if !cond.hasType() {
 		return errs
 	}
 	if !cond.typ.Is(Boolean) {
-		return []error{ semanticError2(errMismatchedTypesMsg, cond.token, cond.typ, boolType) }
+		return append(errs, semanticError2(errMismatchedTypesMsg, cond.token, cond.typ, boolType))
 	}
 	ifExpr := n.stmts[0]
-	if errs := typeCheck(ifExpr, symtab, fn, debug); !ifExpr.hasType() {
+	errs = append(errs, typeCheck(ifExpr, symtab, fn, debug)...)
+	if !ifExpr.hasType() {
 		return errs
 	}
 	elseExpr := n.stmts[1]
-	if errs := typeCheck(elseExpr, symtab, fn, debug); !elseExpr.hasType() {
+	errs = append(errs, typeCheck(elseExpr, symtab, fn, debug)...)
+	if !elseExpr.hasType() {
 		return errs
 	}
 	if !ifExpr.typ.Matches(elseExpr.typ) {
-		return []error{ semanticError2(errMismatchedTypesMsg, elseExpr.token, elseExpr.typ, ifExpr.typ) }
+		return append(errs, semanticError2(errMismatchedTypesMsg, elseExpr.token, elseExpr.typ, ifExpr.typ))
 	}
 	n.typ = ifExpr.typ
-	return nil
+	return errs
 }
 
-func typeCheckArrayLit(n *Node, symtab *SymTab, fn *FunctionType, debug bool) []error {
+func typeCheckArrayLit(n *Node, symtab *SymTab, fn *FunctionType, debug bool) (errs []error) {
 	if len(n.stmts) == 0 {
 		return []error{ semanticError(errEmptyArrayLiteralMsg, n.token) }
 	}
 	for _, expr := range n.stmts {
-		if errs := typeCheck(expr, symtab, fn, debug); !expr.hasType() {
+		errs = append(errs, typeCheck(expr, symtab, fn, debug)...)
+		if !expr.hasType() {
 			return errs
 		}
 		// Type of first element defines type for rest of elements
 		if !expr.typ.Matches(n.stmts[0].typ) {
-			return []error{ semanticError2(errMismatchedTypesMsg, expr.token, expr.typ, intType) }
+			return append(errs, semanticError2(errMismatchedTypesMsg, expr.token, expr.typ, n.stmts[0].typ))
 		}
 	}
 	n.typ = &Type{Kind: Array, Data: &ArrayType{Elem: n.stmts[0].typ}}
-	return nil
+	return errs
 }
 
 func typeCheckFor(n *Node, symtab *SymTab, fn *FunctionType, debug bool) (errs []error) {
-- 
2.43.0


From a94331b17c3152cd611869e6236c15a0c009d93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:47 +0000
Subject: [PATCH 12/35] fix: the name of a type is not a value

---
 install/lib/io.clara | 2 +-
 typecheck.go         | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/install/lib/io.clara b/install/lib/io.clara
index fb268df..70746e5 100644
--- a/install/lib/io.clara
+++ b/install/lib/io.clara
@@ -12,7 +12,7 @@ fn read(f: file, buf: bytes, size: int) option«error» {
     if size > buf.length() {
         return Some(Error(Some("buffer is too small for requested read size"), -1))
     }
-    return read(f.fd, buf, size) == -1 ? Some(Error(Some(file.path), errnum())) : None«error»()
+    return read(f.fd, buf, size) == -1 ? Some(Error(Some(f.path), errnum())) : None«error»()
 }
 // ---------------------------------------------------------------------------------------------------------------------
 // External Functions
diff --git a/typecheck.go b/typecheck.go
index f6183d6..59cdf89 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -906,7 +906,10 @@ func typeCheckIdentifier(n *Node, symtab *SymTab, allowAmbiguous bool) error {
 	// If no symbol - try to find identifier declaration
 	if n.sym == nil {
 		sym, found := symtab.Resolve(n.token.Val)
-		if !found {
+		for found && sym.IsType && sym.Next != nil {
+			sym = sym.Next // Functions may share the name of a type but a type is not a value
+		}
+		if !found || sym.IsType {
 			return semanticError(errUnknownVarMsg, n.token)
 		}
 		if sym.Next != nil && !allowAmbiguous {
-- 
2.43.0


From 2616e24a5b2d75ba3ea12f87fd97fb06ab7e48f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:05 +0000
Subject: [PATCH 13/35] fix: the result of a call and the name of a function
 cannot be assigned to

---
 ast.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ast.go b/ast.go
index ee8b38c..adfd49a 100644
--- a/ast.go
+++ b/ast.go
@@ -37,8 +37,7 @@ func (n *Node) hasType() bool {
 func (n *Node) isAddressable() bool {
 	switch n.op {
 	case opArray: return true
-	case opFuncCall: return n.typ.Is(Struct) || n.typ.Is(Array)
-	case opIdentifier: return true
+	case opIdentifier: return !n.sym.IsGlobal
 	case opDot: return true
 	default:
 		return false
-- 
2.43.0


From 8c665c3f815d5c6f6625627c5c84cc201dbace32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:47 +0000
Subject: [PATCH 14/35] fix: too many parameters, fields or captured variables
 is an error and not a crash

---
 closures.go | 11 ++++++++++-
 main.go     |  2 +-
 semantic.go |  9 +++++++++
 3 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/closures.go b/closures.go
index 2d5ef8f..34357a5 100644
--- a/closures.go
+++ b/closures.go
@@ -7,13 +7,17 @@ import (
 
 var id = uint(0) // TODO: Find a better solution to this...
 
-func rewriteAnonFnAndClosures(rootNode *Node, n *Node) {
+func rewriteAnonFnAndClosures(errs *[]error, rootNode *Node, n *Node) {
 
 	if n.isLocalFn() {
 
 		id += 1
 
 		freeVars := clIdentifyFreeVars(n)
+		if len(freeVars) > maxFnArgCount {
+			*errs = append(*errs, semanticError2(errTooManyArgsMsg, n.token, n.token.Val, maxFnArgCount))
+			return
+		}
 		if len(freeVars) > 0 {
 
 			// ----------------------------------------------------------
@@ -87,6 +91,11 @@ func rewriteAnonFnAndClosures(rootNode *Node, n *Node) {
 		// Closure/Anonymous/Fn Pointer Call Site
 		// ----------------------------------------------------------
 
+		// Function values are passed as an extra argument
+		if len(n.stmts) > maxFnArgCount-1 {
+			*errs = append(*errs, semanticError2(errTooManyArgsMsg, n.token, n.token.Val, maxFnArgCount-1))
+			return
+		}
 		s := rootNode.symtab.MustResolve("invokeDynamic")
 
 		// AST: <name>(args...) -> invokeDynamic(<name>, args...)
diff --git a/main.go b/main.go
index a853ea5..ba2e466 100644
--- a/main.go
+++ b/main.go
@@ -119,7 +119,7 @@ func Compile(options options, claraLibPaths []string, progPath string, cLibPaths
 	WalkPostOrder(rootNode, func(n *Node) { rewriteArrayLiteralExpr(n, rootSymtab) })
 	for _, n := range rootNode.stmts {
 		if !isFn(n, "invokeDynamic") {
-			WalkPostOrder(n, func(n *Node) { rewriteAnonFnAndClosures(rootNode, n) })
+			WalkPostOrder(n, func(n *Node) { rewriteAnonFnAndClosures(&errs, rootNode, n) })
 		}
 	}
 	WalkPostOrder(rootNode, func(n *Node) { lowerMatchStatement(rootSymtab, n) })
diff --git a/semantic.go b/semantic.go
index 97b9849..e10dd97 100644
--- a/semantic.go
+++ b/semantic.go
@@ -366,6 +366,10 @@ func processFnType(n *Node, symName string, symtab *SymTab, child *SymTab, types
 			fnType.Types = append(fnType.Types, sym.Type)
 		}
 	}
+	// NOTE: One argument is required to invoke local functions, see: invokeDynamic()
+	if max := maxFnArgCount; len(n.params) > max || (n.isLocalFn() && len(n.params) > max-1) {
+		return nil, semanticError2(errTooManyArgsMsg, n.token, n.token.Val, max)
+	}
 	for _, param := range n.params {
 		paramType, err := createType(n.symtab, param.left)
 		if err != nil {
@@ -619,6 +623,11 @@ func generateStructConstructor(root *Node, n *Node) (*Symbol, error) {
 		return nil, semanticError(errStructNamingLowerMsg, n.token)
 	}
 
+	// Check all fields can be passed to constructor
+	if len(n.stmts) > maxFnArgCount {
+		return nil, semanticError2(errTooManyArgsMsg, n.token, name, maxFnArgCount)
+	}
+
 	// Create name
 	constructorName := strings.ToUpper(firstLetter) + name[1:]
 
-- 
2.43.0


From 83e36df283c16a528598421cc72420003f42b22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:17 +0000
Subject: [PATCH 15/35] fix: overload candidates which do not match leave no
 trace in arguments or type bindings

---
 typecheck.go | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/typecheck.go b/typecheck.go
index 59cdf89..386a659 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -732,6 +732,9 @@ func matchFuncCallByType(t *Type, n *Node) (*Type, error) {
 	// TODO: This is horrible!
 	//
 
+	// Overloads selected for arguments. Only assigned once all arguments match
+	selected := make([]*Symbol, len(args))
+
 	if len(f.Types) == 0 {
 
 	argCheck:
@@ -741,8 +744,7 @@ func matchFuncCallByType(t *Type, n *Node) (*Type, error) {
 			if arg.op == opIdentifier && arg.sym.Next != nil {
 				for s := arg.sym; s != nil; s = s.Next {
 					if s.Type.Matches(param) {
-						arg.sym = s
-						arg.typ = s.Type
+						selected[i] = s
 						continue argCheck
 					}
 				}
@@ -760,6 +762,7 @@ func matchFuncCallByType(t *Type, n *Node) (*Type, error) {
 				return nil, semanticError2(errMismatchedTypesMsg, arg.token, arg.typ, param)
 			}
 		}
+		selectOverloads(args, selected)
 		return f.ret, nil
 
 	} else {
@@ -775,9 +778,13 @@ func matchFuncCallByType(t *Type, n *Node) (*Type, error) {
 			// If the argument is a named function is may be overloaded so check all symbols
 			if arg.op == opIdentifier && arg.sym.Next != nil {
 				for s := arg.sym; s != nil; s = s.Next {
-					if s.Type.PolyMatch(param, bound) {
-						arg.sym = s
-						arg.typ = s.Type
+					attempt := make(map[*Type]*Type) // Failed matches must not leave bindings behind
+					for k, v := range bound {
+						attempt[k] = v
+					}
+					if s.Type.PolyMatch(param, attempt) {
+						bound = attempt
+						selected[i] = s
 						continue polyArgCheck
 					}
 				}
@@ -805,10 +812,20 @@ func matchFuncCallByType(t *Type, n *Node) (*Type, error) {
 			}
 			return nil, semanticError2(errTypeParameterNotKnownMsg, n.token, strings.Join(types, ","), f.ret.String())
 		}
+		selectOverloads(args, selected)
 		return substituteType(f.ret, bound), nil
 	}
 }
 
+func selectOverloads(args []*Node, selected []*Symbol) {
+	for i, s := range selected {
+		if s != nil {
+			args[i].sym = s
+			args[i].typ = s.Type
+		}
+	}
+}
+
 func substituteType(t *Type, bound map[*Type]*Type) *Type {
 	if len(bound) == 0 {
 		return t
-- 
2.43.0


From 59e1611a649a9d27d623b3fb8dc948fdf7428d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:23 +0000
Subject: [PATCH 16/35] fix: type parameters of a function type result must be
 known

---
 typecheck.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/typecheck.go b/typecheck.go
index 386a659..b355bf2 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -883,10 +883,10 @@ func findUnboundTypeParameters(t *Type, bound map[*Type]*Type) []*Type {
 	case t.Is(Function):
 		f := t.AsFunction()
 		var unmatched []*Type
-		for _, f := range f.Types {
-			unmatched = append(unmatched, findUnboundTypeParameters(f, bound)...)
+		for _, p := range f.Params {
+			unmatched = append(unmatched, findUnboundTypeParameters(p, bound)...)
 		}
-		return unmatched
+		return append(unmatched, findUnboundTypeParameters(f.ret, bound)...)
 
 	case t.Is(Struct):
 		s := t.AsStruct()
-- 
2.43.0


From cfe59c952a5f4d06b9a8c2c186614000190c5682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:05 +0000
Subject: [PATCH 17/35] fix: recursive structs may be used in generic functions

---
 typecheck.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/typecheck.go b/typecheck.go
index b355bf2..f040db6 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -847,6 +847,9 @@ func substituteType(t *Type, bound map[*Type]*Type) *Type {
 
 	case t.Is(Struct):
 		s := t.AsStruct()
+		if len(s.Types) == 0 {
+			return t // Not generic so nothing to substitute. May also be recursive!
+		}
 		var types []*Type
 		for _, tp := range s.Types {
 			types = append(types, substituteType(tp, bound))
-- 
2.43.0


From b1fb143334f479d6e3c2d89630af828b520ab902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:25 +0000
Subject: [PATCH 18/35] fix: recursive generic structs may be instantiated

---
 typecheck.go | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/typecheck.go b/typecheck.go
index f040db6..91bf1d6 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -827,20 +827,24 @@ func selectOverloads(args []*Node, selected []*Symbol) {
 }
 
 func substituteType(t *Type, bound map[*Type]*Type) *Type {
+	return substituteTypeImpl(t, bound, make(map[*Type]*Type))
+}
+
+func substituteTypeImpl(t *Type, bound map[*Type]*Type, seen map[*Type]*Type) *Type {
 	if len(bound) == 0 {
 		return t
 	}
 	switch {
 	case t.Is(Array):
-		return &Type{Kind: Array, Data: &ArrayType{Elem: substituteType(t.AsArray().Elem, bound)}}
+		return &Type{Kind: Array, Data: &ArrayType{Elem: substituteTypeImpl(t.AsArray().Elem, bound, seen)}}
 
 	case t.Is(Function):
 		f := t.AsFunction()
 		var params []*Type
 		for _, p := range f.Params {
-			params = append(params, substituteType(p, bound))
+			params = append(params, substituteTypeImpl(p, bound, seen))
 		}
-		returnType := substituteType(f.ret, bound)
+		returnType := substituteTypeImpl(f.ret, bound, seen)
 		// TODO: Should Data be copied too?
 		return &Type{Kind: Function, Data:
 			&FunctionType{Kind: f.Kind, isVariadic: f.isVariadic, ret: returnType, Params: params, Data: f.Data, RawValues: f.RawValues}}
@@ -850,21 +854,27 @@ func substituteType(t *Type, bound map[*Type]*Type) *Type {
 		if len(s.Types) == 0 {
 			return t // Not generic so nothing to substitute. May also be recursive!
 		}
+		if x, ok := seen[t]; ok {
+			return x // Recursive reference
+		}
+		x := &Type{Kind: Struct}
+		seen[t] = x
 		var types []*Type
 		for _, tp := range s.Types {
-			types = append(types, substituteType(tp, bound))
+			types = append(types, substituteTypeImpl(tp, bound, seen))
 		}
 		var fields []*Symbol
 		for i, f := range s.Fields {
-			fields = append(fields, &Symbol{Name: f.Name, Addr: i * ptrSize, Type: substituteType(f.Type, bound)})
+			fields = append(fields, &Symbol{Name: f.Name, Addr: i * ptrSize, Type: substituteTypeImpl(f.Type, bound, seen)})
 		}
-		return &Type{Kind: Struct, Data: &StructType{Name: s.Name, Fields: fields, Types: types}}
+		x.Data = &StructType{Name: s.Name, Fields: fields, Types: types}
+		return x
 
 	case t.Is(Enum):
 		e := t.AsEnum()
 		var types []*Type
 		for _, tp := range e.Types {
-			types = append(types, substituteType(tp, bound))
+			types = append(types, substituteTypeImpl(tp, bound, seen))
 		}
 		return &Type{Kind: Enum, Data: &EnumType{Name: e.Name, Types: types, Members: e.Members}}
 
-- 
2.43.0


From 13604b727acb7c2667a6accc57423f88eff36216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:50 +0000
Subject: [PATCH 19/35] fix: a file which ends in the middle of a declaration
 is rejected

---
 parse.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parse.go b/parse.go
index d313a33..92ce9cd 100644
--- a/parse.go
+++ b/parse.go
@@ -77,7 +77,6 @@ func (p *Parser) Parse(tokens []*lex.Token, root *Node) (errs []error) {
 			// TODO: p.sync(lex.Fn, lex.Struct, lex.Enum)
 		}
 	}
-	p.need(lex.EOF)
 	return p.errs
 }
 
@@ -599,6 +598,9 @@ func (p *Parser) syntaxError(expected string) {
 
 func (p *Parser) onUnexpectedEof(errs *[]error) {
 	if r := recover(); r != nil {
+		// Input ended in the middle of a construct. Ensure it is reported
+		p.discard = len(p.errs) > 0
+		p.syntaxError("<more input>")
 		*errs = p.errs
 		if r != errUnexpectedEof {
 			panic(r)
-- 
2.43.0


From a50f5b561856b37b4b09d55fb7d019a26de4672d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:16 +0000
Subject: [PATCH 20/35] fix: a string literal which is not closed on its line
 is a lexical error

---
 lex/lex.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lex/lex.go b/lex/lex.go
index 3e9f031..dfefddf 100644
--- a/lex/lex.go
+++ b/lex/lex.go
@@ -432,7 +432,7 @@ func lexComment(l *Lexer) stateFn {
 func lexString(l *Lexer) stateFn {
 	loop: for {
 		switch l.peek() {
-		case eof, '"':
+		case eof, '"', '\n':
 			break loop;
 		case '\\':
 			l.next()
-- 
2.43.0


From d869b1a90c1735ee0ad373f98d599f7097e458be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:41 +0000
Subject: [PATCH 21/35] fix: negative lengths and byte indexes are caught

---
 install/lib/arrays.clara  | 1 +
 install/lib/bytes.clara   | 5 +++--
 install/lib/strings.clara | 2 +-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/install/lib/arrays.clara b/install/lib/arrays.clara
index 27a9f48..0c5b632 100644
--- a/install/lib/arrays.clara
+++ b/install/lib/arrays.clara
@@ -27,6 +27,7 @@ fn arrayNoInit«T»(length: int) []T = array(length, noInit«T»(), "[]T", 7)
 
 // TODO: Should be private
 fn array«T»(length: int, init: fn([]T), description: string, tag: int) []T {
+    assert(length >= 0, "length cannot be negative")
     // TODO: Would be nice to lookup type ID for default & configure array type ID appropriately
     h := claralloc((length * 8) + 8, description, tag).toHeader() // pointer == 8 bytes, + 8 for length
     h.length = length
diff --git a/install/lib/bytes.clara b/install/lib/bytes.clara
index 58bd149..a430a10 100644
--- a/install/lib/bytes.clara
+++ b/install/lib/bytes.clara
@@ -1,4 +1,5 @@
 fn Bytes(length: int) bytes {
+    assert(length >= 0, "length cannot be negative")
     header := claralloc(length + 8, "bytes", 1).toBytesHeader()
     header.length = length
     return header.toBytes()
@@ -7,12 +8,12 @@ fn Bytes(length: int) bytes {
 fn length(b: bytes) int = b.toBytesHeader().length
 
 fn get(b: bytes, idx: int) int {
-    assert(idx < b.length(), "idx is out of range")
+    assert(idx >= 0 and idx < b.length(), "idx is out of range")
     return b.toPointer(8).readByte(idx).tag() // Tag after read
 }
 
 fn set(b: bytes, idx: int, val: int) {
-    assert(idx < b.length(), "idx is out of range")
+    assert(idx >= 0 and idx < b.length(), "idx is out of range")
     b.toPointer(8).writeByte(idx, val.untag()) // Untag before write
 }
 
diff --git a/install/lib/strings.clara b/install/lib/strings.clara
index 929edf9..dee5118 100644
--- a/install/lib/strings.clara
+++ b/install/lib/strings.clara
@@ -1,6 +1,6 @@
 // ---------------------------------------------------------------------------------------------------------------------
 fn byte(s: string, idx: int) int {
-    assert(idx < s.length, "idx is out of range")
+    assert(idx >= 0 and idx < s.length, "idx is out of range")
     return s.toPointer(8).readByte(idx).tag()
 }
 
-- 
2.43.0


From 36e835594f565a75166c02ace2a7ff23bc8b1a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:03 +0000
Subject: [PATCH 22/35] fix: keys with a negative hash may be put in a map

---
 install/lib/map.clara | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/install/lib/map.clara b/install/lib/map.clara
index 3db5a05..8056f86 100644
--- a/install/lib/map.clara
+++ b/install/lib/map.clara
@@ -67,13 +67,13 @@ fn remove«K, V»(m: map«K, V», key: K) option«V» {
 
 fn orElse«K, V»(m: map«K, V», key: K, other: V) V = m.get(key).orElse(other)
 
-fn indexFor«K, V»(m: map«K, V», key: K) int = m.hasher(key).mod(m.buckets.length)
+fn indexFor«K, V»(m: map«K, V», key: K) int = m.hasher(key) & (m.buckets.length - 1) // Power of 2 sizing
 
 fn resize«K, V»(m: map«K, V») {
     buckets := createBuckets«K, V»(m.buckets.length << 1) // Double size of array
     for bucket in m.buckets {
         bucket.foreach(fn(e: entry«K, V») {
-            slot := m.hasher(e.key).mod(buckets.length)
+            slot := m.hasher(e.key) & (buckets.length - 1)
             buckets[slot] = buckets[slot].append(e)
         })
     }
-- 
2.43.0


From 37cac8f66f4431739e823531f7412c6364a15964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:09 +0000
Subject: [PATCH 23/35] fix: copying many bytes does not overflow the stack

---
 install/lib/arrays.clara | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/install/lib/arrays.clara b/install/lib/arrays.clara
index 0c5b632..9bc28a1 100644
--- a/install/lib/arrays.clara
+++ b/install/lib/arrays.clara
@@ -1,11 +1,11 @@
 // ---------------------------------------------------------------------------------------------------------------------
 
 fn copyArray(src: bytes, srcPos: int, dest: bytes, destPos: int) {
-    if src.length() == srcPos or dest.length() == destPos {
-        return
+    while srcPos < src.length() and destPos < dest.length() {
+        dest.set(destPos, src.get(srcPos))
+        srcPos = srcPos+1
+        destPos = destPos+1
     }
-    dest.set(destPos, src.get(srcPos))
-    copyArray(src, srcPos+1, dest, destPos+1)
 }
 
 fn setElement«T»(src: []T, pos: int, val: T) []T {
-- 
2.43.0


From 0777df1454829ac1e25b0c8e15c71014d1765d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:14 +0000
Subject: [PATCH 24/35] fix: a byte buffer with no capacity can grow

---
 install/lib/strings.clara | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/install/lib/strings.clara b/install/lib/strings.clara
index dee5118..aaccdb8 100644
--- a/install/lib/strings.clara
+++ b/install/lib/strings.clara
@@ -116,7 +116,7 @@ fn append(buf: byteBuffer, b: int) {
 // ---------------------------------------------------------------------------------------------------------------------
 // TODO: Should be "private"
 fn grow(buf: byteBuffer, requiredSize: int) {
-    newSize := buf.data.length() * 2
+    newSize := (buf.data.length() + 1) * 2
     while newSize < requiredSize {
         newSize = newSize * 2
     }
-- 
2.43.0


From c366b6db00484a33599c9f867cd97e0c75e44adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:42 +0000
Subject: [PATCH 25/35] fix: peephole keeps the order of instructions and data
 and a register which forms an address

---
 peep.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/peep.go b/peep.go
index 2ef42c9..12e003d 100644
--- a/peep.go
+++ b/peep.go
@@ -14,7 +14,7 @@ func NewOptimiser(w asmWriter) asmWriter {
 func (p *peep) ins(i inst, ops ...operand) {
 
 	// Remove unnecessary "intermediate" register for mov, ensuring we don't attempt mem -> mem
-	if p.i == movq && i == movq && regMatches(p.ops[1], ops[0]) && !(mem(p.ops[0]) && mem(ops[1])) {
+	if p.i == movq && i == movq && regMatches(p.ops[1], ops[0]) && !(mem(p.ops[0]) && mem(ops[1])) && !uses(ops[1], p.ops[1]) {
 		p.ops = []operand { p.ops[0], ops[1] }
 		return
 	}
@@ -46,6 +46,12 @@ func regMatches(o1, o2 operand) bool {
 	return ok1 && ok2 && r1 == r2
 }
 
+// Is register used to form the address of operand?
+func uses(o operand, r operand) bool {
+	m, ok := o.(memOp)
+	return ok && (regMatches(m.base, r) || regMatches(m.idx, r))
+}
+
 func mem(o operand) bool {
 	_, ok := o.(memOp)
 	return ok
@@ -62,5 +68,5 @@ func (p *peep) fnStart(name string)                      { p.write(); p.w.fnStar
 func (p *peep) fnEnd()                                   { p.write() }
 func (p *peep) roSymbol(name string, f func(w asmWriter)) operand { p.write(); return p.w.roSymbol(name, f) }
 func (p *peep) gcMap(name string, offsets []int) labelOp { p.write(); return p.w.gcMap(name, offsets) }
-func (p *peep) flush()                                   { p.w.flush() }
-func (p *peep) taggedInt(i int)                          { p.w.taggedInt(i) }
\ No newline at end of file
+func (p *peep) flush()                                   { p.write(); p.w.flush() }
+func (p *peep) taggedInt(i int)                          { p.write(); p.w.taggedInt(i) }
\ No newline at end of file
-- 
2.43.0


From f160e139cf6c68734d83adb1e8ffe6526ae1da2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:04 +0000
Subject: [PATCH 26/35] fix: index out of bounds panic reports the whole 63-bit
 index and length

---
 install/lib/runtime.clara | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/install/lib/runtime.clara b/install/lib/runtime.clara
index e8f2dc3..0a71016 100644
--- a/install/lib/runtime.clara
+++ b/install/lib/runtime.clara
@@ -95,7 +95,7 @@ fn assert(condition: bool, msg: string) {
 // Invoked by an ASM trampoline (See codegen.go) for invalid array access
 fn indexOutOfBounds(index: int, length: int) {
     printf("\n// -----------------------------------------------------------------------------\n")
-    printf("// Panic: index out of bounds! index = %d, array.length = %d\n", index, length)
+    printf("// Panic: index out of bounds! index = %lli, array.length = %lli\n", index, length)
     printf("// -----------------------------------------------------------------------------\n")
     printf("\nBacktrace:\nTODO!\n\n")
     // TODO: Output stacktrace
-- 
2.43.0


From 61e785f598b9f05671b49e9f37c33042da6bd217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:36 +0000
Subject: [PATCH 27/35] fix: unary minus binds tighter than multiplication and
 division

---
 parse.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parse.go b/parse.go
index 92ce9cd..11fa2da 100644
--- a/parse.go
+++ b/parse.go
@@ -340,7 +340,11 @@ func parseGroup(p *Parser, _ *lex.Token) *Node {
 }
 
 func parsePrefixOperator(p *Parser, token *lex.Token) *Node {
-	return &Node{op: prefixKindToOp[token.Kind], token: token, left: p.parseExpr(token.Kind.Precedence())}
+	precedence := token.Kind.Precedence()
+	if token.Kind == lex.Min {
+		precedence = lex.Kind(lex.Neg).Precedence() // Unary minus
+	}
+	return &Node{op: prefixKindToOp[token.Kind], token: token, left: p.parseExpr(precedence)}
 }
 
 func parseType(p *Parser, _ *lex.Token) *Node {
-- 
2.43.0


From b6e33d57e2797adcf43a565b7a5cd0eaee1960fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:41 +0000
Subject: [PATCH 28/35] fix: bitwise not may start an expression in a return or
 statement

---
 lex/lex.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lex/lex.go b/lex/lex.go
index dfefddf..b00d5f0 100644
--- a/lex/lex.go
+++ b/lex/lex.go
@@ -99,7 +99,7 @@ const (
 
 func (k Kind) IsExprStart() bool {
 	switch k {
-	case Integer, String, Identifier, True, False, Not, LParen, Fn, Min, LBrack:
+	case Integer, String, Identifier, True, False, Not, BNot, LParen, Fn, Min, LBrack:
 		return true
 	default:
 		return false
-- 
2.43.0


From e97e95730ef7c1145d7fde677fbc34a50de2f04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:40 +0000
Subject: [PATCH 29/35] fix: a field cannot be selected from a function value

---
 typecheck.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/typecheck.go b/typecheck.go
index 91bf1d6..3c063f8 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -290,8 +290,6 @@ func typeCheck(n *Node, symtab *SymTab, fn *FunctionType, debug bool) (errs []er
 			var strct *StructType
 			if left.typ.Is(Struct) {
 				strct = left.typ.AsStruct()
-			} else if left.typ.IsFunction(Struct) && left.op == opFuncCall {
-				strct = left.typ.AsFunction().ret.AsStruct()
 			} else {
 				errs = append(errs, semanticError(errNotStructMsg, left.token))
 				goto end
-- 
2.43.0


From 94919d951590df5796f1077cdece43583d8a49a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:59 +0000
Subject: [PATCH 30/35] fix: field types of a generic struct do not depend on
 declaration order

---
 symtab.go    | 21 +++++++++++++++++++--
 typecheck.go | 28 ++++++++--------------------
 2 files changed, 27 insertions(+), 22 deletions(-)

diff --git a/symtab.go b/symtab.go
index d1faa2d..1567bae 100644
--- a/symtab.go
+++ b/symtab.go
@@ -284,13 +284,30 @@ type StructType struct {
 	Name   string
 	Fields []*Symbol
 	Types  []*Type
+	decl   *StructType // Declaration this type is an instance of, if any
+}
+
+func (st *StructType) declaration() *StructType {
+	if st.decl != nil {
+		return st.decl
+	}
+	return st
 }
 
 func (st *StructType) GetField(name string) *Symbol {
-	for _, field := range st.Fields {
-		if field.Name == name {
+	decl := st.declaration()
+	for _, field := range decl.Fields {
+		if field.Name != name {
+			continue
+		}
+		if decl == st {
 			return field
 		}
+		bound := make(map[*Type]*Type)
+		for i, t := range st.Types {
+			bound[decl.Types[i]] = t
+		}
+		return &Symbol{Name: field.Name, Addr: field.Addr, Type: substituteType(field.Type, bound)}
 	}
 	return nil // Not found
 }
diff --git a/typecheck.go b/typecheck.go
index 3c063f8..a437958 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -825,24 +825,20 @@ func selectOverloads(args []*Node, selected []*Symbol) {
 }
 
 func substituteType(t *Type, bound map[*Type]*Type) *Type {
-	return substituteTypeImpl(t, bound, make(map[*Type]*Type))
-}
-
-func substituteTypeImpl(t *Type, bound map[*Type]*Type, seen map[*Type]*Type) *Type {
 	if len(bound) == 0 {
 		return t
 	}
 	switch {
 	case t.Is(Array):
-		return &Type{Kind: Array, Data: &ArrayType{Elem: substituteTypeImpl(t.AsArray().Elem, bound, seen)}}
+		return &Type{Kind: Array, Data: &ArrayType{Elem: substituteType(t.AsArray().Elem, bound)}}
 
 	case t.Is(Function):
 		f := t.AsFunction()
 		var params []*Type
 		for _, p := range f.Params {
-			params = append(params, substituteTypeImpl(p, bound, seen))
+			params = append(params, substituteType(p, bound))
 		}
-		returnType := substituteTypeImpl(f.ret, bound, seen)
+		returnType := substituteType(f.ret, bound)
 		// TODO: Should Data be copied too?
 		return &Type{Kind: Function, Data:
 			&FunctionType{Kind: f.Kind, isVariadic: f.isVariadic, ret: returnType, Params: params, Data: f.Data, RawValues: f.RawValues}}
@@ -852,27 +848,19 @@ func substituteTypeImpl(t *Type, bound map[*Type]*Type, seen map[*Type]*Type) *T
 		if len(s.Types) == 0 {
 			return t // Not generic so nothing to substitute. May also be recursive!
 		}
-		if x, ok := seen[t]; ok {
-			return x // Recursive reference
-		}
-		x := &Type{Kind: Struct}
-		seen[t] = x
 		var types []*Type
 		for _, tp := range s.Types {
-			types = append(types, substituteTypeImpl(tp, bound, seen))
-		}
-		var fields []*Symbol
-		for i, f := range s.Fields {
-			fields = append(fields, &Symbol{Name: f.Name, Addr: i * ptrSize, Type: substituteTypeImpl(f.Type, bound, seen)})
+			types = append(types, substituteType(tp, bound))
 		}
-		x.Data = &StructType{Name: s.Name, Fields: fields, Types: types}
-		return x
+		// NOTE: Field types are substituted on selection as the fields of the
+		// declaration may not have been instantiated yet, see: GetField()
+		return &Type{Kind: Struct, Data: &StructType{Name: s.Name, Types: types, decl: s.declaration()}}
 
 	case t.Is(Enum):
 		e := t.AsEnum()
 		var types []*Type
 		for _, tp := range e.Types {
-			types = append(types, substituteTypeImpl(tp, bound, seen))
+			types = append(types, substituteType(tp, bound))
 		}
 		return &Type{Kind: Enum, Data: &EnumType{Name: e.Name, Types: types, Members: e.Members}}
 
-- 
2.43.0


From 2fc05e432839298915a337cd9630fd9279b92f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:05 +0000
Subject: [PATCH 31/35] fix: a function literal as last statement does not
 return from the enclosing function

---
 ast.go | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/ast.go b/ast.go
index adfd49a..7a074cb 100644
--- a/ast.go
+++ b/ast.go
@@ -72,13 +72,7 @@ func (n *Node) isTerminating() bool {
 		return true
 
 	case opCase:
-		if len(n.stmts) == 0 {
-			return false
-		}
-		if !n.stmts[len(n.stmts)-1].isTerminating() {
-			return false
-		}
-		return true
+		return n.isLastStmtTerminating()
 
 	case opMatch:
 		if len(n.stmts) == 0 {
@@ -106,26 +100,29 @@ func (n *Node) isTerminating() bool {
 		}
 		// Check each block terminates
 		for _, n := range x {
-			if len(n.stmts) == 0 {
-				return false
-			}
-			if !n.stmts[len(n.stmts)-1].isTerminating() {
+			if !n.isLastStmtTerminating() {
 				return false
 			}
 		}
 		return true
 
 	case opBlockFnDcl:
-		if len(n.stmts) == 0 {
-			return false
-		}
-		return n.stmts[len(n.stmts)-1].isTerminating()
+		return n.isLastStmtTerminating()
 
 	default:
 		return false
 	}
 }
 
+func (n *Node) isLastStmtTerminating() bool {
+	if len(n.stmts) == 0 {
+		return false
+	}
+	// NOTE: A function as a statement is not called
+	last := n.stmts[len(n.stmts)-1]
+	return !last.isFuncDcl() && last.isTerminating()
+}
+
 func (n *Node) IsReturnLastStmt() bool {
 	if len(n.stmts) == 0 {
 		return false
-- 
2.43.0


From 5e56831a9b0944d412b9fe619caddde5eda9ae55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:52 +0000
Subject: [PATCH 32/35] fix: a range outside a string or byte array panics

---
 install/lib/strings.clara | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/install/lib/strings.clara b/install/lib/strings.clara
index aaccdb8..499fc61 100644
--- a/install/lib/strings.clara
+++ b/install/lib/strings.clara
@@ -93,7 +93,7 @@ fn substring(buf: byteBuffer, pos: int, length: int) string {
     if pos < 0 or length < 0 {
         panic("pos or length cannot be negative")
     }
-    if pos+length > buf.size {
+    if length > buf.size - pos {
         panic("pos+length > buf.size")
     }
     if length == 0 {
@@ -151,6 +151,7 @@ fn copyString(src: string, srcPos: int, dest: bytes, destPos: int) {
 fn toString(b: bytes) string = toString(b, b.length())
 fn toString(b: bytes, length: int) string = toString(b, 0, length)
 fn toString(b: bytes, pos: int, length: int) string {
+    assert(pos >= 0 and length >= 0 and length <= b.toBytesHeader().length - pos, "range is out of range")
     s := Bytes(length + 1) // + 1 for NUL byte
     s.unsafe(0, type(bytesHeader)).length = length // Ugh!
     copyArray(b, pos, s, 0)
-- 
2.43.0


From 714ff9068cfd616c0a63b8341bc8002fcdb33d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:35 +0000
Subject: [PATCH 33/35] fix: the size of a very long array does not overflow

---
 install/lib/arrays.clara | 1 +
 1 file changed, 1 insertion(+)

diff --git a/install/lib/arrays.clara b/install/lib/arrays.clara
index 9bc28a1..dd041ce 100644
--- a/install/lib/arrays.clara
+++ b/install/lib/arrays.clara
@@ -28,6 +28,7 @@ fn arrayNoInit«T»(length: int) []T = array(length, noInit«T»(), "[]T", 7)
 // TODO: Should be private
 fn array«T»(length: int, init: fn([]T), description: string, tag: int) []T {
     assert(length >= 0, "length cannot be negative")
+    assert(length < 1 << 56, "length is too large") // Size in bytes must not overflow
     // TODO: Would be nice to lookup type ID for default & configure array type ID appropriately
     h := claralloc((length * 8) + 8, description, tag).toHeader() // pointer == 8 bytes, + 8 for length
     h.length = length
-- 
2.43.0


From 2453df3e01006cad0cef594648cc198e88fd2822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:54 +0000
Subject: [PATCH 34/35] fix: a struct whose constructor has the name of an enum
 is an error, not a crash

---
 semantic.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/semantic.go b/semantic.go
index e10dd97..f5a6801 100644
--- a/semantic.go
+++ b/semantic.go
@@ -633,7 +633,7 @@ func generateStructConstructor(root *Node, n *Node) (*Symbol, error) {
 
 	// Ensure there are no other function definitions with this name
 	if _, found := root.symtab.Resolve(constructorName); found {
-		var n *Node
+		// NOTE: An enum may have this name too. Report the struct then
 		for _, x := range root.stmts {
 			if x.isFuncDcl() && x.token.Val == constructorName {
 				n = x
-- 
2.43.0


From b91d5afbaba453f45a84bbfce356b9ab62c73c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:17 +0000
Subject: [PATCH 35/35] fix: the constructor of a struct whose name starts with
 a letter outside ASCII

---
 semantic.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/semantic.go b/semantic.go
index f5a6801..6cf58e9 100644
--- a/semantic.go
+++ b/semantic.go
@@ -616,7 +616,7 @@ func generateStructConstructors(errs *[]error, root *Node, n *Node) {
 func generateStructConstructor(root *Node, n *Node) (*Symbol, error) {
 
 	name := n.token.Val
-	firstLetter := name[:1]
+	firstLetter := string([]rune(name)[:1])
 
 	// Check struct begins with lowercase
 	if strings.ToUpper(firstLetter) == firstLetter {
@@ -629,7 +629,7 @@ func generateStructConstructor(root *Node, n *Node) (*Symbol, error) {
 	}
 
 	// Create name
-	constructorName := strings.ToUpper(firstLetter) + name[1:]
+	constructorName := strings.ToUpper(firstLetter) + name[len(firstLetter):]
 
 	// Ensure there are no other function definitions with this name
 	if _, found := root.symtab.Resolve(constructorName); found {
-- 
2.43.0

