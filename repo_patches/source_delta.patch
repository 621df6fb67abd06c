From 15a9665f93fddf0943ea39e9a25b6ce252bff609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:27 +0000
Subject: [PATCH 001/104] fix: abs and odd of a longint built mixed-width IR
 and aborted the compiler

---
 builtin.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/builtin.cpp b/builtin.cpp
index 8ccfdb7..6955ff2 100644
--- a/builtin.cpp
+++ b/builtin.cpp
@@ -587,7 +587,7 @@ namespace Builtin
 	if (IsIntegral(args[0]->Type()))
 	{
 	    llvm::Value* neg = builder.CreateNeg(a, "neg");
-	    llvm::Value* cmp = builder.CreateICmpSGE(a, MakeIntegerConstant(0), "abscond");
+	    llvm::Value* cmp = builder.CreateICmpSGE(a, llvm::ConstantInt::get(a->getType(), 0), "abscond");
 	    llvm::Value* res = builder.CreateSelect(cmp, a, neg, "abs");
 	    return res;
 	}
@@ -597,7 +597,7 @@ namespace Builtin
     llvm::Value* FunctionOdd::CodeGen(llvm::IRBuilder<>& builder)
     {
 	llvm::Value* v = args[0]->CodeGen();
-	v = builder.CreateAnd(v, MakeIntegerConstant(1));
+	v = builder.CreateAnd(v, llvm::ConstantInt::get(v->getType(), 1));
 	return builder.CreateTrunc(v, Types::Get<Types::BoolDecl>()->LlvmType(), "odd");
     }
 
-- 
2.43.0


From b78290dd0d7f0745e228daf386f80aea379c2333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:27 +0000
Subject: [PATCH 002/104] fix: succ and pred with a step failed for types other
 than integer

---
 builtin.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/builtin.cpp b/builtin.cpp
index 6955ff2..0439c9d 100644
--- a/builtin.cpp
+++ b/builtin.cpp
@@ -843,7 +843,8 @@ namespace Builtin
     llvm::Value* FunctionSucc::CodeGen(llvm::IRBuilder<>& builder)
     {
 	llvm::Value* a = args[0]->CodeGen();
-	llvm::Value* b = (args.size() == 2) ? args[1]->CodeGen() : MakeConstant(1, args[0]->Type());
+	llvm::Value* b = (args.size() == 2) ? builder.CreateSExtOrTrunc(args[1]->CodeGen(), a->getType())
+	                                    : MakeConstant(1, args[0]->Type());
 
 	return builder.CreateAdd(a, b, "succ");
     }
@@ -868,7 +869,8 @@ namespace Builtin
     llvm::Value* FunctionPred::CodeGen(llvm::IRBuilder<>& builder)
     {
 	llvm::Value* a = args[0]->CodeGen();
-	llvm::Value* b = (args.size() == 2) ? args[1]->CodeGen() : MakeConstant(1, args[0]->Type());
+	llvm::Value* b = (args.size() == 2) ? builder.CreateSExtOrTrunc(args[1]->CodeGen(), a->getType())
+	                                    : MakeConstant(1, args[0]->Type());
 
 	return builder.CreateSub(a, b, "pred");
     }
-- 
2.43.0


From 0412a498162fe56b9e1eb839866093096107d204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:27 +0000
Subject: [PATCH 003/104] fix: sign of a longint compared against a 32-bit zero

---
 builtin.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/builtin.cpp b/builtin.cpp
index 0439c9d..80d123c 100644
--- a/builtin.cpp
+++ b/builtin.cpp
@@ -1577,11 +1577,12 @@ namespace Builtin
 	}
 	if (IsUnsigned(args[0]->Type()))
 	{
-	    llvm::Value* sel1 = builder.CreateICmpUGT(v, zero, "gt");
+	    llvm::Value* sel1 = builder.CreateICmpUGT(v, llvm::ConstantInt::get(v->getType(), 0), "gt");
 	    return builder.CreateSelect(sel1, one, zero, "sgn1");
 	}
-	llvm::Value* sel1 = builder.CreateICmpSGT(v, zero, "gt");
-	llvm::Value* sel2 = builder.CreateICmpSLT(v, zero, "lt");
+	llvm::Value* vzero = llvm::ConstantInt::get(v->getType(), 0);
+	llvm::Value* sel1 = builder.CreateICmpSGT(v, vzero, "gt");
+	llvm::Value* sel2 = builder.CreateICmpSLT(v, vzero, "lt");
 	llvm::Value* res = builder.CreateSelect(sel1, one, zero, "sgn1");
 	return builder.CreateSelect(sel2, mone, res, "sgn2");
     }
-- 
2.43.0


From 648b0f2b46ef73fd9a8fa4cc0276a2b4eda449dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:48 +0000
Subject: [PATCH 004/104] fix: min and max of two different numeric types used
 the operands unconverted

---
 builtin.cpp | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/builtin.cpp b/builtin.cpp
index 80d123c..34f80e2 100644
--- a/builtin.cpp
+++ b/builtin.cpp
@@ -82,7 +82,7 @@ namespace Builtin
     {
     public:
 	using FunctionBase::FunctionBase;
-	Types::TypeDecl* Type() const override { return args[0]->Type(); }
+	Types::TypeDecl* Type() const override;
 	ErrorType        Semantics() override;
     };
 
@@ -546,9 +546,29 @@ namespace Builtin
 	{
 	    return ErrorType::WrongArgType;
 	}
+	Types::TypeDecl* ty = Type();
+	if (!args[0]->Type()->CompatibleType(args[1]->Type()) || llvm::isa<Types::ComplexDecl>(ty))
+	{
+	    return ErrorType::WrongArgType;
+	}
+	args[0] = Recast(args[0], ty);
+	args[1] = Recast(args[1], ty);
 	return ErrorType::Ok;
     }
 
+    // The common type of both arguments
+    Types::TypeDecl* FunctionSameAsArg2::Type() const
+    {
+	if (args.size() == 2)
+	{
+	    if (auto ty = args[0]->Type()->CompatibleType(args[1]->Type()))
+	    {
+		return const_cast<Types::TypeDecl*>(ty);
+	    }
+	}
+	return args[0]->Type();
+    }
+
     /* Note that abs returnes "real" for complex, otherwise int or real depending on input type */
     Types::TypeDecl* FunctionAbs::Type() const
     {
-- 
2.43.0


From d335e2fd7c7c14e903bc75dbd1d89d4da235ce4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:49 +0000
Subject: [PATCH 005/104] fix: and_then/or_else with control flow in the right
 operand produced an invalid PHI

---
 expr.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index 381318c..6b1b1b1 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -1043,12 +1043,14 @@ static llvm::Value* ShortCtOr(ExprAST* lhs, ExprAST* rhs)
     llvm::Value* r = rhs->CodeGen();
     llvm::Value* condr = builder.CreateICmpNE(r, bfalse, "condr");
 
+    // Generating the right hand side may have added blocks of its own.
+    llvm::BasicBlock* rhsBB = builder.GetInsertBlock();
     builder.CreateBr(mergeBB);
 
     builder.SetInsertPoint(mergeBB);
     llvm::PHINode* phi = builder.CreatePHI(Types::Get<Types::BoolDecl>()->LlvmType(), 2, "phi");
     phi->addIncoming(btrue, originBlock);
-    phi->addIncoming(condr, falseBB);
+    phi->addIncoming(condr, rhsBB);
     return phi;
 }
 
@@ -1067,12 +1069,14 @@ static llvm::Value* ShortCtAnd(ExprAST* lhs, ExprAST* rhs)
     llvm::Value* r = rhs->CodeGen();
     llvm::Value* condr = builder.CreateICmpNE(r, bfalse, "condr");
 
+    // Generating the right hand side may have added blocks of its own.
+    llvm::BasicBlock* rhsBB = builder.GetInsertBlock();
     builder.CreateBr(mergeBB);
 
     builder.SetInsertPoint(mergeBB);
     llvm::PHINode* phi = builder.CreatePHI(Types::Get<Types::BoolDecl>()->LlvmType(), 2, "phi");
     phi->addIncoming(bfalse, originBlock);
-    phi->addIncoming(condr, trueBB);
+    phi->addIncoming(condr, rhsBB);
     return phi;
 }
 
-- 
2.43.0


From 6e6bf7829f48ab80483a7e0794bc04ff12914ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:30 +0000
Subject: [PATCH 006/104] fix: pow with longint operands built mixed-width IR,
 and 1 pow -n gave 0

---
 expr.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index 6b1b1b1..e74f9fb 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -1083,7 +1083,8 @@ static llvm::Value* ShortCtAnd(ExprAST* lhs, ExprAST* rhs)
 // Calculate base ^ exp.
 //    if (e < 0) {
 //	if (b == -1 && (e & 1)) return b;
-//	if (b > 1) return 0;
+//	if (b == -1) return 1;
+//	return b == 1;
 //    }
 //    int res = 1;
 //    while (e > 0) {
@@ -1104,17 +1105,18 @@ static llvm::Value* PowerInt(llvm::Value* base, llvm::Value* exp, Types::TypeDec
     llvm::BasicBlock* moreMergeBB = llvm::BasicBlock::Create(theContext, "moreMerge", theFunction);
     llvm::BasicBlock* doneBB = llvm::BasicBlock::Create(theContext, "powdone", theFunction);
 
-    llvm::Constant* one = MakeIntegerConstant(1);
-    llvm::Constant* zero = MakeIntegerConstant(0);
+    llvm::Constant* one = MakeConstant(1, ty);
+    llvm::Constant* zero = MakeConstant(0, ty);
     llvm::Value*    res = CreateTempAlloca(ty);
     builder.CreateStore(one, res);
-    llvm::Type* intTy = Types::Get<Types::IntegerDecl>()->LlvmType();
+    llvm::Type* intTy = ty->LlvmType();
 
     llvm::Value* expneg = builder.CreateICmpSLT(exp, zero, "expneg");
     builder.CreateCondBr(expneg, expNegBB, loopBB);
     // e < 0 case:
     builder.SetInsertPoint(expNegBB);
-    llvm::Value* bIsMinus1 = builder.CreateICmpEQ(base, MakeIntegerConstant(-1), "isNeg1");
+    llvm::Value* bIsMinus1 = builder.CreateICmpEQ(base, MakeConstant(-1, ty), "isNeg1");
+    llvm::Value* negRes = builder.CreateZExt(builder.CreateICmpEQ(base, one, "is1"), intTy, "negRes");
     builder.CreateCondBr(bIsMinus1, oddEvenBB, doneBB);
 
     builder.SetInsertPoint(oddEvenBB);
@@ -1147,7 +1149,7 @@ static llvm::Value* PowerInt(llvm::Value* base, llvm::Value* exp, Types::TypeDec
     phiMerge->addIncoming(valEven, moreEvenBB);
     phiMerge->addIncoming(valOdd, moreOddBB);
     llvm::PHINode* phiMerge2 = builder.CreatePHI(ty->LlvmType(), 2, "phi");
-    phiMerge2->addIncoming(MakeIntegerConstant(2), moreEvenBB);
+    phiMerge2->addIncoming(MakeConstant(2, ty), moreEvenBB);
     phiMerge2->addIncoming(one, moreOddBB);
     builder.CreateStore(phiMerge, res);
     phiLoop->addIncoming(builder.CreateSub(phiLoop, phiMerge2), moreMergeBB);
@@ -1156,7 +1158,7 @@ static llvm::Value* PowerInt(llvm::Value* base, llvm::Value* exp, Types::TypeDec
     builder.SetInsertPoint(doneBB);
     llvm::PHINode* phi = builder.CreatePHI(ty->LlvmType(), 3, "phi");
     // e < 0, b != -1
-    phi->addIncoming(zero, expNegBB);
+    phi->addIncoming(negRes, expNegBB);
     // e < 0, e is odd, b = -1
     phi->addIncoming(base, oddEvenBB);
     // all other cases.
-- 
2.43.0


From 1d61b66feca69cdd06e6c7063ce78630719775d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:45 +0000
Subject: [PATCH 007/104] fix: subrange operand on the left of a longint or
 real operand was rejected

---
 semantics.cpp | 4 ++--
 types.cpp     | 4 ++++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/semantics.cpp b/semantics.cpp
index 5768110..e84de6d 100644
--- a/semantics.cpp
+++ b/semantics.cpp
@@ -377,12 +377,12 @@ Types::TypeDecl* TypeCheckVisitor::BinaryExprType(BinaryExprAST* b)
 	return rty;
     }
 
-    if (llvm::isa<Types::RangeDecl>(lty) && llvm::isa<IntegerExprAST>(b->rhs))
+    if (llvm::isa<Types::RangeDecl>(lty) && llvm::isa<IntegerExprAST>(b->rhs) && lty->Type() == rty->Type())
     {
 	return lty;
     }
 
-    if (llvm::isa<Types::RangeDecl>(rty) && llvm::isa<IntegerExprAST>(b->lhs))
+    if (llvm::isa<Types::RangeDecl>(rty) && llvm::isa<IntegerExprAST>(b->lhs) && lty->Type() == rty->Type())
     {
 	return rty;
     }
diff --git a/types.cpp b/types.cpp
index 7d3c4c7..e71b12d 100644
--- a/types.cpp
+++ b/types.cpp
@@ -497,6 +497,10 @@ namespace Types
 	{
 	    return ty;
 	}
+	if (IsNumeric(this))
+	{
+	    return baseType->CompatibleType(ty);
+	}
 	return 0;
     }
 
-- 
2.43.0


From dfec63044946b453d3f6654930419d22f6c70927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:07 +0000
Subject: [PATCH 008/104] fix: members of a set constructor were never checked,
 so an array element in one aborted the compiler

---
 expr.cpp | 9 +++++++++
 expr.h   | 1 +
 2 files changed, 10 insertions(+)

diff --git a/expr.cpp b/expr.cpp
index e74f9fb..eee45c9 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -3585,6 +3585,15 @@ void SetExprAST::DoDump() const
     std::cerr << "]";
 }
 
+void SetExprAST::accept(ASTVisitor& v)
+{
+    for (auto i : values)
+    {
+	i->accept(v);
+    }
+    v.visit(this);
+}
+
 llvm::Constant* SetExprAST::MakeConstantSetArray()
 {
     llvm::Type* ty = type->LlvmType();
diff --git a/expr.h b/expr.h
index 7c8fccd..86e0cbc 100644
--- a/expr.h
+++ b/expr.h
@@ -244,6 +244,7 @@ public:
     llvm::Value*    Address() override;
     llvm::Constant* MakeConstantSetArray();
     llvm::Value*    MakeConstantSet();
+    void            accept(ASTVisitor& v) override;
     static bool     classof(const ExprAST* e) { return e->getKind() == EK_SetExpr; }
 
 private:
-- 
2.43.0


From d4ce616bd964b4a34ef1a861ea3b1a23ac9b5e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:56 +0000
Subject: [PATCH 009/104] fix: a set constructor passed as a parameter kept the
 type of all integers and built invalid calls

---
 semantics.cpp | 41 ++++++++++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/semantics.cpp b/semantics.cpp
index e84de6d..fcfcdc8 100644
--- a/semantics.cpp
+++ b/semantics.cpp
@@ -130,6 +130,26 @@ ExprAST* Recast(ExprAST* a, const Types::TypeDecl* ty)
     return a;
 }
 
+// A set constructor gets the parts of its type that it doesn't have from where it is used.
+static void SetTypeFromContext(ExprAST* e, Types::TypeDecl* ty)
+{
+    auto lsty = llvm::dyn_cast<Types::SetDecl>(ty);
+    auto rsty = llvm::dyn_cast<Types::SetDecl>(e->Type());
+    if (lsty && rsty)
+    {
+	ICE_IF(!lsty->GetRange() || !lsty->SubType(), "Expected context type to be well defined.");
+
+	if (!rsty->GetRange())
+	{
+	    rsty->UpdateRange(GetRangeDecl(lsty));
+	}
+	if (!rsty->SubType())
+	{
+	    rsty->UpdateSubtype(lsty->SubType());
+	}
+    }
+}
+
 Types::TypeDecl* TypeCheckVisitor::BinarySetUpdate(BinaryExprAST* b)
 {
     auto lty = llvm::cast<Types::SetDecl>(b->lhs->Type());
@@ -137,14 +157,14 @@ Types::TypeDecl* TypeCheckVisitor::BinarySetUpdate(BinaryExprAST* b)
     ICE_IF(!lty || !rty, "Expect set declarations on both side!");
     if (auto s = llvm::dyn_cast<SetExprAST>(b->lhs))
     {
-	if (s->values.empty() && rty->SubType())
+	if (s->values.empty() && !lty->SubType() && rty->SubType())
 	{
 	    lty->UpdateSubtype(rty->SubType());
 	}
     }
     if (auto s = llvm::dyn_cast<SetExprAST>(b->rhs))
     {
-	if ((s->values.empty() || !rty->SubType()) && lty->SubType())
+	if (!rty->SubType() && lty->SubType())
 	{
 	    rty->UpdateSubtype(lty->SubType());
 	}
@@ -521,21 +541,7 @@ void TypeCheckVisitor::Check<AssignExprAST>(AssignExprAST* a)
 	return;
     }
 
-    auto lsty = llvm::dyn_cast<Types::SetDecl>(lty);
-    auto rsty = llvm::dyn_cast<Types::SetDecl>(rty);
-    if (lsty && rsty)
-    {
-	ICE_IF(!lsty->GetRange() || !lsty->SubType(), "Expected left type to be well defined.");
-
-	if (!rsty->GetRange())
-	{
-	    rsty->UpdateRange(GetRangeDecl(lsty));
-	}
-	if (!rsty->SubType())
-	{
-	    rsty->UpdateSubtype(lsty->SubType());
-	}
-    }
+    SetTypeFromContext(a->rhs, lty);
 
     // Note difference to binary expression: only allowed on rhs!
     if (llvm::isa<Types::PointerDecl>(lty) && llvm::isa<NilExprAST>(a->rhs))
@@ -709,6 +715,7 @@ void TypeCheckVisitor::Check<CallExprAST>(CallExprAST* c)
     {
 	bool bad = true;
 
+	SetTypeFromContext(a, parg[idx].Type());
 	if (const Types::TypeDecl* ty = parg[idx].Type()->AssignableType(a->Type()))
 	{
 	    if (parg[idx].IsRef() && !llvm::isa<AddressableAST, ClosureAST>(a))
-- 
2.43.0


From cca105cfa5a5d14d5337e4b2543514d52d56d145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:33 +0000
Subject: [PATCH 010/104] fix: proper subset of two sets was true for
 incomparable sets

---
 expr.cpp | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index eee45c9..99b8996 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -977,19 +977,25 @@ llvm::Value* BinaryExprAST::SetCodeGen()
 	}
 
 	case Token::GreaterThan:
-	    return builder.CreateNot(CallSetFunc("Contains", Types::Get<Types::BoolDecl>()));
-
 	case Token::LessThan:
 	{
-	    // Swap left<->right sides
-	    ExprAST* tmp = rhs;
-	    rhs = lhs;
-	    lhs = tmp;
-	    llvm::Value* v = builder.CreateNot(CallSetFunc("Contains", Types::Get<Types::BoolDecl>()));
-	    // Set it back
-	    lhs = rhs;
-	    rhs = tmp;
-	    return v;
+	    // Proper subset: contained in the larger set, and not the other way around.
+	    auto type = llvm::dyn_cast<Types::SetDecl>(rhs->Type());
+	    ICE_IF(*type != *lhs->Type(), "Expect both sides to have same type");
+	    llvm::Value* larger = MakeAddressable(rhs);
+	    llvm::Value* smaller = MakeAddressable(lhs);
+	    if (oper.GetToken() == Token::GreaterThan)
+	    {
+		std::swap(larger, smaller);
+	    }
+	    Types::TypeDecl*     resTy = Types::Get<Types::BoolDecl>();
+	    llvm::Value*         setWords = MakeIntegerConstant(type->SetWords());
+	    llvm::Type*          pty = llvm::PointerType::getUnqual(type->LlvmType());
+	    llvm::FunctionCallee f = GetFunction(resTy->LlvmType(), { pty, pty, setWords->getType() },
+	                                         "__SetContains");
+	    llvm::Value*         sub = builder.CreateCall(f, { smaller, larger, setWords }, "subset");
+	    llvm::Value*         super = builder.CreateCall(f, { larger, smaller, setWords }, "superset");
+	    return builder.CreateAnd(sub, builder.CreateNot(super), "propersubset");
 	}
 
 	default:
-- 
2.43.0


From 9b94d5a949780c18ec5834fdce2570ee75a9aed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:12 +0000
Subject: [PATCH 011/104] fix: in looked up values outside the range of the set
 beyond the set's memory

---
 expr.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index 99b8996..cf08ce1 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -919,8 +919,11 @@ llvm::Value* BinaryExprAST::SetCodeGen()
 	Types::TypeDecl* type = rhs->Type();
 	int              start = type->GetRange()->Start();
 	llvm::Type*      intTy = Types::Get<Types::IntegerDecl>()->LlvmType();
-	l = builder.CreateZExt(l, Types::Get<Types::IntegerDecl>()->LlvmType(), "zext.l");
+	l = builder.CreateZExt(l, intTy, "zext.l");
 	l = builder.CreateSub(l, MakeIntegerConstant(start));
+	// A value outside the range of the set is not a member, and must not be looked up.
+	llvm::Value* inRange = builder.CreateICmpULT(l, MakeIntegerConstant(type->GetRange()->Size()), "inrange");
+	l = builder.CreateSelect(inRange, l, MakeIntegerConstant(0));
 	llvm::Value* index;
 	if (llvm::dyn_cast<Types::SetDecl>(type)->SetWords() > 1)
 	{
@@ -935,7 +938,8 @@ llvm::Value* BinaryExprAST::SetCodeGen()
 
 	llvm::Value* bitset = builder.CreateLoad(intTy, bitsetAddr, "bitsetaddr");
 	llvm::Value* bit = builder.CreateLShr(bitset, offset);
-	return builder.CreateTrunc(bit, Types::Get<Types::BoolDecl>()->LlvmType());
+	bit = builder.CreateTrunc(bit, Types::Get<Types::BoolDecl>()->LlvmType());
+	return builder.CreateAnd(inRange, bit, "in");
     }
 
     if (llvm::isa<SetExprAST>(lhs) || (lhs->Type() && llvm::isa<Types::SetDecl>(lhs->Type())))
-- 
2.43.0


From 2edd43745c70f49f28cf4f90a070ab3a0ba2a430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:27 +0000
Subject: [PATCH 012/104] fix: set constructors with empty, negative or
 out-of-range ranges set wrong bits or wrote outside the set

---
 expr.cpp | 126 +++++++++++++++++++++++--------------------------------
 1 file changed, 52 insertions(+), 74 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index cf08ce1..15da466 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -3613,14 +3613,12 @@ llvm::Constant* SetExprAST::MakeConstantSetArray()
     {
 	if (auto r = llvm::dyn_cast<RangeExprAST>(v))
 	{
-	    auto le = llvm::dyn_cast<IntegerExprAST>(r->LowExpr());
-	    auto he = llvm::dyn_cast<IntegerExprAST>(r->HighExpr());
-	    int  start = type->GetRange()->Start();
-	    int  low = le->Int() - start;
-	    int  high = he->Int() - start;
-	    low = std::max(0, low);
-	    high = std::min((int)type->GetRange()->Size(), high);
-	    for (int i = low; i <= high; i++)
+	    auto    le = llvm::dyn_cast<IntegerExprAST>(r->LowExpr());
+	    auto    he = llvm::dyn_cast<IntegerExprAST>(r->HighExpr());
+	    int64_t start = type->GetRange()->Start();
+	    int64_t low = std::max<int64_t>(0, le->Int() - start);
+	    int64_t high = std::min<int64_t>(type->GetRange()->Size() - 1, he->Int() - start);
+	    for (int64_t i = low; i <= high; i++)
 	    {
 		elems[i >> Types::SetDecl::SetPow2Bits] |= (1 << (i & Types::SetDecl::SetMask));
 	    }
@@ -3628,9 +3626,8 @@ llvm::Constant* SetExprAST::MakeConstantSetArray()
 	else
 	{
 	    auto     e = llvm::dyn_cast<IntegerExprAST>(v);
-	    int      start = type->GetRange()->Start();
-	    unsigned i = e->Int() - start;
-	    if (i < (unsigned)type->GetRange()->Size())
+	    uint64_t i = e->Int() - type->GetRange()->Start();
+	    if (i < type->GetRange()->Size())
 	    {
 		elems[i >> Types::SetDecl::SetPow2Bits] |= (1 << (i & Types::SetDecl::SetMask));
 	    }
@@ -3711,92 +3708,73 @@ llvm::Value* SetExprAST::Address()
 
     llvm::Type* intTy = Types::Get<Types::IntegerDecl>()->LlvmType();
 
+    Types::Range* range = type->GetRange();
+    llvm::Value*  rangeStart = MakeIntegerConstant(range->Start());
+    llvm::Value*  rangeSize = MakeIntegerConstant(range->Size());
+    llvm::Value*  zero = MakeIntegerConstant(0);
+
+    auto Member = [&](ExprAST* e) {
+	llvm::Value* x = e->CodeGen();
+	ICE_IF(!x, "Expect codegen to work!");
+	return IsUnsigned(e->Type()) ? builder.CreateZExt(x, intTy, "zext") : builder.CreateSExt(x, intTy, "sext");
+    };
+
+    // Set the bit for "x" in the set, unless it's outside the range of the set.
+    auto Insert = [&](llvm::Value* x) {
+	x = builder.CreateSub(x, rangeStart);
+	llvm::Value* inRange = builder.CreateICmpULT(x, rangeSize, "inrange");
+	x = builder.CreateSelect(inRange, x, zero);
+	llvm::Value* offset = builder.CreateAnd(x, MakeIntegerConstant(Types::SetDecl::SetMask));
+	llvm::Value* bit = builder.CreateShl(builder.CreateZExt(inRange, intTy), offset);
+	llvm::Value* index = zero;
+	if (size != 1)
+	{
+	    index = builder.CreateLShr(x, MakeIntegerConstant(Types::SetDecl::SetPow2Bits));
+	}
+	llvm::Value* bitsetAddr = builder.CreateGEP(intTy, setV, index, "bitsetaddr");
+	llvm::Value* bitset = builder.CreateLoad(intTy, bitsetAddr, "bitset");
+	builder.CreateStore(builder.CreateOr(bitset, bit), bitsetAddr);
+    };
+
     // TODO: For optimisation, we may want to pass through the vector and see if the values
     // are constants, and if so, be clever about it.
     // Also, we should combine stores to the same word!
     for (auto v : values)
     {
-	// If we have a "range", then make a loop.
+	// If we have a "range", then make a loop over the part of it that is in the set's range.
 	if (auto r = llvm::dyn_cast<RangeExprAST>(v))
 	{
-	    llvm::Value* low = r->Low();
-	    llvm::Value* high = r->High();
-	    ICE_IF(!high || !low, "Expected expressions to evalueate");
+	    llvm::Value* low = Member(r->LowExpr());
+	    llvm::Value* high = Member(r->HighExpr());
 
 	    llvm::Function* fn = builder.GetInsertBlock()->getParent();
 
 	    llvm::Value* loopVar = CreateTempAlloca(Types::Get<Types::IntegerDecl>());
 
-	    // Adjust for range:
-	    Types::Range* range = type->GetRange();
-	    low = builder.CreateSExt(low, intTy, "sext.low");
-	    high = builder.CreateSExt(high, intTy, "sext.high");
-
-	    llvm::Value* rangeStart = MakeIntegerConstant(range->Start());
-	    low = builder.CreateSub(low, rangeStart);
-	    high = builder.CreateSub(high, rangeStart);
-
+	    llvm::Value* last = MakeIntegerConstant(range->End());
+	    low = builder.CreateSelect(builder.CreateICmpSLT(low, rangeStart), rangeStart, low, "low");
+	    high = builder.CreateSelect(builder.CreateICmpSGT(high, last), last, high, "high");
 	    builder.CreateStore(low, loopVar);
 
+	    llvm::BasicBlock* condBB = llvm::BasicBlock::Create(theContext, "loopcond", fn);
 	    llvm::BasicBlock* loopBB = llvm::BasicBlock::Create(theContext, "loop", fn);
-	    builder.CreateBr(loopBB);
-	    builder.SetInsertPoint(loopBB);
+	    llvm::BasicBlock* afterBB = llvm::BasicBlock::Create(theContext, "afterloop", fn);
+	    builder.CreateBr(condBB);
 
+	    builder.SetInsertPoint(condBB);
 	    llvm::Value* loop = builder.CreateLoad(intTy, loopVar, "loopVar");
+	    builder.CreateCondBr(builder.CreateICmpSLE(loop, high, "loopcond"), loopBB, afterBB);
 
-	    // Set bit "loop" in set.
-	    llvm::Value* mask = MakeIntegerConstant(Types::SetDecl::SetMask);
-	    llvm::Value* offset = builder.CreateAnd(loop, mask);
-	    llvm::Value* bit = builder.CreateShl(MakeIntegerConstant(1), offset);
-	    llvm::Value* index = 0;
-	    if (size != 1)
-	    {
-		index = builder.CreateLShr(loop, MakeIntegerConstant(Types::SetDecl::SetPow2Bits));
-	    }
-	    else
-	    {
-		index = MakeIntegerConstant(0);
-	    }
-	    llvm::Value* bitsetAddr = builder.CreateGEP(intTy, setV, index, "bitsetaddr");
-	    llvm::Value* bitset = builder.CreateLoad(intTy, bitsetAddr, "bitset");
-	    bitset = builder.CreateOr(bitset, bit);
-	    builder.CreateStore(bitset, bitsetAddr);
-
-	    loop = builder.CreateAdd(loop, MakeIntegerConstant(1), "update");
-	    builder.CreateStore(loop, loopVar);
-
-	    llvm::Value* endCond = builder.CreateICmpSLE(loop, high, "loopcond");
-
-	    llvm::BasicBlock* afterBB = llvm::BasicBlock::Create(theContext, "afterloop", fn);
-	    builder.CreateCondBr(endCond, loopBB, afterBB);
+	    builder.SetInsertPoint(loopBB);
+	    Insert(loop);
+	    builder.CreateStore(builder.CreateAdd(loop, MakeIntegerConstant(1), "update"), loopVar);
+	    builder.CreateBr(condBB);
 
 	    builder.SetInsertPoint(afterBB);
 	}
 	else
 	{
-	    Types::Range* range = type->GetRange();
-	    llvm::Value*  rangeStart = MakeIntegerConstant(range->Start());
-	    llvm::Value*  x = v->CodeGen();
-	    ICE_IF(!x, "Expect codegen to work!");
-	    x = builder.CreateZExt(x, intTy, "zext");
-	    x = builder.CreateSub(x, rangeStart);
-
-	    llvm::Value* mask = MakeIntegerConstant(Types::SetDecl::SetMask);
-	    llvm::Value* offset = builder.CreateAnd(x, mask);
-	    llvm::Value* bit = builder.CreateShl(MakeIntegerConstant(1), offset);
-	    llvm::Value* index = 0;
-	    if (size != 1)
-	    {
-		index = builder.CreateLShr(x, MakeIntegerConstant(Types::SetDecl::SetPow2Bits));
-	    }
-	    else
-	    {
-		index = MakeIntegerConstant(0);
-	    }
-	    llvm::Value* bitsetAddr = builder.CreateGEP(intTy, setV, index, "bitsetaddr");
-	    llvm::Value* bitset = builder.CreateLoad(intTy, bitsetAddr, "bitset");
-	    bitset = builder.CreateOr(bitset, bit);
-	    builder.CreateStore(bitset, bitsetAddr);
+	    Insert(Member(v));
 	}
     }
 
-- 
2.43.0


From c5b4dd9be55860b39629a1182a2d9e93ba14d3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:14 +0000
Subject: [PATCH 013/104] fix: converting between sets of different ranges lost
 members and gave the result the wrong size

---
 expr.cpp      | 56 +++++++++++++++++++++------------------------------
 semantics.cpp |  2 +-
 2 files changed, 24 insertions(+), 34 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index 15da466..5b71962 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -3935,48 +3935,38 @@ static llvm::Value* ConvertSet(ExprAST* expr, Types::TypeDecl* type)
     Types::Range* rrange = rty->GetRange();
     Types::Range* lrange = lty->GetRange();
 
-    llvm::Value* w;
     llvm::Value* src = MakeAddressable(expr);
-    size_t       p = 0;
     llvm::Type*  intTy = Types::Get<Types::IntegerDecl>()->LlvmType();
+    const int    bits = Types::SetDecl::SetBits;
+
+    // Bit 0 of word p of the destination is bit "first" of the source, counting through its words.
+    int64_t first = lrange->Start() - rrange->Start();
+    int64_t words = rty->SetWords();
+    auto    Source = [&](int64_t sp) {
+	llvm::Value* srci = builder.CreateGEP(intTy, src, MakeIntegerConstant(sp), "srci");
+	return builder.CreateLoad(intTy, srci, "w");
+    };
 
-    for (auto i = lrange->Start(); i < lrange->End(); i += Types::SetDecl::SetBits)
+    for (size_t p = 0; p < lty->SetWords(); p++, first += bits)
     {
-	if (i >= (rrange->Start() & ~Types::SetDecl::SetMask) && i < rrange->End())
+	int64_t      sp = (first - (first & (bits - 1))) / bits;
+	int          shift = first & (bits - 1);
+	llvm::Value* w = MakeIntegerConstant(0);
+	if (sp >= 0 && sp < words)
 	{
-	    if (i > rrange->Start())
-	    {
-		size_t       index = i - rrange->Start();
-		size_t       sp = index >> Types::SetDecl::SetPow2Bits;
-		llvm::Value* srci = builder.CreateGEP(intTy, src, MakeIntegerConstant(sp), "srci");
-		w = builder.CreateLoad(intTy, srci, "w");
-		if (size_t shift = (index & Types::SetDecl::SetMask))
-		{
-		    w = builder.CreateLShr(w, shift, "wsh");
-		    if (sp + 1 < rty->SetWords())
-		    {
-			llvm::Value* xp = builder.CreateGEP(intTy, src, MakeIntegerConstant(sp + 1),
-			                                    "srcip1");
-			llvm::Value* x = builder.CreateLoad(intTy, xp, "x");
-			x = builder.CreateShl(x, 32 - shift);
-			w = builder.CreateOr(w, x);
-		    }
-		}
-	    }
-	    else
-	    {
-		llvm::Value* srci = builder.CreateGEP(intTy, src, MakeIntegerConstant(0), "srci");
-		w = builder.CreateLoad(intTy, srci, "w");
-		w = builder.CreateShl(w, rrange->Start() - i, "wsh");
-	    }
+	    w = builder.CreateLShr(Source(sp), shift, "wsh");
 	}
-	else
+	if (shift && sp + 1 >= 0 && sp + 1 < words)
+	{
+	    w = builder.CreateOr(w, builder.CreateShl(Source(sp + 1), bits - shift, "x"));
+	}
+	// Nothing outside the range of the destination in its last word.
+	if (int unused = (p + 1) * bits > lrange->Size() ? (p + 1) * bits - lrange->Size() : 0)
 	{
-	    w = MakeIntegerConstant(0);
+	    w = builder.CreateAnd(w, MakeIntegerConstant(~0u >> unused));
 	}
 	llvm::Value* desti = builder.CreateGEP(intTy, dest, MakeIntegerConstant(p));
 	builder.CreateStore(w, desti);
-	p++;
     }
     return dest;
 }
@@ -4024,7 +4014,7 @@ llvm::Value* TypeCastAST::CodeGen()
     // Sets are compatible anyway...
     if (llvm::isa<Types::SetDecl>(current))
     {
-	return builder.CreateLoad(current->LlvmType(), Address(), "set");
+	return builder.CreateLoad(type->LlvmType(), Address(), "set");
     }
 #if !NDEBUG
     dump();
diff --git a/semantics.cpp b/semantics.cpp
index fcfcdc8..28f5639 100644
--- a/semantics.cpp
+++ b/semantics.cpp
@@ -214,7 +214,7 @@ Types::TypeDecl* TypeCheckVisitor::BinarySetUpdate(BinaryExprAST* b)
 	b->lhs = Recast(b->lhs, set);
 	b->rhs = Recast(b->rhs, set);
     }
-    return rty;
+    return b->rhs->Type();
 }
 
 Types::TypeDecl* TypeCheckVisitor::BinaryExprType(BinaryExprAST* b)
-- 
2.43.0


From 998be18cc1ae7c9bda307cd8296a7d3e441006ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:20 +0000
Subject: [PATCH 014/104] fix: a set of constants outside 0..511 on the right
 of in lost its members

---
 expr.h        |  2 ++
 semantics.cpp | 48 +++++++++++++++++++++++++++++++++++++++++++++++-
 2 files changed, 49 insertions(+), 1 deletion(-)

diff --git a/expr.h b/expr.h
index 86e0cbc..03d6a4d 100644
--- a/expr.h
+++ b/expr.h
@@ -424,6 +424,8 @@ public:
         : ExprAST(w, EK_UnaryExpr, r->Type()), oper(op), rhs(r){};
     void         DoDump() const override;
     llvm::Value* CodeGen() override;
+    Token        Oper() const { return oper; }
+    ExprAST*     Rhs() { return rhs; }
     static bool  classof(const ExprAST* e) { return e->getKind() == EK_UnaryExpr; }
     void         UpdateType(Types::TypeDecl* ty);
     void         accept(ASTVisitor& v) override
diff --git a/semantics.cpp b/semantics.cpp
index 28f5639..9c48618 100644
--- a/semantics.cpp
+++ b/semantics.cpp
@@ -110,6 +110,50 @@ static Types::RangeDecl* GetRangeDecl(Types::TypeDecl* ty)
     return new Types::RangeDecl(r, base);
 }
 
+static bool ConstantValue(ExprAST* e, int64_t& v)
+{
+    if (auto i = llvm::dyn_cast<IntegerExprAST>(e))
+    {
+	v = i->Int();
+	return true;
+    }
+    if (auto u = llvm::dyn_cast<UnaryExprAST>(e))
+    {
+	if (u->Oper().GetToken() == Token::Minus && ConstantValue(u->Rhs(), v))
+	{
+	    v = -v;
+	    return true;
+	}
+    }
+    return false;
+}
+
+// The range from lowest to highest member, if they are all constants and it is small enough for a set.
+static Types::RangeDecl* ConstantMembersRange(const std::vector<ExprAST*>& values, Types::TypeDecl* base)
+{
+    int64_t low = INT64_MAX;
+    int64_t high = INT64_MIN;
+    for (auto v : values)
+    {
+	auto    r = llvm::dyn_cast<RangeExprAST>(v);
+	int64_t l, h;
+	if (!ConstantValue(r ? r->LowExpr() : v, l) || !ConstantValue(r ? r->HighExpr() : v, h))
+	{
+	    return 0;
+	}
+	if (l <= h)
+	{
+	    low = std::min(low, l);
+	    high = std::max(high, h);
+	}
+    }
+    if (low > high || high - low >= Types::SetDecl::MaxSetSize)
+    {
+	return 0;
+    }
+    return new Types::RangeDecl(new Types::Range(low, high), base);
+}
+
 void TypeCheckVisitor::Error(const ExprAST* e, const std::string& msg) const
 {
     std::cerr << e->Loc() << " Error: " << msg << std::endl;
@@ -250,7 +294,9 @@ Types::TypeDecl* TypeCheckVisitor::BinaryExprType(BinaryExprAST* b)
 	    }
 	    if (!sd->GetRange())
 	    {
-		sd->UpdateRange(GetRangeDecl(lty));
+		auto              s = llvm::dyn_cast<SetExprAST>(b->rhs);
+		Types::RangeDecl* r = s ? ConstantMembersRange(s->values, lty) : 0;
+		sd->UpdateRange(r ? r : GetRangeDecl(lty));
 	    }
 	}
 	else
-- 
2.43.0


From c6278550ad5c25bcd73c7e317e190537b62e75b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:57 +0000
Subject: [PATCH 015/104] fix: an assignment was checked before its right-hand
 side, so i := i + r stored a real over the integer and its neighbours

---
 expr.h        |  3 ++-
 semantics.cpp | 29 +++++++++++++++++++++++++++++
 visitor.h     |  2 ++
 3 files changed, 33 insertions(+), 1 deletion(-)

diff --git a/expr.h b/expr.h
index 03d6a4d..cfeea48 100644
--- a/expr.h
+++ b/expr.h
@@ -495,8 +495,9 @@ public:
     void         accept(ASTVisitor& v) override
     {
 	lhs->accept(v);
-	v.visit(this);
+	v.enter(this);
 	rhs->accept(v);
+	v.visit(this);
     }
 
 private:
diff --git a/semantics.cpp b/semantics.cpp
index 9c48618..48121a0 100644
--- a/semantics.cpp
+++ b/semantics.cpp
@@ -10,8 +10,10 @@ class TypeCheckVisitor : public ASTVisitor
 public:
     TypeCheckVisitor(Source& src, Semantics* s) : sema(s), source(src){};
     void visit(ExprAST* expr) override;
+    void enter(ExprAST* expr) override;
 
 private:
+    void             SetConstructorsFromContext(ExprAST* e, Types::TypeDecl* ty);
     Types::TypeDecl* BinarySetUpdate(BinaryExprAST* b);
     Types::TypeDecl* BinaryExprType(BinaryExprAST* b);
     template<typename T>
@@ -194,6 +196,22 @@ static void SetTypeFromContext(ExprAST* e, Types::TypeDecl* ty)
     }
 }
 
+void TypeCheckVisitor::SetConstructorsFromContext(ExprAST* e, Types::TypeDecl* ty)
+{
+    if (llvm::isa<SetExprAST>(e))
+    {
+	SetTypeFromContext(e, ty);
+    }
+    else if (auto b = llvm::dyn_cast<BinaryExprAST>(e))
+    {
+	if (!b->oper.IsCompare() && b->oper.GetToken() != Token::In)
+	{
+	    SetConstructorsFromContext(b->lhs, ty);
+	    SetConstructorsFromContext(b->rhs, ty);
+	}
+    }
+}
+
 Types::TypeDecl* TypeCheckVisitor::BinarySetUpdate(BinaryExprAST* b)
 {
     auto lty = llvm::cast<Types::SetDecl>(b->lhs->Type());
@@ -1144,6 +1162,17 @@ void TypeCheckVisitor::MaybeCheck(ExprAST* e)
     }
 }
 
+void TypeCheckVisitor::enter(ExprAST* expr)
+{
+    if (auto a = llvm::dyn_cast<AssignExprAST>(expr))
+    {
+	if (llvm::isa<Types::SetDecl>(a->lhs->Type()))
+	{
+	    SetConstructorsFromContext(a->rhs, a->lhs->Type());
+	}
+    }
+}
+
 void TypeCheckVisitor::visit(ExprAST* expr)
 {
     TRACE();
diff --git a/visitor.h b/visitor.h
index e2511f9..281bb3e 100644
--- a/visitor.h
+++ b/visitor.h
@@ -6,6 +6,8 @@ class Visitor
 {
 public:
     virtual void visit(T* elem) = 0;
+    // Called by elements whose parts depend on their context, before visiting those parts.
+    virtual void enter(T* elem) {}
     virtual ~Visitor(){};
 };
 
-- 
2.43.0


From 421945cfe9fc749bb6bc5be98de49e632761a6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:04 +0000
Subject: [PATCH 016/104] fix: sets of a subrange type and members of subrange
 type were rejected or mismatched

---
 parser.cpp    | 13 +++++++++++--
 semantics.cpp |  4 ++--
 types.cpp     | 14 ++++++++++++--
 types.h       |  3 +++
 4 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/parser.cpp b/parser.cpp
index a10a0bc..ee08dfb 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -2975,6 +2975,15 @@ public:
 	    if (parser.AcceptToken(Token::DotDot))
 	    {
 		ExprAST* vEnd = parser.ParseExpression();
+		if (!vEnd)
+		{
+		    return false;
+		}
+		if (v->Type()->Type() != vEnd->Type()->Type())
+		{
+		    parser.Error("Range should be same type at both ends");
+		    return false;
+		}
 		v = new RangeExprAST(parser.CurrentToken().Loc(), v, vEnd);
 	    }
 	    values.push_back(v);
@@ -3000,10 +3009,10 @@ ExprAST* Parser::ParseSetExpr(Types::TypeDecl* setType)
 	Types::TypeDecl* type = 0;
 	if (!ccs.Values().empty())
 	{
-	    type = ccs.Values()[0]->Type();
+	    type = Types::HostType(ccs.Values()[0]->Type());
 	    for (auto i = ccs.Values().begin() + 1, e = ccs.Values().end(); i != e; i++)
 	    {
-		if ((*i)->Type() != type)
+		if (Types::HostType((*i)->Type()) != type)
 		{
 		    return Error("Not all elements of set are same type");
 		}
diff --git a/semantics.cpp b/semantics.cpp
index 48121a0..c97d55f 100644
--- a/semantics.cpp
+++ b/semantics.cpp
@@ -306,11 +306,11 @@ Types::TypeDecl* TypeCheckVisitor::BinaryExprType(BinaryExprAST* b)
 	if (auto sd = llvm::dyn_cast<Types::SetDecl>(rty))
 	{
 	    ICE_IF(!sd->SubType(), "Should have a subtype");
-	    if (*lty != *sd->SubType())
+	    if (*Types::HostType(lty) != *sd->SubType())
 	    {
 		Error(b, "Left hand type does not match constituent parts of set");
 	    }
-	    if (!sd->GetRange())
+	    else if (!sd->GetRange())
 	    {
 		auto              s = llvm::dyn_cast<SetExprAST>(b->rhs);
 		Types::RangeDecl* r = s ? ConstantMembersRange(s->values, lty) : 0;
diff --git a/types.cpp b/types.cpp
index e71b12d..4b452d8 100644
--- a/types.cpp
+++ b/types.cpp
@@ -1233,7 +1233,8 @@ namespace Types
 	std::cerr << "Text ";
     }
 
-    SetDecl::SetDecl(TypeKind k, RangeBaseDecl* r, TypeDecl* ty) : CompoundDecl(k, ty), range(r)
+    SetDecl::SetDecl(TypeKind k, RangeBaseDecl* r, TypeDecl* ty)
+        : CompoundDecl(k, ty ? HostType(ty) : ty), range(r)
     {
 	static_assert(sizeof(ElemType) * CHAR_BIT == SetBits && "Set bits mismatch");
 	static_assert(1 << SetPow2Bits == SetBits && "Set pow2 mismatch");
@@ -1281,7 +1282,7 @@ namespace Types
     void SetDecl::UpdateSubtype(TypeDecl* ty)
     {
 	ICE_IF(baseType, "Expected to not have a subtype yet...");
-	baseType = ty;
+	baseType = HostType(ty);
     }
 
     Range* SetDecl::GetRange() const
@@ -1426,6 +1427,15 @@ namespace Types
 	}
     }
 
+    TypeDecl* HostType(TypeDecl* t)
+    {
+	if (auto r = llvm::dyn_cast<RangeDecl>(t))
+	{
+	    return HostType(r->SubType());
+	}
+	return t;
+    }
+
     bool IsCompound(const TypeDecl* t)
     {
 	switch (t->Type())
diff --git a/types.h b/types.h
index 5876fc4..257fa25 100644
--- a/types.h
+++ b/types.h
@@ -45,6 +45,9 @@ namespace Types
     bool IsStringLike(const TypeDecl* t);
     bool IsIntegral(const TypeDecl* t);
     bool IsUnsigned(const TypeDecl* t);
+
+    // The type that a subrange is a range of, for any other type the type itself.
+    TypeDecl* HostType(TypeDecl* t);
     bool IsCompound(const TypeDecl* t);
     bool HasLlvmType(const TypeDecl* t);
 
-- 
2.43.0


From aeddcfa58797f2fb7c06512e5f8db71092857f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:27 +0000
Subject: [PATCH 017/104] fix: for loop bounds were checked against the
 variable in the wrong direction, variables of an enum subrange were rejected

---
 semantics.cpp | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/semantics.cpp b/semantics.cpp
index c97d55f..1a43c81 100644
--- a/semantics.cpp
+++ b/semantics.cpp
@@ -843,21 +843,20 @@ void TypeCheckVisitor::Check<ForExprAST>(ForExprAST* f)
     }
     if (f->end)
     {
-	if (const Types::TypeDecl* ty = f->start->Type()->AssignableType(vty))
+	for (ExprAST** e : { &f->start, &f->end })
 	{
-	    f->start = Recast(f->start, ty);
-	}
-	else
-	{
-	    bad = true;
-	}
-	if (const Types::TypeDecl* ty = f->end->Type()->AssignableType(vty))
-	{
-	    f->end = Recast(f->end, ty);
-	}
-	else
-	{
-	    bad = true;
+	    Types::TypeDecl* ety = Types::HostType((*e)->Type());
+	    if (const Types::TypeDecl* ty = Types::HostType(vty)->AssignableType(ety))
+	    {
+		if (!ty->SameAs(ety))
+		{
+		    *e = Recast(*e, ty);
+		}
+	    }
+	    else
+	    {
+		bad = true;
+	    }
 	}
     }
     // No end = for x in set
-- 
2.43.0


From 929b61845f16a2c2810c5273735029b777dd1a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:27 +0000
Subject: [PATCH 018/104] fix: for-in loops with control flow in the body, over
 a set that the body changes, over [] and with converted elements

---
 expr.cpp      | 24 +++++++++++++++++-------
 semantics.cpp | 10 ++++++++--
 2 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index 5b71962..bce446f 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -2466,7 +2466,9 @@ llvm::Value* GenForInSet(ForExprAST* expr, Types::SetDecl* sd)
     llvm::Constant* rangeStart = MakeIntegerConstant(sd->GetRange()->Start());
     llvm::Constant* words = MakeIntegerConstant(sd->SetWords());
 
-    llvm::Value* setV = MakeAddressable(expr->start);
+    // The set is evaluated once, before the loop: the body may change the variables it was made of.
+    llvm::Value* setV = CreateTempAlloca(sd);
+    builder.CreateStore(expr->start->CodeGen(), setV);
     llvm::Value* one = MakeIntegerConstant(1);
     llvm::Value* zero = MakeIntegerConstant(0);
     llvm::Value* shift = MakeIntegerConstant(Types::SetDecl::SetPow2Bits);
@@ -2502,13 +2504,12 @@ llvm::Value* GenForInSet(ForExprAST* expr, Types::SetDecl* sd)
     llvm::PHINode* idxPhi = builder.CreatePHI(index->getType(), 2, "idxPhi");
     idxPhi->addIncoming(index, beforeBB);
     llvm::Type*  intTy = Types::Get<Types::IntegerDecl>()->LlvmType();
-    llvm::Value* bitsetAddr = builder.CreateGEP(intTy, setV, idxPhi, "valueindex");
-    llvm::Value* bitset = builder.CreateLoad(intTy, bitsetAddr);
-
     llvm::Value* cmp = builder.CreateICmpSLT(idxPhi, words);
     builder.CreateCondBr(cmp, preLoopBB, afterBB);
 
     builder.SetInsertPoint(preLoopBB);
+    llvm::Value* bitsetAddr = builder.CreateGEP(intTy, setV, idxPhi, "valueindex");
+    llvm::Value* bitset = builder.CreateLoad(intTy, bitsetAddr);
     llvm::FunctionCallee cttz = GetFunction(intTy, { intTy, Types::Get<Types::BoolDecl>()->LlvmType() },
                                             "llvm.cttz.i32");
     llvm::Value*         isZero = builder.CreateICmpEQ(bitset, zero);
@@ -2522,14 +2523,14 @@ llvm::Value* GenForInSet(ForExprAST* expr, Types::SetDecl* sd)
 
     llvm::Value* sumVar = builder.CreateAdd(builder.CreateAdd(pos, builder.CreateShl(idxPhi, shift)),
                                             rangeStart);
-    llvm::Value* sumT = builder.CreateTrunc(sumVar, expr->variable->Type()->LlvmType());
+    llvm::Value* sumT = builder.CreateSExtOrTrunc(sumVar, expr->variable->Type()->LlvmType());
     builder.CreateStore(sumT, var);
 
     ICE_IF(!expr->body->CodeGen(), "Failed to generate loop body");
 
     bitset = builder.CreateAnd(phi, builder.CreateNot(builder.CreateShl(one, pos)));
     isZero = builder.CreateICmpEQ(bitset, zero);
-    phi->addIncoming(bitset, loopBB);
+    phi->addIncoming(bitset, builder.GetInsertBlock());
     builder.CreateCondBr(isZero, nextLoopBB, loopBB);
 
     builder.SetInsertPoint(nextLoopBB);
@@ -2585,11 +2586,20 @@ llvm::Value* GenForInArr(ForExprAST* expr, Types::ArrayDecl* ad)
     llvm::Value* calcIndex = builder.CreateSub(idxPhi, rangeStart);
     llvm::Value* dataAddr = builder.CreateGEP(arrElemTy, arrV, calcIndex, "valueindex");
     llvm::Value* val = builder.CreateLoad(arrElemTy, dataAddr);
+    llvm::Type*  varTy = expr->variable->Type()->LlvmType();
+    if (varTy->isDoubleTy() && arrElemTy->isIntegerTy())
+    {
+	val = builder.CreateSIToFP(val, varTy);
+    }
+    else if (varTy != arrElemTy && varTy->isIntegerTy())
+    {
+	val = builder.CreateSExt(val, varTy);
+    }
     builder.CreateStore(val, var);
     ICE_IF(!expr->body->CodeGen(), "Failed to generate loop body");
 
     index = builder.CreateAdd(idxPhi, one);
-    idxPhi->addIncoming(index, loopBB);
+    idxPhi->addIncoming(index, builder.GetInsertBlock());
     builder.CreateBr(preLoopBB);
 
     builder.SetInsertPoint(afterBB);
diff --git a/semantics.cpp b/semantics.cpp
index 1a43c81..19e6165 100644
--- a/semantics.cpp
+++ b/semantics.cpp
@@ -864,7 +864,13 @@ void TypeCheckVisitor::Check<ForExprAST>(ForExprAST* f)
     {
 	if (auto setDecl = llvm::dyn_cast<Types::SetDecl>(f->start->Type()))
 	{
-	    if (!setDecl->SubType()->CompatibleType(vty))
+	    // The empty set takes its type from the variable.
+	    if (!setDecl->SubType() && IsIntegral(vty))
+	    {
+		Types::TypeDecl* ty = llvm::isa<Types::Int64Decl>(vty) ? Types::Get<Types::IntegerDecl>() : vty;
+		SetTypeFromContext(f->start, new Types::SetDecl(GetRangeDecl(ty), ty));
+	    }
+	    if (!setDecl->SubType() || !setDecl->SubType()->CompatibleType(vty))
 	    {
 		Error(f->variable, "Expected variable to be compatible with set");
 	    }
@@ -875,7 +881,7 @@ void TypeCheckVisitor::Check<ForExprAST>(ForExprAST* f)
 	    {
 		Error(f->start, "Expected signle dimension array");
 	    }
-	    if (!arrDecl->SubType()->CompatibleType(vty))
+	    if (!Types::HostType(vty)->AssignableType(Types::HostType(arrDecl->SubType())))
 	    {
 		Error(f->variable, "Expected loop variable to be compatible with array");
 	    }
-- 
2.43.0


From f8cec5b2bf86f8e3cfc4267061d2e71116582313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:12 +0000
Subject: [PATCH 019/104] fix: characters above 127 in the source: '\xff' ended
 the file, others became negative character constants

---
 lexer.cpp  | 2 +-
 source.cpp | 4 ++--
 source.h   | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/lexer.cpp b/lexer.cpp
index 249a9fc..a0ea905 100644
--- a/lexer.cpp
+++ b/lexer.cpp
@@ -228,7 +228,7 @@ Token Lexer::StringToken()
     NextChar();
     if (str.size() == 1)
     {
-	return Token(Token::Char, w, (uint64_t)str[0]);
+	return Token(Token::Char, w, (uint64_t) static_cast<unsigned char>(str[0]));
     }
     return Token(Token::StringLiteral, w, str);
 }
diff --git a/source.cpp b/source.cpp
index 8f057bd..2a8e1b4 100644
--- a/source.cpp
+++ b/source.cpp
@@ -1,9 +1,9 @@
 #include "source.h"
 #include <iostream>
 
-char FileSource::Get()
+int FileSource::Get()
 {
-    char ch = input.get();
+    int ch = input.get();
     if (ch == '\n')
     {
 	lineNo++;
diff --git a/source.h b/source.h
index 46c34c6..0b0fa59 100644
--- a/source.h
+++ b/source.h
@@ -11,7 +11,7 @@ class Source
 {
 public:
     virtual ~Source() {}
-    virtual char Get() = 0;
+    virtual int Get() = 0;
     virtual operator bool() const = 0;
     virtual operator Location() const = 0;
     virtual void PrintSource(uint32_t line) {}
@@ -21,7 +21,7 @@ class FileSource : public Source
 {
 public:
     FileSource(const std::string& name) : name(name), input(name), column(1), lineNo(1) { lineStart[1] = 0; }
-    char Get() override;
+    int  Get() override;
     operator bool() const override { return (bool)input; }
     operator Location() const override { return Location(name, lineNo, column); }
     void PrintSource(uint32_t line) override;
-- 
2.43.0


From d0e177fb31fbd4f44c109c87cdf7e06570ebf73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:06 +0000
Subject: [PATCH 020/104] fix: character constants above 127 became negative

---
 constants.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/constants.h b/constants.h
index 76169a3..e0bf3ed 100644
--- a/constants.h
+++ b/constants.h
@@ -56,7 +56,7 @@ namespace Constants
 
     using IntConstDecl = ConstDeclBase<uint64_t, Types::IntegerDecl, CK_IntConstDecl>;
     using RealConstDecl = ConstDeclBase<double, Types::RealDecl, CK_RealConstDecl>;
-    using CharConstDecl = ConstDeclBase<char, Types::CharDecl, CK_CharConstDecl>;
+    using CharConstDecl = ConstDeclBase<unsigned char, Types::CharDecl, CK_CharConstDecl>;
     using BoolConstDecl = ConstDeclBase<char, Types::BoolDecl, CK_BoolConstDecl>;
 
     class EnumConstDecl : public ConstDecl
-- 
2.43.0


From 1473ac6fd3743fa918d445c50edd7bb089f377e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:56 +0000
Subject: [PATCH 021/104] fix: character literals above 127 in an expression
 were negative where their value is used

---
 expr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expr.h b/expr.h
index cfeea48..cee08d1 100644
--- a/expr.h
+++ b/expr.h
@@ -181,7 +181,7 @@ protected:
 class CharExprAST : public IntegerExprAST
 {
 public:
-    CharExprAST(const Location& w, char v) : IntegerExprAST(w, EK_CharExpr, v, Types::Get<Types::CharDecl>())
+    CharExprAST(const Location& w, unsigned char v) : IntegerExprAST(w, EK_CharExpr, v, Types::Get<Types::CharDecl>())
     {
     }
     void         DoDump() const override;
-- 
2.43.0


From 2e25b15cf6216266c8d03dbabe46f61ffdfac2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:32 +0000
Subject: [PATCH 022/104] fix: case labels: ranges of char, enum or longint,
 beyond 32 bits, up to maxint, overlapping or of another type, otherwise
 generated twice

---
 expr.cpp      | 22 ++++++++--------------
 expr.h        | 12 +++++++-----
 parser.cpp    | 34 +++++++++++++++++++++++++---------
 semantics.cpp | 17 ++++++++++++++---
 4 files changed, 54 insertions(+), 31 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index bce446f..56596dd 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -3485,19 +3485,10 @@ void CaseExprAST::accept(ASTVisitor& v)
     v.visit(this);
 }
 
-static uint64_t Distance(std::pair<int, int> p)
+static uint64_t Distance(const std::pair<int64_t, int64_t>& p)
 {
     ICE_IF(p.first > p.second, "Expect ordered pair");
-    if (p.first > 0)
-    {
-	return p.second - p.first;
-    }
-    if (p.first < 0 && p.second > 0)
-    {
-	return (uint64_t)-p.first + p.second;
-    }
-    // Both are negative.
-    return -p.first - -p.second;
+    return (uint64_t)p.second - (uint64_t)p.first;
 }
 
 llvm::Value* CaseExprAST::CodeGen()
@@ -3537,10 +3528,13 @@ llvm::Value* CaseExprAST::CodeGen()
 	    {
 		llvm::BasicBlock* next = llvm::BasicBlock::Create(theContext, "next", theFunction);
 		llvm::BasicBlock* maybe = llvm::BasicBlock::Create(theContext, "maybe", theFunction);
-		llvm::Value*      lt = builder.CreateICmpSLT(v, MakeIntegerConstant(val.first), "lt");
+		llvm::Constant*   low = llvm::ConstantInt::get(ty, val.first);
+		llvm::Constant*   high = llvm::ConstantInt::get(ty, val.second);
+		bool              isUnsigned = IsUnsigned(Types::HostType(expr->Type()));
+		llvm::Value* lt = isUnsigned ? builder.CreateICmpULT(v, low, "lt") : builder.CreateICmpSLT(v, low, "lt");
 		builder.CreateCondBr(lt, next, maybe);
 		builder.SetInsertPoint(maybe);
-		llvm::Value* gt = builder.CreateICmpSGT(v, MakeIntegerConstant(val.second), "gt");
+		llvm::Value* gt = isUnsigned ? builder.CreateICmpUGT(v, high, "gt") : builder.CreateICmpSGT(v, high, "gt");
 		builder.CreateCondBr(gt, next, ll.second);
 		builder.SetInsertPoint(next);
 	    }
@@ -3555,7 +3549,7 @@ llvm::Value* CaseExprAST::CodeGen()
 	{
 	    if (Distance(val) <= MaxRangeInSwitch)
 	    {
-		for (int i = val.first; i <= val.second; i++)
+		for (int64_t i = val.first; i <= val.second; i++)
 		{
 		    auto intTy = llvm::dyn_cast<llvm::IntegerType>(ty);
 		    sw->addCase(llvm::ConstantInt::get(intTy, i), ll.second);
diff --git a/expr.h b/expr.h
index cee08d1..aa14da1 100644
--- a/expr.h
+++ b/expr.h
@@ -822,7 +822,7 @@ class LabelExprAST : public ExprAST
     friend class TypeCheckVisitor;
 
 public:
-    LabelExprAST(const Location& w, const std::vector<std::pair<int, int>>& lab, ExprAST* st)
+    LabelExprAST(const Location& w, const std::vector<std::pair<int64_t, int64_t>>& lab, ExprAST* st)
         : ExprAST(w, EK_LabelExpr), labelValues(lab), stmt(st)
     {
     }
@@ -831,10 +831,10 @@ public:
     llvm::Value*                            CodeGen(llvm::BasicBlock* caseBB, llvm::BasicBlock* afterBB);
     static bool                             classof(const ExprAST* e) { return e->getKind() == EK_LabelExpr; }
     void                                    accept(ASTVisitor& v) override;
-    const std::vector<std::pair<int, int>>& LabelValues() { return labelValues; }
+    const std::vector<std::pair<int64_t, int64_t>>& LabelValues() { return labelValues; }
 
 private:
-    std::vector<std::pair<int, int>> labelValues;
+    std::vector<std::pair<int64_t, int64_t>> labelValues;
     ExprAST*                         stmt;
 };
 
@@ -843,8 +843,9 @@ class CaseExprAST : public ExprAST
     friend class TypeCheckVisitor;
 
 public:
-    CaseExprAST(const Location& w, ExprAST* e, const std::vector<LabelExprAST*>& lab, ExprAST* other)
-        : ExprAST(w, EK_CaseExpr), expr(e), labels(lab), otherwise(other)
+    CaseExprAST(const Location& w, ExprAST* e, const std::vector<LabelExprAST*>& lab, Types::TypeDecl* labTy,
+                ExprAST* other)
+        : ExprAST(w, EK_CaseExpr), expr(e), labels(lab), labelType(labTy), otherwise(other)
     {
     }
     void         DoDump() const override;
@@ -855,6 +856,7 @@ public:
 private:
     ExprAST*                   expr;
     std::vector<LabelExprAST*> labels;
+    Types::TypeDecl*           labelType;
     ExprAST*                   otherwise;
 };
 
diff --git a/parser.cpp b/parser.cpp
index ee08dfb..62ced94 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -3924,6 +3924,12 @@ ExprAST* Parser::ParseRepeat()
     return 0;
 }
 
+// The labels of a longint selector may be of both integer and longint type.
+static bool SameLabelType(const Types::TypeDecl* a, const Types::TypeDecl* b)
+{
+    return a == b || (IsIntegral(a) && IsIntegral(b) && Types::IsNumeric(a) && Types::IsNumeric(b));
+}
+
 ExprAST* Parser::ParseCaseExpr()
 {
     TRACE();
@@ -3935,7 +3941,7 @@ ExprAST* Parser::ParseCaseExpr()
 	return 0;
     }
     std::vector<LabelExprAST*>       labels;
-    std::vector<std::pair<int, int>> ranges;
+    std::vector<std::pair<int64_t, int64_t>> ranges;
     ExprAST*                         otherwise{ nullptr };
     Types::TypeDecl*                 type{ nullptr };
 
@@ -3952,9 +3958,7 @@ ExprAST* Parser::ParseCaseExpr()
 	    {
 		return Error("Can't have multiple case labels with 'otherwise' or 'else' case label");
 	    }
-	    const Location loc = CurrentToken().Loc();
 	    otherwise = ParseStatement();
-	    labels.push_back(new LabelExprAST(loc, {}, otherwise));
 	    if (!ExpectSemicolonOrEnd())
 	    {
 		return 0;
@@ -3963,10 +3967,18 @@ ExprAST* Parser::ParseCaseExpr()
 	else
 	{
 	    const Constants::ConstDecl* cd = ParseConstExpr({ Token::Comma, Token::Colon, Token::DotDot });
-	    int                         value = Constants::ToInt(cd);
+	    if (!cd)
+	    {
+		return 0;
+	    }
+	    if (!IsIntegral(cd->Type()))
+	    {
+		return Error("Case label should be of integral type");
+	    }
+	    int64_t value = Constants::ToInt(cd);
 	    if (type)
 	    {
-		if (type != cd->Type())
+		if (!SameLabelType(type, cd->Type()))
 		{
 		    return Error("Expected case labels to have same type");
 		}
@@ -3975,16 +3987,20 @@ ExprAST* Parser::ParseCaseExpr()
 	    {
 		type = cd->Type();
 	    }
-	    int end = value;
+	    int64_t end = value;
 	    if (AcceptToken(Token::DotDot))
 	    {
 		cd = ParseConstExpr({ Token::Comma, Token::Colon });
-		if (type != cd->Type())
+		if (!cd)
+		{
+		    return 0;
+		}
+		if (!SameLabelType(type, cd->Type()))
 		{
 		    return Error("Expected case labels to have same type");
 		}
 		end = Constants::ToInt(cd);
-		if (end <= value)
+		if (end < value)
 		{
 		    return Error("Expected case label range to be low..high");
 		}
@@ -4018,7 +4034,7 @@ ExprAST* Parser::ParseCaseExpr()
 	    return Error("Syntax error: Expected ',' or ':' in case-statement.");
 	}
     } while (!AcceptToken(Token::End));
-    return new CaseExprAST(loc, expr, labels, otherwise);
+    return new CaseExprAST(loc, expr, labels, type, otherwise);
 }
 
 void Parser::ExpandWithNames(const Types::FieldCollection* fields, ExprAST* v, int parentCount)
diff --git a/semantics.cpp b/semantics.cpp
index 19e6165..5adcb5f 100644
--- a/semantics.cpp
+++ b/semantics.cpp
@@ -1057,14 +1057,25 @@ void TypeCheckVisitor::Check<CaseExprAST>(CaseExprAST* c)
 	Error(c, "Case selection must be integral type");
     }
 
-    std::vector<std::pair<int, int>> vals;
+    // The labels are integer constants for both integer and longint.
+    auto SameLabelType = [](const Types::TypeDecl* a, const Types::TypeDecl* b)
+    { return *a == *b || (Types::IsNumeric(a) && Types::IsNumeric(b)); };
+    if (c->labelType && !SameLabelType(Types::HostType(c->expr->Type()), c->labelType))
+    {
+	Error(c, "Case labels should be of the same type as the selector");
+    }
+
+    std::vector<std::pair<int64_t, int64_t>> vals;
     for (auto l : c->labels)
     {
 	for (auto i : l->labelValues)
 	{
-	    if (std::find(vals.begin(), vals.end(), i) != vals.end())
+	    for (auto v : vals)
 	    {
-		Error(c, "Duplicate case label " + std::to_string(i.first));
+		if (i.first <= v.second && v.first <= i.second)
+		{
+		    Error(c, "Duplicate case label " + std::to_string(std::max(i.first, v.first)));
+		}
 	    }
 	    vals.push_back(i);
 	}
-- 
2.43.0


From 4d38d73a57d2a09e8effa460500907d45684155a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:19 +0000
Subject: [PATCH 023/104] fix: goto out of a with statement, labels on any
 statement and empty statements before until were rejected

---
 parser.cpp | 46 +++++++++++++++++++++++++++++-----------------
 stack.h    |  6 ++++--
 2 files changed, 33 insertions(+), 19 deletions(-)

diff --git a/parser.cpp b/parser.cpp
index 62ced94..a3a50c2 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -211,6 +211,7 @@ private:
     std::string               moduleName;
     int                       errCnt;
     Stack<const NamedObject*> nameStack;
+    size_t                    withLevels = 0; // name stack levels opened by the with statements we are in
     std::vector<ExprAST*>     ast;
 };
 
@@ -543,7 +544,7 @@ ExprAST* Parser::ParseGoto()
     if (Expect(Token::Integer, ExpectConsume))
     {
 	int n = t.GetIntVal();
-	if (!nameStack.FindTopLevel(std::to_string(n)))
+	if (!nameStack.FindTopLevel(std::to_string(n), withLevels))
 	{
 	    if (!nameStack.Find(std::to_string(n)))
 	    {
@@ -3535,6 +3536,24 @@ PrototypeAST* Parser::ParsePrototype(Parser::NamePolicy nmPolicy)
 ExprAST* Parser::ParseStatement()
 {
     TRACE();
+    if (CurrentToken().GetToken() == Token::Integer && PeekToken() == Token::Colon)
+    {
+	Token token = CurrentToken();
+	AcceptToken(Token::Integer);
+	AcceptToken(Token::Colon);
+	int n = token.GetIntVal();
+	if (!nameStack.FindTopLevel(std::to_string(n), withLevels))
+	{
+	    std::cerr << "Label=" << n << " at " << token.Loc() << std::endl;
+	    return Error("Can't use label in a different scope than the declaration");
+	}
+	ExprAST* label = new LabelExprAST(token.Loc(), { { n, n } }, 0);
+	if (ExprAST* stmt = ParseStatement())
+	{
+	    return new BlockAST(token.Loc(), { label, stmt });
+	}
+	return 0;
+    }
     switch (CurrentToken().GetToken())
     {
     case Token::Begin:
@@ -3545,6 +3564,7 @@ ExprAST* Parser::ParseStatement()
 
     case Token::Semicolon:
     case Token::End:
+    case Token::Until:
 	// Empty block.
 	return new BlockAST(CurrentToken().Loc(), {});
 
@@ -3582,20 +3602,7 @@ BlockAST* Parser::ParseBlock(Location& endLoc)
     {
 	// Superfluous semicolons are discarded here
 	AcceptToken(Token::Semicolon);
-	if (CurrentToken().GetToken() == Token::Integer && PeekToken() == Token::Colon)
-	{
-	    Token token = CurrentToken();
-	    AcceptToken(Token::Integer);
-	    AcceptToken(Token::Colon);
-	    int n = token.GetIntVal();
-	    if (!nameStack.FindTopLevel(std::to_string(n)))
-	    {
-		std::cerr << "Label=" << n << " at " << token.Loc() << std::endl;
-		return Error("Can't use label in a different scope than the declaration");
-	    }
-	    v.push_back(new LabelExprAST(token.Loc(), { { n, n } }, 0));
-	}
-	else if (ExprAST* ast = ParseStatement())
+	if (ExprAST* ast = ParseStatement())
 	{
 	    v.push_back(ast);
 	    if (!ExpectSemicolonOrEnd())
@@ -3909,7 +3916,10 @@ ExprAST* Parser::ParseRepeat()
 	if (ExprAST* stmt = ParseStatement())
 	{
 	    v.push_back(stmt);
-	    AcceptToken(Token::Semicolon);
+	    if (!AcceptToken(Token::Semicolon) && CurrentToken().GetToken() != Token::Until)
+	    {
+		return Error("Expected ';' or 'until'");
+	    }
 	}
 	else
 	{
@@ -4140,12 +4150,14 @@ ExprAST* Parser::ParseWithBlock()
     bool   error = !ParseSeparatedList(*this, ccw);
 
     ExprAST* body = 0;
+    int levels = ccw.Levels();
     if (!error)
     {
+	withLevels += levels;
 	body = ParseStatement();
+	withLevels -= levels;
     }
 
-    int levels = ccw.Levels();
     for (int i = 0; i < levels; i++)
     {
 	nameStack.DropLevel();
diff --git a/stack.h b/stack.h
index 9ca7977..2afa438 100644
--- a/stack.h
+++ b/stack.h
@@ -82,10 +82,12 @@ public:
 	return 0;
     }
 
-    T FindTopLevel(std::string name)
+    // Look in one level only: the top one, or the one that is 'skip' levels below it.
+    T FindTopLevel(std::string name, size_t skip = 0)
     {
 	LowerIfNeeded(name);
-	if (auto it = stack.back().find(name); it != stack.back().end())
+	const MapType& top = stack[stack.size() - 1 - skip];
+	if (auto it = top.find(name); it != top.end())
 	{
 	    return it->second;
 	}
-- 
2.43.0


From 66fed92f9cfd2476c0957852a48fbd8e3277bab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:08 +0000
Subject: [PATCH 024/104] fix: variables of enclosing routines were lost or
 mixed up in indirectly called nested routines

---
 callgraph.cpp | 124 ++++++++++++++++++++++++++++++++------------------
 namedobject.h |   8 +++-
 parser.cpp    |  30 ++++++++----
 types.cpp     |   1 -
 4 files changed, 107 insertions(+), 56 deletions(-)

diff --git a/callgraph.cpp b/callgraph.cpp
index b3dae00..fd06f87 100644
--- a/callgraph.cpp
+++ b/callgraph.cpp
@@ -155,12 +155,21 @@ public:
 	}
 	if (auto c = llvm::dyn_cast<CallExprAST>(a))
 	{
-	    if (auto fe = llvm::dyn_cast<FunctionExprAST>(c->Callee()))
+	    AddCall(c->Callee());
+	    // A function passed as an argument can be called too.
+	    for (auto arg : c->Args())
 	    {
-		if (auto fn = fe->Proto()->Function())
-		{
-		    calls.insert(fn);
-		}
+		AddCall(arg);
+	    }
+	}
+    }
+    void AddCall(const ExprAST* e)
+    {
+	if (auto fe = llvm::dyn_cast<FunctionExprAST>(e))
+	{
+	    if (auto fn = fe->Proto()->Function())
+	    {
+		calls.insert(fn);
 	    }
 	}
     }
@@ -175,6 +184,13 @@ void CallGraphClosureCollector::AddVarDecls(const std::vector<VarDef>& vars, Fun
     {
 	ICE_IF(d.Name().empty(), "Variables should have a name");
 	dm.insert(std::pair<std::string, VarDef>(d.Name(), d));
+	// The bounds of a conformant array are variables too
+	if (auto dty = llvm::dyn_cast<Types::DynArrayDecl>(d.Type()))
+	{
+	    Types::DynRangeDecl* dr = dty->Range();
+	    dm.insert({ dr->LowName(), VarDef(dr->LowName(), dr->SubType()) });
+	    dm.insert({ dr->HighName(), VarDef(dr->HighName(), dr->SubType()) });
+	}
     }
 }
 
@@ -191,20 +207,20 @@ void CallGraphClosureCollector::CollectUseData(FunctionAST* f)
     callMap[f] = collector.calls;
 }
 
-void RemoveFromUses(VarSet& uses, const VarMap& decls)
-{
-    for (auto d : decls)
-    {
-	uses.erase(d.second.Name());
-    }
-}
-
-void AddToUses(VarSet& uses, VarSet& more)
+// Find the variable of an enclosing function that 'name' refers to inside 'func'
+static const VarDef* FindInParents(const FunctionAST* func, const std::string& name,
+                                   std::map<const FunctionAST*, VarMap>& declMap)
 {
-    for (auto v : more)
+    for (const FunctionAST* f = func->Parent(); f; f = f->Parent())
     {
-	uses.insert(v);
+	const VarMap& dm = declMap[f];
+	auto          v = dm.find(name);
+	if (v != dm.end())
+	{
+	    return &v->second;
+	}
     }
+    return 0;
 }
 
 void BuildClosures(ExprAST* ast)
@@ -213,45 +229,63 @@ void BuildClosures(ExprAST* ast)
     CallGraphClosureCollector v;
     CallGraph(ast, v);
 
-    for (auto usage : v.useMap)
+    std::map<const FunctionAST*, std::set<VarDef>> usedMap;
+    for (auto& usage : v.useMap)
     {
-	VarSet       uses = usage.second;
-	FunctionAST* func = const_cast<FunctionAST*>(usage.first);
-
-	// Remove local declarations.
-	RemoveFromUses(uses, v.declMap[func]);
-
-	// Add uses from subfunctions.
-	for (auto sub : func->SubFunctions())
-	{
-	    VarSet use = v.useMap[sub];
-	    RemoveFromUses(use, v.declMap[sub]);
-	    AddToUses(uses, use);
-	}
-
-	for (auto call : v.callMap[func])
+	const FunctionAST* func = usage.first;
+	for (auto use : usage.second)
 	{
-	    VarSet callerUse = v.useMap[call];
-	    RemoveFromUses(callerUse, v.declMap[call]);
-	    AddToUses(uses, callerUse);
+	    const VarMap& own = v.declMap[func];
+	    if (own.find(use) == own.end())
+	    {
+		if (const VarDef* var = FindInParents(func, use, v.declMap))
+		{
+		    usedMap[func].insert(*var);
+		    // The index calculation uses the lower bound, and passing the array on uses both
+		    if (auto dty = llvm::dyn_cast<Types::DynArrayDecl>(var->Type()))
+		    {
+			Types::DynRangeDecl* dr = dty->Range();
+			for (auto bound : { dr->LowName(), dr->HighName() })
+			{
+			    usedMap[func].insert(VarDef(bound, dr->SubType()));
+			}
+		    }
+		}
+	    }
 	}
+    }
 
-	// Now search up the stack until to see if
-	// it's local "above" us.
-	std::set<VarDef> used;
-	for (auto use : uses)
+    // A function also needs what the functions it contains, calls or passes on need from outside of it.
+    bool changed;
+    do
+    {
+	changed = false;
+	for (auto& usage : v.useMap)
 	{
-	    for (const FunctionAST* f = func->Parent(); f; f = f->Parent())
+	    const FunctionAST* func = usage.first;
+	    CallSet            needs = v.callMap[func];
+	    for (auto sub : func->SubFunctions())
 	    {
-		const VarMap& dm = v.declMap[f];
-		auto          v = dm.find(use);
-		if (v != dm.end())
+		needs.insert(sub);
+	    }
+	    std::set<VarDef>& used = usedMap[func];
+	    for (auto other : needs)
+	    {
+		for (auto& var : std::set<VarDef>(usedMap[other]))
 		{
-		    used.insert(v->second);
-		    break;
+		    if (FindInParents(func, var.Name(), v.declMap) && used.insert(var).second)
+		    {
+			changed = true;
+		    }
 		}
 	    }
 	}
+    } while (changed);
+
+    for (auto& usage : v.useMap)
+    {
+	FunctionAST*      func = const_cast<FunctionAST*>(usage.first);
+	std::set<VarDef>& used = usedMap[func];
 
 	func->SetUsedVars(used);
 	if (Types::TypeDecl* closure = func->ClosureType())
diff --git a/namedobject.h b/namedobject.h
index 842e3f5..0118c20 100644
--- a/namedobject.h
+++ b/namedobject.h
@@ -63,11 +63,15 @@ public:
     Flags       GetFlags() const { return flags; }
     ExprAST*    Init() { return init; }
     void        SetInit(ExprAST* i) { init = i; }
+    // The name in the source, when Name() had to be made different from that of a variable it hides.
+    const std::string& SourceName() const { return sourceName.empty() ? Name() : sourceName; }
+    void               SetSourceName(const std::string& nm) { sourceName = nm; }
     static bool classof(const NamedObject* e) { return e->getKind() == NK_Var; }
 
 private:
-    Flags    flags;
-    ExprAST* init;
+    Flags       flags;
+    ExprAST*    init;
+    std::string sourceName;
 };
 
 constexpr VarDef::Flags operator&(const VarDef::Flags a, const VarDef::Flags b)
diff --git a/parser.cpp b/parser.cpp
index a3a50c2..c5fa13e 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -106,6 +106,8 @@ public:
     // Statements, blocks and calls
     ExprAST*      ParseStatement();
     VarDeclAST*   ParseVarDecls();
+    VarDef MakeVarDef(const std::string& name, Types::TypeDecl* type, size_t level,
+                      VarDef::Flags flags = VarDef::Flags::None);
     BlockAST*     ParseBlock(Location& endLoc);
     FunctionAST*  ParseDefinition(int level);
     PrototypeAST* ParsePrototype(NamePolicy nmPolicy);
@@ -3263,6 +3265,20 @@ ExprAST* Parser::ParseInitValue(Types::TypeDecl* ty)
     return 0;
 }
 
+// The variables of enclosing functions are passed to nested functions by name, so a variable that hides one of
+// those needs a name of its own.
+VarDef Parser::MakeVarDef(const std::string& name, Types::TypeDecl* type, size_t level, VarDef::Flags flags)
+{
+    const NamedObject* def = nameStack.Find(name);
+    if (level > 1 && def && llvm::isa<VarDef, FuncDef>(def) && def != nameStack.FindBaseLevel(name))
+    {
+	VarDef v(def->Name() + "." + std::to_string(level), type, flags);
+	v.SetSourceName(name);
+	return v;
+    }
+    return VarDef(name, type, flags);
+}
+
 VarDeclAST* Parser::ParseVarDecls()
 {
     TRACE();
@@ -3279,9 +3295,9 @@ VarDeclAST* Parser::ParseVarDecls()
 	    {
 		for (auto n : ccv.Names())
 		{
-		    VarDef v(n, type);
+		    VarDef v = MakeVarDef(n, type, nameStack.MaxLevel());
 		    varList.push_back(v);
-		    if (!nameStack.Add(new VarDef(v)))
+		    if (!nameStack.Add(n, new VarDef(v)))
 		    {
 			return Error("Name '" + n + "' is already defined");
 		    }
@@ -3434,8 +3450,7 @@ PrototypeAST* Parser::ParsePrototype(Parser::NamePolicy nmPolicy)
 		if (PrototypeAST* proto = ParsePrototype(NamePolicy::Named))
 		{
 		    Types::TypeDecl* type = new Types::FuncPtrDecl(proto);
-		    VarDef           v(proto->Name(), type);
-		    args.push_back(v);
+		    args.push_back(MakeVarDef(proto->Name(), type, nameStack.MaxLevel() + 1));
 		    if (CurrentToken().GetToken() != Token::RightParen &&
 		        !Expect(Token::Semicolon, ExpectConsume))
 		    {
@@ -3471,8 +3486,7 @@ PrototypeAST* Parser::ParsePrototype(Parser::NamePolicy nmPolicy)
 		    {
 			for (auto n : names)
 			{
-			    VarDef v(n, type, flags);
-			    args.push_back(v);
+			    args.push_back(MakeVarDef(n, type, nameStack.MaxLevel() + 1, flags));
 			}
 			flags = VarDef::Flags::None;
 			names.clear();
@@ -3704,9 +3718,9 @@ FunctionAST* Parser::ParseDefinition(int level)
 
     for (auto& v : proto->Args())
     {
-	if (!nameStack.Add(&v))
+	if (!nameStack.Add(v.SourceName(), &v))
 	{
-	    return Error("Duplicate name '" + v.Name() + "'.");
+	    return Error("Duplicate name '" + v.SourceName() + "'.");
 	}
 	if (auto dty = llvm::dyn_cast<Types::DynArrayDecl>(v.Type()))
 	{
diff --git a/types.cpp b/types.cpp
index 4b452d8..1e6f67b 100644
--- a/types.cpp
+++ b/types.cpp
@@ -1467,7 +1467,6 @@ namespace Types
 	    return t->lType;
 
 	case TypeDecl::TK_String:
-	case TypeDecl::TK_FuncPtr:
 	case TypeDecl::TK_File:
 	case TypeDecl::TK_Text:
 	case TypeDecl::TK_Set:
-- 
2.43.0


From 7ca70038a12749f9211d90a67360fd15b590e0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:53 +0000
Subject: [PATCH 025/104] fix: a variant's fields were lost in the padding of
 another variant when the record was a function's result or was otherwise
 copied as a value

---
 types.cpp | 34 ++++++++--------------------------
 1 file changed, 8 insertions(+), 26 deletions(-)

diff --git a/types.cpp b/types.cpp
index 1e6f67b..c706101 100644
--- a/types.cpp
+++ b/types.cpp
@@ -604,11 +604,7 @@ namespace Types
     {
 	const llvm::DataLayout& dl = theModule->getDataLayout();
 	size_t                 maxSize = 0;
-	size_t                 maxSizeElt = 0;
-	size_t                 maxAlign = 0;
-	size_t                 maxAlignElt = 0;
-	size_t                 maxAlignSize = 0;
-	size_t                 elt = 0;
+	llvm::Align            maxAlign;
 	for (auto f : fields)
 	{
 	    llvm::Type* ty = f->LlvmType();
@@ -624,29 +620,15 @@ namespace Types
 		}
 	    }
 	    size_t sz = dl.getTypeAllocSize(ty);
-	    size_t al = dl.getPrefTypeAlign(ty).value();
-	    if (sz > maxSize)
-	    {
-		maxSize = sz;
-		maxSizeElt = elt;
-	    }
-	    if (al > maxAlign || (al == maxAlign && sz > maxAlignSize))
-	    {
-		maxAlign = al;
-		maxAlignSize = sz;
-		maxAlignElt = elt;
-	    }
-	    elt++;
+	    maxSize = std::max(maxSize, sz);
+	    maxAlign = std::max(maxAlign, dl.getABITypeAlign(ty));
 	}
 
-	llvm::Type*              ty = fields[maxAlignElt]->LlvmType();
-	std::vector<llvm::Type*> fv = { ty };
-	if (maxAlignElt != maxSizeElt)
-	{
-	    size_t      nelems = maxSize - maxAlignSize;
-	    llvm::Type* ty = llvm::ArrayType::get(Get<CharDecl>()->LlvmType(), nelems);
-	    fv.push_back(ty);
-	}
+	// Use plain integers, so that no variant's content falls in the padding of another when the
+	// record is copied as a value.
+	llvm::Type*              ty = llvm::IntegerType::get(theContext, maxAlign.value() * 8);
+	size_t                   nelems = llvm::divideCeil(maxSize, maxAlign.value());
+	std::vector<llvm::Type*> fv = { llvm::ArrayType::get(ty, nelems) };
 	return llvm::StructType::create(fv, name);
     }
 
-- 
2.43.0


From ee5fe21b4b81cae38c18de3f3c1059f9944f6b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:44 +0000
Subject: [PATCH 026/104] fix: write accepts subranges of integer as field
 widths

---
 semantics.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/semantics.cpp b/semantics.cpp
index 5adcb5f..3339ae5 100644
--- a/semantics.cpp
+++ b/semantics.cpp
@@ -1019,12 +1019,12 @@ void TypeCheckVisitor::Check<WriteAST>(WriteAST* w)
 		{
 		    Error(e, "Unexpected precision argument when argument-type is not real");
 		}
-		else if (!llvm::isa<Types::IntegerDecl>(arg.precision->Type()))
+		else if (!llvm::isa<Types::IntegerDecl>(Types::HostType(arg.precision->Type())))
 		{
 		    Error(e, "Precision field should be integer.");
 		}
 	    }
-	    if (arg.width && !llvm::isa<Types::IntegerDecl>(arg.width->Type()))
+	    if (arg.width && !llvm::isa<Types::IntegerDecl>(Types::HostType(arg.width->Type())))
 	    {
 		Error(e, "Width field should be an integer");
 	    }
-- 
2.43.0


From 298aeee798b4701302e0c61763deefb9528b3059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:44 +0000
Subject: [PATCH 027/104] fix: writing a value of a subrange of an enumeration
 type

---
 expr.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expr.cpp b/expr.cpp
index 56596dd..aec8b81 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -3077,7 +3077,7 @@ llvm::Value* WriteAST::CodeGen()
 	    {
 		ICE_IF(arg.precision, "Expected no precision for types other than REAL");
 	    }
-	    if (auto* etype = llvm::dyn_cast<Types::EnumDecl>(type))
+	    if (auto* etype = llvm::dyn_cast<Types::EnumDecl>(Types::HostType(type)))
 	    {
 		llvm::Value* e2s = MakeEnumToString(etype);
 		argsV.push_back(e2s);
-- 
2.43.0


From b2d499e15dba0ade41815dcc0dab109cc3c264b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:27 +0000
Subject: [PATCH 028/104] fix: writestr of a real without decimals did not use
 the field width

---
 runtime/write.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/runtime/write.c b/runtime/write.c
index abedf88..a2a0f14 100644
--- a/runtime/write.c
+++ b/runtime/write.c
@@ -58,10 +58,7 @@ void __write_S_real(String* str, double v, int width, int precision)
 	{
 	    width = 13;
 	}
-	if (precision == 0)
-	{
-	    precision = (width > 8) ? width - 7 : 1;
-	}
+	precision = (width > 8) ? width - 7 : 1;
     }
 
     int n = snprintf(buffer, sizeof(buffer), (scientific) ? "% *.*E" : "%*.*f", width, precision, v);
-- 
2.43.0


From bbfee5952540dd928ea308bf51042f56c6992812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:29 +0000
Subject: [PATCH 029/104] fix: writestr of more than 255 characters wrote
 outside the string

---
 runtime/write.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/runtime/write.c b/runtime/write.c
index a2a0f14..2417697 100644
--- a/runtime/write.c
+++ b/runtime/write.c
@@ -17,6 +17,10 @@ void __write_S_init(String* str)
 
 static void SetStrResult(String* str, int n, const char* buffer)
 {
+    if (n > MaxStringLen - str->len)
+    {
+	n = MaxStringLen - str->len;
+    }
     memcpy(&str->str[str->len], buffer, n);
     str->len += n;
 }
-- 
2.43.0


From 591d950fddcfb35ba34c9081394822a52291bd64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:14 +0000
Subject: [PATCH 030/104] fix: writing a char array that is the result of a
 function

---
 expr.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index aec8b81..4a89d25 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -3022,9 +3022,7 @@ llvm::Value* WriteAST::CodeGen()
 		}
 		else
 		{
-		    auto a = llvm::dyn_cast<AddressableAST>(arg.expr);
-		    ICE_IF(!a, "Expected addressable value");
-		    v = a->Address();
+		    v = MakeAddressable(arg.expr);
 		    v = builder.CreateGEP(charTy, v, MakeIntegerConstant(0), "str_addr");
 		}
 		argsV.push_back(v);
-- 
2.43.0


From d37b9dba7dacc4fbe1a108e6319d06ecdff96f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:24 +0000
Subject: [PATCH 031/104] fix: local file variables without assign used
 uninitialised memory

---
 expr.cpp | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/expr.cpp b/expr.cpp
index 4a89d25..9800851 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -3321,6 +3321,25 @@ llvm::Value* VarDeclAST::CodeGenGlobal(VarDef var)
     return v;
 }
 
+static bool HoldsFile(const Types::TypeDecl* ty)
+{
+    if (auto ad = llvm::dyn_cast<Types::ArrayDecl>(ty))
+    {
+	return HoldsFile(ad->SubType());
+    }
+    if (auto rd = llvm::dyn_cast<Types::RecordDecl>(ty))
+    {
+	for (int i = 0; i < rd->FieldCount(); i++)
+	{
+	    if (HoldsFile(rd->GetElement(i)->SubType()))
+	    {
+		return true;
+	    }
+	}
+    }
+    return llvm::isa<Types::FileDecl>(ty);
+}
+
 llvm::Value* VarDeclAST::CodeGenLocal(VarDef var)
 {
     llvm::Value* v = CreateAlloca(func->Proto()->LlvmFunction(), var);
@@ -3337,6 +3356,11 @@ llvm::Value* VarDeclAST::CodeGenLocal(VarDef var)
 	llvm::Value* init = iv->CodeGen();
 	builder.CreateStore(init, v);
     }
+    else if (HoldsFile(var.Type()))
+    {
+	// No file is associated until assign or the first reset or rewrite.
+	builder.CreateStore(llvm::Constant::getNullValue(var.Type()->LlvmType()), v);
+    }
     if (debugInfo)
     {
 	DebugInfo& di = GetDebugInfo();
-- 
2.43.0


From c746cd04bda2fa752e95227c094f77bdf3e52376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:24 +0000
Subject: [PATCH 032/104] fix: assigning a file variable again used up file
 entries

---
 runtime/assign.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/runtime/assign.c b/runtime/assign.c
index d97ce5a..6593e1e 100644
--- a/runtime/assign.c
+++ b/runtime/assign.c
@@ -45,8 +45,23 @@ void SetupFile(File* f, int recSize, int isText)
 void __assign(File* f, char* name)
 {
     int i;
-    for (i = 0; i < MaxPascalFiles && files[i].inUse; i++)
+    /* Use the entry that the variable already has, if any. */
+    for (i = 0; i < MaxPascalFiles && !(files[i].inUse && files[i].fileData == f); i++)
 	;
+    if (i < MaxPascalFiles)
+    {
+	if (files[i].file)
+	{
+	    fclose(files[i].file);
+	    files[i].file = NULL;
+	}
+	free(files[i].name);
+    }
+    else
+    {
+	for (i = 0; i < MaxPascalFiles && files[i].inUse; i++)
+	    ;
+    }
     if (i == MaxPascalFiles)
     {
 	fprintf(stderr, "No free files... Exiting\n");
-- 
2.43.0


From 5a41c4baba53b8e09ace478acf6c61dd3cb47b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:24 +0000
Subject: [PATCH 033/104] fix: files without assign all used the same file name

---
 runtime/assign.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/runtime/assign.c b/runtime/assign.c
index 6593e1e..97754d6 100644
--- a/runtime/assign.c
+++ b/runtime/assign.c
@@ -84,12 +84,12 @@ void __assign_unnamed(File* f)
     char       name[] = "lacsap_tmp_file_NNNNNN";
     static int n = 0;
     n++;
-    n %= MaxPascalFiles;
+    int    num = n;
     size_t pos = strlen(name) - 1;
     for (int i = 0; i < 6; i++)
     {
-	name[pos] = '0' + (n % 10);
-	n /= 10;
+	name[pos] = '0' + (num % 10);
+	num /= 10;
 	pos--;
     }
     __assign(f, name);
-- 
2.43.0


From e9b4755e54228b6fce9619ace04045ea47bf2e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:32 +0000
Subject: [PATCH 034/104] fix: assign with a string variable or expression as
 the file name crashed

---
 builtin.cpp      | 13 ++++++++-----
 runtime/assign.c | 12 ++++++++++++
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/builtin.cpp b/builtin.cpp
index 34f80e2..cc3adaa 100644
--- a/builtin.cpp
+++ b/builtin.cpp
@@ -1253,11 +1253,14 @@ namespace Builtin
 	auto         fvar = llvm::dyn_cast<AddressableAST>(args[0]);
 	llvm::Value* faddr = fvar->Address();
 
-	llvm::Value*             filename = args[1]->CodeGen();
-	llvm::Type*              ty = filename->getType();
-	std::vector<llvm::Type*> argTypes = { faddr->getType(), ty };
-
-	llvm::FunctionCallee f = GetFunction(Types::Get<Types::VoidDecl>()->LlvmType(), argTypes, "__assign");
+	// A literal is zero-terminated, anything else is passed as a string.
+	bool                     literal = llvm::isa<StringExprAST>(args[1]);
+	llvm::Value*             filename = literal ? args[1]->CodeGen()
+	                                            : MakeStringFromExpr(args[1], Types::Get<Types::StringDecl>(255));
+	std::vector<llvm::Type*> argTypes = { faddr->getType(), filename->getType() };
+
+	llvm::FunctionCallee f = GetFunction(Types::Get<Types::VoidDecl>()->LlvmType(), argTypes,
+	                                     literal ? "__assign" : "__assign_str");
 
 	return builder.CreateCall(f, { faddr, filename });
     }
diff --git a/runtime/assign.c b/runtime/assign.c
index 97754d6..db992a6 100644
--- a/runtime/assign.c
+++ b/runtime/assign.c
@@ -94,3 +94,15 @@ void __assign_unnamed(File* f)
     }
     __assign(f, name);
 }
+
+/*******************************************
+ * File assign where the name is a string
+ *******************************************
+ */
+void __assign_str(File* f, String* name)
+{
+    char buffer[MaxStringLen + 1];
+    memcpy(buffer, name->str, name->len);
+    buffer[name->len] = 0;
+    __assign(f, buffer);
+}
-- 
2.43.0


From bebb9310e0a344388781a2be3d64fcc908d40eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:53 +0000
Subject: [PATCH 035/104] fix: character 255 in a text was taken as the end of
 the file

---
 runtime/read.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/runtime/read.c b/runtime/read.c
index 1853b4a..1c26096 100644
--- a/runtime/read.c
+++ b/runtime/read.c
@@ -19,7 +19,7 @@ static int read_chunk_text(struct FileEntry* f)
 	if (f->readPos != f->bufferSize)
 	{
 	    f->readAhead = 1;
-	    return f->fileData->buffer[f->readPos++];
+	    return (unsigned char)f->fileData->buffer[f->readPos++];
 	}
 
 	int n;
@@ -30,7 +30,7 @@ static int read_chunk_text(struct FileEntry* f)
 		f->bufferSize = n;
 		f->readAhead = 1;
 		f->readPos = 1;
-		return *file->buffer;
+		return (unsigned char)*file->buffer;
 	    }
 	}
     }
@@ -100,7 +100,7 @@ struct interface
 
 static int file_current(struct interface* intf)
 {
-    return *intf->file->buffer;
+    return (unsigned char)*intf->file->buffer;
 }
 
 static int file_get_text(struct interface* intf)
-- 
2.43.0


From 554cddc04f66e9994e33ab6cff45b1ea8fae931c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:53 +0000
Subject: [PATCH 036/104] fix: readstr read what remained in the variable past
 the end of the string

---
 runtime/read.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/runtime/read.c b/runtime/read.c
index 1c26096..3014b64 100644
--- a/runtime/read.c
+++ b/runtime/read.c
@@ -138,17 +138,16 @@ static void initFile(File* file, struct interface* intf)
 
 static int str_current(struct interface* intf)
 {
-    return intf->str->str[intf->strpos];
+    return intf->strpos < intf->str->len ? intf->str->str[intf->strpos] : EOF;
 }
 
 static int str_get_text(struct interface* intf)
 {
-    if (intf->strpos == intf->str->len)
+    if (intf->strpos < intf->str->len)
     {
-	return EOF;
+	intf->strpos++;
     }
-    intf->strpos++;
-    return str_current(intf);
+    return intf->strpos < intf->str->len;
 }
 
 static int str_eof(struct interface* intf)
@@ -555,7 +554,7 @@ static void readbool(struct interface* intf, int* b)
     for (;;)
     {
 	ch = intf->fncurrent(intf);
-	if (isspace(ch) || count >= sizeof(str) - 1)
+	if (isspace(ch) || intf->fneof(intf) || count >= sizeof(str) - 1)
 	{
 	    break;
 	}
-- 
2.43.0


From 61c6f7207f4d29f28e9b1ec808520c2cc0c944d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:53 +0000
Subject: [PATCH 037/104] fix: reading a boolean overwrote the bytes after the
 variable

---
 runtime/read.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/runtime/read.c b/runtime/read.c
index 3014b64..6e7a6d1 100644
--- a/runtime/read.c
+++ b/runtime/read.c
@@ -544,7 +544,7 @@ static void upstr(char* s)
     }
 }
 
-static void readbool(struct interface* intf, int* b)
+static void readbool(struct interface* intf, char* b)
 {
     intf->fnpreread(intf);
     skip_spaces(intf);
@@ -576,7 +576,7 @@ static void readbool(struct interface* intf, int* b)
     *b = -1;
 }
 
-void __read_bool(File* file, int* b)
+void __read_bool(File* file, char* b)
 {
     if (file->handle >= MaxPascalFiles)
     {
@@ -588,7 +588,7 @@ void __read_bool(File* file, int* b)
     readbool(&intf, b);
 }
 
-void __read_S_bool(String* str, int* b)
+void __read_S_bool(String* str, char* b)
 {
     struct interface* intf = findInterface(str);
     assert(intf && "Expected to find an interface");
-- 
2.43.0


From 5318c88a03529272cf12d5bef2f60007021af6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:53 +0000
Subject: [PATCH 038/104] fix: reading real numbers gave inexact values

---
 runtime/read.c | 96 +++++++++++++++-----------------------------------
 1 file changed, 29 insertions(+), 67 deletions(-)

diff --git a/runtime/read.c b/runtime/read.c
index 6e7a6d1..94eb9c1 100644
--- a/runtime/read.c
+++ b/runtime/read.c
@@ -255,36 +255,6 @@ static int get_sign(struct interface* intf)
     return 1;
 }
 
-// Turn an exponent into a multiplier value.
-static double exponent_to_multi(int exponent)
-{
-    double m = 1.0;
-    int    oneover = 0;
-    if (exponent < 0)
-    {
-	oneover = 1;
-	exponent = -exponent;
-    }
-    while (exponent > 0)
-    {
-	if (exponent & 1)
-	{
-	    m *= 10.0;
-	    exponent--;
-	}
-	else
-	{
-	    m *= 100.0;
-	    exponent -= 2;
-	}
-    }
-    if (oneover)
-    {
-	return 1.0 / m;
-    }
-    return m;
-}
-
 static void readint64(struct interface* intf, int64_t* v)
 {
     int64_t n = 0;
@@ -369,58 +339,50 @@ void __read_S_chr(String* str, char* v)
     readchar(intf, v);
 }
 
+// Add the current character to what has been read of a number, and move to the next.
+static void add_current(struct interface* intf, char* buffer, size_t size, size_t* count)
+{
+    if (*count < size - 1)
+    {
+	buffer[(*count)++] = intf->fncurrent(intf);
+    }
+    intf->fngetnext(intf);
+}
+
+static void add_digits(struct interface* intf, char* buffer, size_t size, size_t* count)
+{
+    while (!intf->fneof(intf) && isdigit(intf->fncurrent(intf)))
+    {
+	add_current(intf, buffer, size, count);
+    }
+}
+
 static void readreal(struct interface* intf, double* v)
 {
-    double n = 0;
-    double divisor = 1.0;
-    double multiplicand = 1.0;
-    int    exponent = 0;
+    char   buffer[1024];
+    size_t count = 0;
 
     intf->fnpreread(intf);
     skip_spaces(intf);
     int sign = get_sign(intf);
 
-    while (isdigit(intf->fncurrent(intf)))
-    {
-	n *= 10.0;
-	n += (intf->fncurrent(intf)) - '0';
-	if (!intf->fngetnext(intf))
-	{
-	    break;
-	}
-    }
+    add_digits(intf, buffer, sizeof(buffer), &count);
     if (intf->fncurrent(intf) == '.')
     {
-	intf->fngetnext(intf);
-	while (isdigit(intf->fncurrent(intf)))
-	{
-	    n *= 10.0;
-	    n += (intf->fncurrent(intf)) - '0';
-	    divisor *= 10.0;
-	    if (!intf->fngetnext(intf))
-	    {
-		break;
-	    }
-	}
+	add_current(intf, buffer, sizeof(buffer), &count);
+	add_digits(intf, buffer, sizeof(buffer), &count);
     }
     if (intf->fncurrent(intf) == 'e' || intf->fncurrent(intf) == 'E')
     {
-	intf->fngetnext(intf);
-	int expsign = get_sign(intf);
-	while (isdigit(intf->fncurrent(intf)) && !intf->fneoln(intf))
+	add_current(intf, buffer, sizeof(buffer), &count);
+	if (get_sign(intf) < 0 && count < sizeof(buffer) - 1)
 	{
-	    exponent *= 10;
-	    exponent += (intf->fncurrent(intf)) - '0';
-	    if (!intf->fngetnext(intf))
-	    {
-		break;
-	    }
+	    buffer[count++] = '-';
 	}
-	exponent *= expsign;
-	multiplicand = exponent_to_multi(exponent);
+	add_digits(intf, buffer, sizeof(buffer), &count);
     }
-    n = n * sign / divisor * multiplicand;
-    *v = n;
+    buffer[count] = 0;
+    *v = strtod(buffer, NULL) * sign;
 }
 
 void __read_real(File* file, double* v)
-- 
2.43.0


From 88a9f74c206c0b0c2cab5e677a2f10c0102afe26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:44 +0000
Subject: [PATCH 039/104] fix: reading strings and char arrays wrote past the
 end of the variable

---
 expr.cpp       |  8 ++++++++
 runtime/read.c | 28 ++++++++++++++--------------
 2 files changed, 22 insertions(+), 14 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index 9800851..cdc42ab 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -3160,10 +3160,12 @@ static llvm::FunctionCallee CreateReadFunc(Types::TypeDecl* ty, llvm::Type* fty,
     }
     else if (llvm::isa<Types::StringDecl>(ty))
     {
+	argTypes.push_back(Types::Get<Types::IntegerDecl>()->LlvmType());
 	suffix = "str";
     }
     else if (IsCharArray(ty))
     {
+	argTypes.push_back(Types::Get<Types::IntegerDecl>()->LlvmType());
 	suffix = "chars";
     }
     else
@@ -3224,6 +3226,12 @@ llvm::Value* ReadAST::CodeGen()
 	}
 
 	argsV.push_back(v);
+	if (isText && Types::IsStringLike(ty) && llvm::isa<Types::ArrayDecl>(ty))
+	{
+	    // The number of characters there is space for.
+	    auto sd = llvm::dyn_cast<Types::StringDecl>(ty);
+	    argsV.push_back(MakeIntegerConstant(sd ? sd->Capacity() : ty->Size()));
+	}
 
 	ICE_IF(!fn, "Failed to generate function");
 	v = builder.CreateCall(fn, argsV, "");
diff --git a/runtime/read.c b/runtime/read.c
index 94eb9c1..f0b12bc 100644
--- a/runtime/read.c
+++ b/runtime/read.c
@@ -423,14 +423,14 @@ void __read_nl(File* file)
     files[file->handle].readAhead = 0;
 }
 
-static void readstr(struct interface* intf, String* v)
+static void readstr(struct interface* intf, String* v, int size)
 {
-    char   buffer[256];
-    size_t count = 0;
+    char buffer[MaxStringLen];
+    int  count = 0;
 
     intf->fnpreread(intf);
 
-    while (!intf->fneoln(intf) && count < sizeof(buffer))
+    while (!intf->fneoln(intf) && count < size)
     {
 	buffer[count++] = intf->fncurrent(intf);
 	if (!intf->fngetnext(intf))
@@ -442,7 +442,7 @@ static void readstr(struct interface* intf, String* v)
     memcpy(v->str, buffer, count);
 }
 
-void __read_str(File* file, String* v)
+void __read_str(File* file, String* v, int size)
 {
     if (file->handle >= MaxPascalFiles)
     {
@@ -452,21 +452,21 @@ void __read_str(File* file, String* v)
     struct interface intf;
     initFile(file, &intf);
 
-    readstr(&intf, v);
+    readstr(&intf, v, size);
 }
 
-void __read_S_str(String* str, String* v)
+void __read_S_str(String* str, String* v, int size)
 {
     struct interface* intf = findInterface(str);
     assert(intf && "Expected to find an interface");
 
-    readstr(intf, v);
+    readstr(intf, v, size);
 }
 
-static void readchars(struct interface* intf, char* v)
+static void readchars(struct interface* intf, char* v, int size)
 {
     intf->fnpreread(intf);
-    while (intf->fncurrent(intf) != '\n')
+    for (int count = 0; !intf->fneoln(intf) && count < size; count++)
     {
 	*v++ = intf->fncurrent(intf);
 	if (!intf->fngetnext(intf))
@@ -476,7 +476,7 @@ static void readchars(struct interface* intf, char* v)
     }
 }
 
-void __read_chars(File* file, char* v)
+void __read_chars(File* file, char* v, int size)
 {
     if (file->handle >= MaxPascalFiles)
     {
@@ -485,15 +485,15 @@ void __read_chars(File* file, char* v)
     struct interface intf;
     initFile(file, &intf);
 
-    readchars(&intf, v);
+    readchars(&intf, v, size);
 }
 
-void __read_S_chars(String* str, char* v)
+void __read_S_chars(String* str, char* v, int size)
 {
     struct interface* intf = findInterface(str);
     assert(intf && "Expected to find an interface");
 
-    readchars(intf, v);
+    readchars(intf, v, size);
 }
 
 static void upstr(char* s)
-- 
2.43.0


From 79ae96ac4e6fcb8bfcab35f879b07a26a6f6d6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:44 +0000
Subject: [PATCH 040/104] fix: put on a text file wrote 1024 characters

---
 runtime/getput.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/getput.c b/runtime/getput.c
index 2259758..dce3214 100644
--- a/runtime/getput.c
+++ b/runtime/getput.c
@@ -12,7 +12,7 @@ void __put(File* file)
     {
 	f = &files[file->handle];
     }
-    fwrite(file->buffer, file->recordSize, 1, f->file);
+    fwrite(file->buffer, file->isText ? 1 : file->recordSize, 1, f->file);
 }
 
 int __get(File* file)
-- 
2.43.0


From d1eafd28eb0cec6b8d21ec79b843ef22fd3c8cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:03 +0000
Subject: [PATCH 041/104] fix: get on a text file skipped what had been read
 ahead

---
 runtime/fileio.c  |  9 ++++++++-
 runtime/getput.c  | 10 ++++++----
 runtime/read.c    |  3 +--
 runtime/runtime.h |  1 +
 4 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/runtime/fileio.c b/runtime/fileio.c
index db62af3..9f8a015 100644
--- a/runtime/fileio.c
+++ b/runtime/fileio.c
@@ -49,7 +49,14 @@ static void OpenFile(File* f, int recSize, int isText, const char* mode)
 void __reset(File* f, int recSize, int isText)
 {
     OpenFile(f, recSize, isText, "r");
-    __get(f);
+    if (isText)
+    {
+	__get_text(f);
+    }
+    else
+    {
+	__get(f);
+    }
 }
 
 void __rewrite(File* f, int recSize, int isText)
diff --git a/runtime/getput.c b/runtime/getput.c
index dce3214..6588bee 100644
--- a/runtime/getput.c
+++ b/runtime/getput.c
@@ -24,10 +24,12 @@ int __get(File* file)
     }
     if (file->isText)
     {
-	int ch = fgetc(f->file);
-	*file->buffer = ch;
-	f->readAhead = (ch != EOF);
-	return f->readAhead;
+	/* The current character is still to be read after readln. */
+	if (!f->readAhead)
+	{
+	    __get_text(file);
+	}
+	return __get_text(file);
     }
     else
     {
diff --git a/runtime/read.c b/runtime/read.c
index f0b12bc..0cc0a07 100644
--- a/runtime/read.c
+++ b/runtime/read.c
@@ -37,8 +37,7 @@ static int read_chunk_text(struct FileEntry* f)
     return EOF;
 }
 
-/* Make a local function so it can inline */
-static int __get_text(File* file)
+int __get_text(File* file)
 {
     struct FileEntry* f = &files[file->handle];
     int               ch = read_chunk_text(f);
diff --git a/runtime/runtime.h b/runtime/runtime.h
index eea64f8..6477ce1 100644
--- a/runtime/runtime.h
+++ b/runtime/runtime.h
@@ -111,6 +111,7 @@ static inline FILE* getFile(File* f)
 }
 
 int  __get(File* file);
+int  __get_text(File* file);
 void __put(File* file);
 int  __eof(File* file);
 int  __eoln(File* file);
-- 
2.43.0


From 9bed7ac6cb0fb0cdb0a492d1ee441c061aacce20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:03 +0000
Subject: [PATCH 042/104] fix: eof changed the buffer variable of files being
 written

---
 runtime/assign.c  | 1 +
 runtime/fileio.c  | 1 +
 runtime/read.c    | 8 +++-----
 runtime/runtime.h | 1 +
 4 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/runtime/assign.c b/runtime/assign.c
index db992a6..1ceea9a 100644
--- a/runtime/assign.c
+++ b/runtime/assign.c
@@ -21,6 +21,7 @@ void InitFiles()
     SetupFile(&output, 1, 1);
 
     files[input.handle].file = stdin;
+    files[input.handle].reading = 1;
     files[output.handle].file = stdout;
 }
 
diff --git a/runtime/fileio.c b/runtime/fileio.c
index 9f8a015..1d49c72 100644
--- a/runtime/fileio.c
+++ b/runtime/fileio.c
@@ -40,6 +40,7 @@ static void OpenFile(File* f, int recSize, int isText, const char* mode)
 	files[f->handle].file = fopen(files[f->handle].name, mode);
 	if (files[f->handle].file)
 	{
+	    files[f->handle].reading = (*mode == 'r');
 	    return;
 	}
     }
diff --git a/runtime/read.c b/runtime/read.c
index 0cc0a07..a8eb55f 100644
--- a/runtime/read.c
+++ b/runtime/read.c
@@ -56,12 +56,10 @@ int __get_text(File* file)
  */
 int __eof(File* file)
 {
-    if (!files[file->handle].readAhead)
+    /* The components of other files than text are always read in advance. */
+    if (!files[file->handle].readAhead && !(file->isText && files[file->handle].reading && __get_text(file)))
     {
-	if (!__get_text(file))
-	{
-	    return 1;
-	}
+	return 1;
     }
     return 0;
 }
diff --git a/runtime/runtime.h b/runtime/runtime.h
index 6477ce1..c997eb1 100644
--- a/runtime/runtime.h
+++ b/runtime/runtime.h
@@ -33,6 +33,7 @@ struct FileEntry
     char* name;
     int   inUse;
     int   readAhead;
+    int   reading;
     int   readPos;
     int   bufferSize;
 };
-- 
2.43.0


From 70711b28b12db53248cbcbf38a0f47b2efd3f6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:03 +0000
Subject: [PATCH 043/104] fix: the buffer variable of a text file was not set
 after readln, or before anything was read from input

---
 expr.cpp         | 5 +++++
 runtime/getput.c | 9 +++++++++
 2 files changed, 14 insertions(+)

diff --git a/expr.cpp b/expr.cpp
index cdc42ab..d9b6757 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -647,6 +647,11 @@ llvm::Value* FilePointerExprAST::Address()
     ICE_IF(!vptr, "Expected variable expression!");
     llvm::Value* v = vptr->Address();
     llvm::Type*  fileTy = pointer->Type()->LlvmType();
+    if (llvm::isa<Types::TextDecl>(pointer->Type()))
+    {
+	llvm::FunctionCallee f = GetFunction(Types::Get<Types::VoidDecl>()->LlvmType(), { v->getType() }, "__fill");
+	builder.CreateCall(f, { v });
+    }
     llvm::Type*  ptrTy = llvm::PointerType::getUnqual(Type()->LlvmType());
     v = builder.CreateGEP(fileTy, v, { MakeIntegerConstant(0), MakeIntegerConstant(Types::FileDecl::Buffer) },
                           "bufptr");
diff --git a/runtime/getput.c b/runtime/getput.c
index 6588bee..1637fcc 100644
--- a/runtime/getput.c
+++ b/runtime/getput.c
@@ -15,6 +15,15 @@ void __put(File* file)
     fwrite(file->buffer, file->isText ? 1 : file->recordSize, 1, f->file);
 }
 
+/* Make sure the buffer variable of a text file holds the current character, when there is one. */
+void __fill(File* file)
+{
+    if (file->isText && files[file->handle].reading && !files[file->handle].readAhead)
+    {
+	__get_text(file);
+    }
+}
+
 int __get(File* file)
 {
     struct FileEntry* f = 0;
-- 
2.43.0


From 00b0929645a377d610025ef0fe85f86477b29270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:44 +0000
Subject: [PATCH 044/104] fix: read and write of several components of a binary
 file were rejected

---
 semantics.cpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/semantics.cpp b/semantics.cpp
index 3339ae5..bcd92cb 100644
--- a/semantics.cpp
+++ b/semantics.cpp
@@ -945,13 +945,12 @@ void TypeCheckVisitor::Check<ReadAST>(ReadAST* r)
     }
     else
     {
-	if (r->args.size() != 1)
+	if (r->args.empty())
 	{
-	    Error(r, "Read of binary file must have exactly one argument after the file");
+	    Error(r, "Read of binary file must have at least one argument after the file");
 	}
-	else
+	for (auto arg : r->args)
 	{
-	    ExprAST* arg = r->args[0];
 	    if (!llvm::isa<VariableExprAST>(arg))
 	    {
 		Error(arg, "Invalid argument for read - must be a variable-expression");
@@ -1032,13 +1031,17 @@ void TypeCheckVisitor::Check<WriteAST>(WriteAST* w)
     }
     else
     {
-	if (w->args.size() != 1 || w->args[0].width || w->args[0].precision)
+	if (w->args.empty())
 	{
-	    Error(w, "Write of binary file must have exactly one argument");
+	    Error(w, "Write of binary file must have at least one argument after the file");
 	}
-	else
+	for (auto& a : w->args)
 	{
-	    ExprAST* arg = w->args[0].expr;
+	    if (a.width || a.precision)
+	    {
+		Error(w, "Write of binary file can not have a width");
+	    }
+	    ExprAST* arg = a.expr;
 	    auto     fd = llvm::dyn_cast<Types::FileDecl>(w->dest->Type());
 	    if (!fd || !fd->SubType()->AssignableType(arg->Type()))
 	    {
-- 
2.43.0


From f957a2e9580549183f4f0812ce0e9259bf877ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:34 +0000
Subject: [PATCH 045/104] fix: read and write of binary files did not convert
 between the types of the component and the variable or expression

---
 expr.cpp      | 34 ++++++++++++++++------------------
 semantics.cpp | 23 +++++++++++++++++------
 2 files changed, 33 insertions(+), 24 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index d9b6757..5792d80 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -643,8 +643,8 @@ void FilePointerExprAST::DoDump() const
 llvm::Value* FilePointerExprAST::Address()
 {
     TRACE();
-    auto vptr = llvm::dyn_cast<VariableExprAST>(pointer);
-    ICE_IF(!vptr, "Expected variable expression!");
+    auto vptr = llvm::dyn_cast<AddressableAST>(pointer);
+    ICE_IF(!vptr, "Expected addressable expression!");
     llvm::Value* v = vptr->Address();
     llvm::Type*  fileTy = pointer->Type()->LlvmType();
     if (llvm::isa<Types::TextDecl>(pointer->Type()))
@@ -2989,7 +2989,6 @@ llvm::Value* WriteAST::CodeGen()
 
     llvm::Value* dst = dest->Address();
     llvm::Value* v = 0;
-    llvm::Type*  voidPtrTy = Types::GetVoidPtrType();
     bool         isText = kind == WriteKind::WriteStr || llvm::isa<Types::TextDecl>(dest->Type());
     llvm::Type*  dstTy = dst->getType();
     if (kind == WriteKind::WriteStr)
@@ -3088,9 +3087,9 @@ llvm::Value* WriteAST::CodeGen()
 	}
 	else
 	{
-	    v = MakeAddressable(arg.expr);
-	    argsV.push_back(builder.CreateBitCast(v, voidPtrTy));
-	    fn = GetFunction(Types::Get<Types::VoidDecl>()->LlvmType(), { dstTy, voidPtrTy }, "__write_bin");
+	    // Semantic analysis made this an assignment to the buffer variable.
+	    arg.expr->CodeGen();
+	    fn = GetFunction(Types::Get<Types::VoidDecl>()->LlvmType(), { dstTy }, "__put");
 	}
 	v = builder.CreateCall(fn, argsV, "");
     }
@@ -3212,26 +3211,25 @@ llvm::Value* ReadAST::CodeGen()
     for (auto arg : args)
     {
 	std::vector<llvm::Value*> argsV = { sc };
-	auto                      vexpr = llvm::dyn_cast<AddressableAST>(arg);
+	if (!isText)
+	{
+	    // Semantic analysis made this an assignment from the buffer variable.
+	    arg->CodeGen();
+	    llvm::FunctionCallee fn = GetFunction(Types::Get<Types::VoidDecl>()->LlvmType(), { srcTy }, "__get");
+	    v = builder.CreateCall(fn, argsV, "");
+	    continue;
+	}
+	auto vexpr = llvm::dyn_cast<AddressableAST>(arg);
 	ICE_IF(!vexpr, "Argument for read/readln should be a variable");
 
 	Types::TypeDecl* ty = vexpr->Type();
 	v = vexpr->Address();
 	ICE_IF(!v, "Could not evaluate address of expression for read");
 
-	llvm::FunctionCallee fn;
-	if (isText)
-	{
-	    fn = CreateReadFunc(ty, srcTy, kind);
-	}
-	else
-	{
-	    fn = GetFunction(Types::Get<Types::VoidDecl>()->LlvmType(), { srcTy, voidPtrTy }, "__read_bin");
-	    v = builder.CreateBitCast(v, voidPtrTy);
-	}
+	llvm::FunctionCallee fn = CreateReadFunc(ty, srcTy, kind);
 
 	argsV.push_back(v);
-	if (isText && Types::IsStringLike(ty) && llvm::isa<Types::ArrayDecl>(ty))
+	if (Types::IsStringLike(ty) && llvm::isa<Types::ArrayDecl>(ty))
 	{
 	    // The number of characters there is space for.
 	    auto sd = llvm::dyn_cast<Types::StringDecl>(ty);
diff --git a/semantics.cpp b/semantics.cpp
index bcd92cb..1fe267f 100644
--- a/semantics.cpp
+++ b/semantics.cpp
@@ -949,19 +949,23 @@ void TypeCheckVisitor::Check<ReadAST>(ReadAST* r)
 	{
 	    Error(r, "Read of binary file must have at least one argument after the file");
 	}
-	for (auto arg : r->args)
+	for (auto& arg : r->args)
 	{
+	    auto fd = llvm::dyn_cast<Types::FileDecl>(r->src->Type());
 	    if (!llvm::isa<VariableExprAST>(arg))
 	    {
 		Error(arg, "Invalid argument for read - must be a variable-expression");
 	    }
+	    else if (!fd || !arg->Type()->AssignableType(fd->SubType()))
+	    {
+		Error(arg, "Read argument should match elements of the file");
+	    }
 	    else
 	    {
-		auto fd = llvm::dyn_cast<Types::FileDecl>(r->src->Type());
-		if (!fd || !fd->SubType()->AssignableType(arg->Type()))
-		{
-		    Error(arg, "Read argument should match elements of the file");
-		}
+		auto buffer = new FilePointerExprAST(arg->Loc(), r->src, fd->SubType());
+		auto assign = new AssignExprAST(arg->Loc(), arg, buffer);
+		Check<AssignExprAST>(assign);
+		arg = assign;
 	    }
 	}
     }
@@ -1047,6 +1051,13 @@ void TypeCheckVisitor::Check<WriteAST>(WriteAST* w)
 	    {
 		Error(arg, "Write argument should match elements of the file");
 	    }
+	    else
+	    {
+		auto buffer = new FilePointerExprAST(arg->Loc(), w->dest, fd->SubType());
+		auto assign = new AssignExprAST(arg->Loc(), buffer, arg);
+		Check<AssignExprAST>(assign);
+		a.expr = assign;
+	    }
 	}
     }
 }
-- 
2.43.0


From e36749c2bba9017624230c9fd9a549378f50d541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:16 +0000
Subject: [PATCH 046/104] fix: seekread, seekwrite, empty and lastposition
 passed fseek its arguments in the wrong order

---
 runtime/seek.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/runtime/seek.c b/runtime/seek.c
index 6f8cfda..ae7eeb4 100644
--- a/runtime/seek.c
+++ b/runtime/seek.c
@@ -12,7 +12,7 @@ void __seekwrite(File* f, uint64_t n)
 {
     if (files[f->handle].inUse && files[f->handle].file != NULL)
     {
-	fseek(files[f->handle].file, SEEK_SET, n * f->recordSize);
+	fseek(files[f->handle].file, n * f->recordSize, SEEK_SET);
 	return;
     }
     FileError("seekwrite");
@@ -22,7 +22,8 @@ void __seekread(File* f, uint64_t n)
 {
     if (files[f->handle].inUse && files[f->handle].file != NULL)
     {
-	fseek(files[f->handle].file, SEEK_SET, n * f->recordSize);
+	fseek(files[f->handle].file, n * f->recordSize, SEEK_SET);
+	__get(f);
 	return;
     }
     FileError("seekread");
@@ -32,7 +33,7 @@ void __seekupdate(File* f, uint64_t n)
 {
     if (files[f->handle].inUse && files[f->handle].file != NULL)
     {
-	fseek(files[f->handle].file, SEEK_SET, n * f->recordSize);
+	fseek(files[f->handle].file, n * f->recordSize, SEEK_SET);
 	return;
     }
     FileError("seekupdate");
@@ -45,9 +46,9 @@ bool __empty(File* f)
     {
 	FILE* file = files[f->handle].file;
 	long  current = ftell(file);
-	fseek(file, SEEK_END, 0);
+	fseek(file, 0, SEEK_END);
 	long len = ftell(file);
-	fseek(file, SEEK_SET, current);
+	fseek(file, current, SEEK_SET);
 	return (len == 0);
     }
     FileError("empty");
@@ -58,8 +59,9 @@ long __position(File* f)
 {
     if (files[f->handle].inUse && files[f->handle].file != NULL)
     {
+	/* When reading, the current component is already in the buffer. */
 	long current = ftell(files[f->handle].file);
-	return current / f->recordSize;
+	return current / f->recordSize - files[f->handle].readAhead;
     }
     FileError("position");
     return 0;
@@ -71,9 +73,9 @@ long __lastposition(File* f)
     {
 	FILE* file = files[f->handle].file;
 	long  current = ftell(file);
-	fseek(file, SEEK_END, 0);
+	fseek(file, 0, SEEK_END);
 	long len = ftell(file);
-	fseek(file, SEEK_SET, current);
+	fseek(file, current, SEEK_SET);
 	return len / f->recordSize;
     }
     FileError("lastposition");
-- 
2.43.0


From aade46ee6fed3da5298711d9f414566c3245ea27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:31 +0000
Subject: [PATCH 047/104] fix: string temporaries were too small, strings were
 stored beyond the capacity of variables, string expressions passed by value
 were lost, char array comparisons and assignments of different lengths
 aborted the compiler

---
 builtin.cpp      |  2 +-
 expr.cpp         | 73 +++++++++++++++++++++++++++++++++---------------
 runtime/string.c | 14 ++++------
 semantics.cpp    | 27 +++++++++++++++++-
 4 files changed, 82 insertions(+), 34 deletions(-)

diff --git a/builtin.cpp b/builtin.cpp
index cc3adaa..3a052c3 100644
--- a/builtin.cpp
+++ b/builtin.cpp
@@ -1325,7 +1325,7 @@ namespace Builtin
     llvm::Value* FunctionTrim::CodeGen(llvm::IRBuilder<>& builder)
     {
 	llvm::Value* str = MakeStringFromExpr(args[0], args[0]->Type());
-	llvm::Value* res = CreateTempAlloca(args[0]->Type());
+	llvm::Value* res = CreateTempAlloca(Type());
 
 	llvm::Type*          ty = str->getType();
 	llvm::FunctionCallee f = GetFunction(Types::Get<Types::VoidDecl>()->LlvmType(), { ty, ty },
diff --git a/expr.cpp b/expr.cpp
index 5792d80..01d29a3 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -292,16 +292,17 @@ static llvm::Value* FillTempString(llvm::Value* dest, llvm::Value* rhs, size_t s
     return fn(rhs, destChars, size);
 }
 
-static llvm::Value* TempStringFromStringExpr(llvm::Value* dest, StringExprAST* rhs)
+// Copies as much of the literal as a string with the given capacity can hold.
+static llvm::Value* TempStringFromStringExpr(llvm::Value* dest, StringExprAST* rhs, size_t capacity)
 {
     auto func = [](llvm::Value* v, llvm::Value* chars, size_t size)
     {
 	llvm::Align destAlign{ std::max(AlignOfType(chars->getType()), MIN_ALIGN) };
 	llvm::Align srcAlign{ std::max(AlignOfType(v->getType()), MIN_ALIGN) };
-	return builder.CreateMemCpy(chars, destAlign, v, srcAlign, size + 1);
+	return builder.CreateMemCpy(chars, destAlign, v, srcAlign, size);
     };
 
-    return FillTempString(dest, rhs->CodeGen(), rhs->Str().size(), func);
+    return FillTempString(dest, rhs->CodeGen(), std::min(rhs->Str().size(), capacity), func);
 }
 
 static llvm::Value* TempStringFromChar(llvm::Value* dest, ExprAST* rhs)
@@ -313,7 +314,7 @@ static llvm::Value* TempStringFromChar(llvm::Value* dest, ExprAST* rhs)
     return FillTempString(dest, rhs->CodeGen(), 1, func);
 }
 
-static llvm::Value* TempStringFromCharArray(llvm::Value* dest, AddressableAST* rhs, size_t size)
+static llvm::Value* TempStringFromCharArray(llvm::Value* dest, ExprAST* rhs, size_t size)
 {
     TRACE();
     auto func = [](llvm::Value* v, llvm::Value* chars, size_t size)
@@ -322,10 +323,10 @@ static llvm::Value* TempStringFromCharArray(llvm::Value* dest, AddressableAST* r
 	llvm::Value* src = builder.CreateGEP(charTy, v, { MakeIntegerConstant(0) }, "src");
 	llvm::Align  destAlign{ std::max(AlignOfType(chars->getType()), MIN_ALIGN) };
 	llvm::Align  srcAlign{ std::max(AlignOfType(v->getType()), MIN_ALIGN) };
-	return builder.CreateMemCpy(chars, destAlign, src, srcAlign, size + 1);
+	return builder.CreateMemCpy(chars, destAlign, src, srcAlign, size);
     };
 
-    return FillTempString(dest, rhs->Address(), size, func);
+    return FillTempString(dest, MakeAddressable(rhs), size, func);
 }
 
 static llvm::Value* LoadOrMemcpy(llvm::Value* src, Types::TypeDecl* ty)
@@ -793,6 +794,16 @@ llvm::Value* BinaryExprAST::CallSetFunc(const std::string& name, Types::TypeDecl
     return builder.CreateCall(f, { lV, rV, setWords }, "calltmp");
 }
 
+// A string type to hold size characters: ty if that is a string type.
+static Types::StringDecl* TempStringType(Types::TypeDecl* ty, size_t size)
+{
+    if (auto sd = llvm::dyn_cast<Types::StringDecl>(ty))
+    {
+	return sd;
+    }
+    return new Types::StringDecl(std::min<size_t>(std::max<size_t>(size, 1), 255));
+}
+
 llvm::Value* MakeStringFromExpr(ExprAST* e, Types::TypeDecl* ty)
 {
     TRACE();
@@ -804,8 +815,9 @@ llvm::Value* MakeStringFromExpr(ExprAST* e, Types::TypeDecl* ty)
     }
     if (auto se = llvm::dyn_cast<StringExprAST>(e))
     {
-	llvm::Value* v = CreateTempAlloca(ty);
-	TempStringFromStringExpr(v, se);
+	Types::StringDecl* sty = TempStringType(ty, se->Str().size());
+	llvm::Value*       v = CreateTempAlloca(sty);
+	TempStringFromStringExpr(v, se, sty->Capacity());
 	return v;
     }
 
@@ -816,14 +828,15 @@ llvm::Value* MakeStringFromExpr(ExprAST* e, Types::TypeDecl* ty)
 
     if (IsCharArray(e->Type()))
     {
-	auto                               ea = llvm::dyn_cast<AddressableAST>(e);
 	auto                               at = llvm::dyn_cast<Types::ArrayDecl>(e->Type());
 	std::vector<Types::RangeBaseDecl*> r = at->Ranges();
 
 	ICE_IF(r.size() != 1, "Expect 1D array here");
 
-	llvm::Value* v = CreateTempAlloca(ty);
-	TempStringFromCharArray(v, ea, r[0]->RangeSize());
+	size_t             size = r[0]->RangeSize();
+	Types::StringDecl* sty = TempStringType(ty, size);
+	llvm::Value*       v = CreateTempAlloca(sty);
+	TempStringFromCharArray(v, e, std::min<size_t>(size, sty->Capacity()));
 	return v;
     }
 
@@ -841,6 +854,16 @@ llvm::Value* CallStrFunc(const std::string& name, ExprAST* lhs, ExprAST* rhs, Ty
     return builder.CreateCall(f, { lV, rV }, twine);
 }
 
+// Assign string src to dest, of type ty - cutting off what does not fit.
+static llvm::Value* CallStrAssign(llvm::Value* dest, llvm::Value* src, Types::StringDecl* ty)
+{
+    TRACE();
+    Types::TypeDecl*     intTy = Types::Get<Types::IntegerDecl>();
+    llvm::FunctionCallee f = GetFunction(Types::Get<Types::VoidDecl>()->LlvmType(),
+                                         { dest->getType(), src->getType(), intTy->LlvmType() }, "__StrAssign");
+    return builder.CreateCall(f, { dest, src, MakeIntegerConstant(ty->Capacity()) });
+}
+
 static llvm::Value* CallStrCat(ExprAST* lhs, ExprAST* rhs)
 {
     TRACE();
@@ -1422,13 +1445,13 @@ llvm::Value* BinaryExprAST::CodeGen()
 
     ICE_IF(!lhs->Type() || !rhs->Type(), "Huh? Both sides of expression should have type");
 
-    if (BothStringish(lhs, rhs))
+    if (oper.GetToken() == Token::Plus && Types::IsStringLike(lhs->Type()) && Types::IsStringLike(rhs->Type()))
     {
-	if (oper.GetToken() == Token::Plus)
-	{
-	    return CallStrCat(lhs, rhs);
-	}
+	return CallStrCat(lhs, rhs);
+    }
 
+    if (BothStringish(lhs, rhs))
+    {
 	// We don't need to do this of both sides are char - then it's just a simple comparison
 	if (!llvm::isa<Types::CharDecl>(lhs->Type()) || !llvm::isa<Types::CharDecl>(rhs->Type()))
 	{
@@ -1440,10 +1463,6 @@ llvm::Value* BinaryExprAST::CodeGen()
     auto al = llvm::dyn_cast<Types::ArrayDecl>(lhs->Type());
     if (al && ar)
     {
-	if (oper.GetToken() == Token::Plus)
-	{
-	    return CallStrCat(lhs, rhs);
-	}
 	// Comparison operators are allowed for old style Pascal strings (char arrays)
 	// But only if they are the same size.
 	if (llvm::isa<Types::CharDecl>(al->SubType()) && llvm::isa<Types::CharDecl>(ar->SubType()))
@@ -1621,7 +1640,14 @@ static std::vector<llvm::Value*> CreateArgList(const std::vector<ExprAST*>& args
 		}
 		if (!v)
 		{
-		    if (IsCompound(i->Type()))
+		    if (auto sty = llvm::dyn_cast<Types::StringDecl>(vdef[index].Type()))
+		    {
+			// The parameter is a string of its own capacity.
+			llvm::Value* src = MakeStringFromExpr(i, i->Type());
+			v = CreateTempAlloca(sty);
+			CallStrAssign(v, src, sty);
+		    }
+		    else if (IsCompound(i->Type()))
 		    {
 			if (vi)
 			{
@@ -2286,11 +2312,12 @@ llvm::Value* AssignExprAST::AssignStr()
     if (auto srhs = llvm::dyn_cast<StringExprAST>(rhs))
     {
 	llvm::Value* dest = lhsv->Address();
-	return TempStringFromStringExpr(dest, srhs);
+	return TempStringFromStringExpr(dest, srhs, llvm::dyn_cast<Types::StringDecl>(lhsv->Type())->Capacity());
     }
 
     ICE_IF(!llvm::isa<Types::StringDecl>(rhs->Type()), "Expect string for rhs expression");
-    return CallStrFunc("Assign", lhs, rhs, Types::Get<Types::VoidDecl>(), "");
+    llvm::Value* src = MakeStringFromExpr(rhs, rhs->Type());
+    return CallStrAssign(lhsv->Address(), src, llvm::dyn_cast<Types::StringDecl>(lhsv->Type()));
 }
 
 llvm::Value* AssignExprAST::AssignSet()
diff --git a/runtime/string.c b/runtime/string.c
index b7002b8..53390e4 100644
--- a/runtime/string.c
+++ b/runtime/string.c
@@ -21,11 +21,11 @@ void __StrConcat(String* res, String* a, String* b)
     memcpy(&res->str[a->len], b->str, blen);
 }
 
-/* Assign string b to string a. */
-void __StrAssign(String* a, String* b)
+/* Assign string b to string a, which can hold capacity characters. */
+void __StrAssign(String* a, String* b, int capacity)
 {
-    a->len = b->len;
-    memcpy(a->str, b->str, a->len);
+    a->len = (b->len < capacity) ? b->len : capacity;
+    memmove(a->str, b->str, a->len);
 }
 
 /* Return >0 if a is greater than b,
@@ -61,13 +61,9 @@ String __StrCopy(String* str, int start, int len)
     {
 	len = 0;
     }
-    if (start + len > str->len)
+    else if (len > str->len - (start - 1))
     {
 	len = str->len - (start - 1);
-	if (len < 0)
-	{
-	    len = 0;
-	}
     }
 
     String result = { len, "" };
diff --git a/semantics.cpp b/semantics.cpp
index 1fe267f..194ea45 100644
--- a/semantics.cpp
+++ b/semantics.cpp
@@ -279,6 +279,22 @@ Types::TypeDecl* TypeCheckVisitor::BinarySetUpdate(BinaryExprAST* b)
     return b->rhs->Type();
 }
 
+static bool IsFixedCharArray(const Types::TypeDecl* ty)
+{
+    auto at = llvm::dyn_cast<Types::ArrayDecl>(ty);
+    return at && !llvm::isa<Types::StringDecl>(at) && Types::IsCharArray(at) && at->Ranges().size() == 1 &&
+           llvm::isa<Types::RangeDecl>(at->Ranges()[0]);
+}
+
+static size_t CharArrayLength(ExprAST* e)
+{
+    if (auto s = llvm::dyn_cast<StringExprAST>(e))
+    {
+	return s->Str().size();
+    }
+    return llvm::dyn_cast<Types::ArrayDecl>(e->Type())->Ranges()[0]->RangeSize();
+}
+
 Types::TypeDecl* TypeCheckVisitor::BinaryExprType(BinaryExprAST* b)
 {
     Types::TypeDecl* lty = b->lhs->Type();
@@ -351,6 +367,15 @@ Types::TypeDecl* TypeCheckVisitor::BinaryExprType(BinaryExprAST* b)
 	    b->lhs = Recast(b->lhs, ty);
 	    return Types::Get<Types::BoolDecl>();
 	}
+	bool literals = llvm::isa<StringExprAST>(b->lhs) && llvm::isa<StringExprAST>(b->rhs);
+	if (IsFixedCharArray(lty) && IsFixedCharArray(rty) && !literals)
+	{
+	    if (CharArrayLength(b->lhs) != CharArrayLength(b->rhs))
+	    {
+		Error(b, "Comparing char arrays of different length");
+	    }
+	    return Types::Get<Types::BoolDecl>();
+	}
     }
 
     switch (op)
@@ -650,7 +675,7 @@ void TypeCheckVisitor::Check<AssignExprAST>(AssignExprAST* a)
     }
 
     const Types::TypeDecl* ty = lty->AssignableType(rty);
-    if (!ty)
+    if (!ty || (IsFixedCharArray(lty) && llvm::isa<Types::StringDecl, Types::CharDecl>(rty)))
     {
 	Error(a, "Incompatible type in assignment");
 	return;
-- 
2.43.0


From 4411ea9f11341d13d094d10944aac699cb5f5720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:31 +0000
Subject: [PATCH 048/104] fix: index of the empty string in the empty string
 was 0

---
 runtime/string.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/runtime/string.c b/runtime/string.c
index 53390e4..8613c8f 100644
--- a/runtime/string.c
+++ b/runtime/string.c
@@ -93,11 +93,12 @@ void __StrTrim(String* res, const String* str)
 /* Return index of second string in first string */
 int __StrIndex(String* str1, String* str2)
 {
-    bool           found = false;
+    // The empty string is found at the start of any string.
+    bool           found = !str2->len;
     unsigned char* s1 = str1->str;
     unsigned char* e1 = &str1->str[str1->len];
 
-    while (s1 < e1)
+    while (!found && s1 < e1)
     {
 	unsigned char* s2 = str2->str;
 	unsigned char* e2 = &str2->str[str2->len];
-- 
2.43.0


From e547942a7ebb641b78b7fe2e20f9bf6a88ff9581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:31 +0000
Subject: [PATCH 049/104] fix: copy with longint arguments passed them in 64
 bits

---
 builtin.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/builtin.cpp b/builtin.cpp
index 3a052c3..dc7ea92 100644
--- a/builtin.cpp
+++ b/builtin.cpp
@@ -1285,7 +1285,8 @@ namespace Builtin
     llvm::Value* FunctionCopy::CodeGen(llvm::IRBuilder<>& builder)
     {
 	llvm::Value* str = MakeStringFromExpr(args[0], args[0]->Type());
-	llvm::Value* start = args[1]->CodeGen();
+	llvm::Type*  intTy = Types::Get<Types::IntegerDecl>()->LlvmType();
+	llvm::Value* start = builder.CreateSExtOrTrunc(args[1]->CodeGen(), intTy);
 
 	llvm::Value* len;
 	if (args.size() == 2)
@@ -1294,8 +1295,7 @@ namespace Builtin
 	}
 	else
 	{
-	    len = args[2]->CodeGen();
-	    ;
+	    len = builder.CreateSExtOrTrunc(args[2]->CodeGen(), intTy);
 	}
 
 	std::vector<llvm::Type*> argTypes = { str->getType(), start->getType(), len->getType() };
-- 
2.43.0


From fbfd4237ed1181102bb41a5870dba0fab23d6ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:01 +0000
Subject: [PATCH 050/104] fix: val took numbers with a leading zero as octal

---
 runtime/val.c | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/runtime/val.c b/runtime/val.c
index 722e794..72c7654 100644
--- a/runtime/val.c
+++ b/runtime/val.c
@@ -1,18 +1,33 @@
 #include "runtime.h"
+#include <ctype.h>
 #include <inttypes.h>
 #include <stdint.h>
 #include <stdlib.h>
 
+/* Decimal, unless it starts with 0x - a leading zero does not make it octal. */
+static int numberBase(const char* s)
+{
+    while (isspace((unsigned char)*s))
+    {
+	s++;
+    }
+    if (*s == '-' || *s == '+')
+    {
+	s++;
+    }
+    return (s[0] == '0' && (s[1] == 'x' || s[1] == 'X')) ? 16 : 10;
+}
+
 void __Val_int(String* s, int* res)
 {
     s->str[s->len] = 0;
-    *res = strtol((const char*)&s->str, NULL, 0);
+    *res = strtol((const char*)&s->str, NULL, numberBase((const char*)&s->str));
 }
 
 void __Val_long(String* s, int64_t* res)
 {
     s->str[s->len] = 0;
-    *res = strtoll((const char*)&s->str, NULL, 0);
+    *res = strtoll((const char*)&s->str, NULL, numberBase((const char*)&s->str));
 }
 
 void __Val_real(String* s, double* res)
-- 
2.43.0


From 01f7ae2965af582caab68229a158cd4bbd589362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:36 +0000
Subject: [PATCH 051/104] fix: val into a subrange variable aborted the
 compiler

---
 builtin.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/builtin.cpp b/builtin.cpp
index dc7ea92..8681563 100644
--- a/builtin.cpp
+++ b/builtin.cpp
@@ -1147,11 +1147,11 @@ namespace Builtin
 	llvm::Value* str = MakeStringFromExpr(args[0], args[0]->Type());
 	auto         var1 = llvm::dyn_cast<VariableExprAST>(args[1]);
 	std::string  name = "__Val_";
-	if (llvm::isa<Types::IntegerDecl>(var1->Type()))
+	if (Types::HostType(var1->Type())->Type() == Types::TypeDecl::TK_Integer)
 	{
 	    name += "int";
 	}
-	else if (llvm::isa<Types::Int64Decl>(var1->Type()))
+	else if (Types::HostType(var1->Type())->Type() == Types::TypeDecl::TK_LongInt)
 	{
 	    name += "long";
 	}
-- 
2.43.0


From 81a486bc09c440216a875478795372a648f9612b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:32 +0000
Subject: [PATCH 052/104] fix: constant expressions computed negative values,
 int to real conversions, division, shifts and powers wrongly, ignored
 operators, and rejected or misread what followed them

---
 constants.cpp | 187 +++++++++++++++++++++++++++++++++++---------------
 constants.h   |  22 +++++-
 parser.cpp    | 146 +++++++++++++++++----------------------
 3 files changed, 213 insertions(+), 142 deletions(-)

diff --git a/constants.cpp b/constants.cpp
index 93010a9..0995777 100644
--- a/constants.cpp
+++ b/constants.cpp
@@ -119,12 +119,12 @@ namespace Constants
 	{
 	    if (rhsI)
 	    {
-		rValue = rhsI->Value();
+		rValue = static_cast<int64_t>(rhsI->Value());
 		ok = true;
 	    }
 	    if (lhsI)
 	    {
-		lValue = lhsI->Value();
+		lValue = static_cast<int64_t>(lhsI->Value());
 		ok = true;
 	    }
 	}
@@ -138,7 +138,6 @@ namespace Constants
 	const auto rhsS = llvm::dyn_cast<StringConstDecl>(rhs);
 	const auto lhsC = llvm::dyn_cast<CharConstDecl>(lhs);
 	const auto rhsC = llvm::dyn_cast<CharConstDecl>(rhs);
-	bool       ok = lhsS && rhsS;
 	if (lhsS)
 	{
 	    lValue = lhsS->Value();
@@ -147,20 +146,15 @@ namespace Constants
 	{
 	    rValue = rhsS->Value();
 	}
-	if (lhsS || rhsS)
+	if (lhsC)
 	{
-	    if (lhsC)
-	    {
-		lValue = lhsC->Value();
-		ok = true;
-	    }
-	    if (rhsC)
-	    {
-		rValue = rhsC->Value();
-		ok = true;
-	    }
+	    lValue = lhsC->Value();
 	}
-	return ok;
+	if (rhsC)
+	{
+	    rValue = rhsC->Value();
+	}
+	return (lhsS || lhsC) && (rhsS || rhsC);
     }
 
     ConstDecl* ErrorConst(const std::string& msg)
@@ -193,6 +187,12 @@ namespace Constants
 	return 0;
     }
 
+    static bool IsZero(const ConstDecl& c)
+    {
+	const auto ic = llvm::dyn_cast<IntConstDecl>(&c);
+	return ic && ic->Value() == 0;
+    }
+
     ConstDecl* operator+(const ConstDecl& lhs, const ConstDecl& rhs)
     {
 	ConstDecl* v = DoRealMath(rhs, lhs, [](double lv, double rv) { return lv + rv; });
@@ -246,7 +246,11 @@ namespace Constants
 	ConstDecl* v = DoRealMath(lhs, rhs, [](double lv, double rv) { return lv / rv; });
 	if (!v)
 	{
-	    v = DoIntegerMath(lhs, rhs, [](uint64_t lv, uint64_t rv) { return lv / rv; });
+	    if (IsZero(rhs))
+	    {
+		return ErrorConst("Division by zero");
+	    }
+	    v = DoIntegerMath(lhs, rhs, [](int64_t lv, int64_t rv) { return (rv == -1) ? 0 - (uint64_t)lv : lv / rv; });
 	}
 	if (!v)
 	{
@@ -266,40 +270,66 @@ namespace Constants
 	return ErrorConst("Invalid operand for " + oper);
     }
 
+    // Operators for both integer and boolean
+    template<typename FN>
+    static ConstDecl* LogicalMath(const ConstDecl& lhs, const ConstDecl& rhs, FN func, const std::string& oper)
+    {
+	const auto lhsB = llvm::dyn_cast<BoolConstDecl>(&lhs);
+	const auto rhsB = llvm::dyn_cast<BoolConstDecl>(&rhs);
+	if (lhsB && rhsB)
+	{
+	    return new BoolConstDecl(Location(), func(lhsB->Value(), rhsB->Value()) & 1);
+	}
+	return IntegerOrErrorMath(lhs, rhs, func, oper);
+    }
+
     ConstDecl* operator%(const ConstDecl& lhs, const ConstDecl& rhs)
     {
+	if (IsZero(rhs))
+	{
+	    return ErrorConst("Division by zero");
+	}
 	return IntegerOrErrorMath(
-	    lhs, rhs, [](uint64_t lv, uint64_t rv) { return lv % rv; }, "mod");
+	    lhs, rhs, [](int64_t lv, int64_t rv) { return (rv == -1) ? 0 : lv % rv; }, "mod");
     }
 
     ConstDecl* operator&(const ConstDecl& lhs, const ConstDecl& rhs)
     {
-	return IntegerOrErrorMath(
+	return LogicalMath(
 	    lhs, rhs, [](uint64_t lv, uint64_t rv) { return lv & rv; }, "and");
     }
 
     ConstDecl* operator|(const ConstDecl& lhs, const ConstDecl& rhs)
     {
-	return IntegerOrErrorMath(
+	return LogicalMath(
 	    lhs, rhs, [](uint64_t lv, uint64_t rv) { return lv | rv; }, "or");
     }
 
     ConstDecl* operator^(const ConstDecl& lhs, const ConstDecl& rhs)
     {
-	return IntegerOrErrorMath(
+	return LogicalMath(
 	    lhs, rhs, [](uint64_t lv, uint64_t rv) { return lv ^ rv; }, "xor");
     }
 
     ConstDecl* operator<<(const ConstDecl& lhs, const ConstDecl& rhs)
     {
 	return IntegerOrErrorMath(
-	    lhs, rhs, [](uint64_t lv, uint64_t rv) { return lv << rv; }, "shl");
+	    lhs, rhs, [](uint64_t lv, uint64_t rv) { return (rv > 63) ? 0 : lv << rv; }, "shl");
     }
 
     ConstDecl* operator>>(const ConstDecl& lhs, const ConstDecl& rhs)
     {
-	return IntegerOrErrorMath(
-	    lhs, rhs, [](uint64_t lv, uint64_t rv) { return lv >> rv; }, "shr");
+	// Logical shift of as many bits as the type of the left operand has.
+	bool narrow = llvm::isa<Types::IntegerDecl>(lhs.Type());
+	auto func = [narrow](uint64_t lv, uint64_t rv) -> uint64_t
+	{
+	    if (rv > 63)
+	    {
+		return 0;
+	    }
+	    return (narrow ? (lv & 0xffffffff) : lv) >> rv;
+	};
+	return IntegerOrErrorMath(lhs, rhs, func, "shr");
     }
 
     template<typename T>
@@ -313,27 +343,29 @@ namespace Constants
 	{
 	    return new EnumConstDecl(enumConst->Type(), enumConst->Loc(), func(enumConst->Value()));
 	}
+	if (auto charConst = llvm::dyn_cast<CharConstDecl>(cd))
+	{
+	    return new CharConstDecl(charConst->Loc(), func(charConst->Value()));
+	}
+	if (auto boolConst = llvm::dyn_cast<BoolConstDecl>(cd))
+	{
+	    return new BoolConstDecl(boolConst->Loc(), func(boolConst->Value()));
+	}
 	return 0;
     }
 
     template<typename T>
-    static T PowerToInt(T x, int y)
+    static T PowerToInt(T x, uint64_t y)
     {
-	if (y == 0)
-	{
-	    return 1;
-	}
-	if (y < 0)
-	{
-	    return 1 / PowerToInt(x, -y);
-	}
-	ICE_IF(y <= 0, "Expect y > 0");
 	T res = 1;
-	do
+	for (; y; y >>= 1)
 	{
-	    res *= x;
-	    y--;
-	} while (y > 0);
+	    if (y & 1)
+	    {
+		res *= x;
+	    }
+	    x *= x;
+	}
 	return res;
     }
 
@@ -344,28 +376,68 @@ namespace Constants
 	{
 	    return 0;
 	}
-	int y = intConst->Value();
+	int64_t y = intConst->Value();
 	if (auto ic = llvm::dyn_cast<IntConstDecl>(&lhs))
 	{
-	    int x = ic->Value();
-	    return new IntConstDecl(ic->Loc(), PowerToInt(x, y));
+	    int64_t x = ic->Value();
+	    if (y >= 0)
+	    {
+		return new IntConstDecl(ic->Loc(), PowerToInt<uint64_t>(x, y));
+	    }
+	    if (x == 0)
+	    {
+		return ErrorConst("Division by zero");
+	    }
+	    // One divided by x to the power of -y.
+	    uint64_t r = (x == 1) ? 1 : (x == -1) ? ((y & 1) ? -1 : 1) : 0;
+	    return new IntConstDecl(ic->Loc(), r);
 	}
 
 	if (auto rc = llvm::dyn_cast<RealConstDecl>(&lhs))
 	{
-	    double x = rc->Value();
-	    return new RealConstDecl(rc->Loc(), PowerToInt(x, y));
+	    double r = PowerToInt(rc->Value(), (y < 0) ? 0 - (uint64_t)y : y);
+	    return new RealConstDecl(rc->Loc(), (y < 0) ? 1 / r : r);
 	}
-	return 0;
+	return ErrorConst("Invalid operand for pow");
     }
 
     ConstDecl* Power(const ConstDecl& lhs, const ConstDecl& rhs)
     {
-	const RealConstDecl* l = llvm::cast<RealConstDecl>(ToRealConstDecl(&lhs));
-	const RealConstDecl* r = llvm::cast<RealConstDecl>(ToRealConstDecl(&rhs));
-	double               x = l->Value();
-	double               y = r->Value();
-	return new RealConstDecl(l->Loc(), exp(log(x) * y));
+	const ConstDecl* l = ToRealConstDecl(&lhs);
+	const ConstDecl* r = ToRealConstDecl(&rhs);
+	if (!l || !r)
+	{
+	    return 0;
+	}
+	double x = llvm::cast<RealConstDecl>(l)->Value();
+	double y = llvm::cast<RealConstDecl>(r)->Value();
+	return new RealConstDecl(lhs.Loc(), pow(x, y));
+    }
+
+    ConstDecl* Negate(const ConstDecl* cd)
+    {
+	if (auto rd = llvm::dyn_cast<RealConstDecl>(cd))
+	{
+	    return new RealConstDecl(cd->Loc(), -rd->Value());
+	}
+	if (auto id = llvm::dyn_cast<IntConstDecl>(cd))
+	{
+	    return new IntConstDecl(cd->Loc(), 0 - id->Value());
+	}
+	return ErrorConst("Only integer and real constants can be negated");
+    }
+
+    ConstDecl* Not(const ConstDecl* cd)
+    {
+	if (auto bd = llvm::dyn_cast<BoolConstDecl>(cd))
+	{
+	    return new BoolConstDecl(cd->Loc(), !bd->Value());
+	}
+	if (auto id = llvm::dyn_cast<IntConstDecl>(cd))
+	{
+	    return new IntConstDecl(cd->Loc(), ~id->Value());
+	}
+	return ErrorConst("Only integer and boolean constants allowed for 'not'");
     }
 
     using ConstArgs = std::vector<const ConstDecl*>;
@@ -436,7 +508,7 @@ namespace Constants
 	{ "sin", 1, 1,
 	  [](const ConstArgs& args) -> const ConstDecl*
 	  {
-	      if (auto rc = llvm::dyn_cast<RealConstDecl>(args[0]))
+	      if (auto rc = llvm::dyn_cast_or_null<RealConstDecl>(ToRealConstDecl(args[0])))
 	      {
 	          return new RealConstDecl(rc->Loc(), sin(rc->Value()));
 	      }
@@ -445,7 +517,7 @@ namespace Constants
 	{ "cos", 1, 1,
 	  [](const ConstArgs& args) -> const ConstDecl*
 	  {
-	      if (auto rc = llvm::dyn_cast<RealConstDecl>(args[0]))
+	      if (auto rc = llvm::dyn_cast_or_null<RealConstDecl>(ToRealConstDecl(args[0])))
 	      {
 	          return new RealConstDecl(rc->Loc(), cos(rc->Value()));
 	      }
@@ -454,7 +526,7 @@ namespace Constants
 	{ "ln", 1, 1,
 	  [](const ConstArgs& args) -> const ConstDecl*
 	  {
-	      if (auto rc = llvm::dyn_cast<RealConstDecl>(args[0]))
+	      if (auto rc = llvm::dyn_cast_or_null<RealConstDecl>(ToRealConstDecl(args[0])))
 	      {
 	          // Yes, we want log here, log10 is Pascal type log
 	          return new RealConstDecl(rc->Loc(), log(rc->Value()));
@@ -464,7 +536,7 @@ namespace Constants
 	{ "exp", 1, 1,
 	  [](const ConstArgs& args) -> const ConstDecl*
 	  {
-	      if (auto rc = llvm::dyn_cast<RealConstDecl>(args[0]))
+	      if (auto rc = llvm::dyn_cast_or_null<RealConstDecl>(ToRealConstDecl(args[0])))
 	      {
 	          return new RealConstDecl(rc->Loc(), exp(rc->Value()));
 	      }
@@ -473,7 +545,7 @@ namespace Constants
 	{ "frac", 1, 1,
 	  [](const ConstArgs& args) -> const ConstDecl*
 	  {
-	      if (auto rc = llvm::dyn_cast<RealConstDecl>(args[0]))
+	      if (auto rc = llvm::dyn_cast_or_null<RealConstDecl>(ToRealConstDecl(args[0])))
 	      {
 	          double intpart;
 	          return new RealConstDecl(rc->Loc(), modf(rc->Value(), &intpart));
@@ -484,7 +556,7 @@ namespace Constants
 	{ "int", 1, 1,
 	  [](const ConstArgs& args) -> const ConstDecl*
 	  {
-	      if (auto rc = llvm::dyn_cast<RealConstDecl>(args[0]))
+	      if (auto rc = llvm::dyn_cast_or_null<RealConstDecl>(ToRealConstDecl(args[0])))
 	      {
 	          double r = rc->Value();
 	          return new RealConstDecl(rc->Loc(), copysign(floor(std::abs(r)), r));
@@ -550,7 +622,8 @@ namespace Constants
 	    ss << " arguments.";
 	    return ErrorConst(ss.str());
 	}
-	return func->func(args);
+	const ConstDecl* res = func->func(args);
+	return res ? res : ErrorConst("Invalid argument for " + name);
     }
 
     bool IsEvaluableFunc(const std::string& name)
@@ -589,9 +662,9 @@ namespace Constants
 	}
 	if (auto ic = llvm::dyn_cast<IntConstDecl>(c))
 	{
-	    return new RealConstDecl(ic->Loc(), ic->Value());
+	    return new RealConstDecl(ic->Loc(), static_cast<int64_t>(ic->Value()));
 	}
-	return ErrorConst("Expected an integer constant");
+	return ErrorConst("Expected a numeric constant");
     }
 
 } // namespace Constants
diff --git a/constants.h b/constants.h
index e0bf3ed..e3b8d6f 100644
--- a/constants.h
+++ b/constants.h
@@ -5,6 +5,9 @@
 #include "types.h"
 #include "utils.h"
 
+#include <limits>
+#include <type_traits>
+
 namespace Constants
 {
     enum ConstKind
@@ -44,7 +47,7 @@ namespace Constants
     class ConstDeclBase : public ConstDecl
     {
     public:
-	ConstDeclBase(const Location& w, T v) : ConstDecl(Types::Get<TD>(), ck, w), value(v) {}
+	ConstDeclBase(const Location& w, T v) : ConstDecl(TypeForValue(v), ck, w), value(v) {}
 	Token       Translate() const override;
 	static bool classof(const ConstDecl* e) { return e->getKind() == ck; }
 	T           Value() const { return value; }
@@ -52,6 +55,21 @@ namespace Constants
 
     protected:
 	T value;
+
+    private:
+	// Integers that need more than 32 bits are longint, as they are in expressions.
+	static Types::TypeDecl* TypeForValue(T v)
+	{
+	    if constexpr (std::is_same_v<TD, Types::IntegerDecl>)
+	    {
+		int64_t i = v;
+		if (i < std::numeric_limits<int32_t>::min() || i > std::numeric_limits<uint32_t>::max())
+		{
+		    return Types::Get<Types::Int64Decl>();
+		}
+	    }
+	    return Types::Get<TD>();
+	}
     };
 
     using IntConstDecl = ConstDeclBase<uint64_t, Types::IntegerDecl, CK_IntConstDecl>;
@@ -152,6 +170,8 @@ namespace Constants
     ConstDecl* operator<<(const ConstDecl& lhs, const ConstDecl& rhs);
     ConstDecl* operator>>(const ConstDecl& lhs, const ConstDecl& rhs);
 
+    ConstDecl* Negate(const ConstDecl* cd);
+    ConstDecl* Not(const ConstDecl* cd);
     ConstDecl* Pow(const ConstDecl& lhs, const ConstDecl& rhs);
     ConstDecl* Power(const ConstDecl& lhs, const ConstDecl& rhs);
 
diff --git a/parser.cpp b/parser.cpp
index c5fa13e..745133e 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -711,11 +711,22 @@ Types::RangeBaseDecl* Parser::ParseRange(Types::TypeDecl*& type, Token::TokenTyp
 
 	if (const Constants::ConstDecl* endC = ParseConstExpr({ endToken, altToken }))
 	{
+	    type = startC->Type();
+	    if (type != endC->Type() && IsIntegral(type) && IsIntegral(endC->Type()))
+	    {
+		// Integer and longint
+		type = const_cast<Types::TypeDecl*>(type->CompatibleType(endC->Type()));
+	    }
+	    else if (type != endC->Type())
+	    {
+		type = 0;
+	    }
+	    if (!type || !IsIntegral(type))
+	    {
+		return Error("Expected values of the same ordinal type in range");
+	    }
 	    int64_t start = Constants::ToInt(startC);
 	    int64_t end = Constants::ToInt(endC);
-
-	    type = startC->Type();
-	    ICE_IF(type != endC->Type(), "Expect same type on both sides");
 	    if (end < start)
 	    {
 		return Error("Invalid range specification");
@@ -831,6 +842,7 @@ Constants::ConstDecl* Parser::ParseConstEval(const Constants::ConstDecl* lhs, co
 	{
 	    return *tmpL / *tmpR;
 	}
+	return Error("Expected numeric constants for '/' operation");
     }
 
     case Token::Div:
@@ -882,7 +894,7 @@ const Constants::ConstDecl* Parser::ParseConstFunction(const std::string& name)
     {
 	return 0;
     }
-    if (Constants::IsEvaluableFunc(name))
+    if (Constants::IsEvaluableFunc(name) && !nameStack.Find(name))
     {
 	NextToken();
 	AssertToken(Token::LeftParen);
@@ -890,15 +902,20 @@ const Constants::ConstDecl* Parser::ParseConstFunction(const std::string& name)
 	for (;;)
 	{
 	    const Constants::ConstDecl* cd = ParseConstExpr({ Token::Comma, Token::RightParen });
+	    if (!cd)
+	    {
+		return 0;
+	    }
 	    args.push_back(cd);
 	    if (AcceptToken(Token::Comma))
 	    {
 		continue;
 	    }
-	    else if (Expect(Token::RightParen, ExpectConsume))
+	    if (!Expect(Token::RightParen, ExpectConsume))
 	    {
-		return Constants::EvalFunction(name, args);
+		return 0;
 	    }
+	    return Constants::EvalFunction(name, args);
 	}
     }
     return 0;
@@ -973,12 +990,10 @@ const Constants::ConstDecl* Parser::ParseConstTerm(const Location& loc)
     TRACE();
     Token::TokenType            unaryToken = Token::Unknown;
     const Constants::ConstDecl* cd = 0;
-    int                         mul = 1;
 
     switch (CurrentToken().GetToken())
     {
     case Token::Minus:
-	mul = -1;
     case Token::Plus:
     case Token::Not:
 	unaryToken = CurrentToken().GetToken();
@@ -993,7 +1008,6 @@ const Constants::ConstDecl* Parser::ParseConstTerm(const Location& loc)
     case Token::LeftParen:
 	AssertToken(Token::LeftParen);
 	cd = ParseConstExpr({ Token::RightParen });
-	// We don't eat the right paren here, it gets eaten later.
 	if (!Expect(Token::RightParen, ExpectConsume))
 	{
 	    return 0;
@@ -1005,40 +1019,21 @@ const Constants::ConstDecl* Parser::ParseConstTerm(const Location& loc)
 	break;
 
     case Token::StringLiteral:
-	if (unaryToken != Token::Unknown)
-	{
-	    return Error("Unary + or - not allowed for string constants");
-	}
 	cd = new Constants::StringConstDecl(loc, CurrentToken().GetStrVal());
 	NextToken();
 	break;
 
     case Token::Integer:
-    {
-	uint64_t v = CurrentToken().GetIntVal();
-	if (unaryToken == Token::Not)
-	{
-	    v = ~v;
-	}
-	cd = new Constants::IntConstDecl(loc, v * mul);
+	cd = new Constants::IntConstDecl(loc, CurrentToken().GetIntVal());
 	NextToken();
 	break;
-    }
 
     case Token::Real:
-	if (unaryToken == Token::Not)
-	{
-	    return Error("Unary 'not' is not allowed for real constants");
-	}
-	cd = new Constants::RealConstDecl(loc, CurrentToken().GetRealVal() * mul);
+	cd = new Constants::RealConstDecl(loc, CurrentToken().GetRealVal());
 	NextToken();
 	break;
 
     case Token::Char:
-	if (unaryToken != Token::Unknown)
-	{
-	    return Error("Unary + or - not allowed for char constants");
-	}
 	cd = new Constants::CharConstDecl(loc, (char)CurrentToken().GetIntVal());
 	NextToken();
 	break;
@@ -1065,7 +1060,7 @@ const Constants::ConstDecl* Parser::ParseConstTerm(const Location& loc)
 	{
 	    fc->EnsureSized();
 	}
-	cd = new Constants::IntConstDecl(loc, ty->Size() * mul);
+	cd = new Constants::IntConstDecl(loc, ty->Size());
 	break;
     }
 
@@ -1079,23 +1074,10 @@ const Constants::ConstDecl* Parser::ParseConstTerm(const Location& loc)
 	{
 	    if (llvm::isa<Types::BoolDecl>(ed->Type()))
 	    {
-		uint64_t v = ed->Value();
-		if (unaryToken == Token::Not)
-		{
-		    v = !v;
-		}
-		else if (unaryToken != Token::Unknown)
-		{
-		    return Error("Unary + or - not allowed for bool constants");
-		}
-		cd = new Constants::BoolConstDecl(loc, v);
+		cd = new Constants::BoolConstDecl(loc, ed->Value());
 	    }
 	    else
 	    {
-		if (unaryToken != Token::Unknown)
-		{
-		    return Error("Unary + or - not allowed for enum constants");
-		}
 		cd = new Constants::EnumConstDecl(ed->Type(), loc, ed->Value());
 	    }
 	    NextToken();
@@ -1106,29 +1088,6 @@ const Constants::ConstDecl* Parser::ParseConstTerm(const Location& loc)
 	    {
 		return 0;
 	    }
-	    if (llvm::isa<Constants::BoolConstDecl>(cd) && unaryToken == Token::Not)
-	    {
-		const auto bd = llvm::dyn_cast<Constants::BoolConstDecl>(cd);
-		cd = new Constants::BoolConstDecl(loc, !bd->Value());
-	    }
-
-	    if (mul == -1)
-	    {
-		if (const auto rd = llvm::dyn_cast<Constants::RealConstDecl>(cd))
-		{
-		    ;
-		    cd = new Constants::RealConstDecl(loc, -rd->Value());
-		}
-		else if (const auto id = llvm::dyn_cast<Constants::IntConstDecl>(cd))
-		{
-		    cd = new Constants::IntConstDecl(loc, -id->Value());
-		}
-		else
-		{
-		    return Error("Can't negate the type of " + CurrentToken().GetIdentName() +
-		                 " only integer and real types can be negated");
-		}
-	    }
 	    NextToken();
 	}
 	break;
@@ -1137,6 +1096,28 @@ const Constants::ConstDecl* Parser::ParseConstTerm(const Location& loc)
     default:
 	return 0;
     }
+
+    if (!cd)
+    {
+	return 0;
+    }
+    switch (unaryToken)
+    {
+    case Token::Minus:
+	cd = Constants::Negate(cd);
+	break;
+    case Token::Not:
+	cd = Constants::Not(cd);
+	break;
+    case Token::Plus:
+	if (!llvm::isa<Constants::IntConstDecl, Constants::RealConstDecl>(cd))
+	{
+	    return Error("Unary + is only allowed for integer and real constants");
+	}
+	break;
+    default:
+	break;
+    }
     return cd;
 }
 
@@ -1168,7 +1149,10 @@ const Constants::ConstDecl* Parser::ParseConstRHS(int exprPrec, const Constants:
 		return 0;
 	    }
 	}
-	lhs = ParseConstEval(lhs, binOp, rhs);
+	if (!(lhs = ParseConstEval(lhs, binOp, rhs)))
+	{
+	    return 0;
+	}
     }
 }
 
@@ -1177,21 +1161,15 @@ const Constants::ConstDecl* Parser::ParseConstExpr(const TerminatorList& termina
     const Location              loc = CurrentToken().Loc();
     const Constants::ConstDecl* cd;
 
-    do
+    if (!(cd = ParseConstTerm(loc)))
     {
-	if (!(cd = ParseConstTerm(loc)))
-	{
-	    return 0;
-	}
+	return 0;
+    }
 
-	if (!IsOneOf(CurrentToken().GetToken(), terminators))
-	{
-	    if (!(cd = ParseConstRHS(0, cd)))
-	    {
-		return 0;
-	    }
-	}
-    } while (!IsOneOf(CurrentToken().GetToken(), terminators));
+    if (!IsOneOf(CurrentToken().GetToken(), terminators))
+    {
+	cd = ParseConstRHS(0, cd);
+    }
     return cd;
 }
 
@@ -2139,7 +2117,7 @@ ExprAST* Parser::ParseIntegerExpr(const Token& token)
     const Location&  loc = token.Loc();
     Types::TypeDecl* type = Types::Get<Types::IntegerDecl>();
 
-    if (val > std::numeric_limits<unsigned int>::max())
+    if (val > std::numeric_limits<unsigned int>::max() || val < std::numeric_limits<int>::min())
     {
 	type = Types::Get<Types::Int64Decl>();
     }
@@ -3038,7 +3016,7 @@ ExprAST* Parser::ConstDeclToExpr(const Location& loc, Types::TypeDecl* ty, const
 	{
 	    if (auto ci = llvm::dyn_cast<Constants::IntConstDecl>(c))
 	    {
-		return new RealExprAST(loc, ci->Value());
+		return new RealExprAST(loc, static_cast<int64_t>(ci->Value()));
 	    }
 	    return Error("Real constant initializer from incompatible type");
 	}
-- 
2.43.0


From 11a7f8d0293ed0c4d2f76fb928427643ede9908d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:18 +0000
Subject: [PATCH 053/104] fix: unary operators on operands of mixed types
 aborted the compiler

---
 expr.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/expr.cpp b/expr.cpp
index 01d29a3..5fef0f5 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -1593,7 +1593,6 @@ void UnaryExprAST::UpdateType(Types::TypeDecl* ty)
 {
     if (type != ty)
     {
-	ICE_IF(type, "Type shouldn't be update more than once");
 	ICE_IF(!ty, "Must supply a valid type");
 	type = ty;
     }
-- 
2.43.0


From c1f7913d2260d3a793d2849130849207560c01c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:39 +0000
Subject: [PATCH 054/104] fix: another name for a pointer type was rejected in
 the same type section

---
 parser.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser.cpp b/parser.cpp
index 745133e..5766a7a 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -1337,6 +1337,10 @@ void Parser::ParseTypeDef()
     // Now fix up any incomplete types...
     for (auto p : incomplete)
     {
+	if (!p->IsIncomplete())
+	{
+	    continue;
+	}
 	std::string name = p->SubType()->Name();
 	if (Types::TypeDecl* ty = GetTypeDecl(name))
 	{
-- 
2.43.0


From c5cd6dc2a8b76aeb12e4a479f45573e92bf92bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:28 +0000
Subject: [PATCH 055/104] fix: range checking aborted the compiler, and its
 diagnostic gave the size as the upper bound

---
 expr.cpp | 45 ++++++++++++++++++++++-----------------------
 1 file changed, 22 insertions(+), 23 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index 5fef0f5..9005c4a 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -3928,31 +3928,30 @@ llvm::Value* RangeCheckAST::CodeGen()
     ICE_IF(!index, "Expected expression to generate code");
     ICE_IF(!index->getType()->isIntegerTy(), "Index is supposed to be integral type");
 
-    llvm::Value* orig_index = index;
-    llvm::Type*  intTy = Types::Get<Types::IntegerDecl>()->LlvmType();
+    llvm::Type* intTy = Types::Get<Types::IntegerDecl>()->LlvmType();
+    llvm::Type* longTy = Types::Get<Types::Int64Decl>()->LlvmType();
+    auto        extend = [&](llvm::Value* v) {
+	return IsUnsigned(expr->Type()) ? builder.CreateZExt(v, longTy, "zext") : builder.CreateSExt(v, longTy, "sext");
+    };
+    index = extend(index);
 
-    auto rr = llvm::dyn_cast<Types::RangeDecl>(range);
-    ICE_IF(rr, "Expect a rangedecl here");
-    int start = rr->Start();
-    if (start)
+    llvm::Value* low;
+    llvm::Value* high;
+    if (auto dr = llvm::dyn_cast<Types::DynRangeDecl>(range))
     {
-	index = builder.CreateSub(index, MakeConstant(start, expr->Type()));
+	llvm::Type* boundTy = dr->SubType()->LlvmType();
+	low = extend(builder.CreateLoad(boundTy, variables.FindTopLevel(dr->LowName()), "low"));
+	high = extend(builder.CreateLoad(boundTy, variables.FindTopLevel(dr->HighName()), "high"));
     }
-    if (index->getType()->getPrimitiveSizeInBits() < intTy->getPrimitiveSizeInBits())
+    else
     {
-	if (IsUnsigned(expr->Type()))
-	{
-	    index = builder.CreateZExt(index, intTy, "zext");
-	    orig_index = builder.CreateZExt(orig_index, intTy, "zext");
-	}
-	else
-	{
-	    index = builder.CreateSExt(index, intTy, "sext");
-	    orig_index = builder.CreateSExt(orig_index, intTy, "sext");
-	}
+	auto rr = llvm::dyn_cast<Types::RangeDecl>(range);
+	ICE_IF(!rr, "Expect a rangedecl here");
+	low = llvm::ConstantInt::getSigned(longTy, rr->Start());
+	high = llvm::ConstantInt::getSigned(longTy, rr->End());
     }
-    int               end = rr->GetRange()->Size();
-    llvm::Value*      cmp = builder.CreateICmpUGE(index, MakeIntegerConstant(end), "rangecheck");
+    llvm::Value*      cmp = builder.CreateOr(builder.CreateICmpSLT(index, low, "toolow"),
+                                             builder.CreateICmpSGT(index, high, "toohigh"), "rangecheck");
     llvm::Function*   theFunction = builder.GetInsertBlock()->getParent();
     llvm::BasicBlock* oorBlock = llvm::BasicBlock::Create(theContext, "out_of_range", theFunction);
     llvm::BasicBlock* contBlock = llvm::BasicBlock::Create(theContext, "continue", theFunction);
@@ -3960,8 +3959,8 @@ llvm::Value* RangeCheckAST::CodeGen()
 
     builder.SetInsertPoint(oorBlock);
     std::vector<llvm::Value*> args = { builder.CreateGlobalString(Loc().FileName()),
-	                               MakeIntegerConstant(Loc().LineNumber()), MakeIntegerConstant(start),
-	                               MakeIntegerConstant(end), orig_index };
+	                               MakeIntegerConstant(Loc().LineNumber()), builder.CreateTrunc(low, intTy),
+	                               builder.CreateTrunc(high, intTy), builder.CreateTrunc(index, intTy) };
     std::vector<llvm::Type*>  argTypes = {
         llvm::PointerType::getUnqual(Types::Get<Types::CharDecl>()->LlvmType()), intTy, intTy, intTy, intTy
     };
@@ -3972,7 +3971,7 @@ llvm::Value* RangeCheckAST::CodeGen()
     builder.CreateUnreachable();
 
     builder.SetInsertPoint(contBlock);
-    return index;
+    return builder.CreateTrunc(builder.CreateSub(index, low), intTy, "index");
 }
 
 void TypeCastAST::DoDump() const
-- 
2.43.0


From d8acf29176db00a7a7accef5096f2b63a94ac153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:28 +0000
Subject: [PATCH 056/104] fix: indexes of conformant arrays with char or
 boolean bounds selected the wrong element

---
 expr.cpp | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index 9005c4a..f372eca 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -3880,12 +3880,20 @@ llvm::Value* RangeReduceAST::CodeGen()
     ICE_IF(!IsIntegral(expr->Type()), "Index is supposed to be integral type");
     llvm::Value* index = expr->CodeGen();
 
-    llvm::Type* ty = index->getType();
+    llvm::Type* intTy = Types::Get<Types::IntegerDecl>()->LlvmType();
+    auto        extend = [&](llvm::Value* v) {
+	if (v->getType()->getPrimitiveSizeInBits() >= intTy->getPrimitiveSizeInBits())
+	{
+	    return v;
+	}
+	return IsUnsigned(expr->Type()) ? builder.CreateZExt(v, intTy, "zext") : builder.CreateSExt(v, intTy, "sext");
+    };
     if (auto dr = llvm::dyn_cast<Types::DynRangeDecl>(range))
     {
 	llvm::Value* low = variables.FindTopLevel(dr->LowName());
-	low = builder.CreateLoad(ty, low, "low");
-	index = builder.CreateSub(index, low);
+	low = extend(builder.CreateLoad(dr->SubType()->LlvmType(), low, "low"));
+	index = extend(index);
+	index = builder.CreateSub(index, builder.CreateSExtOrTrunc(low, index->getType()));
     }
     else
     {
@@ -3895,18 +3903,7 @@ llvm::Value* RangeReduceAST::CodeGen()
 	{
 	    index = builder.CreateSub(index, MakeConstant(start, expr->Type()));
 	}
-	llvm::Type* intTy = Types::Get<Types::IntegerDecl>()->LlvmType();
-	if (ty->getPrimitiveSizeInBits() < intTy->getPrimitiveSizeInBits())
-	{
-	    if (IsUnsigned(expr->Type()))
-	    {
-		index = builder.CreateZExt(index, intTy, "zext");
-	    }
-	    else
-	    {
-		index = builder.CreateSExt(index, intTy, "sext");
-	    }
-	}
+	index = extend(index);
     }
     return index;
 }
-- 
2.43.0


From 0729e238a8a33338a8eed3985fa231214a0b99e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:12 +0000
Subject: [PATCH 057/104] fix: results of functions of mixed-type expressions
 were taken to be of the wrong type

---
 semantics.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/semantics.cpp b/semantics.cpp
index 194ea45..dab0277 100644
--- a/semantics.cpp
+++ b/semantics.cpp
@@ -784,6 +784,8 @@ void TypeCheckVisitor::Check<BuiltinExprAST>(BuiltinExprAST* b)
 	Error(b, "Builtin function: '" + b->bif->Name() + "' wrong argument type(s)");
 	break;
     case Builtin::ErrorType::Ok:
+	// The types of the arguments may not have been known when the expression was parsed.
+	b->type = b->bif->Type();
 	break;
     }
 }
-- 
2.43.0


From 256695df5b88a6192deb3cce4788ce5616557489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:24 +0000
Subject: [PATCH 058/104] fix: constants shifted right by zero became unsigned

---
 constants.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/constants.cpp b/constants.cpp
index 0995777..b3d9371 100644
--- a/constants.cpp
+++ b/constants.cpp
@@ -323,6 +323,10 @@ namespace Constants
 	bool narrow = llvm::isa<Types::IntegerDecl>(lhs.Type());
 	auto func = [narrow](uint64_t lv, uint64_t rv) -> uint64_t
 	{
+	    if (rv == 0)
+	    {
+		return lv;
+	    }
 	    if (rv > 63)
 	    {
 		return 0;
-- 
2.43.0


From 86c145961e33c36debf8e95888db2d7c51e1d203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:56 +0000
Subject: [PATCH 059/104] fix: length of a literal, a char array or a char was
 rejected

---
 builtin.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/builtin.cpp b/builtin.cpp
index 8681563..2cecd98 100644
--- a/builtin.cpp
+++ b/builtin.cpp
@@ -1223,7 +1223,9 @@ namespace Builtin
 
     llvm::Value* FunctionLength::CodeGen(llvm::IRBuilder<>& builder)
     {
-	llvm::Value* v = MakeAddressable(args[0]);
+	llvm::Value* v = llvm::isa<Types::StringDecl>(args[0]->Type())
+	                     ? MakeAddressable(args[0])
+	                     : MakeStringFromExpr(args[0], args[0]->Type());
 	llvm::Type*  charTy = Types::Get<Types::CharDecl>()->LlvmType();
 	v = builder.CreateGEP(charTy, v, MakeIntegerConstant(0), "str_0");
 	v = builder.CreateLoad(charTy, v, "len");
@@ -1237,7 +1239,7 @@ namespace Builtin
 	{
 	    return ErrorType::WrongArgCount;
 	}
-	if (!llvm::isa<Types::StringDecl>(args[0]->Type()))
+	if (!IsStringLike(args[0]->Type()))
 	{
 	    return ErrorType::WrongArgType;
 	}
-- 
2.43.0


From 43b39bb85b0158771a3b646e52d8f080b3d34fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:45 +0000
Subject: [PATCH 060/104] fix: a with-statement evaluated its record variable
 again at each use of a field

---
 expr.cpp   | 20 ++++++++++++++++++++
 expr.h     | 31 +++++++++++++++++++++++++++++--
 parser.cpp | 15 +++++++++++----
 3 files changed, 60 insertions(+), 6 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index f372eca..d5ad1e3 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -3844,6 +3844,22 @@ llvm::Value* SetExprAST::Address()
     return setV;
 }
 
+void WithRefExprAST::DoDump() const
+{
+    expr->DoDump();
+}
+
+void WithRefExprAST::Establish()
+{
+    address = expr->Address();
+}
+
+llvm::Value* WithRefExprAST::Address()
+{
+    ICE_IF(!address, "Expected the with-statement to have established the address");
+    return address;
+}
+
 void WithExprAST::DoDump() const
 {
     std::cerr << "With ... do ";
@@ -3856,6 +3872,10 @@ llvm::Value* WithExprAST::CodeGen()
 
     BasicDebugInfo(this);
 
+    for (auto r : refs)
+    {
+	r->Establish();
+    }
     return body->CodeGen();
 }
 
diff --git a/expr.h b/expr.h
index aa14da1..6bd5712 100644
--- a/expr.h
+++ b/expr.h
@@ -81,6 +81,7 @@ public:
 	EK_FilePointerExpr,
 	EK_FieldExpr,
 	EK_VariantFieldExpr,
+	EK_WithRefExpr,
 	EK_FunctionExpr,
 	EK_TypeCastExpr,
 	EK_ArraySlice,
@@ -860,21 +861,47 @@ private:
     ExprAST*                   otherwise;
 };
 
+// The record variable of a with-statement: what it refers to is determined once, on entry to the statement.
+class WithRefExprAST : public AddressableAST
+{
+public:
+    WithRefExprAST(AddressableAST* e) : AddressableAST(e->Loc(), EK_WithRefExpr, e->Type()), expr(e), address(0) {}
+    void         DoDump() const override;
+    llvm::Value* Address() override;
+    void         Establish();
+    static bool  classof(const ExprAST* e) { return e->getKind() == EK_WithRefExpr; }
+    void         accept(ASTVisitor& v) override
+    {
+	expr->accept(v);
+	v.visit(this);
+    }
+
+private:
+    AddressableAST* expr;
+    llvm::Value*    address;
+};
+
 class WithExprAST : public ExprAST
 {
 public:
-    WithExprAST(const Location& w, ExprAST* b) : ExprAST(w, EK_WithExpr), body(b){};
+    WithExprAST(const Location& w, const std::vector<WithRefExprAST*>& r, ExprAST* b)
+        : ExprAST(w, EK_WithExpr), refs(r), body(b){};
     void         DoDump() const override;
     llvm::Value* CodeGen() override;
     static bool  classof(const ExprAST* e) { return e->getKind() == EK_WithExpr; }
     void         accept(ASTVisitor& v) override
     {
+	for (auto r : refs)
+	{
+	    r->accept(v);
+	}
 	body->accept(v);
 	v.visit(this);
     }
 
 private:
-    ExprAST* body;
+    std::vector<WithRefExprAST*> refs;
+    ExprAST*                     body;
 };
 
 class RangeReduceAST : public ExprAST
diff --git a/parser.cpp b/parser.cpp
index 5766a7a..88dd7d8 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -4110,6 +4110,11 @@ public:
 	    {
 		if (auto rd = llvm::dyn_cast<Types::RecordDecl>(v->Type()))
 		{
+		    if (!llvm::isa<VariableExprAST>(v))
+		    {
+			refs.push_back(new WithRefExprAST(v));
+			v = refs.back();
+		    }
 		    parser.ExpandWithNames(rd, v, 0);
 		    if (Types::VariantDecl* variant = rd->Variant())
 		    {
@@ -4129,11 +4134,13 @@ public:
 	}
 	return false;
     }
-    int Levels() { return levels; }
+    int                                 Levels() { return levels; }
+    const std::vector<WithRefExprAST*>& Refs() const { return refs; }
 
 private:
-    int                        levels;
-    Stack<const NamedObject*>& nameStack;
+    int                          levels;
+    Stack<const NamedObject*>&   nameStack;
+    std::vector<WithRefExprAST*> refs;
 };
 
 ExprAST* Parser::ParseWithBlock()
@@ -4161,7 +4168,7 @@ ExprAST* Parser::ParseWithBlock()
 
     if (!error)
     {
-	return new WithExprAST(loc, body);
+	return new WithExprAST(loc, ccw.Refs(), body);
     }
     return 0;
 }
-- 
2.43.0


From fdfb340357442c9db9442ee8f4620d6c25e2baa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:58 +0000
Subject: [PATCH 061/104] fix: field, method and schema variable names were
 case sensitive

---
 schema.cpp |  4 ++--
 stack.cpp  | 10 ++++++++++
 types.cpp  |  6 +++---
 utils.h    |  3 +++
 4 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/schema.cpp b/schema.cpp
index eb96764..f2a57a1 100644
--- a/schema.cpp
+++ b/schema.cpp
@@ -17,7 +17,7 @@ namespace Types
     {
 	for (const auto& v : vars)
 	{
-	    if (v.Name() == name)
+	    if (SameName(v.Name(), name))
 	    {
 		return &v;
 	    }
@@ -30,7 +30,7 @@ namespace Types
 	int index = 0;
 	for (auto a : vars)
 	{
-	    if (a.Name() == nm)
+	    if (SameName(a.Name(), nm))
 	    {
 		return index;
 	    }
diff --git a/stack.cpp b/stack.cpp
index 9f16585..a809735 100644
--- a/stack.cpp
+++ b/stack.cpp
@@ -1,6 +1,16 @@
 #include "stack.h"
 #include "utils.h"
 
+bool SameName(std::string a, std::string b)
+{
+    if (caseInsensitive)
+    {
+	strlower(a);
+	strlower(b);
+    }
+    return a == b;
+}
+
 bool InterfaceList::Add(const NamedObject* obj)
 {
     std::string name = obj->Name();
diff --git a/types.cpp b/types.cpp
index c706101..c72c686 100644
--- a/types.cpp
+++ b/types.cpp
@@ -665,7 +665,7 @@ namespace Types
 		    return i;
 		}
 	    }
-	    if (f->Name() == name)
+	    if (SameName(f->Name(), name))
 	    {
 		return i;
 	    }
@@ -874,7 +874,7 @@ namespace Types
 	    bool found = false;
 	    for (auto& j : membfuncs)
 	    {
-		if (j->Proto()->Name() == i->Proto()->Name())
+		if (SameName(j->Proto()->Name(), i->Proto()->Name()))
 		{
 		    j = i;
 		    found = true;
@@ -917,7 +917,7 @@ namespace Types
     {
 	for (size_t i = 0; i < membfuncs.size(); i++)
 	{
-	    if (membfuncs[i]->Proto()->Name() == nm)
+	    if (SameName(membfuncs[i]->Proto()->Name(), nm))
 	    {
 		return i;
 	    }
diff --git a/utils.h b/utils.h
index e23b3a1..babeea5 100644
--- a/utils.h
+++ b/utils.h
@@ -9,6 +9,9 @@ inline void strlower(std::string& str)
     std::transform(str.begin(), str.end(), str.begin(), ::tolower);
 }
 
+// Compare identifiers: letter case is not significant.
+bool SameName(std::string a, std::string b);
+
 std::string GetPath(const std::string& fileName);
 
 [[noreturn]] void InternalCompilerError(const char* file, int line, const std::string& msg);
-- 
2.43.0


From 30a5f8bd3278ff76450c8f75679a7f459f2356dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:10 +0000
Subject: [PATCH 062/104] fix: a nested procedure could not have the name of an
 outer forward declared one

---
 parser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser.cpp b/parser.cpp
index 88dd7d8..ce49e2a 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -3403,7 +3403,8 @@ PrototypeAST* Parser::ParsePrototype(Parser::NamePolicy nmPolicy)
 	    }
 	}
 	// See if it's a "forward declaration"?
-	if (const NamedObject* def = nameStack.Find(funcName))
+	// Only in this scope, an outer one is a different function.
+	if (const NamedObject* def = nameStack.FindTopLevel(funcName))
 	{
 	    const auto fnDef = llvm::dyn_cast_or_null<const FuncDef>(def);
 	    if (fnDef && fnDef->Proto() && fnDef->Proto()->IsForward())
-- 
2.43.0


From 27f972a9be5606a2ac1bc00aa7e41f53169d0908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:24 +0000
Subject: [PATCH 063/104] fix: predefined types and constants could not be
 redefined by a program

---
 parser.cpp |  1 +
 stack.h    | 12 ++++++++++++
 2 files changed, 13 insertions(+)

diff --git a/parser.cpp b/parser.cpp
index ce49e2a..d1411d0 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -4782,6 +4782,7 @@ Parser::Parser(Source& source) : lexer(source), nextTokenValid(false), errCnt(0)
     {
 	ICE("Failed to add builtin constants and types");
     }
+    nameStack.SealPredefined();
 }
 
 ParserInterface& GetParser(Source& source)
diff --git a/stack.h b/stack.h
index 2afa438..9fca70d 100644
--- a/stack.h
+++ b/stack.h
@@ -32,6 +32,13 @@ public:
 
     void DropLevel() { stack.pop_back(); }
 
+    // What has been added so far is around the outermost level: it can be redefined there.
+    void SealPredefined()
+    {
+	predefined = stack.front();
+	stack.front().clear();
+    }
+
     static void LowerIfNeeded(std::string& name)
     {
 	if (caseInsensitive)
@@ -72,6 +79,10 @@ public:
 		return it->second;
 	    }
 	}
+	if (auto it = predefined.find(name); it != predefined.end())
+	{
+	    return it->second;
+	}
 	if (verbosity > 1)
 	{
 	    std::cerr << "Not found " << name << std::endl;
@@ -108,6 +119,7 @@ public:
 
 private:
     StackType stack;
+    MapType   predefined;
 };
 
 template<typename T>
-- 
2.43.0


From ce4f13cd74aea256c4cead09bc0e6c59443d73c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:27 +0000
Subject: [PATCH 064/104] fix: reals written with many leading zeros were read
 wrongly

---
 runtime/read.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/runtime/read.c b/runtime/read.c
index a8eb55f..a17f823 100644
--- a/runtime/read.c
+++ b/runtime/read.c
@@ -346,6 +346,14 @@ static void add_current(struct interface* intf, char* buffer, size_t size, size_
     intf->fngetnext(intf);
 }
 
+static void skip_zeros(struct interface* intf)
+{
+    while (!intf->fneof(intf) && intf->fncurrent(intf) == '0')
+    {
+	intf->fngetnext(intf);
+    }
+}
+
 static void add_digits(struct interface* intf, char* buffer, size_t size, size_t* count)
 {
     while (!intf->fneof(intf) && isdigit(intf->fncurrent(intf)))
@@ -363,6 +371,7 @@ static void readreal(struct interface* intf, double* v)
     skip_spaces(intf);
     int sign = get_sign(intf);
 
+    skip_zeros(intf);
     add_digits(intf, buffer, sizeof(buffer), &count);
     if (intf->fncurrent(intf) == '.')
     {
@@ -376,6 +385,7 @@ static void readreal(struct interface* intf, double* v)
 	{
 	    buffer[count++] = '-';
 	}
+	skip_zeros(intf);
 	add_digits(intf, buffer, sizeof(buffer), &count);
     }
     buffer[count] = 0;
-- 
2.43.0


From 2311c61d7d7aa1fc8db35dce95fb615d6791119c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:39 +0000
Subject: [PATCH 065/104] fix: schema arrays of m..n and schema index types
 were rejected

---
 parser.cpp | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/parser.cpp b/parser.cpp
index d1411d0..8d40780 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -741,6 +741,17 @@ Types::RangeBaseDecl* Parser::ParseRange(Types::TypeDecl*& type, Token::TokenTyp
 	{
 	    return 0;
 	}
+	if (const VarDef* lowDef = schema ? schema->FindVar(lowName) : 0)
+	{
+	    type = lowDef->Type();
+	    const VarDef* highDef = schema->FindVar(GetIdentifier(NoExpectConsume));
+	    if (!highDef || highDef->Type() != type)
+	    {
+		return Error("Expected same type for both high and low variable");
+	    }
+	    std::string highName = GetIdentifier(ExpectConsume);
+	    return new Types::SchemaRange(lowName, highName, type, schema);
+	}
 	std::string highName = GetIdentifier(ExpectConsume);
 	if (endToken != Token::Semicolon)
 	{
@@ -755,21 +766,6 @@ Types::RangeBaseDecl* Parser::ParseRange(Types::TypeDecl*& type, Token::TokenTyp
 		return new Types::DynRangeDecl(lowName, highName, type);
 	    }
 	}
-	if (schema)
-	{
-	    if (const VarDef* lowDef = schema->FindVar(lowName))
-	    {
-		type = lowDef->Type();
-		if (const VarDef* highDef = schema->FindVar(highName))
-		{
-		    if (highDef->Type() != lowDef->Type())
-		    {
-			return Error("Expected same type for both high and low variable");
-		    }
-		    return new Types::SchemaRange(lowName, highName, type, schema);
-		}
-	    }
-	}
 	if (const VarDef* vardef = llvm::dyn_cast_or_null<VarDef>(nameStack.Find(lowName)))
 	{
 	    type = vardef->Type();
@@ -812,6 +808,13 @@ Types::RangeBaseDecl* Parser::ParseRangeOrTypeRange(Types::TypeDecl*& type, Toke
 	    return Error("Type used as index specification should be integral type");
 	}
 	AssertToken(Token::Identifier);
+	if (Types::IsSchema(type))
+	{
+	    if (!Expect(Token::LeftParen, ExpectConsume) || !(type = ExpandSchema(type)))
+	    {
+		return 0;
+	    }
+	}
 	return new Types::RangeDecl(type->GetRange(), type);
     }
 
-- 
2.43.0


From 2b451c0011222d52a6bcc55e0be70cb43fe7c2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:50 +0000
Subject: [PATCH 066/104] fix: elements of the elements of conformant arrays
 could not be indexed

---
 parser.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/parser.cpp b/parser.cpp
index 8d40780..75e9a82 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -2334,12 +2334,14 @@ ExprAST* Parser::ParseArrayExpr(ExprAST* expr, Types::TypeDecl*& type)
 	RangeExprAST* range;
 	if (auto dty = llvm::dyn_cast<Types::DynArrayDecl>(type))
 	{
-	    if (indices.size() != 1)
+	    expr = new DynArrayExprAST(CurrentToken().Loc(), expr, indices[0], dty->Range(), dty->SubType());
+	    type = dty->SubType();
+	    taken++;
+	    indices.erase(indices.begin());
+	    if (!indices.empty() && !llvm::isa<Types::ArrayDecl>(type))
 	    {
 		return Error("Too many indices");
 	    }
-
-	    return new DynArrayExprAST(CurrentToken().Loc(), expr, indices[0], dty->Range(), dty->SubType());
 	}
 	else
 	{
-- 
2.43.0


From 99a3cedbf4679fad2a2fec8df53993c25e504dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:59 +0000
Subject: [PATCH 067/104] fix: for-in over a set rejected variables of a
 subrange type

---
 semantics.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/semantics.cpp b/semantics.cpp
index dab0277..5d2243b 100644
--- a/semantics.cpp
+++ b/semantics.cpp
@@ -897,7 +897,7 @@ void TypeCheckVisitor::Check<ForExprAST>(ForExprAST* f)
 		Types::TypeDecl* ty = llvm::isa<Types::Int64Decl>(vty) ? Types::Get<Types::IntegerDecl>() : vty;
 		SetTypeFromContext(f->start, new Types::SetDecl(GetRangeDecl(ty), ty));
 	    }
-	    if (!setDecl->SubType() || !setDecl->SubType()->CompatibleType(vty))
+	    if (!setDecl->SubType() || !setDecl->SubType()->CompatibleType(Types::HostType(vty)))
 	    {
 		Error(f->variable, "Expected variable to be compatible with set");
 	    }
-- 
2.43.0


From cfb8fd90a7ccf3da20d6bedfa2ce031b9698cf42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:21 +0000
Subject: [PATCH 068/104] fix: conformant arrays could not be passed on, and
 slices and longint bounds went wrong

---
 expr.cpp  | 92 +++++++++++++++++++++++++++++++++++++++++--------------
 expr.h    |  4 ++-
 types.cpp | 22 ++++++++++++-
 types.h   |  1 +
 4 files changed, 94 insertions(+), 25 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index d5ad1e3..2dfb981 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -1608,6 +1608,13 @@ void CallExprAST::DoDump() const
     std::cerr << ")";
 }
 
+// The bounds of arrays are passed on as 64-bit values
+static llvm::Value* ExtendBound(llvm::Value* v, const Types::TypeDecl* ty)
+{
+    llvm::Type* boundTy = Types::Get<Types::Int64Decl>()->LlvmType();
+    return IsUnsigned(ty) ? builder.CreateZExt(v, boundTy) : builder.CreateSExt(v, boundTy);
+}
+
 static std::vector<llvm::Value*> CreateArgList(const std::vector<ExprAST*>& args,
                                                const std::vector<VarDef>&   vdef)
 {
@@ -1617,6 +1624,10 @@ static std::vector<llvm::Value*> CreateArgList(const std::vector<ExprAST*>& args
     for (auto i : args)
     {
 	llvm::Value* v = 0;
+	llvm::Value* low = 0;
+	llvm::Value* high = 0;
+	bool         conformant = llvm::isa<Types::DynArrayDecl>(vdef[index].Type());
+	auto         slice = conformant ? llvm::dyn_cast<ArraySliceAST>(i) : 0;
 
 	if (auto ca = llvm::dyn_cast<ClosureAST>(i))
 	{
@@ -1625,7 +1636,14 @@ static std::vector<llvm::Value*> CreateArgList(const std::vector<ExprAST*>& args
 	else
 	{
 	    auto vi = llvm::dyn_cast<AddressableAST>(i);
-	    if (vdef[index].IsRef())
+	    if (slice)
+	    {
+		low = slice->Range()->Low();
+		high = ExtendBound(slice->Range()->High(), slice->Range()->Type());
+		v = slice->Address(low);
+		low = ExtendBound(low, slice->Range()->Type());
+	    }
+	    else if (vdef[index].IsRef())
 	    {
 		ICE_IF(!vi, "This should be an addressable value");
 		v = vi->Address();
@@ -1648,7 +1666,12 @@ static std::vector<llvm::Value*> CreateArgList(const std::vector<ExprAST*>& args
 		    }
 		    else if (IsCompound(i->Type()))
 		    {
-			if (vi)
+			if (vi && conformant)
+			{
+			    // The called function makes the copy
+			    v = vi->Address();
+			}
+			else if (vi)
 			{
 			    v = LoadOrMemcpy(vi->Address(), vi->Type());
 			}
@@ -1668,29 +1691,25 @@ static std::vector<llvm::Value*> CreateArgList(const std::vector<ExprAST*>& args
 	    }
 	}
 	ICE_IF(!v, "Expect argument here");
-	if (llvm::isa<Types::DynArrayDecl>(vdef[index].Type()))
+	// A conformant array that is passed on already has its bounds with it
+	if (conformant && (slice || llvm::isa<Types::ArrayDecl>(i->Type())))
 	{
-	    auto        aty = llvm::dyn_cast<Types::ArrayDecl>(i->Type());
-	    llvm::Type* elemTy = aty->SubType()->LlvmType();
-	    llvm::Type* ptrTy = llvm::PointerType::getUnqual(elemTy);
-
-	    llvm::Type* dynTy = Types::DynArrayDecl::GetArrayType(aty->SubType());
-
-	    ICE_IF(!aty, "This should be an array declaration");
+	    llvm::Type* dynTy = vdef[index].Type()->LlvmType();
+	    if (!slice)
+	    {
+		auto        aty = llvm::dyn_cast<Types::ArrayDecl>(i->Type());
+		auto        r = llvm::dyn_cast<Types::RangeDecl>(aty->Ranges()[0]);
+		llvm::Type* boundTy = Types::Get<Types::Int64Decl>()->LlvmType();
+		low = llvm::ConstantInt::getSigned(boundTy, r->Start());
+		high = llvm::ConstantInt::getSigned(boundTy, r->End());
+	    }
 	    llvm::Constant* zero = MakeIntegerConstant(0);
 	    llvm::Constant* one = MakeIntegerConstant(1);
 	    llvm::Constant* two = MakeIntegerConstant(2);
 	    llvm::Value*    x = CreateTempAlloca(vdef[index].Type());
-	    llvm::Value*    arrPtr = builder.CreateGEP(dynTy, x, { zero, zero });
-	    llvm::Value*    arrStart = builder.CreateGEP(ptrTy, v, zero);
-	    builder.CreateStore(arrStart, arrPtr);
-	    auto         r = llvm::dyn_cast<Types::RangeDecl>(aty->Ranges()[0]);
-	    llvm::Value* low = MakeIntegerConstant(r->Start());
-	    llvm::Value* high = MakeIntegerConstant(r->End());
-	    llvm::Value* lPtr = builder.CreateGEP(dynTy, x, { zero, one });
-	    llvm::Value* hPtr = builder.CreateGEP(dynTy, x, { zero, two });
-	    builder.CreateStore(low, lPtr);
-	    builder.CreateStore(high, hPtr);
+	    builder.CreateStore(v, builder.CreateGEP(dynTy, x, { zero, zero }));
+	    builder.CreateStore(low, builder.CreateGEP(dynTy, x, { zero, one }));
+	    builder.CreateStore(high, builder.CreateGEP(dynTy, x, { zero, two }));
 	    v = x;
 	}
 	argsV.push_back(v);
@@ -1911,6 +1930,25 @@ llvm::Function* PrototypeAST::Create(const std::string& namePrefix)
     return llvmFunc;
 }
 
+// Make the conformant array that 'desc' describes a copy of the actual array
+static void CopyConformantArray(Types::DynArrayDecl* dty, llvm::Value* desc)
+{
+    llvm::Type*  dynTy = dty->LlvmType();
+    llvm::Type*  boundTy = Types::Get<Types::Int64Decl>()->LlvmType();
+    llvm::Type*  elemTy = dty->SubType()->LlvmType();
+    llvm::Value* zero = MakeIntegerConstant(0);
+    llvm::Value* arrPtr = builder.CreateGEP(dynTy, desc, { zero, zero });
+    llvm::Value* src = builder.CreateLoad(llvm::PointerType::getUnqual(elemTy), arrPtr, "src");
+    llvm::Value* low = builder.CreateLoad(boundTy, builder.CreateGEP(dynTy, desc, { zero, MakeIntegerConstant(1) }));
+    llvm::Value* high = builder.CreateLoad(boundTy, builder.CreateGEP(dynTy, desc, { zero, MakeIntegerConstant(2) }));
+    llvm::Value* count = builder.CreateAdd(builder.CreateSub(high, low), llvm::ConstantInt::get(boundTy, 1));
+    llvm::Value* size = builder.CreateMul(count, llvm::ConstantInt::get(boundTy, dty->SubType()->Size()));
+    llvm::Value* copy = builder.CreateAlloca(elemTy, count, "copy");
+    llvm::Align  align = theModule->getDataLayout().getABITypeAlign(elemTy);
+    builder.CreateMemCpy(copy, align, src, align, size);
+    builder.CreateStore(copy, arrPtr);
+}
+
 void PrototypeAST::CreateArgumentAlloca()
 {
     TRACE();
@@ -1955,6 +1993,10 @@ void PrototypeAST::CreateArgumentAlloca()
 		llvm::Value* high = builder.CreateGEP(
 		    dynTy, &*ai, { MakeIntegerConstant(0), MakeIntegerConstant(2) }, dr->HighName());
 
+		if (!args[idx].IsRef())
+		{
+		    CopyConformantArray(dty, a);
+		}
 		if (!variables.Add(dr->LowName(), low))
 		{
 		    Error(this, "Duplicate Variable name");
@@ -4619,14 +4661,18 @@ void InitRecordAST::DoDump() const
 }
 
 llvm::Value* ArraySliceAST::Address()
+{
+    return Address(range->Low());
+}
+
+llvm::Value* ArraySliceAST::Address(llvm::Value* low)
 {
     auto         aty = llvm::dyn_cast<Types::ArrayDecl>(origType);
     llvm::Type*  elemTy = aty->SubType()->LlvmType();
     llvm::Value* v = MakeAddressable(expr);
-    llvm::Value* low = range->Low();
     auto         r = llvm::dyn_cast<Types::RangeDecl>(aty->Ranges()[0]);
-    int64_t      start = r->Start();
-    llvm::Value* index = builder.CreateSub(low, MakeIntegerConstant(start));
+    llvm::Value* start = llvm::ConstantInt::getSigned(Types::Get<Types::Int64Decl>()->LlvmType(), r->Start());
+    llvm::Value* index = builder.CreateSub(ExtendBound(low, range->Type()), start);
     llvm::Value* ptr = builder.CreateGEP(elemTy, v, index);
 
     return builder.CreateBitCast(ptr, llvm::PointerType::getUnqual(type->LlvmType()));
diff --git a/expr.h b/expr.h
index 6bd5712..82f3565 100644
--- a/expr.h
+++ b/expr.h
@@ -1135,7 +1135,7 @@ public:
 	}
 	else
 	{
-	    auto r = new Types::DynRangeDecl("", "", Types::Get<Types::IntegerDecl>());
+	    auto r = new Types::DynRangeDecl("", "", Types::HostType(range->Type()));
 	    t = new Types::DynArrayDecl(ty->SubType(), r);
 	}
 	origType = ty;
@@ -1144,9 +1144,11 @@ public:
 
     static bool  classof(const ExprAST* e) { return e->getKind() == EK_ArraySlice; }
     llvm::Value* Address() override;
+    llvm::Value* Address(llvm::Value* low);
     void         DoDump() const override;
     void         accept(ASTVisitor& v) override;
     llvm::Value* Size();
+    RangeExprAST* Range() { return range; }
 
 private:
     ExprAST*         expr;
diff --git a/types.cpp b/types.cpp
index c72c686..880d133 100644
--- a/types.cpp
+++ b/types.cpp
@@ -429,7 +429,8 @@ namespace Types
 	{
 	    llvm::Type* ty = baseType->LlvmType();
 	    llvm::Type* ptrTy = llvm::PointerType::getUnqual(ty);
-	    llvm::Type* intTy = Get<IntegerDecl>()->LlvmType();
+	    // Wide enough for bounds of any type
+	    llvm::Type* intTy = Get<Int64Decl>()->LlvmType();
 	    dynTy = llvm::StructType::create({ ptrTy, intTy, intTy }, "confArray");
 	}
 	return dynTy;
@@ -462,9 +463,28 @@ namespace Types
 	    }
 	    return aty;
 	}
+	// Another conformant array, or a slice
+	if (const auto dty = llvm::dyn_cast<DynArrayDecl>(ty))
+	{
+	    if (*dty->SubType() == *SubType() && *HostType(dty->range->SubType()) == *HostType(range->SubType()))
+	    {
+		return dty;
+	    }
+	}
 	return 0;
     }
 
+    bool DynArrayDecl::SameAs(const TypeDecl* ty) const
+    {
+	if (this == ty)
+	{
+	    return true;
+	}
+	// The names of the bounds don't matter
+	const auto dty = llvm::dyn_cast<DynArrayDecl>(ty);
+	return dty && *dty->SubType() == *SubType() && *dty->range->SubType() == *range->SubType();
+    }
+
     void Range::DoDump() const
     {
 	std::cerr << "[" << start << ".." << end << "]";
diff --git a/types.h b/types.h
index 257fa25..dc1e5fc 100644
--- a/types.h
+++ b/types.h
@@ -346,6 +346,7 @@ namespace Types
 	DynArrayDecl(TypeDecl* b, DynRangeDecl* r) : CompoundDecl(TK_DynArray, b), range(r) {}
 	void               DoDump() const override;
 	DynRangeDecl*      Range() { return range; }
+	bool               SameAs(const TypeDecl* ty) const override;
 	static bool        classof(const TypeDecl* e) { return e->getKind() == TK_DynArray; }
 	const TypeDecl*    CompatibleType(const TypeDecl* ty) const override;
 	static llvm::Type* GetArrayType(TypeDecl* baseType);
-- 
2.43.0


From 847cb3f0454a916a2620033c4d1e118b39c6c0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:00 +0000
Subject: [PATCH 069/104] fix: conformant parameters of one list could not
 share their bounds

---
 expr.cpp   | 18 ++++++++++++------
 parser.cpp |  7 +++++++
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index 2dfb981..b227263 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -1977,6 +1977,7 @@ void PrototypeAST::CreateArgumentAlloca()
 	// Now "done" with this argument, so skip to next.
 	ai++;
     }
+    const Types::DynRangeDecl* lastRange = 0;
     for (unsigned idx = offset; idx < args.size(); idx++, ai++)
     {
 	llvm::Value* a;
@@ -1997,13 +1998,18 @@ void PrototypeAST::CreateArgumentAlloca()
 		{
 		    CopyConformantArray(dty, a);
 		}
-		if (!variables.Add(dr->LowName(), low))
+		// The parameters of one list share their bounds
+		if (dr != lastRange)
 		{
-		    Error(this, "Duplicate Variable name");
-		}
-		if (!variables.Add(dr->HighName(), high))
-		{
-		    Error(this, "Duplicate Variable name");
+		    if (!variables.Add(dr->LowName(), low))
+		    {
+			Error(this, "Duplicate Variable name");
+		    }
+		    if (!variables.Add(dr->HighName(), high))
+		    {
+			Error(this, "Duplicate Variable name");
+		    }
+		    lastRange = dr;
 		}
 	    }
 	}
diff --git a/parser.cpp b/parser.cpp
index 75e9a82..2e54da4 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -3704,6 +3704,7 @@ FunctionAST* Parser::ParseDefinition(int level)
 	nameStack.Add(vd);
     }
 
+    const Types::DynRangeDecl* lastRange = 0;
     for (auto& v : proto->Args())
     {
 	if (!nameStack.Add(v.SourceName(), &v))
@@ -3713,6 +3714,12 @@ FunctionAST* Parser::ParseDefinition(int level)
 	if (auto dty = llvm::dyn_cast<Types::DynArrayDecl>(v.Type()))
 	{
 	    Types::DynRangeDecl* dr = dty->Range();
+	    // The parameters of one list share their bounds
+	    if (dr == lastRange)
+	    {
+		continue;
+	    }
+	    lastRange = dr;
 	    if (!nameStack.Add(new VarDef(dr->LowName(), dr->SubType())))
 	    {
 		return Error("Duplicate name '" + dr->LowName() + "'.");
-- 
2.43.0


From fc9002394045af2bb0f75727f235ff221e7e1d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:51 +0000
Subject: [PATCH 070/104] fix: with -m32, real arithmetic was not rounded to
 double

---
 binary.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/binary.cpp b/binary.cpp
index be1ce48..ba17c82 100644
--- a/binary.cpp
+++ b/binary.cpp
@@ -77,6 +77,11 @@ static void CreateObject(llvm::Module* module, const std::string& objname)
     {
 	mcpu = llvm::sys::getHostCPUName().str();
     }
+    // As clang does: with SSE2, real arithmetic is rounded to double, and not kept in x87 registers.
+    if (mcpu.empty() && triple.getArch() == llvm::Triple::x86)
+    {
+	mcpu = "pentium4";
+    }
 
     llvm::TargetOptions                  options;
     std::string                          FeaturesStr = GetFeatureString();
-- 
2.43.0


From 34a35f1694cf90dbe69c406ba41173c32242c0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:51 +0000
Subject: [PATCH 071/104] fix: the complex square root lost its smaller part

---
 runtime/cmath.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/runtime/cmath.c b/runtime/cmath.c
index ee64b03..8011f6e 100644
--- a/runtime/cmath.c
+++ b/runtime/cmath.c
@@ -6,8 +6,11 @@
 
 void __csqrt(struct Complex* res, struct Complex a)
 {
-    res->r = sqrt((a.r + sqrt(a.r * a.r + a.i * a.i)) / 2);
-    res->i = copysign(sqrt((-a.r + sqrt(a.r * a.r + a.i * a.i)) / 2), a.i);
+    // The larger part first: the smaller one then follows without cancellation.
+    double m = sqrt((fabs(a.r) + hypot(a.r, a.i)) / 2);
+    double n = m ? fabs(a.i) / (2 * m) : 0;
+    res->r = a.r < 0 ? n : m;
+    res->i = copysign(a.r < 0 ? m : n, a.i);
 }
 
 double __carg(struct Complex a)
-- 
2.43.0


From 46482ac63feb49f8a6f336050930d16fde60d7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:51 +0000
Subject: [PATCH 072/104] fix: re, im, abs and sqr of a complex expression
 crashed the compiler

---
 builtin.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/builtin.cpp b/builtin.cpp
index 2cecd98..1962d0d 100644
--- a/builtin.cpp
+++ b/builtin.cpp
@@ -585,8 +585,7 @@ namespace Builtin
 	{
 	    llvm::Constant* zero = MakeIntegerConstant(0);
 	    llvm::Constant* one = MakeIntegerConstant(1);
-	    auto            v = llvm::dyn_cast<AddressableAST>(args[0]);
-	    llvm::Value*    a = v->Address();
+	    llvm::Value*    a = MakeAddressable(args[0]);
 	    llvm::Type*     ty = Types::Get<Types::RealDecl>()->LlvmType();
 
 	    llvm::Value* re = builder.CreateLoad(ty, builder.CreateGEP(ty, a, zero, "re"));
@@ -640,8 +639,7 @@ namespace Builtin
 	{
 	    llvm::Constant* zero = MakeIntegerConstant(0);
 	    llvm::Constant* one = MakeIntegerConstant(1);
-	    auto            v = llvm::dyn_cast<AddressableAST>(args[0]);
-	    llvm::Value*    a = v->Address();
+	    llvm::Value*    a = MakeAddressable(args[0]);
 	    llvm::Type*     ty = Types::Get<Types::RealDecl>()->LlvmType();
 	    llvm::Type*     cplxTy = Types::Get<Types::ComplexDecl>()->LlvmType();
 
@@ -1837,8 +1835,7 @@ namespace Builtin
 
     llvm::Value* FunctionReIm::CodeGen(llvm::IRBuilder<>& builder)
     {
-	auto         cmplx = llvm::dyn_cast<AddressableAST>(args[0]);
-	llvm::Value* caddr = cmplx->Address();
+	llvm::Value* caddr = MakeAddressable(args[0]);
 	llvm::Type*  realTy = Types::Get<Types::RealDecl>()->LlvmType();
 
 	return builder.CreateLoad(realTy,
-- 
2.43.0


From 2d8cadab55d019f93cb0083ec8f6c2541d454bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:51 +0000
Subject: [PATCH 073/104] fix: <> of reals and complex numbers was false for
 NaN

---
 expr.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index b227263..0db92e2 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -1287,7 +1287,7 @@ static llvm::Value* DoubleBinExpr(llvm::Value* l, llvm::Value* r, const Token& o
     case Token::Equal:
 	return builder.CreateFCmpOEQ(l, r, "eq");
     case Token::NotEqual:
-	return builder.CreateFCmpONE(l, r, "ne");
+	return builder.CreateFCmpUNE(l, r, "ne");
     case Token::LessThan:
 	return builder.CreateFCmpOLT(l, r, "lt");
     case Token::LessOrEqual:
@@ -1412,10 +1412,10 @@ static llvm::Value* ComplexBinExpr(llvm::Value* l, llvm::Value* r, const Token&
     {
 	llvm::Value* lr = builder.CreateLoad(realTy, builder.CreateGEP(cmplxTy, l, { zero, zero }, "lr"));
 	llvm::Value* rr = builder.CreateLoad(realTy, builder.CreateGEP(cmplxTy, r, { zero, zero }, "rr"));
-	llvm::Value* re = builder.CreateFCmpONE(lr, rr, "ner");
+	llvm::Value* re = builder.CreateFCmpUNE(lr, rr, "ner");
 	llvm::Value* li = builder.CreateLoad(realTy, builder.CreateGEP(cmplxTy, l, { zero, one }, "li"));
 	llvm::Value* ri = builder.CreateLoad(realTy, builder.CreateGEP(cmplxTy, r, { zero, one }, "ri"));
-	llvm::Value* ie = builder.CreateFCmpONE(li, ri, "nei");
+	llvm::Value* ie = builder.CreateFCmpUNE(li, ri, "nei");
 	return builder.CreateOr(re, ie, "res");
     }
 
-- 
2.43.0


From 4170c54baa6e989193ba1e267c1d7492a7c73026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:51 +0000
Subject: [PATCH 074/104] fix: unary minus of a complex value crashed the
 compiler

---
 expr.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/expr.cpp b/expr.cpp
index 0db92e2..51b549a 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -1586,6 +1586,14 @@ llvm::Value* UnaryExprAST::CodeGen()
 	    return builder.CreateFNeg(r, "minus");
 	}
     }
+    if (llvm::isa<Types::ComplexDecl>(rhs->Type()) && oper.GetToken() == Token::Minus)
+    {
+	for (unsigned part : { 0, 1 })
+	{
+	    r = builder.CreateInsertValue(r, builder.CreateFNeg(builder.CreateExtractValue(r, part)), part, "minus");
+	}
+	return r;
+    }
     return Error(this, "Unknown operation: " + oper.ToString());
 }
 
-- 
2.43.0


From afa860f69a19dc786fb428d87c6e250b75633fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:51 +0000
Subject: [PATCH 075/104] fix: an integer expression converted to complex was
 evaluated twice

---
 expr.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expr.cpp b/expr.cpp
index 51b549a..af26a4b 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -4179,7 +4179,7 @@ llvm::Value* TypeCastAST::Address()
 
 	if (IsIntegral(current))
 	{
-	    re = builder.CreateSIToFP(expr->CodeGen(), realTy, "tofp");
+	    re = builder.CreateSIToFP(re, realTy, "tofp");
 	}
 	llvm::Value* im = MakeRealConstant(0.0);
 
-- 
2.43.0


From 15741aafbce790d824287a97117f7f5541fc157e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:11 +0000
Subject: [PATCH 076/104] fix: a pointer to its own type in a variant part or
 nested record crashed the compiler

---
 types.cpp | 129 +++++++-----------------------------------------------
 types.h   |   8 +---
 2 files changed, 18 insertions(+), 119 deletions(-)

diff --git a/types.cpp b/types.cpp
index 880d133..0b0b236 100644
--- a/types.cpp
+++ b/types.cpp
@@ -311,11 +311,21 @@ namespace Types
 
     llvm::Type* PointerDecl::GetLlvmType() const
     {
-	return llvm::PointerType::getUnqual(baseType->LlvmType());
+	// The same whatever it points at, which need not be complete yet.
+	return llvm::PointerType::getUnqual(theContext);
     }
 
     llvm::DIType* PointerDecl::GetDIType(llvm::DIBuilder* builder) const
     {
+	// What was declared after the pointer may contain it: filled in when everything is known.
+	if (IsForward() && !baseType->DiType())
+	{
+	    llvm::DIType* fwd = builder->createReplaceableCompositeType(
+	        llvm::dwarf::DW_TAG_structure_type, "", 0, 0, 0, 0, baseType->Size() * CHAR_BIT,
+	        baseType->AlignSize() * CHAR_BIT, llvm::DINode::FlagFwdDecl, "");
+	    baseType->DiType(fwd);
+	    fwdMap.push_back(std::make_pair(baseType, llvm::TrackingMDRef(fwd)));
+	}
 	llvm::DIType* pointeeType = baseType->DebugType(builder);
 	if (!pointeeType)
 	{
@@ -628,17 +638,6 @@ namespace Types
 	for (auto f : fields)
 	{
 	    llvm::Type* ty = f->LlvmType();
-	    if (auto pf = llvm::dyn_cast<PointerDecl>(f->SubType()))
-	    {
-		if (pf->IsIncomplete())
-		{
-		    if (!opaqueType)
-		    {
-			opaqueType = llvm::StructType::create(theContext, name);
-		    }
-		    return opaqueType;
-		}
-	    }
 	    size_t sz = dl.getTypeAllocSize(ty);
 	    maxSize = std::max(maxSize, sz);
 	    maxAlign = std::max(maxAlign, dl.getABITypeAlign(ty));
@@ -660,12 +659,7 @@ namespace Types
 
     void FieldCollection::EnsureSized() const
     {
-	if (opaqueType && opaqueType->isOpaque())
-	{
-	    [[maybe_unused]] llvm::Type* ty = GetLlvmType();
-	    ICE_IF(ty != opaqueType, "Expect opaqueType to be returned");
-	    ICE_IF(opaqueType->isOpaque(), "Expect opaqueness to have gone away");
-	}
+	LlvmType();
     }
 
     // This is a very basic algorithm, but I think it's good enough for
@@ -748,28 +742,12 @@ namespace Types
 	std::vector<llvm::Type*> fv;
 	for (auto f : fields)
 	{
-	    if (auto pf = llvm::dyn_cast_or_null<PointerDecl>(f->SubType()))
-	    {
-		if (pf->IsIncomplete() || !HasLlvmType(f))
-		{
-		    if (!opaqueType)
-		    {
-			opaqueType = llvm::StructType::create(theContext, name);
-		    }
-		    return opaqueType;
-		}
-	    }
 	    fv.push_back(f->LlvmType());
 	}
 	if (variant)
 	{
 	    fv.push_back(variant->LlvmType());
 	}
-	if (opaqueType)
-	{
-	    opaqueType->setBody(fv);
-	    return opaqueType;
-	}
 	if (fv.empty())
 	{
 	    fv.push_back(llvm::Type::getInt8Ty(theContext));
@@ -798,38 +776,10 @@ namespace Types
 	// TODO: Need to deal with recursive types here...
 	for (auto f : fields)
 	{
-	    llvm::DIType* d = 0;
-	    size_t        size = 0;
-	    size_t        align = 0;
-	    if (auto pf = llvm::dyn_cast<PointerDecl>(f->SubType()))
-	    {
-		if (pf->IsForward() && !pf->DiType())
-		{
-		    std::string fullname = "";
-		    size = pf->SubType()->Size();
-		    align = pf->SubType()->AlignSize();
-		    d = builder->createReplaceableCompositeType(llvm::dwarf::DW_TAG_structure_type, "", scope,
-		                                                unit, lineNo, 0, size, align,
-		                                                llvm::DINode::FlagFwdDecl, fullname);
-		    pf->SubType()->DiType(d);
-		    fwdMap.push_back(std::make_pair(pf->SubType(), llvm::TrackingMDRef(d)));
-		    size = pf->Size();
-		    align = pf->AlignSize();
-		    d = builder->createPointerType(d, size, align);
-		    pf->DiType(d);
-		}
-		else
-		{
-		    d = pf->DiType();
-		}
-	    }
-	    if (!d)
-	    {
-		d = f->DebugType(builder);
-		ICE_IF(!d, "Expected debug type here");
-	    }
-	    size = f->Size() * CHAR_BIT;
-	    align = f->AlignSize() * CHAR_BIT;
+	    llvm::DIType* d = f->DebugType(builder);
+	    ICE_IF(!d, "Expected debug type here");
+	    size_t size = f->Size() * CHAR_BIT;
+	    size_t align = f->AlignSize() * CHAR_BIT;
 	    size_t offsetInBits = 0;
 	    if (sl)
 	    {
@@ -1111,17 +1061,6 @@ namespace Types
 
 	    if (!f->IsStatic())
 	    {
-		if (auto pd = llvm::dyn_cast<PointerDecl>(f->SubType()))
-		{
-		    if (pd->IsIncomplete() && !HasLlvmType(pd))
-		    {
-			if (!opaqueType)
-			{
-			    opaqueType = llvm::StructType::create(theContext, Name());
-			}
-			return opaqueType;
-		    }
-		}
 		fv.push_back(f->LlvmType());
 	    }
 	}
@@ -1129,11 +1068,6 @@ namespace Types
 	{
 	    fv.push_back(variant->LlvmType());
 	}
-	if (opaqueType)
-	{
-	    opaqueType->setBody(fv);
-	    return opaqueType;
-	}
 	if (!fv.size())
 	{
 	    llvm::StructType* ty = llvm::StructType::create(theContext, Name());
@@ -1454,37 +1388,6 @@ namespace Types
 	}
     }
 
-    bool HasLlvmType(const TypeDecl* t)
-    {
-	switch (t->Type())
-	{
-	case TypeDecl::TK_MemberFunc:
-	case TypeDecl::TK_Forward:
-	case TypeDecl::TK_Function:
-	    return false;
-
-	case TypeDecl::TK_Variant:
-	case TypeDecl::TK_Record:
-	case TypeDecl::TK_Class:
-	    return t->lType;
-
-	case TypeDecl::TK_String:
-	case TypeDecl::TK_File:
-	case TypeDecl::TK_Text:
-	case TypeDecl::TK_Set:
-	case TypeDecl::TK_Array:
-	case TypeDecl::TK_Field:
-	case TypeDecl::TK_Pointer:
-	{
-	    auto p = llvm::cast<CompoundDecl>(t);
-	    return HasLlvmType(p->SubType());
-	}
-
-	default:
-	    return true;
-	}
-    }
-
     bool IsCharArray(const TypeDecl* t)
     {
 	if (auto at = llvm::dyn_cast<ArrayDecl>(t))
diff --git a/types.h b/types.h
index dc1e5fc..3265988 100644
--- a/types.h
+++ b/types.h
@@ -49,7 +49,6 @@ namespace Types
     // The type that a subrange is a range of, for any other type the type itself.
     TypeDecl* HostType(TypeDecl* t);
     bool IsCompound(const TypeDecl* t);
-    bool HasLlvmType(const TypeDecl* t);
 
     // Range is either created by the user, or calculated on basetype
     class Range
@@ -73,8 +72,6 @@ namespace Types
 
     class TypeDecl
     {
-	friend bool HasLlvmType(const TypeDecl* t);
-
     public:
 	enum TypeKind
 	{
@@ -503,7 +500,7 @@ namespace Types
     {
     public:
 	FieldCollection(TypeKind k, const std::vector<FieldDecl*>& flds)
-	    : TypeDecl(k), fields(flds), opaqueType(0)
+	    : TypeDecl(k), fields(flds)
 	{
 	}
 	virtual int              Element(const std::string& name) const;
@@ -521,8 +518,7 @@ namespace Types
 	}
 
     protected:
-	std::vector<FieldDecl*>   fields;
-	mutable llvm::StructType* opaqueType;
+	std::vector<FieldDecl*> fields;
     };
 
     class VariantDecl : public FieldCollection
-- 
2.43.0


From 0dfe99cec5e39a1ffb8833a819da832a8a4dc227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:32 +0000
Subject: [PATCH 077/104] fix: a pointer inside a type could not refer to a
 type defined later

---
 parser.cpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/parser.cpp b/parser.cpp
index 2e54da4..8d8e251 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -209,6 +209,9 @@ private:
     Lexer                     lexer;
     Token                     curToken;
     Token                     nextToken;
+    // Pointers of the current type definitions to names not yet defined.
+    std::vector<Types::PointerDecl*> forwardPointers;
+    bool                             inTypeDef = false;
     bool                      nextTokenValid;
     std::string               moduleName;
     int                       errCnt;
@@ -1279,8 +1282,9 @@ Types::Schema* Parser::ParseSchemaVars()
 // Deal with type name = ... defintions
 void Parser::ParseTypeDef()
 {
-    std::vector<Types::PointerDecl*> incomplete;
     AssertToken(Token::Type);
+    forwardPointers.clear();
+    inTypeDef = true;
     do
     {
 	std::string name = GetIdentifier(ExpectConsume);
@@ -1317,7 +1321,7 @@ void Parser::ParseTypeDef()
 		auto pty = llvm::dyn_cast<Types::PointerDecl>(ty);
 		if (pty && pty->IsIncomplete())
 		{
-		    incomplete.push_back(pty);
+		    forwardPointers.push_back(pty);
 		}
 		if (!Expect(Token::Semicolon, ExpectConsume))
 		{
@@ -1338,7 +1342,8 @@ void Parser::ParseTypeDef()
     } while (CurrentToken().GetToken() == Token::Identifier);
 
     // Now fix up any incomplete types...
-    for (auto p : incomplete)
+    inTypeDef = false;
+    for (auto p : forwardPointers)
     {
 	if (!p->IsIncomplete())
 	{
@@ -1465,14 +1470,20 @@ Types::PointerDecl* Parser::ParsePointerType(Forwarding maybeForwarded)
 	    {
 		return new Types::PointerDecl(ty);
 	    }
-	    else
+	    else if (!inTypeDef)
 	    {
 		return Error("Unknown type '" + name + "' in pointer declaration");
 	    }
 	}
 	// Otherwise, forward declare...
 	Types::ForwardDecl* fwd = new Types::ForwardDecl(name);
-	return new Types::PointerDecl(fwd);
+	auto                ptr = new Types::PointerDecl(fwd);
+	if (maybeForwarded == NoForwarding)
+	{
+	    // Part of another type, the caller doesn't see it.
+	    forwardPointers.push_back(ptr);
+	}
+	return ptr;
     }
 
     if (Types::TypeDecl* ty = ParseType("", NoForwarding))
-- 
2.43.0


From 64a457e18d9cb5009b910ab22f2e3ec12955c839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:32 +0000
Subject: [PATCH 078/104] fix: -g crashed on fields without a debug description
 and on mutually recursive types

---
 types.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/types.cpp b/types.cpp
index 0b0b236..f5dda29 100644
--- a/types.cpp
+++ b/types.cpp
@@ -777,7 +777,12 @@ namespace Types
 	for (auto f : fields)
 	{
 	    llvm::DIType* d = f->DebugType(builder);
-	    ICE_IF(!d, "Expected debug type here");
+	    if (!d)
+	    {
+		// Not every type has a debug description.
+		index++;
+		continue;
+	    }
 	    size_t size = f->Size() * CHAR_BIT;
 	    size_t align = f->AlignSize() * CHAR_BIT;
 	    size_t offsetInBits = 0;
@@ -1464,8 +1469,10 @@ namespace Types
 
     void Finalize(llvm::DIBuilder* builder)
     {
-	for (auto t : fwdMap)
+	// Describing one type can find further forward declared ones.
+	for (size_t i = 0; i < fwdMap.size(); i++)
 	{
+	    auto          t = fwdMap[i];
 	    llvm::DIType* ty = llvm::cast<llvm::DIType>(t.second);
 
 	    t.first->ResetDebugType();
-- 
2.43.0


From fcb86e3bec3f938d8a2195afd4d5a14c615959f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:49 +0000
Subject: [PATCH 079/104] fix: a comment directly after another comment was not
 recognised

---
 lexer.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/lexer.cpp b/lexer.cpp
index a0ea905..fd23c19 100644
--- a/lexer.cpp
+++ b/lexer.cpp
@@ -252,7 +252,8 @@ Token Lexer::GetToken()
     int             ch = CurChar();
     const Location& w = Where();
 
-    do
+    // Skip any number of comments, and the blanks around them.
+    for (;;)
     {
 	while (isspace(ch))
 	{
@@ -265,7 +266,7 @@ Token Lexer::GetToken()
 		;
 	    ch = NextChar();
 	}
-	if (ch == '(' && PeekChar() == '*')
+	else if (ch == '(' && PeekChar() == '*')
 	{
 	    NextChar(); /* Skip first * */
 	    while ((ch = NextChar()) != EOF && !(ch == '*' && PeekChar() == ')'))
@@ -274,15 +275,18 @@ Token Lexer::GetToken()
 	    ch = NextChar();
 	}
 	// C++ style comments.
-	if (ch == '/' && PeekChar() == '/')
+	else if (ch == '/' && PeekChar() == '/')
 	{
 	    do
 	    {
 		ch = NextChar();
 	    } while (ch != '\n' && ch != EOF);
 	}
-
-    } while (isspace(ch));
+	else
+	{
+	    break;
+	}
+    }
 
     // EOF -> return now...
     if (ch == EOF)
-- 
2.43.0


From 2d11d55a807042cbd92df6d5c63071ebec2a6da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:58 +0000
Subject: [PATCH 080/104] fix: otherwise needed a semicolon before it

---
 parser.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser.cpp b/parser.cpp
index 8d8e251..4624f1b 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -4051,7 +4051,9 @@ ExprAST* Parser::ParseCaseExpr()
 	    ExprAST*       s = ParseStatement();
 	    labels.push_back(new LabelExprAST(locColon, ranges, s));
 	    ranges.clear();
-	    if (!ExpectSemicolonOrEnd())
+	    // The semicolon is optional before otherwise.
+	    if (CurrentToken().GetToken() != Token::Otherwise && CurrentToken().GetToken() != Token::Else &&
+	        !ExpectSemicolonOrEnd())
 	    {
 		return 0;
 	    }
-- 
2.43.0


From 86d487d7c1b0eadec9a88f2dca48ab6b0baa0636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:02 +0000
Subject: [PATCH 081/104] fix: with -m32, writing an enumerated value crashed
 the compiler

---
 types.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/types.cpp b/types.cpp
index f5dda29..e71f436 100644
--- a/types.cpp
+++ b/types.cpp
@@ -1461,7 +1461,9 @@ namespace Types
 		new FieldDecl("offset", new ArrayDecl(Get<IntegerDecl>(), r), false)
 	    };
 	    enum2strType = new RecordDecl(fields, nullptr);
-	    ICE_IF(sizeof(EnumToString) != enum2strType->Size(),
+	    // The size of the pointer is that of the target.
+	    size_t ptrSize = theModule->getDataLayout().getPointerSize();
+	    ICE_IF(sizeof(EnumToString) - sizeof(char*) + ptrSize != enum2strType->Size(),
 	           "Runtime and EnumToString type should match in size");
 	}
 	return enum2strType;
-- 
2.43.0


From 6c12b9f6ee45828fd27c934add1ea8814b9e401b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:06 +0000
Subject: [PATCH 082/104] fix: -g crashed on arrays and sets with a negative
 upper bound

---
 types.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/types.cpp b/types.cpp
index e71f436..4dbef6d 100644
--- a/types.cpp
+++ b/types.cpp
@@ -369,7 +369,7 @@ namespace Types
 	for (auto r : ranges)
 	{
 	    Range* rr = r->GetRange();
-	    subscripts.push_back(builder->getOrCreateSubrange(rr->Start(), rr->End()));
+	    subscripts.push_back(builder->getOrCreateSubrange(rr->Start(), rr->Size()));
 	}
 	llvm::DIType* bd = baseType->DebugType(builder);
 	if (!bd)
@@ -1199,8 +1199,7 @@ namespace Types
     llvm::DIType* SetDecl::GetDIType(llvm::DIBuilder* builder) const
     {
 	std::vector<llvm::Metadata*> subscripts;
-	Range*                       rr = range->GetRange();
-	subscripts.push_back(builder->getOrCreateSubrange(rr->Start(), rr->End()));
+	subscripts.push_back(builder->getOrCreateSubrange(0, SetWords()));
 	llvm::DIType*     bd = builder->createBasicType("INTEGER", 32, llvm::dwarf::DW_ATE_unsigned);
 	llvm::DINodeArray subsArray = builder->getOrCreateArray(subscripts);
 	return builder->createArrayType(baseType->Size() * CHAR_BIT, baseType->AlignSize() * CHAR_BIT, bd,
-- 
2.43.0


From 266e059d637eb2cb68fff612550b03907ca06047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:32 +0000
Subject: [PATCH 083/104] fix: -g crashed on a call whose arguments are named
 constants

---
 expr.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/expr.cpp b/expr.cpp
index af26a4b..5ed1bd5 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -124,7 +124,8 @@ DebugInfo::~DebugInfo()
 
 static void BasicDebugInfo(ExprAST* e)
 {
-    if (debugInfo)
+    // What has no location of its own, such as a named constant, belongs to what surrounds it.
+    if (debugInfo && e->Loc().LineNumber() != 0)
     {
 	GetDebugInfo().EmitLocation(e->Loc());
     }
-- 
2.43.0


From 0e5b7e4609a3f2f2956850d29d3dbbbadcf055ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:54 +0000
Subject: [PATCH 084/104] fix: LLVM discarded the debug info of emitted IR, as
 it had no version

---
 expr.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/expr.cpp b/expr.cpp
index 5ed1bd5..266b984 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -4390,6 +4390,12 @@ llvm::Value* UnitAST::CodeGen()
     {
 	const Location& loc = Loc();
 
+	// Without this, LLVM discards the debug info.
+	if (!theModule->getModuleFlag("Debug Info Version"))
+	{
+	    theModule->addModuleFlag(llvm::Module::Warning, "Debug Info Version", llvm::DEBUG_METADATA_VERSION);
+	}
+
 	// TODO: Fix path and add flags.
 	di.builder = new llvm::DIBuilder(*theModule, true);
 	llvm::DIFile* file = di.builder->createFile(loc.FileName(), ".");
-- 
2.43.0


From 37cdd45f77e9d2f16d7bb10fd41fdd705bc4819d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:54 +0000
Subject: [PATCH 085/104] fix: dumping for-in loops and labels crashed the
 compiler

---
 expr.cpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index 266b984..3738b5a 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -2523,15 +2523,18 @@ void ForExprAST::DoDump() const
 {
     std::cerr << "for: " << std::endl;
     start->DoDump();
-    if (stepDown)
-    {
-	std::cerr << " downto ";
-    }
-    else
+    if (end)
     {
-	std::cerr << " to ";
+	if (stepDown)
+	{
+	    std::cerr << " downto ";
+	}
+	else
+	{
+	    std::cerr << " to ";
+	}
+	end->DoDump();
     }
-    end->DoDump();
     std::cerr << " do ";
     body->DoDump();
 }
@@ -3528,7 +3531,10 @@ void LabelExprAST::DoDump() const
 	first = false;
     }
     std::cerr << ": ";
-    stmt->DoDump();
+    if (stmt)
+    {
+	stmt->DoDump();
+    }
 }
 
 llvm::Value* LabelExprAST::CodeGen()
-- 
2.43.0


From 550744a807053c6615647e96243cda3eb996e361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:54 +0000
Subject: [PATCH 086/104] fix: -g crashed on pointers to types without a debug
 description

---
 types.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/types.cpp b/types.cpp
index 4dbef6d..e92cabd 100644
--- a/types.cpp
+++ b/types.cpp
@@ -1478,6 +1478,10 @@ namespace Types
 
 	    t.first->ResetDebugType();
 	    llvm::DIType* newTy = t.first->DebugType(builder);
+	    if (!newTy)
+	    {
+		newTy = builder->createUnspecifiedType("unknown");
+	    }
 
 	    builder->replaceTemporary(llvm::TempDIType(ty), newTy);
 	}
-- 
2.43.0


From 2ecb0cfa5eaa12a7e4d3e2c4ea0ff309eb90e466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:54 +0000
Subject: [PATCH 087/104] fix: enumerated types were rejected as index types
 and set base types

---
 parser.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/parser.cpp b/parser.cpp
index 4624f1b..1d29567 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -821,6 +821,17 @@ Types::RangeBaseDecl* Parser::ParseRangeOrTypeRange(Types::TypeDecl*& type, Toke
 	return new Types::RangeDecl(type->GetRange(), type);
     }
 
+    // A new enumerated type, unless it is a range whose lower bound is a parenthesised constant.
+    if (CurrentToken().GetToken() == Token::LeftParen && PeekToken() == Token::Identifier &&
+        !GetConstDecl(nextToken.GetIdentName()) && !GetEnumValue(nextToken.GetIdentName()))
+    {
+	if (!(type = ParseEnumDef()))
+	{
+	    return 0;
+	}
+	return new Types::RangeDecl(type->GetRange(), type);
+    }
+
     return ParseRange(type, endToken, altToken, schema);
 }
 
-- 
2.43.0


From f2b68cf49daafdea8f5231f92075bb20e5fe1082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:38 +0000
Subject: [PATCH 088/104] fix: source file names with blanks or shell
 characters could not be linked

---
 binary.cpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/binary.cpp b/binary.cpp
index ba17c82..342643f 100644
--- a/binary.cpp
+++ b/binary.cpp
@@ -129,6 +129,24 @@ std::string replace_ext(const std::string& origName, const std::string& expected
     return origName.substr(0, origName.size() - expectedExt.size()) + newExt;
 }
 
+// Makes one word of the shell out of a file name, whatever characters it has.
+static std::string ShellQuote(const std::string& name)
+{
+    std::string quoted = "'";
+    for (auto c : name)
+    {
+	if (c == '\'')
+	{
+	    quoted += "'\\''";
+	}
+	else
+	{
+	    quoted += c;
+	}
+    }
+    return quoted + "'";
+}
+
 bool CreateBinary(llvm::Module* module, const std::string& filename, EmitType emit)
 {
     TIME_TRACE();
@@ -160,8 +178,8 @@ bool CreateBinary(llvm::Module* module, const std::string& filename, EmitType em
 	{
 	    debugFlag = " -g";
 	}
-	std::string cmd = compiler + " " + modelStr + verboseflags + " " + objname + " -L\"" + libpath +
-	                  "\" -lruntime" + modelStr + debugFlag + " -lm -o " + exename;
+	std::string cmd = compiler + " " + modelStr + verboseflags + " " + ShellQuote(objname) + " -L" +
+	                  ShellQuote(libpath) + " -lruntime" + modelStr + debugFlag + " -lm -o " + ShellQuote(exename);
 	if (verbosity)
 	{
 	    std::cerr << "Executing final link command: " << cmd << std::endl;
-- 
2.43.0


From e1eb9f0b161a2eab4f171a67b4442dc3aa0dae5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:27 +0000
Subject: [PATCH 089/104] fix: only the last variable of a list got the initial
 value

---
 parser.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser.cpp b/parser.cpp
index 1d29567..ef7ee45 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -3302,6 +3302,7 @@ VarDeclAST* Parser::ParseVarDecls()
 	{
 	    if (Types::TypeDecl* type = ParseType("", NoForwarding))
 	    {
+		const size_t first = varList.size();
 		for (auto n : ccv.Names())
 		{
 		    VarDef v = MakeVarDef(n, type, nameStack.MaxLevel());
@@ -3324,7 +3325,10 @@ VarDeclAST* Parser::ParseVarDecls()
 		{
 		    init = type->Init();
 		}
-		varList.back().SetInit(init);
+		for (size_t i = first; i < varList.size(); i++)
+		{
+		    varList[i].SetInit(init);
+		}
 		good = Expect(Token::Semicolon, ExpectConsume);
 	    }
 	}
-- 
2.43.0


From 3ff4fc8a31e5f724cdc4d2da5f4c2766fdb2d284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:33 +0000
Subject: [PATCH 090/104] fix: initial values of a type other than the
 variable's were stored as they were

---
 expr.cpp   | 21 ++++++++----------
 parser.cpp | 65 +++++++++++++++++++++++++++++++++++++++++++-----------
 2 files changed, 61 insertions(+), 25 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index 3738b5a..77f92db 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -4495,18 +4495,9 @@ void TrampolineAST::accept(ASTVisitor& v)
 
 static llvm::Constant* MakeCharArray(Types::TypeDecl* type, const ExprAST* value)
 {
-    std::string val;
-    if (llvm::isa<Types::CharDecl>(value->Type()))
-    {
-	int v = llvm::cast<IntegerExprAST>(value)->Int();
-	val.resize(1, v);
-    }
-    else
-    {
-	auto se = llvm::dyn_cast<StringExprAST>(value);
-	assert(se && "Expect this to be a string");
-	val = se->Str();
-    }
+    auto se = llvm::dyn_cast<StringExprAST>(value);
+    ICE_IF(!se, "Expected this to be a string");
+    const std::string& val = se->Str();
 
     auto        arrTy = llvm::dyn_cast<llvm::ArrayType>(type->LlvmType());
     llvm::Type* eltTy = arrTy->getElementType();
@@ -4569,6 +4560,12 @@ llvm::Value* InitValueAST::CodeGen()
 	    arrty, llvm::ArrayRef<llvm::Constant*>(initArr.data(), size));
 	return init;
     }
+    if (llvm::isa<Types::ComplexDecl>(type))
+    {
+	auto re = llvm::cast<llvm::Constant>(values[0]->CodeGen());
+	return llvm::ConstantStruct::get(llvm::cast<llvm::StructType>(type->LlvmType()),
+	                                 { re, llvm::Constant::getNullValue(re->getType()) });
+    }
     return values[0]->CodeGen();
 }
 
diff --git a/parser.cpp b/parser.cpp
index ef7ee45..e33eb8d 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -3039,31 +3039,70 @@ ExprAST* Parser::ParseSetExpr(Types::TypeDecl* setType)
     return 0;
 }
 
+static bool InRange(Types::TypeDecl* ty, int64_t value)
+{
+    if (llvm::isa<Types::BoolDecl>(ty))
+    {
+	return value == 0 || value == 1;
+    }
+    if (llvm::isa<Types::Int64Decl>(ty))
+    {
+	return true;
+    }
+    const Types::Range* range = ty->GetRange();
+    return range->Start() <= value && value <= range->End();
+}
+
 ExprAST* Parser::ConstDeclToExpr(const Location& loc, Types::TypeDecl* ty, const Constants::ConstDecl* c)
 {
-    if (IsIntegral(c->Type()))
+    const bool isReal = llvm::isa<Types::RealDecl, Types::ComplexDecl>(ty);
+    if (IsIntegral(c->Type()) && IsIntegral(ty))
     {
-	if (llvm::isa<Types::RealDecl>(ty))
+	const bool isInt = ty->AssignableType(Types::Get<Types::IntegerDecl>());
+	if (!(isInt && llvm::isa<Constants::IntConstDecl>(c)) && !ty->AssignableType(c->Type()))
 	{
-	    if (auto ci = llvm::dyn_cast<Constants::IntConstDecl>(c))
-	    {
-		return new RealExprAST(loc, static_cast<int64_t>(ci->Value()));
-	    }
-	    return Error("Real constant initializer from incompatible type");
+	    return Error("Initial value has an incompatible type");
+	}
+	const int64_t value = Constants::ToInt(c);
+	if (!InRange(ty, value))
+	{
+	    return Error("Initial value is out of range");
+	}
+	return new IntegerExprAST(loc, value, ty);
+    }
+    if (auto ci = llvm::dyn_cast<Constants::IntConstDecl>(c))
+    {
+	if (isReal)
+	{
+	    return new RealExprAST(loc, static_cast<int64_t>(ci->Value()));
 	}
-	return new IntegerExprAST(loc, Constants::ToInt(c), c->Type());
     }
     if (auto rc = llvm::dyn_cast<Constants::RealConstDecl>(c))
     {
-	if (!llvm::isa<Types::RealDecl>(ty))
+	if (isReal)
 	{
-	    return Error("Real constant initializer into incompatible type");
+	    return new RealExprAST(loc, rc->Value());
 	}
-	return new RealExprAST(loc, rc->Value());
     }
-    if (auto sc = llvm::dyn_cast<Constants::StringConstDecl>(c))
+    if (llvm::isa<Constants::StringConstDecl, Constants::CharConstDecl>(c) &&
+        (llvm::isa<Types::StringDecl>(ty) || Types::IsCharArray(ty)))
     {
-	return new StringExprAST(loc, sc->Value(), sc->Type());
+	std::string str;
+	if (auto cc = llvm::dyn_cast<Constants::CharConstDecl>(c))
+	{
+	    str = std::string(1, cc->Value());
+	}
+	else
+	{
+	    str = llvm::cast<Constants::StringConstDecl>(c)->Value();
+	}
+	auto   sd = llvm::dyn_cast<Types::StringDecl>(ty);
+	size_t max = sd ? sd->Capacity() : ty->Size();
+	if (str.size() > max)
+	{
+	    return Error("Initial value is too long");
+	}
+	return new StringExprAST(loc, str, c->Type());
     }
     if (auto cd = llvm::dyn_cast<Constants::CompoundConstDecl>(c))
     {
-- 
2.43.0


From 04d23bb9225c38d1d6fa5aef2f33802114a9d88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:02 +0000
Subject: [PATCH 091/104] fix: structured initial values crashed the compiler
 or were taken without checks

---
 expr.cpp   |  64 +++++++++++++++----
 parser.cpp | 184 ++++++++++++++++++++++++++++++++---------------------
 2 files changed, 160 insertions(+), 88 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index 77f92db..5e8a640 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -4518,6 +4518,10 @@ static llvm::Constant* MakeCharArray(Types::TypeDecl* type, const ExprAST* value
 
 llvm::Value* InitValueAST::CodeGen()
 {
+    if (llvm::isa<InitValueAST, InitArrayAST, InitRecordAST>(values[0]))
+    {
+	return values[0]->CodeGen();
+    }
     if (auto set = llvm::dyn_cast<SetExprAST>(values[0]))
     {
 	return set->MakeConstantSetArray();
@@ -4578,15 +4582,36 @@ void InitValueAST::DoDump() const
     }
 }
 
+// The value of a part of a variable that no value is stated for.
+static llvm::Constant* DefaultValue(Types::TypeDecl* ty)
+{
+    if (ExprAST* init = ty->Init())
+    {
+	return llvm::cast<llvm::Constant>(init->CodeGen());
+    }
+    return llvm::Constant::getNullValue(ty->LlvmType());
+}
+
 llvm::Value* InitArrayAST::CodeGen()
 {
     auto aty = llvm::dyn_cast<Types::ArrayDecl>(type);
     ICE_IF(!aty, "Expected array type here");
-    ICE_IF(aty->Ranges().size() != 1, "Expect only 1D arrays right now");
-    Types::Range*                range = aty->Ranges()[0]->GetRange();
-    size_t                       size = range->Size();
+    auto   arrty = llvm::cast<llvm::ArrayType>(type->LlvmType());
+    size_t size = arrty->getNumElements();
+    // With several indexes, each value is that of an array over the second and following indexes.
+    const Types::Range* range = aty->Ranges()[0]->GetRange();
+    const size_t        stride = size / range->Size();
+
     std::vector<llvm::Constant*> initArr(size);
-    llvm::Constant*              otherwise = 0;
+    auto                         Set = [&](int64_t index, llvm::Constant* c)
+    {
+	size_t pos = (index - range->Start()) * stride;
+	for (size_t i = 0; i < stride; i++)
+	{
+	    initArr[pos + i] = (aty->Ranges().size() == 1) ? c : c->getAggregateElement(i);
+	}
+    };
+    llvm::Constant* otherwise = 0;
     for (auto v : values)
     {
 	auto c = llvm::dyn_cast<llvm::Constant>(v.Value()->CodeGen());
@@ -4595,11 +4620,11 @@ llvm::Value* InitArrayAST::CodeGen()
 	case ArrayInit::InitKind::Range:
 	    for (int64_t i = v.Start(); i <= v.End(); i++)
 	    {
-		initArr[i - range->Start()] = c;
+		Set(i, c);
 	    }
 	    break;
 	case ArrayInit::InitKind::Single:
-	    initArr[v.Start() - range->Start()] = c;
+	    Set(v.Start(), c);
 	    break;
 	case ArrayInit::InitKind::Otherwise:
 	    ICE_IF(otherwise, "Expected only one otherwise initializer");
@@ -4609,19 +4634,22 @@ llvm::Value* InitArrayAST::CodeGen()
 	    ICE("Unknown initializer kind");
 	}
     }
+    for (int64_t i = range->Start(); i <= range->End(); i++)
+    {
+	if (otherwise && !initArr[(i - range->Start()) * stride])
+	{
+	    Set(i, otherwise);
+	}
+    }
     for (auto& i : initArr)
     {
 	if (!i)
 	{
-	    i = otherwise;
+	    i = DefaultValue(aty->SubType());
 	}
     }
 
-    auto arrty = llvm::dyn_cast<llvm::ArrayType>(type->LlvmType());
-
-    llvm::Constant* init = llvm::ConstantArray::get(arrty,
-                                                    llvm::ArrayRef<llvm::Constant*>(initArr.data(), size));
-    return init;
+    return llvm::ConstantArray::get(arrty, initArr);
 }
 
 void InitArrayAST::DoDump() const
@@ -4652,7 +4680,8 @@ llvm::Value* InitRecordAST::CodeGen()
 {
     auto fty = llvm::dyn_cast<Types::FieldCollection>(type);
     ICE_IF(!fty, "Expected field collection type here");
-    std::vector<llvm::Constant*> initArr(fty->FieldCount());
+    auto                         ty = llvm::cast<llvm::StructType>(type->LlvmType());
+    std::vector<llvm::Constant*> initArr(ty->getNumElements());
 
     for (auto v : values)
     {
@@ -4662,7 +4691,14 @@ llvm::Value* InitRecordAST::CodeGen()
 	    initArr[e] = c;
 	}
     }
-    auto ty = llvm::dyn_cast<llvm::StructType>(type->LlvmType());
+    for (size_t i = 0; i < initArr.size(); i++)
+    {
+	if (!initArr[i])
+	{
+	    initArr[i] = ((int)i < fty->FieldCount()) ? DefaultValue(fty->GetElement(i)->SubType())
+	                                              : llvm::Constant::getNullValue(ty->getElementType(i));
+	}
+    }
 
     llvm::Constant* init = llvm::ConstantStruct::get(ty, initArr);
     return init;
diff --git a/parser.cpp b/parser.cpp
index e33eb8d..b5bfc06 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -960,6 +960,11 @@ public:
 		    }
 		    int64_t start = Constants::ToInt(cd);
 		    int64_t end = Constants::ToInt(cde);
+		    if (start > end)
+		    {
+			// No elements.
+			return true;
+		    }
 		    cd = new Constants::RangeConstDecl(loc, type, Types::Range(start, end));
 		}
 		else
@@ -2826,7 +2831,7 @@ ExprAST* Parser::ParseVariableExpr(const NamedObject* def)
     return new VariableExprAST(CurrentToken().Loc(), def->Name(), type);
 }
 
-static ExprAST* CreateSetExprFromSetConst(const Constants::SetConstDecl* set)
+static ExprAST* CreateSetExprFromSetConst(const Constants::SetConstDecl* set, Types::TypeDecl* type)
 {
     TRACE();
     std::vector<ExprAST*> setValues;
@@ -2848,7 +2853,7 @@ static ExprAST* CreateSetExprFromSetConst(const Constants::SetConstDecl* set)
 	ICE_IF(!e, "Expected to have an ExprAST now!");
 	setValues.push_back(e);
     }
-    return new SetExprAST(set->Loc(), setValues, set->Type());
+    return new SetExprAST(set->Loc(), setValues, type);
 }
 
 ExprAST* Parser::ParseCallOrVariableExpr(const Token& token)
@@ -2867,7 +2872,7 @@ ExprAST* Parser::ParseCallOrVariableExpr(const Token& token)
 	}
 	if (auto sd = llvm::dyn_cast<Constants::SetConstDecl>(cd))
 	{
-	    return CreateSetExprFromSetConst(sd);
+	    return CreateSetExprFromSetConst(sd, sd->Type());
 	}
     }
     if (const EnumDef* enumDef = llvm::dyn_cast_or_null<EnumDef>(def))
@@ -3104,11 +3109,34 @@ ExprAST* Parser::ConstDeclToExpr(const Location& loc, Types::TypeDecl* ty, const
 	}
 	return new StringExprAST(loc, str, c->Type());
     }
+    auto setConst = llvm::dyn_cast<Constants::SetConstDecl>(c);
+    auto setType = llvm::dyn_cast<Types::SetDecl>(ty);
+    if (setConst && setType)
+    {
+	for (auto v : setConst->Value())
+	{
+	    if (!setType->SubType()->AssignableType(v->Type()))
+	    {
+		return Error("Initial value has an incompatible type");
+	    }
+	    auto               rd = llvm::dyn_cast<Constants::RangeConstDecl>(v);
+	    const Types::Range r = rd ? rd->Value() : Types::Range(Constants::ToInt(v), Constants::ToInt(v));
+	    const Types::Range s = *setType->GetRange();
+	    if (r.Start() <= r.End() && (r.Start() < s.Start() || r.End() > s.End()))
+	    {
+		return Error("Initial value is out of range");
+	    }
+	}
+	return CreateSetExprFromSetConst(setConst, ty);
+    }
     if (auto cd = llvm::dyn_cast<Constants::CompoundConstDecl>(c))
     {
-	return cd->Value();
+	if (ty->SameAs(cd->Type()))
+	{
+	    return cd->Value();
+	}
     }
-    return Error("Unexpected constant type");
+    return Error("Initial value has an incompatible type");
 }
 
 class CCArrayInitList : public ListConsumer
@@ -3118,68 +3146,93 @@ public:
         : ListConsumer{ { Token::Comma, Token::Semicolon, { Token::Otherwise, NoExpectConsume } },
 	                { Token::RightSquare },
 	                ListConsumer::AllowEmpty::Yes }
-        , type(ty)
+        , type(ty->SubType()), index(ty->Ranges()[0])
     {
+	// An array with several indexes is an array of arrays.
+	if (ty->Ranges().size() > 1)
+	{
+	    std::vector<Types::RangeBaseDecl*> inner(ty->Ranges().begin() + 1, ty->Ranges().end());
+	    type = new Types::ArrayDecl(ty->SubType(), inner);
+	}
     }
     bool Consume(Parser& parser) override
     {
 	if (parser.AcceptToken(Token::Otherwise))
 	{
-	    ExprAST* e = parser.ParseInitValue(type->SubType());
-	    list.push_back({ e });
-	    return true;
-	}
-	else if (const Constants::ConstDecl* cd = parser.ParseConstExpr(
-	             { Token::Comma, Token::Colon, Token::DotDot, Token::Otherwise }))
-	{
-	    if (!llvm::isa<Constants::IntConstDecl, Constants::EnumConstDecl, Constants::CharConstDecl,
-	                   Constants::BoolConstDecl>(cd))
+	    ExprAST* e = parser.ParseInitValue(type);
+	    if (!e)
 	    {
-		parser.Error("Initializer index should be an integral type");
 		return false;
 	    }
-	    int  value = Constants::ToInt(cd);
-	    int  end = 0;
-	    bool hasEnd = false;
-	    if (parser.AcceptToken(Token::DotDot))
+	    for (auto v : list)
 	    {
-		cd = parser.ParseConstExpr({ Token::Colon });
-		if (!cd)
+		if (v.Kind() == ArrayInit::InitKind::Otherwise)
 		{
-		    return false;
+		    return parser.ErrorT(bool, "More than one otherwise in initializer");
 		}
-		if (!llvm::isa<Constants::IntConstDecl, Constants::EnumConstDecl, Constants::CharConstDecl,
-		               Constants::BoolConstDecl>(cd))
-		{
-		    parser.Error("Initializer index should be an integral type");
-		    return false;
-		}
-		end = Constants::ToInt(cd);
-		hasEnd = true;
 	    }
-	    parser.Expect(Token::Colon, ExpectConsume);
-	    ExprAST* e = parser.ParseInitValue(type->SubType());
-	    if (!e)
-	    {
-		return false;
-	    }
-	    if (hasEnd)
-	    {
-		list.push_back({ value, end, e });
-	    }
-	    else
+	    list.push_back({ e });
+	    return true;
+	}
+	int64_t start;
+	if (!ParseIndex(parser, start))
+	{
+	    return false;
+	}
+	int64_t    end = start;
+	const bool hasEnd = parser.AcceptToken(Token::DotDot);
+	if (hasEnd && !ParseIndex(parser, end))
+	{
+	    return false;
+	}
+	for (auto v : list)
+	{
+	    int64_t last = (v.Kind() == ArrayInit::InitKind::Single) ? v.Start() : v.End();
+	    if (v.Kind() != ArrayInit::InitKind::Otherwise && v.Start() <= end && start <= last)
 	    {
-		list.push_back({ value, e });
+		return parser.ErrorT(bool, "Duplicate initializer " + std::to_string(std::max(start, v.Start())));
 	    }
-	    return true;
 	}
-	return false;
+	parser.Expect(Token::Colon, ExpectConsume);
+	ExprAST* e = parser.ParseInitValue(type);
+	if (!e)
+	{
+	    return false;
+	}
+	list.push_back(hasEnd ? ArrayInit(start, end, e) : ArrayInit(start, e));
+	return true;
     }
     const std::vector<ArrayInit>& Values() { return list; }
 
 private:
+    bool ParseIndex(Parser& parser, int64_t& value)
+    {
+	const Constants::ConstDecl* cd = parser.ParseConstExpr(
+	    { Token::Comma, Token::Colon, Token::DotDot, Token::Otherwise });
+	if (!cd)
+	{
+	    return false;
+	}
+	if (!llvm::isa<Constants::IntConstDecl, Constants::EnumConstDecl, Constants::CharConstDecl,
+	               Constants::BoolConstDecl>(cd))
+	{
+	    return parser.ErrorT(bool, "Initializer index should be an integral type");
+	}
+	if (!index->AssignableType(cd->Type()))
+	{
+	    return parser.ErrorT(bool, "Initializer index has an incompatible type");
+	}
+	value = Constants::ToInt(cd);
+	if (value < index->GetRange()->Start() || value > index->GetRange()->End())
+	{
+	    return parser.ErrorT(bool, "Initializer index is out of range");
+	}
+	return true;
+    }
+
     std::vector<ArrayInit> list;
-    Types::ArrayDecl*      type;
+    Types::TypeDecl*       type;
+    Types::RangeBaseDecl*  index;
 };
 
 class CCRecordInitList : public ListConsumer
@@ -3216,6 +3269,13 @@ public:
 		{
 		    fty = type->GetElement(elem);
 		}
+		for (auto& v : list)
+		{
+		    if (std::find(v.Elements().begin(), v.Elements().end(), elem) != v.Elements().end())
+		    {
+			return parser.ErrorT(bool, "Duplicate initializer for field " + fieldName);
+		    }
+		}
 		elems.push_back(elem);
 	    }
 	    else
@@ -3245,14 +3305,6 @@ ExprAST* Parser::ParseInitValue(Types::TypeDecl* ty)
     TRACE();
 
     const Location loc = CurrentToken().Loc();
-    if (llvm::isa<Types::SetDecl>(ty))
-    {
-	if (ExprAST* e = ParseSetExpr(ty))
-	{
-	    return new InitValueAST(loc, ty, { e });
-	}
-	return 0;
-    }
     if (llvm::isa<Types::PointerDecl>(ty))
     {
 	if (AcceptToken(Token::Nil))
@@ -3263,21 +3315,6 @@ ExprAST* Parser::ParseInitValue(Types::TypeDecl* ty)
     }
     if (auto arrTy = llvm::dyn_cast<Types::ArrayDecl>(ty))
     {
-	std::string name = GetIdentifier(NoExpectConsume);
-	if (!name.empty())
-	{
-	    if (const Constants::ConstDecl* cd = GetConstDecl(name))
-	    {
-		const Types::TypeDecl* tt = ty->AssignableType(cd->Type());
-		if (!tt)
-		{
-		    return Error("Incompatible type");
-		}
-		NextToken();
-		return new InitValueAST(loc, ty, { ConstDeclToExpr(loc, ty, cd) });
-	    }
-	    return Error("Unexpected identifier");
-	}
 	if (AcceptToken(Token::LeftSquare))
 	{
 	    CCArrayInitList cca(arrTy);
@@ -3287,10 +3324,6 @@ ExprAST* Parser::ParseInitValue(Types::TypeDecl* ty)
 	    }
 	    return 0;
 	}
-	else if (!IsStringLike(ty))
-	{
-	    return 0;
-	}
     }
     if (llvm::isa<Types::RecordDecl>(ty))
     {
@@ -3308,7 +3341,10 @@ ExprAST* Parser::ParseInitValue(Types::TypeDecl* ty)
                                                           Token::RightSquare, Token::Otherwise,
                                                           Token::RightParen }))
     {
-	return new InitValueAST(loc, ty, { ConstDeclToExpr(loc, ty, cd) });
+	if (ExprAST* e = ConstDeclToExpr(loc, ty, cd))
+	{
+	    return new InitValueAST(loc, ty, { e });
+	}
     }
     return 0;
 }
-- 
2.43.0


From 6bee816f063e0194142908fa05451edb3e68aa48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:02 +0000
Subject: [PATCH 092/104] fix: array elements and new variables did not get the
 initial value of their type

---
 builtin.cpp |  4 ++++
 expr.cpp    | 18 ++++++++++++++++--
 expr.h      |  1 +
 parser.cpp  |  7 ++++++-
 4 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/builtin.cpp b/builtin.cpp
index 1962d0d..2b40493 100644
--- a/builtin.cpp
+++ b/builtin.cpp
@@ -923,6 +923,10 @@ namespace Builtin
 		builder.CreateStore(gv, dest);
 	    }
 	}
+	else if (ExprAST* init = pd->SubType()->Init())
+	{
+	    StoreInit(llvm::cast<llvm::Constant>(init->CodeGen()), retVal);
+	}
 	return builder.CreateStore(retVal, pA);
     }
 
diff --git a/expr.cpp b/expr.cpp
index 5e8a640..dc84ef9 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -3418,6 +3418,21 @@ llvm::Value* VarDeclAST::CodeGenGlobal(VarDef var)
     return v;
 }
 
+void StoreInit(llvm::Constant* init, llvm::Value* dest)
+{
+    llvm::Type* ty = init->getType();
+    if (!ty->isAggregateType())
+    {
+	builder.CreateStore(init, dest);
+	return;
+    }
+    auto gv = new llvm::GlobalVariable(*theModule, ty, true, llvm::GlobalValue::PrivateLinkage, init, "init");
+    const llvm::DataLayout& dl = theModule->getDataLayout();
+    const llvm::Align       align = dl.getABITypeAlign(ty);
+    gv->setAlignment(align);
+    builder.CreateMemCpy(dest, align, gv, align, dl.getTypeAllocSize(ty));
+}
+
 static bool HoldsFile(const Types::TypeDecl* ty)
 {
     if (auto ad = llvm::dyn_cast<Types::ArrayDecl>(ty))
@@ -3450,8 +3465,7 @@ llvm::Value* VarDeclAST::CodeGenLocal(VarDef var)
     }
     else if (ExprAST* iv = var.Init())
     {
-	llvm::Value* init = iv->CodeGen();
-	builder.CreateStore(init, v);
+	StoreInit(llvm::cast<llvm::Constant>(iv->CodeGen()), v);
     }
     else if (HoldsFile(var.Type()))
     {
diff --git a/expr.h b/expr.h
index 82f3565..82a6085 100644
--- a/expr.h
+++ b/expr.h
@@ -1159,6 +1159,7 @@ private:
 // Useful global functions
 llvm::Constant*      MakeIntegerConstant(int val);
 llvm::Constant*      MakeBooleanConstant(int val);
+void                 StoreInit(llvm::Constant* init, llvm::Value* dest);
 llvm::Constant*      MakeConstant(uint64_t val, Types::TypeDecl* ty);
 llvm::Value*         MakeAddressable(ExprAST* e);
 llvm::Value*         MakeStringFromExpr(ExprAST* e, Types::TypeDecl* ty);
diff --git a/parser.cpp b/parser.cpp
index b5bfc06..7ef2c90 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -1557,7 +1557,12 @@ Types::TypeDecl* Parser::ParseArrayDecl(Types::Schema* schema)
 		{
 		    return new Types::SchemaArrayDecl(ty, rv);
 		}
-		return new Types::ArrayDecl(ty, rv);
+		auto arr = new Types::ArrayDecl(ty, rv);
+		if (ty->Init())
+		{
+		    arr->SetInit(new InitArrayAST(Location(), arr, {}));
+		}
+		return arr;
 	    }
 	}
     }
-- 
2.43.0


From 4727cec1f347b7773d27cdd5f87a1d89c619daf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:36 +0000
Subject: [PATCH 093/104] fix: elements of arrays indexed by several booleans
 or characters were confused

---
 expr.cpp | 36 ++++++++++++++++--------------------
 1 file changed, 16 insertions(+), 20 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index dc84ef9..7e5bff0 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -478,38 +478,34 @@ void ArrayExprAST::DoDump() const
     }
 }
 
-static Types::TypeDecl* FindIndexType(const std::vector<ExprAST*>& indices)
-{
-    ICE_IF(indices.size() == 0, "Expect at least one index");
-    Types::TypeDecl* type = indices[0]->Type();
-    size_t           size = type->Size();
-    for (size_t i = 1; i < indices.size(); i++)
-    {
-	if (size < indices[i]->Type()->Size())
-	{
-	    type = indices[i]->Type();
-	}
-    }
-    return type;
-}
-
 llvm::Value* ArrayExprAST::Address()
 {
     TRACE();
     llvm::Value* v = MakeAddressable(expr);
     ICE_IF(!v, "Expected variable to have an address");
     EnsureSized();
-    llvm::Value*     totalIndex = 0;
-    Types::TypeDecl* indexType = FindIndexType(indices);
-    for (size_t i = 0; i < indices.size(); i++)
+    std::vector<llvm::Value*> values;
+    llvm::Type*               indexTy = Types::Get<Types::IntegerDecl>()->LlvmType();
+    for (auto i : indices)
     {
-	auto range = llvm::dyn_cast<RangeReduceAST>(indices[i]);
+	auto range = llvm::dyn_cast<RangeReduceAST>(i);
 	ICE_IF(!range, "Expected a range here");
 	llvm::Value* index = range->CodeGen();
 	ICE_IF(!index, "Expression failed for index");
+	if (index->getType()->getPrimitiveSizeInBits() > indexTy->getPrimitiveSizeInBits())
+	{
+	    indexTy = index->getType();
+	}
+	values.push_back(index);
+    }
+    llvm::Value* totalIndex = 0;
+    for (size_t i = 0; i < values.size(); i++)
+    {
+	// The reduced indexes are at least as wide as an integer, and not negative within their range.
+	llvm::Value* index = builder.CreateSExt(values[i], indexTy);
 	if (indexmul[i] != 1)
 	{
-	    index = builder.CreateMul(index, MakeConstant(indexmul[i], indexType));
+	    index = builder.CreateMul(index, llvm::ConstantInt::get(indexTy, indexmul[i]));
 	}
 	if (!totalIndex)
 	{
-- 
2.43.0


From 3c3fa097b8c7ba1932c4734c622eeebb1ba9cc20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:07 +0000
Subject: [PATCH 094/104] fix: types cloned for an initial value lost their
 kind or crashed the compiler

---
 types.cpp |  2 +-
 types.h   | 16 ++++++++++++++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/types.cpp b/types.cpp
index e92cabd..d9f423c 100644
--- a/types.cpp
+++ b/types.cpp
@@ -245,7 +245,7 @@ namespace Types
 	    return new PointerDecl(fwd);
 	}
 
-	ICE_IF(forward, "Shouldn't be forward declared pointer here");
+	ICE_IF(incomplete, "Shouldn't be forward declared pointer here");
 	return new PointerDecl(SubType());
     }
 
diff --git a/types.h b/types.h
index 3265988..b35471c 100644
--- a/types.h
+++ b/types.h
@@ -278,6 +278,7 @@ namespace Types
 	size_t      RangeSize() const override { return range->Size(); }
 	TypeKind    Type() const override { return baseType->Type(); }
 	Range*      GetRange() const override { return range; }
+	TypeDecl*   Clone() const override { return new RangeDecl(range, baseType); }
 
     private:
 	Range* range;
@@ -407,8 +408,9 @@ namespace Types
     public:
 	BoolDecl() : EnumDecl(TK_Boolean, std::vector<std::string>{ "false", "true" }, this) {}
 	void        DoDump() const override;
-	bool        SameAs(const TypeDecl* ty) const override { return ty == this; }
+	bool        SameAs(const TypeDecl* ty) const override { return llvm::isa<BoolDecl>(ty); }
 	static bool classof(const TypeDecl* e) { return e->getKind() == TK_Boolean; }
+	TypeDecl*   Clone() const override { return new BoolDecl(); }
 
     protected:
 	llvm::Type*   GetLlvmType() const override;
@@ -564,7 +566,9 @@ namespace Types
 	llvm::DIType* GetDIType(llvm::DIBuilder* builder) const override;
 
     private:
-	VariantDecl*      variant;
+	VariantDecl* variant;
+
+    protected:
 	const RecordDecl* clonedFrom;
     };
 
@@ -706,6 +710,7 @@ namespace Types
 	void            UpdateSubtype(TypeDecl* ty);
 	bool            SameAs(const TypeDecl* ty) const override;
 	const TypeDecl* CompatibleType(const TypeDecl* ty) const override;
+	TypeDecl*       Clone() const override { return new SetDecl(range, baseType); }
 
     protected:
 	llvm::Type*   GetLlvmType() const override;
@@ -727,6 +732,7 @@ namespace Types
 	void            DoDump() const override;
 	const TypeDecl* CompatibleType(const TypeDecl* ty) const override;
 	int             Capacity() const { return Ranges()[0]->GetRange()->Size() - 2; }
+	TypeDecl*       Clone() const override { return new StringDecl(Capacity()); }
     };
 
     class ComplexDecl : public RecordDecl
@@ -741,6 +747,12 @@ namespace Types
 	}
 	const TypeDecl* CompatibleType(const TypeDecl* ty) const override;
 	static bool     classof(const TypeDecl* e) { return e->getKind() == TK_Complex; }
+	TypeDecl*       Clone() const override
+	{
+	    auto cd = new ComplexDecl();
+	    cd->clonedFrom = clonedFrom ? clonedFrom : this;
+	    return cd;
+	}
     };
 
     llvm::Type* GetVoidPtrType();
-- 
2.43.0


From f09c0fc186e236dccb222f3a48f8020a96744f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:53 +0000
Subject: [PATCH 095/104] fix: ord of a longint crashed the compiler

---
 builtin.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/builtin.cpp b/builtin.cpp
index 2b40493..2464f6b 100644
--- a/builtin.cpp
+++ b/builtin.cpp
@@ -162,6 +162,14 @@ namespace Builtin
     {
     public:
 	using FunctionInt::FunctionInt;
+	Types::TypeDecl* Type() const override
+	{
+	    if (!args.empty() && args[0]->Type()->Type() == Types::TypeDecl::TK_LongInt)
+	    {
+		return args[0]->Type();
+	    }
+	    return FunctionInt::Type();
+	}
 	llvm::Value* CodeGen(llvm::IRBuilder<>& builder) override;
 	ErrorType    Semantics() override;
     };
@@ -842,7 +850,7 @@ namespace Builtin
     llvm::Value* FunctionOrd::CodeGen(llvm::IRBuilder<>& builder)
     {
 	llvm::Value* a = args[0]->CodeGen();
-	return builder.CreateZExt(a, Types::Get<Types::IntegerDecl>()->LlvmType(), "ord");
+	return builder.CreateZExt(a, Type()->LlvmType(), "ord");
     }
 
     ErrorType FunctionOrd::Semantics()
-- 
2.43.0


From e5edcaabefaa093dc2ae2249d9cf27b27b0f9988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:30 +0000
Subject: [PATCH 096/104] fix: fields, static fields and virtual functions of
 objects were mixed up or crashed, and objects in arrays and records had no
 virtual functions

---
 builtin.cpp |  18 +-----
 expr.cpp    |  88 +++++++++++++------------
 expr.h      |  10 +++
 parser.cpp  |  47 ++++++++++----
 types.cpp   | 180 +++++++++++++++++++++++++---------------------------
 types.h     |  11 +++-
 6 files changed, 190 insertions(+), 164 deletions(-)

diff --git a/builtin.cpp b/builtin.cpp
index 2464f6b..6cefb1f 100644
--- a/builtin.cpp
+++ b/builtin.cpp
@@ -905,9 +905,8 @@ namespace Builtin
     {
 	auto pd = llvm::dyn_cast<Types::PointerDecl>(args[0]->Type());
 	ICE_IF(!pd, "The argument to new should be a PointerDecl!");
-	const Types::TypeDecl* elemTy = pd->SubType();
-	size_t                 size = elemTy->Size();
-	llvm::Type*            ty = Types::Get<Types::IntegerDecl>()->LlvmType();
+	size_t      size = pd->SubType()->Size();
+	llvm::Type* ty = Types::Get<Types::IntegerDecl>()->LlvmType();
 
 	// Result is "void *"
 	llvm::Type*          voidTy = Types::GetVoidPtrType();
@@ -920,18 +919,7 @@ namespace Builtin
 	retVal = builder.CreateBitCast(retVal, pd->LlvmType(), "cast");
 	llvm::Value* pA = var->Address();
 
-	// TODO: We need to recursively process the type here, and construct vtables for all
-	// of the elements that are classes (that have VTables).
-	if (auto cd = llvm::dyn_cast<Types::ClassDecl>(elemTy))
-	{
-	    if (cd->VTableType(Types::Opaque))
-	    {
-		llvm::GlobalVariable* gv = theModule->getGlobalVariable("vtable_" + cd->Name(), true);
-		llvm::Value* dest = builder.CreateGEP(voidTy, retVal, MakeIntegerConstant(0), "vtable");
-		builder.CreateStore(gv, dest);
-	    }
-	}
-	else if (ExprAST* init = pd->SubType()->Init())
+	if (ExprAST* init = pd->SubType()->Init())
 	{
 	    StoreInit(llvm::cast<llvm::Constant>(init->CodeGen()), retVal);
 	}
diff --git a/expr.cpp b/expr.cpp
index 7e5bff0..d83f6fa 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -3357,24 +3357,9 @@ llvm::Value* VarDeclAST::CodeGenGlobal(VarDef var)
     }
 
     ICE_IF(!ty, "Type should have a value");
-    llvm::Constant*   init;
-    llvm::Constant*   nullValue = llvm::Constant::getNullValue(ty);
-    Types::ClassDecl* cd = llvm::dyn_cast<Types::ClassDecl>(var.Type());
-    if (cd && cd->VTableType(Types::Opaque))
-    {
-	llvm::GlobalVariable*        gv = theModule->getGlobalVariable("vtable_" + cd->Name(), true);
-	auto                         sty = llvm::dyn_cast<llvm::StructType>(ty);
-	std::vector<llvm::Constant*> vtable(sty->getNumElements());
-	vtable[0] = gv;
-	unsigned i = 1;
-	while (llvm::Constant* c = nullValue->getAggregateElement(i))
-	{
-	    vtable[i] = c;
-	    i++;
-	}
-	init = llvm::ConstantStruct::get(sty, vtable);
-    }
-    else if (ExprAST* iv = var.Init())
+    llvm::Constant* init;
+    llvm::Constant* nullValue = llvm::Constant::getNullValue(ty);
+    if (ExprAST* iv = var.Init())
     {
 	init = llvm::dyn_cast<llvm::Constant>(iv->CodeGen());
 	ICE_IF(!init, "Expected intializer to be constant");
@@ -3451,15 +3436,7 @@ static bool HoldsFile(const Types::TypeDecl* ty)
 llvm::Value* VarDeclAST::CodeGenLocal(VarDef var)
 {
     llvm::Value* v = CreateAlloca(func->Proto()->LlvmFunction(), var);
-    auto         cd = llvm::dyn_cast<Types::ClassDecl>(var.Type());
-    if (cd && cd->VTableType(Types::Opaque))
-    {
-	llvm::GlobalVariable* gv = theModule->getGlobalVariable("vtable_" + cd->Name(), true);
-	llvm::Type*           ty = Types::GetVoidPtrType();
-	llvm::Value*          dest = builder.CreateGEP(ty, v, MakeIntegerConstant(0), "vtable");
-	builder.CreateStore(gv, dest);
-    }
-    else if (ExprAST* iv = var.Init())
+    if (ExprAST* iv = var.Init())
     {
 	StoreInit(llvm::cast<llvm::Constant>(iv->CodeGen()), v);
     }
@@ -4300,20 +4277,16 @@ llvm::Value* VTableAST::CodeGen()
 std::vector<llvm::Constant*> VTableAST::GetInitializer()
 {
     std::vector<llvm::Constant*> vtInit(classDecl->NumVirtFuncs());
-    for (size_t i = 0; i < classDecl->MembFuncCount(); i++)
+    for (size_t i = 0; i < classDecl->NumVirtFuncs(); i++)
     {
-	Types::MemberFuncDecl* m = classDecl->GetMembFunc(i);
-	if (m->IsVirtual() || m->IsOverride())
+	if (llvm::Constant* c = theModule->getFunction("P." + classDecl->GetVirtFunc(i)->LongName()))
 	{
-	    if (llvm::Constant* c = theModule->getFunction("P." + m->LongName()))
-	    {
-		vtInit[m->VirtIndex()] = c;
-	    }
-	    else
-	    {
-		vtInit.clear();
-		break;
-	    }
+	    vtInit[i] = c;
+	}
+	else
+	{
+	    vtInit.clear();
+	    break;
 	}
     }
     return vtInit;
@@ -4344,10 +4317,11 @@ llvm::Value* VirtFunctionAST::Address()
 {
     llvm::Value* v = MakeAddressable(self);
     llvm::Type*  ty = self->Type()->LlvmType();
-    auto         vtableTy = llvm::dyn_cast<Types::ClassDecl>(self->Type())->VTableType(Types::FilledIn);
+    auto         cd = llvm::cast<Types::ClassDecl>(self->Type());
+    auto         vtableTy = cd->VTableType(Types::FilledIn);
     llvm::Type*  ptrVTableTy = llvm::PointerType::getUnqual(vtableTy);
     llvm::Value* zero = MakeIntegerConstant(0);
-    v = builder.CreateGEP(ty, v, { zero, zero }, "vptr");
+    v = builder.CreateGEP(ty, v, { zero, MakeIntegerConstant(cd->VTableIndex()) }, "vptr");
     v = builder.CreateLoad(ptrVTableTy, v, "vtable");
     v = builder.CreateGEP(vtableTy, v, { zero, MakeIntegerConstant(index) }, "mfunc");
     return v;
@@ -4686,6 +4660,38 @@ void InitArrayAST::DoDump() const
     }
 }
 
+void InitClassAST::DoDump() const
+{
+    std::cerr << "InitClass: ";
+    type->DoDump();
+}
+
+llvm::Value* InitClassAST::CodeGen()
+{
+    auto                         cd = llvm::cast<Types::ClassDecl>(type);
+    auto                         ty = llvm::cast<llvm::StructType>(type->LlvmType());
+    std::vector<llvm::Constant*> init;
+    for (auto e : ty->elements())
+    {
+	init.push_back(llvm::Constant::getNullValue(e));
+    }
+    for (int i = 0; i < cd->FieldCount(); i++)
+    {
+	const Types::FieldDecl* f = cd->GetElement(i);
+	if (!f->IsStatic())
+	{
+	    init[cd->LlvmIndex(i)] = DefaultValue(f->SubType());
+	}
+    }
+    if (cd->VTableType(Types::Opaque))
+    {
+	llvm::Constant* vtable = theModule->getGlobalVariable("vtable_" + cd->Name(), true);
+	ICE_IF(!vtable, "Expected the table of virtual functions");
+	init[cd->VTableIndex()] = vtable;
+    }
+    return llvm::ConstantStruct::get(ty, init);
+}
+
 llvm::Value* InitRecordAST::CodeGen()
 {
     auto fty = llvm::dyn_cast<Types::FieldCollection>(type);
diff --git a/expr.h b/expr.h
index 82a6085..936401b 100644
--- a/expr.h
+++ b/expr.h
@@ -119,6 +119,7 @@ public:
 	EK_InitValue,
 	EK_InitArray,
 	EK_InitRecord,
+	EK_InitClass,
     };
     ExprAST(const Location& w, ExprKind k, Types::TypeDecl* ty = 0) : loc(w), kind(k), type(ty) {}
     virtual ~ExprAST() {}
@@ -1103,6 +1104,15 @@ private:
     std::vector<ArrayInit> values;
 };
 
+class InitClassAST : public ExprAST
+{
+public:
+    InitClassAST(const Location& w, Types::TypeDecl* ty) : ExprAST(w, EK_InitClass, ty) {}
+    static bool  classof(const ExprAST* e) { return e->getKind() == EK_InitClass; }
+    llvm::Value* CodeGen() override;
+    void         DoDump() const override;
+};
+
 class InitRecordAST : public ExprAST
 {
 public:
diff --git a/parser.cpp b/parser.cpp
index 7ef2c90..4fef236 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -2002,15 +2002,19 @@ Types::ClassDecl* Parser::ParseClassDecl(const std::string& name)
 
     std::vector<Types::MemberFuncDecl*> mf;
     std::vector<VarDef>                 vars;
-    bool                                needVtable = false;
     for (auto f = fields.begin(); f != fields.end();)
     {
 	if (auto m = llvm::dyn_cast<Types::MemberFuncDecl>((*f)->SubType()))
 	{
 	    mf.push_back(m);
-	    if (m->IsVirtual() || m->IsOverride())
+	    if (m->IsOverride())
 	    {
-		needVtable = true;
+		int elem = base ? base->MembFunc(m->Proto()->Name()) : -1;
+		if (elem < 0 || !(base->GetMembFunc(elem)->IsVirtual() || base->GetMembFunc(elem)->IsOverride()))
+		{
+		    return Error("Overriding function '" + m->Proto()->Name() +
+		                 "' that is not a virtual function in the base class");
+		}
 	    }
 	    f = fields.erase(f);
 	}
@@ -2030,10 +2034,19 @@ Types::ClassDecl* Parser::ParseClassDecl(const std::string& name)
     }
 
     auto cd = new Types::ClassDecl(name, fields, mf, variant, base);
-    // For now, we generate vtable whether we need it or not.
-    if (needVtable)
+    bool needInit = false;
+    if (cd->VTableType(Types::Opaque))
     {
 	ast.push_back(new VTableAST(loc, cd));
+	needInit = true;
+    }
+    for (int i = 0; i < cd->FieldCount(); i++)
+    {
+	needInit |= !!cd->GetElement(i)->SubType()->Init();
+    }
+    if (needInit)
+    {
+	cd->SetInit(new InitClassAST(loc, cd));
     }
     return cd;
 }
@@ -2572,7 +2585,7 @@ ExprAST* Parser::ParseFieldExpr(ExprAST* expr, Types::TypeDecl*& type)
 	    }
 	    else
 	    {
-		e = new FieldExprAST(CurrentToken().Loc(), expr, elem, type);
+		e = new FieldExprAST(CurrentToken().Loc(), expr, cd->LlvmIndex(elem), type);
 	    }
 	}
 	else
@@ -2592,7 +2605,7 @@ ExprAST* Parser::ParseFieldExpr(ExprAST* expr, Types::TypeDecl*& type)
 	    }
 	    else
 	    {
-		fc = cd->FieldCount();
+		fc = cd->LlvmIndex(cd->FieldCount());
 		v = cd->Variant();
 	    }
 	}
@@ -4167,12 +4180,8 @@ ExprAST* Parser::ParseCaseExpr()
 void Parser::ExpandWithNames(const Types::FieldCollection* fields, ExprAST* v, int parentCount)
 {
     TRACE();
-    int vtableoffset = 0;
-    if (const auto cd = llvm::dyn_cast<Types::ClassDecl>(fields))
-    {
-	vtableoffset = !!cd->VTableType(Types::Opaque);
-    }
-    for (int i = vtableoffset; i < fields->FieldCount() + vtableoffset; i++)
+    const auto cd = llvm::dyn_cast<Types::ClassDecl>(fields);
+    for (int i = 0; i < fields->FieldCount(); i++)
     {
 	const Types::FieldDecl* f = fields->GetElement(i);
 	Types::TypeDecl*        ty = f->SubType();
@@ -4190,7 +4199,17 @@ void Parser::ExpandWithNames(const Types::FieldCollection* fields, ExprAST* v, i
 	else
 	{
 	    ExprAST* e;
-	    if (llvm::isa<Types::RecordDecl, Types::ClassDecl>(fields))
+	    if (cd && f->IsStatic())
+	    {
+		std::string objname;
+		cd->GetElement(i, objname);
+		e = new VariableExprAST(CurrentToken().Loc(), objname + "$" + f->Name(), ty);
+	    }
+	    else if (cd)
+	    {
+		e = new FieldExprAST(CurrentToken().Loc(), v, cd->LlvmIndex(i), ty);
+	    }
+	    else if (llvm::isa<Types::RecordDecl>(fields))
 	    {
 		e = new FieldExprAST(CurrentToken().Loc(), v, i, ty);
 	    }
diff --git a/types.cpp b/types.cpp
index d9f423c..31ff2a1 100644
--- a/types.cpp
+++ b/types.cpp
@@ -834,6 +834,7 @@ namespace Types
 	if (baseobj)
 	{
 	    membfuncs = baseobj->membfuncs;
+	    virtfuncs = baseobj->virtfuncs;
 	}
 
 	std::vector<VarDef> self = { VarDef("self", this, VarDef::Flags::Reference) };
@@ -860,6 +861,21 @@ namespace Types
 	    {
 		membfuncs.push_back(i);
 	    }
+	    if (i->IsVirtual() || i->IsOverride())
+	    {
+		size_t index = 0;
+		while (index < virtfuncs.size() &&
+		       !SameName(virtfuncs[index]->Proto()->Name(), i->Proto()->Name()))
+		{
+		    index++;
+		}
+		i->VirtIndex(index);
+		if (index == virtfuncs.size())
+		{
+		    virtfuncs.push_back(i);
+		}
+		virtfuncs[index] = i;
+	    }
 	}
     }
 
@@ -906,76 +922,24 @@ namespace Types
 	return membfuncs[index];
     }
 
-    size_t ClassDecl::NumVirtFuncs() const
-    {
-	size_t count = 0;
-	for (auto mf : membfuncs)
-	{
-	    count += mf->IsVirtual() || mf->IsOverride();
-	}
-	return count;
-    }
-
     llvm::Type* ClassDecl::VTableType(Opacity opacity) const
     {
-	if (vtableType && (opacity == Opaque || !vtableType->isOpaque()))
+	if (virtfuncs.empty())
 	{
-	    return vtableType;
+	    return 0;
 	}
-
-	if (baseobj)
+	if (!vtableType)
 	{
-	    (void)baseobj->VTableType(opacity);
+	    vtableType = llvm::StructType::create(theContext, "vtable_" + Name());
 	}
-
-	std::vector<llvm::Type*> vt;
-	bool                     needed = false;
-	int                      index = 0;
-	for (auto m : membfuncs)
+	if (opacity == FilledIn && vtableType->isOpaque())
 	{
-	    if (m->IsVirtual())
-	    {
-		if (m->VirtIndex() == -1)
-		{
-		    m->VirtIndex(index);
-		}
-		index++;
-		needed = true;
-	    }
-	    else if (m->IsOverride())
-	    {
-		int elem = (baseobj) ? baseobj->MembFunc(m->Proto()->Name()) : -1;
-		if (elem < 0)
-		{
-		    std::cerr << "Overriding function " + m->Proto()->Name() +
-		                     " that is not a virtual function in the baseclass!";
-		    return 0;
-		}
-		// We need to continue digging here for multi-level functions
-		MemberFuncDecl* mf = baseobj->GetMembFunc(elem);
-		m->VirtIndex(mf->VirtIndex());
-		needed = true;
-		index++;
-	    }
-
-	    if (opacity == FilledIn && (m->IsOverride() || m->IsVirtual()))
+	    std::vector<llvm::Type*> vt;
+	    for (auto m : virtfuncs)
 	    {
 		FuncPtrDecl* fp = new FuncPtrDecl(m->Proto());
 		vt.push_back(fp->LlvmType());
 	    }
-	}
-	if (!needed)
-	{
-	    return (baseobj) ? baseobj->VTableType(opacity) : 0;
-	}
-
-	if (!vtableType)
-	{
-	    vtableType = llvm::StructType::create(theContext, "vtable_" + Name());
-	}
-	if (opacity == FilledIn)
-	{
-	    ICE_IF(vt.empty(), "Expected some functions here...");
 	    vtableType->setBody(vt);
 	}
 	return vtableType;
@@ -983,17 +947,11 @@ namespace Types
 
     int ClassDecl::Element(const std::string& name) const
     {
-	int b = baseobj ? baseobj->FieldCount() : 0;
 	// Shadowing overrides outer elemnts
 	int elem = FieldCollection::Element(name);
 	if (elem >= 0)
 	{
-	    elem += b;
-	    if (VTableType(Opaque))
-	    {
-		elem++;
-	    }
-	    return elem;
+	    return elem + (baseobj ? baseobj->FieldCount() : 0);
 	}
 	return (baseobj) ? baseobj->Element(name) : -1;
     }
@@ -1001,13 +959,72 @@ namespace Types
     const FieldDecl* ClassDecl::GetElement(unsigned int n, std::string& objname) const
     {
 	unsigned b = baseobj ? baseobj->FieldCount() : 0;
-	if (baseobj && n < b + (baseobj->VTableType(Opaque) ? 1 : 0))
+	if (n < b)
 	{
 	    return baseobj->GetElement(n, objname);
 	}
-	ICE_IF(n > b + fields.size(), "Out of range field");
+	ICE_IF(n >= b + fields.size(), "Out of range field");
 	objname = Name();
-	return fields[n - (b + (VTableType(Opaque) ? 1 : 0))];
+	return fields[n - b];
+    }
+
+    // The object starts with what its base has, then the pointer to the virtual functions if the base has
+    // none, then its own fields.
+    bool ClassDecl::NewVTable() const
+    {
+	return !virtfuncs.empty() && !(baseobj && !baseobj->virtfuncs.empty());
+    }
+
+    void ClassDecl::LlvmElements(std::vector<llvm::Type*>& elems) const
+    {
+	if (baseobj)
+	{
+	    baseobj->LlvmElements(elems);
+	}
+	if (NewVTable())
+	{
+	    elems.push_back(llvm::PointerType::getUnqual(VTableType(Opaque)));
+	}
+	for (auto f : fields)
+	{
+	    if (!f->IsStatic())
+	    {
+		elems.push_back(f->LlvmType());
+	    }
+	}
+	if (variant)
+	{
+	    elems.push_back(variant->LlvmType());
+	}
+    }
+
+    unsigned ClassDecl::LlvmCount() const
+    {
+	return LlvmIndex(FieldCount()) + !!variant;
+    }
+
+    unsigned ClassDecl::LlvmIndex(unsigned elem) const
+    {
+	unsigned b = baseobj ? baseobj->FieldCount() : 0;
+	if (elem < b)
+	{
+	    return baseobj->LlvmIndex(elem);
+	}
+	unsigned index = (baseobj ? baseobj->LlvmCount() : 0) + NewVTable();
+	for (unsigned i = b; i < elem; i++)
+	{
+	    index += !fields[i - b]->IsStatic();
+	}
+	return index;
+    }
+
+    unsigned ClassDecl::VTableIndex() const
+    {
+	if (!NewVTable())
+	{
+	    return baseobj->VTableIndex();
+	}
+	return baseobj ? baseobj->LlvmCount() : 0;
     }
 
     const FieldDecl* ClassDecl::GetElement(unsigned int n) const
@@ -1049,30 +1066,7 @@ namespace Types
     llvm::Type* ClassDecl::GetLlvmType() const
     {
 	std::vector<llvm::Type*> fv;
-
-	int vtableoffset = 0;
-	if (VTableType(Opaque))
-	{
-	    vtableoffset = 1;
-	    fv.push_back(llvm::PointerType::getUnqual(vtableType));
-	}
-
-	int fc = FieldCount();
-	for (int i = 0; i < fc; i++)
-	{
-	    const FieldDecl* f = GetElement(i + vtableoffset);
-
-	    ICE_IF(llvm::isa<MemberFuncDecl>(f->SubType()), "Should not have member functions");
-
-	    if (!f->IsStatic())
-	    {
-		fv.push_back(f->LlvmType());
-	    }
-	}
-	if (variant)
-	{
-	    fv.push_back(variant->LlvmType());
-	}
+	LlvmElements(fv);
 	if (!fv.size())
 	{
 	    llvm::StructType* ty = llvm::StructType::create(theContext, Name());
diff --git a/types.h b/types.h
index b35471c..961c3c1 100644
--- a/types.h
+++ b/types.h
@@ -625,7 +625,11 @@ namespace Types
 	size_t           MembFuncCount() const;
 	int              MembFunc(const std::string& nm) const;
 	MemberFuncDecl*  GetMembFunc(size_t index) const;
-	size_t           NumVirtFuncs() const;
+	size_t           NumVirtFuncs() const { return virtfuncs.size(); }
+	MemberFuncDecl*  GetVirtFunc(size_t index) const { return virtfuncs[index]; }
+	// Index of a field, and of the pointer to the virtual functions, in the LLVM type.
+	unsigned         LlvmIndex(unsigned elem) const;
+	unsigned         VTableIndex() const;
 	const TypeDecl*  CompatibleType(const TypeDecl* ty) const override;
 	llvm::Type*      VTableType(Opacity opaque) const;
 	static bool      classof(const TypeDecl* e) { return e->getKind() == TK_Class; }
@@ -639,7 +643,12 @@ namespace Types
 	ClassDecl*                   baseobj;
 	VariantDecl*                 variant;
 	std::vector<MemberFuncDecl*> membfuncs;
+	std::vector<MemberFuncDecl*> virtfuncs;
 	mutable llvm::StructType*    vtableType;
+
+	bool     NewVTable() const;
+	void     LlvmElements(std::vector<llvm::Type*>& elems) const;
+	unsigned LlvmCount() const;
     };
 
     class FuncPtrDecl : public CompoundDecl
-- 
2.43.0


From e0be0c090a6465d20f1ed20ab5ed1a7b2f040f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:41 +0000
Subject: [PATCH 097/104] fix: objects assigned or passed by value took over
 the virtual functions of the other's type

---
 expr.cpp | 36 +++++++++++++++++++++++++++++++-----
 1 file changed, 31 insertions(+), 5 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index d83f6fa..4209b74 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -575,6 +575,12 @@ void FieldExprAST::DoDump() const
     expr->DoDump();
 }
 
+// Address of the pointer to the virtual functions in an object.
+static llvm::Value* VTablePtr(Types::ClassDecl* cd, llvm::Value* object)
+{
+    return builder.CreateStructGEP(cd->LlvmType(), object, cd->VTableIndex(), "vptr");
+}
+
 llvm::Value* FieldExprAST::Address()
 {
     TRACE();
@@ -1687,6 +1693,13 @@ static std::vector<llvm::Value*> CreateArgList(const std::vector<ExprAST*>& args
 			    ICE_IF(!x, "Expected CodeGen to work");
 			    builder.CreateStore(x, v);
 			}
+			auto cd = llvm::dyn_cast<Types::ClassDecl>(i->Type());
+			if (cd && cd->VTableType(Types::Opaque))
+			{
+			    // The actual may be of a type derived from that of the parameter.
+			    llvm::Value* vtable = theModule->getGlobalVariable("vtable_" + cd->Name(), true);
+			    builder.CreateStore(vtable, VTablePtr(cd, v));
+			}
 		    }
 		    else
 		    {
@@ -2056,6 +2069,10 @@ void PrototypeAST::CreateArgumentAlloca()
     if (!llvm::isa<Types::VoidDecl>(type))
     {
 	llvm::AllocaInst* a = CreateAlloca(llvmFunc, VarDef(resname, type));
+	if (llvm::isa<Types::ClassDecl>(type) && type->Init())
+	{
+	    StoreInit(llvm::cast<llvm::Constant>(type->Init()->CodeGen()), a);
+	}
 	if (!variables.Add(resname, a))
 	{
 	    Error(this, "Duplicate function result name '" + resname + "'.");
@@ -2417,6 +2434,18 @@ llvm::Value* AssignExprAST::CodeGen()
 
     llvm::Value* dest = lhsv->Address();
 
+    auto cd = llvm::dyn_cast<Types::ClassDecl>(lhsv->Type());
+    if (cd && cd->VTableType(Types::Opaque))
+    {
+	// The object stays of its own type.
+	llvm::Value* vtablePtr = VTablePtr(cd, dest);
+	llvm::Type*  ptrTy = Types::GetVoidPtrType();
+	llvm::Value* vtable = builder.CreateLoad(ptrTy, vtablePtr, "vtable");
+	llvm::Value* v = rhs->CodeGen();
+	builder.CreateStore(v, dest);
+	return builder.CreateStore(vtable, vtablePtr);
+    }
+
     // If rhs is a simple variable, and "large", then use memcpy on it!
     size_t size = rhs->Type()->Size();
     if (!disableMemcpyOpt && size >= MEMCPY_THRESHOLD)
@@ -4133,8 +4162,7 @@ llvm::Value* TypeCastAST::CodeGen()
     }
     if (llvm::isa<Types::ClassDecl>(type) && llvm::isa<Types::ClassDecl>(current))
     {
-	llvm::Type* ty = llvm::PointerType::getUnqual(type->LlvmType());
-	return builder.CreateLoad(ty, builder.CreateBitCast(Address(), ty));
+	return builder.CreateLoad(type->LlvmType(), Address(), "object");
     }
     if (llvm::isa<Types::CharDecl>(type) && llvm::isa<Types::CharDecl>(current))
     {
@@ -4316,13 +4344,11 @@ void VirtFunctionAST::DoDump() const
 llvm::Value* VirtFunctionAST::Address()
 {
     llvm::Value* v = MakeAddressable(self);
-    llvm::Type*  ty = self->Type()->LlvmType();
     auto         cd = llvm::cast<Types::ClassDecl>(self->Type());
     auto         vtableTy = cd->VTableType(Types::FilledIn);
     llvm::Type*  ptrVTableTy = llvm::PointerType::getUnqual(vtableTy);
     llvm::Value* zero = MakeIntegerConstant(0);
-    v = builder.CreateGEP(ty, v, { zero, MakeIntegerConstant(cd->VTableIndex()) }, "vptr");
-    v = builder.CreateLoad(ptrVTableTy, v, "vtable");
+    v = builder.CreateLoad(ptrVTableTy, VTablePtr(cd, v), "vtable");
     v = builder.CreateGEP(vtableTy, v, { zero, MakeIntegerConstant(index) }, "mfunc");
     return v;
 }
-- 
2.43.0


From 6ef845a9a3ca32f5426d0184c425774a5e11d3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:55 +0000
Subject: [PATCH 098/104] fix: fields of a class were hidden by those of its
 base, and classes without fields crashed

---
 parser.cpp | 4 +++-
 types.cpp  | 7 +------
 2 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/parser.cpp b/parser.cpp
index 4fef236..e16dd8f 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -4181,8 +4181,10 @@ void Parser::ExpandWithNames(const Types::FieldCollection* fields, ExprAST* v, i
 {
     TRACE();
     const auto cd = llvm::dyn_cast<Types::ClassDecl>(fields);
-    for (int i = 0; i < fields->FieldCount(); i++)
+    for (int n = 0; n < fields->FieldCount(); n++)
     {
+	// The fields of a class come before those of its base with the same name.
+	const int               i = cd ? fields->FieldCount() - 1 - n : n;
 	const Types::FieldDecl* f = fields->GetElement(i);
 	Types::TypeDecl*        ty = f->SubType();
 	if (f->Name() == "")
diff --git a/types.cpp b/types.cpp
index 31ff2a1..4975115 100644
--- a/types.cpp
+++ b/types.cpp
@@ -1067,12 +1067,7 @@ namespace Types
     {
 	std::vector<llvm::Type*> fv;
 	LlvmElements(fv);
-	if (!fv.size())
-	{
-	    llvm::StructType* ty = llvm::StructType::create(theContext, Name());
-	    return ty;
-	}
-	return llvm::StructType::create(fv, Name());
+	return llvm::StructType::create(theContext, fv, Name());
     }
 
     llvm::DIType* ClassDecl::GetDIType(llvm::DIBuilder* builder) const
-- 
2.43.0


From 127e07894567ae961726b12df958fc13b04e7651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:08 +0000
Subject: [PATCH 099/104] fix: assigning an object wrote over fields of a
 derived one that it is part of

---
 expr.cpp | 39 ++++++++++++++++++++++++++++++---------
 expr.h   |  1 +
 2 files changed, 31 insertions(+), 9 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index 4209b74..60505d4 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -2400,6 +2400,34 @@ llvm::Value* AssignExprAST::AssignSet()
     return v;
 }
 
+// The object may be of a derived type, that has fields in what is padding here. It also stays of its own type.
+llvm::Value* AssignExprAST::AssignObject(Types::ClassDecl* cd, llvm::Value* dest)
+{
+    auto         ty = llvm::cast<llvm::StructType>(cd->LlvmType());
+    llvm::Value* src = MakeAddressable(rhs);
+    for (unsigned i = 0; i < ty->getNumElements(); i++)
+    {
+	if (cd->VTableType(Types::Opaque) && i == cd->VTableIndex())
+	{
+	    continue;
+	}
+	llvm::Value* from = builder.CreateStructGEP(ty, src, i);
+	llvm::Value* to = builder.CreateStructGEP(ty, dest, i);
+	llvm::Type*  elemTy = ty->getElementType(i);
+	uint64_t     size = theModule->getDataLayout().getTypeAllocSize(elemTy);
+	if (!disableMemcpyOpt && elemTy->isAggregateType() && size >= MEMCPY_THRESHOLD)
+	{
+	    llvm::Align align = theModule->getDataLayout().getABITypeAlign(elemTy);
+	    builder.CreateMemCpy(to, align, from, align, size);
+	}
+	else
+	{
+	    builder.CreateStore(builder.CreateLoad(elemTy, from), to);
+	}
+    }
+    return dest;
+}
+
 llvm::Value* AssignExprAST::CodeGen()
 {
     TRACE();
@@ -2434,16 +2462,9 @@ llvm::Value* AssignExprAST::CodeGen()
 
     llvm::Value* dest = lhsv->Address();
 
-    auto cd = llvm::dyn_cast<Types::ClassDecl>(lhsv->Type());
-    if (cd && cd->VTableType(Types::Opaque))
+    if (auto cd = llvm::dyn_cast<Types::ClassDecl>(lhsv->Type()))
     {
-	// The object stays of its own type.
-	llvm::Value* vtablePtr = VTablePtr(cd, dest);
-	llvm::Type*  ptrTy = Types::GetVoidPtrType();
-	llvm::Value* vtable = builder.CreateLoad(ptrTy, vtablePtr, "vtable");
-	llvm::Value* v = rhs->CodeGen();
-	builder.CreateStore(v, dest);
-	return builder.CreateStore(vtable, vtablePtr);
+	return AssignObject(cd, dest);
     }
 
     // If rhs is a simple variable, and "large", then use memcpy on it!
diff --git a/expr.h b/expr.h
index 936401b..b00e76f 100644
--- a/expr.h
+++ b/expr.h
@@ -505,6 +505,7 @@ public:
 private:
     llvm::Value* AssignStr();
     llvm::Value* AssignSet();
+    llvm::Value* AssignObject(Types::ClassDecl* cd, llvm::Value* dest);
     ExprAST*     lhs;
     ExprAST*     rhs;
 };
-- 
2.43.0


From 7a58c020307c11b115533ca206c5cd12304ff536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:17 +0000
Subject: [PATCH 100/104] fix: units used twice were compiled twice, and their
 names clashed with those of the program and of other units

A unit is now compiled once, however many programs and units use it, and its initialisation part
runs once. The names of its interface are around those of the program, so they can be hidden, and
names of its implementation and of units it uses are not seen. Interfaces can have constants, and
uses a list of units. A unit that uses itself is an error.
---
 expr.cpp   |  15 ++++---
 expr.h     |   6 ++-
 parser.cpp | 129 ++++++++++++++++++++++++++++++++++-------------------
 stack.cpp  |   3 +-
 stack.h    |   9 +++-
 5 files changed, 105 insertions(+), 57 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index 60505d4..2838b86 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -4328,7 +4328,7 @@ std::vector<llvm::Constant*> VTableAST::GetInitializer()
     std::vector<llvm::Constant*> vtInit(classDecl->NumVirtFuncs());
     for (size_t i = 0; i < classDecl->NumVirtFuncs(); i++)
     {
-	if (llvm::Constant* c = theModule->getFunction("P." + classDecl->GetVirtFunc(i)->LongName()))
+	if (llvm::Constant* c = classDecl->GetVirtFunc(i)->Proto()->LlvmFunction())
 	{
 	    vtInit[i] = c;
 	}
@@ -4402,7 +4402,10 @@ void UnitAST::DoDump() const
     {
 	a->dump();
     }
-    initFunc->dump();
+    if (initFunc)
+    {
+	initFunc->dump();
+    }
 }
 
 void UnitAST::accept(ASTVisitor& v)
@@ -4444,11 +4447,13 @@ llvm::Value* UnitAST::CodeGen()
 
     for (auto a : code)
     {
-	ICE_IF(!a->CodeGen(), "Failed to generate code for unit body");
+	auto         fn = llvm::dyn_cast<FunctionAST>(a);
+	llvm::Value* v = fn ? fn->CodeGen(namePrefix) : a->CodeGen();
+	ICE_IF(!v, "Failed to generate code for unit body");
     }
     if (initFunc)
     {
-	initFunc->CodeGen();
+	initFunc->CodeGen(namePrefix);
 	if (initFunc->Proto()->Name() != "__PascalMain")
 	{
 	    unitInit.push_back(initFunc);
@@ -4827,7 +4832,7 @@ static void BuildUnitInitList()
     int                          index = 0;
     for (auto v : unitInit)
     {
-	llvm::Function* fn = theModule->getFunction("P." + v->Proto()->Name());
+	llvm::Function* fn = v->Proto()->LlvmFunction();
 	ICE_IF(!fn, "Expected to find the function!");
 	unitList[index] = llvm::ConstantExpr::getBitCast(fn, vp);
 	index++;
diff --git a/expr.h b/expr.h
index b00e76f..a011c81 100644
--- a/expr.h
+++ b/expr.h
@@ -1026,8 +1026,9 @@ private:
 class UnitAST : public ExprAST
 {
 public:
-    UnitAST(const Location& w, const std::vector<ExprAST*>& c, FunctionAST* init, InterfaceList iList)
-        : ExprAST(w, EK_Unit), initFunc(init), code(c), interfaceList(iList){};
+    UnitAST(const Location& w, const std::vector<ExprAST*>& c, FunctionAST* init, InterfaceList iList,
+            const std::string& prefix = "P")
+        : ExprAST(w, EK_Unit), initFunc(init), code(c), interfaceList(iList), namePrefix(prefix){};
     void                 DoDump() const override;
     llvm::Value*         CodeGen() override;
     static bool          classof(const ExprAST* e) { return e->getKind() == EK_Unit; }
@@ -1038,6 +1039,7 @@ private:
     FunctionAST*          initFunc;
     std::vector<ExprAST*> code;
     InterfaceList         interfaceList;
+    std::string           namePrefix; // for the functions of this unit
 };
 
 class ClosureAST : public ExprAST
diff --git a/parser.cpp b/parser.cpp
index e16dd8f..823ed54 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -114,6 +114,7 @@ public:
     bool          ParseProgram(ParserType type);
     void          ParseLabels();
     ExprAST*      ParseUses();
+    ExprAST*      UseUnit(const Location& loc, const std::string& unitname);
     ExprAST*      ParseUnit(ParserType type);
     bool          ParseInterface(InterfaceList& iList);
     void          ParseImports();
@@ -214,6 +215,7 @@ private:
     bool                             inTypeDef = false;
     bool                      nextTokenValid;
     std::string               moduleName;
+    bool                      isUnit = false;
     int                       errCnt;
     Stack<const NamedObject*> nameStack;
     size_t                    withLevels = 0; // name stack levels opened by the with statements we are in
@@ -3371,6 +3373,13 @@ ExprAST* Parser::ParseInitValue(Types::TypeDecl* ty)
 // those needs a name of its own.
 VarDef Parser::MakeVarDef(const std::string& name, Types::TypeDecl* type, size_t level, VarDef::Flags flags)
 {
+    // So does a variable of a unit: others can have one of that name.
+    if (level == 0 && isUnit)
+    {
+	VarDef v(moduleName + "." + name, type, flags);
+	v.SetSourceName(name);
+	return v;
+    }
     const NamedObject* def = nameStack.Find(name);
     if (level > 1 && def && llvm::isa<VarDef, FuncDef>(def) && def != nameStack.FindBaseLevel(name))
     {
@@ -4638,56 +4647,80 @@ bool Parser::ParseProgram(ParserType type)
     return false;
 }
 
+// The units read so far, so that each is compiled once. The one being read has no entry in 'interface'.
+static std::map<std::string, const InterfaceList*> knownUnits;
+
+ExprAST* Parser::UseUnit(const Location& loc, const std::string& unitname)
+{
+    if (unitname == "math")
+    {
+	// Math unit is "fake", so nothing inside it for now
+	return new UnitAST(loc, {}, 0, {});
+    }
+    ExprAST*    e = 0;
+    std::string fileName = GetPath(loc.FileName()) + "/" + unitname + ".pas";
+    auto [it, unread] = knownUnits.insert({ fileName, nullptr });
+    if (unread)
+    {
+	FileSource source(fileName);
+	if (!source)
+	{
+	    return Error("Could not open " + fileName);
+	}
+	Parser p(source);
+	e = p.Parse(ParserType::Unit);
+	errCnt += p.GetErrors();
+	auto ua = llvm::dyn_cast_or_null<UnitAST>(e);
+	if (!ua)
+	{
+	    return Error("Unit '" + unitname + "' could not be used");
+	}
+	it->second = &ua->Interface();
+    }
+    else
+    {
+	if (!it->second)
+	{
+	    return Error("Unit '" + unitname + "' uses itself");
+	}
+	// The code is part of the first use
+	e = new UnitAST(loc, {}, 0, {});
+    }
+    for (auto i : it->second->List())
+    {
+	nameStack.AddOuter(i.first, i.second);
+    }
+    return e;
+}
+
 ExprAST* Parser::ParseUses()
 {
     AssertToken(Token::Uses);
-    std::string unitname = GetIdentifier(ExpectConsume);
-    if (!unitname.empty())
+    ExprAST* unit = 0;
+    do
     {
-	if (unitname == "math")
+	if (unit)
 	{
-	    if (Expect(Token::Semicolon, ExpectConsume))
-	    {
-		// Math unit is "fake", so nothing inside it for now
-		return new UnitAST(CurrentToken().Loc(), {}, 0, {});
-	    }
+	    ast.push_back(unit);
 	}
-	else
+	const Location loc = CurrentToken().Loc();
+	std::string    unitname = GetIdentifier(ExpectConsume);
+	if (unitname.empty())
 	{
-	    // TODO: Loop over comma separated list
-	    strlower(unitname);
-	    std::string path = GetPath(CurrentToken().Loc().FileName());
-	    std::string fileName = path + "/" + unitname + ".pas";
-	    FileSource  source(fileName);
-	    if (!source)
-	    {
-		return Error("Could not open " + fileName);
-	    }
-	    Parser   p(source);
-	    ExprAST* e = p.Parse(ParserType::Unit);
-	    errCnt += p.GetErrors();
-	    if (Expect(Token::Semicolon, ExpectConsume))
-	    {
-		if (auto ua = llvm::dyn_cast_or_null<UnitAST>(e))
-		{
-		    for (auto i : ua->Interface().List())
-		    {
-			if (!nameStack.Add(i.second))
-			{
-			    return 0;
-			}
-		    }
-		}
-		return e;
-	    }
+	    return 0;
 	}
-    }
-    return 0;
+	strlower(unitname);
+	unit = UseUnit(loc, unitname);
+	if (!unit)
+	{
+	    return 0;
+	}
+    } while (AcceptToken(Token::Comma));
+    return Expect(Token::Semicolon, ExpectConsume) ? unit : 0;
 }
 
 bool Parser::ParseInterface(InterfaceList& iList)
 {
-    NameWrapper wrapper(nameStack);
     AssertToken(Token::Interface);
     do
     {
@@ -4697,6 +4730,10 @@ bool Parser::ParseInterface(InterfaceList& iList)
 	    ParseTypeDef();
 	    break;
 
+	case Token::Const:
+	    ParseConstDef();
+	    break;
+
 	case Token::Uses:
 	{
 	    if (ExprAST* e = ParseUses())
@@ -4746,7 +4783,11 @@ bool Parser::ParseInterface(InterfaceList& iList)
     } while (CurrentToken().GetToken() != Token::Implementation);
     for (auto i : nameStack.GetLevel())
     {
-	iList.Add(i.second);
+	// Each program and unit has these itself
+	if (i.first != "input" && i.first != "output")
+	{
+	    iList.Add(i.first, i.second);
+	}
     }
     return true;
 }
@@ -4775,6 +4816,7 @@ ExprAST* Parser::ParseUnit(ParserType type)
     {
 	initName = moduleName + ".init";
     }
+    isUnit = type == ParserType::Unit;
 
     FunctionAST*  initFunction = 0;
     bool          finished = false;
@@ -4821,13 +4863,6 @@ ExprAST* Parser::ParseUnit(ParserType type)
 	    {
 		return 0;
 	    }
-	    for (auto i : interfaceList.List())
-	    {
-		if (!nameStack.Add(i.second))
-		{
-		    return 0;
-		}
-	    }
 	    break;
 
 	case Token::Implementation:
@@ -4879,7 +4914,7 @@ ExprAST* Parser::ParseUnit(ParserType type)
 	    ast.push_back(curAst);
 	}
     } while (!finished);
-    return new UnitAST(unitloc, ast, initFunction, interfaceList);
+    return new UnitAST(unitloc, ast, initFunction, interfaceList, isUnit ? "U." + moduleName : "P");
 }
 
 ExprAST* Parser::Parse(ParserType type)
diff --git a/stack.cpp b/stack.cpp
index a809735..33cf3f1 100644
--- a/stack.cpp
+++ b/stack.cpp
@@ -11,9 +11,8 @@ bool SameName(std::string a, std::string b)
     return a == b;
 }
 
-bool InterfaceList::Add(const NamedObject* obj)
+bool InterfaceList::Add(std::string name, const NamedObject* obj)
 {
-    std::string name = obj->Name();
     if (caseInsensitive)
     {
 	strlower(name);
diff --git a/stack.h b/stack.h
index 9fca70d..5674f69 100644
--- a/stack.h
+++ b/stack.h
@@ -61,6 +61,13 @@ public:
     // Alternative version, used with NamedObject
     bool Add(const T& v) { return Add(v->Name(), v); }
 
+    // Names from a unit: they are around the outermost level, and hide those of units used earlier.
+    void AddOuter(std::string name, const T& v)
+    {
+	LowerIfNeeded(name);
+	predefined[name] = v;
+    }
+
     T Find(std::string name) const
     {
 	if (verbosity > 1)
@@ -158,7 +165,7 @@ class InterfaceList
 {
 public:
     InterfaceList(){};
-    bool                      Add(const NamedObject* obj);
+    bool                      Add(std::string name, const NamedObject* obj);
     const NameStack::MapType& List() const { return list; }
 
 private:
-- 
2.43.0


From 891afb471ab5a52c294d1308eae09ab256c27888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:17 +0000
Subject: [PATCH 101/104] fix: classes of the same name in functions and units
 were mixed up, and functions without a body crashed the compiler

---
 parser.cpp | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/parser.cpp b/parser.cpp
index 823ed54..9c0e4bf 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -147,7 +147,7 @@ public:
     Types::TypeDecl*      ExpandSchema(Types::TypeDecl* ty);
 
     Types::TypeDecl*    ParseSimpleType(bool errOnNoType);
-    Types::ClassDecl*   ParseClassDecl(const std::string& name);
+    Types::ClassDecl*   ParseClassDecl(const std::string& typeName);
     Types::TypeDecl* ParseType(const std::string& name, Forwarding maybeForwarded, Types::Schema* schema = 0);
     Types::EnumDecl*    ParseEnumDef();
     Types::PointerDecl* ParsePointerType(Forwarding maybeForwarded);
@@ -216,6 +216,7 @@ private:
     bool                      nextTokenValid;
     std::string               moduleName;
     bool                      isUnit = false;
+    std::vector<Types::MemberFuncDecl*> memberFuncs; // of all classes
     int                       errCnt;
     Stack<const NamedObject*> nameStack;
     size_t                    withLevels = 0; // name stack levels opened by the with statements we are in
@@ -1971,8 +1972,15 @@ Types::StringDecl* Parser::ParseStringDecl()
     return new Types::StringDecl(size);
 }
 
-Types::ClassDecl* Parser::ParseClassDecl(const std::string& name)
+Types::ClassDecl* Parser::ParseClassDecl(const std::string& typeName)
 {
+    // Other units and functions can have a class of this name too: what belongs to this one needs a name of its own.
+    static std::map<std::string, int> classNames;
+    std::string                       name = typeName;
+    if (int n = classNames[typeName]++)
+    {
+	name += "." + std::to_string(n);
+    }
     TRACE();
     const Location loc = CurrentToken().Loc();
     AssertToken(Token::Class);
@@ -2035,6 +2043,7 @@ Types::ClassDecl* Parser::ParseClassDecl(const std::string& name)
 	ast.push_back(new VarDeclAST(loc, vars));
     }
 
+    memberFuncs.insert(memberFuncs.end(), mf.begin(), mf.end());
     auto cd = new Types::ClassDecl(name, fields, mf, variant, base);
     bool needInit = false;
     if (cd->VTableType(Types::Opaque))
@@ -4914,6 +4923,21 @@ ExprAST* Parser::ParseUnit(ParserType type)
 	    ast.push_back(curAst);
 	}
     } while (!finished);
+    for (auto m : memberFuncs)
+    {
+	if (!m->Proto()->Function())
+	{
+	    Error("Member function '" + m->Proto()->Name() + "' is not implemented");
+	}
+    }
+    for (auto i : interfaceList.List())
+    {
+	auto fd = llvm::dyn_cast<FuncDef>(i.second);
+	if (fd && !fd->Proto()->Function())
+	{
+	    Error("'" + i.first + "' of the interface is not implemented");
+	}
+    }
     return new UnitAST(unitloc, ast, initFunction, interfaceList, isUnit ? "U." + moduleName : "P");
 }
 
-- 
2.43.0


From 519d281ef1fd99f475855250e02b6540b7e539e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:57 +0000
Subject: [PATCH 102/104] fix: operators, assignments and var parameters took
 operands of types that do not fit, and crashed the compiler

---
 expr.cpp      |   2 +-
 expr.h        |   3 ++
 semantics.cpp | 141 ++++++++++++++++++++++++++++++++++++++++++++++++--
 types.cpp     |  46 +++++++++++-----
 4 files changed, 175 insertions(+), 17 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index 2838b86..f655c63 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -3464,7 +3464,7 @@ void StoreInit(llvm::Constant* init, llvm::Value* dest)
     builder.CreateMemCpy(dest, align, gv, align, dl.getTypeAllocSize(ty));
 }
 
-static bool HoldsFile(const Types::TypeDecl* ty)
+bool HoldsFile(const Types::TypeDecl* ty)
 {
     if (auto ad = llvm::dyn_cast<Types::ArrayDecl>(ty))
     {
diff --git a/expr.h b/expr.h
index a011c81..8486740 100644
--- a/expr.h
+++ b/expr.h
@@ -1186,4 +1186,7 @@ llvm::Value*         MakeStrCompare(Token::TokenType oper, llvm::Value* v);
 llvm::Value*         CallStrFunc(const std::string& name, ExprAST* lhs, ExprAST* rhs, Types::TypeDecl* resTy,
                                  const std::string& twine);
 
+// Is there a file in values of this type? Then they can't be copied.
+bool HoldsFile(const Types::TypeDecl* ty);
+
 #endif
diff --git a/semantics.cpp b/semantics.cpp
index 5d2243b..17b008a 100644
--- a/semantics.cpp
+++ b/semantics.cpp
@@ -176,6 +176,17 @@ ExprAST* Recast(ExprAST* a, const Types::TypeDecl* ty)
     return a;
 }
 
+// A value of a subrange is one of the type it is a part of.
+static ExprAST* HostValue(ExprAST* e)
+{
+    auto rd = llvm::dyn_cast<Types::RangeDecl>(e->Type());
+    if (rd && (rd->Type() == Types::TypeDecl::TK_Char || rd->Type() == Types::TypeDecl::TK_Enum))
+    {
+	return new TypeCastAST(e->Loc(), e, Types::HostType(rd));
+    }
+    return e;
+}
+
 // A set constructor gets the parts of its type that it doesn't have from where it is used.
 static void SetTypeFromContext(ExprAST* e, Types::TypeDecl* ty)
 {
@@ -295,8 +306,101 @@ static size_t CharArrayLength(ExprAST* e)
     return llvm::dyn_cast<Types::ArrayDecl>(e->Type())->Ranges()[0]->RangeSize();
 }
 
+// Can the operator be applied to these operands at all?
+static bool OperandsFit(const Token& oper, ExprAST* lhs, ExprAST* rhs)
+{
+    Types::TypeDecl* lty = lhs->Type();
+    Types::TypeDecl* rty = rhs->Type();
+    auto             lkind = lty->Type();
+    auto             rkind = rty->Type();
+    bool             lset = llvm::isa<Types::SetDecl>(lty);
+    bool             rset = llvm::isa<Types::SetDecl>(rty);
+    bool             numeric = Types::IsNumeric(lty) && Types::IsNumeric(rty);
+    bool strings = Types::IsStringLike(lty) && Types::IsStringLike(rty);
+    bool integers = numeric && lkind != Types::TypeDecl::TK_Real && lkind != Types::TypeDecl::TK_Complex &&
+                    rkind != Types::TypeDecl::TK_Real && rkind != Types::TypeDecl::TK_Complex;
+    bool booleans = lkind == Types::TypeDecl::TK_Boolean && rkind == Types::TypeDecl::TK_Boolean;
+    bool equality = false;
+
+    switch (oper.GetToken())
+    {
+    case Token::In:
+	return Types::IsIntegral(Types::HostType(lty)) && rset;
+
+    case Token::Div:
+    case Token::Mod:
+	return integers;
+
+    case Token::And:
+    case Token::Or:
+    case Token::Xor:
+	return integers || booleans;
+
+    case Token::And_Then:
+    case Token::Or_Else:
+	return booleans;
+
+    case Token::SymDiff:
+	return lset && rset;
+
+    case Token::Plus:
+	return numeric || strings || (lset && rset);
+
+    case Token::Minus:
+    case Token::Multiply:
+	return numeric || (lset && rset);
+
+    case Token::Divide:
+    case Token::Pow:
+    case Token::Power:
+	return numeric;
+
+    case Token::Equal:
+    case Token::NotEqual:
+	equality = true;
+	break;
+
+    default:
+	break;
+    }
+
+    if (lset || rset)
+    {
+	return lset && rset;
+    }
+    if (numeric)
+    {
+	return equality || (lkind != Types::TypeDecl::TK_Complex && rkind != Types::TypeDecl::TK_Complex);
+    }
+    if (strings)
+    {
+	bool literals = llvm::isa<StringExprAST>(lhs) || llvm::isa<StringExprAST>(rhs);
+	// A char is not a char array of one element
+	return literals || !((IsFixedCharArray(lty) && rkind == Types::TypeDecl::TK_Char) ||
+	                     (IsFixedCharArray(rty) && lkind == Types::TypeDecl::TK_Char));
+    }
+    if (Types::IsIntegral(lty) && Types::IsIntegral(rty))
+    {
+	return *Types::HostType(lty) == *Types::HostType(rty);
+    }
+    bool lptr = llvm::isa<Types::PointerDecl>(lty) || llvm::isa<NilExprAST>(lhs);
+    bool rptr = llvm::isa<Types::PointerDecl>(rty) || llvm::isa<NilExprAST>(rhs);
+    return lptr && rptr && equality;
+}
+
 Types::TypeDecl* TypeCheckVisitor::BinaryExprType(BinaryExprAST* b)
 {
+    if (!OperandsFit(b->oper, b->lhs, b->rhs))
+    {
+	Error(b, "Incompatible types for operator '" + b->oper.TypeStr() + "'");
+	bool isBool = b->oper.IsCompare() || b->oper.GetToken() == Token::In;
+	return isBool ? Types::Get<Types::BoolDecl>() : b->lhs->Type();
+    }
+    for (ExprAST** e : { &b->lhs, &b->rhs })
+    {
+	*e = HostValue(*e);
+    }
+
     Types::TypeDecl* lty = b->lhs->Type();
     Types::TypeDecl* rty = b->rhs->Type();
     Types::TypeDecl* ty = 0;
@@ -674,7 +778,12 @@ void TypeCheckVisitor::Check<AssignExprAST>(AssignExprAST* a)
 	return;
     }
 
-    const Types::TypeDecl* ty = lty->AssignableType(rty);
+    if (llvm::isa<Types::StringDecl>(lty))
+    {
+	a->rhs = HostValue(a->rhs);
+	rty = a->rhs->Type();
+    }
+    const Types::TypeDecl* ty = HoldsFile(lty) ? 0 : lty->AssignableType(rty);
     if (!ty || (IsFixedCharArray(lty) && llvm::isa<Types::StringDecl, Types::CharDecl>(rty)))
     {
 	Error(a, "Incompatible type in assignment");
@@ -790,6 +899,19 @@ void TypeCheckVisitor::Check<BuiltinExprAST>(BuiltinExprAST* b)
     }
 }
 
+// Can a variable of type 'actual' be used as one of type 'formal'?
+static bool SameRepresentation(const Types::TypeDecl* formal, const Types::TypeDecl* actual)
+{
+    auto fs = llvm::dyn_cast<Types::StringDecl>(formal);
+    auto as = llvm::dyn_cast<Types::StringDecl>(actual);
+    if (fs || as)
+    {
+	// A plain 'string' parameter is for strings of any capacity.
+	return fs && as && (fs->Capacity() <= as->Capacity() || fs->Capacity() == 255);
+    }
+    return formal->Type() == actual->Type() || llvm::isa<Types::DynArrayDecl>(formal);
+}
+
 template<>
 void TypeCheckVisitor::Check<CallExprAST>(CallExprAST* c)
 {
@@ -807,7 +929,15 @@ void TypeCheckVisitor::Check<CallExprAST>(CallExprAST* c)
 	bool bad = true;
 
 	SetTypeFromContext(a, parg[idx].Type());
-	if (const Types::TypeDecl* ty = parg[idx].Type()->AssignableType(a->Type()))
+	if (llvm::isa<Types::StringDecl>(parg[idx].Type()) && !parg[idx].IsRef())
+	{
+	    a = HostValue(a);
+	}
+	if (parg[idx].IsRef() && !SameRepresentation(parg[idx].Type(), a->Type()))
+	{
+	    // The variable itself is the parameter
+	}
+	else if (const Types::TypeDecl* ty = parg[idx].Type()->AssignableType(a->Type()))
 	{
 	    if (parg[idx].IsRef() && !llvm::isa<AddressableAST, ClosureAST>(a))
 	    {
@@ -827,9 +957,12 @@ void TypeCheckVisitor::Check<CallExprAST>(CallExprAST* c)
 	else if (auto argTy = llvm::dyn_cast<Types::FuncPtrDecl>(parg[idx].Type()))
 	{
 	    auto fnArg = llvm::dyn_cast<FunctionExprAST>(a);
-	    ICE_IF(!fnArg, "Expected argument to be FunctionExprAST");
 
-	    if (fnArg->Proto()->IsMatchWithoutClosure(argTy->Proto()))
+	    if (!fnArg || *fnArg->Proto()->Type() != *argTy->Proto()->Type())
+	    {
+		// Not a function, or with another result
+	    }
+	    else if (fnArg->Proto()->IsMatchWithoutClosure(argTy->Proto()))
 	    {
 		// Todo: Make this a function
 		std::vector<VariableExprAST*> vf;
diff --git a/types.cpp b/types.cpp
index 4975115..9dc6e0d 100644
--- a/types.cpp
+++ b/types.cpp
@@ -197,7 +197,7 @@ namespace Types
 
     const TypeDecl* RealDecl::AssignableType(const TypeDecl* ty) const
     {
-	return CompatibleType(ty);
+	return ty->Type() != TK_Complex ? CompatibleType(ty) : 0;
     }
 
     void VoidDecl::DoDump() const
@@ -413,18 +413,19 @@ namespace Types
 	}
 	if (const auto aty = llvm::dyn_cast<ArrayDecl>(ty))
 	{
-	    if (aty->SubType() == SubType() && ranges.size() == aty->Ranges().size())
+	    if (*aty->SubType() == *SubType() && ranges.size() == aty->Ranges().size())
 	    {
 		for (size_t i = 0; i < ranges.size(); i++)
 		{
-		    if (ranges[i]->Size() != aty->Ranges()[i]->Size())
+		    if (ranges[i]->RangeSize() != aty->Ranges()[i]->RangeSize())
 		    {
 			return 0;
 		    }
 		}
+		return this;
 	    }
 	}
-	return this;
+	return 0;
     }
 
     TypeDecl* ArrayDecl::Clone() const
@@ -508,17 +509,42 @@ namespace Types
 	range->DoDump();
     }
 
+    // Are the values of these types some of those of one type? Enumerated types are all different.
+    static bool SameHost(const TypeDecl* a, const TypeDecl* b)
+    {
+	if (a->Type() != b->Type())
+	{
+	    return false;
+	}
+	if (a->Type() != TypeDecl::TK_Enum)
+	{
+	    return true;
+	}
+	auto host = [](const TypeDecl* t) {
+	    while (auto rd = llvm::dyn_cast<RangeBaseDecl>(t))
+	    {
+		t = rd->SubType();
+	    }
+	    return t;
+	};
+	return host(a)->SameAs(host(b));
+    }
+
     bool RangeDecl::SameAs(const TypeDecl* ty) const
     {
 	if (const auto rty = llvm::dyn_cast<RangeDecl>(ty))
 	{
-	    return rty->Type() == Type() && *range == *rty->range;
+	    return SameHost(this, rty) && *range == *rty->range;
 	}
-	return Type() == ty->Type();
+	return SameHost(this, ty);
     }
 
     const TypeDecl* RangeBaseDecl::CompatibleType(const TypeDecl* ty) const
     {
+	if (!SameHost(this, ty))
+	{
+	    return IsNumeric(this) ? baseType->CompatibleType(ty) : 0;
+	}
 	if (*this == *ty)
 	{
 	    return this;
@@ -536,11 +562,7 @@ namespace Types
 
     const TypeDecl* RangeBaseDecl::AssignableType(const TypeDecl* ty) const
     {
-	if (SameAs(ty) || ty->Type() == Type())
-	{
-	    return ty;
-	}
-	return 0;
+	return SameHost(this, ty) ? ty : 0;
     }
 
     void DynRangeDecl::DoDump() const
@@ -1272,7 +1294,7 @@ namespace Types
 	{
 	    if (const auto aty = llvm::dyn_cast<ArrayDecl>(ty))
 	    {
-		if (aty->Ranges().size() == 1)
+		if (aty->Ranges().size() == 1 && IsCharArray(aty))
 		{
 		    return this;
 		}
-- 
2.43.0


From 3658d9b6c5a57183ba1cba26fe5d279931064a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:35 +0000
Subject: [PATCH 103/104] fix: labels without or with two statements, results
 assigned outside their function, files as values and expressions as
 statements were accepted or crashed the compiler

---
 namedobject.h |  7 ++++-
 parser.cpp    | 72 ++++++++++++++++++++++++++++++++++++++++++++++-----
 2 files changed, 72 insertions(+), 7 deletions(-)

diff --git a/namedobject.h b/namedobject.h
index 0118c20..b988efe 100644
--- a/namedobject.h
+++ b/namedobject.h
@@ -201,9 +201,14 @@ private:
 class LabelDef : public NamedObject
 {
 public:
-    LabelDef(int label) : NamedObject(NK_Label, std::to_string(label), NULL){};
+    LabelDef(int label) : NamedObject(NK_Label, std::to_string(label), NULL), isPlaced(false) {};
     void        dump() const override;
+    bool        IsPlaced() const { return isPlaced; }
+    void        SetPlaced() const { isPlaced = true; }
     static bool classof(const NamedObject* e) { return e->getKind() == NK_Label; }
+
+private:
+    mutable bool isPlaced;
 };
 
 #endif
diff --git a/parser.cpp b/parser.cpp
index 9c0e4bf..96391a8 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -113,6 +113,7 @@ public:
     PrototypeAST* ParsePrototype(NamePolicy nmPolicy);
     bool          ParseProgram(ParserType type);
     void          ParseLabels();
+    bool          LabelsArePlaced();
     ExprAST*      ParseUses();
     ExprAST*      UseUnit(const Location& loc, const std::string& unitname);
     ExprAST*      ParseUnit(ParserType type);
@@ -220,6 +221,9 @@ private:
     int                       errCnt;
     Stack<const NamedObject*> nameStack;
     size_t                    withLevels = 0; // name stack levels opened by the with statements we are in
+
+    std::vector<const PrototypeAST*>               enclosing; // functions whose body we are in
+    std::vector<std::pair<Token, const LabelDef*>> gotos;     // in the current body
     std::vector<ExprAST*>     ast;
 };
 
@@ -552,7 +556,11 @@ ExprAST* Parser::ParseGoto()
     if (Expect(Token::Integer, ExpectConsume))
     {
 	int n = t.GetIntVal();
-	if (!nameStack.FindTopLevel(std::to_string(n), withLevels))
+	if (auto label = nameStack.FindTopLevel(std::to_string(n), withLevels))
+	{
+	    gotos.push_back({ t, llvm::dyn_cast<LabelDef>(label) });
+	}
+	else
 	{
 	    if (!nameStack.Find(std::to_string(n)))
 	    {
@@ -1900,6 +1908,10 @@ Types::FileDecl* Parser::ParseFileDecl()
     {
 	if (Types::TypeDecl* type = ParseType("", NoForwarding))
 	{
+	    if (HoldsFile(type))
+	    {
+		return ErrorT(Types::FileDecl*, "A file can not contain files");
+	    }
 	    return new Types::FileDecl(type);
 	}
     }
@@ -2215,6 +2227,21 @@ void Parser::ParseLabels()
     }
 }
 
+// Is there a statement for every label that there is a goto for?
+bool Parser::LabelsArePlaced()
+{
+    bool good = true;
+    for (auto& g : gotos)
+    {
+	if (!g.second->IsPlaced())
+	{
+	    good = ErrorT(bool, g.first, "There is no statement with this label");
+	}
+    }
+    gotos.clear();
+    return good;
+}
+
 ExprAST* Parser::ParseExprElement()
 {
     Token token = TranslateToken(CurrentToken());
@@ -2324,8 +2351,8 @@ ExprAST* Parser::ParseUnaryOp()
 
     if (ExprAST* rhs = ParseExprElement())
     {
-	// unary + = no change, so just return the expression.
-	if (tt == Token::Plus)
+	// unary + = no change, so just return a number.
+	if (tt == Token::Plus && (llvm::isa<RealExprAST>(rhs) || (llvm::isa<IntegerExprAST>(rhs) && Types::IsNumeric(rhs->Type()))))
 	{
 	    return rhs;
 	}
@@ -2857,6 +2884,14 @@ ExprAST* Parser::ParseVariableExpr(const NamedObject* def)
     {
 	return Error("Expected variable");
     }
+    if (auto fd = llvm::dyn_cast<FuncDef>(def))
+    {
+	auto sameResult = [fd](const PrototypeAST* p) { return p->ResName() == fd->Proto()->ResName(); };
+	if (std::none_of(enclosing.begin(), enclosing.end(), sameResult))
+	{
+	    return Error("Only the function itself can assign its result");
+	}
+    }
     return new VariableExprAST(CurrentToken().Loc(), def->Name(), type);
 }
 
@@ -3056,6 +3091,10 @@ ExprAST* Parser::ParseSetExpr(Types::TypeDecl* setType)
 	if (!ccs.Values().empty())
 	{
 	    type = Types::HostType(ccs.Values()[0]->Type());
+	    if (!IsIntegral(type) || llvm::isa<Types::Int64Decl>(type))
+	    {
+		return Error("Elements of sets must be of integral type, other than longint");
+	    }
 	    for (auto i = ccs.Values().begin() + 1, e = ccs.Values().end(); i != e; i++)
 	    {
 		if (Types::HostType((*i)->Type()) != type)
@@ -3609,6 +3648,10 @@ PrototypeAST* Parser::ParsePrototype(Parser::NamePolicy nmPolicy)
 		{
 		    if (Types::TypeDecl* type = ParseType("", NoForwarding))
 		    {
+			if (HoldsFile(type) && (flags & VarDef::Flags::Reference) != VarDef::Flags::Reference)
+			{
+			    return Error("A file can not be passed by value");
+			}
 			for (auto n : names)
 			{
 			    args.push_back(MakeVarDef(n, type, nameStack.MaxLevel() + 1, flags));
@@ -3657,6 +3700,11 @@ PrototypeAST* Parser::ParsePrototype(Parser::NamePolicy nmPolicy)
 	resultType = Types::Get<Types::VoidDecl>();
     }
 
+    if (HoldsFile(resultType))
+    {
+	return Error("A file can not be the result of a function");
+    }
+
     if (fwdProto)
     {
 	CheckProtoMatch(fwdProto, funcName, args, resultType, ShortName(resultName));
@@ -3681,11 +3729,17 @@ ExprAST* Parser::ParseStatement()
 	AcceptToken(Token::Integer);
 	AcceptToken(Token::Colon);
 	int n = token.GetIntVal();
-	if (!nameStack.FindTopLevel(std::to_string(n), withLevels))
+	const NamedObject* labelDef = nameStack.FindTopLevel(std::to_string(n), withLevels);
+	if (!labelDef)
 	{
 	    std::cerr << "Label=" << n << " at " << token.Loc() << std::endl;
 	    return Error("Can't use label in a different scope than the declaration");
 	}
+	if (llvm::dyn_cast<LabelDef>(labelDef)->IsPlaced())
+	{
+	    return Error(token, "Label used for more than one statement");
+	}
+	llvm::dyn_cast<LabelDef>(labelDef)->SetPlaced();
 	ExprAST* label = new LabelExprAST(token.Loc(), { { n, n } }, 0);
 	if (ExprAST* stmt = ParseStatement())
 	{
@@ -3722,6 +3776,10 @@ ExprAST* Parser::ParseStatement()
 		    return Error("Invalid assignment");
 		}
 	    }
+	    else if (llvm::isa<AddressableAST, IntegerExprAST, RealExprAST, NilExprAST>(expr))
+	    {
+		return Error("Expected a statement");
+	    }
 	    return expr;
 	}
 	break;
@@ -3868,6 +3926,7 @@ FunctionAST* Parser::ParseDefinition(int level)
 	}
     }
 
+    enclosing.push_back(proto);
     std::vector<VarDeclAST*>  varDecls;
     BlockAST*                 body = 0;
     std::vector<FunctionAST*> subFunctions;
@@ -3913,11 +3972,12 @@ FunctionAST* Parser::ParseDefinition(int level)
 	    Location endLoc;
 	    ICE_IF(body, "Multiple body declarations for function?");
 
-	    if (!(body = ParseBlock(endLoc)) || !Expect(Token::Semicolon, ExpectConsume))
+	    if (!(body = ParseBlock(endLoc)) || !LabelsArePlaced() || !Expect(Token::Semicolon, ExpectConsume))
 	    {
 		return 0;
 	    }
 
+	    enclosing.pop_back();
 	    FunctionAST* fn = new FunctionAST(loc, proto, varDecls, body);
 	    if (!proto->Function())
 	    {
@@ -4884,7 +4944,7 @@ ExprAST* Parser::ParseUnit(ParserType type)
 	    const Location loc = CurrentToken().Loc();
 	    Location       endLoc;
 	    BlockAST*      body = ParseBlock(endLoc);
-	    if (!body)
+	    if (!body || !LabelsArePlaced())
 	    {
 		return 0;
 	    }
-- 
2.43.0


From 16a0afc0db54e633b2b5c1efe8f611017802f4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:35 +0000
Subject: [PATCH 104/104] fix: operands, indexes, arguments of builtins and set
 elements of wrong types, changes of protected values, and values as var
 arguments were accepted or crashed the compiler

---
 builtin.cpp   | 21 ++++++++++-------
 builtin.h     |  2 ++
 expr.cpp      | 16 +++++++------
 semantics.cpp | 63 +++++++++++++++++++++++++++++++++++++++++++--------
 types.cpp     |  5 ++++
 types.h       |  2 ++
 6 files changed, 84 insertions(+), 25 deletions(-)

diff --git a/builtin.cpp b/builtin.cpp
index 6cefb1f..1bbd84c 100644
--- a/builtin.cpp
+++ b/builtin.cpp
@@ -13,7 +13,7 @@ namespace Builtin
 	if (!llvm::isa<Types::RealDecl>(arg->Type()))
 	{
 	    // Implicit typecast.
-	    if (!IsIntegral(arg->Type()))
+	    if (!IsIntegral(arg->Type()) || !Types::IsNumeric(arg->Type()))
 	    {
 		return false;
 	    }
@@ -74,8 +74,11 @@ namespace Builtin
     {
     public:
 	using FunctionBase::FunctionBase;
-	Types::TypeDecl* Type() const override { return args[0]->Type(); }
-	ErrorType        Semantics() override;
+	Types::TypeDecl* Type() const override
+	{
+	    return args.empty() ? Types::Get<Types::IntegerDecl>() : args[0]->Type();
+	}
+	ErrorType Semantics() override;
     };
 
     class FunctionSameAsArg2 : public FunctionBase
@@ -240,6 +243,7 @@ namespace Builtin
     {
     public:
 	using FunctionVoid::FunctionVoid;
+	ExprAST*     Changed() const override { return args.empty() ? 0 : args[0]; }
 	llvm::Value* CodeGen(llvm::IRBuilder<>& builder) override;
 	ErrorType    Semantics() override;
     };
@@ -263,6 +267,7 @@ namespace Builtin
     {
     public:
 	using FunctionVoid::FunctionVoid;
+	ExprAST*     Changed() const override { return args.empty() ? 0 : args[0]; }
 	ErrorType    Semantics() override;
 	llvm::Value* CodeGen(llvm::IRBuilder<>& builder) override;
     };
@@ -574,13 +579,13 @@ namespace Builtin
 		return const_cast<Types::TypeDecl*>(ty);
 	    }
 	}
-	return args[0]->Type();
+	return args.empty() ? Types::Get<Types::IntegerDecl>() : args[0]->Type();
     }
 
     /* Note that abs returnes "real" for complex, otherwise int or real depending on input type */
     Types::TypeDecl* FunctionAbs::Type() const
     {
-	if (llvm::isa<Types::ComplexDecl>(args[0]->Type()))
+	if (args.empty() || llvm::isa<Types::ComplexDecl>(args[0]->Type()))
 	{
 	    return Types::Get<Types::RealDecl>();
 	}
@@ -634,7 +639,7 @@ namespace Builtin
 	{
 	    return ErrorType::WrongArgCount;
 	}
-	if (!IsIntegral(args[0]->Type()) || llvm::isa<Types::CharDecl>(args[0]->Type()))
+	if (!IsIntegral(args[0]->Type()) || !Types::IsNumeric(args[0]->Type()))
 	{
 	    return ErrorType::WrongArgType;
 	}
@@ -682,7 +687,7 @@ namespace Builtin
 
     Types::TypeDecl* FunctionFloat::Type() const
     {
-	if (llvm::isa<Types::ComplexDecl>(args[0]->Type()))
+	if (!args.empty() && llvm::isa<Types::ComplexDecl>(args[0]->Type()))
 	{
 	    return Types::Get<Types::ComplexDecl>();
 	}
@@ -840,7 +845,7 @@ namespace Builtin
 	{
 	    return ErrorType::WrongArgCount;
 	}
-	if (!IsIntegral(args[0]->Type()) || llvm::isa<Types::CharDecl>(args[0]->Type()))
+	if (!IsIntegral(args[0]->Type()) || !Types::IsNumeric(args[0]->Type()))
 	{
 	    return ErrorType::WrongArgType;
 	}
diff --git a/builtin.h b/builtin.h
index 449271a..8df5ea0 100644
--- a/builtin.h
+++ b/builtin.h
@@ -29,6 +29,8 @@ namespace Builtin
 	virtual ErrorType        Semantics() = 0;
 	virtual void             accept(ASTVisitor& v);
 	const std::string&       Name() const { return name; }
+	// The variable that is changed, if there is one
+	virtual ExprAST* Changed() const { return 0; }
 	virtual ~FunctionBase() {}
 
     protected:
diff --git a/expr.cpp b/expr.cpp
index f655c63..d4c8333 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -1569,6 +1569,10 @@ llvm::Value* UnaryExprAST::CodeGen()
     BasicDebugInfo(this);
 
     llvm::Value*       r = rhs->CodeGen();
+    if (oper.GetToken() == Token::Plus)
+    {
+	return r;
+    }
     llvm::Type::TypeID rty = r->getType()->getTypeID();
     if (rty == llvm::Type::IntegerTyID)
     {
@@ -2136,12 +2140,10 @@ bool PrototypeAST::IsMatchWithoutClosure(const PrototypeAST* rhs) const
     {
 	return false;
     }
-    if (Types::TypeDecl* closure = Function()->ClosureType())
+    Types::TypeDecl* closure = Function()->ClosureType();
+    if (!closure || args[0].Type() != closure)
     {
-	if (args[0].Type() != closure)
-	{
-	    return false;
-	}
+	return false;
     }
     // Can't be same if baseobj is different? Is this so?
     // Or if args count is different
@@ -4245,9 +4247,9 @@ llvm::Value* TypeCastAST::Address()
 	{
 	    v = MakeStringFromExpr(expr, type);
 	}
-	else if (auto ae = llvm::dyn_cast<AddressableAST>(expr))
+	else
 	{
-	    v = ae->Address();
+	    v = MakeAddressable(expr);
 	}
     }
 
diff --git a/semantics.cpp b/semantics.cpp
index 17b008a..e937ab6 100644
--- a/semantics.cpp
+++ b/semantics.cpp
@@ -52,6 +52,12 @@ T* FindParentOfType(ExprAST* e)
     return ci.result;
 }
 
+static bool IsProtectedValue(ExprAST* e)
+{
+    auto var = FindParentOfType<VariableExprAST>(e);
+    return var && var->IsProtected();
+}
+
 class SemaFixup
 {
 public:
@@ -698,16 +704,16 @@ void TypeCheckVisitor::Check<UnaryExprAST>(UnaryExprAST* u)
     Types::TypeDecl* ty = u->rhs->Type();
     if (u->oper.GetToken() == Token::Not)
     {
-	if (!IsIntegral(ty) || llvm::isa<Types::CharDecl>(ty))
+	if (ty->Type() != Types::TypeDecl::TK_Boolean && (!IsIntegral(ty) || !IsNumeric(ty)))
 	{
-	    Error(u, "Expect integral argument to NOT");
+	    Error(u, "Expect integer or boolean argument to NOT");
 	}
     }
-    if (u->oper.GetToken() == Token::Minus)
+    if (u->oper.GetToken() == Token::Minus || u->oper.GetToken() == Token::Plus)
     {
 	if (!IsNumeric(ty))
 	{
-	    Error(u, "Expect numeric type (Real, Integer) argument to unary '-'");
+	    Error(u, "Expect numeric type (Real, Integer) argument to unary '" + u->oper.TypeStr() + "'");
 	}
     }
     u->UpdateType(ty);
@@ -722,7 +728,7 @@ void TypeCheckVisitor::Check<AssignExprAST>(AssignExprAST* a)
     Types::TypeDecl* rty = a->rhs->Type();
 
     auto vExpr = FindParentOfType<VariableExprAST>(a->lhs);
-    if (!vExpr)
+    if (!vExpr || !llvm::isa<AddressableAST>(a->lhs))
     {
 	Error(a, "Assigning to a constant");
 	return;
@@ -747,7 +753,11 @@ void TypeCheckVisitor::Check<AssignExprAST>(AssignExprAST* a)
     {
 	Types::Range* r = lty->GetRange();
 	int64_t       v = llvm::dyn_cast<IntegerExprAST>(a->rhs)->Int();
-	if (r->Start() > v || v > r->End())
+	if (*Types::HostType(lty) != *Types::HostType(rty) && !(IsNumeric(lty) && IsNumeric(rty)))
+	{
+	    Error(a, "Incompatible type in assignment");
+	}
+	else if (r->Start() > v || v > r->End())
 	{
 	    Error(a, "Value out of range");
 	}
@@ -837,7 +847,7 @@ void TypeCheckVisitor::Check<ArrayExprAST>(ArrayExprAST* a)
 	{
 	    continue;
 	}
-	if (r->Type() != e->Type()->Type() && !e->Type()->CompatibleType(r))
+	if (*Types::HostType(r) != *Types::HostType(e->Type()) && !(IsNumeric(r) && IsNumeric(e->Type())))
 	{
 	    Error(a, "Incorrect index type");
 	}
@@ -893,6 +903,13 @@ void TypeCheckVisitor::Check<BuiltinExprAST>(BuiltinExprAST* b)
 	Error(b, "Builtin function: '" + b->bif->Name() + "' wrong argument type(s)");
 	break;
     case Builtin::ErrorType::Ok:
+	if (ExprAST* var = b->bif->Changed())
+	{
+	    if (IsProtectedValue(var))
+	    {
+		Error(b, "Builtin procedure '" + b->bif->Name() + "' changes protected value");
+	    }
+	}
 	// The types of the arguments may not have been known when the expression was parsed.
 	b->type = b->bif->Type();
 	break;
@@ -939,17 +956,23 @@ void TypeCheckVisitor::Check<CallExprAST>(CallExprAST* c)
 	}
 	else if (const Types::TypeDecl* ty = parg[idx].Type()->AssignableType(a->Type()))
 	{
-	    if (parg[idx].IsRef() && !llvm::isa<AddressableAST, ClosureAST>(a))
+	    if (parg[idx].IsRef() &&
+	        (!llvm::isa<AddressableAST, ClosureAST>(a) || llvm::isa<StringExprAST, SetExprAST>(a)))
 	    {
 		Error(c, "Expect variable for 'var' parameter");
 	    }
+	    else if (parg[idx].IsRef() && !parg[idx].IsProtected() && IsProtectedValue(a))
+	    {
+		Error(c, "Protected value as 'var' parameter");
+		bad = false;
+	    }
 	    else
 	    {
 		a = Recast(a, ty);
 		bad = false;
 	    }
 	}
-	else if (llvm::isa<Types::PointerDecl>(parg[idx].Type()) && llvm::isa<NilExprAST>(a))
+	else if (!parg[idx].IsRef() && llvm::isa<Types::PointerDecl>(parg[idx].Type()) && llvm::isa<NilExprAST>(a))
 	{
 	    a = Recast(a, parg[idx].Type());
 	    bad = false;
@@ -995,7 +1018,11 @@ void TypeCheckVisitor::Check<ForExprAST>(ForExprAST* f)
     TRACE();
     // Check start + end and cast if necessary. Fail if incompatible types.
     Types::TypeDecl* vty = f->variable->Type();
-    bool             bad = !IsIntegral(vty) && f->end;
+    bool             bad = !IsIntegral(vty) && (f->end || llvm::isa<Types::SetDecl>(f->start->Type()));
+    if (f->variable->IsProtected())
+    {
+	Error(f->variable, "Loop variable is protected");
+    }
     if (bad)
     {
 	Error(f->variable, "Loop iteration variable must be integral type");
@@ -1081,6 +1108,14 @@ void TypeCheckVisitor::Check<ReadAST>(ReadAST* r)
 	}
     }
 
+    for (auto arg : r->args)
+    {
+	if (IsProtectedValue(arg))
+	{
+	    Error(arg, "Reading into protected value");
+	}
+    }
+
     if (isText)
     {
 	for (auto arg : r->args)
@@ -1089,6 +1124,10 @@ void TypeCheckVisitor::Check<ReadAST>(ReadAST* r)
 	    {
 		Error(arg, "Invalid argument for Read/ReadLN - must be a variable-expression");
 	    }
+	    if (llvm::isa<Types::PointerDecl>(arg->Type()) || llvm::isa<Types::SetDecl>(arg->Type()))
+	    {
+		Error(arg, "Pointers and sets can not be read from text");
+	    }
 	    if (IsCompound(arg->Type()))
 	    {
 		bool bad = true;
@@ -1160,6 +1199,10 @@ void TypeCheckVisitor::Check<WriteAST>(WriteAST* w)
 	for (auto arg : w->args)
 	{
 	    ExprAST* e = arg.expr;
+	    if (llvm::isa<Types::PointerDecl>(e->Type()) || llvm::isa<Types::SetDecl>(e->Type()))
+	    {
+		Error(e, "Pointers and sets can not be written as text");
+	    }
 	    if (IsCompound(e->Type()))
 	    {
 		bool bad = true;
diff --git a/types.cpp b/types.cpp
index 9dc6e0d..8d50111 100644
--- a/types.cpp
+++ b/types.cpp
@@ -615,6 +615,11 @@ namespace Types
 	return true;
     }
 
+    const TypeDecl* EnumDecl::CompatibleType(const TypeDecl* ty) const
+    {
+	return SameHost(this, ty) ? this : 0;
+    }
+
     llvm::DIType* EnumDecl::GetDIType(llvm::DIBuilder* builder) const
     {
 	const int                    size = 32;
diff --git a/types.h b/types.h
index 961c3c1..8adc3a8 100644
--- a/types.h
+++ b/types.h
@@ -359,6 +359,8 @@ namespace Types
     class EnumDecl : public CompoundDecl
     {
     public:
+	const TypeDecl* CompatibleType(const TypeDecl* ty) const override;
+
 	struct EnumValue
 	{
 	    EnumValue(const std::string& nm, int v) : name(nm), value(v) {}
-- 
2.43.0

