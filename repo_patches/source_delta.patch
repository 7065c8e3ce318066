From 2dc99cfbe9f87c54d3337c213d115ee147c4a2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:55 +0000
Subject: [PATCH 001/162] fix: keep _Bool normalised on ++ and --

---
 src/cc/frontend/fe_misc.c | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index b97f692..7b6685c 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -1176,6 +1176,36 @@ static Expr *transform_incdec_of_bitfield(enum ExprKind kind, Expr *target, cons
 }
 #endif
 
+// `_Bool' must be kept normalized, so transform ++/-- to assignment:
+//   pre:  (ptr = &target, *ptr = (bool)(*ptr + 1))
+//   post: (ptr = &target, (val = *ptr, (*ptr = (bool)(val + 1), val)))
+static Expr *transform_incdec_of_bool(enum ExprKind kind, Expr *target, const Token *tok) {
+  Type *type = target->type;
+  Expr *ptr_assign = NULL;
+  if (target->kind != EX_VAR) {
+    Type *ptype = ptrof(type);
+    assert(!is_global_scope(curscope));
+    Expr *ptr = alloc_tmp_var(curscope, ptype);
+    ptr_assign = new_expr_bop(EX_ASSIGN, ptype, tok, ptr, make_refer(target->token, target));
+    target = new_expr_unary(EX_DEREF, type, target->token, ptr);
+  }
+
+  bool dec = kind == EX_PREDEC || kind == EX_POSTDEC;
+  bool post = kind == EX_POSTINC || kind == EX_POSTDEC;
+  Expr *val = target, *val_assign = NULL;
+  if (post) {
+    val = alloc_tmp_var(curscope, type);
+    val_assign = new_expr_bop(EX_ASSIGN, type, tok, val, target);
+  }
+  Expr *bop = new_expr_addsub(dec ? EX_SUB : EX_ADD, tok, val, new_expr_fixlit(&tyInt, tok, 1));
+  Expr *result = new_expr_bop(EX_ASSIGN, type, tok, target, make_cast(type, tok, bop, false));
+  if (post) {
+    result = new_expr_bop(EX_COMMA, type, tok, val_assign,
+                          new_expr_bop(EX_COMMA, type, tok, result, val));
+  }
+  return ptr_assign == NULL ? result : new_expr_bop(EX_COMMA, type, tok, ptr_assign, result);
+}
+
 Expr *incdec_of(enum ExprKind kind, Expr *target, const Token *tok) {
   check_referable(tok, target, "lvalue expected");
 #ifndef __NO_BITFIELD
@@ -1185,6 +1215,8 @@ Expr *incdec_of(enum ExprKind kind, Expr *target, const Token *tok) {
       return transform_incdec_of_bitfield(kind, target, tok, minfo);
   }
 #endif
+  if (is_bool(target->type))
+    return transform_incdec_of_bool(kind, target, tok);
   return new_expr_unary(kind, target->type, tok, target);
 }
 
-- 
2.43.0


From 5c3119696217ebe4b66e843122708c36b5ecd023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:21 +0000
Subject: [PATCH 002/162] fix: apply the usual arithmetic conversions to the
 operands of ?:

---
 src/cc/frontend/fe_misc.c | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index 7b6685c..b3dd785 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -1603,22 +1603,20 @@ Type *choose_ternary_result_type(Expr *tval, Expr *fval) {
   } else if (ftype->kind == TY_PTR) {
     return choose_ternary_result_type(fval, tval);  // Make ttype to pointer, and check again.
   } else if (is_number(ttype) && is_number(ftype)) {
-    if (is_flonum(ttype)) {
-      // TODO: Choose lager one.
-      // if (is_flonum(ftype)) {
-      //   return ttype;
-      // }
-      return ttype;
-    } else if (is_flonum(ftype)) {
-      return ftype;
-    }
+    bool tflo = is_flonum(ttype), fflo = is_flonum(ftype);
+    if (tflo && fflo)
+      return ttype->flonum.kind >= ftype->flonum.kind ? ttype : ftype;
+    if (tflo || fflo)
+      return tflo ? ttype : ftype;
     assert(is_fixnum(ttype->kind));
     assert(is_fixnum(ftype->kind));
-    if (ttype->fixnum.kind >= FX_ENUM)
+    if (ttype->fixnum.kind >= FX_ENUM || ttype->fixnum.kind < FX_INT)
       ttype = &tyInt;
-    if (ftype->fixnum.kind >= FX_ENUM)
+    if (ftype->fixnum.kind >= FX_ENUM || ftype->fixnum.kind < FX_INT)
       ftype = &tyInt;
-    return ttype->fixnum.kind > ftype->fixnum.kind ? ttype : ftype;
+    int t = (type_size(ttype) << 1) | (ttype->fixnum.is_unsigned ? 1 : 0);
+    int f = (type_size(ftype) << 1) | (ftype->fixnum.is_unsigned ? 1 : 0);
+    return t >= f ? ttype : ftype;
   }
   return NULL;
 }
-- 
2.43.0


From 22a8ff835e2053ca3ad79868fab7418a071b96b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:11 +0000
Subject: [PATCH 003/162] fix: interpret constant operands in their own width
 when folding in SSA form

---
 src/cc/backend/optimize.c | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/cc/backend/optimize.c b/src/cc/backend/optimize.c
index a6580df..b3d265d 100644
--- a/src/cc/backend/optimize.c
+++ b/src/cc/backend/optimize.c
@@ -248,6 +248,11 @@ static int replace_register_in_bb(BB *bb, VReg *target, VReg *alternation, int s
   return first;
 }
 
+// Value of an integer constant as seen from an operation with the given signedness.
+static int64_t const_operand_value(VReg *opr, bool is_unsigned) {
+  return wrap_value(opr->fixnum, 1 << opr->vsize, is_unsigned);
+}
+
 static bool calc_const_cond(enum ConditionKind cond, VReg *opr1, VReg *opr2) {
   assert(opr1->flag & VRF_CONST);
   assert(opr2->flag & VRF_CONST);
@@ -268,8 +273,9 @@ static bool calc_const_cond(enum ConditionKind cond, VReg *opr1, VReg *opr2) {
   } else
 #endif
   {
-    int64_t n1 = opr1->fixnum;
-    int64_t n2 = opr2->fixnum;
+    bool is_unsigned = (cond & COND_UNSIGNED) != 0;
+    int64_t n1 = const_operand_value(opr1, is_unsigned);
+    int64_t n2 = const_operand_value(opr2, is_unsigned);
     switch ((int)cond) {
     case COND_EQ | COND_UNSIGNED:  // Fallthrough
     case COND_EQ:  return n1 == n2;
@@ -355,12 +361,12 @@ static int64_t calc_const_expr(IR *ir) {
 
   int64_t value = 0;
   if (ir->flag & IRF_UNSIGNED) {
-    uint64_t opr1 = ir->opr1->fixnum;
-    uint64_t opr2 = ir->opr2 != NULL ? ir->opr2->fixnum : 0;
+    uint64_t opr1 = const_operand_value(ir->opr1, true);
+    uint64_t opr2 = ir->opr2 != NULL ? const_operand_value(ir->opr2, true) : 0;
     CALC_CONST(ir->kind);
   } else {
-    int64_t opr1 = ir->opr1->fixnum;
-    int64_t opr2 = ir->opr2 != NULL ? ir->opr2->fixnum : 0;
+    int64_t opr1 = const_operand_value(ir->opr1, false);
+    int64_t opr2 = ir->opr2 != NULL ? const_operand_value(ir->opr2, false) : 0;
     CALC_CONST(ir->kind);
   }
 #undef CALC
@@ -444,7 +450,9 @@ static bool constant_folding(RegAlloc *ra, IR *ir) {
       if (ir->dst->flag & VRF_FLONUM) {
         double value;
         if (!(ir->opr1->flag & VRF_FLONUM)) {
-          value = (ir->flag & IRF_UNSIGNED) ? (double)(uint64_t)ir->opr1->fixnum : (double)ir->opr1->fixnum;
+          bool is_unsigned = (ir->flag & IRF_UNSIGNED) != 0;
+          int64_t fixnum = const_operand_value(ir->opr1, is_unsigned);
+          value = is_unsigned ? (double)(uint64_t)fixnum : (double)fixnum;
         } else {
           value = ir->opr1->flonum.value;
         }
-- 
2.43.0


From 59484482717554a1a2ed18badb4cb464dbbd5ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:49 +0000
Subject: [PATCH 004/162] fix: keep folded floating constants in the precision
 of their type

---
 src/cc/backend/regalloc.c | 2 ++
 src/cc/frontend/ast.c     | 3 ++-
 src/cc/frontend/fe_misc.c | 3 +--
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/cc/backend/regalloc.c b/src/cc/backend/regalloc.c
index 488762c..dc1e8de 100644
--- a/src/cc/backend/regalloc.c
+++ b/src/cc/backend/regalloc.c
@@ -71,6 +71,8 @@ VReg *reg_alloc_spawn_const(RegAlloc *ra, int64_t value, enum VRegSize vsize) {
 
 #ifndef __NO_FLONUM
 VReg *reg_alloc_spawn_fconst(RegAlloc *ra, double value, enum VRegSize vsize) {
+  if (vsize == VRegSize4)
+    value = (float)value;  // Keep the value in the precision of its type.
   union { double d; uint64_t q; } u1, u2;
   u1.d = value;
   for (int i = 0; i < ra->consts->len; ++i) {
diff --git a/src/cc/frontend/ast.c b/src/cc/frontend/ast.c
index d71075a..1c7613c 100644
--- a/src/cc/frontend/ast.c
+++ b/src/cc/frontend/ast.c
@@ -100,7 +100,8 @@ Expr *new_expr_fixlit(Type *type, const Token *token, Fixnum fixnum) {
 Expr *new_expr_flolit(Type *type, const Token *token, Flonum flonum) {
   assert(type->kind == TY_FLONUM);
   Expr *expr = new_expr(EX_FLONUM, type, token);
-  expr->flonum = flonum;
+  // Keep the value in the precision of its type.
+  expr->flonum = type->flonum.kind == FL_FLOAT ? (Flonum)(float)flonum : (Flonum)(double)flonum;
   return expr;
 }
 #endif
diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index b3dd785..f5c8967 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -363,8 +363,7 @@ Expr *make_cast(Type *type, const Token *token, Expr *sub, bool is_explicit) {
         return new_expr_fixlit(type, sub->token, fixnum);
       }
       assert(type->kind == TY_FLONUM);
-      sub->type = type;
-      return sub;
+      return new_expr_flolit(type, sub->token, sub->flonum);
     case EX_FIXNUM:
       if (type->kind == TY_FLONUM) {
         Flonum flonum = (sub->type->kind != TY_FIXNUM || sub->type->fixnum.is_unsigned)
-- 
2.43.0


From f466a34968b179048f24f7d228126319b041c222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:17 +0000
Subject: [PATCH 005/162] fix: fold constant additions in the common type of
 both operands

---
 src/cc/frontend/fe_misc.c | 39 ++++++++-------------------------------
 1 file changed, 8 insertions(+), 31 deletions(-)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index f5c8967..81f054e 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -924,11 +924,13 @@ Expr *new_expr_addsub(enum ExprKind kind, const Token *tok, Expr *lhs, Expr *rhs
   assert(ltype != NULL);
   assert(rtype != NULL);
   if (is_number(ltype) && is_number(rtype)) {
+    cast_numbers(&lhs, &rhs, true);
+    type = lhs->type;
     if (is_const(lhs) && is_const(rhs)) {
 #ifndef __NO_FLONUM
-      if (is_flonum(lhs->type) || is_flonum(rhs->type)) {
-        Flonum lval = is_flonum(lhs->type) ? lhs->flonum : lhs->fixnum;
-        Flonum rval = is_flonum(rhs->type) ? rhs->flonum : rhs->fixnum;
+      if (is_flonum(type)) {
+        Flonum lval = lhs->flonum;
+        Flonum rval = rhs->flonum;
         Flonum value;
         switch (kind) {
         case EX_ADD:     value = lval + rval; break;
@@ -938,30 +940,11 @@ Expr *new_expr_addsub(enum ExprKind kind, const Token *tok, Expr *lhs, Expr *rhs
           value = -1;  // Dummy
           break;
         }
-        Type *type = lhs->type;
-        if (is_flonum(rhs->type))
-          type = rhs->type;
-        if (is_flonum(type)) {
-          return new_expr_flolit(type, lhs->token, value);
-        } else {
-          Fixnum fixnum = value;
-          return new_expr_fixlit(type, lhs->token, fixnum);
-        }
+        return new_expr_flolit(type, lhs->token, value);
       }
 #endif
-      enum FixnumKind lnt = ltype->fixnum.kind;
-      enum FixnumKind rnt = rtype->fixnum.kind;
-      if (lnt >= FX_ENUM) {
-        ltype = &tyInt;
-        lnt = FX_INT;
-      }
-      if (rnt >= FX_ENUM) {
-        rtype = &tyInt;
-        rnt = FX_INT;
-      }
-
-      Fixnum lval = lhs->fixnum;
-      Fixnum rval = rhs->fixnum;
+      UFixnum lval = lhs->fixnum;
+      UFixnum rval = rhs->fixnum;
       Fixnum value;
       switch (kind) {
       case EX_ADD: value = lval + rval; break;
@@ -971,15 +954,9 @@ Expr *new_expr_addsub(enum ExprKind kind, const Token *tok, Expr *lhs, Expr *rhs
         value = -1;
         break;
       }
-      Type *type = lnt >= rnt ? ltype : rtype;
-      if (type->fixnum.kind < FX_INT)
-        type = &tyInt;
       return new_expr_fixlit(type, lhs->token,
                              wrap_value(value, type_size(type), type->fixnum.is_unsigned));
     }
-
-    cast_numbers(&lhs, &rhs, true);
-    type = lhs->type;
   } else if (ptr_or_array(ltype)) {
     if (is_fixnum(rtype->kind)) {
       type = ltype;
-- 
2.43.0


From fa9bc6e112d592ad012e6db0777bd9e262f39774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:33 +0000
Subject: [PATCH 006/162] fix: fold double constants in double precision, not
 in the host's long double

---
 src/_debug/dump_expr.c  | 2 +-
 src/cc/frontend/ast.c   | 2 +-
 src/cc/frontend/ast.h   | 2 +-
 src/cc/frontend/lexer.c | 6 ------
 4 files changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/_debug/dump_expr.c b/src/_debug/dump_expr.c
index c017eeb..3b3ddc1 100644
--- a/src/_debug/dump_expr.c
+++ b/src/_debug/dump_expr.c
@@ -114,7 +114,7 @@ void dump_expr(FILE *fp, Expr *expr) {
 #ifndef __NO_FLONUM
     {
       char buf[64];
-      snprintf(buf, sizeof(buf) - 4, "%Lg", expr->flonum);
+      snprintf(buf, sizeof(buf) - 4, "%g", expr->flonum);
       if (strchr(buf, '.') == NULL)
         strcat(buf, ".0");
       switch (expr->type->flonum.kind) {
diff --git a/src/cc/frontend/ast.c b/src/cc/frontend/ast.c
index 1c7613c..be25fef 100644
--- a/src/cc/frontend/ast.c
+++ b/src/cc/frontend/ast.c
@@ -101,7 +101,7 @@ Expr *new_expr_flolit(Type *type, const Token *token, Flonum flonum) {
   assert(type->kind == TY_FLONUM);
   Expr *expr = new_expr(EX_FLONUM, type, token);
   // Keep the value in the precision of its type.
-  expr->flonum = type->flonum.kind == FL_FLOAT ? (Flonum)(float)flonum : (Flonum)(double)flonum;
+  expr->flonum = type->flonum.kind == FL_FLOAT ? (Flonum)(float)flonum : flonum;
   return expr;
 }
 #endif
diff --git a/src/cc/frontend/ast.h b/src/cc/frontend/ast.h
index 347fb40..8c16e0e 100644
--- a/src/cc/frontend/ast.h
+++ b/src/cc/frontend/ast.h
@@ -23,7 +23,7 @@ typedef int64_t  Fixnum;
 typedef uint64_t UFixnum;
 
 #ifndef __NO_FLONUM
-typedef long double Flonum;
+typedef double Flonum;  // `long double' of the target is same as `double'.
 #endif
 
 enum StrKind {
diff --git a/src/cc/frontend/lexer.c b/src/cc/frontend/lexer.c
index c466523..e61bcb0 100644
--- a/src/cc/frontend/lexer.c
+++ b/src/cc/frontend/lexer.c
@@ -393,13 +393,7 @@ static const char *skip_whitespace_or_comment(const char *p) {
 static Token *read_flonum(const char **pp, int base) {
   const char *start = *pp;
   char *next;
-#ifdef __XCC
-  // long double in XCC is same as double, and if the target platform uses
-  // system library, it makes discrepancy.
   Flonum val = strtod(start, &next);
-#else
-  Flonum val = strtold(start, &next);
-#endif
   enum TokenKind tk = TK_DOUBLELIT;
   switch (tolower(*next)) {
   case 'f':
-- 
2.43.0


From 3ddad16f2d31e3bf82e4bd3e72295391199cd4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:33 +0000
Subject: [PATCH 007/162] fix: do not fold x * 0.0 to 0.0

---
 src/cc/frontend/fe_misc.c | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index 81f054e..5b13e7a 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -813,8 +813,6 @@ Expr *new_expr_num_bop(enum ExprKind kind, const Token *tok, Expr *lhs, Expr *rh
           Flonum rval = rhs->flonum;
           switch (kind) {
           case EX_MUL:
-            if (rval == 0.0)
-              return new_expr_bop(EX_COMMA, rhs->type, tok, lhs, rhs);  // 0.0
             if (rval == -1.0)
               return new_expr_unary(EX_NEG, lhs->type, lhs->token, lhs);  // -lhs
             // Fallthrough.
@@ -859,8 +857,6 @@ Expr *new_expr_num_bop(enum ExprKind kind, const Token *tok, Expr *lhs, Expr *rh
           Flonum lval = lhs->flonum;
           switch (kind) {
           case EX_MUL:
-            if (lval == 0.0)
-              return new_expr_bop(EX_COMMA, lhs->type, tok, rhs, lhs);  // 0.0
             if (lval == 1.0)
               return rhs;  // no effect.
             if (lval == -1.0)
-- 
2.43.0


From aba90449f5f881ad514d2a4259110eb622ed06d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:21 +0000
Subject: [PATCH 008/162] fix: round unsigned integer to floating conversions
 correctly on x64

---
 src/cc/arch/x64/ir_x64.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/cc/arch/x64/ir_x64.c b/src/cc/arch/x64/ir_x64.c
index 257d166..397af21 100644
--- a/src/cc/arch/x64/ir_x64.c
+++ b/src/cc/arch/x64/ir_x64.c
@@ -683,6 +683,7 @@ static void ei_cast(IR *ir) {
         }
       } else if (pows < 3) {
         const char *s64 = kReg64s[ir->opr1->phys];
+        MOV(s, s);  // Clear upper 32bits, which might be remained by narrowing.
         switch (ir->dst->vsize) {
         case SZ_FLOAT:   CVTSI2SS(s64, d); break;
         case SZ_DOUBLE:  CVTSI2SD(s64, d); break;
@@ -690,9 +691,10 @@ static void ei_cast(IR *ir) {
         }
       } else {
         // x64 support signed 64bit-signed-int to double only, so pass half value
-        // (precision is lost anyway).
+        // (with the lowest bit kept sticky, to round correctly).
         const Name *neglabel = alloc_label();
         const Name *skiplabel = alloc_label();
+        const Name *evenlabel = alloc_label();
         TEST(s, s);
         JS(fmt_name(neglabel));
         switch (ir->dst->vsize) {
@@ -705,6 +707,9 @@ static void ei_cast(IR *ir) {
         PUSH(RAX);  // Push %rax to avoid Break
         MOV(s, RAX);
         SHR(IM(1), RAX);
+        JAE(fmt_name(evenlabel));
+        OR(IM(1), RAX);
+        EMIT_LABEL(fmt_name(evenlabel));
         switch (ir->dst->vsize) {
         case SZ_FLOAT:   CVTSI2SS(RAX, d); ADDSS(d, d); break;
         case SZ_DOUBLE:  CVTSI2SD(RAX, d); ADDSD(d, d); break;
-- 
2.43.0


From 1de20f5dc7576dab1da5fe57006da09d809a4d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:55 +0000
Subject: [PATCH 009/162] fix: evaluate the operand of a floating to uint64_t
 conversion once

---
 src/cc/frontend/fe_misc.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index 5b13e7a..cc13b3a 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -401,6 +401,13 @@ Expr *make_cast(Type *type, const Token *token, Expr *sub, bool is_explicit) {
     //   to: (flonum <= INT64_MAX) ? (int64_t)flonum
     //                             : ((int64_t)(flonum - (INT64_MAX + 1UL)) ^ (1L << 63))
     Type *i64t = get_fixnum_type_from_size(dst_size);
+    Expr *tmp_assign = NULL;
+    if (sub->kind != EX_VAR && !is_global_scope(curscope)) {
+      // Operand is referred more than once, so keep its value in a temporary variable.
+      Expr *tmp = alloc_tmp_var(curscope, sub->type);
+      tmp_assign = new_expr_bop(EX_ASSIGN, sub->type, token, tmp, sub);
+      sub = tmp;
+    }
     Expr *cond = new_expr_bop(EX_LE, &tyBool, token, sub,
                               new_expr_flolit(sub->type, sub->token, INT64_MAX));
     Expr *offsetted = new_expr_addsub(
@@ -409,6 +416,8 @@ Expr *make_cast(Type *type, const Token *token, Expr *sub, bool is_explicit) {
     Expr *xorred = new_expr_bop(EX_BITXOR, i64t, token, make_cast(i64t, token, offsetted, false),
                                 new_expr_fixlit(i64t, token, (uint64_t)1 << 63));
     sub = new_expr_ternary(token, cond, make_cast(i64t, token, sub, false), xorred, i64t);
+    if (tmp_assign != NULL)
+      sub = new_expr_bop(EX_COMMA, i64t, token, tmp_assign, sub);
   }
 #endif
 
-- 
2.43.0


From bb98dac736e7b647da62969630b4ae6e599ff16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:01 +0000
Subject: [PATCH 010/162] fix: convert unsigned integer initializers of static
 floating objects correctly

---
 src/cc/frontend/initializer.c | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/cc/frontend/initializer.c b/src/cc/frontend/initializer.c
index c2260f3..57d1d8d 100644
--- a/src/cc/frontend/initializer.c
+++ b/src/cc/frontend/initializer.c
@@ -635,12 +635,8 @@ static Initializer *check_global_initializer(Type *type, Initializer *init) {
     if (init->kind == IK_SINGLE) {
       switch (init->single->kind) {
       case EX_FIXNUM:
-        {
-          Fixnum fixnum = init->single->fixnum;
-          init->single = new_expr_flolit(type, init->single->token, fixnum);
-        }
-        // Fallthrough
       case EX_FLONUM:
+        init->single = make_cast(type, init->single->token, init->single, false);
         return init;
       default:
         parse_error(PE_NOFATAL, init->single->token, "Constant expression expected");
-- 
2.43.0


From 43b89a0da0e767823a28d4dd605c10af58fe547b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:09 +0000
Subject: [PATCH 011/162] fix: promote the controlling expression of switch

---
 src/cc/frontend/parser.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cc/frontend/parser.c b/src/cc/frontend/parser.c
index 8430c04..740c292 100644
--- a/src/cc/frontend/parser.c
+++ b/src/cc/frontend/parser.c
@@ -345,6 +345,8 @@ static Stmt *parse_switch(const Token *tok) {
   mark_var_used(value);
   not_void(value->type, value->token);
   consume(TK_RPAR, "`)' expected");
+  if (is_fixnum(value->type->kind))
+    value = promote_to_int(value);
 
   Stmt *stmt = new_stmt_switch(tok, value);
   SAVE_LOOP_SCOPE(save, stmt, NULL);
-- 
2.43.0


From 06dbcbc2af6ecf267a4f86166a18ffee88a65d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:23 +0000
Subject: [PATCH 012/162] fix: sort case labels in the order of the controlling
 type

---
 src/cc/backend/codegen.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cc/backend/codegen.c b/src/cc/backend/codegen.c
index 5e26fe7..37751d2 100644
--- a/src/cc/backend/codegen.c
+++ b/src/cc/backend/codegen.c
@@ -391,8 +391,10 @@ static int compare_cases(const void *pa, const void *pb) {
     return 1;
   if (cb->case_.value == NULL)
     return -1;
-  Fixnum d = ca->case_.value->fixnum - cb->case_.value->fixnum;
-  return d > 0 ? 1 : d < 0 ? -1 : 0;
+  Fixnum va = ca->case_.value->fixnum, vb = cb->case_.value->fixnum;
+  if (ca->case_.value->type->fixnum.is_unsigned)
+    return (UFixnum)va > (UFixnum)vb ? 1 : (UFixnum)va < (UFixnum)vb ? -1 : 0;
+  return va > vb ? 1 : va < vb ? -1 : 0;
 }
 
 static void gen_switch_cond_table_jump(Stmt *swtch, VReg *vreg, Stmt **cases, int len, int cond_flag) {
-- 
2.43.0


From c32ab4b7a678bb44100a4a4bd5728c5ed6f1ae2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:36 +0000
Subject: [PATCH 013/162] fix: wcc: compare the whole controlling value of
 switch

---
 src/wcc/gen_wasm.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/wcc/gen_wasm.c b/src/wcc/gen_wasm.c
index 10efbb4..6215070 100644
--- a/src/wcc/gen_wasm.c
+++ b/src/wcc/gen_wasm.c
@@ -1127,11 +1127,22 @@ static void gen_switch_table_jump(Stmt *stmt, Expr *value, Fixnum min, Fixnum ma
     }
   }
 
-  gen_expr(value, true);
   bool is_i64 = type_size(value->type) > I32_SIZE;
+  if (is_i64) {
+    // Index is truncated to 32bit, so exclude out of range values first.
+    gen_expr(value, true);
+    ADD_CODE(OP_I64_CONST);
+    ADD_LEB128(min);
+    ADD_CODE(OP_I64_SUB, OP_I64_CONST);
+    ADD_LEB128(max - min);
+    ADD_CODE(OP_I64_GT_U, OP_BR_IF);
+    ADD_ULEB128(default_index);
+  }
+
+  gen_expr(value, true);
   if (min != 0) {
     ADD_CODE(is_i64 ? OP_I64_CONST : OP_I32_CONST);
-    ADD_LEB128(min);
+    ADD_LEB128(is_i64 ? min : (int32_t)min);
     ADD_CODE(is_i64 ? OP_I64_SUB : OP_I32_SUB);
   }
   if (is_i64)
@@ -1207,7 +1218,7 @@ static void gen_switch(Stmt *stmt) {
       max = v;
   }
 
-  if (case_count >= 4 && (max - min) / 2 <= case_count) {
+  if (case_count >= 4 && ((UFixnum)max - (UFixnum)min) / 2 <= (UFixnum)case_count) {
     gen_switch_table_jump(stmt, value, min, max, default_index);
   } else {
     bool is_i64 = type_size(value->type) > I32_SIZE;
@@ -1219,7 +1230,7 @@ static void gen_switch(Stmt *stmt) {
         continue;
       gen_expr(value, true);
       ADD_CODE(op_const);
-      ADD_LEB128(c->case_.value->fixnum);
+      ADD_LEB128(is_i64 ? c->case_.value->fixnum : (int32_t)c->case_.value->fixnum);
       ADD_CODE(op_eq, OP_BR_IF);
       int index = c->case_.block_index;
       if (index < 0)
-- 
2.43.0


From e16e884ad0c2d5ce78ab7fc556707dd97798b005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:22 +0000
Subject: [PATCH 014/162] fix: do not invert floating relational comparisons
 when negating them

---
 src/cc/frontend/fe_misc.c |  5 ++++-
 src/wcc/gen_wasm.c        | 11 +++++++++--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index cc13b3a..9fb176c 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -1350,8 +1350,11 @@ Expr *new_expr_cmp(enum ExprKind kind, const Token *tok, Expr *lhs, Expr *rhs) {
           p->kind = (EX_EQ + EX_NE) - p->kind;  // EQ <-> NE
         return p;
       case EX_LT: case EX_LE: case EX_GE: case EX_GT:
-        if (k == EX_EQ)
+        if (k == EX_EQ) {
+          if (is_flonum(p->bop.lhs->type))
+            break;  // Comparison with NaN: !(a < b) is not (a >= b).
           p->kind = EX_LT + ((p->kind - EX_LT) ^ 2);  // LT <-> GE, LE <-> GT
+        }
         return p;
       case EX_LOGAND: case EX_LOGIOR:
         if (k == EX_EQ)
diff --git a/src/wcc/gen_wasm.c b/src/wcc/gen_wasm.c
index 6215070..b880c4e 100644
--- a/src/wcc/gen_wasm.c
+++ b/src/wcc/gen_wasm.c
@@ -1069,10 +1069,17 @@ static void gen_cond(Expr *cond, bool tf, bool needval) {
   case EX_LE:
   case EX_GE:
     if (!tf) {
-      if (ck <= EX_NE)
+      if (ck <= EX_NE) {
         ck = (EX_EQ + EX_NE) - ck;
-      else
+      } else if (is_flonum(cond->bop.lhs->type)) {
+        // Comparison with NaN: !(a < b) is not (a >= b).
+        gen_compare_expr(ck, cond->bop.lhs, cond->bop.rhs, needval);
+        if (needval)
+          ADD_CODE(OP_I32_EQZ);
+        break;
+      } else {
         ck = EX_LT + ((ck - EX_LT) ^ 2);
+      }
     }
     gen_compare_expr(ck, cond->bop.lhs, cond->bop.rhs, needval);
     break;
-- 
2.43.0


From b69fd3caa7564d6c28e7b7972bdfed09fcf0e3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:26 +0000
Subject: [PATCH 015/162] fix: remove edges of folded jumps in SSA form

---
 src/cc/backend/optimize.c | 64 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 64 insertions(+)

diff --git a/src/cc/backend/optimize.c b/src/cc/backend/optimize.c
index b3d265d..9a7d846 100644
--- a/src/cc/backend/optimize.c
+++ b/src/cc/backend/optimize.c
@@ -488,6 +488,20 @@ static bool constant_folding(RegAlloc *ra, IR *ir) {
       return replace_const_jmp(ir);
     }
     break;
+  case IR_TJMP:
+    if (ir->opr1->flag & VRF_CONST) {
+      uint64_t index = const_operand_value(ir->opr1, true);
+      if (index >= ir->tjmp.len)
+        break;  // Not reachable, because of the preceding range check.
+      // Replace to JMP.
+      BB *bb = ir->tjmp.bbs[index];
+      ir->kind = IR_JMP;
+      ir->jmp.bb = bb;
+      ir->jmp.cond = COND_ANY;
+      ir->opr1 = NULL;
+      return true;
+    }
+    break;
 
   default: break;
   }
@@ -640,6 +654,55 @@ static void copy_propagation(RegAlloc *ra, BBContainer *bbcon) {
   } while (again);
 }
 
+// Conditional jumps might be folded: Remove edges no longer exist, and phi parameters for them.
+static void remove_dead_edges(BBContainer *bbcon) {
+  Vector **olds = malloc_or_die(sizeof(*olds) * bbcon->len);
+  for (int i = 0; i < bbcon->len; ++i) {
+    BB *bb = bbcon->data[i];
+    olds[i] = bb->from_bbs;
+    bb->from_bbs = new_vector();
+  }
+
+  detect_from_bbs(bbcon);
+
+  for (int i = 0; i < bbcon->len; ++i) {
+    BB *bb = bbcon->data[i];
+    Vector *old = olds[i];
+    Vector *phis = bb->phis;
+    if (bb->from_bbs->len == 0 && i > 0) {
+      vec_clear(bb->irs);
+      if (phis != NULL)
+        vec_clear(phis);
+    } else if (phis != NULL) {
+      // Keep the order of `from_bbs', which corresponds to phi parameters.
+      for (int j = 0; j < old->len; ++j) {
+        BB *from = old->data[j];
+        int k;
+        for (k = 0; k < bb->from_bbs->len; ++k) {
+          if (bb->from_bbs->data[k] == from)
+            break;
+        }
+        if (k < bb->from_bbs->len) {
+          vec_remove_at(bb->from_bbs, k);
+          continue;
+        }
+        vec_remove_at(old, j);
+        for (int iphi = 0; iphi < phis->len; ++iphi) {
+          Phi *phi = phis->data[iphi];
+          vec_remove_at(phi->params, j);
+        }
+        --j;
+      }
+      assert(bb->from_bbs->len == 0);
+      Vector *tmp = bb->from_bbs;
+      bb->from_bbs = old;
+      old = tmp;
+    }
+    free_vector(old);
+  }
+  free(olds);
+}
+
 //
 
 void optimize(RegAlloc *ra, BBContainer *bbcon) {
@@ -659,6 +722,7 @@ void optimize(RegAlloc *ra, BBContainer *bbcon) {
   if (apply_ssa) {
     make_ssa(ra, bbcon);
     copy_propagation(ra, bbcon);
+    remove_dead_edges(bbcon);
     remove_unused_vregs(ra, bbcon);
     if (!keep_phi) {
       resolve_phis(ra, bbcon);
-- 
2.43.0


From fc1fa2f59a2d7f17170ab00e7fba2a8df23d3c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:49 +0000
Subject: [PATCH 016/162] fix: do not invert floating comparisons when
 resolving phis

---
 src/cc/backend/ssa.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/cc/backend/ssa.c b/src/cc/backend/ssa.c
index d95b630..dd59253 100644
--- a/src/cc/backend/ssa.c
+++ b/src/cc/backend/ssa.c
@@ -195,7 +195,7 @@ static void insert_phis(BBContainer *bbcon, int original_vreg_count) {
 }
 
 // To make BB merging flow only from unconditional transition, insert BB.
-static int insert_unconditional_bb(BBContainer *bbcon, int ito, int ifrom, IR* last) {
+static int insert_unconditional_bb(RegAlloc *ra, BBContainer *bbcon, int ito, int ifrom, IR* last) {
   BB *to = bbcon->data[ito];
   BB *from = bbcon->data[ifrom];
   BB *bb = new_bb();
@@ -223,6 +223,14 @@ static int insert_unconditional_bb(BBContainer *bbcon, int ito, int ifrom, IR* l
     if (last->jmp.bb == to) {
       assert(last->jmp.cond != COND_ANY);
       if (fallthrough) {
+        if (last->jmp.cond & COND_FLONUM) {
+          // Floating comparison cannot be inverted because of NaN: Test its result instead.
+          IR *cond = new_ir_cond(last->opr1, last->opr2, last->jmp.cond);
+          vec_insert(from->irs, from->irs->len - 1, cond);
+          last->opr1 = cond->dst;
+          last->opr2 = reg_alloc_spawn_const(ra, 0, cond->dst->vsize);
+          last->jmp.cond = COND_NE;
+        }
         last->jmp.bb = from->next;
         last->jmp.cond = invert_cond(last->jmp.cond);
       } else {
@@ -263,7 +271,7 @@ static int insert_unconditional_bb(BBContainer *bbcon, int ito, int ifrom, IR* l
   return at;
 }
 
-static int make_from_bb_unconditional(BBContainer *bbcon, int ibb, int ifb) {
+static int make_from_bb_unconditional(RegAlloc *ra, BBContainer *bbcon, int ibb, int ifb) {
   BB *bb = bbcon->data[ibb];
   assert(ifb < bb->from_bbs->len);
   BB *from = bb->from_bbs->data[ifb];
@@ -278,7 +286,7 @@ static int make_from_bb_unconditional(BBContainer *bbcon, int ibb, int ifb) {
           break;
       }
       assert(ifrom < bbcon->len);
-      at = insert_unconditional_bb(bbcon, ibb, ifrom, last);
+      at = insert_unconditional_bb(ra, bbcon, ibb, ifrom, last);
 
       // Replace from_bbs with inserted one.
       bb->from_bbs->data[ifb] = bbcon->data[at];
@@ -432,7 +440,7 @@ void resolve_phis(RegAlloc *ra, BBContainer *bbcon) {
       continue;
 
     for (int ifb = 0; ifb < bb->from_bbs->len; ++ifb) {
-      int at = make_from_bb_unconditional(bbcon, ibb, ifb);
+      int at = make_from_bb_unconditional(ra, bbcon, ibb, ifb);
       if (at <= ibb) {  // Inserted before this BB.
         ++ibb;
       }
-- 
2.43.0


From 74157b8da77eb5a6de8c794f416c6235be02f8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:15 +0000
Subject: [PATCH 017/162] fix: skip struct parameters and the hidden result
 pointer in va_start

---
 src/cc/builtin.c | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/cc/builtin.c b/src/cc/builtin.c
index 8be2b3e..bc5a2ba 100644
--- a/src/cc/builtin.c
+++ b/src/cc/builtin.c
@@ -226,16 +226,13 @@ static VReg *gen_builtin_va_start(Expr *expr) {
     return NULL;
   }
 
-  int gn = 0, fn = 0;
+  int gn = is_stack_param(curfunc->type->func.ret) ? 1 : 0, fn = 0;
+  int stack_offset = 0;  // Size of named parameters passed on the stack.
   for (int i = 0; i < params->len; ++i) {
     VarInfo *info = params->data[i];
     const Type *t = info->type;
-    if (t->kind != TY_STRUCT) {
-      if (is_flonum(t))
-        ++fn;
-      else
-        ++gn;
-    }
+    if (is_stack_param(t) || (is_flonum(t) ? fn++ >= MAX_FREG_ARGS : gn++ >= MAX_REG_ARGS))
+      stack_offset = ALIGN(stack_offset, align_size(t)) + ALIGN(type_size(t), TARGET_POINTER_SIZE);
   }
 
   // ap->gp_offset = gn * TARGET_POINTER_SIZE
@@ -261,11 +258,8 @@ static VReg *gen_builtin_va_start(Expr *expr) {
     FuncBackend *fnbe = curfunc->extra;
     FrameInfo *fi = &fnbe->vaarg_frame_info;
     VReg *p = new_ir_bofs(fi)->dst;
-    int gs = MAX(gn - MAX_REG_ARGS, 0), fs = MAX(fn - MAX_FREG_ARGS, 0);
-    if (gs > 0 || fs > 0) {
-      p = new_ir_bop(IR_ADD, p, new_const_vreg((gs + fs) * TARGET_POINTER_SIZE, vsize), vsize,
-                     IRF_UNSIGNED);
-    }
+    if (stack_offset > 0)
+      p = new_ir_bop(IR_ADD, p, new_const_vreg(stack_offset, vsize), vsize, IRF_UNSIGNED);
     new_ir_store(overflow_arg_area, p, 0);
   }
 
-- 
2.43.0


From 5ac2f1b475122551d995f7da718ffa7b994c708c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:07 +0000
Subject: [PATCH 018/162] fix: wcc: wrap ++ and -- on memory operands narrower
 than int

---
 src/wcc/traverse.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/wcc/traverse.c b/src/wcc/traverse.c
index a3094b3..3ac90ac 100644
--- a/src/wcc/traverse.c
+++ b/src/wcc/traverse.c
@@ -424,10 +424,14 @@ static void te_incdec(Expr **pexpr, bool needval) {
                                    : type->kind == TY_FLONUM ? new_expr_flolit(type, token, 1)
 #endif
                                                              : new_expr_fixlit(type, token, 1);
-  Expr *assign_tmp = new_expr_bop(EX_ASSIGN, &tyVoid, token, tmp,
-                                  !post ? new_expr_bop(op, type, token, deref_p, one) : deref_p);
-  Expr *assign_deref_p = new_expr_bop(EX_ASSIGN, &tyVoid, token, deref_p,
-                                      !post ? tmp : new_expr_bop(op, type, token, tmp, one));
+  Expr *value = new_expr_bop(op, type, token, !post ? deref_p : tmp, one);
+  if (is_fixnum(type->kind) && type_size(type) < type_size(&tyInt)) {
+    // Calculate in int, and wrap around in the target type.
+    value->type = &tyInt;
+    value = make_cast(type, token, value, false);
+  }
+  Expr *assign_tmp = new_expr_bop(EX_ASSIGN, &tyVoid, token, tmp, !post ? value : deref_p);
+  Expr *assign_deref_p = new_expr_bop(EX_ASSIGN, &tyVoid, token, deref_p, !post ? tmp : value);
 
   *pexpr = new_expr_bop(EX_COMMA, type, token, assign_p,
                         new_expr_bop(EX_COMMA, type, token, assign_tmp,
-- 
2.43.0


From 87a51b781be2652c77ec30dfd4e31a21bf6dd1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:07 +0000
Subject: [PATCH 019/162] fix: initialize bit-field members of unions, and
 static bit-fields as wide as 64 bits

---
 src/cc/frontend/cc_misc.c     |  5 +++--
 src/cc/frontend/initializer.c | 35 ++++++++++++++++++++---------------
 2 files changed, 23 insertions(+), 17 deletions(-)

diff --git a/src/cc/frontend/cc_misc.c b/src/cc/frontend/cc_misc.c
index f0be4f0..2411eb7 100644
--- a/src/cc/frontend/cc_misc.c
+++ b/src/cc/frontend/cc_misc.c
@@ -70,7 +70,6 @@ static void eval_initial_value(Expr *expr, Expr **pvar, int64_t *poffset) {
 
 #ifndef __NO_BITFIELD
 static Fixnum calc_bitfield_initial_value(const StructInfo *sinfo, const Initializer *init, int *pi) {
-  assert(!sinfo->is_union);  // TODO
   assert(init == NULL || (init->kind == IK_MULTI && init->multi->len == sinfo->member_count));
   Fixnum x = 0;
   int i = *pi, n = sinfo->member_count;
@@ -86,7 +85,7 @@ static Fixnum calc_bitfield_initial_value(const StructInfo *sinfo, const Initial
       continue;  // 0
     assert(mem_init->kind == IK_SINGLE && mem_init->single->kind == EX_FIXNUM);
 
-    Fixnum mask = (1LL << member->bitfield.width) - 1;
+    UFixnum mask = ~(UFixnum)0 >> (sizeof(UFixnum) * TARGET_CHAR_BIT - member->bitfield.width);
     x |= (mem_init->single->fixnum & mask) << member->bitfield.position;
   }
   *pi = i - 1;
@@ -217,6 +216,8 @@ void construct_initial_value(const Type *type, const Initializer *init,
         const MemberInfo *member = &sinfo->members[i];
 #ifndef __NO_BITFIELD
         if (member->bitfield.active) {
+          if (sinfo->is_union && (init == NULL || init->multi->data[i] == NULL))
+            continue;
           i = construct_initial_value_bitfield(sinfo, init, i, &offset, vtable, ud);
           ++count;
           continue;
diff --git a/src/cc/frontend/initializer.c b/src/cc/frontend/initializer.c
index 57d1d8d..b0937c9 100644
--- a/src/cc/frontend/initializer.c
+++ b/src/cc/frontend/initializer.c
@@ -717,6 +717,24 @@ static Initializer *check_global_initializer(Type *type, Initializer *init) {
   return init;
 }
 
+static void assign_member_initial_value(Expr *member, const MemberInfo *minfo, Initializer *init,
+                                        Vector *inits) {
+#ifndef __NO_BITFIELD
+  if (minfo->bitfield.width > 0) {
+    if (init->kind != IK_SINGLE) {
+      parse_error(PE_FATAL, init->token, "illegal initializer for member `%.*s'",
+                  NAMES(minfo->name));
+    } else {
+      vec_push(inits, new_stmt_expr(assign_to_bitfield(init->token, member, init->single, minfo)));
+    }
+    return;
+  }
+#else
+  UNUSED(minfo);
+#endif
+  assign_initial_value(member, init, inits);
+}
+
 Vector *assign_initial_value(Expr *expr, Initializer *init, Vector *inits) {
   if (init == NULL)
     return inits;
@@ -808,20 +826,7 @@ Vector *assign_initial_value(Expr *expr, Initializer *init, Vector *inits) {
             continue;
           const MemberInfo *minfo = &sinfo->members[i];
           Expr *member = new_expr_member(tok, minfo->type, expr, NULL, minfo);
-#ifndef __NO_BITFIELD
-          if (minfo->bitfield.width > 0) {
-            if (init_elem->kind != IK_SINGLE) {
-              parse_error(PE_FATAL, init_elem->token, "illegal initializer for member `%.*s'",
-                          NAMES(minfo->name));
-            } else {
-              vec_push(inits, new_stmt_expr(assign_to_bitfield(init_elem->token, member,
-                                                               init_elem->single, minfo)));
-            }
-          } else
-#endif
-          {
-            assign_initial_value(member, init_elem, inits);
-          }
+          assign_member_initial_value(member, minfo, init_elem, inits);
         }
       } else {
         int n = sinfo->member_count;
@@ -842,7 +847,7 @@ Vector *assign_initial_value(Expr *expr, Initializer *init, Vector *inits) {
 
           const MemberInfo *minfo = &sinfo->members[i];
           Expr *mem = new_expr_member(tok, minfo->type, expr, NULL, minfo);
-          assign_initial_value(mem, init_elem, inits);
+          assign_member_initial_value(mem, minfo, init_elem, inits);
           ++count;
         }
       }
-- 
2.43.0


From 3bc802ade231c145b014a9857e8442a60353f4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:07 +0000
Subject: [PATCH 020/162] fix: evaluate bit-field accesses in the width, type
 and promotion of the member

---
 src/cc/frontend/fe_misc.c | 67 ++++++++++++++++++++++++++++-----------
 1 file changed, 48 insertions(+), 19 deletions(-)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index 9fb176c..8a51ebc 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -446,6 +446,20 @@ const MemberInfo *search_from_anonymous(const Type *type, const Name *name, cons
   return NULL;
 }
 
+// Unsigned int bit-field whose values all fit in int: promoted to int.
+static bool is_int_bitfield(const Expr *expr) {
+#ifndef __NO_BITFIELD
+  if (expr->kind == EX_MEMBER) {
+    const MemberInfo *minfo = expr->member.info;
+    return minfo->bitfield.width > 0 && minfo->bitfield.width < (int)type_size(&tyInt) * TARGET_CHAR_BIT &&
+           expr->type->fixnum.kind == FX_INT && expr->type->fixnum.is_unsigned;
+  }
+#else
+  UNUSED(expr);
+#endif
+  return false;
+}
+
 static bool cast_numbers(Expr **pLhs, Expr **pRhs, bool make_int) {
   Expr *lhs = *pLhs;
   Expr *rhs = *pRhs;
@@ -473,6 +487,14 @@ static bool cast_numbers(Expr **pLhs, Expr **pRhs, bool make_int) {
       return true;
     }
   }
+  if (is_int_bitfield(lhs)) {
+    *pLhs = lhs = promote_to_int(lhs);
+    ltype = lhs->type;
+  }
+  if (is_int_bitfield(rhs)) {
+    *pRhs = rhs = promote_to_int(rhs);
+    rtype = rhs->type;
+  }
   enum FixnumKind lkind = ltype->fixnum.kind;
   enum FixnumKind rkind = rtype->fixnum.kind;
   bool changed = false;
@@ -748,7 +770,7 @@ Expr *make_refer(const Token *tok, Expr *expr) {
 Expr *promote_to_int(Expr *expr) {
   assert(expr->type->kind == TY_FIXNUM);
   enum FixnumKind kind = expr->type->fixnum.kind;
-  if (kind >= FX_INT && kind <= FX_LLONG)
+  if (kind >= FX_INT && kind <= FX_LLONG && !is_int_bitfield(expr))
     return expr;
   return make_cast(&tyInt, expr->token, expr, false);
 }
@@ -1044,6 +1066,10 @@ void not_bitfield_member(Expr *expr) {
   }
 }
 
+static inline UFixnum bitfield_mask(const MemberInfo *minfo) {
+  return ~(UFixnum)0 >> (sizeof(UFixnum) * TARGET_CHAR_BIT - minfo->bitfield.width);
+}
+
 Expr *extract_bitfield_value(Expr *src, const MemberInfo *minfo) {
   Expr *tmp = src;
   Type *type = src->type;
@@ -1052,7 +1078,7 @@ Expr *extract_bitfield_value(Expr *src, const MemberInfo *minfo) {
     if (minfo->bitfield.position > 0)
       tmp = new_expr_bop(EX_RSHIFT, tmp->type, tmp->token, tmp,
                          new_expr_fixlit(tmp->type, tmp->token, minfo->bitfield.position));
-    UFixnum mask = ((UFixnum)1 << minfo->bitfield.width) - 1;
+    UFixnum mask = bitfield_mask(minfo);
     tmp = new_expr_bop(EX_BITAND, tmp->type, tmp->token, tmp,
                        new_expr_fixlit(tmp->type, tmp->token, mask));
   } else {
@@ -1072,15 +1098,13 @@ Expr *extract_bitfield_value(Expr *src, const MemberInfo *minfo) {
 Expr *assign_bitfield_member(const Token *tok, Expr *dst, Expr *src, Expr *val,
                              const MemberInfo *minfo) {
   Type *type = dst->type;
-  Type *vtype = val->type;
 
-  UFixnum mask = ((UFixnum)1 << minfo->bitfield.width) - 1;
-  Expr *val_masked = new_expr_bop(EX_BITAND, vtype, tok, val, new_expr_fixlit(vtype, tok, mask));
-  val_masked = make_cast(type, tok, val_masked, false);
+  UFixnum mask = bitfield_mask(minfo);
+  Expr *val_masked = new_expr_bop(EX_BITAND, type, tok, make_cast(type, tok, val, false),
+                                  new_expr_fixlit(type, tok, mask));
   if (minfo->bitfield.position > 0)
     val_masked = new_expr_bop(EX_LSHIFT, type, tok, val_masked,
-                              new_expr_fixlit(vtype, tok, minfo->bitfield.position));
-  val_masked = make_cast(type, tok, val_masked, false);
+                              new_expr_fixlit(type, tok, minfo->bitfield.position));
   Expr *src_masked = new_expr_bop(EX_BITAND, type, tok, src,
                                   new_expr_fixlit(type, tok, ~(mask << minfo->bitfield.position)));
   return new_expr_bop(EX_ASSIGN, type, tok, dst,
@@ -1088,7 +1112,7 @@ Expr *assign_bitfield_member(const Token *tok, Expr *dst, Expr *src, Expr *val,
 }
 
 Expr *assign_to_bitfield(const Token *tok, Expr *lhs, Expr *rhs, const MemberInfo *minfo) {
-  // Transform expression to (ptr = &lhs, val = rhs, *ptr = (*ptr & ~(mask << bitpos)) | ((val & mask) << bitpos), val)
+  // Transform expression to (ptr = &lhs, val = rhs, *ptr = (*ptr & ~(mask << bitpos)) | ((val & mask) << bitpos), (*ptr >> bitpos) & mask)
 
   Type *type = get_fixnum_type(minfo->bitfield.base_kind, minfo->type->fixnum.is_unsigned, 0);
 
@@ -1097,15 +1121,16 @@ Expr *assign_to_bitfield(const Token *tok, Expr *lhs, Expr *rhs, const MemberInf
   Expr *ptr = alloc_tmp_var(curscope, ptype);
   Expr *ptr_assign = new_expr_bop(EX_ASSIGN, ptype, tok, ptr, make_refer(lhs->token, lhs));
 
-  Type *vtype = rhs->type;
+  Type *vtype = minfo->type;
   Expr *val = alloc_tmp_var(curscope, vtype);
-  Expr *val_assign = new_expr_bop(EX_ASSIGN, vtype, tok, val, rhs);
+  Expr *val_assign = new_expr_bop(EX_ASSIGN, vtype, tok, val, make_cast(vtype, tok, rhs, false));
 
   Expr *dst = new_expr_unary(EX_DEREF, type, tok, ptr);
   Expr *assign = assign_bitfield_member(tok, dst, dst, val, minfo);
   return new_expr_bop(EX_COMMA, vtype, tok, ptr_assign,
                       new_expr_bop(EX_COMMA, vtype, tok, val_assign,
-                                   new_expr_bop(EX_COMMA, vtype, tok, assign, val)));
+                                   new_expr_bop(EX_COMMA, vtype, tok, assign,
+                                                extract_bitfield_value(dst, minfo))));
 }
 
 static Expr *transform_incdec_of_bitfield(enum ExprKind kind, Expr *target, const Token *tok,
@@ -1134,17 +1159,21 @@ static Expr *transform_incdec_of_bitfield(enum ExprKind kind, Expr *target, cons
   int dec = (kind - EX_PREINC) & INCDEC;
   int post = (kind - EX_PREINC) & PREPOST;
 
+  Type *ctype = type->fixnum.kind < FX_INT ? &tyInt : type;
   Expr *val_assign, *after;
   if (post) {
     Expr *before = extract_bitfield_value(src, minfo);
-    val_assign = new_expr_bop(EX_ASSIGN, type, tok, val, before);
-    after = new_expr_bop(!dec ? EX_ADD : EX_SUB, type, tok, before, new_expr_fixlit(type, NULL, 1));
+    val_assign = new_expr_bop(EX_ASSIGN, vtype, tok, val, before);
+    after = new_expr_bop(!dec ? EX_ADD : EX_SUB, ctype, tok, make_cast(ctype, tok, before, false),
+                         new_expr_fixlit(ctype, NULL, 1));
   } else {
     Expr *tmp = extract_bitfield_value(
-        new_expr_bop(!dec ? EX_ADD : EX_SUB, type, tok, src,
-                     new_expr_fixlit(type, NULL, 1 << minfo->bitfield.position)),
+        make_cast(type, tok,
+                  new_expr_bop(!dec ? EX_ADD : EX_SUB, ctype, tok, make_cast(ctype, tok, src, false),
+                               new_expr_fixlit(ctype, NULL, (UFixnum)1 << minfo->bitfield.position)),
+                  false),
         minfo);
-    val_assign = new_expr_bop(EX_ASSIGN, type, tok, val, tmp);
+    val_assign = new_expr_bop(EX_ASSIGN, vtype, tok, val, tmp);
     after = val;
   }
   Expr *store = assign_bitfield_member(tok, dst, src, after, minfo);
@@ -1648,10 +1677,10 @@ static Expr *transform_assign_with_bitfield(const Token *tok, Expr *lhs, Expr *r
   Expr *src_assign = new_expr_bop(EX_ASSIGN, type, tok, src, dst);
 
   Expr *tmp = extract_bitfield_value(src, minfo);
-  tmp = calc_assign_with(tok, tmp, rhs);
+  Type *vtype = minfo->type;
+  tmp = make_cast(vtype, tok, calc_assign_with(tok, tmp, rhs), false);
   Expr *store = assign_bitfield_member(tok, dst, src, tmp, minfo);
 
-  Type *vtype = rhs->type;
   return new_expr_bop(EX_COMMA, vtype, tok,
                       new_expr_bop(EX_COMMA, vtype, tok, ptr_assign,
                                    new_expr_bop(EX_COMMA, vtype, tok, src_assign, store)),
-- 
2.43.0


From 5a3695ae1eb3024f17dfb998036f6143c66b63ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:47 +0000
Subject: [PATCH 021/162] fix: flatten compound literals and designated
 aggregates once, and never store past a character array

---
 src/cc/frontend/initializer.c | 76 ++++++++++++-----------------------
 src/cc/frontend/parser_expr.c |  3 +-
 2 files changed, 27 insertions(+), 52 deletions(-)

diff --git a/src/cc/frontend/initializer.c b/src/cc/frontend/initializer.c
index b0937c9..3903988 100644
--- a/src/cc/frontend/initializer.c
+++ b/src/cc/frontend/initializer.c
@@ -153,7 +153,7 @@ static Stmt *init_char_array_by_string(Expr *dst, Initializer *src, const Token
   Expr *var = new_expr_variable(varinfo->ident->ident, strtype, NULL, curscope);
   assert(str->type->kind == TY_ARRAY);
   mark_var_used(var);
-  return build_memcpy(dst, var, len * type_size(str->type->pa.ptrof));
+  return build_memcpy(dst, var, MIN(len, dstlen) * type_size(str->type->pa.ptrof));
 }
 
 typedef struct {
@@ -214,6 +214,15 @@ static Type *get_multi_child_type(Type *type, int index) {
   }
 }
 
+// Whether the expression initializes the whole object of an array or a struct.
+static bool is_whole_initializer(Type *type, Expr *value) {
+  // Special handling for string.
+  if (type->kind == TY_ARRAY && value->kind == EX_STR)
+    return is_char_type(type->pa.ptrof, value->str.kind);
+  // In the case that variable or funcall is used as initializer.
+  return is_multi_type(value->type->kind) && same_type_without_qualifier(type, value->type, true);
+}
+
 static Initializer *find_next_indices(InitFlattener *flattener, Initializer *elem_init) {
   Vector *indices = flattener->indices;
   for (;;) {
@@ -278,17 +287,8 @@ static Initializer *find_next_indices(InitFlattener *flattener, Initializer *ele
       if (elem_init != NULL) {
         switch (elem_init->kind) {
         case IK_SINGLE:
-          // Special handling for string.
-          if (type->kind == TY_ARRAY) {
-            if (elem_init->single->kind == EX_STR && is_char_type(type->pa.ptrof, elem_init->single->str.kind)) {
-              return elem_init;
-            }
-          }
-          if (is_multi_type(elem_init->single->type->kind)) {
-            // In the case that variable or funcall is used as initializer.
-            if (same_type_without_qualifier(type, elem_init->single->type, true))
-              return elem_init;
-          }
+          if (is_whole_initializer(type, elem_init->single))
+            return elem_init;
           break;
         case IK_MULTI:
           return flatten_initializer_multi(type, elem_init);
@@ -365,11 +365,9 @@ static Initializer *find_desig_indices(InitFlattener *flattener, Initializer *in
       }
       break;
     case IK_MULTI:
-      if (is_multi_type(type->kind))
-        init = flatten_initializer_multi(type, init);
-      return init;
+      return flatten_initializer(type, init);
     case IK_SINGLE:
-      if (is_multi_type(type->kind) && !is_multi_type(init->single->type->kind)) {
+      if (is_multi_type(type->kind) && !is_whole_initializer(type, init->single)) {
         // To search first element of `type`, dig indices.
         vec_push(indices, INT2VOIDP(-1));
         return find_next_indices(flattener, init);
@@ -462,34 +460,6 @@ static Initializer *flatten_initializer_multi(Type *type, Initializer *init) {
   return flattener.flattened;
 }
 
-static void flatten_initializer_single(Expr *value) {
-  switch (value->kind) {
-  case EX_REF:
-  case EX_DEREF:
-  case EX_CAST:
-    flatten_initializer_single(value->unary.sub);
-    break;
-
-  case EX_COMPLIT:
-    {
-      Initializer *init = flatten_initializer(value->type, value->complit.original_init);
-      value->complit.original_init = init;
-
-      Expr *var = value->complit.var;
-      if (is_global_scope(var->var.scope)) {
-        assert(init->kind == IK_MULTI);
-        VarInfo *varinfo = scope_find(var->var.scope, var->var.name, NULL);
-        assert(varinfo != NULL);
-        varinfo->global.init = init;
-      }
-    }
-    break;
-  default:
-    // TODO: Confirm.
-    break;
-  }
-}
-
 Initializer *flatten_initializer(Type *type, Initializer *init) {
   if (init == NULL)
     return NULL;
@@ -504,8 +474,6 @@ Initializer *flatten_initializer(Type *type, Initializer *init) {
         Expr *e = init->single;
         if (!same_type_without_qualifier(type, e->type, true))
           parse_error(PE_NOFATAL, init->token, "Incompatible type");
-        if (e->kind == EX_COMPLIT)
-          flatten_initializer_single(e);
       }
       break;
     case TY_ARRAY:
@@ -543,9 +511,8 @@ Initializer *flatten_initializer(Type *type, Initializer *init) {
       }
       init = init->multi->data[0];
       assert(init->kind == IK_SINGLE);
-      // Fallthrough
+      break;
     case IK_SINGLE:
-      flatten_initializer_single(init->single);
       break;
     default:
       parse_error(PE_NOFATAL, init->token, "Error initializer");
@@ -589,8 +556,17 @@ static Expr *check_global_initializer_fixnum(Expr *value, bool *isconst) {
     }
     break;
   case EX_COMPLIT:
-    value->complit.original_init = check_global_initializer(value->type,
-                                                            value->complit.original_init);
+    {
+      Initializer *init = check_global_initializer(value->type, value->complit.original_init);
+      value->complit.original_init = init;
+
+      Expr *var = value->complit.var;
+      if (is_global_scope(var->var.scope)) {
+        VarInfo *varinfo = scope_find(var->var.scope, var->var.name, NULL);
+        assert(varinfo != NULL);
+        varinfo->global.init = init;
+      }
+    }
     *isconst = value->type->kind == TY_ARRAY;
     break;
   case EX_ADD:
diff --git a/src/cc/frontend/parser_expr.c b/src/cc/frontend/parser_expr.c
index 7e23cf1..cd83dc7 100644
--- a/src/cc/frontend/parser_expr.c
+++ b/src/cc/frontend/parser_expr.c
@@ -129,20 +129,19 @@ static Expr *parse_compound_literal(Type *type) {
   Token *token = fetch_token();
   Initializer *init = parse_initializer();
 
+  init = flatten_initializer(type, init);
   if (type->kind == TY_ARRAY)
     type = fix_array_size(type, init, token);
 
   Expr *var = alloc_tmp_var(curscope, type);
   Vector *inits = NULL;
   if (is_global_scope(curscope)) {
-    // Global variable initializer is flattened in `check_vardecl()`
     const Name *name = var->var.name;
     VarInfo *varinfo = scope_find(curscope, name, NULL);
     assert(varinfo != NULL);
     varinfo->storage |= VS_STATIC;
     varinfo->global.init = init;
   } else {
-    init = flatten_initializer(type, init);
     inits = assign_initial_value(var, init, NULL);
   }
 
-- 
2.43.0


From 9b00a0b507d75b8c3db9b90151bd7c31ae5fab90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:34 +0000
Subject: [PATCH 022/162] fix: wcc: find address-taken parameters and variadic
 arguments after struct parameters

---
 src/wcc/gen_wasm.c | 27 ++++++++++++++++++---------
 src/wcc/traverse.c | 17 +++++++++++------
 src/wcc/wcc.h      |  1 +
 3 files changed, 30 insertions(+), 15 deletions(-)

diff --git a/src/wcc/gen_wasm.c b/src/wcc/gen_wasm.c
index b880c4e..9570f7c 100644
--- a/src/wcc/gen_wasm.c
+++ b/src/wcc/gen_wasm.c
@@ -296,12 +296,7 @@ static void gen_funcall(Expr *expr) {
   assert(functype != NULL);
   int param_count = functype->func.params != NULL ? functype->func.params->len : 0;
 
-  size_t sarg_siz = 0;
-  for (int i = 0; i < param_count; ++i) {
-    Expr *arg = args->data[i];
-    if (is_stack_param(arg->type))
-      sarg_siz += ALIGN(type_size(arg->type), 4);
-  }
+  size_t sarg_siz = calc_stack_args_size(args, param_count);
 
   size_t vaarg_bufsiz = 0;
   if (functype->func.vaargs) {
@@ -394,7 +389,10 @@ static void gen_funcall(Expr *expr) {
   if (functype->func.vaargs) {
     // Top of vaargs.
     if (vaarg_bufsiz > 0) {
-      gen_expr(lspvar, true);
+      gen_expr(sarg_siz == 0 ? lspvar
+                             : new_expr_bop(EX_ADD, &tySize, NULL, lspvar,
+                                            new_expr_fixlit(&tySize, NULL, sarg_siz)),
+               true);
     } else {
       ADD_CODE(OP_I32_CONST, 0);  // NULL
     }
@@ -1625,7 +1623,7 @@ static uint32_t allocate_local_variables(Function *func, DataStorage *data) {
         if (k >= 0)
           param_index = k;
       }
-      vreg->param_index = ret_param + param_index;
+      vreg->param_index = param_index >= 0 ? (int)param_no : -1;
       bool stack_param = is_stack_param(varinfo->type);
       if ((!stack_param && varinfo->storage & VS_REF_TAKEN) ||  // `&` taken wasm local var.
           (stack_param && param_index < 0)) {                   // non-prim variable (not function parameter)
@@ -1657,6 +1655,17 @@ static uint32_t allocate_local_variables(Function *func, DataStorage *data) {
   return frame_size + finfo->stack_work_size;
 }
 
+// Wasm parameter number which holds the pointer to variadic arguments:
+// It follows the result pointer and the parameters which are not passed through stack.
+static unsigned int get_va_args_param_no(const Type *functype) {
+  unsigned int no = functype->func.ret->kind != TY_VOID && !is_prim_type(functype->func.ret) ? 1 : 0;
+  for (int i = 0; i < functype->func.params->len; ++i) {
+    if (!is_stack_param(functype->func.params->data[i]))
+      ++no;
+  }
+  return no;
+}
+
 static void gen_defun(Function *func) {
   if (func->scopes == NULL)  // Prototype definition
     return;
@@ -1688,7 +1697,7 @@ static void gen_defun(Function *func) {
     VReg *vreg = varinfo->local.vreg;
     assert(vreg != NULL);
     ADD_CODE(OP_LOCAL_GET);
-    ADD_ULEB128(functype->func.params->len);
+    ADD_ULEB128(get_va_args_param_no(functype));
     ADD_CODE(OP_LOCAL_SET);
     ADD_ULEB128(vreg->prim.local_index);
   }
diff --git a/src/wcc/traverse.c b/src/wcc/traverse.c
index 3ac90ac..b45ce23 100644
--- a/src/wcc/traverse.c
+++ b/src/wcc/traverse.c
@@ -212,6 +212,16 @@ static void traverse_func_expr(Expr **pexpr) {
   }
 }
 
+size_t calc_stack_args_size(Vector *args, int param_count) {
+  size_t size = 0;
+  for (int i = 0; i < param_count; ++i) {
+    Expr *arg = args->data[i];
+    if (is_stack_param(arg->type))
+      size = ALIGN(size, align_size(arg->type)) + type_size(arg->type);
+  }
+  return ALIGN(size, 4);
+}
+
 static size_t calc_funcall_work_size(Expr *expr) {
   assert(expr->kind == EX_FUNCALL);
   Expr *func = expr->funcall.func;
@@ -220,12 +230,7 @@ static size_t calc_funcall_work_size(Expr *expr) {
   int param_count = functype->func.params != NULL ? functype->func.params->len : 0;
   Vector *args = expr->funcall.args;
 
-  size_t sarg_siz = 0;
-  for (int i = 0; i < param_count; ++i) {
-    Expr *arg = args->data[i];
-    if (is_stack_param(arg->type))
-      sarg_siz += ALIGN(type_size(arg->type), 4);
-  }
+  size_t sarg_siz = calc_stack_args_size(args, param_count);
 
   size_t vaarg_bufsiz = 0;
   if (functype->func.vaargs) {
diff --git a/src/wcc/wcc.h b/src/wcc/wcc.h
index 025f2d1..3fa4dfc 100644
--- a/src/wcc/wcc.h
+++ b/src/wcc/wcc.h
@@ -79,6 +79,7 @@ typedef struct {
 void traverse_ast(Vector *decls);
 
 bool is_stack_param(const Type *type);
+size_t calc_stack_args_size(Vector *args, int param_count);
 GVarInfo *get_gvar_info_from_name(const Name *name);
 GVarInfo *get_gvar_info(Expr *expr);
 int getsert_func_type_index(const Type *type, bool reg);
-- 
2.43.0


From 222b77bd4fb9185af808c09629733a9e5efc70c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:39 +0000
Subject: [PATCH 023/162] fix: convert constant operands of casts between
 integer and floating types

---
 src/cc/backend/codegen_expr.c | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/cc/backend/codegen_expr.c b/src/cc/backend/codegen_expr.c
index 3849bcd..f254cd0 100644
--- a/src/cc/backend/codegen_expr.c
+++ b/src/cc/backend/codegen_expr.c
@@ -188,8 +188,27 @@ static VReg *gen_cast(Expr *expr) {
 
   size_t dst_size = type_size(dst_type);
   if (vreg->flag & VRF_CONST) {
-    assert(!(vreg->flag & VRF_FLONUM));  // No const vreg for flonum.
+#ifndef __NO_FLONUM
+    if (vreg->flag & VRF_FLONUM) {
+      Flonum f = vreg->flonum.value;
+      if (is_flonum(dst_type))
+        return gen_expr(new_expr_flolit(dst_type, expr->token, dst_size == sizeof(float) ? (float)f : f));
+      Fixnum value = is_unsigned(dst_type) && dst_size == sizeof(Fixnum) ? (Fixnum)(UFixnum)f : (Fixnum)f;
+      return gen_expr(new_expr_fixlit(dst_type, expr->token, wrap_value(value, dst_size, is_unsigned(dst_type))));
+    }
+#endif
     Fixnum value = vreg->fixnum;
+#ifndef __NO_FLONUM
+    if (is_flonum(dst_type)) {
+      bool is_float = dst_size == sizeof(float);
+      Flonum f;
+      if (is_unsigned(src->type))
+        f = is_float ? (float)(UFixnum)value : (double)(UFixnum)value;
+      else
+        f = is_float ? (float)value : (double)value;
+      return gen_expr(new_expr_flolit(dst_type, expr->token, f));
+    }
+#endif
     if (dst_size < (1U << vreg->vsize) && dst_size < sizeof(Fixnum)) {
       // Assume that integer is represented in Two's complement
       size_t bit = dst_size * TARGET_CHAR_BIT;
-- 
2.43.0


From 339b9a4eff97e8119f61fba70ce182586807fbea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:42 +0000
Subject: [PATCH 024/162] fix: sequence the moves of PHI functions as a
 parallel copy

---
 src/cc/backend/ssa.c | 147 +++++++++++--------------------------------
 1 file changed, 38 insertions(+), 109 deletions(-)

diff --git a/src/cc/backend/ssa.c b/src/cc/backend/ssa.c
index dd59253..e7ac02c 100644
--- a/src/cc/backend/ssa.c
+++ b/src/cc/backend/ssa.c
@@ -295,84 +295,10 @@ static int make_from_bb_unconditional(RegAlloc *ra, BBContainer *bbcon, int ibb,
   return at;
 }
 
-static Vector *extract_cyclic_dependency(int ifb, Vector *phis) {
-  // Check destination register dependency.
-  int n = phis->len;
-  for (int i = 0; i < n; ++i) {
-    Phi *phi = phis->data[i];
-    assert(ifb < phi->params->len);
-    VReg *src = phi->params->data[ifb];
-    // Find that src is one of predecessor destination vreg.
-    int j;
-    for (j = 0; j < i; ++j) {
-      Phi *phi2 = phis->data[j];
-      if (phi2->dst == src)
-        break;
-    }
-    if (j >= i)
-      continue;
-
-    // Move i before j: shift intermediate elements.
-    int d = i - j;
-    memmove(&phis->data[j + 1], &phis->data[j], d * sizeof(*phis->data));
-    phis->data[j] = phi;
-    ++i;
-  }
-
-  // Detect cyclic dependency.
-  Vector *cyclics = NULL;
-  for (int i = 0; i < n; ++i) {
-    Phi *phi = phis->data[i];
-    VReg *src = phi->params->data[ifb];
-    // Find that src is one of predecessor destination vreg.
-    int j;
-    for (j = 0; j < i; ++j) {
-      Phi *phi2 = phis->data[j];
-      if (phi2->dst == src)
-        break;
-    }
-    if (j >= i)
-      continue;
-
-    // Destination is dependent on predecessor: Pick up cyclic dependency to `cyclic`.
-    Vector *cyclic = new_vector();
-    for (;;) {
-      Phi *phi2 = phis->data[j];
-      vec_push(cyclic, phi2);
-      phis->data[j] = NULL;
-      if (j >= i)
-        break;
-
-      VReg *src2 = phi2->params->data[ifb];
-      while (++j < i) {
-        Phi *phi3 = phis->data[j];
-        if (phi3->dst == src2)
-          break;
-      }
-    }
-    assert(cyclic->len >= 2);
-
-    if (cyclics == NULL)
-      cyclics = new_vector();
-    vec_push(cyclics, cyclic);
-
-    // Eliminate them from phis.
-    for (int k = 0; k < n; ++k) {
-      if (phis->data[k] == NULL) {
-        phis->data[k] = phis->data[--n];
-        phis->data[n] = NULL;
-      }
-    }
-    for (; n > 0 && phis->data[n - 1] == NULL; --n)
-      ;
-    phis->len = n;  // Truncate (Recovered in later).
-  }
-  return cyclics;
-}
-
+// Replace PHIs with moves at the end of a predecessor.
+// All PHIs read their sources simultaneously, so a move can be emitted only if
+// its destination is not a source of the remaining ones.
 static void replace_phis(RegAlloc *ra, BB *bb, int ifb, Vector *phis) {
-  Vector *cyclics = extract_cyclic_dependency(ifb, phis);
-
   // Detect insertion point.
   BB *from = bb->from_bbs->data[ifb];
   int pos = from->irs->len;
@@ -383,43 +309,46 @@ static void replace_phis(RegAlloc *ra, BB *bb, int ifb, Vector *phis) {
       --pos;
   }
 
-  // Put non-cyclic phis.
-  for (int iphi = 0; iphi < phis->len; ++iphi) {
-    Phi *phi = phis->data[iphi];
-    VReg *src_vreg = phi->params->data[ifb];
-    IR *mov = new_ir_mov(phi->dst, src_vreg, 0);
-    vec_insert(from->irs, pos++, mov);
+  Vector dsts, srcs;
+  vec_init(&dsts);
+  vec_init(&srcs);
+  for (int i = 0; i < phis->len; ++i) {
+    Phi *phi = phis->data[i];
+    assert(ifb < phi->params->len);
+    VReg *src = phi->params->data[ifb];
+    if (src != phi->dst) {
+      vec_push(&dsts, phi->dst);
+      vec_push(&srcs, src);
+    }
   }
 
-  if (cyclics != NULL) {
-    Vector **vreg_table = ra->vreg_table;
-    for (int i = 0; i < cyclics->len; ++i) {
-      Vector *cyclic = cyclics->data[i];
-      assert(cyclic->len > 0);
-      Phi *first = cyclic->data[0];
-
-      // Allocate temporary vreg.
-      assert(first->dst->original != first->dst);  // phi's destination must not be an original virtual register.
-      VReg *original = first->dst->original;
-      Vector *vt = vreg_table[original->virt];
-      VReg *tmp = reg_alloc_with_original(ra, original);
-      vec_push(vt, tmp);
-
-      for (int j = 0; j < cyclic->len; ++j) {
-        Phi *phi = cyclic->data[j];
-        VReg *src_vreg = phi->params->data[ifb];
-        IR *mov = new_ir_mov(j == 0 ? tmp : phi->dst, src_vreg, 0);
-        vec_insert(from->irs, pos++, mov);
-        vec_push(phis, phi);  // Restore phi.
-      }
-
-      IR *mov = new_ir_mov(first->dst, tmp, 0);
-      vec_insert(from->irs, pos++, mov);
+  while (dsts.len > 0) {
+    int i;
+    for (i = 0; i < dsts.len; ++i) {
+      if (!vec_contains(&srcs, dsts.data[i]))
+        break;
+    }
+    if (i < dsts.len) {
+      vec_insert(from->irs, pos++, new_ir_mov(dsts.data[i], srcs.data[i], 0));
+      vec_remove_at(&dsts, i);
+      vec_remove_at(&srcs, i);
+      continue;
+    }
 
-      free_vector(cyclic);
+    // Only cyclic dependencies are left: Save one of destinations to break a cycle.
+    VReg *dst = dsts.data[0];
+    assert(dst->original != dst);  // phi's destination must not be an original virtual register.
+    VReg *tmp = reg_alloc_with_original(ra, dst->original);
+    vec_push(ra->vreg_table[dst->original->virt], tmp);
+    vec_insert(from->irs, pos++, new_ir_mov(tmp, dst, 0));
+    for (int j = 0; j < srcs.len; ++j) {
+      if (srcs.data[j] == dst)
+        srcs.data[j] = tmp;
     }
-    free_vector(cyclics);
   }
+
+  free(dsts.data);
+  free(srcs.data);
 }
 
 //
-- 
2.43.0


From a2ab25c7a5597abd48acd5fa1f6b328056ef9256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:37 +0000
Subject: [PATCH 025/162] fix: give expressions the type C prescribes in
 generic selection and typeof

---
 src/cc/frontend/fe_misc.c     | 43 +++++++++++++++++++++--------------
 src/cc/frontend/initializer.c |  2 +-
 src/cc/frontend/parser_expr.c | 25 +++++++++-----------
 src/cc/frontend/type.c        | 16 +++++++++++++
 src/cc/frontend/type.h        |  1 +
 5 files changed, 55 insertions(+), 32 deletions(-)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index 8a51ebc..f69bbb2 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -389,8 +389,11 @@ Expr *make_cast(Type *type, const Token *token, Expr *sub, bool is_explicit) {
     return sub;
   }
 
-  if (is_bool(type))
-    return make_cond(sub);
+  if (is_bool(type)) {
+    Expr *cond = make_cond(sub);
+    cond->type = type;
+    return cond;
+  }
 
 #if XCC_TARGET_ARCH == XCC_ARCH_X64 && !defined(__NO_FLONUM)
   // On x64, cannot cast from double to uint64_t directly.
@@ -408,7 +411,7 @@ Expr *make_cast(Type *type, const Token *token, Expr *sub, bool is_explicit) {
       tmp_assign = new_expr_bop(EX_ASSIGN, sub->type, token, tmp, sub);
       sub = tmp;
     }
-    Expr *cond = new_expr_bop(EX_LE, &tyBool, token, sub,
+    Expr *cond = new_expr_bop(EX_LE, &tyInt, token, sub,
                               new_expr_flolit(sub->type, sub->token, INT64_MAX));
     Expr *offsetted = new_expr_addsub(
         EX_SUB, token, sub,
@@ -703,8 +706,8 @@ Expr *reduce_refer(Expr *expr) {
           // target.field => (&target)->field
           target = new_expr_unary(EX_REF, ptrof(target->type), target->token, target);
         }
-        return new_expr_unary(EX_DEREF, minfo->type, expr->token,
-                              new_expr_bop(EX_ADD, ptrof(minfo->type), expr->token, target,
+        return new_expr_unary(EX_DEREF, expr->type, expr->token,
+                              new_expr_bop(EX_ADD, ptrof(expr->type), expr->token, target,
                                            new_expr_fixlit(&tySize, expr->token, minfo->offset)));
       default:
         // ex. funcall().x cannot be taken its reference, so keep the expression.
@@ -745,10 +748,15 @@ Expr *reduce_refer(Expr *expr) {
 Expr *make_refer(const Token *tok, Expr *expr) {
   check_referable(tok, expr, "Cannot take reference");
 
+  Type *type = expr->type;
   expr = reduce_refer(expr);
 
-  if (expr->kind == EX_DEREF)
-    return expr->unary.sub;
+  if (expr->kind == EX_DEREF) {
+    Expr *sub = expr->unary.sub;
+    if (sub->type->kind == TY_PTR && !same_type(sub->type->pa.ptrof, type))
+      sub = make_cast(ptrof(type), tok, sub, true);
+    return sub;
+  }
   Expr *e = expr;
   if (e->kind == EX_COMPLIT)
     e = e->complit.var;
@@ -1328,7 +1336,7 @@ Expr *new_expr_cmp(enum ExprKind kind, const Token *tok, Expr *lhs, Expr *rhs) {
       break;
     }
     if (tf >= 0)
-      return new_expr_fixlit(&tyBool, tok, tf);
+      return new_expr_fixlit(&tyInt, tok, tf);
 #undef JUDGE
   }
 
@@ -1389,7 +1397,7 @@ Expr *new_expr_cmp(enum ExprKind kind, const Token *tok, Expr *lhs, Expr *rhs) {
         if (k == EX_EQ)
           p = new_expr_bop(
               (EX_LOGAND + EX_LOGIOR) - p->kind,  // LOGAND <-> LOGIOR
-              &tyBool, p->token,
+              &tyInt, p->token,
               make_not_expr(p->bop.lhs->token, p->bop.lhs),
               make_not_expr(p->bop.rhs->token, p->bop.rhs));
         return p;
@@ -1402,7 +1410,7 @@ Expr *new_expr_cmp(enum ExprKind kind, const Token *tok, Expr *lhs, Expr *rhs) {
       case EX_LT: case EX_LE: case EX_GE: case EX_GT:
       case EX_LOGAND: case EX_LOGIOR:
         parse_error(PE_WARNING, tok, "Always %s", kind != EX_EQ ? "true" : "false");
-        return new_expr_bop(EX_COMMA, &tyBool, tok, v, new_expr_fixlit(&tyBool, tok, (kind != EX_EQ)));
+        return new_expr_bop(EX_COMMA, &tyInt, tok, v, new_expr_fixlit(&tyInt, tok, (kind != EX_EQ)));
       default: break;
       }
       break;
@@ -1439,7 +1447,7 @@ Expr *new_expr_cmp(enum ExprKind kind, const Token *tok, Expr *lhs, Expr *rhs) {
       lhs = make_cast(rhs->type, lhs->token, lhs, false);
   }
 
-  return new_expr_bop(kind, &tyBool, tok, lhs, rhs);
+  return new_expr_bop(kind, &tyInt, tok, lhs, rhs);
 }
 
 //
@@ -1447,15 +1455,15 @@ Expr *new_expr_cmp(enum ExprKind kind, const Token *tok, Expr *lhs, Expr *rhs) {
 Expr *make_cond(Expr *expr) {
   switch (expr->kind) {
   case EX_FIXNUM:
-    expr = new_expr_fixlit(&tyBool, expr->token, expr->fixnum != 0);
+    expr = new_expr_fixlit(&tyInt, expr->token, expr->fixnum != 0);
     break;
 #ifndef __NO_FLONUM
   case EX_FLONUM:
-    expr = new_expr_fixlit(&tyBool, expr->token, expr->flonum != 0);
+    expr = new_expr_fixlit(&tyInt, expr->token, expr->flonum != 0);
     break;
 #endif
   case EX_STR:
-    expr = new_expr_fixlit(&tyBool, expr->token, true);
+    expr = new_expr_fixlit(&tyInt, expr->token, true);
     break;
   case EX_EQ:
   case EX_NE:
@@ -1473,7 +1481,7 @@ Expr *make_cond(Expr *expr) {
     switch (expr->type->kind) {
     case TY_ARRAY:
     case TY_FUNC:
-      expr = new_expr_fixlit(&tyBool, expr->token, true);
+      expr = new_expr_fixlit(&tyInt, expr->token, true);
       break;
     default:
       expr = new_expr_cmp(
@@ -1605,10 +1613,11 @@ Type *choose_ternary_result_type(Expr *tval, Expr *fval) {
           return ftype;
         return ttype;
       }
+      // Pointer to void, unless it is a null pointer constant.
       if (is_void_ptr(ttype))
-        return apply_ptr_qualifier(ftype, ttype);
+        return is_zero(tval) ? ftype : apply_ptr_qualifier(ttype, ftype);
       if (is_void_ptr(ftype))
-        return apply_ptr_qualifier(ttype, ftype);
+        return is_zero(fval) ? ttype : apply_ptr_qualifier(ftype, ttype);
     } else {
       if (can_cast(ttype, ftype, is_zero(fval), false))
         return ttype;
diff --git a/src/cc/frontend/initializer.c b/src/cc/frontend/initializer.c
index 3903988..637b947 100644
--- a/src/cc/frontend/initializer.c
+++ b/src/cc/frontend/initializer.c
@@ -120,7 +120,7 @@ static Stmt *build_memcpy(Expr *dst, Expr *src, size_t size) {
   vec_push(stmts, new_stmt_for(
       NULL,
       new_expr_bop(EX_ASSIGN, &tySize, NULL, sizeexpr, size_num),    // for (_size = size;
-      new_expr_bop(EX_GT, &tyBool, NULL, sizeexpr, zeroexpr),        //      _size > 0;
+      new_expr_bop(EX_GT, &tyInt, NULL, sizeexpr, zeroexpr),        //      _size > 0;
       new_expr_unary(EX_PREDEC, sizeexpr->type, NULL, sizeexpr),     //      --_size)
       new_stmt_expr(                                                 //   *_dst++ = *_src++;
           new_expr_bop(EX_ASSIGN, &tyChar, NULL,
diff --git a/src/cc/frontend/parser_expr.c b/src/cc/frontend/parser_expr.c
index cd83dc7..f5ea8f0 100644
--- a/src/cc/frontend/parser_expr.c
+++ b/src/cc/frontend/parser_expr.c
@@ -80,9 +80,8 @@ static Expr *parse_member_access(Expr *target, Token *acctok) {
   int index = find_struct_member(type->struct_.info, ident->ident);
   if (index >= 0) {
     const MemberInfo *minfo = &type->struct_.info->members[index];
-    Type *type = acctok->kind == TK_DOT ? qualified_type(minfo->type, target->type->qualifier)
-                                        : minfo->type;
-    return new_expr_member(acctok, type, target, ident->ident, minfo);
+    Type *mtype = qualified_type(minfo->type, type->qualifier);
+    return new_expr_member(acctok, mtype, target, ident->ident, minfo);
   } else {
     Vector *stack = new_vector();
     const MemberInfo *member = search_from_anonymous(type, ident->ident, ident, stack);
@@ -187,9 +186,13 @@ static Expr *parse_generic(void) {
   } while (match(TK_COMMA));
   consume(TK_RPAR, "`)' expected");
 
+  // The controlling expression undergoes lvalue conversion.
   Type *type = target->type;
-  if (type->kind == TY_ARRAY)
-    type = array_to_ptr(type);
+  switch (type->kind) {
+  case TY_ARRAY:  type = array_to_ptr(type); break;
+  case TY_FUNC:   type = ptrof(type); break;
+  default:        type = unqualified_type(type); break;
+  }
   for (int i = 0; i < types->len; ++i) {
     Type *t = types->data[i];
     if (same_type(t, type))
@@ -266,13 +269,7 @@ static Expr *literal(Token *tok) {
       enum FixnumKind fx;
       bool u = flag & TKF_UNSIGNED;
       if (flag & TKF_CHAR) {
-#ifndef __NO_WCHAR
-        static const enum FixnumKind kCharTable[] = { FX_CHAR, FX_INT };
-        assert(long_count < (int)ARRAY_SIZE(kCharTable));
-        fx = kCharTable[long_count];
-#else
-        fx = FX_CHAR;
-#endif
+        fx = FX_INT;
       } else {
         static const enum FixnumKind kFxTable[] = { FX_INT, FX_LONG, FX_LLONG };
         assert(long_count < (int)ARRAY_SIZE(kFxTable));
@@ -377,7 +374,7 @@ static Expr *unary(Token *tok) {
   case TK_NOT:
     if (!is_number(expr->type) && !ptr_or_array(expr->type)) {
       parse_error(PE_NOFATAL, tok, "Cannot apply `!' except number or pointer types");
-      return new_expr_fixlit(&tyBool, tok, false);
+      return new_expr_fixlit(&tyInt, tok, false);
     }
     return make_not_expr(tok, expr);
   case TK_TILDA:
@@ -472,7 +469,7 @@ static Expr *binary(Expr *lhs, Token *tok) {
     if (lhs->kind == EX_FIXNUM)
       return (kind == TK_LOGAND ? lhs->fixnum == 0 : lhs->fixnum != 0) ? lhs : rhs;
     else
-      return new_expr_bop(kind + (EX_LOGAND - TK_LOGAND), &tyBool, tok, lhs, rhs);
+      return new_expr_bop(kind + (EX_LOGAND - TK_LOGAND), &tyInt, tok, lhs, rhs);
   case TK_COMMA:
     if (is_const(lhs))
       return rhs;
diff --git a/src/cc/frontend/type.c b/src/cc/frontend/type.c
index 912887f..aa47d2b 100644
--- a/src/cc/frontend/type.c
+++ b/src/cc/frontend/type.c
@@ -319,6 +319,14 @@ Type *new_func_type(Type *ret, const Vector *types, bool vaargs) {
 }
 
 Type *qualified_type(Type *type, int additional) {
+  if (type->kind == TY_ARRAY) {  // Qualifiers belong to the elements.
+    Type *elem = qualified_type(type->pa.ptrof, additional);
+    if (elem == type->pa.ptrof)
+      return type;
+    Type *atype = clone_type(type);
+    atype->pa.ptrof = elem;
+    return atype;
+  }
   int modified = type->qualifier | additional;
   if (modified == type->qualifier)
     return type;
@@ -327,6 +335,14 @@ Type *qualified_type(Type *type, int additional) {
   return ctype;
 }
 
+Type *unqualified_type(Type *type) {
+  if (type->qualifier == 0)
+    return type;
+  Type *utype = clone_type(type);
+  utype->qualifier = 0;
+  return utype;
+}
+
 Type *clone_type(const Type *type) {
   Type *cloned = malloc_or_die(sizeof(*cloned));
   *cloned = *type;
diff --git a/src/cc/frontend/type.h b/src/cc/frontend/type.h
index 2363a1d..8208ddf 100644
--- a/src/cc/frontend/type.h
+++ b/src/cc/frontend/type.h
@@ -153,6 +153,7 @@ Type *arrayof(Type *type, ssize_t length);
 Type *array_to_ptr(Type *type);
 Type *new_func_type(Type *ret, const Vector *types, bool vaargs);
 Type *qualified_type(Type *type, int additional);
+Type *unqualified_type(Type *type);
 Type *clone_type(const Type *type);
 Type *get_callee_type(Type *type);
 
-- 
2.43.0


From 8ed3baa1fa790cbb1fbc8d87dcd5646c1310c4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:45 +0000
Subject: [PATCH 026/162] fix: unsigned long literals have type unsigned long

---
 src/cc/frontend/parser_expr.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cc/frontend/parser_expr.c b/src/cc/frontend/parser_expr.c
index f5ea8f0..a57209b 100644
--- a/src/cc/frontend/parser_expr.c
+++ b/src/cc/frontend/parser_expr.c
@@ -279,11 +279,11 @@ static Expr *literal(Token *tok) {
         UFixnum value = tok->fixnum.value;
         while (fx < FX_LLONG) {
           Type *type = get_fixnum_type(fx, u, 0);
-          int bits = type_size(type) * TARGET_CHAR_BIT - (u ? 0 : 1);
-          if ((value <= (((UFixnum)1U << bits) - 1U)) &&
-              (u || (Fixnum)value >= -((Fixnum)1 << (bits - 1))))
+          int bits = type_size(type) * TARGET_CHAR_BIT;
+          UFixnum umax = -(UFixnum)1 >> (sizeof(UFixnum) * TARGET_CHAR_BIT - bits);
+          if (value <= (u ? umax : umax >> 1))
             break;
-          if (!u && value <= ((UFixnum)1U << (bits + 1)) - 1U &&
+          if (!u && value <= umax &&
               (tok->fixnum.flag & TKF_KIND_MASK) != 0) {
             u = true;
             break;
-- 
2.43.0


From 00eda2c202e21a113b91e80785334ac356da1216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:45 +0000
Subject: [PATCH 027/162] fix: parenthesized declarators followed by a suffix,
 const float types

---
 src/cc/frontend/parser_type.c | 36 ++++++++++++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/src/cc/frontend/parser_type.c b/src/cc/frontend/parser_type.c
index b5de00d..701fb40 100644
--- a/src/cc/frontend/parser_type.c
+++ b/src/cc/frontend/parser_type.c
@@ -181,6 +181,14 @@ static Type *parse_typeof(const Token *tok) {
       type = &tyInt;  // Dummy.
     } else {
       type = e->type;
+      switch (e->kind) {
+      case EX_VAR: case EX_DEREF: case EX_MEMBER: case EX_COMPLIT: case EX_STR:
+        break;
+      default:
+        // Not an lvalue, so it has no qualifier.
+        type = unqualified_type(type);
+        break;
+      }
     }
   }
   consume(TK_RPAR, "`)' expected");
@@ -354,9 +362,9 @@ Type *parse_raw_type(int *pstorage) {
       type = qualified_type(type, tc.qualifier);
   } else if (!no_type_combination(&tc, ~0, ~0)) {
     if (tc.float_num > 0) {
-      type = &tyFloat;
+      type = qualified_type(&tyFloat, tc.qualifier);
     } else if (tc.double_num > 0) {
-      type = (tc.long_num > 0 ? &tyLDouble : &tyDouble);
+      type = qualified_type(tc.long_num > 0 ? &tyLDouble : &tyDouble, tc.qualifier);
     } else {
       enum FixnumKind fk = (tc.char_num > 0)  ? FX_CHAR
                          : (tc.short_num > 0) ? FX_SHORT
@@ -570,6 +578,23 @@ static Type *parse_direct_declarator_suffix(Type *type) {
   }
   return type;
 }
+
+// Replace the innermost `placeholder` of a declarator type.
+static Type *replace_placeholder(Type *type, const Type *placeholder, Type *replaced) {
+  if (type == placeholder)
+    return replaced;
+  switch (type->kind) {
+  case TY_PTR: case TY_ARRAY:
+    type->pa.ptrof = replace_placeholder(type->pa.ptrof, placeholder, replaced);
+    break;
+  case TY_FUNC:
+    type->func.ret = replace_placeholder(type->func.ret, placeholder, replaced);
+    break;
+  default: break;
+  }
+  return type;
+}
+
 Type *parse_direct_declarator(Type *type, Token **pident) {
   Token *ident = NULL;
   if (match(TK_LPAR)) {
@@ -582,7 +607,12 @@ Type *parse_direct_declarator(Type *type, Token **pident) {
     consume(TK_RPAR, "`)' expected");
 
     Type *inner = parse_direct_declarator_suffix(ret);
-    memcpy(placeholder, inner, sizeof(*placeholder));
+    if (inner == ret) {
+      // No suffix: `ret` might also be a placeholder, which is settled later.
+      type = replace_placeholder(type, placeholder, ret);
+    } else {
+      memcpy(placeholder, inner, sizeof(*placeholder));
+    }
   } else {
     ident = match(TK_IDENT);
     type = parse_direct_declarator_suffix(type);
-- 
2.43.0


From e878859b0d38757a738aece7b9b7cd78774c0870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:45 +0000
Subject: [PATCH 028/162] fix: rank in usual arithmetic conversions, decay of
 comma operands, types of &* and ?:

---
 src/cc/frontend/fe_misc.c     | 34 ++++++++++++++++++++++++----------
 src/cc/frontend/parser_expr.c | 17 +++++++++++++++--
 src/cc/frontend/type.c        | 17 ++++++++++++-----
 3 files changed, 51 insertions(+), 17 deletions(-)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index f69bbb2..d53e599 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -463,6 +463,17 @@ static bool is_int_bitfield(const Expr *expr) {
   return false;
 }
 
+// Usual arithmetic conversion for integer types.
+static Type *usual_arithmetic_type(Type *ltype, Type *rtype) {
+  size_t l = type_size(ltype), r = type_size(rtype);
+  if (l != r)
+    return l > r ? ltype : rtype;
+  Type *type = ltype->fixnum.kind >= rtype->fixnum.kind ? ltype : rtype;  // Greater rank.
+  if (!type->fixnum.is_unsigned && (ltype->fixnum.is_unsigned || rtype->fixnum.is_unsigned))
+    type = get_fixnum_type(type->fixnum.kind, true, type->qualifier);
+  return type;
+}
+
 static bool cast_numbers(Expr **pLhs, Expr **pRhs, bool make_int) {
   Expr *lhs = *pLhs;
   Expr *rhs = *pRhs;
@@ -516,9 +527,7 @@ static bool cast_numbers(Expr **pLhs, Expr **pRhs, bool make_int) {
     *pLhs = promote_to_int(lhs);
     *pRhs = promote_to_int(rhs);
   } else if (changed || !same_type_without_qualifier(ltype, rtype, true)) {
-    int l = (type_size(ltype) << 1) | (ltype->fixnum.is_unsigned ? 1 : 0);
-    int r = (type_size(rtype) << 1) | (rtype->fixnum.is_unsigned ? 1 : 0);
-    Type *type = l >= r ? ltype : rtype;
+    Type *type = usual_arithmetic_type(ltype, rtype);
     *pLhs = make_cast(type, lhs->token, lhs, false);
     *pRhs = make_cast(type, rhs->token, rhs, false);
   }
@@ -753,9 +762,16 @@ Expr *make_refer(const Token *tok, Expr *expr) {
 
   if (expr->kind == EX_DEREF) {
     Expr *sub = expr->unary.sub;
-    if (sub->type->kind == TY_PTR && !same_type(sub->type->pa.ptrof, type))
-      sub = make_cast(ptrof(type), tok, sub, true);
-    return sub;
+    switch (sub->type->kind) {
+    case TY_PTR: case TY_ARRAY:
+      if (sub->type->kind == TY_ARRAY || sub->type->qualifier != 0 || !same_type(sub->type->pa.ptrof, type))
+        sub = make_cast(ptrof(type), tok, sub, true);
+      return sub;
+    case TY_FUNC:
+      return make_refer(tok, sub);
+    default:
+      return sub;
+    }
   }
   Expr *e = expr;
   if (e->kind == EX_COMPLIT)
@@ -1604,7 +1620,7 @@ Type *choose_ternary_result_type(Expr *tval, Expr *fval) {
   if (ftype->kind == TY_ARRAY)
     ftype = array_to_ptr(ftype);
 
-  if (same_type(ttype, ftype))
+  if (same_type(ttype, ftype) && !is_fixnum(ttype->kind))
     return ttype;
   if (ttype->kind == TY_PTR) {
     if (ftype->kind == TY_PTR) {  // Both pointer type
@@ -1636,9 +1652,7 @@ Type *choose_ternary_result_type(Expr *tval, Expr *fval) {
       ttype = &tyInt;
     if (ftype->fixnum.kind >= FX_ENUM || ftype->fixnum.kind < FX_INT)
       ftype = &tyInt;
-    int t = (type_size(ttype) << 1) | (ttype->fixnum.is_unsigned ? 1 : 0);
-    int f = (type_size(ftype) << 1) | (ftype->fixnum.is_unsigned ? 1 : 0);
-    return t >= f ? ttype : ftype;
+    return usual_arithmetic_type(ttype, ftype);
   }
   return NULL;
 }
diff --git a/src/cc/frontend/parser_expr.c b/src/cc/frontend/parser_expr.c
index a57209b..f9bc7c5 100644
--- a/src/cc/frontend/parser_expr.c
+++ b/src/cc/frontend/parser_expr.c
@@ -471,9 +471,20 @@ static Expr *binary(Expr *lhs, Token *tok) {
     else
       return new_expr_bop(kind + (EX_LOGAND - TK_LOGAND), &tyInt, tok, lhs, rhs);
   case TK_COMMA:
-    if (is_const(lhs))
+    // The right operand undergoes lvalue conversion.
+    switch (rhs->type->kind) {
+    case TY_ARRAY:
+      rhs = str_to_char_array_var(curscope, rhs);
+      rhs = make_cast(array_to_ptr(rhs->type), rhs->token, rhs, true);
+      break;
+    case TY_FUNC:
+      rhs = make_refer(rhs->token, rhs);
+      break;
+    default: break;
+    }
+    if (is_const(lhs) && rhs->type->qualifier == 0)
       return rhs;
-    return new_expr_bop(EX_COMMA, rhs->type, tok, lhs, rhs);
+    return new_expr_bop(EX_COMMA, unqualified_type(rhs->type), tok, lhs, rhs);
 
   default: assert(false); return NULL;  // Unreachable.
   }
@@ -502,6 +513,8 @@ static Expr *ternary(Expr *expr, Token *tok) {
   } else {
     if (is_fixnum(type->kind) && type->fixnum.kind < FX_INT)
       type = &tyInt;
+    if (type->kind != TY_STRUCT)
+      type = unqualified_type(type);
     if (type->kind != TY_VOID) {
       tval = make_cast(type, tval->token, tval, false);
       fval = make_cast(type, fval->token, fval, false);
diff --git a/src/cc/frontend/type.c b/src/cc/frontend/type.c
index aa47d2b..a8f28e9 100644
--- a/src/cc/frontend/type.c
+++ b/src/cc/frontend/type.c
@@ -400,15 +400,22 @@ Type *create_enum_type(const Name *name) {
 }
 
 // Compare type for function parameter: Ignore const-ness.
-static inline bool same_type_func_param(const Type *type1, const Type *type2) {
-  return same_type_without_qualifier(type1, type2, true);
+// Top-level qualifiers are not significant.
+static inline bool same_type_func_param(const Type *type1, const Type *type2, bool ignore_qualifier) {
+  if (!ignore_qualifier && type1->qualifier != type2->qualifier) {
+    Type t1 = *type1, t2 = *type2;
+    t1.qualifier = t2.qualifier = 0;
+    return same_type_without_qualifier(&t1, &t2, false);
+  }
+  return same_type_without_qualifier(type1, type2, ignore_qualifier);
 }
 
 bool same_type_without_qualifier(const Type *type1, const Type *type2, bool ignore_qualifier) {
   const int QMASK = TQ_CONST;
   for (;;) {
     if (type1->kind != type2->kind ||
-        (!ignore_qualifier && (type1->qualifier & QMASK) != (type2->qualifier & QMASK)))
+        (!ignore_qualifier && type1->kind != TY_ARRAY &&  // Qualifiers of array belong to the elements.
+         (type1->qualifier & QMASK) != (type2->qualifier & QMASK)))
       return false;
 
     switch (type1->kind) {
@@ -429,7 +436,7 @@ bool same_type_without_qualifier(const Type *type1, const Type *type2, bool igno
       type2 = type2->pa.ptrof;
       continue;
     case TY_FUNC:
-      if (!same_type_func_param(type1->func.ret, type2->func.ret) ||
+      if (!same_type_func_param(type1->func.ret, type2->func.ret, ignore_qualifier) ||
           type1->func.vaargs != type2->func.vaargs)
         return false;
       if (type1->func.params == NULL && type2->func.params == NULL)
@@ -440,7 +447,7 @@ bool same_type_without_qualifier(const Type *type1, const Type *type2, bool igno
       for (int i = 0, len = type1->func.params->len; i < len; ++i) {
         const Type *t1 = type1->func.params->data[i];
         const Type *t2 = type2->func.params->data[i];
-        if (!same_type_func_param(t1, t2))
+        if (!same_type_func_param(t1, t2, ignore_qualifier))
           return false;
       }
       return true;
-- 
2.43.0


From f46ea8f2ac50bc01ecf288a6927e8083c9b125c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:20 +0000
Subject: [PATCH 029/162] fix: read \?, octal and hexadecimal escape sequences
 in full

---
 src/cc/frontend/lexer.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/cc/frontend/lexer.c b/src/cc/frontend/lexer.c
index e61bcb0..04f764a 100644
--- a/src/cc/frontend/lexer.c
+++ b/src/cc/frontend/lexer.c
@@ -173,28 +173,28 @@ static int backslash(int c, bool is_wide, const char **pp) {
   case '1': case '2': case '3': case '4': case '5': case '6': case '7':
     {
       const char *p = *pp + 1;
-      char vv = c - '0';
-      for (int i = 0, n = is_wide ? 11 : 2; i < n; ++i, ++p) {
+      unsigned int vv = c - '0';
+      for (int i = 0; i < 2; ++i, ++p) {
         char c2 = *p;
         if (!isoctal(c2))
           break;
         vv = (vv << 3) | (c2 - '0');
       }
       *pp = p - 1;
-      return vv;
+      return is_wide ? (int)vv : (char)vv;
     }
   case 'x':
     {
       const char *p = *pp + 1;
-      char vv = 0;
-      for (int i = 0, n = is_wide ? 8 : 2; i < n; ++i, ++p) {
+      unsigned int vv = 0;
+      for (;; ++p) {
         int v = xvalue(*p);
         if (v < 0)
           break;  // TODO: Error
         vv = (vv << 4) | v;
       }
       *pp = p - 1;
-      return vv;
+      return is_wide ? (int)vv : (char)vv;
     }
   case 'a':  return '\a';
   case 'b':  return '\b';
@@ -207,7 +207,7 @@ static int backslash(int c, bool is_wide, const char **pp) {
   default:
     lex_error(*pp, "Illegal escape");
     // Fallthrough
-  case '\'': case '"': case '\\':
+  case '\'': case '"': case '\\': case '?':
     return c;
   }
 }
-- 
2.43.0


From c68b44969b9a512e69d746457fd0c666cc5e0485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:04 +0000
Subject: [PATCH 030/162] fix: wide string literals keep escapes and embedded
 NULs as written

---
 src/cc/frontend/lexer.c | 69 +++++++++++++++++++++++++----------------
 1 file changed, 43 insertions(+), 26 deletions(-)

diff --git a/src/cc/frontend/lexer.c b/src/cc/frontend/lexer.c
index 04f764a..9d79c12 100644
--- a/src/cc/frontend/lexer.c
+++ b/src/cc/frontend/lexer.c
@@ -566,26 +566,30 @@ static Token *read_char(const char **pp) {
   return tok;
 }
 
-#ifndef __NO_WCHAR
-static void *convert_str_to_wstr(const char *src, size_t *plen) {
-  // Count characters.
-  size_t len = 0;  // Include '\0'.
-  for (const char *p = src;; ) {
-    int c;
-    p = read_utf8_char(p, true, &c);
-    ++len;
-    if (c == '\0')
-      break;
-  }
+// Element of string literal: source byte, or value of escape sequence.
+typedef struct {
+  int c;
+  bool escaped;
+} StrElem;
 
-  wchar_t *wstr = malloc_or_die(len * sizeof(*wstr));
-  wchar_t *q = wstr;
-  for (const char *p = src;; ) {
-    int c;
-    p = read_utf8_char(p, true, &c);
-    *q++ = c;
-    if (c == '\0')
-      break;
+#ifndef __NO_WCHAR
+static void *convert_elems_to_wstr(const StrElem *elems, size_t *plen, const char *begin) {
+  size_t n = *plen;
+  wchar_t *wstr = malloc_or_die(n * sizeof(*wstr));
+  size_t len = 0;
+  for (size_t i = 0; i < n; ++i) {
+    int c = elems[i].c;
+    int ucc = elems[i].escaped ? 0 : isutf8first((unsigned char)c);
+    if (ucc > 0) {
+      c &= (1 << (8 - ucc)) - 1;
+      for (int j = 1; j < ucc; ++j) {
+        ++i;
+        if (i >= n || elems[i].escaped || !isutf8follow((unsigned char)elems[i].c))
+          lex_error(begin, "Illegal byte sequence");
+        c = (c << 6) | (elems[i].c & 0x3f);
+      }
+    }
+    wstr[len++] = c;
   }
   *plen = len;
   return wstr;
@@ -597,7 +601,7 @@ static Token *read_string(const char **pp) {
   const char *p = *pp;
   const char *begin, *end;
   size_t capa = 16, len = 0;
-  char *str = malloc_or_die(capa * sizeof(*str));
+  StrElem *elems = malloc_or_die(capa * sizeof(*elems));
   bool is_wide = false;
   for (;;) {
     begin = p++;  // Skip first '"'
@@ -615,18 +619,22 @@ static Token *read_string(const char **pp) {
         lex_error(p - 1, "String not closed");
       if (len + 1 >= capa) {
         capa += ADD;
-        str = realloc_or_die(str, capa * sizeof(*str));
+        elems = realloc_or_die(elems, capa * sizeof(*elems));
       }
 
+      bool escaped = false;
       if (c == '\\') {
         c = *(unsigned char*)p;
         if (c == '\0')
           lex_error(p, "String not closed");
-        c = backslash(c, is_wide, &p);
+        c = backslash(c, true, &p);
         ++p;
+        escaped = true;
       }
       assert(len < capa);
-      str[len++] = c;
+      elems[len].c = c;
+      elems[len].escaped = escaped;
+      ++len;
     }
     end = p;
     if (for_preprocess)
@@ -642,15 +650,24 @@ static Token *read_string(const char **pp) {
       break;
   }
   assert(len < capa);
-  str[len++] = '\0';
+  elems[len].c = '\0';
+  elems[len].escaped = false;
+  ++len;
 
+  char *str;
   enum StrKind kind = STR_CHAR;
 #ifndef __NO_WCHAR
   if (is_wide) {
-    str = convert_str_to_wstr(str, &len);
+    str = convert_elems_to_wstr(elems, &len, begin);
     kind = STR_WIDE;
-  }
+  } else
 #endif
+  {
+    str = malloc_or_die(len * sizeof(*str));
+    for (size_t i = 0; i < len; ++i)
+      str[i] = elems[i].c;
+  }
+  free(elems);
   Token *tok = alloc_token(TK_STR, lexer.line, begin, end);
   tok->str.buf = str;
   tok->str.len = len;
-- 
2.43.0


From ed20c60b238a79c1e955d7ade8bf1e77611335cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:38 +0000
Subject: [PATCH 031/162] fix: a comment separates the tokens around it

---
 src/cpp/preprocessor.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cpp/preprocessor.c b/src/cpp/preprocessor.c
index 174ec2e..8fe72af 100644
--- a/src/cpp/preprocessor.c
+++ b/src/cpp/preprocessor.c
@@ -117,6 +117,8 @@ static bool handle_block_comment(const char **pp, Stream *stream) {
     if (q != NULL) {
       if (preserve_comment)
         fwrite(begin, q - begin, 1, pp_ofp);
+      else
+        fputc(' ', pp_ofp);  // A comment separates tokens.
       *pp = q;
       break;
     }
-- 
2.43.0


From 1ab7ad65d805e9fc8257dfae84682bcda9648f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:14 +0000
Subject: [PATCH 032/162] fix: floating literals may start with zeros

---
 src/cc/frontend/lexer.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/cc/frontend/lexer.c b/src/cc/frontend/lexer.c
index 9d79c12..5c30abb 100644
--- a/src/cc/frontend/lexer.c
+++ b/src/cc/frontend/lexer.c
@@ -445,6 +445,13 @@ static Token *read_num(const char **pp) {
       flag = TKF_KIND_BIN;
       p += 2;
     } else if (isdigit(c)) {
+#ifndef __NO_FLONUM
+      const char *r = p;
+      while (isdigit(*r))
+        ++r;
+      if (*r == '.' || tolower(*r) == 'e')  // Decimal float literal with leading zeros.
+        return read_flonum(pp, 10);
+#endif
       base = 8;
       flag = TKF_KIND_OCT;
     }
-- 
2.43.0


From 6e6ac23469ffe9ee7cfbc70a95b0028a8d172475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:55 +0000
Subject: [PATCH 033/162] fix: keep macro hide sets per token occurrence

---
 src/cpp/macro.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/cpp/macro.c b/src/cpp/macro.c
index 793fcc8..0a2f99b 100644
--- a/src/cpp/macro.c
+++ b/src/cpp/macro.c
@@ -176,13 +176,13 @@ static void hsadd(HideSet *hs, Vector *ts) {
   for (int i = 0; i < ts->len; ++i) {
     const Token *tok = ts->data[i];
     if (tok->kind == TK_IDENT || tok->kind == TK_RPAR) {
-      HideSet *h = get_hideset(tok);
-      if (h == NULL) {
-        h = clone_hideset(hs);
-        set_token_hideset(tok, h);
-      } else {
-        union_hideset(h, hs);
-      }
+      // Tokens are shared with macro body and arguments, so make each occurrence distinct.
+      Token *dup = malloc_or_die(sizeof(*dup));
+      *dup = *tok;
+      HideSet *h = clone_hideset(get_hideset(tok));
+      union_hideset(h, hs);
+      set_token_hideset(dup, h);
+      ts->data[i] = dup;
     }
   }
 }
-- 
2.43.0


From 982b00c6c1f2c020065cef49e70d7226e26c59c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:56 +0000
Subject: [PATCH 034/162] fix: expand macro arguments without reading past them

---
 src/cpp/macro.c     | 13 ++++++++++---
 src/cpp/pp_parser.c | 12 +++++++-----
 src/cpp/pp_parser.h |  2 +-
 3 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/cpp/macro.c b/src/cpp/macro.c
index 0a2f99b..8af81b6 100644
--- a/src/cpp/macro.c
+++ b/src/cpp/macro.c
@@ -187,6 +187,8 @@ static void hsadd(HideSet *hs, Vector *ts) {
   }
 }
 
+static void macro_expand_tokens(Vector *tokens, bool fetch);
+
 static Vector *subst(Macro *macro, Table *param_table, Vector *args, HideSet *hs) {
   Vector *os = new_vector();
   Vector *body = macro->body;
@@ -278,7 +280,7 @@ static Vector *subst(Macro *macro, Table *param_table, Vector *args, HideSet *hs
             Vector *arg = args->data[j];
             expanded = new_vector();
             vec_concat(expanded, arg);
-            macro_expand(expanded);
+            macro_expand_tokens(expanded, false);
             expanded_args[j] = expanded;
           }
           vec_concat(os, expanded);
@@ -356,7 +358,8 @@ void macro_delete(const Name *name) {
   table_delete(&macro_table, name);
 }
 
-void macro_expand(Vector *tokens) {
+// fetch: arguments might continue to the rest of input.
+static void macro_expand_tokens(Vector *tokens, bool fetch) {
   for (int i = 0; i < tokens->len; ++i) {
     const Token *tok = tokens->data[i];
     if (tok->kind != TK_IDENT)
@@ -376,7 +379,7 @@ void macro_expand(Vector *tokens) {
       replaced = subst(macro, NULL, NULL, hs);
     } else {  // "()'d macro"
       Vector *args = pp_funargs(tokens, &next,
-                                macro->vaargs_ident != NULL ? macro->params_len : INT_MAX);
+                                macro->vaargs_ident != NULL ? macro->params_len : INT_MAX, fetch);
       if (args != NULL) {
         int count = macro->params_len +
                     (macro->vaargs_ident != NULL);  // variadic argument is concatenated.
@@ -403,3 +406,7 @@ void macro_expand(Vector *tokens) {
     }
   }
 }
+
+void macro_expand(Vector *tokens) {
+  macro_expand_tokens(tokens, true);
+}
diff --git a/src/cpp/pp_parser.c b/src/cpp/pp_parser.c
index a5651ee..9438793 100644
--- a/src/cpp/pp_parser.c
+++ b/src/cpp/pp_parser.c
@@ -166,7 +166,7 @@ static Token *match2(enum TokenKind kind) {
   return pp_match(kind);
 }
 
-static Token *match3(enum TokenKind kind, Vector *tokens, int *pindex) {
+static Token *match3(enum TokenKind kind, Vector *tokens, int *pindex, bool fetch) {
   int index = *pindex;
   Token *tok;
   if (index < tokens->len) {
@@ -175,6 +175,8 @@ static Token *match3(enum TokenKind kind, Vector *tokens, int *pindex) {
       ++index;
     else
       tok = NULL;
+  } else if (!fetch) {
+    tok = NULL;
   } else {
     tok = match2(kind);
     if (tok != NULL && tok->kind != TK_EOF) {
@@ -186,11 +188,11 @@ static Token *match3(enum TokenKind kind, Vector *tokens, int *pindex) {
   return tok;
 }
 
-Vector *pp_funargs(Vector *tokens, int *pindex, int vaarg) {
+Vector *pp_funargs(Vector *tokens, int *pindex, int vaarg, bool fetch) {
   Vector *args = NULL;
-  while (match3(PPTK_SPACE, tokens, pindex))
+  while (match3(PPTK_SPACE, tokens, pindex, fetch))
     ;
-  if (match3(TK_LPAR, tokens, pindex)) {
+  if (match3(TK_LPAR, tokens, pindex, fetch)) {
     args = new_vector();
     Vector *arg = NULL;
     int paren = 0;
@@ -199,7 +201,7 @@ Vector *pp_funargs(Vector *tokens, int *pindex, int vaarg) {
     for (;;) {
       const char *start = get_lex_p();
       bool fetched = *pindex >= tokens->len;
-      Token *tok = match3(-1, tokens, pindex);
+      Token *tok = match3(-1, tokens, pindex, fetch);
       if (tok == NULL /*|| tok->kind == TK_EOF*/) {
         pp_parse_error(NULL, "`)' expected");
       }
diff --git a/src/cpp/pp_parser.h b/src/cpp/pp_parser.h
index 580020a..4c5d27f 100644
--- a/src/cpp/pp_parser.h
+++ b/src/cpp/pp_parser.h
@@ -18,7 +18,7 @@ typedef struct {
 
 Stream *set_pp_stream(Stream *stream);
 PpResult pp_expr(void);
-Vector *pp_funargs(Vector *tokens, int *pindex, int vaarg);  // <Vector*<Token*>>
+Vector *pp_funargs(Vector *tokens, int *pindex, int vaarg, bool fetch);  // <Vector*<Token*>>
 
 Token *pp_match(enum TokenKind kind);
 Token *pp_consume(enum TokenKind kind, const char *error);
-- 
2.43.0


From a1a5c5fe20f5000d20e1bc54f116638f46ffc053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:14 +0000
Subject: [PATCH 035/162] fix: a macro invocation without text between
 parentheses passes an empty argument

---
 src/cpp/macro.c     |  2 ++
 src/cpp/pp_parser.c | 15 +++++++++------
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/cpp/macro.c b/src/cpp/macro.c
index 8af81b6..61efe0b 100644
--- a/src/cpp/macro.c
+++ b/src/cpp/macro.c
@@ -383,6 +383,8 @@ static void macro_expand_tokens(Vector *tokens, bool fetch) {
       if (args != NULL) {
         int count = macro->params_len +
                     (macro->vaargs_ident != NULL);  // variadic argument is concatenated.
+        if (count == 0 && args->len == 1 && ((Vector*)args->data[0])->len == 0)
+          args->len = 0;  // `F()' has no arguments if `F' has no parameters, otherwise an empty one.
         if (count != args->len) {
           const char *cmp = args->len > count ? "many" : "few";
           pp_parse_error(tok, "Too %s arguments for macro `%.*s'", cmp, NAMES(tok->ident));
diff --git a/src/cpp/pp_parser.c b/src/cpp/pp_parser.c
index 9438793..5f991ab 100644
--- a/src/cpp/pp_parser.c
+++ b/src/cpp/pp_parser.c
@@ -188,13 +188,18 @@ static Token *match3(enum TokenKind kind, Vector *tokens, int *pindex, bool fetc
   return tok;
 }
 
+static void trim_spaces(Vector *arg) {
+  while (arg->len > 0 && ((Token*)arg->data[arg->len - 1])->kind == PPTK_SPACE)
+    vec_pop(arg);
+}
+
 Vector *pp_funargs(Vector *tokens, int *pindex, int vaarg, bool fetch) {
   Vector *args = NULL;
   while (match3(PPTK_SPACE, tokens, pindex, fetch))
     ;
   if (match3(TK_LPAR, tokens, pindex, fetch)) {
     args = new_vector();
-    Vector *arg = NULL;
+    Vector *arg = new_vector();
     int paren = 0;
     bool need_space = false;
     const Token *tok_space = NULL;
@@ -214,10 +219,8 @@ Vector *pp_funargs(Vector *tokens, int *pindex, int vaarg, bool fetch) {
         --paren;
       }
 
-      if (arg == NULL)
-        arg = new_vector();
-
       if (tok->kind == TK_COMMA && paren <= 0 && args->len < vaarg) {
+        trim_spaces(arg);
         vec_push(args, arg);
         arg = new_vector();
         continue;
@@ -233,8 +236,8 @@ Vector *pp_funargs(Vector *tokens, int *pindex, int vaarg, bool fetch) {
       if (tok->kind != PPTK_SPACE || arg->len > 0)
         vec_push(arg, tok);
     }
-    if (arg != NULL)
-      vec_push(args, arg);
+    trim_spaces(arg);
+    vec_push(args, arg);
 
     if (args->len == vaarg)
       vec_push(args, new_vector());
-- 
2.43.0


From 64ed17e32663bad168c8dd14cb8c3acbb16a9c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:55 +0000
Subject: [PATCH 036/162] fix: an empty operand of ## leaves the other operand
 as it is

---
 src/cpp/macro.c | 45 ++++++++++++++-------------------------------
 1 file changed, 14 insertions(+), 31 deletions(-)

diff --git a/src/cpp/macro.c b/src/cpp/macro.c
index 61efe0b..14318df 100644
--- a/src/cpp/macro.c
+++ b/src/cpp/macro.c
@@ -118,8 +118,9 @@ static void intersection_hideset(HideSet *hs, HideSet *hs2) {
   }
 }
 
-static void glue1(Vector *ls, const Token *tok2) {
-  if (ls->len > 0) {
+// Concatenate with the last operand, which starts from `start` (empty if there is no token after it).
+static void glue1(Vector *ls, int start, const Token *tok2) {
+  if (ls->len > start) {
     const Token *tok1 = ls->data[ls->len - 1];
     // TODO: Check whether the concatenated is ident.
     size_t len1 = tok1->end - tok1->begin;
@@ -137,17 +138,6 @@ static void glue1(Vector *ls, const Token *tok2) {
   }
 }
 
-static void glue(Vector *ls, const Vector *rs) {
-  int start = 0;
-  if (ls->len > 0) {
-    assert(rs->len > 0);
-    const Token *tok2 = rs->data[0];
-    glue1(ls, tok2);
-    start = 1;
-  }
-  for (int i = start; i < rs->len; ++i)
-    vec_push(ls, rs->data[i]);
-}
 
 static Token *stringize(const Vector *arg) {
   StringBuffer sb;
@@ -208,8 +198,11 @@ static Vector *subst(Macro *macro, Table *param_table, Vector *args, HideSet *hs
   if (va_opt == NULL && macro->vaargs_ident != NULL)
     va_opt = alloc_name("__VA_OPT__", NULL, false);
 
+  int operand_start = 0;  // Left operand of `##`.
   for (int i = 0; i < body->len; ++i) {
     const Token *tok = body->data[i];
+    if (tok->kind != PPTK_CONCAT)
+      operand_start = os->len;
 
     switch (tok->kind) {
     case PPTK_STRINGIFY:
@@ -229,21 +222,22 @@ static Vector *subst(Macro *macro, Table *param_table, Vector *args, HideSet *hs
       break;
 
     case PPTK_CONCAT:
-      if (os->len > 0 && i + 1 < body->len) {
+      if (i > 0 && i + 1 < body->len) {
         const Token *next = body->data[i + 1];
+        ++i;
         if (next->kind == TK_IDENT) {
           intptr_t j;
           if (param_table != NULL && table_try_get(param_table, next->ident, (void**)&j)) {
             assert(j < args->len);
             const Vector *arg = args->data[j];
             if (arg->len > 0)
-              glue(os, arg);
-            ++i;
+              glue1(os, operand_start, arg->data[0]);
+            for (int k = 1; k < arg->len; ++k)
+              vec_push(os, arg->data[k]);
             continue;
           }
         }
-        glue1(os, next);
-        ++i;
+        glue1(os, operand_start, next);
         continue;
       }
       break;
@@ -254,19 +248,8 @@ static Vector *subst(Macro *macro, Table *param_table, Vector *args, HideSet *hs
         if (param_table != NULL && table_try_get(param_table, tok->ident, (void**)&j)) {
           assert(j < args->len);
           const Vector *arg = args->data[j];
-          if (arg->len == 0) {  // only if actuals can be empty
-            intptr_t k;
-            if (body->len > i + 2 && ((Token*)body->data[i + 2])->kind == TK_IDENT &&
-                table_try_get(param_table, ((Token*)body->data[i + 2])->ident, (void**)&k)) {
-              assert(k < args->len);
-              const Vector *arg2 = args->data[k];
-              vec_concat(os, arg2);
-            }
-            i += 2;
-          } else {
-            vec_concat(os, arg);
-            // Handle `##` at next iteration.
-          }
+          vec_concat(os, arg);
+          // Handle `##` at next iteration.
           continue;
         }
       }
-- 
2.43.0


From 3af7aa6a8cf3016b1eaaa868b963d3e6a04133c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:34 +0000
Subject: [PATCH 037/162] fix: put a line marker on a line of its own

---
 src/cpp/preprocessor.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cpp/preprocessor.c b/src/cpp/preprocessor.c
index 8fe72af..7b02679 100644
--- a/src/cpp/preprocessor.c
+++ b/src/cpp/preprocessor.c
@@ -788,7 +788,8 @@ static void adjust_output_lineno(PreprocessFile *ppf) {
   int d = ppf->stream.lineno - ppf->out_lineno;
   if (d > 0) {
     if (d >= 5) {
-      fprintf(pp_ofp, "# %d \"%s\"\n", ppf->stream.lineno, ppf->stream.filename);
+      // The line might not be terminated (e.g. after a line comment).
+      fprintf(pp_ofp, "\n# %d \"%s\"\n", ppf->stream.lineno, ppf->stream.filename);
     } else {
       for (int i = 0; i < d; ++i)
         fprintf(pp_ofp, "\n");
-- 
2.43.0


From eb1dfd41e6d2f437c0064c5cb0c812fb8af91069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:58 +0000
Subject: [PATCH 038/162] fix: keep tokens around macro expansions apart in
 preprocessed output

---
 src/cpp/preprocessor.c | 55 ++++++++++++++++++++++++++++++++----------
 1 file changed, 42 insertions(+), 13 deletions(-)

diff --git a/src/cpp/preprocessor.c b/src/cpp/preprocessor.c
index 7b02679..1a26e0c 100644
--- a/src/cpp/preprocessor.c
+++ b/src/cpp/preprocessor.c
@@ -136,12 +136,28 @@ static bool handle_block_comment(const char **pp, Stream *stream) {
   return true;
 }
 
+// Would two tokens be read as other tokens if they are put side by side?
+static bool need_separator(int c1, int c2) {
+  if (c1 == '\0' || c2 == '\0')
+    return false;
+  if (c1 == '.')
+    return isdigit(c2) || c2 == '.';
+  if (isalnum_(c1) || (c1 & 0x80) != 0)
+    return isalnum_(c2) || c2 == '.' || c2 == '"' || c2 == '\'' || (c2 & 0x80) != 0;
+  if (strchr("+-&|<>=#", c1) != NULL && c1 == c2)
+    return true;
+  if (c2 == '=')
+    return strchr("+-*/%&|^<>=!", c1) != NULL;
+  return (c1 == '-' && c2 == '>') || (c1 == '/' && (c2 == '/' || c2 == '*'));
+}
+
 static void process_line(const char *line, Stream *stream) {
   set_source_string(line, stream->filename, stream->lineno);
 
   const char *begin = get_lex_p();
 
   const Name *defined = alloc_name("defined", NULL, false);
+  int last = '\0';  // Last character of output.
   for (;;) {
     const char *p = get_lex_p();
     if (p != NULL) {
@@ -150,10 +166,12 @@ static void process_line(const char *line, Stream *stream) {
         OUTPUT_PPLINE("%.*s", (int)(p - begin), begin);
         --curpf->out_lineno;
         begin = p;
+        last = (unsigned char)p[-1];
       }
 
       if (handle_block_comment(&p, stream)) {
         begin = p;
+        last = ' ';
         set_source_string(begin, stream->filename, stream->lineno);
         continue;
       }
@@ -182,19 +200,29 @@ static void process_line(const char *line, Stream *stream) {
         vec_push(tokens, ident);
         macro_expand(tokens);
 
-        if (ident->begin != p)
+        if (ident->begin != p) {
           fwrite(p, ident->begin - p, 1, pp_ofp);
+          last = (unsigned char)ident->begin[-1];
+        }
 
         // Everything should have been expanded, so output
         for (int i = 0; i < tokens->len; ++i) {
           const Token *tok = tokens->data[i];
+          if (tok->end == tok->begin) {
+            last = '\0';
+            continue;
+          }
+          if (need_separator(last, (unsigned char)*tok->begin))
+            fputc(' ', pp_ofp);
           fwrite(tok->begin, tok->end - tok->begin, 1, pp_ofp);
+          last = (unsigned char)tok->end[-1];
         }
-        if (macro->params_len >= 0) {
-          // Put whitespace to avoid unexpected concatenation.
+        begin = get_lex_p();
+        // Put whitespace to avoid unexpected concatenation.
+        if (macro->params_len >= 0 || (begin != NULL && need_separator(last, (unsigned char)*begin))) {
           fputc(' ', pp_ofp);
+          last = ' ';
         }
-        begin = get_lex_p();
       }
       continue;
     }
@@ -439,7 +467,8 @@ static Vector *parse_macro_body(const char *p, Stream *stream) {
   set_source_string(p, stream == NULL ? "?" : stream->filename,
                     stream == NULL ? 0 : stream->lineno);
   Token *tok_space = NULL;
-  bool need_space = false;
+  Token *tok_nothing = NULL;
+  bool need_space = false, comment = false, after_operator = false;
   for (;;) {
     const char *start = get_lex_p();
     const char *q = block_comment_start(start);
@@ -466,6 +495,9 @@ static Vector *parse_macro_body(const char *p, Stream *stream) {
                         stream == NULL ? 0 : stream->lineno);
       // GNUC insert whitespace, but old compilers not and it is used to concatenate identifiers.
       // need_space = true;
+      if (tok_nothing == NULL)
+        tok_nothing = alloc_token(PPTK_SPACE, NULL, "", NULL);
+      comment = true;
       continue;
     }
 
@@ -473,21 +505,18 @@ static Vector *parse_macro_body(const char *p, Stream *stream) {
     if (tok->kind == TK_EOF)
       break;
     if (need_space || tok->begin != start) {
-      if (tok->kind != PPTK_CONCAT) {
+      if (tok->kind != PPTK_CONCAT && !after_operator) {
         if (tok_space == NULL)
           tok_space = alloc_token(PPTK_SPACE, NULL, " ", NULL);
         vec_push(tokens, tok_space);
       }
       need_space = false;
+    } else if (comment && tok->kind != PPTK_CONCAT && !after_operator) {
+      vec_push(tokens, tok_nothing);
     }
+    comment = false;
     vec_push(tokens, tok);
-
-    if (tok->kind == PPTK_CONCAT || tok->kind == PPTK_STRINGIFY) {
-      // Ignore after space.
-      const char *s = skip_whitespaces(get_lex_p());
-      set_source_string(s, stream == NULL ? "?" : stream->filename,
-                        stream == NULL ? 0 : stream->lineno);
-    }
+    after_operator = tok->kind == PPTK_CONCAT || tok->kind == PPTK_STRINGIFY;  // Ignore after space.
   }
   return tokens;
 }
-- 
2.43.0


From 63177c6c47c97b6d9342a9f3e052475df3c5a076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:15 +0000
Subject: [PATCH 039/162] fix: do not expand the variable argument of , ##
 beforehand

---
 src/cpp/macro.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/cpp/macro.c b/src/cpp/macro.c
index 14318df..09d8cef 100644
--- a/src/cpp/macro.c
+++ b/src/cpp/macro.c
@@ -302,11 +302,12 @@ static Vector *subst(Macro *macro, Table *param_table, Vector *args, HideSet *hs
         intptr_t j;
         if (table_try_get(param_table, next->ident, (void**)&j) && j == macro->params_len) {
           const Vector *arg = args->data[j];
-          if (arg->len == 0) {
-            i += 2;  // Argument is empty, so omit `,` and `##`.
-            continue;
+          i += 2;
+          if (arg->len > 0) {  // Argument is not empty, so put `,` followed by the argument (omit `##`).
+            vec_push(os, tok);
+            vec_concat(os, arg);
           }
-          ++i;  // Argument is not empty, so put `,` followed by the argument (omit `##`).
+          continue;
         }
       }
       break;
-- 
2.43.0


From ff8ea8c9745b06995af8bc22a30d33dc9b75f18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:33 +0000
Subject: [PATCH 040/162] fix: do not evaluate conditions of skipped groups

---
 src/cpp/preprocessor.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/cpp/preprocessor.c b/src/cpp/preprocessor.c
index 1a26e0c..29b0208 100644
--- a/src/cpp/preprocessor.c
+++ b/src/cpp/preprocessor.c
@@ -661,7 +661,7 @@ static bool handle_ifdef(const char **pp) {
   return macro_get(name) != NULL;
 }
 
-static bool handle_if(const char **pp, Stream *stream, bool enable) {
+static bool handle_if(const char **pp, Stream *stream) {
   size_t size;
   char *expanded = preprocess_one_line(*pp, stream, &size);
 
@@ -680,7 +680,7 @@ static bool handle_if(const char **pp, Stream *stream, bool enable) {
     result = pp_expr();
 
     const char *p = get_lex_p();
-    if (p != NULL && enable)
+    if (p != NULL)
       error("illegal expression");
 
     set_pp_stream(bak_stream);
@@ -733,17 +733,17 @@ static const char *process_directive(PreprocessFile *ppf, const char *line) {
   const char *next;
   if ((next = keyword(directive, "ifdef")) != NULL) {
     vec_push(ppf->condstack, INT2VOIDP(cond_value(ppf->enable, ppf->satisfy)));
-    bool defined = handle_ifdef(&next);
+    bool defined = ppf->enable && handle_ifdef(&next);
     ppf->satisfy = defined ? Satisfied : NotSatisfied;
     ppf->enable = ppf->enable && ppf->satisfy == Satisfied;
   } else if ((next = keyword(directive, "ifndef")) != NULL) {
     vec_push(ppf->condstack, INT2VOIDP(cond_value(ppf->enable, ppf->satisfy)));
-    bool defined = handle_ifdef(&next);
+    bool defined = !ppf->enable || handle_ifdef(&next);
     ppf->satisfy = defined ? NotSatisfied : Satisfied;
     ppf->enable = ppf->enable && ppf->satisfy == Satisfied;
   } else if ((next = keyword(directive, "if")) != NULL) {
     vec_push(ppf->condstack, INT2VOIDP(cond_value(ppf->enable, ppf->satisfy)));
-    bool cond = handle_if(&next, &ppf->stream, ppf->enable);
+    bool cond = ppf->enable && handle_if(&next, &ppf->stream);
     ppf->satisfy = cond ? Satisfied : NotSatisfied;
     ppf->enable = ppf->enable && ppf->satisfy == Satisfied;
   } else if ((next = keyword(directive, "else")) != NULL) {
@@ -763,10 +763,10 @@ static const char *process_directive(PreprocessFile *ppf, const char *line) {
     if (ppf->satisfy == ElseAppeared)
       error("Illegal #elif");
 
+    // The condition is not evaluated if a former group is selected or the whole is skipped.
     bool cond = false;
-    bool cond2 = handle_if(&next, &ppf->stream, ppf->enable);
-    if (ppf->satisfy == NotSatisfied) {
-      cond = cond2;
+    if (ppf->satisfy == NotSatisfied && (flag & CF_ENABLE) != 0) {
+      cond = handle_if(&next, &ppf->stream);
       if (cond)
         ppf->satisfy = Satisfied;
     }
-- 
2.43.0


From c2e3d4db7aaa6d652763313f43307e8b21d799a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:13 +0000
Subject: [PATCH 041/162] fix: ignore unterminated quotes in skipped groups

---
 src/cpp/preprocessor.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cpp/preprocessor.c b/src/cpp/preprocessor.c
index 29b0208..ff297b4 100644
--- a/src/cpp/preprocessor.c
+++ b/src/cpp/preprocessor.c
@@ -577,15 +577,15 @@ static void handle_undef(const char **pp) {
 }
 
 static const char *find_double_quote_end(const char *p) {
-  const char *start = p;
   for (;;) {
     switch (*p++) {
     case '\0':
-      lex_error(start, "Quote not closed");
+      return p - 1;  // Not closed, but it doesn't matter in a skipped group.
     case '"':
       return p;
     case '\\':
-      ++p;
+      if (*p != '\0')
+        ++p;
       break;
     default:
       break;
-- 
2.43.0


From 41d27c041169e451aa1498287579ebc68cb0894f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:47 +0000
Subject: [PATCH 042/162] fix: allow a multi-line comment after `defined X' in
 a condition

---
 src/cpp/preprocessor.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/cpp/preprocessor.c b/src/cpp/preprocessor.c
index ff297b4..3ecd92b 100644
--- a/src/cpp/preprocessor.c
+++ b/src/cpp/preprocessor.c
@@ -189,9 +189,12 @@ static void process_line(const char *line, Stream *stream) {
     if (ident != NULL) {
       if (equal_name(ident->ident, defined)) {
         // TODO: Raise error if not matched.
-        match(TK_LPAR);
-        match(TK_IDENT);
-        match(TK_RPAR);
+        if (match(TK_LPAR)) {
+          match(TK_IDENT);
+          match(TK_RPAR);
+        } else {
+          match(TK_IDENT);
+        }
       } else if ((macro = can_expand_ident(ident->ident)) != NULL) {
         const char *p = begin;
         begin = ident->end;  // Update for EOF callback.
-- 
2.43.0


From b533fe5a0ff78a15a3f17e96cd19ba8ed6802e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:01 +0000
Subject: [PATCH 043/162] fix: `defined' is special only in conditions

---
 src/cpp/preprocessor.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cpp/preprocessor.c b/src/cpp/preprocessor.c
index 3ecd92b..a9c2d90 100644
--- a/src/cpp/preprocessor.c
+++ b/src/cpp/preprocessor.c
@@ -22,6 +22,7 @@
 
 static FILE *pp_ofp;
 static bool preserve_comment;
+static bool in_condition;  // Processing condition of #if or #elif?
 
 // Is `#if` condition satisfied?
 enum Satisfy {
@@ -187,7 +188,7 @@ static void process_line(const char *line, Stream *stream) {
     Token *ident = match(TK_IDENT);
     Macro *macro;
     if (ident != NULL) {
-      if (equal_name(ident->ident, defined)) {
+      if (in_condition && equal_name(ident->ident, defined)) {
         // TODO: Raise error if not matched.
         if (match(TK_LPAR)) {
           match(TK_IDENT);
@@ -666,7 +667,9 @@ static bool handle_ifdef(const char **pp) {
 
 static bool handle_if(const char **pp, Stream *stream) {
   size_t size;
+  in_condition = true;
   char *expanded = preprocess_one_line(*pp, stream, &size);
+  in_condition = false;
 
   // Parse expression.
   PpResult result;
-- 
2.43.0


From c5a52a8c84e42e3d290fb22aac037f242a0709c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:10 +0000
Subject: [PATCH 044/162] fix: allow a multi-line comment between `defined' and
 its operand

---
 src/cpp/preprocessor.c | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/cpp/preprocessor.c b/src/cpp/preprocessor.c
index a9c2d90..3eef74d 100644
--- a/src/cpp/preprocessor.c
+++ b/src/cpp/preprocessor.c
@@ -159,6 +159,7 @@ static void process_line(const char *line, Stream *stream) {
 
   const Name *defined = alloc_name("defined", NULL, false);
   int last = '\0';  // Last character of output.
+  bool after_defined = false;
   for (;;) {
     const char *p = get_lex_p();
     if (p != NULL) {
@@ -189,13 +190,9 @@ static void process_line(const char *line, Stream *stream) {
     Macro *macro;
     if (ident != NULL) {
       if (in_condition && equal_name(ident->ident, defined)) {
-        // TODO: Raise error if not matched.
-        if (match(TK_LPAR)) {
-          match(TK_IDENT);
-          match(TK_RPAR);
-        } else {
-          match(TK_IDENT);
-        }
+        after_defined = true;
+      } else if (after_defined) {
+        after_defined = false;  // Operand of `defined' is not expanded.
       } else if ((macro = can_expand_ident(ident->ident)) != NULL) {
         const char *p = begin;
         begin = ident->end;  // Update for EOF callback.
-- 
2.43.0


From 5b32c6c003f0ce87dd8177b18318572bc77ecbcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:48 +0000
Subject: [PATCH 045/162] fix: unsigned arithmetic in conditions of #if

---
 src/cpp/pp_parser.c | 138 +++++++++++++++++++++++++++-----------------
 1 file changed, 85 insertions(+), 53 deletions(-)

diff --git a/src/cpp/pp_parser.c b/src/cpp/pp_parser.c
index 5f991ab..c277e8d 100644
--- a/src/cpp/pp_parser.c
+++ b/src/cpp/pp_parser.c
@@ -265,8 +265,21 @@ typedef enum {
   PREC_POSTFIX,  // ++ -- . -> [] ()
 } Precedence;
 
-typedef PpResult (*ParsePrefixFn)(Token *token);
-typedef PpResult (*ParseInfixFn)(PpResult lhs, Token *token);
+// Value of expression: intmax_t or uintmax_t.
+typedef struct {
+  PpResult value;
+  bool is_unsigned;
+} PpValue;
+
+static PpValue make_value(PpResult value, bool is_unsigned) {
+  PpValue result;
+  result.value = value;
+  result.is_unsigned = is_unsigned;
+  return result;
+}
+
+typedef PpValue (*ParsePrefixFn)(Token *token);
+typedef PpValue (*ParseInfixFn)(PpValue lhs, Token *token);
 
 typedef struct {
   ParsePrefixFn prefix;
@@ -276,14 +289,16 @@ typedef struct {
 
 static const ParseRule *get_rule(enum TokenKind kind);
 
-static PpResult parse_precedence(Precedence precedence) {
+static PpValue parse_expr(void);
+
+static PpValue parse_precedence(Precedence precedence) {
   Token *previous = match(-1);
   ParsePrefixFn prefixRule = get_rule(previous->kind)->prefix;
   if (prefixRule == NULL) {
     pp_parse_error(previous, "Expect expression.");
   }
 
-  PpResult expr = prefixRule(previous);
+  PpValue expr = prefixRule(previous);
 
   for (;;) {
     Token *current = fetch_token();
@@ -299,95 +314,108 @@ static PpResult parse_precedence(Precedence precedence) {
   return expr;
 }
 
-static PpResult literal(Token *tok) {
+static PpValue literal(Token *tok) {
   switch (tok->kind) {
   case TK_INTLIT:
-    return tok->fixnum.value;
+    {
+      int flag = tok->fixnum.flag;
+      bool is_char = (flag & TKF_CHAR) != 0;
+      bool is_decimal = (flag & TKF_KIND_MASK) == TKF_KIND_PLANE;
+      bool is_unsigned = !is_char && ((flag & TKF_UNSIGNED) != 0 ||
+                                      (!is_decimal && tok->fixnum.value < 0));
+      return make_value(tok->fixnum.value, is_unsigned);
+    }
   // case TK_STR:     return string_expr(tok, tok->str.buf, tok->str.len, tok->str.kind);
 #ifndef __NO_FLONUM
   case TK_FLOATLIT: case TK_DOUBLELIT: case TK_LDOUBLELIT:
-    return tok->flonum;
+    return make_value(tok->flonum, false);
 #endif
-  default: assert(false); return 0;  // Unreachable.
+  default: assert(false); return make_value(0, false);  // Unreachable.
   }
 }
 
-static PpResult variable(Token *ident) {
+static PpValue variable(Token *ident) {
   if (equal_name(ident->ident, alloc_name("defined", NULL, false)))
-    return parse_defined();
-  return 0;  // Undefined identifier is 0.
+    return make_value(parse_defined(), false);
+  return make_value(0, false);  // Undefined identifier is 0.
 }
 
-static PpResult unary(Token *tok) {
-  PpResult expr = parse_precedence(PREC_POSTFIX);
+static PpValue unary(Token *tok) {
+  PpValue expr = parse_precedence(PREC_POSTFIX);
 
   enum TokenKind kind = tok->kind;
   switch (kind) {
   case TK_ADD: return expr;
-  case TK_SUB: return -expr;
-  case TK_NOT: return expr ? 0 : 1;
-  case TK_TILDA: return ~expr;
-  default: assert(false); return 0;  // Unreachable.
+  case TK_SUB: return make_value(-(uint64_t)expr.value, expr.is_unsigned);
+  case TK_NOT: return make_value(expr.value ? 0 : 1, false);
+  case TK_TILDA: return make_value(~expr.value, expr.is_unsigned);
+  default: assert(false); return make_value(0, false);  // Unreachable.
   }
 }
 
-static PpResult binary(PpResult lhs, Token *tok) {
+static PpValue binary(PpValue l, Token *tok) {
   const ParseRule* rule = get_rule(tok->kind);
   assert(rule != NULL);
-  PpResult rhs = parse_precedence(rule->precedence + 1);
+  PpValue r = parse_precedence(rule->precedence + 1);
+
+  PpResult lhs = l.value, rhs = r.value;
+  uint64_t ulhs = lhs, urhs = rhs;
+  bool uns = l.is_unsigned || r.is_unsigned;  // Usual arithmetic conversions.
 
   enum TokenKind kind = tok->kind;
   switch (kind) {
-  case TK_ADD:  return lhs + rhs;
-  case TK_SUB:  return lhs - rhs;
-  case TK_MUL:  return lhs * rhs;
+  case TK_ADD:  return make_value(ulhs + urhs, uns);
+  case TK_SUB:  return make_value(ulhs - urhs, uns);
+  case TK_MUL:  return make_value(ulhs * urhs, uns);
   case TK_DIV:
-    if (rhs != 0) {
-      return lhs / rhs;
-    } else {
+    if (rhs == 0) {
       // pp_parse_error(tok, "Division by zero");
-      return lhs;
+      return make_value(lhs, uns);
     }
+    if (uns)
+      return make_value(ulhs / urhs, uns);
+    return make_value(rhs == -1 ? (PpResult)-ulhs : lhs / rhs, uns);
   case TK_MOD:
-    if (rhs != 0) {
-      return lhs % rhs;
-    } else {
+    if (rhs == 0) {
       // pp_parse_error(tok, "Modulo by zero");
-      return lhs;
+      return make_value(lhs, uns);
     }
-  case TK_LSHIFT:  return lhs << rhs;
-  case TK_RSHIFT:  return lhs >> rhs;
-  case TK_AND:  return lhs & rhs;
-  case TK_OR:   return lhs | rhs;
-  case TK_HAT:  return lhs ^ rhs;
-  case TK_EQ:  return lhs == rhs;
-  case TK_NE:  return lhs != rhs;
-  case TK_LT:  return lhs < rhs;
-  case TK_LE:  return lhs <= rhs;
-  case TK_GE:  return lhs >= rhs;
-  case TK_GT:  return lhs > rhs;
-  case TK_LOGAND:  return lhs && rhs;
-  case TK_LOGIOR:  return lhs || rhs;
-  case TK_COMMA:  return rhs;
-
-  default: assert(false); return 0;  // Unreachable.
+    if (uns)
+      return make_value(ulhs % urhs, uns);
+    return make_value(rhs == -1 ? 0 : lhs % rhs, uns);
+  case TK_LSHIFT:  return make_value(ulhs << rhs, l.is_unsigned);
+  case TK_RSHIFT:  return make_value(l.is_unsigned ? (PpResult)(ulhs >> rhs) : lhs >> rhs, l.is_unsigned);
+  case TK_AND:  return make_value(lhs & rhs, uns);
+  case TK_OR:   return make_value(lhs | rhs, uns);
+  case TK_HAT:  return make_value(lhs ^ rhs, uns);
+  case TK_EQ:  return make_value(lhs == rhs, false);
+  case TK_NE:  return make_value(lhs != rhs, false);
+  case TK_LT:  return make_value(uns ? ulhs < urhs : lhs < rhs, false);
+  case TK_LE:  return make_value(uns ? ulhs <= urhs : lhs <= rhs, false);
+  case TK_GE:  return make_value(uns ? ulhs >= urhs : lhs >= rhs, false);
+  case TK_GT:  return make_value(uns ? ulhs > urhs : lhs > rhs, false);
+  case TK_LOGAND:  return make_value(lhs && rhs, false);
+  case TK_LOGIOR:  return make_value(lhs || rhs, false);
+  case TK_COMMA:  return r;
+
+  default: assert(false); return make_value(0, false);  // Unreachable.
   }
 }
 
-static PpResult ternary(PpResult expr, Token *tok) {
+static PpValue ternary(PpValue expr, Token *tok) {
   const ParseRule* rule = get_rule(tok->kind);
   assert(rule != NULL);
-  PpResult tval = pp_expr();
+  PpValue tval = parse_expr();
 
   pp_consume(TK_COLON, "`:' expected");
-  PpResult fval = parse_precedence(rule->precedence);
+  PpValue fval = parse_precedence(rule->precedence);
 
-  return expr ? tval : fval;
+  return make_value(expr.value ? tval.value : fval.value, tval.is_unsigned || fval.is_unsigned);
 }
 
-static PpResult grouping(Token *tok) {
+static PpValue grouping(Token *tok) {
   UNUSED(tok);
-  PpResult expr = pp_expr();
+  PpValue expr = parse_expr();
   pp_consume(TK_RPAR, "Expect ')' after expression.");
   return expr;
 }
@@ -444,6 +472,10 @@ static const ParseRule *get_rule(enum TokenKind kind) {
   return &kRules[kind];
 }
 
-PpResult pp_expr(void) {
+static PpValue parse_expr(void) {
   return parse_precedence(PREC_COMMA);
 }
+
+PpResult pp_expr(void) {
+  return parse_expr().value;
+}
-- 
2.43.0


From f8e21dc19879b571c73df020fd6eeb2d12b3ab11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:22 +0000
Subject: [PATCH 046/162] fix: report an empty condition instead of aborting

---
 src/cpp/preprocessor.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cpp/preprocessor.c b/src/cpp/preprocessor.c
index 3eef74d..174b99e 100644
--- a/src/cpp/preprocessor.c
+++ b/src/cpp/preprocessor.c
@@ -668,6 +668,9 @@ static bool handle_if(const char **pp, Stream *stream) {
   char *expanded = preprocess_one_line(*pp, stream, &size);
   in_condition = false;
 
+  if (size == 0)
+    error("expression expected");
+
   // Parse expression.
   PpResult result;
   {
-- 
2.43.0


From d6099a95aaadac3185e9fd8f214e58b82ec961c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:17 +0000
Subject: [PATCH 047/162] fix: report illegal operands in conditions instead of
 aborting

---
 src/cpp/pp_parser.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/cpp/pp_parser.c b/src/cpp/pp_parser.c
index c277e8d..54cfe63 100644
--- a/src/cpp/pp_parser.c
+++ b/src/cpp/pp_parser.c
@@ -424,7 +424,7 @@ static const ParseRule *get_rule(enum TokenKind kind) {
   static const ParseRule kRules[] = {
     [TK_LPAR]          = {grouping},
 
-    [TK_MUL]           = {unary,    binary,    PREC_FACTOR},
+    [TK_MUL]           = {NULL,     binary,    PREC_FACTOR},
     [TK_DIV]           = {NULL,     binary,    PREC_FACTOR},
     [TK_MOD]           = {NULL,     binary,    PREC_FACTOR},
 
@@ -442,7 +442,7 @@ static const ParseRule *get_rule(enum TokenKind kind) {
     [TK_EQ]            = {NULL,     binary,    PREC_EQ},
     [TK_NE]            = {NULL,     binary,    PREC_EQ},
 
-    [TK_AND]           = {unary,    binary,    PREC_BITAND},
+    [TK_AND]           = {NULL,     binary,    PREC_BITAND},
     [TK_HAT]           = {NULL,     binary,    PREC_BITXOR},
     [TK_OR]            = {NULL,     binary,    PREC_BITOR},
 
@@ -457,7 +457,6 @@ static const ParseRule *get_rule(enum TokenKind kind) {
     [TK_TILDA]         = {unary},
 
     [TK_INTLIT]        = {literal},
-    [TK_STR]           = {literal},
     [TK_FLOATLIT]      = {literal},
     [TK_DOUBLELIT]     = {literal},
     [TK_LDOUBLELIT]    = {literal},
-- 
2.43.0


From 52d5103c1aecb1916899dd5749a663d9619ace1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:21 +0000
Subject: [PATCH 048/162] fix: malloc and calloc refuse sizes that overflow

---
 libsrc/stdlib/_malloc.h | 4 +++-
 libsrc/stdlib/calloc.c  | 3 +++
 libsrc/stdlib/malloc.c  | 3 +++
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/libsrc/stdlib/_malloc.h b/libsrc/stdlib/_malloc.h
index 1589908..af0f11a 100644
--- a/libsrc/stdlib/_malloc.h
+++ b/libsrc/stdlib/_malloc.h
@@ -1,11 +1,13 @@
 #pragma once
 
+#include "stddef.h"  // size_t
+
 typedef long Align;
 
 typedef union header {
   struct {
     union header *ptr;
-    unsigned int size;
+    size_t size;
   } s;
   Align x;
 } Header;
diff --git a/libsrc/stdlib/calloc.c b/libsrc/stdlib/calloc.c
index 5b53244..9548350 100644
--- a/libsrc/stdlib/calloc.c
+++ b/libsrc/stdlib/calloc.c
@@ -2,6 +2,9 @@
 #include "string.h"  // memset
 
 void *calloc(size_t nmemb, size_t size) {
+  if (size != 0 && nmemb > (size_t)-1 / size)
+    return NULL;
+
   size_t nbytes = nmemb * size;
   void *adr = malloc(nbytes);
   if (adr != NULL)
diff --git a/libsrc/stdlib/malloc.c b/libsrc/stdlib/malloc.c
index 898482e..3f5d3c3 100644
--- a/libsrc/stdlib/malloc.c
+++ b/libsrc/stdlib/malloc.c
@@ -52,6 +52,9 @@ void *malloc(size_t nbytes) {
   Header *p, *prevp;
   size_t nunits;
 
+  if (nbytes > (size_t)-1 / 2)
+    return 0;
+
   nunits = (nbytes + sizeof(Header) - 1) / sizeof(Header) + 1;
   prevp = freep;
   for (p = prevp->s.ptr; ; prevp = p, p = p->s.ptr) {
-- 
2.43.0


From aaffd1ca582216a6b21721e09e5f9867c992c17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:58 +0000
Subject: [PATCH 049/162] fix: memccpy copies the searched byte and returns the
 place after it, or NULL

---
 libsrc/string/memccpy.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/libsrc/string/memccpy.c b/libsrc/string/memccpy.c
index 427d8f7..7050032 100644
--- a/libsrc/string/memccpy.c
+++ b/libsrc/string/memccpy.c
@@ -1,8 +1,12 @@
 #include "string.h"
 
 void *memccpy(void *dst, const void *src, int c, size_t n) {
-  char *b = memchr(src, c, n);
-  if (b != NULL)
-    n = b - (char *)src;
-  return memcpy(dst, src, n);
+  const char *b = memchr(src, c, n);
+  if (b == NULL) {
+    memcpy(dst, src, n);
+    return NULL;
+  }
+  n = b - (const char*)src + 1;
+  memcpy(dst, src, n);
+  return (char*)dst + n;
 }
-- 
2.43.0


From 1d98094b1d8c63426253708c70e21c67a7106748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:58 +0000
Subject: [PATCH 050/162] fix: memchr, strchr and strrchr convert the searched
 character to char

---
 libsrc/string/memchr.c  | 2 +-
 libsrc/string/strchr.c  | 2 +-
 libsrc/string/strrchr.c | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/libsrc/string/memchr.c b/libsrc/string/memchr.c
index ab1e6e7..5c9669c 100644
--- a/libsrc/string/memchr.c
+++ b/libsrc/string/memchr.c
@@ -2,7 +2,7 @@
 
 void *memchr(const void *buf, int c, size_t n) {
   for (const char *p = buf, *e = p + n; p < e; ++p) {
-    if (*p == c)
+    if (*p == (char)c)
       return (void*)p;
   }
   return NULL;
diff --git a/libsrc/string/strchr.c b/libsrc/string/strchr.c
index 296b9c0..3f80fbc 100644
--- a/libsrc/string/strchr.c
+++ b/libsrc/string/strchr.c
@@ -2,7 +2,7 @@
 
 char *strchr(const char *s, int c) {
   for (;; ++s) {
-    if (*s == c)
+    if (*s == (char)c)
       return (char*)s;
     if (*s == '\0')
       return NULL;
diff --git a/libsrc/string/strrchr.c b/libsrc/string/strrchr.c
index b6bc79a..ae15d11 100644
--- a/libsrc/string/strrchr.c
+++ b/libsrc/string/strrchr.c
@@ -3,7 +3,7 @@
 char *strrchr(const char *s, int c) {
   char *last = NULL;
   for (;; ++s) {
-    if (*s == c)
+    if (*s == (char)c)
       last = (char*)s;
     if (*s == '\0')
       return last;
-- 
2.43.0


From 81476f684a77e47746fe97bbb482320e3bc630a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:58 +0000
Subject: [PATCH 051/162] fix: stpcpy returns the address of the terminating
 NUL

---
 libsrc/string/stpcpy.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libsrc/string/stpcpy.c b/libsrc/string/stpcpy.c
index 0eb7f51..466d141 100644
--- a/libsrc/string/stpcpy.c
+++ b/libsrc/string/stpcpy.c
@@ -1,7 +1,7 @@
 #include "string.h"
 
 char *stpcpy(char *dst, const char *src) {
-  while ((*dst++ = *src++) != '\0')
-    ;
+  while ((*dst = *src++) != '\0')
+    ++dst;
   return dst;
 }
-- 
2.43.0


From 80de467f7c67bbd23b4c7272de9dc05e11ccb047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:58 +0000
Subject: [PATCH 052/162] fix: strncpy and stpncpy fill the rest of the array
 with NULs

---
 libsrc/string/stpncpy.c | 7 +++++--
 libsrc/string/strncpy.c | 6 ++----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/libsrc/string/stpncpy.c b/libsrc/string/stpncpy.c
index a6d7894..10b875c 100644
--- a/libsrc/string/stpncpy.c
+++ b/libsrc/string/stpncpy.c
@@ -1,7 +1,10 @@
 #include "string.h"
 
 char *stpncpy(char *dst, const char *src, size_t n) {
-  for (; n > 0 && (*dst++ = *src++) != '\0'; --n)
-    ;
+  for (; n > 0 && (*dst = *src) != '\0'; --n) {
+    ++dst;
+    ++src;
+  }
+  memset(dst, 0, n);
   return dst;
 }
diff --git a/libsrc/string/strncpy.c b/libsrc/string/strncpy.c
index 9dcceae..6433a8b 100644
--- a/libsrc/string/strncpy.c
+++ b/libsrc/string/strncpy.c
@@ -1,8 +1,6 @@
 #include "string.h"
 
 char *strncpy(char *dst, const char *src, size_t n) {
-  char *os = dst;
-  for (; n > 0 && (*dst++ = *src++) != '\0'; --n)
-    ;
-  return os;
+  stpncpy(dst, src, n);
+  return dst;
 }
-- 
2.43.0


From 95739e68224b0685a9c06b1f6fc25cd3404b31c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:58 +0000
Subject: [PATCH 053/162] fix: strcasecmp ignores case

---
 libsrc/string/strcasecmp.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libsrc/string/strcasecmp.c b/libsrc/string/strcasecmp.c
index ed94ec0..42bcdf2 100644
--- a/libsrc/string/strcasecmp.c
+++ b/libsrc/string/strcasecmp.c
@@ -3,9 +3,9 @@
 
 int strcasecmp(const char *p, const char *q) {
   for (;; ++p, ++q) {
-    unsigned char c1 = *(unsigned char*)p;
-    unsigned char c2 = *(unsigned char*)q;
-    int d = (int)c1 - (int)c2;
+    int c1 = tolower(*(unsigned char*)p);
+    int c2 = tolower(*(unsigned char*)q);
+    int d = c1 - c2;
     if (d != 0)
       return d;
     if (c1 == 0)
-- 
2.43.0


From 3f9e87be060f53a41cff984f0e24dff34e37aaaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:58 +0000
Subject: [PATCH 054/162] fix: strndup stops at the terminating NUL

---
 libsrc/string/strndup.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libsrc/string/strndup.c b/libsrc/string/strndup.c
index ce14001..f366b53 100644
--- a/libsrc/string/strndup.c
+++ b/libsrc/string/strndup.c
@@ -2,6 +2,7 @@
 #include "stdlib.h"  // malloc
 
 char *strndup(const char *str, size_t size) {
+  size = strnlen(str, size);
   char *dup = malloc(size + 1);
   if (dup != NULL) {
     memcpy(dup, str, size);
-- 
2.43.0


From f9ef4edf38d04b7350eeda92dfe1dc94721126d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:58 +0000
Subject: [PATCH 055/162] fix: strstr finds the empty string at the end

---
 libsrc/string/strstr.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libsrc/string/strstr.c b/libsrc/string/strstr.c
index f8fa574..d542608 100644
--- a/libsrc/string/strstr.c
+++ b/libsrc/string/strstr.c
@@ -1,9 +1,10 @@
 #include "string.h"
 
 char *strstr(const char *s1, const char *s2) {
-  for (size_t len = strlen(s2); *s1 != '\0'; ++s1) {
+  for (size_t len = strlen(s2); ; ++s1) {
     if (strncmp(s1, s2, len) == 0)
       return (char*)s1;
+    if (*s1 == '\0')
+      return NULL;
   }
-  return NULL;
 }
-- 
2.43.0


From 2e5511c017ed5efa73a965ca0e2c36cb5df4ffa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:58 +0000
Subject: [PATCH 056/162] fix: strtok does not step over the end of the string
 after the last token

---
 libsrc/string/strtok_r.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libsrc/string/strtok_r.c b/libsrc/string/strtok_r.c
index 07a17d7..bcde9c6 100644
--- a/libsrc/string/strtok_r.c
+++ b/libsrc/string/strtok_r.c
@@ -7,8 +7,8 @@ char *strtok_r(char *src, const char *delim, char **ptr) {
   if (**ptr == '\0')
     return NULL;
   char *r = *ptr;
-  size_t n = strcspn(r, delim);
-  r[n] = '\0';
-  *ptr += n + 1;
+  *ptr += strcspn(r, delim);
+  if (**ptr != '\0')
+    *(*ptr)++ = '\0';
   return r;
 }
-- 
2.43.0


From 9653a6edfa7f0b4d5b5a172fe0b0e7558fa2a903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:58 +0000
Subject: [PATCH 057/162] fix: strtol and its relatives accept base 0 and the
 0x prefix

---
 libsrc/stdlib/_strtoull_sub.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/libsrc/stdlib/_strtoull_sub.c b/libsrc/stdlib/_strtoull_sub.c
index 016c418..32badc7 100644
--- a/libsrc/stdlib/_strtoull_sub.c
+++ b/libsrc/stdlib/_strtoull_sub.c
@@ -1,6 +1,13 @@
-#include "ctype.h"  // isspace, tolower
+#include "ctype.h"  // isxdigit, tolower
 
 unsigned long long _strtoull_sub(const char *p, char **pp, int base, unsigned long long max) {
+  if ((base == 0 || base == 16) && *p == '0' && tolower((unsigned char)p[1]) == 'x' && isxdigit((unsigned char)p[2])) {
+    p += 2;
+    base = 16;
+  } else if (base == 0) {
+    base = *p == '0' ? 8 : 10;
+  }
+
   char digimax = '0' + (base <= 10 ? base : 10);
   char hexmax = 'a' - 10 + base;
   unsigned long long premax = max / base;
-- 
2.43.0


From 96206ddb1d63a9a043961c63bb75bbff463d0dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:58 +0000
Subject: [PATCH 058/162] fix: strtoul and strtoull accept white space and a
 minus sign

---
 libsrc/stdlib/_strtoull_sub.c |  9 ++++++++-
 libsrc/stdlib/strtoul.c       | 18 ++++++++++++++++--
 libsrc/stdlib/strtoull.c      | 13 +++++++++++--
 3 files changed, 35 insertions(+), 5 deletions(-)

diff --git a/libsrc/stdlib/_strtoull_sub.c b/libsrc/stdlib/_strtoull_sub.c
index 32badc7..1186b89 100644
--- a/libsrc/stdlib/_strtoull_sub.c
+++ b/libsrc/stdlib/_strtoull_sub.c
@@ -1,3 +1,4 @@
+#include "errno.h"
 #include "ctype.h"  // isxdigit, tolower
 
 unsigned long long _strtoull_sub(const char *p, char **pp, int base, unsigned long long max) {
@@ -26,12 +27,18 @@ unsigned long long _strtoull_sub(const char *p, char **pp, int base, unsigned lo
     }
     if (result > premax) {
       result = max;
+      errno = ERANGE;
       continue;
     }
 
     unsigned long long r = result * base;
     unsigned long long d = max - r;
-    result = n < d ? r + n : max;
+    if (n > d) {
+      result = max;
+      errno = ERANGE;
+    } else {
+      result = r + n;
+    }
   }
 
   if (pp != 0)
diff --git a/libsrc/stdlib/strtoul.c b/libsrc/stdlib/strtoul.c
index d29abbf..ad3a9fd 100644
--- a/libsrc/stdlib/strtoul.c
+++ b/libsrc/stdlib/strtoul.c
@@ -1,13 +1,27 @@
 #include "stdlib.h"
+#include "ctype.h"  // isspace
+#include "errno.h"
+#include "stdbool.h"
 
+extern bool _parse_sign(const char **pp);
 extern unsigned long long _strtoull_sub(const char *p, char **pp, int base, unsigned long long max);
 
 unsigned long strtoul(const char *p, char **pp, int base) {
   const char *orig = p;
-  if (*p == '+')
-    ++p;
+
+  for (; isspace(*p); ++p)
+    ;
+
+  bool neg = _parse_sign(&p);
   char *q;
+  int saved = errno;
+  errno = 0;
   unsigned long result = _strtoull_sub(p, &q, base, -1UL);
+  if (errno == 0) {
+    errno = saved;
+    if (neg)
+      result = -result;
+  }
   if (pp != 0)
     *pp = q == p ? (char*)orig : q;
   return result;
diff --git a/libsrc/stdlib/strtoull.c b/libsrc/stdlib/strtoull.c
index 5de6a7b..056a2db 100644
--- a/libsrc/stdlib/strtoull.c
+++ b/libsrc/stdlib/strtoull.c
@@ -1,6 +1,9 @@
 #include "stdlib.h"
 #include "ctype.h"  // isspace
+#include "errno.h"
+#include "stdbool.h"
 
+extern bool _parse_sign(const char **pp);
 extern unsigned long long _strtoull_sub(const char *p, char **pp, int base, unsigned long long max);
 
 unsigned long long strtoull(const char *p, char **pp, int base) {
@@ -9,10 +12,16 @@ unsigned long long strtoull(const char *p, char **pp, int base) {
   for (; isspace(*p); ++p)
     ;
 
-  if (*p == '+')
-    ++p;
+  bool neg = _parse_sign(&p);
   char *q;
+  int saved = errno;
+  errno = 0;
   unsigned long long result = _strtoull_sub(p, &q, base, -1ULL);
+  if (errno == 0) {
+    errno = saved;
+    if (neg)
+      result = -result;
+  }
   if (pp != 0)
     *pp = q == p ? (char*)orig : q;
   return result;
-- 
2.43.0


From dd4a87c5d592621fa30a4c8fa351fa49c4378531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:52 +0000
Subject: [PATCH 059/162] fix: printf lays out sign, zeros, precision and
 padding as C prescribes

---
 libsrc/stdio/vfprintf.c | 169 +++++++++++++++++++---------------------
 1 file changed, 81 insertions(+), 88 deletions(-)

diff --git a/libsrc/stdio/vfprintf.c b/libsrc/stdio/vfprintf.c
index 177faa9..4b609a1 100644
--- a/libsrc/stdio/vfprintf.c
+++ b/libsrc/stdio/vfprintf.c
@@ -12,19 +12,11 @@
 
 #define PRINTF_BUFSIZ  (32)
 #define MIN(a, b)  ((a) < (b) ? (a) : (b))
-#define SIGN(p)  ((p) ? '+' : '-')
 #define STATIC_ASSERT(cond)  char __dummy[(cond) ? 0 : -1]; (void)__dummy
 
 static const char kHexDigits[] = "0123456789abcdef";
 static const char kUpperHexDigits[] = "0123456789ABCDEF";
 
-static int putnstr(FILE *fp, int n, const char *s) {
-  int i;
-  for (i = 0; i < n && s[i] != '\0'; ++i)
-    ;
-  return fwrite(s, 1, i, fp);
-}
-
 static void putpadding(FILE *fp, int m, char padding) {
   if (m <= 0)
     return;
@@ -57,48 +49,43 @@ static int snprintullong(FILE *fp, unsigned long long x, int base, const char *d
   return o + fwrite(&buf[sizeof(buf) - i], 1, i, fp);
 }
 
-static char *snprintullong2(char *bufend, unsigned long long x, int base, const char *digits) {
-  char *p = bufend;
-  *(--p) = '\0';
-  do {
-    *(--p) = digits[x % base];
-    x /= base;
-  } while (x != 0);
-  return p;
+// Put a field: sign or prefix, zeros, and the body, padded to the width.
+static int putfield(FILE *fp, const char *prefix, int zeros, const char *body, size_t len,
+                    int width, bool leftalign, bool zeropad) {
+  size_t prefixlen = strlen(prefix);
+  int total = prefixlen + zeros + len;
+  int padding = width > total ? width - total : 0;
+  if (!leftalign && !zeropad)
+    putpadding(fp, padding, ' ');
+  fwrite(prefix, 1, prefixlen, fp);
+  if (!leftalign && zeropad)
+    putpadding(fp, padding, '0');
+  putpadding(fp, zeros, '0');
+  fwrite(body, 1, len, fp);
+  if (leftalign)
+    putpadding(fp, padding, ' ');
+  return total + padding;
 }
 
-static int snprintstr(FILE *fp, const char *s, int order, int suborder, bool leftalign,
-                      char padding) {
-  size_t len = strlen(s);
-  if (suborder > 0)
-    len = MIN(len, (unsigned int)suborder);
-  if (order <= 0 || len >= (unsigned int)order) {
-    putnstr(fp, len, s);
-    return len;
-  } else {
-    if (leftalign) {
-      putnstr(fp, len, s);
-      putpadding(fp, order - len, padding);
-    } else {
-      putpadding(fp, order - len, padding);
-      putnstr(fp, len, s);
-    }
-    return order;
+// Put an integer: `precision` is the minimum number of digits, negative if it is not given.
+static int putinteger(FILE *fp, const char *prefix, unsigned long long x, int base,
+                      const char *digits, int width, int precision, bool leftalign, bool zeropad) {
+  char buf[PRINTF_BUFSIZ];
+  STATIC_ASSERT(sizeof(buf) >= (sizeof(long long) * CHAR_BIT + 2) / 3);
+  char *end = buf + sizeof(buf), *p = end;
+  if (x != 0 || precision != 0) {
+    do {
+      *(--p) = digits[x % base];
+      x /= base;
+    } while (x != 0);
   }
+  int len = end - p;
+  int zeros = precision > len ? precision - len : 0;
+  return putfield(fp, prefix, zeros, p, len, width, leftalign, zeropad && precision < 0);
 }
 
-static int sprintsign(FILE *fp, bool negative, bool force, int *porder) {
-  int o = 0;
-  if (negative) {
-    _fputc('-', fp);
-    ++o;
-  } else if (force) {
-    _fputc('+', fp);
-    ++o;
-  }
-  if (*porder > 1 && o > 0)
-    *porder -= o;
-  return o;
+static const char *signstr(bool negative, bool force) {
+  return negative ? "-" : force ? "+" : "";
 }
 
 #ifndef __NO_FLONUM
@@ -114,16 +101,29 @@ static long double pow10(int order) {
   return a;
 }
 
-static int printnonfinite(FILE *fp, long double x, int order, int suborder, bool sign,
-                          bool leftalign) {
-  int o = sprintsign(fp, signbit(x), sign, &order);
-  return o + snprintstr(fp, isnan(x) ? "nan" : "inf", order, suborder, leftalign, ' ');
+static int sprintsign(FILE *fp, bool negative, bool force, int *porder) {
+  int o = 0;
+  if (negative) {
+    _fputc('-', fp);
+    ++o;
+  } else if (force) {
+    _fputc('+', fp);
+    ++o;
+  }
+  if (*porder > 1 && o > 0)
+    *porder -= o;
+  return o;
+}
+
+static int printnonfinite(FILE *fp, long double x, int order, bool sign, bool leftalign) {
+  return putfield(fp, signstr(signbit(x), sign), 0, isnan(x) ? "nan" : "inf", 3, order, leftalign,
+                  false);
 }
 
 static int printfloat(FILE *fp, long double x, int order, int suborder, bool sign, bool leftalign,
                       char padding) {
   if (!isfinite(x))
-    return printnonfinite(fp, x, order, suborder, sign, leftalign);
+    return printnonfinite(fp, x, order, sign, leftalign);
 
   bool neg = signbit(x);
   if (neg)
@@ -166,7 +166,7 @@ static int normalize_float(long double *px) {
 static int printscientific(FILE *fp, long double x, int order, int suborder, bool sign,
                            bool leftalign, char padding) {
   if (!isfinite(x))
-    return printnonfinite(fp, x, order, suborder, sign, leftalign);
+    return printnonfinite(fp, x, order, sign, leftalign);
 
   bool neg = signbit(x);
   if (neg)
@@ -203,10 +203,6 @@ static int printscientific(FILE *fp, long double x, int order, int suborder, boo
 #endif
 
 int vfprintf(FILE *fp, const char *fmt_, va_list ap) {
-  char buf[PRINTF_BUFSIZ];
-#define bufend  (buf + sizeof(buf))
-  STATIC_ASSERT(sizeof(buf) >= (sizeof(long long) * CHAR_BIT + 2) / 3);
-
   const unsigned char *fmt = (const unsigned char*)fmt_;
   int c, i;
   int o;
@@ -221,23 +217,22 @@ int vfprintf(FILE *fp, const char *fmt_, va_list ap) {
 
     // Handle '%'
     char padding = ' ';
-    int order = 0, suborder = 0;
+    int order = 0, suborder = -1;  // Negative suborder: not given.
     bool sign = false;
     bool leftalign = false;
     bool sizez = false;
     int nlong = 0;
     c = fmt[++i];
 
-    if (c == '+') {
-      sign = true;
-      c = fmt[++i];
-    } else if (c == '-') {
-      leftalign = true;
-      c = fmt[++i];
-    }
-    if (c == '0') {
-      padding = '0';
-      c = fmt[++i];
+    for (;; c = fmt[++i]) {
+      if (c == '+')
+        sign = true;
+      else if (c == '-')
+        leftalign = true;
+      else if (c == '0')
+        padding = '0';
+      else
+        break;
     }
     if (c >= '1' && c <= '9') {
       order = c - '0';
@@ -245,17 +240,20 @@ int vfprintf(FILE *fp, const char *fmt_, va_list ap) {
         order = order * 10 + (c - '0');
     } else if (c == '*') {
       order = va_arg(ap, int);
+      if (order < 0) {
+        leftalign = true;
+        order = -order;
+      }
       c = fmt[++i];
     }
     if (c == '.') {
       c = fmt[++i];
-      if (isdigit(c)) {
-        do {
-          suborder = suborder * 10 + (c - '0');
-        } while (isdigit(c = fmt[++i]));
-      } else if (c == '*') {
+      if (c == '*') {
         suborder = va_arg(ap, int);
         c = fmt[++i];
+      } else {
+        for (suborder = 0; isdigit(c); c = fmt[++i])
+          suborder = suborder * 10 + (c - '0');
       }
     }
 
@@ -286,10 +284,8 @@ int vfprintf(FILE *fp, const char *fmt_, va_list ap) {
         }
         bool negative = x < 0;
         unsigned long long ux = negative ? -x : x;
-        if (negative || order > 0 || sign)
-          o += sprintsign(fp, negative, sign, &order);
-        char *p = snprintullong2(bufend, ux, 10, kHexDigits);
-        o += snprintstr(fp, p, order, suborder, leftalign, padding);
+        o += putinteger(fp, signstr(negative, sign), ux, 10, kHexDigits, order, suborder, leftalign,
+                        padding == '0');
       }
       break;
     case 'u':
@@ -304,10 +300,7 @@ int vfprintf(FILE *fp, const char *fmt_, va_list ap) {
           default: x = va_arg(ap, unsigned long long); break;  // case 2:
           }
         }
-        char *p = snprintullong2(bufend, x, 10, kHexDigits);
-        if (sign)
-          *(--p) = '+';
-        o += snprintstr(fp, p, order, suborder, leftalign, padding);
+        o += putinteger(fp, "", x, 10, kHexDigits, order, suborder, leftalign, padding == '0');
       }
       break;
     case 'x': case 'X':
@@ -323,17 +316,14 @@ int vfprintf(FILE *fp, const char *fmt_, va_list ap) {
           default: x = va_arg(ap, unsigned long long); break;  // case 2:
           }
         }
-        o += snprintullong(fp, x, 16, digits, order, padding);
+        o += putinteger(fp, "", x, 16, digits, order, suborder, leftalign, padding == '0');
       }
       break;
     case 'p':
       {
         void *ptr = va_arg(ap, void*);
-        char *p = snprintullong2(bufend, (uintptr_t)ptr, 16, kHexDigits);
-        p -= 2;
-        p[0] = '0';
-        p[1] = 'x';
-        o += snprintstr(fp, p, order, suborder, leftalign, padding);
+        o += putinteger(fp, "0x", (uintptr_t)ptr, 16, kHexDigits, order, suborder, leftalign,
+                        padding == '0');
       }
       break;
     case 's':
@@ -341,12 +331,15 @@ int vfprintf(FILE *fp, const char *fmt_, va_list ap) {
         const char *s = va_arg(ap, const char*);
         if (s == NULL)
           s = "(null)";
-        o += snprintstr(fp, s, order, suborder, leftalign, ' ');
+        size_t len = suborder >= 0 ? strnlen(s, suborder) : strlen(s);
+        o += putfield(fp, "", 0, s, len, order, leftalign, false);
       }
       break;
     case 'c':
-      _fputc(va_arg(ap, unsigned int), fp);
-      ++o;
+      {
+        char ch = va_arg(ap, unsigned int);
+        o += putfield(fp, "", 0, &ch, 1, order, leftalign, false);
+      }
       break;
     case '%':
       _fputc(c, fp);
-- 
2.43.0


From fe8340a6867fdabbc64d2cbb82e6b5820a48aeb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:28 +0000
Subject: [PATCH 060/162] fix: printf %f prints the exactly rounded value for
 every double and precision

---
 libsrc/stdio/vfprintf.c | 104 +++++++++++++++++++++++++++++++++++-----
 1 file changed, 91 insertions(+), 13 deletions(-)

diff --git a/libsrc/stdio/vfprintf.c b/libsrc/stdio/vfprintf.c
index 4b609a1..d061707 100644
--- a/libsrc/stdio/vfprintf.c
+++ b/libsrc/stdio/vfprintf.c
@@ -120,27 +120,105 @@ static int printnonfinite(FILE *fp, long double x, int order, bool sign, bool le
                   false);
 }
 
+// Exact decimal expansion of a double: the integer part has at most 309 digits,
+// the fraction at most 1074.
+#define DBL_UNIT        (1000000000)
+#define DBL_UNITDIGITS  (9)
+#define DBL_INTUNITS    (35)
+#define DBL_FRACUNITS   (120)
+
+static int expand_double(double x, char *digits) {
+  union { double d; unsigned long long u; } v;
+  v.d = x;
+  unsigned long long mantissa = v.u & ((1ULL << 52) - 1);
+  int e = (int)(v.u >> 52) & 0x7ff;
+  if (e != 0)
+    mantissa |= 1ULL << 52;
+  else
+    e = 1;
+  e -= 1023 + 52;
+
+  unsigned int units[DBL_INTUNITS + DBL_FRACUNITS];
+  memset(units, 0, sizeof(units));
+  units[DBL_INTUNITS - 1] = mantissa % DBL_UNIT;
+  units[DBL_INTUNITS - 2] = mantissa / DBL_UNIT;
+  for (; e > 0; ) {
+    int sh = MIN(e, 29);
+    unsigned long long carry = 0;
+    for (int i = DBL_INTUNITS; i-- > 0; ) {
+      carry += (unsigned long long)units[i] << sh;
+      units[i] = carry % DBL_UNIT;
+      carry /= DBL_UNIT;
+    }
+    e -= sh;
+  }
+  for (; e < 0; ) {
+    int sh = MIN(-e, DBL_UNITDIGITS);  // 2^9 divides 10^9.
+    unsigned int carry = 0;
+    for (int i = 0; i < DBL_INTUNITS + DBL_FRACUNITS; ++i) {
+      unsigned int rest = units[i] & ((1 << sh) - 1);
+      units[i] = (units[i] >> sh) + carry;
+      carry = (DBL_UNIT >> sh) * rest;
+    }
+    e += sh;
+  }
+
+  char *p = digits;
+  for (int i = 0; i < DBL_INTUNITS + DBL_FRACUNITS; ++i, p += DBL_UNITDIGITS) {
+    unsigned int u = units[i];
+    for (int j = DBL_UNITDIGITS; j-- > 0; u /= 10)
+      p[j] = '0' + u % 10;
+  }
+  return p - digits;
+}
+
 static int printfloat(FILE *fp, long double x, int order, int suborder, bool sign, bool leftalign,
                       char padding) {
   if (!isfinite(x))
     return printnonfinite(fp, x, order, sign, leftalign);
 
   bool neg = signbit(x);
-  if (neg)
-    x = -x;
-  int o = sprintsign(fp, neg, sign, &order);
+  if (suborder < 0)
+    suborder = 6;
 
-  unsigned long long int_part = x;
-  suborder = suborder > 0 ? suborder : 6;
-  long double one = pow10(suborder);
-  unsigned long long fraction = (x - int_part) * one + 0.5;
-  if (fraction >= one) {
-    ++int_part;
-    fraction -= one;
+  char buf[1 + (DBL_INTUNITS + DBL_FRACUNITS) * DBL_UNITDIGITS];
+  buf[0] = '0';  // For carry.
+  char *end = buf + 1 + expand_double(neg ? -x : x, &buf[1]);
+  char *point = &buf[1 + DBL_INTUNITS * DBL_UNITDIGITS];
+  if (suborder < end - point) {
+    // Round to the nearest, ties to even.
+    char *cut = point + suborder, *p = cut;
+    bool up = *p > '5';
+    if (*p == '5') {
+      while (++p < end && *p == '0')
+        ;
+      up = p < end || (cut[-1] & 1) != 0;
+    }
+    if (up) {
+      for (p = cut; *(--p) == '9'; )
+        *p = '0';
+      ++*p;
+    }
+    end = cut;
+  }
+  char *head = buf;
+  while (head < point - 1 && *head == '0')
+    ++head;
+
+  int fraclen = end - point;
+  int taillen = suborder > 0 ? 1 + suborder : 0;
+  int o = putfield(fp, signstr(neg, sign), 0, head, point - head, leftalign ? 0 : order - taillen,
+                   false, padding == '0');
+  if (suborder > 0) {
+    _fputc('.', fp);
+    fwrite(point, 1, fraclen, fp);
+    putpadding(fp, suborder - fraclen, '0');
+    o += taillen;
+  }
+  if (leftalign && o < order) {
+    putpadding(fp, order - o, ' ');
+    o = order;
   }
-  o += snprintullong(fp, int_part, 10, kHexDigits, order, padding);
-  _fputc('.', fp); ++o;
-  o += snprintullong(fp, fraction, 10, kHexDigits, suborder, '0');
   return o;
 }
 
-- 
2.43.0


From 4156aaa0cb775923d0110a8bab5af183028ccad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:42 +0000
Subject: [PATCH 061/162] fix: snprintf accepts sizes above 4 GiB

---
 libsrc/stdio/vsnprintf.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libsrc/stdio/vsnprintf.c b/libsrc/stdio/vsnprintf.c
index 9bb94e2..9b2b2e0 100644
--- a/libsrc/stdio/vsnprintf.c
+++ b/libsrc/stdio/vsnprintf.c
@@ -1,8 +1,12 @@
 #include "stdio.h"
 #include "unistd.h"
+#include "limits.h"  // UINT_MAX
 #include "stdarg.h"
 
 int vsnprintf(char *out, size_t n, const char *fmt, va_list ap) {
+  if (n > UINT_MAX)  // Capacity of the stream is unsigned int.
+    n = UINT_MAX;
+
   int result = 0;
   FILE *fp = fmemopen(out, n, "w");
   if (fp != NULL) {
-- 
2.43.0


From 383e0a4b4b651271664de29f6b5c003eebaff4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:47 +0000
Subject: [PATCH 062/162] fix: fread goes on after a short read, and signals
 EOF only at the end

---
 libsrc/stdio/_file.c | 84 ++++++++++++--------------------------------
 libsrc/stdio/_file.h |  2 --
 2 files changed, 23 insertions(+), 63 deletions(-)

diff --git a/libsrc/stdio/_file.c b/libsrc/stdio/_file.c
index eb74f5d..a375722 100644
--- a/libsrc/stdio/_file.c
+++ b/libsrc/stdio/_file.c
@@ -1,79 +1,42 @@
 #include "stdio.h"
 
+#include "stdbool.h"
 #include "stdlib.h"  // free
 #include "string.h"  // memcpy
-#include "sys/stat.h"  // fstat
 #include "unistd.h"
 
 #include "./_file.h"
 
-// Normal: if actual read size is less than required size, it means EOF.
-// Pipe:   if subscriber is faster than publisher, it happens. len == 0 means EOF.
-#define FILE_IS_END(fp, readsize)  (!((fp)->flag & FF_FIFO) || (readsize) == 0)
-
-static void _finit(FILE *fp) {
-  if ((fp->flag & FF_INITIALIZED))
-    return;
-
-  struct stat st;
-  int r = fstat(fp->fd, &st);
-  if (r == 0) {
-    switch (st.st_mode & S_IFMT) {
-    case S_IFIFO:
-    case S_IFSOCK:
-      fp->flag |= FF_FIFO;
-      break;
-    default:
-      break;
-    }
-  } else {
-    // TODO: Retry.
-  }
-  fp->flag |= FF_INITIALIZED;
-}
-
 ssize_t _fread(void *cookie, char *buf, size_t total) {
   FILE *fp = cookie;
-  _finit(fp);
   unsigned char *p = (unsigned char*)buf;
-  if (fp->rs > 0) {
-    size_t d = fp->rs - fp->rp;
-    if (total <= d) {
-      memcpy(p, &fp->rbuf[fp->rp], total);
-      fp->rp += total;
-      if (fp->rp >= fp->rs)
-        fp->rp = fp->rs = 0;
-      return total;
+  while (total > 0) {
+    if (fp->rp < fp->rs) {
+      size_t d = fp->rs - fp->rp;
+      if (d > total)
+        d = total;
+      memcpy(p, &fp->rbuf[fp->rp], d);
+      fp->rp += d;
+      p += d;
+      total -= d;
+      continue;
     }
-    memcpy(p, &fp->rbuf[fp->rp], d);
-    total -= d;
-    p += d;
-  }
 
-  if (total < fp->rcapa * 3 / 4) {
-    // Read more than requested size and store them to the buffer.
-    ssize_t len = read(fp->fd, fp->rbuf, fp->rcapa);
-    fp->rs = len;
-    size_t n = len < 0 || (size_t)len < total ? (size_t)len : total;
-    fp->rp = n;
-    if (n > 0) {
-      memcpy(p, fp->rbuf, n);
-      p += n;
-    }
-    if (len < (ssize_t)fp->rcapa && (ssize_t)n == len) {
-      if (FILE_IS_END(fp, len))
+    // Small read: Read more than requested size and store them to the buffer,
+    // otherwise read to the given buffer directly.
+    bool small = total < fp->rcapa * 3 / 4;
+    fp->rp = fp->rs = 0;
+    ssize_t len = small ? read(fp->fd, fp->rbuf, fp->rcapa) : read(fp->fd, p, total);
+    if (len <= 0) {
+      if (len == 0)
         fp->flag |= FF_EOF;
+      break;
     }
-  } else {
-    // Read to the given buffer directly.
-    ssize_t len = read(fp->fd, p, total);
-    if (len >= 0) {
+    if (small) {
+      fp->rs = len;
+    } else {
       p += len;
-      fp->rp = fp->rs = 0;
-      if ((size_t)len < total) {
-        if (FILE_IS_END(fp, len))
-          fp->flag |= FF_EOF;
-      }
+      total -= len;
     }
   }
 
@@ -83,7 +46,6 @@ ssize_t _fread(void *cookie, char *buf, size_t total) {
 
 ssize_t _fwrite(void *cookie, const char *buf, size_t size) {
   FILE *fp = cookie;
-  _finit(fp);
   if (fp->wp >= fp->wcapa && (*fp->flush)(fp) != 0)
     return EOF;
 
diff --git a/libsrc/stdio/_file.h b/libsrc/stdio/_file.h
index 20ff2c9..186d86f 100644
--- a/libsrc/stdio/_file.h
+++ b/libsrc/stdio/_file.h
@@ -8,8 +8,6 @@
 #define FF_WRITE        (1 << 2)
 #define FF_EOF          (1 << 3)
 #define FF_GROWMEM      (1 << 4)
-#define FF_FIFO         (1 << 5)
-#define FF_INITIALIZED  (1 << 15)
 
 typedef ssize_t (*cookie_read_function_t)(void *cookie, char *buf, size_t size);
 typedef ssize_t (*cookie_write_function_t)(void *cookie, const char *buf, size_t size);
-- 
2.43.0


From 2c57e155055d849d5e9e080046ce55a7c615a050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:47 +0000
Subject: [PATCH 063/162] fix: fread takes the pushed back character, and a
 zero size

---
 libsrc/stdio/fread.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/libsrc/stdio/fread.c b/libsrc/stdio/fread.c
index 67e0876..5a97680 100644
--- a/libsrc/stdio/fread.c
+++ b/libsrc/stdio/fread.c
@@ -5,6 +5,20 @@
 size_t fread(void *buffer, size_t size, size_t count, FILE *fp) {
   if (!(fp->flag & FF_READ))
     return 0;
-  ssize_t result = (fp->iof->read)(fp, buffer, size * count);
-  return result >= 0 ? result / size : 0;
+  size_t total = size * count;
+  if (total == 0)
+    return 0;
+
+  unsigned char *p = buffer;
+  if (fp->unget_char != EOF) {
+    *p++ = fp->unget_char;
+    fp->unget_char = EOF;
+    if (--total == 0)
+      return count;
+  }
+
+  ssize_t result = (fp->iof->read)(fp, (char*)p, total);
+  if (result > 0)
+    p += result;
+  return (size_t)(p - (unsigned char*)buffer) / size;
 }
-- 
2.43.0


From 9719cb6e16991db4128164686e118cf1acb8cffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:47 +0000
Subject: [PATCH 064/162] fix: fwrite with a zero size divided by zero

---
 libsrc/stdio/fwrite.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libsrc/stdio/fwrite.c b/libsrc/stdio/fwrite.c
index 29deac1..97a76d4 100644
--- a/libsrc/stdio/fwrite.c
+++ b/libsrc/stdio/fwrite.c
@@ -6,6 +6,8 @@
 size_t fwrite(const void *buffer, size_t size, size_t count, FILE *fp) {
   if (!(fp->flag & FF_WRITE))
     return 0;
+  if (size == 0)
+    return 0;
 
   ssize_t result = (fp->iof->write)(fp, buffer, size * count);
   return result >= 0 ? result / size : 0;
-- 
2.43.0


From bfac6266cbb628312385f167a64b54d64b4f7971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:47 +0000
Subject: [PATCH 065/162] fix: fputs of an empty string succeeds, so puts("")
 puts a newline

---
 libsrc/stdio/fputs.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/libsrc/stdio/fputs.c b/libsrc/stdio/fputs.c
index 0189ea1..c9fecd0 100644
--- a/libsrc/stdio/fputs.c
+++ b/libsrc/stdio/fputs.c
@@ -1,8 +1,9 @@
 #include "stdio.h"
 #include "string.h"
 
-// Result: Success => positive value, Failure => EOF
+// Result: Success => non-negative value, Failure => EOF
 int fputs(const char *s, FILE *fp) {
-  size_t result = fwrite(s, 1, strlen(s), fp);
-  return result != 0 ? result : EOF;
+  size_t len = strlen(s);
+  size_t result = fwrite(s, 1, len, fp);
+  return result == len ? 1 : EOF;
 }
-- 
2.43.0


From 78aef9979237af9daa5a11c3b73b2e822780e129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:47 +0000
Subject: [PATCH 066/162] fix: fgets with size 1 gives an empty string

---
 libsrc/stdio/fgets.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libsrc/stdio/fgets.c b/libsrc/stdio/fgets.c
index 8bfce2e..15ae562 100644
--- a/libsrc/stdio/fgets.c
+++ b/libsrc/stdio/fgets.c
@@ -11,7 +11,7 @@ char *fgets(char *s, int n, FILE *fp) {
     if (c == '\n')
       break;
   }
-  if (p == s)
+  if (p == s && n != 0)
     return NULL;
   *p = '\0';
   return s;
-- 
2.43.0


From 56c93c57245071017e76cd036d56ae3972aa9ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:47 +0000
Subject: [PATCH 067/162] fix: ungetc pushes back an unsigned char, and nothing
 for EOF

---
 libsrc/stdio/ungetc.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libsrc/stdio/ungetc.c b/libsrc/stdio/ungetc.c
index dbc8a9a..e21459b 100644
--- a/libsrc/stdio/ungetc.c
+++ b/libsrc/stdio/ungetc.c
@@ -5,7 +5,8 @@
 int ungetc(int c, FILE *fp) {
   if (!(fp->flag & FF_READ))
     return EOF;
-  fp->unget_char = c;
+  if (c == EOF)
+    return EOF;
   fp->flag &= ~FF_EOF;
-  return c;
+  return fp->unget_char = (unsigned char)c;
 }
-- 
2.43.0


From 00cd979a7bf958d356158bd56ba813aa402056ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:47 +0000
Subject: [PATCH 068/162] fix: fseek from the current position considers the
 buffered input

---
 libsrc/stdio/_file.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libsrc/stdio/_file.c b/libsrc/stdio/_file.c
index a375722..294a612 100644
--- a/libsrc/stdio/_file.c
+++ b/libsrc/stdio/_file.c
@@ -76,7 +76,10 @@ int _fflush(FILE *fp) {
 
 int _fseek(void *cookie, off_t *offset, int origin) {
   FILE *fp = cookie;
-  off_t result = lseek(fp->fd, *offset, origin);
+  off_t o = *offset;
+  if (origin == SEEK_CUR)
+    o -= (fp->rs - fp->rp) + (fp->unget_char != EOF ? 1 : 0);  // Not consumed yet.
+  off_t result = lseek(fp->fd, o, origin);
   if (result == -1)
     return -1;
   fp->flag &= ~FF_EOF;
-- 
2.43.0


From 0bbf20e67c09ee9b1af6d2b4634fd16080688bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:47 +0000
Subject: [PATCH 069/162] fix: ftell considers memory streams, append mode and
 the pushed back character

---
 libsrc/stdio/ftell.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/libsrc/stdio/ftell.c b/libsrc/stdio/ftell.c
index a7cd849..0dc853d 100644
--- a/libsrc/stdio/ftell.c
+++ b/libsrc/stdio/ftell.c
@@ -4,6 +4,18 @@
 #include "./_file.h"
 
 long ftell(FILE *fp) {
-  off_t result = lseek(fp->fd, 0, SEEK_CUR);
-  return result >= 0 ? result + fp->wp - (fp->rs - fp->rp) : result;
+  off_t result;
+  if (fp->fd < 0) {  // Memory stream.
+    result = fp->wp;
+  } else {
+    if (fflush(fp) != 0)  // The position after writing depends on the file, if it is append mode.
+      return -1;
+    result = lseek(fp->fd, 0, SEEK_CUR);
+    if (result < 0)
+      return result;
+    result -= fp->rs - fp->rp;
+  }
+  if (fp->unget_char != EOF)
+    --result;
+  return result;
 }
-- 
2.43.0


From 60c8a374bd55265065423db7145dafa8f9cb4618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:48 +0000
Subject: [PATCH 070/162] fix: fflush(NULL) flushes all streams

---
 libsrc/stdio/_fileman.h |  2 ++
 libsrc/stdio/fflush.c   | 13 +++++++++++++
 2 files changed, 15 insertions(+)

diff --git a/libsrc/stdio/_fileman.h b/libsrc/stdio/_fileman.h
index 0d60cfa..eb91895 100644
--- a/libsrc/stdio/_fileman.h
+++ b/libsrc/stdio/_fileman.h
@@ -6,3 +6,5 @@ typedef struct {
   struct FILE **opened;
   int length, capacity;
 } FILEMAN;
+
+extern FILEMAN __fileman;
diff --git a/libsrc/stdio/fflush.c b/libsrc/stdio/fflush.c
index 7e303b7..e063f23 100644
--- a/libsrc/stdio/fflush.c
+++ b/libsrc/stdio/fflush.c
@@ -1,7 +1,20 @@
 #include "stdio.h"
 
 #include "./_file.h"
+#include "./_fileman.h"
 
 int fflush(FILE *fp) {
+  if (fp == NULL) {  // Flush all streams.
+    int result = 0;
+    if (fflush(stdout) != 0)
+      result = EOF;
+    if (fflush(stderr) != 0)
+      result = EOF;
+    for (int i = 0; i < __fileman.length; ++i) {
+      if (fflush(__fileman.opened[i]) != 0)
+        result = EOF;
+    }
+    return result;
+  }
   return (fp->flush)(fp);
 }
-- 
2.43.0


From e2aa82749088327cd7a60f63eeac55baa4df787f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:48 +0000
Subject: [PATCH 071/162] fix: fclose reports the failure of writing the rest

---
 libsrc/stdio/fdopen.c | 7 ++++---
 libsrc/stdio/stdin.c  | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/libsrc/stdio/fdopen.c b/libsrc/stdio/fdopen.c
index 2d051a0..e199fbc 100644
--- a/libsrc/stdio/fdopen.c
+++ b/libsrc/stdio/fdopen.c
@@ -13,10 +13,11 @@
 static int _fclose(void *cookie) {
   FILE *fp = cookie;
   _remove_opened_file(fp);
-  (*fp->flush)(fp);
-  close(fp->fd);
+  int result = (*fp->flush)(fp);
+  if (close(fp->fd) != 0)
+    result = EOF;
   free(fp);
-  return 0;
+  return result;
 }
 
 FILE *fdopen(int fd, const char *mode) {
diff --git a/libsrc/stdio/stdin.c b/libsrc/stdio/stdin.c
index 6690272..d2a24ad 100644
--- a/libsrc/stdio/stdin.c
+++ b/libsrc/stdio/stdin.c
@@ -20,10 +20,11 @@ typedef struct OUTFILE {
 static int _fclose_std(void *cookie) {
   FILE *fp = cookie;
   // _remove_opened_file(fp);
-  (*fp->flush)(fp);
-  close(fp->fd);
+  int result = (*fp->flush)(fp);
+  if (close(fp->fd) != 0)
+    result = EOF;
   // free(fp);
-  return 0;
+  return result;
 }
 
 static const cookie_io_functions_t kIof = {
-- 
2.43.0


From 1c98f2ab526623251673a1c2703945b1b0dac153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:48 +0000
Subject: [PATCH 072/162] fix: memory streams keep the length of the contents
 apart from the position

---
 libsrc/stdio/fmemopen.c       | 47 +++++++++++++++++------------------
 libsrc/stdio/open_memstream.c | 16 +++++++-----
 2 files changed, 33 insertions(+), 30 deletions(-)

diff --git a/libsrc/stdio/fmemopen.c b/libsrc/stdio/fmemopen.c
index d962ffe..86d9185 100644
--- a/libsrc/stdio/fmemopen.c
+++ b/libsrc/stdio/fmemopen.c
@@ -24,12 +24,10 @@ static bool _growmem(FILE *fp) {
 static ssize_t _memread(void *cookie, char *buf, size_t size) {
   FILE *fp = cookie;
   unsigned char *p = (unsigned char*)buf;
-  unsigned int sz = fp->wcapa - fp->wp;
-  if (sz <= 0) {
+  unsigned int sz = fp->wp < fp->rs ? fp->rs - fp->wp : 0;
+  if (size > sz)
     fp->flag |= FF_EOF;
-    return 0;
-  }
-  if (sz > size)
+  else
     sz = size;
 
   memcpy(p, &fp->wbuf[fp->wp], sz);
@@ -40,39 +38,39 @@ static ssize_t _memread(void *cookie, char *buf, size_t size) {
 static ssize_t _memwrite(void *cookie, const char *buf, size_t size) {
   FILE *fp = cookie;
   for (size_t i = 0; i < size; ++i) {
-    if (fp->wp + 1 >= fp->wcapa &&
-        !((fp->flag & FF_GROWMEM) && _growmem(fp))) {
-      break;
+    while (fp->wp + 1 >= fp->wcapa) {
+      if (!((fp->flag & FF_GROWMEM) && _growmem(fp)))
+        return size;
     }
+    while (fp->rs < fp->wp)
+      fp->wbuf[fp->rs++] = '\0';
     fp->wbuf[fp->wp++] = *buf++;
+    if (fp->rs < fp->wp)
+      fp->rs = fp->wp;
   }
   return size;  // Returns size even if buffer filled.
 }
 
 static int _memflush(FILE *fp) {
-  unsigned int wp = fp->wp;
-  if (wp < fp->wcapa) {
-    fp->wbuf[wp] = '\0';
-  }
+  if ((fp->flag & FF_WRITE) && fp->rs < fp->wcapa)
+    fp->wbuf[fp->rs] = '\0';
   return 0;
 }
 
 static int _memseek(void *cookie, off_t *offset, int origin) {
   FILE *fp = cookie;
   (*fp->flush)(fp);
+  off_t o = *offset;
   switch (origin) {
-  case SEEK_SET:
-    fp->wp = *offset;
-    break;
-  case SEEK_CUR:
-    // TODO: Check range.
-    fp->wp += *offset;
-    break;
-  case SEEK_END:
-    // TODO: Check range.
-    fp->wp = fp->wcapa + *offset;
-    break;
+  case SEEK_SET:  break;
+  case SEEK_CUR:  o += (off_t)fp->wp - (fp->unget_char != EOF ? 1 : 0); break;
+  case SEEK_END:  o += fp->rs; break;
+  default: return -1;
   }
+  if (o < 0 || (!(fp->flag & FF_GROWMEM) && o > (off_t)fp->wcapa))
+    return -1;
+  fp->wp = *offset = o;
+  fp->flag &= ~FF_EOF;
   fp->unget_char = EOF;
   return 0;
 }
@@ -96,7 +94,7 @@ void _fmemopen2(void *buf, size_t size, const char *mode, FILE *fp) {
   fp->iof = &kMemVTable;
   fp->flush = _memflush;
   fp->fd = -1;
-  fp->rp = fp->rs = 0;
+  fp->rp = 0;
   fp->wp = 0;
   fp->wbuf = buf;
   fp->wcapa = size;
@@ -113,6 +111,7 @@ void _fmemopen2(void *buf, size_t size, const char *mode, FILE *fp) {
   if (strchr(mode, 'b') != NULL)
     flag |= FF_BINARY;
   fp->flag = flag;
+  fp->rs = (oflag & O_CREAT) ? 0 : size;  // Length of contents.
 
   _add_opened_file(fp);
 }
diff --git a/libsrc/stdio/open_memstream.c b/libsrc/stdio/open_memstream.c
index 3572977..f1b40c9 100644
--- a/libsrc/stdio/open_memstream.c
+++ b/libsrc/stdio/open_memstream.c
@@ -12,26 +12,30 @@ typedef struct MEMFILE {
 } MEMFILE;
 
 static int _memflush2(FILE *fp) {
-  unsigned int wp = fp->wp;
-  if (wp < fp->wcapa) {
-    fp->wbuf[wp] = '\0';
-  }
+  if (fp->rs < fp->wcapa)
+    fp->wbuf[fp->rs] = '\0';
   MEMFILE *memfp = (MEMFILE*)fp;
   if (memfp->pmem != NULL)
     *memfp->pmem = (char*)fp->wbuf;
   if (memfp->psize != NULL)
-    *memfp->psize = wp;
+    *memfp->psize = fp->wp < fp->rs ? fp->wp : fp->rs;
   return 0;
 }
 
 FILE *open_memstream(char **ptr, size_t *sizeloc) {
   MEMFILE *fp = calloc(1, sizeof(*fp));
   if (fp != NULL) {
-    _fmemopen2(NULL, 0, "w", &fp->file);
+    char *mem = malloc(1);
+    if (mem == NULL) {
+      free(fp);
+      return NULL;
+    }
+    _fmemopen2(mem, 1, "w", &fp->file);
     fp->file.flush = _memflush2;
     fp->file.flag |= FF_GROWMEM;
     fp->pmem = ptr;
     fp->psize = sizeloc;
+    fflush(&fp->file);
   }
   return &fp->file;
 }
-- 
2.43.0


From 07c96312ef2c47e243e5640a58204a7ece9f8aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:48 +0000
Subject: [PATCH 073/162] fix: open in append mode on wasm

---
 libsrc/_wasm/unistd/open.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libsrc/_wasm/unistd/open.c b/libsrc/_wasm/unistd/open.c
index bed3f42..a799529 100644
--- a/libsrc/_wasm/unistd/open.c
+++ b/libsrc/_wasm/unistd/open.c
@@ -32,6 +32,8 @@ int open(const char *fn, int flag, ...) {
       oflags |= OFLAGS_CREAT;
     if (flag & O_TRUNC)
       oflags |= OFLAGS_TRUNC;
+    if (flag & O_APPEND)
+      fdflags |= FDFLAGS_APPEND;
   }
 
   // Search from preopens
-- 
2.43.0


From 3b199527358d33f173541dbe669c83c06f1ff345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:48 +0000
Subject: [PATCH 074/162] fix: lseek on wasm receives a 64-bit position

---
 libsrc/_wasm/unistd/lseek.c | 2 +-
 libsrc/_wasm/wasi.h         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libsrc/_wasm/unistd/lseek.c b/libsrc/_wasm/unistd/lseek.c
index f47b385..6f37d7c 100644
--- a/libsrc/_wasm/unistd/lseek.c
+++ b/libsrc/_wasm/unistd/lseek.c
@@ -3,7 +3,7 @@
 #include "../wasi.h"
 
 off_t lseek(int fd, off_t offset, int whence) {
-  size_t size;
+  uint64_t size;
   int result = fd_seek(fd, offset, whence, &size);
   if (result == 0)
     return size;
diff --git a/libsrc/_wasm/wasi.h b/libsrc/_wasm/wasi.h
index 5e21730..07a842c 100644
--- a/libsrc/_wasm/wasi.h
+++ b/libsrc/_wasm/wasi.h
@@ -118,7 +118,7 @@ WASI_MODULE int path_filestat_get(int fd, int flags, const char *path, size_t pa
 WASI_MODULE int fd_read(int fd, const void *iov, int count, size_t *out);
 WASI_MODULE int fd_write(int fd, const void *iov, int count, size_t *out);
 WASI_MODULE int fd_close(int fd);
-WASI_MODULE int fd_seek(int fd, int64_t offset, int whence, size_t *psize);
+WASI_MODULE int fd_seek(int fd, int64_t offset, int whence, uint64_t *psize);
 WASI_MODULE int fd_filestat_get(int fd, Filestat *out);
 
 WASI_MODULE int clock_time_get(int clockid, uint64_t precision, uint64_t *out);
-- 
2.43.0


From 7e550e12e63a219048c2eca01005aa5661bbf0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:13 +0000
Subject: [PATCH 075/162] fix: functions referred from an emitted function are
 emitted

---
 src/cc/frontend/fe_misc.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index d53e599..9e8017e 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -607,7 +607,8 @@ void propagate_var_used(void) {
             !table_try_get(func->attributes, destructor_name, NULL)))) {
         if (!(varinfo->storage & VS_INLINE))
           table_put(&unused, varinfo->ident->ident, varinfo);
-        continue;
+        if (!(varinfo->storage & VS_REF_TAKEN))  // Otherwise it is emitted, so its references are needed.
+          continue;
       }
     } else {
       if (varinfo->storage & (VS_STATIC | VS_EXTERN | VS_ENUM_MEMBER)) {
-- 
2.43.0


From de3f58a9eb5f2272aed08d96c361730475578898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:28 +0000
Subject: [PATCH 076/162] fix: atexit accepts 32 functions, and ones registered
 while exiting

---
 libsrc/stdlib/__cxa_atexit.c | 8 ++++----
 libsrc/stdlib/atexit.c       | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/libsrc/stdlib/__cxa_atexit.c b/libsrc/stdlib/__cxa_atexit.c
index aab121a..3dada99 100644
--- a/libsrc/stdlib/__cxa_atexit.c
+++ b/libsrc/stdlib/__cxa_atexit.c
@@ -1,7 +1,7 @@
 #include "stdlib.h"
 #include "_exit.h"
 
-#define MAX  (8)
+#define MAX  (32)
 
 typedef struct {
   void (*dtor)(void*);
@@ -25,9 +25,9 @@ int __cxa_atexit(void (*func)(void*), void *arg, void *d) {
 }
 
 static void call_cxa_atexit_funcs(void) {
-  for (CxaAtexitBuf *p = &buf[count]; p > buf; ) {
-    --p;
-    (*p->dtor)(p->arg);
+  while (count > 0) {
+    CxaAtexitBuf b = buf[--count];  // `dtor` might call `__cxa_atexit`.
+    (*b.dtor)(b.arg);
   }
 }
 
diff --git a/libsrc/stdlib/atexit.c b/libsrc/stdlib/atexit.c
index 8bdc99c..4d91740 100644
--- a/libsrc/stdlib/atexit.c
+++ b/libsrc/stdlib/atexit.c
@@ -1,7 +1,7 @@
 #include "stdlib.h"
 #include "_exit.h"
 
-#define MAX  (8)
+#define MAX  (32)
 
 typedef void (*AtexitFunc)(void);
 
@@ -16,9 +16,9 @@ int atexit(void (*func)(void)) {
 }
 
 static void call_atexit_funcs(void) {
-  for (AtexitFunc *p = &buf[count]; p > buf; ) {
-    --p;
-    (*p)();
+  while (count > 0) {
+    AtexitFunc func = buf[--count];  // `func` might call `atexit`.
+    (*func)();
   }
 }
 
-- 
2.43.0


From 64aff923124c5032ee6e6c12224649bc2c8184b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:00 +0000
Subject: [PATCH 077/162] fix: wasm libraries are initialized before the
 objects which use them

---
 src/wcc/wasm_linker.c | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/wcc/wasm_linker.c b/src/wcc/wasm_linker.c
index bb49804..c5a63ad 100644
--- a/src/wcc/wasm_linker.c
+++ b/src/wcc/wasm_linker.c
@@ -794,26 +794,26 @@ static void generate_init_funcs(WasmLinker *linker) {
   if (strcmp(generated->filename, LINKER_GENERATED_FILENAME) != 0)
     return;
 
+  // Initialize libraries first: objects might use them in their constructors and destructors.
   Vector *init_funcs = new_vector();
-  for (int i = 0; i < linker->files->len; ++i) {
+  for (int i = linker->files->len; --i >= 0; ) {
     File *file = linker->files->data[i];
-    switch (file->kind) {
-    case FK_WASMOBJ:
-      {
-        WasmObj *wasmobj = file->wasmobj;
-        if (wasmobj->linking.init_funcs != NULL) {
-          vec_concat(init_funcs, wasmobj->linking.init_funcs);
-        }
+    if (file->kind != FK_ARCHIVE)
+      continue;
+    FOREACH_FILE_ARCONTENT(file->archive, content, {
+      WasmObj *wasmobj = content->obj;
+      if (wasmobj->linking.init_funcs != NULL) {
+        vec_concat(init_funcs, wasmobj->linking.init_funcs);
       }
-      break;
-    case FK_ARCHIVE:
-      FOREACH_FILE_ARCONTENT(file->archive, content, {
-        WasmObj *wasmobj = content->obj;
-        if (wasmobj->linking.init_funcs != NULL) {
-          vec_concat(init_funcs, wasmobj->linking.init_funcs);
-        }
-      });
-      break;
+    });
+  }
+  for (int i = 0; i < linker->files->len; ++i) {
+    File *file = linker->files->data[i];
+    if (file->kind != FK_WASMOBJ)
+      continue;
+    WasmObj *wasmobj = file->wasmobj;
+    if (wasmobj->linking.init_funcs != NULL) {
+      vec_concat(init_funcs, wasmobj->linking.init_funcs);
     }
   }
 
-- 
2.43.0


From a3e8643ad4afe6c368d686e098b3c1d458c16b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:29 +0000
Subject: [PATCH 078/162] fix: functions registered by atexit run before
 destructors on wasm

---
 libsrc/stdlib/atexit.c | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/libsrc/stdlib/atexit.c b/libsrc/stdlib/atexit.c
index 4d91740..fbaf4ad 100644
--- a/libsrc/stdlib/atexit.c
+++ b/libsrc/stdlib/atexit.c
@@ -8,13 +8,6 @@ typedef void (*AtexitFunc)(void);
 static AtexitFunc buf[MAX];
 static int count;
 
-int atexit(void (*func)(void)) {
-  if (count >= MAX)
-    return 1;
-  buf[count++] = func;
-  return 0;
-}
-
 static void call_atexit_funcs(void) {
   while (count > 0) {
     AtexitFunc func = buf[--count];  // `func` might call `atexit`.
@@ -22,9 +15,17 @@ static void call_atexit_funcs(void) {
   }
 }
 
-__attribute__((constructor))
-static void register_atexit(void) {
-  static OnExitChain chain = {NULL, call_atexit_funcs};
-  chain.next = __on_exit_chain;
-  __on_exit_chain = &chain;
+int atexit(void (*func)(void)) {
+  // Put on top of the chain at the first call, to be called before destructors.
+  static OnExitChain chain;
+  if (chain.func == NULL) {
+    chain.func = call_atexit_funcs;
+    chain.next = __on_exit_chain;
+    __on_exit_chain = &chain;
+  }
+
+  if (count >= MAX)
+    return 1;
+  buf[count++] = func;
+  return 0;
 }
-- 
2.43.0


From 466ece4387466b251251ca8681a07be163a106e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:55 +0000
Subject: [PATCH 079/162] fix: typedef in an inner scope hides the outer one

---
 src/cc/frontend/parser.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/cc/frontend/parser.c b/src/cc/frontend/parser.c
index 740c292..a64dc3e 100644
--- a/src/cc/frontend/parser.c
+++ b/src/cc/frontend/parser.c
@@ -153,18 +153,17 @@ static void def_type(Type *type, Token *ident) {
     if (same_type(type, defined))
       return;
     parse_error(PE_NOFATAL, ident, "Conflict typedef");
+    return;
   } else if (scope_find(curscope, ident->ident, &scope) != NULL && scope == curscope) {
     parse_error(PE_NOFATAL, ident, "Conflict typedef with variable");
     return;
   }
 
-  if (defined == NULL || (type->kind == TY_STRUCT && type->struct_.info != NULL)) {
-    if (type->kind == TY_ARRAY) {
-      if (!ensure_struct(type, ident, curscope))
-        return;
-    }
-    add_typedef(curscope, name, type);
+  if (type->kind == TY_ARRAY) {
+    if (!ensure_struct(type, ident, curscope))
+      return;
   }
+  add_typedef(curscope, name, type);
 }
 
 static Vector *parse_vardecl_cont(Type *rawType, Type *type, int storage, Token *ident) {
-- 
2.43.0


From d1d603645e9e5162ed06f187325f18efd33cc89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:14 +0000
Subject: [PATCH 080/162] fix: enum tags and members in an inner scope hide the
 outer ones

---
 src/cc/frontend/parser_type.c | 7 ++++---
 src/cc/frontend/var.c         | 7 +++++--
 src/cc/frontend/var.h         | 2 +-
 3 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/cc/frontend/parser_type.c b/src/cc/frontend/parser_type.c
index 701fb40..6513424 100644
--- a/src/cc/frontend/parser_type.c
+++ b/src/cc/frontend/parser_type.c
@@ -28,7 +28,7 @@ static void parse_enum_members(Type *type) {
       value = expr->fixnum;
     }
 
-    if (scope_find(global_scope, ident->ident, NULL) != NULL) {
+    if (curscope->vars != NULL && var_find(curscope->vars, ident->ident) >= 0) {
       parse_error(PE_NOFATAL, ident, "`%.*s' is already defined", NAMES(ident->ident));
     } else {
       define_enum_member(ctype, ident, value);
@@ -46,9 +46,10 @@ static void parse_enum_members(Type *type) {
 
 static Type *parse_enum(void) {
   Token *ident = match(TK_IDENT);
-  Type *type = ident != NULL ? find_enum(curscope, ident->ident) : NULL;
+  Scope *scope = NULL;
+  Type *type = ident != NULL ? find_enum(curscope, ident->ident, &scope) : NULL;
   if (match(TK_LBRACE)) {
-    if (type != NULL)
+    if (type != NULL && scope == curscope)
       parse_error(PE_FATAL, ident, "Duplicate enum type");
     type = define_enum(curscope, ident != NULL ? ident->ident : NULL);
     parse_enum_members(type);
diff --git a/src/cc/frontend/var.c b/src/cc/frontend/var.c
index e1b64fb..d4ac286 100644
--- a/src/cc/frontend/var.c
+++ b/src/cc/frontend/var.c
@@ -163,13 +163,16 @@ bool add_typedef(Scope *scope, const Name *name, Type *type) {
   return true;
 }
 
-Type *find_enum(Scope *scope, const Name *name) {
+Type *find_enum(Scope *scope, const Name *name, Scope **pscope) {
   for (; scope != NULL; scope = scope->parent) {
     if (scope->enum_table == NULL)
       continue;
     Type *type = table_get(scope->enum_table, name);
-    if (type != NULL)
+    if (type != NULL) {
+      if (pscope != NULL)
+        *pscope = scope;
       return type;
+    }
   }
   return NULL;
 }
diff --git a/src/cc/frontend/var.h b/src/cc/frontend/var.h
index 1056f70..5241574 100644
--- a/src/cc/frontend/var.h
+++ b/src/cc/frontend/var.h
@@ -94,5 +94,5 @@ void define_struct(Scope *scope, const Name *name, StructInfo *sinfo);
 Type *find_typedef(Scope *scope, const Name *name, Scope **pscope);
 bool add_typedef(Scope *scope, const Name *name, Type *type);
 
-Type *find_enum(Scope *scope, const Name *name);
+Type *find_enum(Scope *scope, const Name *name, Scope **pscope);
 Type *define_enum(Scope *scope, const Name *name);
-- 
2.43.0


From ffb6dbfdf5611e422a27122d2dacd3ea8057c5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:38 +0000
Subject: [PATCH 081/162] fix: redeclaration of an initialized variable keeps
 its initializer

---
 src/cc/frontend/fe_misc.c | 4 ++--
 src/cc/frontend/parser.c  | 9 ++++++++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index 9e8017e..03d9f88 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -148,8 +148,8 @@ VarInfo *find_var_from_scope(Scope *scope, const Token *ident, Type *type, int s
       } else if (!(storage & VS_EXTERN)) {
         if (varinfo->storage & VS_EXTERN)
           varinfo->storage &= ~VS_EXTERN;
-        else if (is_global_scope(scope) && varinfo->global.init == NULL)
-          ;  // Ignore variable duplication if predecessor doesn't have initializer.
+        else if (is_global_scope(scope) && !(varinfo->storage & VS_ENUM_MEMBER))
+          ;  // Ignore variable duplication, duplicate initializers are checked later.
         else
           parse_error(PE_NOFATAL, ident, "`%.*s' already defined", NAMES(name));
       }
diff --git a/src/cc/frontend/parser.c b/src/cc/frontend/parser.c
index a64dc3e..f001e9b 100644
--- a/src/cc/frontend/parser.c
+++ b/src/cc/frontend/parser.c
@@ -962,7 +962,14 @@ static void parse_global_var_decl(Type *rawtype, int storage, Type *type, Token
         }
 
         if (ident != NULL) {
-          varinfo->global.init = check_vardecl(&type, ident, storage, init);
+          if (init != NULL && varinfo->global.init != NULL)
+            parse_error(PE_NOFATAL, ident, "`%.*s' already defined", NAMES(ident->ident));
+          if (init == NULL && type->kind == TY_ARRAY && type->pa.length == LEN_UND &&
+              varinfo->type->kind == TY_ARRAY)
+            type = varinfo->type;  // Length is given by the previous declaration.
+          init = check_vardecl(&type, ident, storage, init);
+          if (init != NULL)  // Otherwise keep the initializer of the previous declaration.
+            varinfo->global.init = init;
           varinfo->type = type;  // type might be changed.
         }
         curvarinfo = NULL;
-- 
2.43.0


From fcc022d401cb27e5d26e063f1fe928caf9d3e772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:53 +0000
Subject: [PATCH 082/162] fix: redeclaration in a block of a variable without
 linkage is an error

---
 src/cc/frontend/fe_misc.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index 03d9f88..804374f 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -145,10 +145,14 @@ VarInfo *find_var_from_scope(Scope *scope, const Token *ident, Type *type, int s
       VarInfo *varinfo = scope->vars->data[idx];
       if (!same_type(type, varinfo->type)) {
         parse_error(PE_NOFATAL, ident, "`%.*s' type conflict", NAMES(name));
+      } else if (!is_global_scope(scope)) {
+        // In a block, only declarations with linkage can be repeated.
+        if (type->kind != TY_FUNC && !(varinfo->storage & storage & VS_EXTERN))
+          parse_error(PE_NOFATAL, ident, "`%.*s' already defined", NAMES(name));
       } else if (!(storage & VS_EXTERN)) {
         if (varinfo->storage & VS_EXTERN)
           varinfo->storage &= ~VS_EXTERN;
-        else if (is_global_scope(scope) && !(varinfo->storage & VS_ENUM_MEMBER))
+        else if (!(varinfo->storage & VS_ENUM_MEMBER))
           ;  // Ignore variable duplication, duplicate initializers are checked later.
         else
           parse_error(PE_NOFATAL, ident, "`%.*s' already defined", NAMES(name));
-- 
2.43.0


From 06c351e0b2629fcc1802e51bbf85569b34c801fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:09 +0000
Subject: [PATCH 083/162] fix: static variable referred through extern
 declaration in a block is emitted

---
 src/cc/frontend/fe_misc.c | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index 804374f..689644d 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -547,17 +547,24 @@ static void mark_var_used_sub(Expr *expr, bool for_func) {
       Scope *scope = NULL;
       VarInfo *varinfo = scope_find(expr->var.scope, expr->var.name, &scope);
       assert(varinfo != NULL);
-      if (is_global_scope(scope)) {
-        gvarinfo = varinfo;
-
-        const Type *type = varinfo->type;
-        if (type->kind == TY_FUNC && !for_func) {
-          varinfo->storage |= VS_REF_TAKEN;
-        }
-      } else {
+      if (!is_global_scope(scope)) {
         varinfo->storage |= VS_USED;
-        if (varinfo->storage & VS_STATIC)
+        if (varinfo->storage & VS_STATIC) {
           gvarinfo = varinfo->static_.svar;
+          break;
+        }
+        if (!(varinfo->storage & VS_EXTERN) && varinfo->type->kind != TY_FUNC)
+          break;
+        // Declared in a block, but refers the global one.
+        varinfo = scope_find(global_scope, expr->var.name, NULL);
+        if (varinfo == NULL)
+          break;
+      }
+      gvarinfo = varinfo;
+
+      const Type *type = varinfo->type;
+      if (type->kind == TY_FUNC && !for_func) {
+        varinfo->storage |= VS_REF_TAKEN;
       }
     }
     break;
-- 
2.43.0


From 95c18f7340b91ca70ebbe588b851cca4123931ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:16 +0000
Subject: [PATCH 084/162] fix: incomplete struct denotes the one which is
 declared in its scope

---
 src/cc/frontend/fe_misc.c     | 11 +++++------
 src/cc/frontend/parser_type.c | 28 ++++++++++++++++++----------
 src/cc/frontend/type.h        |  2 +-
 src/cc/frontend/var.c         |  8 ++++++++
 src/cc/frontend/var.h         |  1 +
 5 files changed, 33 insertions(+), 17 deletions(-)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index 689644d..0cf6da8 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -247,16 +247,15 @@ bool ensure_struct(Type *type, const Token *token, Scope *scope) {
   case TY_STRUCT:
     {
       if (type->struct_.info == NULL) {
-        StructInfo *sinfo = find_struct(scope, type->struct_.name, NULL);
-        if (sinfo == NULL) {
-          parse_error(PE_NOFATAL, token, "Imcomplete struct: `%.*s'", NAMES(type->struct_.name));
-          return false;
-        }
-        type->struct_.info = sinfo;
+        type->struct_.info = find_struct(scope, type->struct_.name, NULL);
       }
 
       // Recursively.
       StructInfo *sinfo = type->struct_.info;
+      if (sinfo == NULL || sinfo->size < 0) {
+        parse_error(PE_NOFATAL, token, "Imcomplete struct: `%.*s'", NAMES(type->struct_.name));
+        return false;
+      }
       for (int i = 0; i < sinfo->member_count; ++i) {
         MemberInfo *minfo = &sinfo->members[i];
         if (minfo->type->kind == TY_STRUCT &&
diff --git a/src/cc/frontend/parser_type.c b/src/cc/frontend/parser_type.c
index 6513424..274cb7a 100644
--- a/src/cc/frontend/parser_type.c
+++ b/src/cc/frontend/parser_type.c
@@ -294,22 +294,30 @@ Type *parse_raw_type(int *pstorage) {
 
         StructInfo *sinfo = NULL;
         if (match(TK_LBRACE)) {  // Definition
-          sinfo = parse_struct(is_union);
-          if (name != NULL) {
+          if (name == NULL) {
+            sinfo = parse_struct(is_union);
+          } else {
             Scope *scope;
-            StructInfo *exist = find_struct(curscope, name, &scope);
-            if (exist != NULL && scope == curscope)
+            sinfo = find_struct(curscope, name, &scope);
+            if (sinfo == NULL || scope != curscope)
+              sinfo = declare_struct(curscope, name, is_union);
+            else if (sinfo->size >= 0 || sinfo->is_union != is_union)
               parse_error(PE_NOFATAL, ident, "`%.*s' already defined", NAMES(name));
+            // Complete the declared one, which might be already referred.
+            StructInfo *def = parse_struct(is_union);
+            if (sinfo->size < 0)
+              *sinfo = *def;
             else
-              define_struct(curscope, name, sinfo);
+              sinfo = def;
           }
         } else {
           if (name != NULL) {
-            sinfo = find_struct(curscope, name, NULL);
-            if (sinfo != NULL) {
-              if (sinfo->is_union != is_union)
-                parse_error(PE_NOFATAL, tok, "Wrong tag for `%.*s'", NAMES(name));
-            }
+            Scope *scope;
+            sinfo = find_struct(curscope, name, &scope);
+            if (sinfo == NULL || (scope != curscope && fetch_token()->kind == TK_SEMICOL))
+              sinfo = declare_struct(curscope, name, is_union);
+            else if (sinfo->is_union != is_union)
+              parse_error(PE_NOFATAL, tok, "Wrong tag for `%.*s'", NAMES(name));
           }
         }
 
diff --git a/src/cc/frontend/type.h b/src/cc/frontend/type.h
index 8208ddf..3eb0818 100644
--- a/src/cc/frontend/type.h
+++ b/src/cc/frontend/type.h
@@ -68,7 +68,7 @@ typedef struct MemberInfo {
 
 typedef struct StructInfo {
   MemberInfo *members;
-  ssize_t size;
+  ssize_t size;  // Negative: incomplete.
   int member_count;
   size_t align;
   bool is_union;
diff --git a/src/cc/frontend/var.c b/src/cc/frontend/var.c
index d4ac286..510b7a2 100644
--- a/src/cc/frontend/var.c
+++ b/src/cc/frontend/var.c
@@ -130,6 +130,14 @@ StructInfo *find_struct(Scope *scope, const Name *name, Scope **pscope) {
   return NULL;
 }
 
+StructInfo *declare_struct(Scope *scope, const Name *name, bool is_union) {
+  StructInfo *sinfo = calloc_or_die(sizeof(*sinfo));
+  sinfo->size = -1;  // Incomplete.
+  sinfo->is_union = is_union;
+  define_struct(scope, name, sinfo);
+  return sinfo;
+}
+
 void define_struct(Scope *scope, const Name *name, StructInfo *sinfo) {
   if (scope->struct_table == NULL)
     scope->struct_table = alloc_table();
diff --git a/src/cc/frontend/var.h b/src/cc/frontend/var.h
index 5241574..00c8fdb 100644
--- a/src/cc/frontend/var.h
+++ b/src/cc/frontend/var.h
@@ -89,6 +89,7 @@ VarInfo *scope_find(Scope *scope, const Name *name, Scope **pscope);
 VarInfo *scope_add(Scope *scope, const Token *name, Type *type, int storage);
 
 StructInfo *find_struct(Scope *scope, const Name *name, Scope **pscope);
+StructInfo *declare_struct(Scope *scope, const Name *name, bool is_union);
 void define_struct(Scope *scope, const Name *name, StructInfo *sinfo);
 
 Type *find_typedef(Scope *scope, const Name *name, Scope **pscope);
-- 
2.43.0


From de51de96d3636b2e3e9b6326d07fc5c110aca093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:10 +0000
Subject: [PATCH 085/162] fix: enum and struct tags share one name space

---
 src/cc/frontend/parser_type.c | 20 +++++++++----------
 src/cc/frontend/var.c         | 36 +++++++++++++++++------------------
 2 files changed, 28 insertions(+), 28 deletions(-)

diff --git a/src/cc/frontend/parser_type.c b/src/cc/frontend/parser_type.c
index 274cb7a..a61525b 100644
--- a/src/cc/frontend/parser_type.c
+++ b/src/cc/frontend/parser_type.c
@@ -49,7 +49,7 @@ static Type *parse_enum(void) {
   Scope *scope = NULL;
   Type *type = ident != NULL ? find_enum(curscope, ident->ident, &scope) : NULL;
   if (match(TK_LBRACE)) {
-    if (type != NULL && scope == curscope)
+    if (ident != NULL && scope == curscope)
       parse_error(PE_FATAL, ident, "Duplicate enum type");
     type = define_enum(curscope, ident != NULL ? ident->ident : NULL);
     parse_enum_members(type);
@@ -299,24 +299,24 @@ Type *parse_raw_type(int *pstorage) {
           } else {
             Scope *scope;
             sinfo = find_struct(curscope, name, &scope);
-            if (sinfo == NULL || scope != curscope)
-              sinfo = declare_struct(curscope, name, is_union);
-            else if (sinfo->size >= 0 || sinfo->is_union != is_union)
+            if (scope == curscope &&
+                (sinfo == NULL || sinfo->size >= 0 || sinfo->is_union != is_union)) {
               parse_error(PE_NOFATAL, ident, "`%.*s' already defined", NAMES(name));
+              sinfo = NULL;
+            }
+            if (scope != curscope || sinfo == NULL)
+              sinfo = declare_struct(curscope, name, is_union);
             // Complete the declared one, which might be already referred.
             StructInfo *def = parse_struct(is_union);
-            if (sinfo->size < 0)
-              *sinfo = *def;
-            else
-              sinfo = def;
+            *sinfo = *def;
           }
         } else {
           if (name != NULL) {
             Scope *scope;
             sinfo = find_struct(curscope, name, &scope);
-            if (sinfo == NULL || (scope != curscope && fetch_token()->kind == TK_SEMICOL))
+            if (scope == NULL || (scope != curscope && fetch_token()->kind == TK_SEMICOL))
               sinfo = declare_struct(curscope, name, is_union);
-            else if (sinfo->is_union != is_union)
+            else if (sinfo == NULL || sinfo->is_union != is_union)
               parse_error(PE_NOFATAL, tok, "Wrong tag for `%.*s'", NAMES(name));
           }
         }
diff --git a/src/cc/frontend/var.c b/src/cc/frontend/var.c
index 510b7a2..d534cbd 100644
--- a/src/cc/frontend/var.c
+++ b/src/cc/frontend/var.c
@@ -117,17 +117,17 @@ VarInfo *scope_add(Scope *scope, const Token *name, Type *type, int storage) {
 }
 
 StructInfo *find_struct(Scope *scope, const Name *name, Scope **pscope) {
+  StructInfo *sinfo = NULL;
   for (; scope != NULL; scope = scope->parent) {
-    if (scope->struct_table == NULL)
-      continue;
-    StructInfo *sinfo = table_get(scope->struct_table, name);
-    if (sinfo != NULL) {
-      if (pscope != NULL)
-        *pscope = scope;
-      return sinfo;
-    }
+    if (scope->struct_table != NULL && (sinfo = table_get(scope->struct_table, name)) != NULL)
+      break;
+    // Hidden by enum? (Tags share one name space)
+    if (scope->enum_table != NULL && table_try_get(scope->enum_table, name, NULL))
+      break;
   }
-  return NULL;
+  if (pscope != NULL)
+    *pscope = scope;
+  return sinfo;
 }
 
 StructInfo *declare_struct(Scope *scope, const Name *name, bool is_union) {
@@ -172,17 +172,17 @@ bool add_typedef(Scope *scope, const Name *name, Type *type) {
 }
 
 Type *find_enum(Scope *scope, const Name *name, Scope **pscope) {
+  Type *type = NULL;
   for (; scope != NULL; scope = scope->parent) {
-    if (scope->enum_table == NULL)
-      continue;
-    Type *type = table_get(scope->enum_table, name);
-    if (type != NULL) {
-      if (pscope != NULL)
-        *pscope = scope;
-      return type;
-    }
+    if (scope->enum_table != NULL && (type = table_get(scope->enum_table, name)) != NULL)
+      break;
+    // Hidden by struct? (Tags share one name space)
+    if (scope->struct_table != NULL && table_try_get(scope->struct_table, name, NULL))
+      break;
   }
-  return NULL;
+  if (pscope != NULL)
+    *pscope = scope;
+  return type;
 }
 
 Type *define_enum(Scope *scope, const Name *name) {
-- 
2.43.0


From cce16f81fc86ed63371151625d4ebd55a610cfcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:41 +0000
Subject: [PATCH 086/162] fix: redeclaration error of a static local variable
 does not abort

---
 src/cc/frontend/initializer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cc/frontend/initializer.c b/src/cc/frontend/initializer.c
index 637b947..2d0b049 100644
--- a/src/cc/frontend/initializer.c
+++ b/src/cc/frontend/initializer.c
@@ -927,7 +927,7 @@ Initializer *check_vardecl(Type **ptype, const Token *ident, int storage, Initia
     varinfo->type = type;
 
     // TODO: Check `init` can be cast to `type`.
-    if (storage & VS_STATIC) {
+    if (varinfo->storage & VS_STATIC) {  // Might differ from `storage' on redeclaration error.
       VarInfo *gvarinfo = varinfo->static_.svar;
       assert(gvarinfo != NULL);
       gvarinfo->global.init = init = check_global_initializer(type, init);
-- 
2.43.0


From 1f70f939fed679a15685bc48aec929daa250de1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:02 +0000
Subject: [PATCH 087/162] fix: members of an anonymous struct must differ from
 the outer ones

---
 src/cc/frontend/parser_type.c | 46 +++++++++++++++++++++++++++++------
 1 file changed, 39 insertions(+), 7 deletions(-)

diff --git a/src/cc/frontend/parser_type.c b/src/cc/frontend/parser_type.c
index a61525b..113a390 100644
--- a/src/cc/frontend/parser_type.c
+++ b/src/cc/frontend/parser_type.c
@@ -60,6 +60,38 @@ static Type *parse_enum(void) {
   return type;
 }
 
+static bool has_member(const MemberInfo *members, int count, const Name *name) {
+  for (int i = 0; i < count; ++i) {
+    const MemberInfo *minfo = &members[i];
+    if (minfo->name != NULL) {
+      if (equal_name(minfo->name, name))
+        return true;
+    } else if (minfo->type->kind == TY_STRUCT) {
+      const StructInfo *sinfo = minfo->type->struct_.info;
+      if (has_member(sinfo->members, sinfo->member_count, name))
+        return true;
+    }
+  }
+  return false;
+}
+
+// Check anonymous struct/union has a member which is already defined.
+static const Name *find_duplicate_member(const MemberInfo *members, int count, const StructInfo *sinfo) {
+  for (int i = 0; i < sinfo->member_count; ++i) {
+    const MemberInfo *minfo = &sinfo->members[i];
+    const Name *name = NULL;
+    if (minfo->name != NULL) {
+      if (has_member(members, count, minfo->name))
+        name = minfo->name;
+    } else if (minfo->type->kind == TY_STRUCT) {
+      name = find_duplicate_member(members, count, minfo->type->struct_.info);
+    }
+    if (name != NULL)
+      return name;
+  }
+  return NULL;
+}
+
 // Parse struct or union definition `{...}`
 static StructInfo *parse_struct(bool is_union) {
   int count = 0;
@@ -141,14 +173,14 @@ static StructInfo *parse_struct(bool is_union) {
 
       const Name *name = ident != NULL ? ident->ident : NULL;
       if (name != NULL) {
-        for (int i = 0; i < count; ++i) {
-          const MemberInfo *minfo = &members[i];
-          if (minfo->name != NULL && equal_name(minfo->name, name)) {
-            parse_error(PE_NOFATAL, ident, "`%.*s' already defined", NAMES(name));
-            name = NULL;  // Avoid conflict.
-            break;
-          }
+        if (has_member(members, count, name)) {
+          parse_error(PE_NOFATAL, ident, "`%.*s' already defined", NAMES(name));
+          name = NULL;  // Avoid conflict.
         }
+      } else if (type->kind == TY_STRUCT) {
+        const Name *dup = find_duplicate_member(members, count, type->struct_.info);
+        if (dup != NULL)
+          parse_error(PE_NOFATAL, NULL, "`%.*s' already defined", NAMES(dup));
       }
 
       members = realloc_or_die(members, sizeof(*members) * (count + 1));
-- 
2.43.0


From d3ef585a2773cac679e9989b5dae1e69623b8b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:16 +0000
Subject: [PATCH 088/162] fix: function declaration in a block takes no local
 variable on wasm

---
 src/wcc/gen_wasm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wcc/gen_wasm.c b/src/wcc/gen_wasm.c
index 9570f7c..92dbd28 100644
--- a/src/wcc/gen_wasm.c
+++ b/src/wcc/gen_wasm.c
@@ -1612,7 +1612,7 @@ static uint32_t allocate_local_variables(Function *func, DataStorage *data) {
 
     for (int j = 0; j < scope->vars->len; ++j) {
       VarInfo *varinfo = scope->vars->data[j];
-      if (!is_local_storage(varinfo))
+      if (!is_local_storage(varinfo) || varinfo->type->kind == TY_FUNC)
         continue;
 
       VReg *vreg = calloc_or_die(sizeof(*vreg));
-- 
2.43.0


From 8429fabc753dea80da991ee94c7e1dacf355687e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:45 +0000
Subject: [PATCH 089/162] fix: variable hidden by typedef in an inner scope
 cannot be referred

---
 src/cc/frontend/parser_expr.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cc/frontend/parser_expr.c b/src/cc/frontend/parser_expr.c
index f9bc7c5..41c6bbc 100644
--- a/src/cc/frontend/parser_expr.c
+++ b/src/cc/frontend/parser_expr.c
@@ -318,8 +318,10 @@ static Expr *variable(Token *ident) {
   BuiltinExprProc *proc = table_get(&builtin_expr_ident_table, name);
   if (proc != NULL)
     return (*proc)(ident);
-  Scope *scope;
-  VarInfo *varinfo = scope_find(curscope, name, &scope);
+  Scope *scope = NULL;
+  VarInfo *varinfo = NULL;
+  if (find_typedef(curscope, name, NULL) == NULL)  // Otherwise hidden by typedef.
+    varinfo = scope_find(curscope, name, &scope);
   Type *type;
   if (varinfo != NULL) {
     if (varinfo->storage & VS_ENUM_MEMBER)
-- 
2.43.0


From ed2ae4152e035d63e4eaf82d0938cfa5aba6bb77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:39 +0000
Subject: [PATCH 090/162] fix: initialized redeclaration of a local static or
 extern variable aborts the compiler

---
 src/cc/frontend/parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cc/frontend/parser.c b/src/cc/frontend/parser.c
index f001e9b..7e96071 100644
--- a/src/cc/frontend/parser.c
+++ b/src/cc/frontend/parser.c
@@ -281,7 +281,7 @@ static Vector *parse_vardecl_cont(Type *rawType, Type *type, int storage, Token
 
       init = check_vardecl(&type, ident, tmp_storage, init);
       varinfo->type = type;  // type might be changed.
-      if (init != NULL && !(tmp_storage & (VS_STATIC | VS_EXTERN))) {
+      if (init != NULL && !(varinfo->storage & (VS_STATIC | VS_EXTERN))) {
         VarDecl *decl = new_vardecl(varinfo);
         if (decls == NULL)
           decls = new_vector();
-- 
2.43.0


From 28e0c40191171d5d33c0478c9c927b89cb676c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:21 +0000
Subject: [PATCH 091/162] fix: default output name overflows its buffer

---
 src/util/util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/util.c b/src/util/util.c
index d4d1ea6..02745a8 100644
--- a/src/util/util.c
+++ b/src/util/util.c
@@ -244,7 +244,7 @@ char *change_ext(const char *path, const char *ext) {
   const char *q = strrchr(p, '.');
   size_t len = q != NULL ? (size_t)(q - path) : strlen(path);
   size_t ext_len = strlen(ext);
-  char *s = malloc(len + 1 + ext_len);
+  char *s = malloc(len + 1 + ext_len + 1);
   if (s != NULL) {
     memcpy(s, path, len);
     s[len] = '.';
-- 
2.43.0


From c342a6d09c81a6c2c4263e8444656d0f01de9035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:21 +0000
Subject: [PATCH 092/162] fix: library given as a separate argument of -l is
 lost

---
 src/xcc/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xcc/main.c b/src/xcc/main.c
index 6931599..1042b9c 100644
--- a/src/xcc/main.c
+++ b/src/xcc/main.c
@@ -445,7 +445,7 @@ static void parse_options(int argc, char *argv[], Options *opts) {
         } else {
           StringBuffer sb;
           sb_init(&sb);
-          sb_append(&sb, "-l", optarg);
+          sb_append(&sb, "-l", NULL);
           sb_append(&sb, optarg, NULL);
           p = sb_to_string(&sb);
         }
-- 
2.43.0


From 30fc06ce6c80e99fe0e09ae4300c70682cdda63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:39 +0000
Subject: [PATCH 093/162] fix: object file of an assembly source is left behind
 after linking

---
 src/xcc/main.c | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/xcc/main.c b/src/xcc/main.c
index 1042b9c..22abc1e 100644
--- a/src/xcc/main.c
+++ b/src/xcc/main.c
@@ -163,6 +163,19 @@ enum OutType {
   OutExecutable,
 };
 
+static const char *create_tmp_object(int *pfd) {
+  char template[] = "/tmp/xcc-XXXXXX.o";
+  int fd = mkstemps(template, 2);
+  if (fd == -1) {
+    perror("Failed to open output file");
+    exit(1);
+  }
+  const char *objfn = strdup(template);
+  vec_push(&remove_on_exit, objfn);
+  *pfd = fd;
+  return objfn;
+}
+
 static int compile_csource(const char *source_fn, enum OutType out_type, const char *ofn, int ofd,
                            Vector *cpp_cmd, Vector *cc1_cmd, Vector *as_cmd, Vector *ld_cmd) {
   const char *objfn = NULL;
@@ -171,14 +184,7 @@ static int compile_csource(const char *source_fn, enum OutType out_type, const c
     if (ofn != NULL && out_type < OutExecutable) {
       objfn = ofn;
     } else {
-      char template[] = "/tmp/xcc-XXXXXX.o";
-      obj_fd = mkstemps(template, 2);
-      if (obj_fd == -1) {
-        perror("Failed to open output file");
-        exit(1);
-      }
-      objfn = strdup(template);
-      vec_push(&remove_on_exit, objfn);
+      objfn = create_tmp_object(&obj_fd);
     }
   }
 
@@ -221,11 +227,9 @@ static int compile_asm(const char *source_fn, enum OutType out_type, const char
     if (ofn != NULL && out_type < OutExecutable) {
       objfn = ofn;
     } else {
-      size_t len = strlen(source_fn);
-      char *p = malloc_or_die(len + 3);
-      memcpy(p, source_fn, len);
-      strcpy(p + len, ".o");
-      objfn = p;
+      int obj_fd;
+      objfn = create_tmp_object(&obj_fd);
+      close(obj_fd);
     }
 
     assert(as_cmd->len >= 3);
-- 
2.43.0


From f68708c22a5037e8fdea5627eba4e2a03190ba6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:15 +0000
Subject: [PATCH 094/162] fix: assembly and object inputs are truncated or
 misused with -S and -E

---
 src/xcc/main.c | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/xcc/main.c b/src/xcc/main.c
index 22abc1e..56bb75b 100644
--- a/src/xcc/main.c
+++ b/src/xcc/main.c
@@ -555,15 +555,6 @@ static int do_compile(Options *opts, const char *root) {
       }
     }
 
-    if (opts->out_type <= OutAssembly && outfn != NULL && strcmp(outfn, "-") != 0) {
-      close(STDOUT_FILENO);
-      ofd = open(outfn, O_WRONLY | O_CREAT | O_TRUNC, S_IRUSR | S_IWUSR | S_IRGRP | S_IROTH);
-      if (ofd == -1) {
-        perror("Failed to open output file");
-        exit(1);
-      }
-    }
-
     enum SourceType st = opts->src_type;
     if (src != NULL) {
       char *ext = get_ext(src);
@@ -573,6 +564,16 @@ static int do_compile(Options *opts, const char *root) {
       else if (strcasecmp(ext, "a") == 0)  st = ArchiveFile;
     }
 
+    if (opts->out_type <= OutAssembly && st == Clanguage && outfn != NULL &&
+        strcmp(outfn, "-") != 0) {
+      close(STDOUT_FILENO);
+      ofd = open(outfn, O_WRONLY | O_CREAT | O_TRUNC, S_IRUSR | S_IWUSR | S_IRGRP | S_IROTH);
+      if (ofd == -1) {
+        perror("Failed to open output file");
+        exit(1);
+      }
+    }
+
     switch (st) {
     case UnknownSource:
       fprintf(stderr, "Unknown source type: %s\n", src);
@@ -583,7 +584,9 @@ static int do_compile(Options *opts, const char *root) {
                             opts->as_cmd, opts->ld_cmd);
       break;
     case Assembly:
-      res = compile_asm(src, opts->out_type, outfn, ofd, opts->as_cmd, opts->ld_cmd);
+      // Nothing to do for preprocess or compile.
+      if (opts->out_type > OutAssembly)
+        res = compile_asm(src, opts->out_type, outfn, ofd, opts->as_cmd, opts->ld_cmd);
       break;
     case ObjectFile:
     case ArchiveFile:
-- 
2.43.0


From 77535fa86749307c1e043c84d26b90209d2b6093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:26 +0000
Subject: [PATCH 095/162] fix: failed stage leaves a broken output or removes a
 special file

---
 src/xcc/main.c | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/xcc/main.c b/src/xcc/main.c
index 56bb75b..948cf42 100644
--- a/src/xcc/main.c
+++ b/src/xcc/main.c
@@ -94,6 +94,13 @@ static void remove_tmp_files(void) {
   }
 }
 
+// Remove the output of the failed command, if it is a regular file.
+static void remove_output(const char *fn) {
+  struct stat st;
+  if (fn != NULL && strcmp(fn, "-") != 0 && stat(fn, &st) == 0 && S_ISREG(st.st_mode))
+    remove(fn);
+}
+
 static int compile(const char *src, Vector *cpp_cmd, Vector *cc1_cmd, int ofd) {
   int ofd2 = ofd;
   int cc_fd[2];
@@ -204,19 +211,18 @@ static int compile_csource(const char *source_fn, enum OutType out_type, const c
   if (out_type >= OutExecutable)
     vec_push(ld_cmd, objfn);
 
-  if (res != 0 && as_pid != -1) {
-    kill(as_pid, SIGKILL);
-    remove(ofn);
-  }
   if (as_pid != -1) {
+    if (res != 0)
+      kill(as_pid, SIGKILL);
     close(as_fd[0]);
     close(as_fd[1]);
-    as_pid = -1;
     res |= wait_process(as_pid);
   }
   if (obj_fd != -1) {
     close(obj_fd);
   }
+  if (res != 0)
+    remove_output(ofn);
   return res;
 }
 
@@ -240,6 +246,8 @@ static int compile_asm(const char *source_fn, enum OutType out_type, const char
   int status = 0;
   pid_t as_pid = exec_with_ofd((char**)as_cmd->data, ofd);
   waitpid(as_pid, &status, 0);
+  if (status != 0)
+    remove_output(ofn);
 
   if (out_type >= OutExecutable)
     vec_push(ld_cmd, objfn);
@@ -614,6 +622,8 @@ static int do_compile(Options *opts, const char *root) {
     int status;
     waitpid(ld_pid, &status, 0);
     res |= status;
+    if (res != 0)
+      remove_output(opts->ofn != NULL ? opts->ofn : "a.out");
   }
 
   return res == 0 ? 0 : 1;
-- 
2.43.0


From cefcad4b8bea4583f554d1ca0136ed3fa1ceaf1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:11 +0000
Subject: [PATCH 096/162] fix: death of the assembler before the compiler ends
 is mishandled

---
 src/xcc/main.c | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/xcc/main.c b/src/xcc/main.c
index 948cf42..3bff2d7 100644
--- a/src/xcc/main.c
+++ b/src/xcc/main.c
@@ -101,7 +101,7 @@ static void remove_output(const char *fn) {
     remove(fn);
 }
 
-static int compile(const char *src, Vector *cpp_cmd, Vector *cc1_cmd, int ofd) {
+static int compile(const char *src, Vector *cpp_cmd, Vector *cc1_cmd, int ofd, pid_t *as_pid) {
   int ofd2 = ofd;
   int cc_fd[2];
   pid_t cc_pid = -1;
@@ -123,7 +123,16 @@ static int compile(const char *src, Vector *cpp_cmd, Vector *cc1_cmd, int ofd) {
     pid_t done = wait_child(&status);  // cpp or cc1
     if (done > 0) {
       res |= status;
-      if (done == cpp_pid) {
+      if (done == *as_pid) {
+        // Illegal: as dies earlier than its input is given.
+        *as_pid = -1;
+        res |= 1;
+        if (cc_pid != -1)
+          kill(cc_pid, SIGKILL);
+        if (cpp_pid != -1)
+          kill(cpp_pid, SIGKILL);
+        break;
+      } else if (done == cpp_pid) {
         cpp_pid = -1;
         if (cc_pid != -1) {
           if (status != 0) {
@@ -206,18 +215,20 @@ static int compile_csource(const char *source_fn, enum OutType out_type, const c
     ofd = as_fd[1];
   }
 
-  int res = compile(source_fn, cpp_cmd, out_type == OutPreprocess ? NULL : cc1_cmd, ofd);
+  int res = compile(source_fn, cpp_cmd, out_type == OutPreprocess ? NULL : cc1_cmd, ofd,
+                    &as_pid);
 
   if (out_type >= OutExecutable)
     vec_push(ld_cmd, objfn);
 
-  if (as_pid != -1) {
-    if (res != 0)
-      kill(as_pid, SIGKILL);
+  if (as_pid != -1 && res != 0)
+    kill(as_pid, SIGKILL);
+  if (out_type > OutAssembly) {
     close(as_fd[0]);
     close(as_fd[1]);
-    res |= wait_process(as_pid);
   }
+  if (as_pid != -1)
+    res |= wait_process(as_pid);
   if (obj_fd != -1) {
     close(obj_fd);
   }
-- 
2.43.0


From 786d443d06e6e4703ed7eebfc7422e00e12f7e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:31 +0000
Subject: [PATCH 097/162] fix: failure to write the output is reported as
 success

---
 src/as/emit_elf.c | 4 ++++
 src/cc/cc1.c      | 2 ++
 src/cpp/cpp.c     | 2 ++
 src/ld/ld.c       | 5 ++++-
 4 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/as/emit_elf.c b/src/as/emit_elf.c
index 5e28cdd..af9a50d 100644
--- a/src/as/emit_elf.c
+++ b/src/as/emit_elf.c
@@ -525,6 +525,10 @@ int emit_elf_obj(const char *ofn, Vector *sections, Table *label_table, Vector *
   put_padding(ofp, sh_ofs);
   fwrite(section_headers.buf, section_headers.len, 1, ofp);
 
+  if (fflush(ofp) != 0) {
+    fprintf(stderr, "Failed to write output file: %s\n", ofn != NULL ? ofn : "*stdout*");
+    return 1;
+  }
   return 0;
 }
 #endif
diff --git a/src/cc/cc1.c b/src/cc/cc1.c
index 9bc7630..cf984a2 100644
--- a/src/cc/cc1.c
+++ b/src/cc/cc1.c
@@ -177,6 +177,8 @@ int main(int argc, char *argv[]) {
 
   gen(toplevel);
   emit_code(toplevel);
+  if (fflush(stdout) != 0)
+    error("Failed to write output\n");
 
   return 0;
 }
diff --git a/src/cpp/cpp.c b/src/cpp/cpp.c
index eeee365..c781a38 100644
--- a/src/cpp/cpp.c
+++ b/src/cpp/cpp.c
@@ -66,5 +66,7 @@ int main(int argc, char *argv[]) {
   } else {
     preprocess(stdin, "*stdin*");
   }
+  if (fflush(ofp) != 0)
+    error("Failed to write output\n");
   return 0;
 }
diff --git a/src/ld/ld.c b/src/ld/ld.c
index 2397ac9..1ee1246 100644
--- a/src/ld/ld.c
+++ b/src/ld/ld.c
@@ -716,9 +716,12 @@ static bool output_exe(const char *ofn, uint64_t entry_address,
     output_section(fp, &section_groups[sec]);
     addr += size;
   }
+  bool result = fflush(fp) == 0;
+  if (!result)
+    fprintf(stderr, "Failed to write output file\n");
   fclose(fp);
 
-  return true;
+  return result;
 }
 
 #define DSF_WEAK       (1 << 0)
-- 
2.43.0


From 134e5d931b677616d7c3560c87620b6275c44639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:51 +0000
Subject: [PATCH 098/162] fix: several inputs overwrite the one output given by
 -o

---
 src/xcc/main.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/xcc/main.c b/src/xcc/main.c
index 3bff2d7..6a8dcc3 100644
--- a/src/xcc/main.c
+++ b/src/xcc/main.c
@@ -753,6 +753,18 @@ int main(int argc, char *argv[]) {
     return 1;
   }
 
+  if (opts.ofn != NULL && opts.out_type < OutExecutable) {
+    int count = 0;
+    for (int i = 0; i < opts.sources->len; ++i) {
+      const char *src = opts.sources->data[i];
+      const char *ext = get_ext(src);
+      bool is_obj = strcasecmp(ext, "o") == 0 || strcasecmp(ext, "a") == 0 || strncmp(src, "-l", 2) == 0;
+      count += !is_obj;
+    }
+    if (count > 1)
+      error("Cannot specify -o with -c, -S or -E with multiple files");
+  }
+
   if (!opts.nostdinc) {
     vec_push(cpp_cmd, "-idirafter");
     vec_push(cpp_cmd, JOIN_PATHS(root, "include"));
-- 
2.43.0


From 264f01e8ac936627a5a347b70c155aaf33070a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:40 +0000
Subject: [PATCH 099/162] fix: executable written over an existing file cannot
 be executed

---
 src/ld/ld.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/ld/ld.c b/src/ld/ld.c
index 1ee1246..2d3b6ee 100644
--- a/src/ld/ld.c
+++ b/src/ld/ld.c
@@ -684,6 +684,13 @@ static bool output_exe(const char *ofn, uint64_t entry_address,
       perror("open failed");
       return false;
     }
+    // The mode above has no effect if the file exists already.
+    struct stat st;
+    if (fstat(fd, &st) == 0 && S_ISREG(st.st_mode)) {
+      mode_t exec = st.st_mode | ((st.st_mode & (S_IRUSR | S_IRGRP | S_IROTH)) >> 2);
+      if (exec != st.st_mode)
+        chmod(ofn, exec & 07777);
+    }
     fp = fdopen(fd, "wb");
     assert(fp != NULL);
   }
-- 
2.43.0


From f7517cb6ee0345c5e735ffb2e960ff1716fffa2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:25 +0000
Subject: [PATCH 100/162] fix: assembler drops an instruction whose operands
 are missing

---
 src/as/parse_asm.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/as/parse_asm.c b/src/as/parse_asm.c
index 3f9d160..055d3a3 100644
--- a/src/as/parse_asm.c
+++ b/src/as/parse_asm.c
@@ -575,6 +575,10 @@ static void check_line_end(ParseInfo *info) {
   }
 }
 
+static bool is_comment_line(const char *p) {
+  return block_comment_start(p) != NULL || (*p == '/' && p[1] == '/');
+}
+
 #define R_NOOP  0
 
 static /*enum RawOpcode*/int find_raw_opcode(ParseInfo *info) {
@@ -687,8 +691,11 @@ Line *parse_line(ParseInfo *info) {
       info->p = r;
     } else if (*p != '\0') {
       info->p = p;
+      int error_count = info->error_count;
       parse_inst(info, line);
       check_line_end(info);
+      if (line->inst.op == NOOP && info->error_count == error_count && !is_comment_line(p))
+        parse_error(info, "Illegal operand");
     }
   }
   return line;
-- 
2.43.0


From 44592a021e92afc840a0b5a445fd33f4b50969c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:05 +0000
Subject: [PATCH 101/162] fix: assembler ignores a statement after a label

---
 src/as/parse_asm.c | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/as/parse_asm.c b/src/as/parse_asm.c
index 055d3a3..e815b7a 100644
--- a/src/as/parse_asm.c
+++ b/src/as/parse_asm.c
@@ -669,18 +669,27 @@ Line *parse_line(ParseInfo *info) {
 
   const char *p = skip_whitespaces(info->rawline);
   info->p = p;
+  if (*p == '\0')
+    return line;
   const char *q = get_label_end(info);
   const char *r = skip_whitespaces(q);
   if (*r == ':') {
     const Name *label = unquote_label(p, q);
     if (label == NULL) {
       parse_error(info, "Illegal label");
-    } else {
-      info->p = p;
-      line->label = label;
-      info->p = r + 1;
+      return line;
     }
-  } else {
+    line->label = label;
+
+    // A statement may follow the label.
+    info->p = p = skip_whitespaces(r + 1);
+    if (*p != '\0') {
+      q = get_label_end(info);
+      r = skip_whitespaces(q);
+    }
+  }
+
+  if (*p != '\0') {
     if (*p == '.') {
       enum DirectiveType dir = find_directive(p + 1, q - p - 1);
       if (dir == NODIRECTIVE) {
@@ -689,7 +698,7 @@ Line *parse_line(ParseInfo *info) {
       }
       line->dir = dir;
       info->p = r;
-    } else if (*p != '\0') {
+    } else {
       info->p = p;
       int error_count = info->error_count;
       parse_inst(info, line);
-- 
2.43.0


From 1f9bf78ee0d7813745e62da73567b6c4bf0626ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:10 +0000
Subject: [PATCH 102/162] fix: failure of a large write of the output is
 reported as success

---
 include/stdio.h       | 1 +
 libsrc/stdio/_file.c  | 7 ++++---
 libsrc/stdio/_file.h  | 1 +
 libsrc/stdio/ferror.c | 7 +++++++
 src/as/emit_elf.c     | 2 +-
 src/cc/cc1.c          | 2 +-
 src/cpp/cpp.c         | 2 +-
 src/ld/ld.c           | 2 +-
 8 files changed, 17 insertions(+), 7 deletions(-)
 create mode 100644 libsrc/stdio/ferror.c

diff --git a/include/stdio.h b/include/stdio.h
index e8c7252..9317cc7 100644
--- a/include/stdio.h
+++ b/include/stdio.h
@@ -53,6 +53,7 @@ int fflush(FILE *fp);
 int fseek(FILE *fp, long offset, int origin);
 long ftell(FILE *fp);
 int feof(FILE *fp);
+int ferror(FILE *fp);
 int remove(const char *fn);
 
 int fgetc(FILE *fp);
diff --git a/libsrc/stdio/_file.c b/libsrc/stdio/_file.c
index 294a612..76ec14f 100644
--- a/libsrc/stdio/_file.c
+++ b/libsrc/stdio/_file.c
@@ -28,8 +28,7 @@ ssize_t _fread(void *cookie, char *buf, size_t total) {
     fp->rp = fp->rs = 0;
     ssize_t len = small ? read(fp->fd, fp->rbuf, fp->rcapa) : read(fp->fd, p, total);
     if (len <= 0) {
-      if (len == 0)
-        fp->flag |= FF_EOF;
+      fp->flag |= len == 0 ? FF_EOF : FF_ERROR;
       break;
     }
     if (small) {
@@ -66,8 +65,10 @@ int _fflush(FILE *fp) {
     unsigned int wp = fp->wp;
     if (wp > 0) {
       size_t write_size = write(fp->fd, fp->wbuf, wp);
-      if (write_size != (size_t)wp)
+      if (write_size != (size_t)wp) {
+        fp->flag |= FF_ERROR;
         return EOF;
+      }
       fp->wp = 0;
     }
   }
diff --git a/libsrc/stdio/_file.h b/libsrc/stdio/_file.h
index 186d86f..ff5fd5f 100644
--- a/libsrc/stdio/_file.h
+++ b/libsrc/stdio/_file.h
@@ -8,6 +8,7 @@
 #define FF_WRITE        (1 << 2)
 #define FF_EOF          (1 << 3)
 #define FF_GROWMEM      (1 << 4)
+#define FF_ERROR        (1 << 5)
 
 typedef ssize_t (*cookie_read_function_t)(void *cookie, char *buf, size_t size);
 typedef ssize_t (*cookie_write_function_t)(void *cookie, const char *buf, size_t size);
diff --git a/libsrc/stdio/ferror.c b/libsrc/stdio/ferror.c
new file mode 100644
index 0000000..ec0f474
--- /dev/null
+++ b/libsrc/stdio/ferror.c
@@ -0,0 +1,7 @@
+#include "stdio.h"
+
+#include "_file.h"
+
+int ferror(FILE *fp) {
+  return (fp->flag & FF_ERROR) ? 1 : 0;
+}
diff --git a/src/as/emit_elf.c b/src/as/emit_elf.c
index af9a50d..c5c1156 100644
--- a/src/as/emit_elf.c
+++ b/src/as/emit_elf.c
@@ -525,7 +525,7 @@ int emit_elf_obj(const char *ofn, Vector *sections, Table *label_table, Vector *
   put_padding(ofp, sh_ofs);
   fwrite(section_headers.buf, section_headers.len, 1, ofp);
 
-  if (fflush(ofp) != 0) {
+  if (fflush(ofp) != 0 || ferror(ofp)) {
     fprintf(stderr, "Failed to write output file: %s\n", ofn != NULL ? ofn : "*stdout*");
     return 1;
   }
diff --git a/src/cc/cc1.c b/src/cc/cc1.c
index cf984a2..dd988da 100644
--- a/src/cc/cc1.c
+++ b/src/cc/cc1.c
@@ -177,7 +177,7 @@ int main(int argc, char *argv[]) {
 
   gen(toplevel);
   emit_code(toplevel);
-  if (fflush(stdout) != 0)
+  if (fflush(stdout) != 0 || ferror(stdout))
     error("Failed to write output\n");
 
   return 0;
diff --git a/src/cpp/cpp.c b/src/cpp/cpp.c
index c781a38..9d994e6 100644
--- a/src/cpp/cpp.c
+++ b/src/cpp/cpp.c
@@ -66,7 +66,7 @@ int main(int argc, char *argv[]) {
   } else {
     preprocess(stdin, "*stdin*");
   }
-  if (fflush(ofp) != 0)
+  if (fflush(ofp) != 0 || ferror(ofp))
     error("Failed to write output\n");
   return 0;
 }
diff --git a/src/ld/ld.c b/src/ld/ld.c
index 2d3b6ee..79833f2 100644
--- a/src/ld/ld.c
+++ b/src/ld/ld.c
@@ -723,7 +723,7 @@ static bool output_exe(const char *ofn, uint64_t entry_address,
     output_section(fp, &section_groups[sec]);
     addr += size;
   }
-  bool result = fflush(fp) == 0;
+  bool result = fflush(fp) == 0 && !ferror(fp);
   if (!result)
     fprintf(stderr, "Failed to write output file\n");
   fclose(fp);
-- 
2.43.0


From e0a22c03c62086d8a74d9b71d862007f67f82d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:16 +0000
Subject: [PATCH 103/162] fix: assembler encodes some memory operands wrongly

---
 src/as/arch/x64/asm_code.c | 751 +++++++------------------------------
 1 file changed, 143 insertions(+), 608 deletions(-)

diff --git a/src/as/arch/x64/asm_code.c b/src/as/arch/x64/asm_code.c
index 33ca14d..5c4a85b 100644
--- a/src/as/arch/x64/asm_code.c
+++ b/src/as/arch/x64/asm_code.c
@@ -75,18 +75,6 @@ static unsigned char *put_rex2(unsigned char *p, enum RegSize size, int sno, int
   return p;
 }
 
-#define MAKE_REX_INDIRECT(size, reg, indirect_reg, opcode, op2, offset) \
-  MAKE_REX0(size, reg, indirect_reg, \
-            (size) == REG8 ? opcode : (unsigned char)((opcode) + 1)), \
-  (((offset) == 0 && indirect_reg != RBP - RAX) ? op2 : is_im8(offset) ? 0x40 : 0x80) | (indirect_reg & 7) | ((reg & 7) << 3), \
-  indirect_reg == RSP - RAX ? 0x24 : -1
-
-#define MAKE_OFFSET(offset, no) \
-  ((offset) == 0 && no) ? -1 : (offset) & 0xff, \
-  ((offset) == 0 && no) || is_im8(offset) ? -1 : ((offset) >>  8) & 0xff, \
-  ((offset) == 0 && no) || is_im8(offset) ? -1 : ((offset) >> 16) & 0xff, \
-  ((offset) == 0 && no) || is_im8(offset) ? -1 : ((offset) >> 24) & 0xff
-
 #define MAKE_IM(size, value) \
   (value) & 0xff, \
   size < REG16 ? -1 : ((value) >>  8) & 0xff, \
@@ -97,6 +85,109 @@ static unsigned char *put_rex2(unsigned char *p, enum RegSize size, int sno, int
   size < REG64 ? -1 : ((value) >>  48) & 0xff, \
   size < REG64 ? -1 : ((value) >>  56) & 0xff
 
+// Memory operand: base register is -1 for absolute address, or RIP - RAX for RIP-relative.
+typedef struct {
+  int base, index, scale;
+  long offset;
+} Mem;
+
+static bool get_fixnum(const Expr *expr, long defval, long *result) {
+  if (expr != NULL && expr->kind != EX_FIXNUM)
+    return false;
+  *result = expr != NULL ? expr->fixnum : defval;
+  return true;
+}
+
+static bool get_mem(const Operand *opr, Mem *mem) {
+  mem->base = mem->index = -1;
+  mem->scale = 0;
+  switch (opr->type) {
+  case INDIRECT: case DEREF_INDIRECT:
+    if (opr->indirect.reg.no == RIP) {
+      // Only label reference, which is filled later.
+      mem->base = RIP;
+      mem->offset = 0;
+      return opr->indirect.offset.expr != NULL && opr->indirect.offset.expr->kind != EX_FIXNUM;
+    }
+    mem->base = opr_regno(&opr->indirect.reg);
+    return get_fixnum(opr->indirect.offset.expr, 0, &mem->offset) && is_im32(mem->offset);
+  case INDIRECT_WITH_INDEX: case DEREF_INDIRECT_WITH_INDEX:
+    {
+      long scale;
+      if (opr->indirect_with_index.base_reg.no == RIP ||
+          !get_fixnum(opr->indirect_with_index.scale, 1, &scale) ||
+          !(scale == 1 || scale == 2 || scale == 4 || scale == 8))
+        return false;
+      mem->base = opr_regno(&opr->indirect_with_index.base_reg);
+      mem->index = opr_regno(&opr->indirect_with_index.index_reg);
+      mem->scale = most_significant_bit(scale);
+      return mem->index != RSP - RAX &&
+             get_fixnum(opr->indirect_with_index.offset, 0, &mem->offset) && is_im32(mem->offset);
+    }
+  case DIRECT:
+    return opr->direct.expr->kind == EX_FIXNUM && get_fixnum(opr->direct.expr, 0, &mem->offset) &&
+           is_im32(mem->offset);
+  case SEGMENT_OFFSET:
+    return opr->segment.offset != NULL && get_fixnum(opr->segment.offset, 0, &mem->offset) && is_im32(mem->offset);
+  default:
+    return false;
+  }
+}
+
+static unsigned char *put_imm(unsigned char *p, enum RegSize size, long value) {
+  switch (size) {
+  case REG8:   *p++ = IM8(value); break;
+  case REG16:  PUT_CODE(p, IM16(value)); p += 2; break;
+  case REG32: case REG64:
+    PUT_CODE(p, IM32(value));
+    p += 4;
+    break;
+  }
+  return p;
+}
+
+// `opcode` might have 0x0f as its upper byte.
+static unsigned char *put_mem(unsigned char *p, int prefix, bool rexw, int opcode, int reg,
+                              const Operand *opr) {
+  Mem mem;
+  if (!get_mem(opr, &mem))
+    return NULL;
+
+  bool rip = mem.base == RIP;
+  int base = rip ? -1 : mem.base;
+  short rex = (rexw ? 8 : 0) | ((reg & 8) >> 1) | (mem.index >= 0 ? (mem.index & 8) >> 2 : 0) |
+              (base >= 0 ? (base & 8) >> 3 : 0);
+  int mod;
+  if (base < 0)
+    mod = 0;
+  else if (mem.offset == 0 && (base & 7) != RBP - RAX)
+    mod = 0;
+  else
+    mod = is_im8(mem.offset) ? 1 : 2;
+  bool sib = !rip && (base < 0 || mem.index >= 0 || (base & 7) == RSP - RAX);
+  short buf[] = {
+    prefix,
+    rex != 0 || (reg & 16) != 0 ? 0x40 | rex : -1,
+    opcode > 0xff ? opcode >> 8 : -1,
+    opcode & 0xff,
+    (mod << 6) | ((reg & 7) << 3) | (rip ? 5 : sib ? 4 : base & 7),
+    !sib ? -1 : (mem.scale << 6) | ((mem.index >= 0 ? mem.index & 7 : 4) << 3) | (base >= 0 ? base & 7 : 5),
+  };
+  p = put_code_filtered(p, buf, ARRAY_SIZE(buf));
+  if (mod == 1)
+    *p++ = IM8(mem.offset);
+  else if (mod == 2 || base < 0)
+    p = put_imm(p, REG32, mem.offset);
+  return p;
+}
+
+// `opcode` is for 8bit.
+static unsigned char *put_mem_sized(unsigned char *p, enum RegSize size, int opcode, int reg,
+                                    const Operand *opr) {
+  return put_mem(p, size == REG16 ? 0x66 : -1, size == REG64, opcode | (size == REG8 ? 0 : 1), reg,
+                 opr);
+}
+
 static unsigned char *asm_noop(Inst *inst, Code *code) {
   UNUSED(inst);
   unsigned char *p = code->buf;
@@ -132,236 +223,28 @@ static unsigned char *asm_mov_imr(Inst *inst, Code *code) {
 }
 
 static unsigned char *asm_mov_ir(Inst *inst, Code *code) {
-  if (inst->opr[0].indirect.reg.no != RIP) {
-    if (inst->opr[0].indirect.offset.expr->kind == EX_FIXNUM) {
-      long offset = inst->opr[0].indirect.offset.expr->fixnum;
-      enum RegSize size = inst->opr[1].reg.size;
-      int sno = opr_regno(&inst->opr[0].indirect.reg);
-      int dno = opr_regno(&inst->opr[1].reg);
-      bool ofszero = offset == 0 && ((sno & 7) != RBP - RAX);
-      short buf[] = {
-        size == REG16 ? 0x66 : -1,
-        (size == REG64 || sno >= 8 || dno >= 8) ?  0x40 | (size == REG64 ? 0x08 : 0) | ((dno & 8) >> 1) | ((sno & 8) >> 3) : -1,
-        0x8a | (size == REG8 ? 0 : 0x01),
-        ((dno & 7) << 3) | (sno & 7) | (ofszero ? 0 : is_im8(offset) ? 0x40: 0x80),
-        (sno & 7) == RSP - RAX ? 0x24 : -1,
-      };
-      unsigned char *p = code->buf;
-      p = put_code_filtered(p, buf, ARRAY_SIZE(buf));
-
-      if (ofszero) {
-        // Nothing.
-      } else if (is_im8(offset)) {
-        *p++ = offset;
-      } else {
-        PUT_CODE(p, IM32(offset));
-        p += 4;
-      }
-      return p;
-    }
-  } else {
-    if (inst->opr[0].indirect.offset.expr->kind != EX_FIXNUM) {
-      int pre = !inst->opr[1].reg.x ? 0x48 : 0x4c;
-      int d = inst->opr[1].reg.no;
-      MAKE_CODE(inst, code, pre, 0x8b, 0x05 | (d << 3), IM32(0));
-      return code->buf;
-    }
-  }
-  return NULL;
+  const Reg *reg = &inst->opr[1].reg;
+  return put_mem_sized(code->buf, reg->size, 0x8a, opr_regno(reg), &inst->opr[0]);
 }
 
 static unsigned char *asm_mov_ri(Inst *inst, Code *code) {
-  if (inst->opr[1].indirect.offset.expr->kind == EX_FIXNUM) {
-    long offset = inst->opr[1].indirect.offset.expr->fixnum;
-    enum RegSize size = inst->opr[0].reg.size;
-    if (inst->opr[1].indirect.reg.no != RIP) {
-      int sno = opr_regno(&inst->opr[0].reg);
-      int dno = opr_regno(&inst->opr[1].indirect.reg);
-      bool ofszero = offset == 0 && ((dno & 7) != RBP - RAX);
-      short buf[] = {
-        size == REG16 ? 0x66 : -1,
-        (size == REG64 || sno >= 8 || dno >= 8) ? 0x40 | (size == REG64 ? 0x08 : 0) | ((sno & 8) >> 1) | ((dno & 8) >> 3) : -1,
-        0x88 | (size == REG8 ? 0 : 0x01),
-        ((sno & 7) << 3) | (dno & 7) | (ofszero ? 0 : is_im8(offset) ? 0x40: 0x80),
-        (dno & 7) == RSP - RAX ? 0x24 : -1,
-      };
-      unsigned char *p = code->buf;
-      p = put_code_filtered(p, buf, ARRAY_SIZE(buf));
-
-      if (ofszero) {
-        // Nothing.
-      } else if (is_im8(offset)) {
-        *p++ = offset;
-      } else {
-        PUT_CODE(p, IM32(offset));
-        p += 4;
-      }
-      return p;
-    }
-  }
-  return NULL;
-}
-
-static unsigned char *asm_mov_iir(Inst *inst, Code *code) {
-  if (inst->opr[0].indirect_with_index.offset->kind == EX_FIXNUM) {
-    long offset = inst->opr[0].indirect_with_index.offset->fixnum;
-    assert(is_im32(offset));
-    short offset_bit = offset == 0 ? 0x04 : is_im8(offset) ? 0x44 : 0x84;
-    enum RegSize size = inst->opr[1].reg.size;
-    assert(inst->opr[0].indirect_with_index.base_reg.no != RIP);
-    int bno = opr_regno(&inst->opr[0].indirect_with_index.base_reg);
-    int ino = opr_regno(&inst->opr[0].indirect_with_index.index_reg);
-    int dno = opr_regno(&inst->opr[1].reg);
-    Expr *scale_expr = inst->opr[0].indirect_with_index.scale;
-    char scale_bit = 0;
-    if (scale_expr != NULL) {
-      scale_bit = most_significant_bit(scale_expr->fixnum);
-      assert(IS_POWER_OF_2(scale_expr->fixnum) && scale_bit < 4);
-    }
-    short x = ((bno & 8) >> 3) | ((ino & 8) >> 2) | ((dno & 8) >> 1);
-    short prefix = size == REG16 ? 0x66 : size == REG64 || x != 0 ? 0x48 | x : -1;
-    short buf[] = {
-      prefix,
-      size == REG8 ? 0x8a : 0x8b,
-      ((dno & 7) << 3) | offset_bit,
-      (scale_bit << 6) | ((ino & 7) << 3) | (bno & 7),
-    };
-    unsigned char *p = code->buf;
-    p = put_code_filtered(p, buf, ARRAY_SIZE(buf));
-
-    if (offset != 0) {
-      if (is_im8(offset)) {
-        *p++ = IM8(offset);
-      } else {
-        PUT_CODE(p, IM32(offset));
-        p += 4;
-      }
-    }
-    return p;
-  }
-  return NULL;
-}
-
-static unsigned char *asm_mov_dr(Inst *inst, Code *code) {
-  enum RegSize size = inst->opr[1].reg.size;
-  int dno = opr_regno(&inst->opr[1].reg);
-  short prefix = size == REG16 ? 0x66 : size == REG64 ? 0x48 : -1;
-  short buf[] = {
-    prefix,
-    size == REG8 ? 0x8a : 0x8b,
-    ((dno & 7) << 3) | 0x04,
-    0x25,
-  };
-  unsigned char *p = code->buf;
-  p = put_code_filtered(p, buf, ARRAY_SIZE(buf));
-
-  PUT_CODE(p, IM32(0));
-  p += 4;
-  return p;
-}
-
-static unsigned char *asm_mov_rd(Inst *inst, Code *code) {
-  enum RegSize size = inst->opr[0].reg.size;
-  int sno = opr_regno(&inst->opr[0].reg);
-  short prefix = size == REG16 ? 0x66 : size == REG64 ? 0x48 : -1;
-  short buf[] = {
-    prefix,
-    size == REG8 ? 0x88 : 0x89,
-    ((sno & 7) << 3) | 0x04,
-    0x25,
-  };
-  unsigned char *p = code->buf;
-  p = put_code_filtered(p, buf, ARRAY_SIZE(buf));
-
-  PUT_CODE(p, IM32(0));
-  p += 4;
-  return p;
+  const Reg *reg = &inst->opr[0].reg;
+  return put_mem_sized(code->buf, reg->size, 0x88, opr_regno(reg), &inst->opr[1]);
 }
 
 static unsigned char *asm_mov_sr(Inst *inst, Code *code) {
-  if (inst->opr[0].segment.reg == FS && inst->opr[1].reg.size == REG64) {
-    Expr *offset = inst->opr[0].segment.offset;
-    if (offset == NULL || offset->kind == EX_FIXNUM) {
-      uint64_t value = offset == NULL ? 0 : offset->fixnum;
-      short buf[] = {
-        0x64, 0x48, 0x8b, 0x04, 0x25,
-      };
-      unsigned char *p = code->buf;
-      p = put_code_filtered(p, buf, ARRAY_SIZE(buf));
-      PUT_CODE(p, IM32(value));
-      p += 4;
-      return p;
-    }
-  }
+  if (inst->opr[0].segment.reg == FS && inst->opr[1].reg.size == REG64)
+    return put_mem(code->buf, 0x64, true, 0x8b, opr_regno(&inst->opr[1].reg), &inst->opr[0]);
   return NULL;
 }
 
-static unsigned char *asm_movbwlq_imi(Inst *inst, Code *code) {
-  long offset = inst->opr[1].indirect.offset.expr->fixnum;
-  unsigned char sno = 0;
-  unsigned char dno = opr_regno(&inst->opr[1].indirect.reg);
-  unsigned char op = (offset == 0 && (dno & 7) != RBP - RAX) ? 0x00 : is_im8(offset) ? (unsigned char)0x40 : (unsigned char)0x80;
-  short buf[] = {
-    inst->op == MOVW_IMI ? 0x66 : -1,
-    (inst->op == MOVQ_IMI || dno >= 8) ? 0x40 | (inst->op == MOVQ_IMI ? 0x08 : 0) | ((dno & 8) >> 3) | ((sno & 8) >> 1) : -1,
-    0xc6 | (inst->op == MOVB_IMI ? 0 : 1),
-    op | (dno & 7) | ((sno & 7) << 3),
-    (dno & 7) == RSP - RAX ? 0x24 : -1,
-  };
-
-  unsigned char *p = code->buf;
-  p = put_code_filtered(p, buf, ARRAY_SIZE(buf));
-  if (offset == 0 && (dno & 7) != RBP - RAX) {
-    ;
-  } else if (is_im8(offset)) {
-    *p++ = IM8(offset);
-  } else if (is_im32(offset)) {
-    PUT_CODE(p, IM32(offset));
-    p += 4;
-  }
-
-  long value = inst->opr[0].immediate;
-  switch (inst->op) {
-  case MOVB_IMI: *p++ = IM8(value); break;
-  case MOVW_IMI: PUT_CODE(p, IM16(value)); p += 2; break;
-  case MOVL_IMI: case MOVQ_IMI:
-    PUT_CODE(p, IM32(value));
-    p += 4;
-    break;
-  default: assert(false); break;
-  }
-  return p;
-}
-
-static unsigned char *asm_movbwlq_imd(Inst *inst, Code *code) {
-  assert(inst->opr[1].direct.expr->kind == EX_FIXNUM);
-  int64_t dst = inst->opr[1].direct.expr->fixnum;
-  assert(is_im32(dst));
-
-  short buf[] = {
-    inst->op == MOVW_IMD ? 0x66 : -1,
-    inst->op == MOVQ_IMD ? 0x48 : -1,
-    0xc6 | (inst->op == MOVB_IMD ? 0 : 1),
-    0x04, 0x25,
-  };
-
-  unsigned char *p = code->buf;
-  p = put_code_filtered(p, buf, ARRAY_SIZE(buf));
-  PUT_CODE(p, IM32(dst));
-  p += 4;
-
+static unsigned char *asm_movbwlq_im(Inst *inst, Code *code, enum RegSize size) {
   long value = inst->opr[0].immediate;
-  switch (inst->op) {
-  case MOVB_IMD: *p++ = IM8(value); break;
-  case MOVW_IMD: PUT_CODE(p, IM16(value)); p += 2; break;
-  case MOVL_IMD: case MOVQ_IMD:
-    PUT_CODE(p, IM32(value));
-    p += 4;
-    break;
-  default: assert(false); break;
-  }
-  return p;
+  unsigned char *p = put_mem_sized(code->buf, size, 0xc6, 0, &inst->opr[1]);
+  return p != NULL ? put_imm(p, size, value) : NULL;
 }
+static unsigned char *asm_movbwlq_imi(Inst *inst, Code *code) { return asm_movbwlq_im(inst, code, inst->op + (REG8 - MOVB_IMI)); }
+static unsigned char *asm_movbwlq_imd(Inst *inst, Code *code) { return asm_movbwlq_im(inst, code, inst->op + (REG8 - MOVB_IMD)); }
 
 static unsigned char *asm_movszx_rr(Inst *inst, Code *code) {
   int s = inst->opr[0].reg.no;
@@ -450,83 +333,13 @@ static unsigned char *asm_movsd_xx(Inst *inst, Code *code) { return asm_movsds_x
 static unsigned char *asm_movss_xx(Inst *inst, Code *code) { return asm_movsds_xx(inst, code, true); }
 
 static unsigned char *asm_movsds_ix(Inst *inst, Code *code, bool single) {
-  long offset;
-  if (inst->opr[0].indirect.offset.expr->kind == EX_FIXNUM &&
-      (offset = inst->opr[0].indirect.offset.expr->fixnum, is_im32(offset))) {
-    if (inst->opr[0].indirect.reg.no != RIP) {
-      unsigned char prefix = single ? 0xf3 : 0xf2;
-      unsigned char sno = opr_regno(&inst->opr[0].indirect.reg);
-      unsigned char dno = inst->opr[1].regxmm - XMM0;
-      int d = dno & 7;
-      int s = sno & 7;
-      unsigned char op = (offset == 0 && s != RBP - RAX) ? (unsigned char)0x00
-                         : is_im8(offset)                ? (unsigned char)0x40
-                                                         : (unsigned char)0x80;
-
-      short buf[] = {
-        prefix,
-        sno >= 8 || dno >= 8 ? (unsigned char)0x40 | ((sno & 8) >> 3) | ((dno & 8) >> 1) : -1,
-        0x0f,
-        0x10,
-        op | s | (d << 3),
-        s == RSP - RAX ? 0x24 : -1,
-      };
-      unsigned char *p = code->buf;
-      p = put_code_filtered(p, buf, ARRAY_SIZE(buf));
-
-      if (offset == 0 && s != RBP - RAX) {
-        ;
-      } else if (is_im8(offset)) {
-        *p++ = IM8(offset);
-      } else {  // is_im32(offset)
-        PUT_CODE(p, IM32(offset));
-        p += 4;
-      }
-      return p;
-    }
-  }
-  return NULL;
+  return put_mem(code->buf, single ? 0xf3 : 0xf2, false, 0x0f10, inst->opr[1].regxmm - XMM0, &inst->opr[0]);
 }
 static unsigned char *asm_movsd_ix(Inst *inst, Code *code) { return asm_movsds_ix(inst, code, false); }
 static unsigned char *asm_movss_ix(Inst *inst, Code *code) { return asm_movsds_ix(inst, code, true); }
 
 static unsigned char *asm_movsds_xi(Inst *inst, Code *code, bool single) {
-  long offset;
-  if (inst->opr[1].indirect.offset.expr->kind == EX_FIXNUM &&
-      (offset = inst->opr[1].indirect.offset.expr->fixnum, is_im32(offset))) {
-    if (inst->opr[1].indirect.reg.no != RIP) {
-      unsigned char prefix = single ? 0xf3 : 0xf2;
-      unsigned char sno = inst->opr[0].regxmm - XMM0;
-      unsigned char dno = opr_regno(&inst->opr[1].indirect.reg);
-      int d = dno & 7;
-      int s = sno & 7;
-      unsigned char op = (offset == 0 && d != RBP - RAX) ? (unsigned char)0x00
-                         : is_im8(offset)                ? (unsigned char)0x40
-                                                         : (unsigned char)0x80;
-
-      short buf[] = {
-        prefix,
-        sno >= 8 || dno >= 8 ? (unsigned char)0x40 | ((dno & 8) >> 3) | ((sno & 8) >> 1) : -1,
-        0x0f,
-        0x11,
-        op | d | (s << 3),
-        d == RSP - RAX ? 0x24 : -1,
-      };
-      unsigned char *p = code->buf;
-      p = put_code_filtered(p, buf, ARRAY_SIZE(buf));
-
-      if (offset == 0 && d != RBP - RAX) {
-        ;
-      } else if (is_im8(offset)) {
-        *p++ = IM8(offset);
-      } else {  // is_im32(offset)
-        PUT_CODE(p, IM32(offset));
-        p += 4;
-      }
-      return p;
-    }
-  }
-  return NULL;
+  return put_mem(code->buf, single ? 0xf3 : 0xf2, false, 0x0f11, inst->opr[0].regxmm - XMM0, &inst->opr[1]);
 }
 static unsigned char *asm_movsd_xi(Inst *inst, Code *code) { return asm_movsds_xi(inst, code, false); }
 static unsigned char *asm_movss_xi(Inst *inst, Code *code) { return asm_movsds_xi(inst, code, true); }
@@ -694,70 +507,9 @@ static long signed_immediate(long value, enum RegSize size) {
 }
 
 static unsigned char *asm_lea_ir(Inst *inst, Code *code) {
-  assert(inst->opr[0].indirect.offset.expr != NULL);
-  unsigned char *p = code->buf;
-  if (inst->opr[0].indirect.reg.no != RIP) {
-    if (inst->opr[0].indirect.offset.expr->kind == EX_FIXNUM) {
-      long offset = inst->opr[0].indirect.offset.expr->fixnum;
-      enum RegSize size = inst->opr[1].reg.size;
-      short buf[] = {
-        MAKE_REX_INDIRECT(
-          size,
-          opr_regno(&inst->opr[1].reg),
-          opr_regno(&inst->opr[0].indirect.reg),
-          0x8c, 0x00, offset),
-        MAKE_OFFSET(offset, inst->opr[0].indirect.reg.no != RBP - RAX),
-      };
-      p = put_code_filtered(p, buf, ARRAY_SIZE(buf));
-      return p;
-    }
-  } else {
-    if (inst->opr[0].indirect.offset.expr->kind != EX_FIXNUM) {
-      int pre = !inst->opr[1].reg.x ? 0x48 : 0x4c;
-      int d = inst->opr[1].reg.no;
-      MAKE_CODE(inst, code, pre, 0x8d, 0x05 | (d << 3), IM32(0));
-      return p;
-    }
-  }
-  return NULL;
-}
-
-static unsigned char *asm_lea_iir(Inst *inst, Code *code) {
-  Expr *offset_expr = inst->opr[0].indirect_with_index.offset;
-  Expr *scale_expr = inst->opr[0].indirect_with_index.scale;
-  if ((offset_expr == NULL || offset_expr->kind == EX_FIXNUM) &&
-      (scale_expr == NULL || scale_expr->kind == EX_FIXNUM)) {
-    long offset = offset_expr != NULL ? offset_expr->fixnum : 0;
-    long scale = scale_expr != NULL ? scale_expr->fixnum : 1;
-    if (is_im32(offset) && 1 <= scale && scale <= 8 && IS_POWER_OF_2(scale)) {
-      int breg = opr_regno(&inst->opr[0].indirect_with_index.base_reg);
-      int ireg = opr_regno(&inst->opr[0].indirect_with_index.index_reg);
-      int dreg = opr_regno(&inst->opr[1].reg);
-      bool noofs = offset == 0 && breg != RBP - RAX;
-      int pow = most_significant_bit(scale);
-      assert(IS_POWER_OF_2(scale) && pow < 4);
-      short buf[] = {
-        0x48 | ((breg & 8) >> 3) | ((ireg & 8) >> 2) | ((dreg & 8) >> 1),
-        0x8d,
-        (noofs ? 0x00 : is_im8(offset) ? 0x40 : 0x80) | ((dreg & 7) << 3) | 0x04,
-        (breg & 7) | ((ireg & 7) << 3) | (pow << 6),
-        breg == RSP - RAX ? 0x24 : -1,
-      };
-
-      unsigned char *p = code->buf;
-      p = put_code_filtered(p, buf, ARRAY_SIZE(buf));
-      if (noofs) {
-        ;
-      } else if (is_im8(offset)) {
-        *p++ = IM8(offset);
-      } else if (is_im32(offset)) {
-        PUT_CODE(p, IM32(offset));
-        p += 4;
-      }
-      return p;
-    }
-  }
-  return NULL;
+  const Reg *reg = &inst->opr[1].reg;
+  return put_mem(code->buf, reg->size == REG16 ? 0x66 : -1, reg->size == REG64, 0x8d, opr_regno(reg),
+                 &inst->opr[0]);
 }
 
 static unsigned char *asm_add_rr(Inst *inst, Code *code) {
@@ -799,81 +551,16 @@ static unsigned char *asm_add_imr(Inst *inst, Code *code) {
 }
 
 static unsigned char *asm_add_ir(Inst *inst, Code *code) {
-  if (inst->opr[0].indirect.offset.expr->kind == EX_FIXNUM && inst->opr[0].indirect.reg.no != RIP) {
-    long offset = inst->opr[0].indirect.offset.expr->fixnum;
-    enum RegSize size = inst->opr[1].reg.size;
-    unsigned char *p = code->buf;
-    short buf[] = {
-      MAKE_REX_INDIRECT(
-        size,
-        opr_regno(&inst->opr[1].reg),
-        opr_regno(&inst->opr[0].indirect.reg),
-        0x02, 0x00, offset),
-      MAKE_OFFSET(offset, inst->opr[0].indirect.reg.no != RBP - RAX),
-    };
-    p = put_code_filtered(p, buf, ARRAY_SIZE(buf));
-    return p;
-  }
-  return NULL;
-}
-
-static unsigned char *asm_add_iir(Inst *inst, Code *code) {
-  assert(inst->opr[0].indirect_with_index.offset->kind == EX_FIXNUM && inst->opr[0].indirect_with_index.offset->fixnum == 0);  // TODO
-  unsigned char scale = 0;
-  if (inst->opr[0].indirect_with_index.scale != NULL) {
-    assert(inst->opr[0].indirect_with_index.scale->kind == EX_FIXNUM);
-    int s = inst->opr[0].indirect_with_index.scale->fixnum;
-    scale = most_significant_bit(s);
-    assert(IS_POWER_OF_2(scale) && scale < 4);
-  }
-
-  unsigned char bno = inst->opr[0].indirect_with_index.base_reg.no;
-  unsigned char ino = inst->opr[0].indirect_with_index.index_reg.no;
-  unsigned char dno = inst->opr[1].reg.no;
-  short buf[] = {
-    (unsigned char)0x48 | (inst->opr[0].indirect_with_index.base_reg.x) | (inst->opr[0].indirect_with_index.index_reg.x << 1) | (inst->opr[1].reg.x << 2),
-    0x03,
-    0x04 | (dno << 3),
-    bno | (ino << 3) | (scale << 6),
-  };
-  unsigned char *p = code->buf;
-  p = put_code_filtered(p, buf, ARRAY_SIZE(buf));
-  return p;
+  const Reg *reg = &inst->opr[1].reg;
+  return put_mem_sized(code->buf, reg->size, 0x02, opr_regno(reg), &inst->opr[0]);
 }
 
 static unsigned char *asm_addq_imi(Inst *inst, Code *code) {
-  if (inst->opr[1].indirect.offset.expr->kind == EX_FIXNUM) {
-    long value = inst->opr[0].immediate;
-    if (is_im32(value)) {
-      long offset = inst->opr[1].indirect.offset.expr->fixnum;
-      unsigned char sno = 0;
-      unsigned char dno = opr_regno(&inst->opr[1].indirect.reg);
-      unsigned char op = (offset == 0 && (dno & 7) != RBP - RAX) ? 0x00 : is_im8(offset) ? (unsigned char)0x40 : (unsigned char)0x80;
-      short buf[] = {
-        (unsigned char)0x48 | ((dno & 8) >> 3) | ((sno & 8) >> 1),
-        (is_im8(value) ? 0x83 : 0x81),
-        op | (dno & 7) | ((sno & 7) << 3),
-        (dno & 7) == RSP - RAX ? 0x24 : -1,
-      };
-      unsigned char *p = code->buf;
-      p = put_code_filtered(p, buf, ARRAY_SIZE(buf));
-      if (offset == 0 && (dno & 7) != RBP - RAX) {
-        ;
-      } else if (is_im8(offset)) {
-        *p++ = IM8(offset);
-      } else if (is_im32(offset)) {
-        PUT_CODE(p, IM32(offset));
-        p += 4;
-      }
-
-      if (is_im8(value)) {
-        *p++ = IM8(value);
-      } else {
-        PUT_CODE(p, IM32(value));
-        p += 4;
-      }
-      return p;
-    }
+  long value = inst->opr[0].immediate;
+  if (is_im32(value)) {
+    bool im8 = is_im8(value);
+    unsigned char *p = put_mem(code->buf, -1, true, im8 ? 0x83 : 0x81, 0, &inst->opr[1]);
+    return p != NULL ? put_imm(p, im8 ? REG8 : REG32, value) : NULL;
   }
   return NULL;
 }
@@ -917,81 +604,16 @@ static unsigned char *asm_sub_imr(Inst *inst, Code *code) {
 }
 
 static unsigned char *asm_sub_ir(Inst *inst, Code *code) {
-  if (inst->opr[0].indirect.offset.expr->kind == EX_FIXNUM && inst->opr[0].indirect.reg.no != RIP) {
-    long offset = inst->opr[0].indirect.offset.expr->fixnum;
-    enum RegSize size = inst->opr[1].reg.size;
-    unsigned char *p = code->buf;
-    short buf[] = {
-      MAKE_REX_INDIRECT(
-        size,
-        opr_regno(&inst->opr[1].reg),
-        opr_regno(&inst->opr[0].indirect.reg),
-        0x2a, 0x00, offset),
-      MAKE_OFFSET(offset, inst->opr[0].indirect.reg.no != RBP - RAX),
-    };
-    p = put_code_filtered(p, buf, ARRAY_SIZE(buf));
-    return p;
-  }
-  return NULL;
-}
-
-static unsigned char *asm_sub_iir(Inst *inst, Code *code) {
-  assert(inst->opr[0].indirect_with_index.offset->kind == EX_FIXNUM && inst->opr[0].indirect_with_index.offset->fixnum == 0);  // TODO
-  unsigned char scale = 0;
-  if (inst->opr[0].indirect_with_index.scale != NULL) {
-    assert(inst->opr[0].indirect_with_index.scale->kind == EX_FIXNUM);
-    int s = inst->opr[0].indirect_with_index.scale->fixnum;
-    scale = most_significant_bit(s);
-    assert(IS_POWER_OF_2(scale) && scale < 4);
-  }
-
-  unsigned char bno = inst->opr[0].indirect_with_index.base_reg.no;
-  unsigned char ino = inst->opr[0].indirect_with_index.index_reg.no;
-  unsigned char dno = inst->opr[1].reg.no;
-  short buf[] = {
-    (unsigned char)0x48 | (inst->opr[0].indirect_with_index.base_reg.x) | (inst->opr[0].indirect_with_index.index_reg.x << 1) | (inst->opr[1].reg.x << 2),
-    0x2b,
-    0x04 | (dno << 3),
-    bno | (ino << 3) | (scale << 6),
-  };
-  unsigned char *p = code->buf;
-  p = put_code_filtered(p, buf, ARRAY_SIZE(buf));
-  return p;
+  const Reg *reg = &inst->opr[1].reg;
+  return put_mem_sized(code->buf, reg->size, 0x2a, opr_regno(reg), &inst->opr[0]);
 }
 
 static unsigned char *asm_subq_imi(Inst *inst, Code *code) {
-  if (inst->opr[1].indirect.offset.expr->kind == EX_FIXNUM) {
-    long value = inst->opr[0].immediate;
-    if (is_im32(value)) {
-      long offset = inst->opr[1].indirect.offset.expr->fixnum;
-      unsigned char sno = 0;
-      unsigned char dno = opr_regno(&inst->opr[1].indirect.reg);
-      unsigned char op = (offset == 0 && (dno & 7) != RBP - RAX) ? 0x28 : is_im8(offset) ? (unsigned char)0x40 : (unsigned char)0x80;
-      short buf[] = {
-        (unsigned char)0x48 | ((dno & 8) >> 3) | ((sno & 8) >> 1),
-        (is_im8(value) ? 0x83 : 0x81),
-        op | (dno & 7) | ((sno & 7) << 3),
-        (dno & 7) == RSP - RAX ? 0x24 : -1,
-      };
-      unsigned char *p = code->buf;
-      p = put_code_filtered(p, buf, ARRAY_SIZE(buf));
-      if (offset == 0 && (dno & 7) != RBP - RAX) {
-        ;
-      } else if (is_im8(offset)) {
-        *p++ = IM8(offset);
-      } else if (is_im32(offset)) {
-        PUT_CODE(p, IM32(offset));
-        p += 4;
-      }
-
-      if (is_im8(value)) {
-        *p++ = IM8(value);
-      } else {
-        PUT_CODE(p, IM32(value));
-        p += 4;
-      }
-      return p;
-    }
+  long value = inst->opr[0].immediate;
+  if (is_im32(value)) {
+    bool im8 = is_im8(value);
+    unsigned char *p = put_mem(code->buf, -1, true, im8 ? 0x83 : 0x81, 5, &inst->opr[1]);
+    return p != NULL ? put_imm(p, im8 ? REG8 : REG32, value) : NULL;
   }
   return NULL;
 }
@@ -1058,21 +680,7 @@ static unsigned char *asm_inc_r(Inst *inst, Code *code) {
 }
 
 static unsigned char *asm_incbwlq_i(Inst *inst, Code *code) {
-  if (inst->opr[0].indirect.reg.no != RIP) {
-    enum RegSize size = inst->op + (REG8 - INCB);
-    long offset = inst->opr[0].indirect.offset.expr->fixnum;
-    unsigned char *p = code->buf;
-    short buf[] = {
-      MAKE_REX_INDIRECT(
-        size,
-        0, opr_regno(&inst->opr[0].indirect.reg),
-        0xfe, 0x00, offset),
-      MAKE_OFFSET(offset, inst->opr[0].indirect.reg.no != RBP - RAX),
-    };
-    p = put_code_filtered(p, buf, ARRAY_SIZE(buf));
-    return p;
-  }
-  return NULL;
+  return put_mem_sized(code->buf, inst->op + (REG8 - INCB), 0xfe, 0, &inst->opr[0]);
 }
 
 static unsigned char *asm_dec_r(Inst *inst, Code *code) {
@@ -1084,21 +692,7 @@ static unsigned char *asm_dec_r(Inst *inst, Code *code) {
 }
 
 static unsigned char *asm_decbwlq_i(Inst *inst, Code *code) {
-  if (inst->opr[0].indirect.reg.no != RIP) {
-    enum RegSize size = inst->op + (REG8 - DECB);
-    long offset = inst->opr[0].indirect.offset.expr->fixnum;
-    unsigned char *p = code->buf;
-    short buf[] = {
-      MAKE_REX_INDIRECT(
-        size,
-        1, opr_regno(&inst->opr[0].indirect.reg),
-        0xfe, 0x08, offset),
-      MAKE_OFFSET(offset, inst->opr[0].indirect.reg.no != RBP - RAX),
-    };
-    p = put_code_filtered(p, buf, ARRAY_SIZE(buf));
-    return p;
-  }
-  return NULL;
+  return put_mem_sized(code->buf, inst->op + (REG8 - DECB), 0xfe, 1, &inst->opr[0]);
 }
 
 static unsigned char *asm_and_rr(Inst *inst, Code *code) {
@@ -1428,66 +1022,7 @@ static unsigned char *asm_jmp_der(Inst *inst, Code *code) {
 }
 
 static unsigned char *asm_jmp_dei(Inst *inst, Code *code) {
-  Expr *offset_expr = inst->opr[0].indirect.offset.expr;
-  if ((offset_expr == NULL || offset_expr->kind == EX_FIXNUM)) {
-    long offset = offset_expr != NULL ? offset_expr->fixnum : 0;
-    if (is_im32(offset)) {
-      short offset_bit = offset == 0 ? 0x20 : is_im8(offset) ? 0x60 : 0xa0;
-      short b = inst->opr[0].indirect.reg.no;
-      short buf[] = {
-        inst->opr[0].indirect.reg.x ? 0x41 : -1,
-        0xff, offset_bit | b,
-      };
-      unsigned char *p = code->buf;
-      p = put_code_filtered(p, buf, ARRAY_SIZE(buf));
-      if (offset != 0) {
-        if (is_im8(offset)) {
-          *p++ = IM8(offset);
-        } else {
-          PUT_CODE(p, IM32(offset));
-          p += 4;
-        }
-      }
-      return p;
-    }
-  }
-  return NULL;
-}
-
-static unsigned char *asm_jmp_deii(Inst *inst, Code *code) {
-  Expr *offset_expr = inst->opr[0].indirect_with_index.offset;
-  Expr *scale_expr = inst->opr[0].indirect_with_index.scale;
-  if ((offset_expr == NULL || offset_expr->kind == EX_FIXNUM) &&
-      (scale_expr == NULL || scale_expr->kind == EX_FIXNUM)) {
-    long offset = offset_expr != NULL ? offset_expr->fixnum : 0;
-    long scale = scale_expr != NULL ? scale_expr->fixnum : 1;
-    if (is_im32(offset) && 1 <= scale && scale <= 8 && IS_POWER_OF_2(scale)) {
-      short b = inst->opr[0].indirect_with_index.base_reg.no;
-      short scale_bit = most_significant_bit(scale);
-      assert(IS_POWER_OF_2(scale) && scale_bit < 4);
-      short i = inst->opr[0].indirect_with_index.index_reg.no;
-      short prefix = inst->opr[0].indirect_with_index.base_reg.x | (inst->opr[0].indirect_with_index.index_reg.x << 1);
-      short offset_bit = offset == 0 && b != RBP - RAX ? 0x20 : is_im8(offset) ? 0x60 : 0xa0;
-      short buf[] = {
-        prefix != 0 ? 0x40 | prefix : -1,
-        0xff,
-        offset_bit | 0x04,
-        (scale_bit << 6) | (i << 3) | b,
-      };
-      unsigned char *p = code->buf;
-      p = put_code_filtered(p, buf, ARRAY_SIZE(buf));
-      if (offset != 0 || b == RBP - RAX) {
-        if (is_im8(offset)) {
-          *p++ = IM8(offset);
-        } else {
-          PUT_CODE(p, IM32(offset));
-          p += 4;
-        }
-      }
-      return p;
-    }
-  }
-  return NULL;
+  return put_mem(code->buf, -1, false, 0xff, 4, &inst->opr[0]);
 }
 
 static unsigned char *asm_jxx_d(Inst *inst, Code *code) {
@@ -1536,9 +1071,9 @@ static const AsmInstFunc table[] = {
   [MOV_IMR] = asm_mov_imr,
   [MOV_IR] = asm_mov_ir,
   [MOV_RI] = asm_mov_ri,
-  [MOV_IIR] = asm_mov_iir,
-  [MOV_DR] = asm_mov_dr,
-  [MOV_RD] = asm_mov_rd,
+  [MOV_IIR] = asm_mov_ir,
+  [MOV_DR] = asm_mov_ir,
+  [MOV_RD] = asm_mov_ri,
   [MOV_SR] = asm_mov_sr,
   [MOVB_IMI] = asm_movbwlq_imi,
   [MOVW_IMI] = asm_movbwlq_imi,
@@ -1550,16 +1085,16 @@ static const AsmInstFunc table[] = {
   [MOVQ_IMD] = asm_movbwlq_imd,
   [MOVSX] = asm_movszx_rr,  [MOVZX] = asm_movszx_rr,
   [LEA_IR] = asm_lea_ir,
-  [LEA_IIR] = asm_lea_iir,
+  [LEA_IIR] = asm_lea_ir,
   [ADD_RR] = asm_add_rr,
   [ADD_IMR] = asm_add_imr,
   [ADD_IR] = asm_add_ir,
-  [ADD_IIR] = asm_add_iir,
+  [ADD_IIR] = asm_add_ir,
   [ADDQ] = asm_addq_imi,
   [SUB_RR] = asm_sub_rr,
   [SUB_IMR] = asm_sub_imr,
   [SUB_IR] = asm_sub_ir,
-  [SUB_IIR] = asm_sub_iir,
+  [SUB_IIR] = asm_sub_ir,
   [SUBQ] = asm_subq_imi,
   [MUL] = asm_mul_r,
   [DIV] = asm_div_r,
@@ -1595,7 +1130,7 @@ static const AsmInstFunc table[] = {
   [JMP_D] = asm_jmp_d,
   [JMP_DER] = asm_jmp_der,
   [JMP_DEI] = asm_jmp_dei,
-  [JMP_DEII] = asm_jmp_deii,
+  [JMP_DEII] = asm_jmp_dei,
   [JO] = asm_jxx_d,  [JNO] = asm_jxx_d,  [JB] = asm_jxx_d,  [JAE] = asm_jxx_d,
   [JE] = asm_jxx_d,  [JNE] = asm_jxx_d,  [JBE] = asm_jxx_d,  [JA] = asm_jxx_d,
   [JS] = asm_jxx_d,  [JNS] = asm_jxx_d,  [JP] = asm_jxx_d,  [JNP] = asm_jxx_d,
-- 
2.43.0


From e231fbdd5ee126715d85a8b9ed2c0f877796ae7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:28 +0000
Subject: [PATCH 104/162] fix: assembler encodes high byte registers, neg and
 not of bytes wrongly

---
 src/as/arch/x64/asm_code.c | 44 ++++++++++++++++++++++++++++++++------
 1 file changed, 38 insertions(+), 6 deletions(-)

diff --git a/src/as/arch/x64/asm_code.c b/src/as/arch/x64/asm_code.c
index 5c4a85b..54a1116 100644
--- a/src/as/arch/x64/asm_code.c
+++ b/src/as/arch/x64/asm_code.c
@@ -35,7 +35,7 @@ static inline char opr_regno(const Reg *reg) {
 
 static inline bool opr_reg8(const Reg *reg) {
   assert(reg->size == REG8);
-  return opr_regno(reg) < 4;
+  return opr_regno(reg) < 8;
 }
 
 static inline bool assemble_error(ParseInfo *info, const char *message) {
@@ -56,7 +56,6 @@ static unsigned char *put_rex0(unsigned char *p, enum RegSize size, int sno, int
 #define MAKE_REX0(size, sno, dno, opcode) \
   (size) == REG16 ? 0x66 : -1, \
   ((sno) >= 8 || (dno) >= 8 || \
-      ((size) == REG8 && ((sno) >= 4 || (dno) >= 4)) || \
       (size) == REG64) \
     ? (0x40 | (((dno) & 8) >> 3) | (((sno) & 8) >> 1) | ((size) != REG64 ? 0 : 8)) : -1, \
   opcode
@@ -659,15 +658,15 @@ static unsigned char *asm_idiv_r(Inst *inst, Code *code) {
 
 static unsigned char *asm_neg_r(Inst *inst, Code *code) {
   unsigned char *p = code->buf;
-  p = put_rex1(p, inst->opr[0].reg.size,
-               0xd8, opr_regno(&inst->opr[0].reg), 0xf7);
+  const Reg *reg = &inst->opr[0].reg;
+  p = put_rex1(p, reg->size, 0xd8, opr_regno(reg), reg->size == REG8 ? 0xf6 : 0xf7);
   return p;
 }
 
 static unsigned char *asm_not_r(Inst *inst, Code *code) {
   unsigned char *p = code->buf;
-  p = put_rex1(p, inst->opr[0].reg.size,
-               0xd0, opr_regno(&inst->opr[0].reg), 0xf7);
+  const Reg *reg = &inst->opr[0].reg;
+  p = put_rex1(p, reg->size, 0xd0, opr_regno(reg), reg->size == REG8 ? 0xf6 : 0xf7);
   return p;
 }
 
@@ -1167,10 +1166,43 @@ static const AsmInstFunc table[] = {
   [ENDBR64] = asm_endbr64,
 };
 
+// %ah, %ch, %dh and %bh cannot be used with REX prefix.
+static bool is_encodable(const Inst *inst) {
+  bool high = false, rex = false;
+  for (int i = 0; i < (int)ARRAY_SIZE(inst->opr); ++i) {
+    const Operand *opr = &inst->opr[i];
+    switch (opr->type) {
+    case REG:
+      {
+        int no = opr_regno(&opr->reg);
+        if (opr->reg.size == REG8 && 4 <= no && no < 8)
+          high = true;
+        else if (no >= 8 || opr->reg.size == REG64)
+          rex = true;
+      }
+      break;
+    case INDIRECT:
+      rex |= opr->indirect.reg.x != 0;
+      break;
+    case INDIRECT_WITH_INDEX:
+      rex |= opr->indirect_with_index.base_reg.x != 0 || opr->indirect_with_index.index_reg.x != 0;
+      break;
+    default:
+      break;
+    }
+  }
+  return !(high && rex);
+}
+
 void assemble_inst(Inst *inst, ParseInfo *info, Code *code) {
   code->flag = 0;
   code->len = 0;
 
+  if (!is_encodable(inst)) {
+    assemble_error(info, "Illegal operand");
+    return;
+  }
+
   const AsmInstFunc *func = NULL;
   if (inst->op < (enum Opcode)ARRAY_SIZE(table)) {
     func = &table[inst->op];
-- 
2.43.0


From a07c9ffa917a6b2675c6836ddea40e47f24a368d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:50 +0000
Subject: [PATCH 105/162] fix: assembler rejects 32bit immediates of add and
 sub, and truncates those of movq

---
 src/as/arch/x64/asm_code.c | 231 ++++++-------------------------------
 1 file changed, 36 insertions(+), 195 deletions(-)

diff --git a/src/as/arch/x64/asm_code.c b/src/as/arch/x64/asm_code.c
index 54a1116..266f723 100644
--- a/src/as/arch/x64/asm_code.c
+++ b/src/as/arch/x64/asm_code.c
@@ -187,6 +187,34 @@ static unsigned char *put_mem_sized(unsigned char *p, enum RegSize size, int opc
                  opr);
 }
 
+static long signed_immediate(long value, enum RegSize size) {
+  switch (size) {
+  case REG8:   return (int8_t)value;
+  case REG16:  return (int16_t)value;
+  case REG32:  return (int32_t)value;
+  case REG64:  return (int64_t)value;
+  }
+  assert(!"Must not reached");
+  return value;
+}
+
+// add, or, adc, sbb, and, sub, xor, cmp.
+static unsigned char *put_bop_imr(Inst *inst, Code *code, int bop) {
+  enum RegSize size = inst->opr[1].reg.size;
+  long value = signed_immediate(inst->opr[0].immediate, size);
+  if (!is_im32(value))
+    return NULL;
+
+  bool im8 = is_im8(value);
+  int d = opr_regno(&inst->opr[1].reg);
+  unsigned char *p = code->buf;
+  if (d == RAX - RAX && (size == REG8 || !im8))
+    p = put_rex0(p, size, 0, d, (bop << 3) | (size == REG8 ? 0x04 : 0x05));
+  else
+    p = put_rex1(p, size, 0xc0 | (bop << 3), d, 0x80 | (size == REG8 ? 0 : im8 ? 3 : 1));
+  return put_imm(p, im8 ? REG8 : size, value);
+}
+
 static unsigned char *asm_noop(Inst *inst, Code *code) {
   UNUSED(inst);
   unsigned char *p = code->buf;
@@ -239,6 +267,8 @@ static unsigned char *asm_mov_sr(Inst *inst, Code *code) {
 
 static unsigned char *asm_movbwlq_im(Inst *inst, Code *code, enum RegSize size) {
   long value = inst->opr[0].immediate;
+  if (size == REG64 && !is_im32(value))
+    return NULL;
   unsigned char *p = put_mem_sized(code->buf, size, 0xc6, 0, &inst->opr[1]);
   return p != NULL ? put_imm(p, size, value) : NULL;
 }
@@ -494,17 +524,6 @@ static unsigned char *asm_endbr64(Inst *inst, Code *code) {
   return p;
 }
 
-static long signed_immediate(long value, enum RegSize size) {
-  switch (size) {
-  case REG8:   return (int8_t)value;
-  case REG16:  return (int16_t)value;
-  case REG32:  return (int32_t)value;
-  case REG64:  return (int64_t)value;
-  }
-  assert(!"Must not reached");
-  return value;
-}
-
 static unsigned char *asm_lea_ir(Inst *inst, Code *code) {
   const Reg *reg = &inst->opr[1].reg;
   return put_mem(code->buf, reg->size == REG16 ? 0x66 : -1, reg->size == REG64, 0x8d, opr_regno(reg),
@@ -519,35 +538,7 @@ static unsigned char *asm_add_rr(Inst *inst, Code *code) {
   return p;
 }
 
-static unsigned char *asm_add_imr(Inst *inst, Code *code) {
-  long value = inst->opr[0].immediate;
-  if (is_im32(value)) {
-    enum RegSize size = inst->opr[1].reg.size;
-    bool im8 = is_im8(value) || size == REG8;
-    int d = opr_regno(&inst->opr[1].reg);
-    unsigned char *p = code->buf;
-    if (d == RAX - RAX && (size == REG8 || !im8))
-      p = put_rex0(p, size, 0, d, im8 ? 0x04 : 0x05);
-    else
-      p = put_rex1(p, size, 0xc0, d, size == REG8 ? 0x80 : im8 ? 0x83 : 0x81);
-
-    if (im8) {
-      *p++ = IM8(value);
-    } else {
-      switch (size) {
-      case REG8:   *p++ = IM8(value); break;
-      case REG16:  PUT_CODE(p, IM16(value)); p += 2; break;
-      case REG32:
-      case REG64:
-        PUT_CODE(p, IM32(value));
-        p += 4;
-        break;
-      }
-    }
-    return p;
-  }
-  return NULL;
-}
+static unsigned char *asm_add_imr(Inst *inst, Code *code) { return put_bop_imr(inst, code, 0); }
 
 static unsigned char *asm_add_ir(Inst *inst, Code *code) {
   const Reg *reg = &inst->opr[1].reg;
@@ -572,35 +563,7 @@ static unsigned char *asm_sub_rr(Inst *inst, Code *code) {
   return p;
 }
 
-static unsigned char *asm_sub_imr(Inst *inst, Code *code) {
-  long value = inst->opr[0].immediate;
-  if (is_im32(value)) {
-    enum RegSize size = inst->opr[1].reg.size;
-    bool im8 = is_im8(value) || size == REG8;
-    int d = opr_regno(&inst->opr[1].reg);
-    unsigned char *p = code->buf;
-    if (d == RAX - RAX && (size == REG8 || !im8))
-      p = put_rex0(p, size, 0, d, im8 ? 0x2c : 0x2d);
-    else
-      p = put_rex1(p, size, 0xe8, d, size == REG8 ? 0x80 : im8 ? 0x83 : 0x81);
-
-    if (im8) {
-      *p++ = IM8(value);
-    } else {
-      switch (size) {
-      case REG8:   *p++ = IM8(value); break;
-      case REG16:  PUT_CODE(p, IM16(value)); p += 2; break;
-      case REG32:
-      case REG64:
-        PUT_CODE(p, IM32(value));
-        p += 4;
-        break;
-      }
-    }
-    return p;
-  }
-  return NULL;
-}
+static unsigned char *asm_sub_imr(Inst *inst, Code *code) { return put_bop_imr(inst, code, 5); }
 
 static unsigned char *asm_sub_ir(Inst *inst, Code *code) {
   const Reg *reg = &inst->opr[1].reg;
@@ -702,39 +665,7 @@ static unsigned char *asm_and_rr(Inst *inst, Code *code) {
   return p;
 }
 
-static unsigned char *asm_and_imr(Inst *inst, Code *code) {
-  long value = inst->opr[0].immediate;
-  enum RegSize size = inst->opr[1].reg.size;
-  unsigned char *p = code->buf;
-  if (is_im8(value) && (size != REG8 || opr_regno(&inst->opr[1].reg) != AL - AL)) {
-    p = put_rex1(p, size,
-                 0xe0, opr_regno(&inst->opr[1].reg),
-                 size == REG8 ? 0x80 : 0x83);
-    *p++ = IM8(value);
-    return p;
-  } else if (size <= REG32 || is_im32(value)) {
-    if (opr_regno(&inst->opr[1].reg) == RAX - RAX) {
-      p = put_rex0(p, size,
-                   0, opr_regno(&inst->opr[1].reg),
-                   size == REG8 ? 0x24 : 0x25);
-    } else {
-      p = put_rex1(p, size,
-                   0xe0, opr_regno(&inst->opr[1].reg),
-                   size == REG8 ? 0x80 : 0x81);
-    }
-
-    switch (size) {
-    case REG8:  PUT_CODE(p, IM8(value)); p += 1; break;
-    case REG16: PUT_CODE(p, IM16(value)); p += 2; break;
-    case REG32: case REG64:
-      PUT_CODE(p, IM32(value));
-      p += 4;
-      break;
-    }
-    return p;
-  }
-  return NULL;
-}
+static unsigned char *asm_and_imr(Inst *inst, Code *code) { return put_bop_imr(inst, code, 4); }
 
 static unsigned char *asm_or_rr(Inst *inst, Code *code) {
   enum RegSize size = inst->opr[1].reg.size;
@@ -744,38 +675,7 @@ static unsigned char *asm_or_rr(Inst *inst, Code *code) {
   return p;
 }
 
-static unsigned char *asm_or_imr(Inst *inst, Code *code) {
-  long value = inst->opr[0].immediate;
-  enum RegSize size = inst->opr[1].reg.size;
-  unsigned char *p = code->buf;
-  if (is_im8(value) && (size != REG8 || opr_regno(&inst->opr[1].reg) != AL - AL)) {
-    p = put_rex1(p, size,
-                 0xc8, opr_regno(&inst->opr[1].reg),
-                 size == REG8 ? 0x80 : 0x83);
-    *p++ = IM8(value);
-    return p;
-  } else if (size <= REG32 || is_im32(value)) {
-    if (opr_regno(&inst->opr[1].reg) == RAX - RAX) {
-      p = put_rex0(p, size,
-                   0, opr_regno(&inst->opr[1].reg),
-                   size == REG8 ? 0x0c : 0x0d);
-    } else {
-      p = put_rex1(p, size,
-                   0xc8, opr_regno(&inst->opr[1].reg),
-                   size == REG8 ? 0x80 : 0x81);
-    }
-    switch (size) {
-    case REG8:  PUT_CODE(p, IM8(value)); p += 1; break;
-    case REG16: PUT_CODE(p, IM16(value)); p += 2; break;
-    case REG32: case REG64:
-      PUT_CODE(p, IM32(value));
-      p += 4;
-      break;
-    }
-    return p;
-  }
-  return NULL;
-}
+static unsigned char *asm_or_imr(Inst *inst, Code *code) { return put_bop_imr(inst, code, 1); }
 
 static unsigned char *asm_xor_rr(Inst *inst, Code *code) {
   enum RegSize size = inst->opr[1].reg.size;
@@ -785,38 +685,7 @@ static unsigned char *asm_xor_rr(Inst *inst, Code *code) {
   return p;
 }
 
-static unsigned char *asm_xor_imr(Inst *inst, Code *code) {
-  long value = inst->opr[0].immediate;
-  enum RegSize size = inst->opr[1].reg.size;
-  unsigned char *p = code->buf;
-  if (is_im8(value) && (size != REG8 || opr_regno(&inst->opr[1].reg) != AL - AL)) {
-    p = put_rex1(p, size,
-                 0xf0, opr_regno(&inst->opr[1].reg),
-                 size == REG8 ? 0x80 : 0x83);
-    *p++ = IM8(value);
-    return p;
-  } else if (size <= REG32 || is_im32(value)) {
-    if (opr_regno(&inst->opr[1].reg) == RAX - RAX) {
-      p = put_rex0(p, size,
-                   0, opr_regno(&inst->opr[1].reg),
-                   size == REG8 ? 0x34 : 0x35);
-    } else {
-      p = put_rex1(p, size,
-                   0xf0, opr_regno(&inst->opr[1].reg),
-                   size == REG8 ? 0x80 : 0x81);
-    }
-    switch (size) {
-    case REG8:  PUT_CODE(p, IM8(value)); p += 1; break;
-    case REG16: PUT_CODE(p, IM16(value)); p += 2; break;
-    case REG32: case REG64:
-      PUT_CODE(p, IM32(value));
-      p += 4;
-      break;
-    }
-    return p;
-  }
-  return NULL;
-}
+static unsigned char *asm_xor_imr(Inst *inst, Code *code) { return put_bop_imr(inst, code, 6); }
 
 static unsigned char *asm_shl_rr(Inst *inst, Code *code) {
   enum RegSize size = inst->opr[1].reg.size;
@@ -901,35 +770,7 @@ static unsigned char *asm_cmp_rr(Inst *inst, Code *code) {
   return p;
 }
 
-static unsigned char *asm_cmp_imr(Inst *inst, Code *code) {
-  enum RegSize size = inst->opr[1].reg.size;
-  long value = signed_immediate(inst->opr[0].immediate, size);
-  if (is_im32(value) || size <= REG32) {
-    bool im8 = is_im8(value);
-    int d = opr_regno(&inst->opr[1].reg);
-    unsigned char *p = code->buf;
-    if (d == RAX - RAX && (size == REG8 || !im8))
-      p = put_rex0(p, size, 0, d, size == REG8 ? 0x3c : 0x3d);
-    else
-      p = put_rex1(p, size, 0xf8, d, 0x80 | (size == REG8 ? 0 : im8 ? 3 : 1));
-
-    if (im8) {
-      *p++ = IM8(value);
-    } else {
-      switch (size) {
-      case REG8:   *p++ = IM8(value); break;
-      case REG16:  PUT_CODE(p, IM16(value)); p += 2; break;
-      case REG32:
-      case REG64:
-        PUT_CODE(p, IM32(value));
-        p += 4;
-        break;
-      }
-    }
-    return p;
-  }
-  return NULL;
-}
+static unsigned char *asm_cmp_imr(Inst *inst, Code *code) { return put_bop_imr(inst, code, 7); }
 
 static unsigned char *asm_test_rr(Inst *inst, Code *code) {
   enum RegSize size = inst->opr[0].reg.size;
-- 
2.43.0


From 691ef2862e5ff36708cb6c2ca4c3a9a00e70e212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:20 +0000
Subject: [PATCH 106/162] fix: assembler leaves references between sections and
 to weak or undefined symbols unresolved

---
 src/as/arch/x64/asm_code.c   |   6 ++
 src/as/arch/x64/ir_asm_x64.c | 161 ++++++++++++++++-------------------
 src/as/ir_asm.h              |   2 +-
 src/as/parse_asm.c           |  26 ++++--
 4 files changed, 99 insertions(+), 96 deletions(-)

diff --git a/src/as/arch/x64/asm_code.c b/src/as/arch/x64/asm_code.c
index 266f723..6bf79f6 100644
--- a/src/as/arch/x64/asm_code.c
+++ b/src/as/arch/x64/asm_code.c
@@ -846,6 +846,8 @@ static unsigned char *asm_pop_r(Inst *inst, Code *code) {
 }
 
 static unsigned char *asm_jmp_d(Inst *inst, Code *code) {
+  if (inst->opr[0].direct.expr->kind != EX_LABEL)
+    return NULL;
   MAKE_CODE(inst, code, 0xeb, IM8(0));  // Short jmp in default.
   return code->buf;
 }
@@ -866,11 +868,15 @@ static unsigned char *asm_jmp_dei(Inst *inst, Code *code) {
 }
 
 static unsigned char *asm_jxx_d(Inst *inst, Code *code) {
+  if (inst->opr[0].direct.expr->kind != EX_LABEL)
+    return NULL;
   MAKE_CODE(inst, code, 0x70 + (inst->op - JO), IM8(0));  // Short jmp in default.
   return code->buf;
 }
 
 static unsigned char *asm_call_d(Inst *inst, Code *code) {
+  if (inst->opr[0].direct.expr->kind != EX_LABEL)
+    return NULL;
   MAKE_CODE(inst, code, 0xe8, IM32(0));
   return code->buf;
 }
diff --git a/src/as/arch/x64/ir_asm_x64.c b/src/as/arch/x64/ir_asm_x64.c
index 1f0a20d..aaa43cd 100644
--- a/src/as/arch/x64/ir_asm_x64.c
+++ b/src/as/arch/x64/ir_asm_x64.c
@@ -116,6 +116,53 @@ static bool make_jmp_long(IR *ir) {
   return true;
 }
 
+static void add_unresolved(Vector *unresolved, enum UnresolvedKind kind, const Value *value,
+                           SectionInfo *section, uint64_t offset, int64_t add) {
+  UnresolvedInfo *info = malloc_or_die(sizeof(*info));
+  info->kind = kind;
+  info->label = value->label;
+  info->src_section = section;
+  info->offset = offset;
+  info->add = value->offset + add;
+  vec_push(unresolved, info);
+}
+
+// Size of immediate value which is put after memory operand.
+static int trailing_imm_size(const Inst *inst) {
+  switch (inst->op) {
+  case MOVB_IMI:  return 1;
+  case MOVW_IMI:  return 2;
+  case MOVL_IMI: case MOVQ_IMI:  return 4;
+  case ADDQ: case SUBQ:  return is_im8(inst->opr[0].immediate) ? 1 : 4;
+  default:  return 0;
+  }
+}
+
+// label(%rip)
+static void resolve_rip_relative(IR *ir, const Operand *opr, uint64_t start_address,
+                                 SectionInfo *section, Table *label_table, Vector *unresolved) {
+  if (opr->type != INDIRECT || opr->indirect.reg.no != RIP ||
+      opr->indirect.offset.expr->kind == EX_FIXNUM)
+    return;
+
+  Value value = calc_expr(label_table, opr->indirect.offset.expr);
+  if (value.label == NULL)
+    error("Label expected");
+
+  enum UnresolvedKind kind = UNRES_EXTERN_PC32;
+#if XCC_TARGET_PLATFORM == XCC_PLATFORM_APPLE
+  if (ir->code.inst->op == MOV_IR && table_get(label_table, value.label) == NULL)
+    kind = UNRES_X64_GOT_LOAD;
+#endif
+  int tail = trailing_imm_size(ir->code.inst) + (int)sizeof(int32_t);
+  int pos = ir->code.len - tail;
+  add_unresolved(unresolved, kind, &value, section, ir->address + pos - start_address, -tail);
+#if XCC_TARGET_PLATFORM == XCC_PLATFORM_APPLE
+  if (kind == UNRES_EXTERN_PC32)
+    put_value(ir->code.buf + pos, value.offset, sizeof(int32_t));
+#endif
+}
+
 bool resolve_relative_address(Vector *sections, Table *label_table, Vector *unresolved) {
   assert(unresolved != NULL);
   vec_clear(unresolved);
@@ -131,74 +178,30 @@ bool resolve_relative_address(Vector *sections, Table *label_table, Vector *unre
       case IR_CODE:
         {
           Inst *inst = ir->code.inst;
+          for (int j = 0; j < (int)ARRAY_SIZE(inst->opr); ++j)
+            resolve_rip_relative(ir, &inst->opr[j], start_address, section, label_table, unresolved);
+
           switch (inst->op) {
-          case MOV_IR:
-            if (inst->opr[0].indirect.reg.no == RIP) {
-              Value value = calc_expr(label_table, inst->opr[0].indirect.offset.expr);
-              if (value.label != NULL) {
-                LabelInfo *label_info = table_get(label_table, value.label);
-                if (label_info == NULL) {
-                  UnresolvedInfo *info = malloc_or_die(sizeof(*info));
-                  info->kind = UNRES_X64_GOT_LOAD;
-                  info->label = value.label;
-                  info->src_section = section;
-                  info->offset = address + 3 - start_address;
-                  info->add = value.offset - 4;
-                  vec_push(unresolved, info);
-                  break;
-                }
-              }
-            }
-            break;
-          case LEA_IR:
-            if (/*inst->opr[0].type == INDIRECT &&*/
-                inst->opr[0].indirect.reg.no == RIP &&
-                inst->opr[0].indirect.offset.expr->kind != EX_FIXNUM) {
-              Value value = calc_expr(label_table, inst->opr[0].indirect.offset.expr);
-              if (value.label != NULL) {
-                UnresolvedInfo *info = malloc_or_die(sizeof(*info));
-                info->kind = UNRES_EXTERN_PC32;
-                info->label = value.label;
-                info->src_section = section;
-                info->offset = address + 3 - start_address;
-                info->add = value.offset - 4;
-                vec_push(unresolved, info);
-#if XCC_TARGET_PLATFORM == XCC_PLATFORM_APPLE
-                put_value(ir->code.buf + 3, value.offset, sizeof(int32_t));
-#endif
-              } else {
-                int64_t offset = value.offset - (address + ir->code.len);
-                put_value(ir->code.buf + 3, offset, sizeof(int32_t));
-              }
-            }
-            break;
           case JMP_D:
           case JO: case JNO: case JB:  case JAE:
           case JE: case JNE: case JBE: case JA:
           case JS: case JNS: case JP:  case JNP:
           case JL: case JGE: case JLE: case JG:
-            if (inst->opr[0].type == DIRECT) {
+            {
+              int d = inst->op == JMP_D ? 1 : 2;
               Value value = calc_expr(label_table, inst->opr[0].direct.expr);
-              if (value.label != NULL) {
-                LabelInfo *label_info = table_get(label_table, value.label);
-                if (label_info == NULL) {
-                  // Make unresolved label jmp to long.
-                  size_upgraded |= make_jmp_long(ir);
-
-                  UnresolvedInfo *info = malloc_or_die(sizeof(*info));
-                  info->kind = UNRES_EXTERN;
-                  info->label = value.label;
-                  info->src_section = section;
-                  info->offset = address + 1 - start_address;
-                  info->add = value.offset - 4;
-                  vec_push(unresolved, info);
-                  break;
-                } else {
-                  value.offset += label_info->address;
-                }
+              assert(value.label != NULL);
+              LabelInfo *label_info = table_get(label_table, value.label);
+              if (label_info == NULL || !(label_info->flag & LF_DEFINED) ||
+                  (label_info->flag & LF_WEAK) || label_info->section != section) {
+                // The linker decides the destination: make jmp long.
+                size_upgraded |= make_jmp_long(ir);
+                add_unresolved(unresolved, UNRES_EXTERN, &value, section,
+                               address + d - start_address, -4);
+                break;
               }
 
-              int64_t offset = value.offset - (address + ir->code.len);
+              int64_t offset = value.offset + label_info->address - (address + ir->code.len);
               bool long_offset = ir->code.flag & INST_LONG_OFFSET;
               if (!long_offset) {
                 if (!is_im8(offset)) {
@@ -209,27 +212,16 @@ bool resolve_relative_address(Vector *sections, Table *label_table, Vector *unre
               } else {
                 if (!is_im32(offset))
                   error("Jump offset too far (over 32bit)");
-
-                int d = inst->op == JMP_D ? 1 : 2;
                 put_value(ir->code.buf + d, offset, sizeof(int32_t));
               }
             }
             break;
           case CALL_D:
-            if (inst->opr[0].type == DIRECT) {
+            {
               Value value = calc_expr(label_table, inst->opr[0].direct.expr);
-              if (value.label != NULL) {
-                UnresolvedInfo *info = malloc_or_die(sizeof(*info));
-                info->kind = UNRES_EXTERN;
-                info->label = value.label;
-                info->src_section = section;
-                info->offset = address + 1 - start_address;
-                info->add = value.offset - 4;
-                vec_push(unresolved, info);
-                break;
-              }
-              int64_t offset = value.offset - (address + ir->code.len);
-              put_value(ir->code.buf + 1, offset, sizeof(int32_t));
+              assert(value.label != NULL);
+              add_unresolved(unresolved, UNRES_EXTERN, &value, section,
+                             address + 1 - start_address, -4);
             }
             break;
           default:
@@ -243,15 +235,16 @@ bool resolve_relative_address(Vector *sections, Table *label_table, Vector *unre
       case IR_EXPR_QUAD:
         {
           Value value = calc_expr(label_table, ir->expr.expr);
-          assert(value.label != NULL);
-          UnresolvedInfo *info = malloc_or_die(sizeof(*info));
-          info->kind = UNRES_ABS64;  // TODO:
-          info->label = value.label;
-          info->src_section = section;
-          info->offset = address - start_address;
-          info->add = value.offset;
+          if (value.label == NULL) {
+            ir->expr.addend = value.offset;  // Constant, such as difference of labels.
+            break;
+          }
+#if XCC_TARGET_PLATFORM == XCC_PLATFORM_APPLE
           ir->expr.addend = value.offset;
-          vec_push(unresolved, info);
+#endif
+          if (ir->kind != IR_EXPR_QUAD)
+            error("Label address must be put in 64bit");
+          add_unresolved(unresolved, UNRES_ABS64, &value, section, address - start_address, 0);
         }
         break;
       case IR_LABEL:
@@ -301,11 +294,7 @@ void emit_irs(Vector *sections) {
       case IR_EXPR_LONG:
       case IR_EXPR_QUAD:
         {
-#if XCC_TARGET_PLATFORM == XCC_PLATFORM_APPLE
           int64_t value = ir->expr.addend;
-#else
-          int64_t value = 0;
-#endif
           int size = 1 << (ir->kind - IR_EXPR_BYTE);
           sec_add_data(section, &value, size);  // TODO: Target endian
         }
diff --git a/src/as/ir_asm.h b/src/as/ir_asm.h
index 365e401..760a6b8 100644
--- a/src/as/ir_asm.h
+++ b/src/as/ir_asm.h
@@ -43,7 +43,7 @@ typedef struct {
   const Name *label;
   uintptr_t offset;
   SectionInfo *src_section;
-  int add;
+  int64_t add;
   enum UnresolvedKind kind;
 } UnresolvedInfo;
 
diff --git a/src/as/parse_asm.c b/src/as/parse_asm.c
index e815b7a..201a068 100644
--- a/src/as/parse_asm.c
+++ b/src/as/parse_asm.c
@@ -1107,10 +1107,12 @@ Value calc_expr(Table *label_table, const Expr *expr) {
       Value rhs = calc_expr(label_table, expr->bop.rhs);
       if (rhs.label != NULL) {
         if (expr->kind == EX_SUB && lhs.label != NULL) {
-          LabelInfo *llabel, *rlabel;
-          if (table_try_get(label_table, lhs.label, (void**)&llabel) &&
-              table_try_get(label_table, rhs.label, (void**)&rlabel)) {
-            return (Value){.label = NULL, .offset = llabel->address - rlabel->address};
+          LabelInfo *llabel = table_get(label_table, lhs.label);
+          LabelInfo *rlabel = table_get(label_table, rhs.label);
+          if (llabel != NULL && (llabel->flag & LF_DEFINED) &&
+              rlabel != NULL && (rlabel->flag & LF_DEFINED) && llabel->section == rlabel->section) {
+            return (Value){.label = NULL, .offset = (llabel->address + lhs.offset) -
+                                                    (rlabel->address + rhs.offset)};
           } else {
             error("Unresolved");
           }
@@ -1122,11 +1124,13 @@ Value calc_expr(Table *label_table, const Expr *expr) {
         return (Value){.label = rhs.label, .offset = lhs.offset + rhs.offset};
       }
       if (lhs.label != NULL) {
-        if (expr->kind != EX_ADD) {
-          error("Illegal expression");
+        // label + offset, label - offset
+        switch (expr->kind) {
+        case EX_ADD:  lhs.offset += rhs.offset; break;
+        case EX_SUB:  lhs.offset -= rhs.offset; break;
+        default:  error("Illegal expression"); break;
         }
-        // label + offset
-        return (Value){.label = lhs.label, .offset = lhs.offset + rhs.offset};
+        return lhs;
       }
 
       assert(lhs.label == NULL && rhs.label == NULL);
@@ -1134,7 +1138,11 @@ Value calc_expr(Table *label_table, const Expr *expr) {
       case EX_ADD:  lhs.offset += rhs.offset; break;
       case EX_SUB:  lhs.offset -= rhs.offset; break;
       case EX_MUL:  lhs.offset *= rhs.offset; break;
-      case EX_DIV:  lhs.offset /= rhs.offset; break;
+      case EX_DIV:
+        if (rhs.offset == 0)
+          error("Division by zero");
+        lhs.offset /= rhs.offset;
+        break;
       default: assert(false); break;
       }
       return lhs;
-- 
2.43.0


From 3c5062823e63b91675ddfbbb5af4d0249550f60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:35 +0000
Subject: [PATCH 107/162] fix: assembler computes wrong values of expressions

---
 src/as/arch/x64/parse_x64.c |  4 ++--
 src/as/parse_asm.c          | 30 ++++++++++++++++++++++++------
 2 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/src/as/arch/x64/parse_x64.c b/src/as/arch/x64/parse_x64.c
index 4b3043a..390db3f 100644
--- a/src/as/arch/x64/parse_x64.c
+++ b/src/as/arch/x64/parse_x64.c
@@ -306,7 +306,7 @@ static unsigned int parse_indirect_register(ParseInfo *info, ExprWithFlag *offse
     if (*info->p == ',') {
       info->p = skip_whitespaces(info->p + 1);
       scale = parse_expr(info);
-      if (scale->kind != EX_FIXNUM)
+      if (scale == NULL || scale->kind != EX_FIXNUM)
         parse_error(info, "constant value expected");
       info->p = skip_whitespaces(info->p);
     }
@@ -387,7 +387,7 @@ static unsigned int parse_deref_indirect(ParseInfo *info, Operand *operand) {
     if (*info->p == ',') {
       info->p = skip_whitespaces(info->p + 1);
       scale = parse_expr(info);
-      if (scale->kind != EX_FIXNUM)
+      if (scale == NULL || scale->kind != EX_FIXNUM)
         parse_error(info, "constant value expected");
       info->p = skip_whitespaces(info->p);
     }
diff --git a/src/as/parse_asm.c b/src/as/parse_asm.c
index 201a068..8a17df4 100644
--- a/src/as/parse_asm.c
+++ b/src/as/parse_asm.c
@@ -351,11 +351,16 @@ static const Token *fetch_token(ParseInfo *info) {
       char *q;
       unsigned long long v = strtoull(p, &q, base);
 #ifndef __NO_FLONUM
-      if (*q == '.' || tolower(*q) == 'e') {
+      if (base == 10 && (*q == '.' || tolower(*q) == 'e')) {
         info->p = p;
         return read_flonum(info, 10);
       }
 #endif
+      if (base == 10 && c == '0') {
+        v = strtoull(p, &q, 8);
+        if (isdigit(*q))
+          parse_error(info, "Illegal octal number");
+      }
       Token *token = new_token(TK_FIXNUM);
       token->fixnum = v;
       info->p = q;
@@ -451,8 +456,10 @@ static Expr *unary(ParseInfo *info) {
   const Token *tok;
   if ((tok = match(info, TK_ADD)) != NULL) {
     Expr *expr = unary(info);
-    if (expr == NULL)
+    if (expr == NULL) {
+      parse_error(info, "expression error");
       return NULL;
+    }
     switch (expr->kind) {
     case EX_FIXNUM:
     case EX_FLONUM:
@@ -468,8 +475,10 @@ static Expr *unary(ParseInfo *info) {
 
   if ((tok = match(info, TK_SUB)) != NULL) {
     Expr *expr = unary(info);
-    if (expr == NULL)
+    if (expr == NULL) {
+      parse_error(info, "expression error");
       return NULL;
+    }
     switch (expr->kind) {
     case EX_FIXNUM:
       expr->fixnum = -expr->fixnum;
@@ -509,7 +518,12 @@ static Expr *parse_mul(ParseInfo *info) {
     if (lhs->kind == EX_FIXNUM && rhs->kind == EX_FIXNUM) {
       switch (tok->kind) {
       case TK_MUL:  lhs->fixnum *= rhs->fixnum; break;
-      case TK_DIV:  lhs->fixnum += rhs->fixnum; break;
+      case TK_DIV:
+        if (rhs->fixnum == 0)
+          parse_error(info, "Division by zero");
+        else
+          lhs->fixnum /= rhs->fixnum;
+        break;
       default:  assert(false); break;
       }
     } else {
@@ -539,7 +553,7 @@ static Expr *parse_add(ParseInfo *info) {
     if (lhs->kind == EX_FIXNUM && rhs->kind == EX_FIXNUM) {
       switch (tok->kind) {
       case TK_ADD:  lhs->fixnum += rhs->fixnum; break;
-      case TK_SUB:  lhs->fixnum += rhs->fixnum; break;
+      case TK_SUB:  lhs->fixnum -= rhs->fixnum; break;
       default:  assert(false); break;
       }
     } else {
@@ -554,7 +568,11 @@ static Expr *parse_add(ParseInfo *info) {
 
 Expr *parse_expr(ParseInfo *info) {
   info->prefetched = NULL;
-  return parse_add(info);
+  Expr *expr = parse_add(info);
+  const Token *tok = info->prefetched;
+  if (expr != NULL && tok != NULL && tok->kind != TK_EOF && tok->kind != TK_UNKNOWN)
+    parse_error(info, "Syntax error");
+  return expr;
 }
 
 static void check_line_end(ParseInfo *info) {
-- 
2.43.0


From 032e95080b82305efa1380013ca43bc42490e504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:31 +0000
Subject: [PATCH 108/162] fix: assembler ignores the rest of directives, and
 fails on comments in them

---
 src/as/parse_asm.c | 181 ++++++++++++++++++++++++++++++---------------
 1 file changed, 122 insertions(+), 59 deletions(-)

diff --git a/src/as/parse_asm.c b/src/as/parse_asm.c
index 8a17df4..99600da 100644
--- a/src/as/parse_asm.c
+++ b/src/as/parse_asm.c
@@ -576,25 +576,9 @@ Expr *parse_expr(ParseInfo *info) {
 }
 
 static void check_line_end(ParseInfo *info) {
-  const char *p = info->p;
-  for (;;) {
-    const char *q = block_comment_start(p);
-    if (q == NULL)
-      break;
-    p = block_comment_end(q);
-    if (p == NULL) {
-      parse_error(info, "Block comment not closed");
-      return;
-    }
-  }
-  p = skip_whitespaces(p);
-  if (*p != '\0' && !(*p == '/' && p[1] == '/')) {
+  const char *p = skip_whitespaces(info->p);
+  if (*p != '\0')
     parse_error(info, "Syntax error");
-  }
-}
-
-static bool is_comment_line(const char *p) {
-  return block_comment_start(p) != NULL || (*p == '/' && p[1] == '/');
 }
 
 #define R_NOOP  0
@@ -679,13 +663,46 @@ void parse_inst(ParseInfo *info, Line *line) {
   }
 }
 
+// Replace comments with a space.
+static const char *strip_comments(ParseInfo *info) {
+  const char *src = info->rawline;
+  if (strstr(src, "/*") == NULL && strstr(src, "//") == NULL)
+    return src;
+
+  char *dst = malloc_or_die(strlen(src) + 1), *d = dst;
+  for (const char *p = src; *p != '\0'; ) {
+    if (*p == '"') {
+      do {
+        if (*p == '\\' && p[1] != '\0')
+          *d++ = *p++;
+        *d++ = *p++;
+      } while (*p != '\0' && *p != '"');
+      if (*p == '"')
+        *d++ = *p++;
+    } else if (*p == '/' && p[1] == '/') {
+      break;
+    } else if (*p == '/' && p[1] == '*') {
+      p = block_comment_end(p + 2);
+      if (p == NULL) {
+        parse_error(info, "Block comment not closed");
+        break;
+      }
+      *d++ = ' ';
+    } else {
+      *d++ = *p++;
+    }
+  }
+  *d = '\0';
+  return dst;
+}
+
 Line *parse_line(ParseInfo *info) {
   Line *line = calloc_or_die(sizeof(*line));
   line->label = NULL;
   line->inst.op = NOOP;
   line->dir = NODIRECTIVE;
 
-  const char *p = skip_whitespaces(info->rawline);
+  const char *p = skip_whitespaces(strip_comments(info));
   info->p = p;
   if (*p == '\0')
     return line;
@@ -721,7 +738,7 @@ Line *parse_line(ParseInfo *info) {
       int error_count = info->error_count;
       parse_inst(info, line);
       check_line_end(info);
-      if (line->inst.op == NOOP && info->error_count == error_count && !is_comment_line(p))
+      if (line->inst.op == NOOP && info->error_count == error_count)
         parse_error(info, "Illegal operand");
     }
   }
@@ -770,11 +787,14 @@ static size_t unescape_string(ParseInfo *info, char *dst) {
   size_t len = 0;
   for (; *info->p != '"'; ++info->p, ++len) {
     char c = *info->p;
-    if (c == '\0')
-      parse_error(info, "string not closed");
     if (c == '\\') {
       ++info->p;
-      c = unescape_char(info);
+      if (*info->p != '\0')
+        c = unescape_char(info);
+    }
+    if (*info->p == '\0') {
+      parse_error(info, "string not closed");
+      return len;
     }
     if (dst != NULL)
       *dst++ = c;
@@ -783,6 +803,22 @@ static size_t unescape_string(ParseInfo *info, char *dst) {
   return len;
 }
 
+// Whether the list of operands continues.
+static bool match_comma(ParseInfo *info) {
+  info->p = skip_whitespaces(info->p);
+  if (*info->p != ',')
+    return false;
+  info->p = skip_whitespaces(info->p + 1);
+  return true;
+}
+
+static void push_align(ParseInfo *info, int64_t align) {
+  if (align < 0 || align > (1 << 30) || (align & (align - 1)) != 0)
+    parse_error(info, "Illegal alignment");
+  else if (align > 1)
+    vec_push(info->current_section->irs, new_ir_align(align));
+}
+
 #if XCC_TARGET_PLATFORM != XCC_PLATFORM_APPLE
 static char *parse_string(ParseInfo *info) {
   const char *start = skip_whitespaces(info->p);
@@ -821,7 +857,7 @@ static uint32_t parse_section_flag(ParseInfo *info) {
 }
 #endif
 
-void handle_directive(ParseInfo *info, enum DirectiveType dir) {
+static void parse_directive(ParseInfo *info, enum DirectiveType dir) {
   SectionInfo *section = info->current_section;
   Vector *irs = section->irs;
 
@@ -830,12 +866,17 @@ void handle_directive(ParseInfo *info, enum DirectiveType dir) {
     break;
   case DT_ASCII:
   case DT_STRING:
-    {
-      if (*info->p != '"')
+    do {
+      if (*info->p != '"') {
         parse_error(info, "`\"' expected");
+        break;
+      }
       ++info->p;
       const char *p = info->p;
+      int error_count = info->error_count;
       size_t len = unescape_string(info, NULL);
+      if (info->error_count != error_count)
+        break;
       if (dir == DT_STRING)
         ++len;
       char *str = calloc_or_die(len);
@@ -843,7 +884,7 @@ void handle_directive(ParseInfo *info, enum DirectiveType dir) {
       unescape_string(info, str);
 
       vec_push(irs, new_ir_data(str, len));
-    }
+    } while (match_comma(info));
     break;
 
   case DT_COMM:
@@ -862,8 +903,7 @@ void handle_directive(ParseInfo *info, enum DirectiveType dir) {
       }
 
       int64_t align = 0;
-      if (*info->p == ',') {
-        info->p = skip_whitespaces(info->p + 1);
+      if (match_comma(info)) {
         if (!immediate(&info->p, &align) ||
 #if XCC_TARGET_PLATFORM == XCC_PLATFORM_APPLE
             align < 0
@@ -878,6 +918,10 @@ void handle_directive(ParseInfo *info, enum DirectiveType dir) {
         // p2align on macOS.
         align = 1 << align;
 #endif
+        if (align > (1 << 30) || (align & (align - 1)) != 0) {
+          parse_error(info, ".comm: illegal alignment");
+          return;
+        }
       }
 
       SectionInfo *section = get_section_info(info, kSecBss, kSegBss, SF_BSS | SF_WRITABLE);
@@ -899,9 +943,10 @@ void handle_directive(ParseInfo *info, enum DirectiveType dir) {
   case DT_ZERO:
     {
       int64_t num;
-      if (!immediate(&info->p, &num))
+      if (!immediate(&info->p, &num) || num < 0)
         parse_error(info, ".zero: number expected");
-      vec_push(irs, new_ir_zero(num));
+      else
+        vec_push(irs, new_ir_zero(num));
     }
     break;
 
@@ -922,15 +967,17 @@ void handle_directive(ParseInfo *info, enum DirectiveType dir) {
       int64_t align;
       if (!immediate(&info->p, &align))
         parse_error(info, ".align: number expected");
-      vec_push(irs, new_ir_align(align));
+      else
+        push_align(info, align);
     }
     break;
   case DT_P2ALIGN:
     {
       int64_t align;
-      if (!immediate(&info->p, &align))
-        parse_error(info, ".align: number expected");
-      vec_push(irs, new_ir_align(1 << align));
+      if (!immediate(&info->p, &align) || align < 0 || align > 30)
+        parse_error(info, ".p2align: number expected");
+      else
+        push_align(info, (int64_t)1 << align);
     }
     break;
 
@@ -941,17 +988,27 @@ void handle_directive(ParseInfo *info, enum DirectiveType dir) {
         parse_error(info, ".type: label expected");
         break;
       }
-      if (*info->p != ',') {
+      if (!match_comma(info)) {
         parse_error(info, ".type: `,' expected");
         break;
       }
-      info->p = skip_whitespaces(info->p + 1);
+      static const struct {
+        const char *name;
+        enum LabelKind kind;
+      } kKinds[] = {
+        {"@function", LK_FUNC},
+        {"@object", LK_OBJECT},
+      };
       enum LabelKind kind = LK_NONE;
-      if (strcmp(info->p, "@function") == 0) {
-        kind = LK_FUNC;
-      } else if (strcmp(info->p, "@object") == 0) {
-        kind = LK_OBJECT;
-      } else {
+      for (size_t i = 0; i < ARRAY_SIZE(kKinds); ++i) {
+        size_t n = strlen(kKinds[i].name);
+        if (strncmp(info->p, kKinds[i].name, n) == 0 && !is_label_chr(info->p[n])) {
+          kind = kKinds[i].kind;
+          info->p += n;
+          break;
+        }
+      }
+      if (kind == LK_NONE) {
         parse_error(info, "illegal .type");
         break;
       }
@@ -967,14 +1024,13 @@ void handle_directive(ParseInfo *info, enum DirectiveType dir) {
   case DT_SHORT:
   case DT_LONG:
   case DT_QUAD:
-    {
+    do {
       Expr *expr = parse_expr(info);
-      if (expr == NULL) {
+      if (expr == NULL || expr->kind == EX_FLONUM) {
         parse_error(info, "expression expected");
         break;
       }
 
-      assert(expr->kind != EX_FLONUM);
       if (expr->kind == EX_FIXNUM) {
         // TODO: Target endian.
         long value = expr->fixnum;
@@ -986,28 +1042,20 @@ void handle_directive(ParseInfo *info, enum DirectiveType dir) {
       } else {
         vec_push(irs, new_ir_expr((enum IrKind)(IR_EXPR_BYTE + (dir - DT_BYTE)), expr));
       }
-    }
+    } while (match_comma(info));
     break;
 
 #ifndef __NO_FLONUM
   case DT_FLOAT:
   case DT_DOUBLE:
-    {
+    do {
       Expr *expr = parse_expr(info);
-      if (expr == NULL) {
-        parse_error(info, "expression expected");
+      if (expr == NULL || (expr->kind != EX_FIXNUM && expr->kind != EX_FLONUM)) {
+        parse_error(info, "number expected");
         break;
       }
 
-      Flonum value;
-      switch (expr->kind) {
-      case EX_FIXNUM:  value = expr->fixnum; break;
-      case EX_FLONUM:  value = expr->flonum; break;
-      default:
-        assert(false);
-        value = -1;
-        break;
-      }
+      Flonum value = expr->kind == EX_FIXNUM ? (Flonum)expr->fixnum : expr->flonum;
       int size;
       switch (dir) {
       default: assert(false); // Fallthrough
@@ -1023,7 +1071,7 @@ void handle_directive(ParseInfo *info, enum DirectiveType dir) {
         memcpy(buf, (void*)&dval, sizeof(dval));  // TODO: Endian
       }
       vec_push(irs, new_ir_data(buf, size));
-    }
+    } while (match_comma(info));
     break;
 #endif
 
@@ -1062,6 +1110,12 @@ void handle_directive(ParseInfo *info, enum DirectiveType dir) {
       if (*p == ',') {
         info->p = p + 1;
         flag = parse_section_flag(info);
+        if (match_comma(info)) {  // @progbits, etc.
+          if (*info->p == '@')
+            ++info->p;
+          if (parse_section_name(info) == NULL)
+            parse_error(info, ".section: type expected");
+        }
       }
 
       char *sectname = strndup(name->chars, name->bytes);
@@ -1105,10 +1159,19 @@ void handle_directive(ParseInfo *info, enum DirectiveType dir) {
     break;
 
   case DT_EXTERN:
+    if (parse_label(info) == NULL)
+      parse_error(info, ".extern: label expected");
     break;
   }
 }
 
+void handle_directive(ParseInfo *info, enum DirectiveType dir) {
+  int error_count = info->error_count;
+  parse_directive(info, dir);
+  if (info->error_count == error_count)
+    check_line_end(info);
+}
+
 Value calc_expr(Table *label_table, const Expr *expr) {
   assert(expr != NULL);
   switch (expr->kind) {
-- 
2.43.0


From dfd83d62314751042ec69b0ffdfd4fe1014de0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:48 +0000
Subject: [PATCH 109/162] fix: assembler does not handle octal escapes in
 strings

---
 src/as/parse_asm.c | 9 ++++++++-
 src/util/util.c    | 6 +++---
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/as/parse_asm.c b/src/as/parse_asm.c
index 99600da..1fd4a0e 100644
--- a/src/as/parse_asm.c
+++ b/src/as/parse_asm.c
@@ -754,7 +754,14 @@ static char unescape_char(ParseInfo *info) {
   const char *p = info->p;
   char c = *p++;
   switch (c) {
-  case '0':  return '\0';
+  case '0': case '1': case '2': case '3': case '4': case '5': case '6': case '7':
+    {
+      c -= '0';
+      for (int i = 0; i < 2 && '0' <= *p && *p <= '7'; ++i, ++p)
+        c = (c << 3) | (*p - '0');
+      info->p = p - 1;
+      return c;
+    }
   case 'x':
     {
       c = 0;
diff --git a/src/util/util.c b/src/util/util.c
index 02745a8..009b841 100644
--- a/src/util/util.c
+++ b/src/util/util.c
@@ -617,9 +617,9 @@ static const char *escape_hex(int c) {
   return s;
 }
 
-static const char *escape(int c) {
+static const char *escape(int c, int next) {
   switch (c) {
-  case '\0': return "\\0";
+  case '\0': return isdigit(next) ? "\\000" : "\\0";
   case '\n': return "\\n";
   case '\r': return "\\r";
   case '\t': return "\\t";
@@ -641,7 +641,7 @@ void escape_string(const char *str, size_t size, StringBuffer *sb) {
     if (hex && isxdigit(*p)) {
       e = escape_hex(*p);
     } else {
-      e = escape(*p);
+      e = escape(*p, p + 1 < end ? (unsigned char)p[1] : -1);
       if (e == NULL) {
         hex = false;
         continue;
-- 
2.43.0


From d79596182f5a955508829c71f71ba700a815732e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:04 +0000
Subject: [PATCH 110/162] fix: assembler defines undefined symbols, and fails
 for labels in empty sections

---
 src/as/as.c        | 16 ++++++++++++++--
 src/as/emit_elf.c  | 25 +++++++++++++++++++------
 src/as/parse_asm.c | 16 ++++++++++++++--
 3 files changed, 47 insertions(+), 10 deletions(-)

diff --git a/src/as/as.c b/src/as/as.c
index 30f02a6..48e9184 100644
--- a/src/as/as.c
+++ b/src/as/as.c
@@ -16,6 +16,17 @@
 #define LOAD_ADDRESS    START_ADDRESS
 #define DATA_ALIGN      (0x1000)
 
+// Whether the last IR can be put in the bss section.
+static bool is_bss_irs(Vector *irs) {
+  if (irs->len == 0)
+    return true;
+  const IR *ir = irs->data[irs->len - 1];
+  switch (ir->kind) {
+  case IR_LABEL: case IR_BSS: case IR_ZERO: case IR_ALIGN:  return true;
+  default:  return false;
+  }
+}
+
 static void parse_file(FILE *fp, ParseInfo *info) {
   info->lineno = 1;
   info->rawline = info->p = NULL;
@@ -51,6 +62,9 @@ static void parse_file(FILE *fp, ParseInfo *info) {
     } else {
       handle_directive(info, line->dir);
     }
+
+    if ((section->flag & SF_BSS) && !is_bss_irs(irs))
+      parse_error(info, "Initialized data in bss section");
   }
 }
 
@@ -78,8 +92,6 @@ static void fix_section_size(Vector *sections, uintptr_t start_address) {
   uintptr_t addr = start_address;
   for (int i = 0; i < sections->len; ++i) {
     SectionInfo *section = sections->data[i];
-    if ((section->flag & SF_BSS ? section->bss_size : section->ds->len) <= 0)
-      continue;
     section->start_address = addr = ALIGN(addr, section->align);
     addr += (section->flag & SF_BSS) ? section->bss_size : section->ds->len;
   }
diff --git a/src/as/emit_elf.c b/src/as/emit_elf.c
index c5c1156..a92f8f6 100644
--- a/src/as/emit_elf.c
+++ b/src/as/emit_elf.c
@@ -73,6 +73,18 @@ void symtab_concat(Symtab *dest, Symtab *src) {
 
 //
 
+// Section which has contents, or labels.
+static bool is_output_section(const SectionInfo *section) {
+  if ((section->flag & SF_BSS ? section->bss_size : section->ds->len) > 0)
+    return true;
+  for (int i = 0; i < section->irs->len; ++i) {
+    const IR *ir = section->irs->data[i];
+    if (ir->kind == IR_LABEL)
+      return true;
+  }
+  return false;
+}
+
 static int construct_symtab(Symtab *symtab, Vector *sections, Table *label_table) {
   symtab_init(symtab);
 
@@ -96,7 +108,7 @@ static int construct_symtab(Symtab *symtab, Vector *sections, Table *label_table
   // SECTION
   for (int i = 0; i < sections->len; ++i) {
     SectionInfo *section = sections->data[i];
-    if ((section->flag & SF_BSS ? section->bss_size : section->ds->len) <= 0)
+    if (!is_output_section(section))
       continue;
     sym = symtab_add(symtab, nulname);
     sym->st_info = ELF64_ST_INFO(STB_LOCAL, STT_SECTION);
@@ -109,9 +121,9 @@ static int construct_symtab(Symtab *symtab, Vector *sections, Table *label_table
     int bind;
     if (info->flag & LF_WEAK) {
       bind = STB_WEAK;
-    } else if (info->flag & LF_GLOBAL) {
+    } else if (info->flag & LF_GLOBAL || (info->flag & (LF_DEFINED | LF_REFERRED)) == LF_REFERRED) {
       bind = STB_GLOBAL;
-    } else if (info->flag & LF_REFERRED || info->kind == LK_FUNC) {
+    } else if (info->flag & LF_DEFINED && (info->flag & LF_REFERRED || info->kind == LK_FUNC)) {
       bind = STB_LOCAL;
     } else {
       continue;
@@ -324,7 +336,7 @@ int emit_elf_obj(const char *ofn, Vector *sections, Table *label_table, Vector *
   int out_section_count = 0;
   for (int sec = 0; sec < sections->len; ++sec) {
     SectionInfo *section = sections->data[sec];
-    if ((section->flag & SF_BSS ? section->bss_size : section->ds->len) <= 0)
+    if (!is_output_section(section))
       continue;
     section->index = ++out_section_count;
   }
@@ -341,8 +353,9 @@ int emit_elf_obj(const char *ofn, Vector *sections, Table *label_table, Vector *
   for (int sec = 0; sec < sections->len; ++sec) {
     SectionInfo *section = sections->data[sec];
     size_t size;
-    if (section->ds == NULL || (size = section->ds->len) <= 0)
+    if (section->ds == NULL || !is_output_section(section))
       continue;
+    size = section->ds->len;
     section->offset = addr = ALIGN(addr, ELF_MIN_ALIGN);
     addr += size;
   }
@@ -387,7 +400,7 @@ int emit_elf_obj(const char *ofn, Vector *sections, Table *label_table, Vector *
   for (int sec = 0; sec < sections->len; ++sec) {
     SectionInfo *section = sections->data[sec];
     size_t size = section->ds != NULL ? section->ds->len : section->bss_size;
-    if (size <= 0)
+    if (!is_output_section(section))
       continue;
     Elf64_Xword flags = SHF_ALLOC;
     if (section->flag & SF_EXECUTABLE)
diff --git a/src/as/parse_asm.c b/src/as/parse_asm.c
index 1fd4a0e..f55885f 100644
--- a/src/as/parse_asm.c
+++ b/src/as/parse_asm.c
@@ -120,7 +120,7 @@ LabelInfo *add_label_table(Table *label_table, const Name *label, SectionInfo *s
       info->section = section;
     }
   } else {
-    info = new_label(section);
+    info = new_label(define ? section : NULL);
     table_put(label_table, label, info);
   }
   if (define)
@@ -1112,11 +1112,23 @@ static void parse_directive(ParseInfo *info, enum DirectiveType dir) {
         return;
       }
 #if XCC_TARGET_PLATFORM != XCC_PLATFORM_APPLE
+      static const struct {
+        const char *name;
+        int flag;
+      } kDefaultFlags[] = {
+        {kSecText, SF_EXECUTABLE},
+        {kSecData, SF_WRITABLE},
+        {kSecBss, SF_BSS | SF_WRITABLE},
+      };
       int flag = 0;
+      for (size_t i = 0; i < ARRAY_SIZE(kDefaultFlags); ++i) {
+        if (equal_name(name, alloc_name(kDefaultFlags[i].name, NULL, false)))
+          flag = kDefaultFlags[i].flag;
+      }
       const char *p = skip_whitespaces(info->p);
       if (*p == ',') {
         info->p = p + 1;
-        flag = parse_section_flag(info);
+        flag = (flag & SF_BSS) | parse_section_flag(info);
         if (match_comma(info)) {  // @progbits, etc.
           if (*info->p == '@')
             ++info->p;
-- 
2.43.0


From 0427ab9d1dd4363c4f428562fb8a9864b8e68573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:23 +0000
Subject: [PATCH 111/162] fix: assembler pads code with invalid instructions

---
 src/as/arch/x64/ir_asm_x64.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/as/arch/x64/ir_asm_x64.c b/src/as/arch/x64/ir_asm_x64.c
index aaa43cd..e55d8de 100644
--- a/src/as/arch/x64/ir_asm_x64.c
+++ b/src/as/arch/x64/ir_asm_x64.c
@@ -23,12 +23,20 @@ static void sec_add_bss(SectionInfo *section, size_t size) {
   section->bss_size += size;
 }
 
+static void sec_align_code(SectionInfo *section, size_t align) {
+  static const unsigned char kNop = 0x90;
+  while (section->ds->len % align != 0)
+    sec_add_code(section, &kNop, 1);
+}
+
 static void sec_align_size(SectionInfo *section, size_t align) {
   if (align > section->align)
     section->align = align;
 
   if (section->flag & SF_BSS)
     section->bss_size = ALIGN(section->bss_size, align);
+  else if (section->flag & SF_EXECUTABLE)
+    sec_align_code(section, align);
   else
     data_align(section->ds, align);
 }
-- 
2.43.0


From 69e86a20ecc1ca9415725c969cd697fd42bc6348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:13 +0000
Subject: [PATCH 112/162] fix: common symbols are not merged as C requires, and
 bss may exceed its segment

---
 src/as/emit_elf.c  |   8 ++--
 src/as/parse_asm.c |  17 +++++---
 src/ld/elfobj.c    |   5 ---
 src/ld/elfobj.h    |   1 -
 src/ld/ld.c        | 100 +++++++++++++++++++++++++++++++++------------
 5 files changed, 91 insertions(+), 40 deletions(-)

diff --git a/src/as/emit_elf.c b/src/as/emit_elf.c
index a92f8f6..a35efe8 100644
--- a/src/as/emit_elf.c
+++ b/src/as/emit_elf.c
@@ -139,13 +139,15 @@ static int construct_symtab(Symtab *symtab, Vector *sections, Table *label_table
     sym->st_info = ELF64_ST_INFO(bind, type);
     sym->st_value = (info->flag & LF_DEFINED) ? info->address - info->section->start_address : 0;
     sym->st_size = info->size;
-    assert(info->section == NULL || info->section->index > 0);
     Elf64_Section shndx = SHN_UNDEF;
     if (info->section != NULL) {
-      if ((info->flag & (LF_COMM | LF_GLOBAL)) == (LF_COMM | LF_GLOBAL))
+      if ((info->flag & (LF_COMM | LF_GLOBAL)) == (LF_COMM | LF_GLOBAL)) {
         shndx = SHN_COMMON;
-      else
+        sym->st_value = MAX(info->align, 1);  // The linker allocates it.
+      } else {
+        assert(info->section->index > 0);
         shndx = info->section->index;  // Symbol index for Local section.
+      }
     }
     sym->st_shndx = shndx;
   }
diff --git a/src/as/parse_asm.c b/src/as/parse_asm.c
index f55885f..c47f3d6 100644
--- a/src/as/parse_asm.c
+++ b/src/as/parse_asm.c
@@ -932,18 +932,23 @@ static void parse_directive(ParseInfo *info, enum DirectiveType dir) {
       }
 
       SectionInfo *section = get_section_info(info, kSecBss, kSegBss, SF_BSS | SF_WRITABLE);
-      irs = section->irs;
-      if (align > 1)
-        vec_push(irs, new_ir_align(align));
-      vec_push(irs, new_ir_label(name));
-      vec_push(irs, new_ir_bss(size));
-
       LabelInfo *label = add_label_table(info->label_table, name, section, true, false);
       if (label == NULL)
         return;
       label->size = size;
       label->align = align;
       label->flag |= LF_COMM;
+
+#if XCC_TARGET_PLATFORM != XCC_PLATFORM_APPLE
+      // Global one is allocated by the linker.
+      if (label->flag & LF_GLOBAL)
+        break;
+#endif
+      irs = section->irs;
+      if (align > 1)
+        vec_push(irs, new_ir_align(align));
+      vec_push(irs, new_ir_label(name));
+      vec_push(irs, new_ir_bss(size));
     }
     break;
 
diff --git a/src/ld/elfobj.c b/src/ld/elfobj.c
index c6f0ae2..f807091 100644
--- a/src/ld/elfobj.c
+++ b/src/ld/elfobj.c
@@ -94,7 +94,6 @@ ElfObj *read_elf(FILE *fp, const char *fn) {
   elfobj->shdrs = shdrs;
   elfobj->symbol_table = NULL;
   elfobj->symtab_section = NULL;
-  elfobj->nobit_shndx = -1;
 
   Vector *prog_sections = new_vector();
   ElfSectionInfo *section_infos = calloc_or_die(ehdr.e_shnum * sizeof(ElfSectionInfo));
@@ -107,10 +106,6 @@ ElfObj *read_elf(FILE *fp, const char *fn) {
     if (shdr->sh_size > 0) {
       switch (shdr->sh_type) {
       case SHT_NOBITS:
-        if (elfobj->nobit_shndx >= 0)
-          error("Multiple NOBITS sections not supported");
-        elfobj->nobit_shndx = i;
-        // Fallthrough
       case SHT_PROGBITS:
       case SHT_INIT_ARRAY:
       case SHT_FINI_ARRAY:
diff --git a/src/ld/elfobj.h b/src/ld/elfobj.h
index b0b5662..2d84024 100644
--- a/src/ld/elfobj.h
+++ b/src/ld/elfobj.h
@@ -43,7 +43,6 @@ typedef struct ElfObj {
   Vector *prog_sections;  // <ElfSectionInfo*>, PROGBITS, NOBITS, INIT_ARRAY, FINI_ARRAY, PREINIT_ARRAY
   ElfSectionInfo *section_infos;
   ElfSectionInfo *symtab_section;
-  int nobit_shndx;
 } ElfObj;
 
 ElfObj *read_elf(FILE *fp, const char *fn);
diff --git a/src/ld/ld.c b/src/ld/ld.c
index 79833f2..21e3dfe 100644
--- a/src/ld/ld.c
+++ b/src/ld/ld.c
@@ -78,11 +78,21 @@ typedef struct {
   size_t bss_size;
 } SectionGroup;
 
+// Storage of a common symbol: merged all over the objects.
+typedef struct {
+  const Name *name;
+  uint64_t address;
+  size_t size;
+  size_t align;
+} Common;
+
 typedef struct {
   File *files;
   int nfiles;
   Table *symbol_table;  // <ElfObj*>
   Table *generated_symbol_table;  // <LinkElem*>
+  Table *common_table;  // <Common*>
+  Vector *commons;      // <Common*>, in order of appearance.
 } LinkEditor;
 
 void ld_init(LinkEditor *ld, int nfiles) {
@@ -92,6 +102,9 @@ void ld_init(LinkEditor *ld, int nfiles) {
   assert(ld->symbol_table != NULL);
   ld->generated_symbol_table = alloc_table();
   assert(ld->generated_symbol_table != NULL);
+  ld->common_table = alloc_table();
+  assert(ld->common_table != NULL);
+  ld->commons = new_vector();
 }
 
 void ld_load(LinkEditor *ld, int i, const char *filename) {
@@ -128,11 +141,9 @@ static uint64_t ld_symbol_address(LinkEditor *ld, const Name *name) {
     assert(sym != NULL && sym->st_shndx != SHN_UNDEF);
     Elf64_Section shndx = sym->st_shndx;
     if (shndx == SHN_COMMON) {
-      if (elfobj->nobit_shndx < 0) {
-        // Error.
-        return (uint64_t)-1;
-      }
-      shndx = elfobj->nobit_shndx;
+      Common *common = table_get(ld->common_table, name);
+      assert(common != NULL);
+      return common->address;
     }
 
     if (shndx < SHN_LORESERVE) {
@@ -188,15 +199,7 @@ static uint64_t calc_rela_sym_address(LinkEditor *ld, ElfObj *elfobj, const Elf6
       const ElfSectionInfo *s = &elfobj->section_infos[ELF64_R_SYM(rela->r_info)];
       address = s->progbits.address;
     } else {
-      Elf64_Section shndx = sym->st_shndx;
-      if (shndx == SHN_COMMON) {
-        if (elfobj->nobit_shndx < 0) {
-          // Error.
-          return (uint64_t)-1;
-        }
-        shndx = elfobj->nobit_shndx;
-      }
-      uint64_t sectop = elfobj->section_infos[shndx].progbits.address;
+      uint64_t sectop = elfobj->section_infos[sym->st_shndx].progbits.address;
       address = sectop + sym->st_value;
     }
     break;
@@ -396,6 +399,24 @@ static int resolve_rela_elfobj(LinkEditor *ld, ElfObj *elfobj) {
   return error_count;
 }
 
+// Precedence of a definition.
+static int definition_rank(const Elf64_Sym *sym) {
+  return ELF64_ST_BIND(sym->st_info) == STB_WEAK ? 0 : sym->st_shndx == SHN_COMMON ? 1 : 2;
+}
+
+static void merge_common(LinkEditor *ld, const Name *name, const Elf64_Sym *sym) {
+  Common *common = table_get(ld->common_table, name);
+  if (common == NULL) {
+    common = calloc_or_die(sizeof(*common));
+    common->name = name;
+    common->align = 1;
+    table_put(ld->common_table, name, common);
+    vec_push(ld->commons, common);
+  }
+  common->size = MAX(common->size, sym->st_size);
+  common->align = MAX(common->align, sym->st_value);  // Alignment is kept in the value.
+}
+
 static int resolve_symbols_elfobj(LinkEditor *ld, ElfObj *elfobj, Table *unresolved) {
   ElfSectionInfo *symtab_section = elfobj->symtab_section;
   assert(symtab_section != NULL);
@@ -413,19 +434,20 @@ static int resolve_symbols_elfobj(LinkEditor *ld, ElfObj *elfobj, Table *unresol
       continue;
     const Name *name = alloc_name(&str[sym->st_name], NULL, false);
 
+    if (sym->st_shndx == SHN_COMMON)
+      merge_common(ld, name, sym);
+
     ElfObj *prev = NULL;
     if (table_try_get(defined, name, (void**)&prev) || table_try_get(generated, name, NULL)) {
       if (sym->st_shndx != SHN_UNDEF) {
         if (prev != NULL) {
-          if (ELF64_ST_BIND(sym->st_info) == STB_WEAK || sym->st_shndx == SHN_COMMON)
-            continue;
-
           Elf64_Sym *prev_sym = table_get(prev->symbol_table, name);
           assert(prev_sym != NULL);
-          if (ELF64_ST_BIND(prev_sym->st_info) == STB_WEAK || prev_sym->st_shndx == SHN_COMMON) {
-            table_put(defined, name, elfobj);  // Overwrite common symbol with defined symbol.
+          int rank = definition_rank(sym), prev_rank = definition_rank(prev_sym);
+          if (rank > prev_rank)
+            table_put(defined, name, elfobj);  // Overwrite weak or common symbol.
+          if (rank != prev_rank || rank < 2)
             continue;
-          }
         }
         fprintf(stderr, "Duplicate symbol: %.*s\n", NAMES(name));
         ++error_count;
@@ -575,7 +597,15 @@ static void ld_collect_sections(LinkEditor *ld, const char *name, Vector *seclis
   }
 }
 
-static void ld_calc_address(SectionGroup section_groups[SECTION_COUNT],
+static bool is_common_used(LinkEditor *ld, const Common *common) {
+  ElfObj *elfobj = table_get(ld->symbol_table, common->name);
+  assert(elfobj != NULL);
+  const Elf64_Sym *sym = elfobj_find_symbol(elfobj, common->name);
+  assert(sym != NULL);
+  return sym->st_shndx == SHN_COMMON;
+}
+
+static void ld_calc_address(LinkEditor *ld, SectionGroup section_groups[SECTION_COUNT],
                             Vector *section_lists[SECTION_COUNT], uint64_t start_address) {
   uint64_t address = start_address;
   for (int secno = 0; secno < SECTION_COUNT; ++secno) {
@@ -595,6 +625,7 @@ static void ld_calc_address(SectionGroup section_groups[SECTION_COUNT],
             ElfSectionInfo *p = list->data[j];
             Elf64_Shdr *shdr = p->shdr;
             size_t align = shdr->sh_addralign;
+            uint64_t prev = address;
             address = ALIGN(address, align);
             p->progbits.address = address;
             size_t size = shdr->sh_size;
@@ -604,7 +635,7 @@ static void ld_calc_address(SectionGroup section_groups[SECTION_COUNT],
               secgroup->align = align;
 
             if (p->shdr->sh_type == SHT_NOBITS)
-              secgroup->bss_size += size;
+              secgroup->bss_size += address - prev;  // Including alignment.
           }
         }
         break;
@@ -617,6 +648,18 @@ static void ld_calc_address(SectionGroup section_groups[SECTION_COUNT],
       }
     }
   }
+
+  // Common symbols follow bss.
+  SectionGroup *secgroup = &section_groups[SEC_DATA];
+  for (int i = 0; i < ld->commons->len; ++i) {
+    Common *common = ld->commons->data[i];
+    if (!is_common_used(ld, common))
+      continue;
+    uint64_t prev = address;
+    common->address = address = ALIGN(address, common->align);
+    address += common->size;
+    secgroup->bss_size += address - prev;
+  }
 }
 
 static void ld_load_elf_objects(Vector *section_lists[SECTION_COUNT]) {
@@ -1045,7 +1088,7 @@ static void collect_sections(LinkEditor *ld, Vector *section_lists[SECTION_COUNT
   }
 }
 
-static void prepare_section_groups(Vector *section_lists[SECTION_COUNT],
+static void prepare_section_groups(LinkEditor *ld, Vector *section_lists[SECTION_COUNT],
                                    SectionGroup section_groups[SECTION_COUNT]) {
   for (int secno = 0; secno < SECTION_COUNT; ++secno) {
     SectionGroup *secgroup = &section_groups[secno];
@@ -1083,6 +1126,13 @@ static void prepare_section_groups(Vector *section_lists[SECTION_COUNT],
       }
     }
   }
+
+  SectionGroup *secgroup = &section_groups[SEC_DATA];
+  for (int i = 0; i < ld->commons->len; ++i) {
+    Common *common = ld->commons->data[i];
+    if (is_common_used(ld, common) && common->align > secgroup->align)
+      secgroup->align = common->align;
+  }
 }
 
 static void collect_section_data(Vector *section_lists[SECTION_COUNT],
@@ -1144,9 +1194,9 @@ static int do_link(Vector *sources, const Options *opts) {
   collect_sections(ld, section_lists);
 
   SectionGroup section_groups[SECTION_COUNT];
-  prepare_section_groups(section_lists, section_groups);
+  prepare_section_groups(ld, section_lists, section_groups);
 
-  ld_calc_address(section_groups, section_lists, LOAD_ADDRESS);
+  ld_calc_address(ld, section_groups, section_lists, LOAD_ADDRESS);
   ld_load_elf_objects(section_lists);
 
   int error_count = ld_resolve_relas(ld);
-- 
2.43.0


From e0e33d55835f45b05963f1191faeac5baa019057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:11 +0000
Subject: [PATCH 113/162] fix: linker aborts on undefined weak symbols, and
 ignores missing objects

---
 src/ld/ld.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/ld/ld.c b/src/ld/ld.c
index 21e3dfe..ae2c7ec 100644
--- a/src/ld/ld.c
+++ b/src/ld/ld.c
@@ -114,7 +114,7 @@ void ld_load(LinkEditor *ld, int i, const char *filename) {
   if (strcasecmp(ext, "o") == 0) {
     FILE *fp;
     if (!is_file(filename) || (fp = fopen(filename, "rb")) == NULL) {
-      fprintf(stderr, "cannot open: %s\n", filename);
+      error("cannot open: %s", filename);
     } else {
       ElfObj *elfobj = read_elf(fp, filename);
       if (elfobj == NULL)
@@ -195,8 +195,7 @@ static uint64_t calc_rela_sym_address(LinkEditor *ld, ElfObj *elfobj, const Elf6
   switch (ELF64_ST_BIND(sym->st_info)) {
   case STB_LOCAL:
     if (ELF64_ST_TYPE(sym->st_info) == STT_SECTION) {
-      assert(ELF64_R_SYM(rela->r_info) < elfobj->ehdr.e_shnum);
-      const ElfSectionInfo *s = &elfobj->section_infos[ELF64_R_SYM(rela->r_info)];
+      const ElfSectionInfo *s = &elfobj->section_infos[sym->st_shndx];
       address = s->progbits.address;
     } else {
       uint64_t sectop = elfobj->section_infos[sym->st_shndx].progbits.address;
@@ -208,7 +207,10 @@ static uint64_t calc_rela_sym_address(LinkEditor *ld, ElfObj *elfobj, const Elf6
     {
       const char *label = &strinfo->strtab.buf[sym->st_name];
       address = ld_symbol_address(ld, alloc_name(label, NULL, false));
-      assert(address != (uint64_t)-1);
+      if (address == (uint64_t)-1) {
+        assert(ELF64_ST_BIND(sym->st_info) == STB_WEAK);
+        address = 0;  // Undefined weak symbol.
+      }
     }
     break;
   default: assert(false); break;
@@ -454,7 +456,8 @@ static int resolve_symbols_elfobj(LinkEditor *ld, ElfObj *elfobj, Table *unresol
       }
     } else {
       if (sym->st_shndx == SHN_UNDEF) {
-        table_put(unresolved, name, (void*)name);
+        if (ELF64_ST_BIND(sym->st_info) != STB_WEAK)
+          table_put(unresolved, name, (void*)name);
       } else {
         table_delete(unresolved, name);
         table_put(defined, name, elfobj);
-- 
2.43.0


From 77a00ce170b6bb8c47e52e636ec4a8e361fb884a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:58 +0000
Subject: [PATCH 114/162] fix: linker picks the last member which defines a
 symbol, and fails on archives without symbols

---
 src/util/archive.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/util/archive.c b/src/util/archive.c
index 5d9c461..a07417a 100644
--- a/src/util/archive.c
+++ b/src/util/archive.c
@@ -96,9 +96,15 @@ Archive *load_archive(const char *filename) {
     error("Magic expected");
 
   struct ar_hdr ghdr;
-  read_or_die(fp, &ghdr, -1, sizeof(ghdr), "Global header");
+  size_t ghdr_len = fread(&ghdr, 1, sizeof(ghdr), fp);
+  if (ghdr_len == 0)  // No members.
+    return ar;
+  if (ghdr_len != sizeof(ghdr))
+    error("Global header");
   if (memcmp(ghdr.ar_fmag, ARFMAG, sizeof(ghdr.ar_fmag)) != 0)
     error("FMagic expected");
+  if (memcmp(ghdr.ar_name, "/ ", 2) != 0)  // No symbol table: members have no global symbols.
+    return ar;
 
   uint32_t symbol_count = read4be(fp);
   ar->symbol_count = symbol_count;
@@ -131,7 +137,8 @@ Archive *load_archive(const char *filename) {
 
       ArSymbol *symbol = &symbols[i];
       const Name *name = alloc_name(p, q, false);
-      table_put(&ar->symbol_table, name, symbol);
+      if (!table_try_get(&ar->symbol_table, name, NULL))  // The first member precedes.
+        table_put(&ar->symbol_table, name, symbol);
 
       p = q + 1;
     }
-- 
2.43.0


From a645573d12aa7e666f886f3e60536d868beff520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:35 +0000
Subject: [PATCH 115/162] fix: linker puts contents at wrong offsets if their
 alignment is large

---
 src/ld/ld.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ld/ld.c b/src/ld/ld.c
index ae2c7ec..0978df4 100644
--- a/src/ld/ld.c
+++ b/src/ld/ld.c
@@ -748,13 +748,14 @@ static bool output_exe(const char *ofn, uint64_t entry_address,
   const int flags = 0;
 #endif
   out_elf_header(fp, entry_address, phnum, 0, flags, 0);
-  out_program_header(fp, 0, PROG_START, section_groups[SEC_TEXT].start_address, code_rodata_sz,
+  uint64_t code_offset = ALIGN(PROG_START, section_groups[SEC_TEXT].align);
+  out_program_header(fp, 0, code_offset, section_groups[SEC_TEXT].start_address, code_rodata_sz,
                      code_rodata_sz);
   if (phnum > 1) {
     size_t datamemsz = section_groups[SEC_DATA].ds->len + section_groups[SEC_DATA].bss_size;
-    uint64_t offset = PROG_START + code_rodata_sz;
+    uint64_t offset = code_offset + code_rodata_sz;
     if (section_groups[SEC_DATA].ds->len > 0)
-      offset = ALIGN(offset, DATA_ALIGN);
+      offset = ALIGN(offset, section_groups[SEC_DATA].align);
     out_program_header(fp, 1, offset, section_groups[SEC_DATA].start_address,
                        section_groups[SEC_DATA].ds->len, datamemsz);
   }
-- 
2.43.0


From 5287646b0061c5d01b8b0be3611fd7e07ca261ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:59 +0000
Subject: [PATCH 116/162] fix: linker drops sections of other names, and
 resolves references to them wrongly

---
 src/ld/ld.c | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/ld/ld.c b/src/ld/ld.c
index 0978df4..516137f 100644
--- a/src/ld/ld.c
+++ b/src/ld/ld.c
@@ -467,6 +467,22 @@ static int resolve_symbols_elfobj(LinkEditor *ld, ElfObj *elfobj, Table *unresol
   return error_count;
 }
 
+// Sections with other names than the known ones are collected by their attributes.
+#define OTHER_RODATA  "*rodata"
+#define OTHER_DATA    "*data"
+#define OTHER_BSS     "*bss"
+
+static bool match_section(const char *pattern, const char *name, const Elf64_Shdr *shdr) {
+  if (*pattern != '*')
+    return strcmp(name, pattern) == 0;
+  if (!(shdr->sh_flags & SHF_ALLOC))
+    return false;
+  if (shdr->sh_type == SHT_NOBITS)
+    return strcmp(pattern, OTHER_BSS) == 0;
+  return shdr->sh_type == SHT_PROGBITS &&
+         strcmp(pattern, shdr->sh_flags & SHF_WRITE ? OTHER_DATA : OTHER_RODATA) == 0;
+}
+
 static void collect_sections_elfobj(LinkEditor *ld, ElfObj *elfobj, const char *name,
                                     Vector *seclist) {
   UNUSED(ld);
@@ -484,7 +500,7 @@ static void collect_sections_elfobj(LinkEditor *ld, ElfObj *elfobj, const char *
     assert(shdr->sh_size > 0);
 
     const char *s = &strbuf[shdr->sh_name];
-    if (strcmp(s, name) == 0) {  // TODO: Wild card
+    if (match_section(name, s, shdr)) {
       vec_push(seclist, section);
       elfobj->prog_sections->data[i] = NULL;
     }
@@ -1025,6 +1041,7 @@ typedef struct {
 static const ElemData kCodeSectionNames[] = {
   {.kind = LEK_SECTION, .section = {.name = ".text"}},
   {.kind = LEK_SECTION, .section = {.name = ".rodata"}},
+  {.kind = LEK_SECTION, .section = {.name = OTHER_RODATA}},
   {.kind = -1},
 };
 static const ElemData kDataSectionNames[] = {
@@ -1039,7 +1056,9 @@ static const ElemData kDataSectionNames[] = {
   {.kind = LEK_SECTION, .section = {.name = ".fini_array"}},
   {.kind = LEK_SYMBOL, .symbol = {.name = "__fini_array_end"}},
 
+  {.kind = LEK_SECTION, .section = {.name = OTHER_DATA}},
   {.kind = LEK_SECTION, .section = {.name = ".bss"}},
+  {.kind = LEK_SECTION, .section = {.name = OTHER_BSS}},
   {.kind = -1},
 };
 static const ElemData *kSectionNames[] = {
-- 
2.43.0


From a8ebfa5ff444bec591e868dc1de4a83a23c25b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:59 +0000
Subject: [PATCH 117/162] fix: linker does not find libraries with long names

---
 src/ld/ld.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ld/ld.c b/src/ld/ld.c
index 516137f..9e5ace3 100644
--- a/src/ld/ld.c
+++ b/src/ld/ld.c
@@ -930,8 +930,9 @@ static bool output_map_file(LinkEditor *ld, const char *outmapfn, uint64_t entry
 
 // search 'libXXX.a' from library paths.
 static const char *search_library(Vector *lib_paths, const char *libname) {
-  char libfn[128];  // TODO: Avoid overflow.
-  snprintf(libfn, sizeof(libfn), "lib%s.a", libname);
+  size_t size = strlen(libname) + sizeof("lib.a");
+  char *libfn = malloc_or_die(size);
+  snprintf(libfn, size, "lib%s.a", libname);
 
   for (int i = 0; i < lib_paths->len; ++i) {
     const char *dir = lib_paths->data[i];
-- 
2.43.0


From 964a28700065b6fbb81195579f53c644204ac667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:05 +0000
Subject: [PATCH 118/162] fix: linker fails for objects without symbols, and
 for labels of empty sections and init arrays

---
 src/ld/elfobj.c | 34 +++++++++++++++++++++-------------
 src/ld/ld.c     | 10 +++++++---
 2 files changed, 28 insertions(+), 16 deletions(-)

diff --git a/src/ld/elfobj.c b/src/ld/elfobj.c
index f807091..87a213e 100644
--- a/src/ld/elfobj.c
+++ b/src/ld/elfobj.c
@@ -63,8 +63,17 @@ static void load_symtab(ElfObj *elfobj) {
       }
     }
   }
-  if (elfobj->symtab_section == NULL)
-    error("no symtab");
+  if (elfobj->symtab_section == NULL) {
+    // Object without symbols.
+    ElfSectionInfo *strtab = calloc_or_die(sizeof(*strtab));
+    strtab->elfobj = elfobj;
+    strtab->strtab.buf = "";
+    ElfSectionInfo *p = calloc_or_die(sizeof(*p));
+    p->elfobj = elfobj;
+    p->symtab.strtab = strtab;
+    elfobj->symtab_section = p;
+    elfobj->symbol_table = alloc_table();
+  }
 }
 
 ElfObj *read_elf(FILE *fp, const char *fn) {
@@ -103,17 +112,16 @@ ElfObj *read_elf(FILE *fp, const char *fn) {
     ElfSectionInfo *p = &section_infos[i];
     p->elfobj = elfobj;
     p->shdr = shdr;
-    if (shdr->sh_size > 0) {
-      switch (shdr->sh_type) {
-      case SHT_NOBITS:
-      case SHT_PROGBITS:
-      case SHT_INIT_ARRAY:
-      case SHT_FINI_ARRAY:
-      case SHT_PREINIT_ARRAY:
-        vec_push(prog_sections, p);
-        break;
-      default: break;
-      }
+    // Empty section might have labels.
+    switch (shdr->sh_type) {
+    case SHT_NOBITS:
+    case SHT_PROGBITS:
+    case SHT_INIT_ARRAY:
+    case SHT_FINI_ARRAY:
+    case SHT_PREINIT_ARRAY:
+      vec_push(prog_sections, p);
+      break;
+    default: break;
     }
   }
   elfobj->prog_sections = prog_sections;
diff --git a/src/ld/ld.c b/src/ld/ld.c
index 9e5ace3..502d240 100644
--- a/src/ld/ld.c
+++ b/src/ld/ld.c
@@ -149,7 +149,9 @@ static uint64_t ld_symbol_address(LinkEditor *ld, const Name *name) {
     if (shndx < SHN_LORESERVE) {
 #ifndef NDEBUG
       const Elf64_Shdr *tshdr = &elfobj->shdrs[shndx];
-      assert(tshdr->sh_type == SHT_PROGBITS || tshdr->sh_type == SHT_NOBITS);
+      assert(tshdr->sh_type == SHT_PROGBITS || tshdr->sh_type == SHT_NOBITS ||
+             tshdr->sh_type == SHT_INIT_ARRAY || tshdr->sh_type == SHT_FINI_ARRAY ||
+             tshdr->sh_type == SHT_PREINIT_ARRAY);
 #endif
       return elfobj->section_infos[shndx].progbits.address + sym->st_value;
     }
@@ -497,7 +499,6 @@ static void collect_sections_elfobj(LinkEditor *ld, ElfObj *elfobj, const char *
     assert(shdr->sh_type == SHT_PROGBITS || shdr->sh_type == SHT_NOBITS ||
            shdr->sh_type == SHT_INIT_ARRAY || shdr->sh_type == SHT_FINI_ARRAY ||
            shdr->sh_type == SHT_PREINIT_ARRAY);
-    assert(shdr->sh_size > 0);
 
     const char *s = &strbuf[shdr->sh_name];
     if (match_section(name, s, shdr)) {
@@ -581,6 +582,8 @@ static void add_elf_section(SectionGroup section_groups[SECTION_COUNT], const El
   assert(align <= secgroup->align);
   assert(secgroup->ds != NULL);
   data_align(secgroup->ds, align);
+  if (shdr->sh_size <= 0)
+    return;
   void *content = p->progbits.content;
   assert(content != NULL);
   data_append(secgroup->ds, content, shdr->sh_size);
@@ -703,7 +706,8 @@ static void ld_load_elf_objects(Vector *section_lists[SECTION_COUNT]) {
             case SHT_PREINIT_ARRAY:
               {
                 Elf64_Xword size = shdr->sh_size;
-                assert(size > 0);
+                if (size <= 0)
+                  break;
 
                 ElfObj *elfobj = p->elfobj;
                 void *buf = read_or_die(elfobj->fp, NULL, shdr->sh_offset + elfobj->start_offset, size, "read error");
-- 
2.43.0


From f3dd54680c99c5e94ff0730534393fd2f6768ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:13 +0000
Subject: [PATCH 119/162] fix: names of included files depend on the working
 directory

---
 src/cpp/preprocessor.c | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/cpp/preprocessor.c b/src/cpp/preprocessor.c
index 174b99e..ad5a70a 100644
--- a/src/cpp/preprocessor.c
+++ b/src/cpp/preprocessor.c
@@ -46,13 +46,9 @@ static PreprocessFile *curpf;
 #define OUTPUT_PPLINE(...)  do { fprintf(pp_ofp, __VA_ARGS__); ++curpf->out_lineno; } while (0)
 #define OUTPUT_COMMENT(...)  do { if (preserve_comment) OUTPUT_PPLINE(__VA_ARGS__); } while (0)
 
-static char *cat_path_cwd(const char *dir, const char *path) {
-  char *cwd = getcwd(NULL, 0);
-  return JOIN_PATHS(cwd, dir, path);
-}
-
 static char *fullpath(const char *filename) {
-  return cat_path_cwd(dirname(strdup(filename)), basename((char*)filename));
+  char *cwd = getcwd(NULL, 0);
+  return JOIN_PATHS(cwd, filename);
 }
 
 static const char *keyword(const char *s, const char *word) {
@@ -270,6 +266,8 @@ static const Name *key_file;
 static const Name *key_line;
 
 static bool registered_pragma_once(const char *filename) {
+  if (!is_fullpath(filename))
+    filename = fullpath(filename);
   for (int i = 0, len = pragma_once_files.len; i < len; ++i) {
     const char *fn = pragma_once_files.data[i];
     if (strcmp(fn, filename) == 0)
@@ -293,13 +291,13 @@ static FILE *search_sysinc(const char *prevdir, const char *path, char **pfn) {
     Vector *v = &sys_inc_paths[ord];
     for (int idx = 0; idx < v->len; ++idx) {
       if (prevdir != NULL) {  // Searching previous directory.
-        if (strcmp(fullpath(v->data[idx]), prevdir) == 0)
+        if (strcmp(fullpath(v->data[idx]), fullpath(prevdir)) == 0)
           prevdir = NULL;
         continue;
       }
 
       FILE *fp = NULL;
-      char *fn = cat_path_cwd(v->data[idx], path);
+      char *fn = JOIN_PATHS(v->data[idx], path);
       if (registered_pragma_once(fn) ||  // If pragma once hit, then fp keeps NULL.
           (is_file(fn) && (fp = fopen(fn, "r")) != NULL)) {
         *pfn = fn;
@@ -386,7 +384,7 @@ static void handle_include(const char *p, Stream *stream, bool is_next) {
   char *dir = strdup(dirname(strdup(stream->filename)));
   // Search from current directory.
   if (!is_next && !sys) {
-    fn = cat_path_cwd(dir, path);
+    fn = JOIN_PATHS(dir, path);
     if (registered_pragma_once(fn))
       return;
     if (is_file(fn))
-- 
2.43.0


From e24597691aa4b0e45d41cf33d2a689cada67a6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:56 +0000
Subject: [PATCH 120/162] fix: strtod does not give the nearest double

---
 libsrc/stdlib/strtod.c | 242 +++++++++++++++++++++++++++--------------
 1 file changed, 163 insertions(+), 79 deletions(-)

diff --git a/libsrc/stdlib/strtod.c b/libsrc/stdlib/strtod.c
index 9957d7c..640d01f 100644
--- a/libsrc/stdlib/strtod.c
+++ b/libsrc/stdlib/strtod.c
@@ -1,5 +1,5 @@
 #include "stdlib.h"
-#include "ctype.h"  // isspace, tolower
+#include "ctype.h"  // isspace, isxdigit, tolower
 #include "stdbool.h"
 #include "string.h"
 #include "stdint.h"
@@ -8,74 +8,178 @@
 extern bool _parse_sign(const char **pp);
 
 #ifndef __NO_FLONUM
-static double ipow(double base, long x) {
-  double result = 1;
-  double a = base;
-  for (; x > 0; x >>= 1, a *= a) {
-    if ((x & 1) != 0)
-      result *= a;
+// Big natural number, little endian.
+#define MAX_DIGITS  (800)  // More digits than this never matter, except whether they are all zero.
+#define MAX_EXPO10  (400 + MAX_DIGITS)
+#define BIG_WORDS   ((MAX_EXPO10 * 4) / 32 + 4)
+
+typedef struct {
+  int len;
+  uint32_t w[BIG_WORDS];
+} Big;
+
+static void big_muladd(Big *b, uint32_t mul, uint32_t add) {
+  uint64_t carry = add;
+  for (int i = 0; i < b->len; ++i) {
+    carry += (uint64_t)b->w[i] * mul;
+    b->w[i] = (uint32_t)carry;
+    carry >>= 32;
   }
-  return result;
+  if (carry != 0)
+    b->w[b->len++] = (uint32_t)carry;
 }
 
-static double strtod_i(const char *p, const char **pp) {
-  double result = 0;
-  for (;; ++p) {
-    char c = *p;
-    if (!(c >= '0' && c <= '9'))
-      break;
-    result = result * 10 + (c - '0');
-  }
-  *pp = p;
-  return result;
+static int big_bits(const Big *b) {
+  int n = (b->len - 1) * 32;
+  for (uint32_t w = b->w[b->len - 1]; w != 0; w >>= 1)
+    ++n;
+  return n;
 }
 
-static double strtod_i2(const char *p, const char **pp) {
-  const char *q = p, *r = p;
-  for (;;) {
-    char c = *q;
-    if (!(c >= '0' && c <= '9'))
-      break;
-    ++q;
-    if (c != '0')
-      r = q;
+static void big_shl(Big *b, int n) {
+  for (; n >= 31; n -= 31)
+    big_muladd(b, (uint32_t)1 << 31, 0);
+  big_muladd(b, (uint32_t)1 << n, 0);
+}
+
+static int big_cmp(const Big *a, const Big *b) {
+  if (a->len != b->len)
+    return a->len > b->len ? 1 : -1;
+  for (int i = a->len; --i >= 0; ) {
+    if (a->w[i] != b->w[i])
+      return a->w[i] > b->w[i] ? 1 : -1;
   }
+  return 0;
+}
 
-  double result = 0;
-  for (size_t order = r - p; r > p; --order) {
-    char c = *(--r);
-    result += (c - '0') / ipow(10, order);
+static void big_sub(Big *a, const Big *b) {  // a -= b, a >= b
+  uint64_t borrow = 0;
+  for (int i = 0; i < a->len; ++i) {
+    uint64_t x = (uint64_t)a->w[i] - (i < b->len ? b->w[i] : 0) - borrow;
+    a->w[i] = (uint32_t)x;
+    borrow = (x >> 32) & 1;
   }
-  *pp = q;
-  return result;
+  while (a->len > 0 && a->w[a->len - 1] == 0)
+    --a->len;
 }
 
-#define strtod_h(p, pp)  strtoull(p, (char**)(pp), 16)
+// Nearest double (ties to even) of num / den * 2^expo2.
+static double make_double(Big *num, Big *den, long expo2) {
+  if (num->len == 0)
+    return 0;
 
-static double strtod_hex(const char *p, const char **pp) {
-  double result = strtod_h(p, &p);
-  if (*p == '.') {
-    const char *q = p + 1;
-    unsigned long long frac = strtod_h(q, &p);
-    long order = p - q;
-    result += frac * ipow(1.0f / 16, order);
+  // Normalize: 1 <= num/den < 2
+  int shift = big_bits(den) - big_bits(num);
+  if (shift > 0)
+    big_shl(num, shift);
+  else
+    big_shl(den, -shift);
+  if (big_cmp(num, den) < 0) {
+    big_shl(num, 1);
+    ++shift;
   }
-  if (tolower(*p) == 'p') {
-    const char *q = p + 1;
-    bool neg2 = _parse_sign(&q);
-    double order = strtod_i(q, &p);
-    if (q == p) {
-      // Error.
+
+  const int MIN_EXPO = 1 - (EXPO_BIAS + 1), MAX_EXPO = EXPO_BIAS + 1;
+  long expo = expo2 - shift;
+  if (expo > MAX_EXPO)
+    return 1.0 / 0.0;
+  if (expo < MIN_EXPO - FRAC_BIT - 1)
+    return 0;
+  int bits = expo < MIN_EXPO ? FRAC_BIT + 1 - (int)(MIN_EXPO - expo) : FRAC_BIT + 1;
+
+  int64_t frac = 0;
+  for (int i = 0; i < bits; ++i) {
+    frac <<= 1;
+    if (big_cmp(num, den) >= 0) {
+      big_sub(num, den);
+      frac |= 1;
+    }
+    big_shl(num, 1);
+  }
+  int c = big_cmp(num, den);  // Compare rest with the half.
+  if (c > 0 || (c == 0 && (frac & 1) != 0))
+    ++frac;
+
+  union {
+    int64_t hex;
+    double d;
+  } u;
+  u.hex = frac;
+  if (expo >= MIN_EXPO)  // The topmost bit of `frac` raises the exponent by one.
+    u.hex += (int64_t)(expo - MIN_EXPO) << EXPO_POS;
+  return u.d;
+}
+
+static int digit_value(char c, int base) {
+  if (c >= '0' && c <= '9')
+    return c - '0';
+  c = tolower(c);
+  return base == 16 && c >= 'a' && c <= 'f' ? c - 'a' + 10 : -1;
+}
+
+// Parse digits [. digits] [expo_char [sign] digits].
+static double strtod_sub(const char *p, int base, char expo_char, const char **pp) {
+  const long EXPO_LIMIT = 100000000;
+  Big num = {0}, den = {1, {1}};
+  long expo = 0;  // Exponent of the digits in `num`, in base.
+  int ndigits = 0;
+  bool any = false, frac = false;
+
+  for (;; ++p) {
+    if (*p == '.' && !frac) {
+      frac = true;
+      continue;
+    }
+    int v = digit_value(*p, base);
+    if (v < 0)
+      break;
+    any = true;
+    if (frac && expo > -EXPO_LIMIT)
+      --expo;
+    if (ndigits == 0 && v == 0)  // Leading zero.
+      continue;
+    if (ndigits < MAX_DIGITS) {
+      big_muladd(&num, base, v);
+      ++ndigits;
     } else {
-      double k = ipow(2, order);
-      if (neg2)
-        result /= k;
-      else
-        result *= k;
+      if (expo < EXPO_LIMIT)
+        ++expo;
+      if (v != 0)
+        num.w[0] |= 1;  // Not exactly on the half.
     }
   }
+  if (!any)
+    return 0;
   *pp = p;
-  return result;
+
+  long x = 0;
+  if (tolower(*p) == expo_char) {
+    const char *q = p + 1;
+    bool neg = _parse_sign(&q);
+    if (*q >= '0' && *q <= '9') {
+      for (; *q >= '0' && *q <= '9'; ++q) {
+        if (x < EXPO_LIMIT)
+          x = x * 10 + (*q - '0');
+      }
+      if (neg)
+        x = -x;
+      *pp = q;
+    }
+  }
+
+  if (base == 16)
+    return make_double(&num, &den, expo * 4 + x);
+
+  expo += x;
+  if (num.len == 0 || expo + ndigits < -400)
+    return 0;
+  if (expo + ndigits > 400)
+    return 1.0 / 0.0;
+  for (; expo > 0; --expo)
+    big_muladd(&num, 10, 0);
+  for (; expo < 0; ++expo)
+    big_muladd(&den, 10, 0);
+  return make_double(&num, &den, 0);
 }
 
 double strtod(const char * restrict p_, char ** restrict pp) {
@@ -106,37 +210,17 @@ double strtod(const char * restrict p_, char ** restrict pp) {
     }
   }
 
-  const char *op;
+  const char *op = p;
   double result;
-  if (p[0] == '0' && tolower(p[1]) == 'x') {
-    op = p += 2;
-    result = strtod_hex(p, &p);
+  if (p[0] == '0' && tolower(p[1]) == 'x' &&
+      (isxdigit(p[2]) || (p[2] == '.' && isxdigit(p[3])))) {
+    result = strtod_sub(p + 2, 16, 'p', &p);
   } else {
-    op = p;
-    result = strtod_i(p, &p);
-    if (*p == '.') {
-      const char *q = p + 1;
-      double frac = strtod_i2(q, &p);
-      result += frac;
-    }
-    if (tolower(*p) == 'e') {
-      const char *q = p + 1;
-      bool neg2 = _parse_sign(&q);
-      double order = strtod_i(q, &p);
-      if (q == p) {
-        // Error.
-      } else {
-        double k = ipow(10, order);
-        if (neg2)
-          result /= k;
-        else
-          result *= k;
-      }
-    }
+    result = strtod_sub(p, 10, 'e', &p);
   }
   if (p == op)
     p = orig;
-  if (neg)
+  else if (neg)
     result = -result;
 
   if (pp != NULL)
-- 
2.43.0


From 40afa7f40080adc3bdd6e57984893aa199425813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:04 +0000
Subject: [PATCH 121/162] fix: wasm linker binds static functions and variables
 to global ones of the same name

---
 src/wcc/wasm_linker.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wcc/wasm_linker.c b/src/wcc/wasm_linker.c
index c5a63ad..9d98e97 100644
--- a/src/wcc/wasm_linker.c
+++ b/src/wcc/wasm_linker.c
@@ -1133,7 +1133,8 @@ static void apply_relocation_wasmobj(WasmLinker *linker, WasmObj *wasmobj) {
         error("illegal index for reloc: %d", p->index);
       SymbolInfo *sym = symtab->data[p->index];
       SymbolInfo *target = sym;
-      if (!table_try_get(&linker->defined, sym->name, (void**)&target))
+      if (!(sym->flags & WASM_SYM_BINDING_LOCAL) &&
+          !table_try_get(&linker->defined, sym->name, (void**)&target))
         table_try_get(&linker->unresolved, sym->name, (void**)&target);
 
       switch (p->type) {
-- 
2.43.0


From 8442a2da40e1794761cf22966f451a2686bfe23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:34 +0000
Subject: [PATCH 122/162] fix: limits of <stdint.h> have wrong values and types

---
 include/stdint.h | 42 +++++++++++++++++++++++++-----------------
 1 file changed, 25 insertions(+), 17 deletions(-)

diff --git a/include/stdint.h b/include/stdint.h
index 63e06b5..c0cbe7b 100644
--- a/include/stdint.h
+++ b/include/stdint.h
@@ -14,38 +14,46 @@ typedef unsigned int    uint32_t;
 typedef          long long  int64_t;
 typedef unsigned long long  uint64_t;
 
-#if defined(__ILP32__)
-#define INTPTR_MAX   INT32_MIN
-#define INTPTR_MIN   INT32_MAX
-
-#else
-
-#define INTPTR_MAX   INT64_MIN
-#define INTPTR_MIN   INT64_MAX
-#endif
-
 typedef               long  intptr_t;
 typedef      unsigned long  uintptr_t;
 
 typedef          long long  intmax_t;
 typedef unsigned long long  uintmax_t;
 
-#define INT8_MIN     -128
+#define INT8_MIN     (-128)
 #define INT8_MAX     127
 #define UINT8_MAX    255
 
-#define INT16_MIN    -32768
+#define INT16_MIN    (-32768)
 #define INT16_MAX    32767
 #define UINT16_MAX   65535
 
-#define INT32_MIN    -2147483648
+#define INT32_MIN    (-2147483647 - 1)
 #define INT32_MAX    2147483647
-#define UINT32_MAX   4294967295
+#define UINT32_MAX   4294967295U
 
-#define INT64_MIN    -9223372036854775808
-#define INT64_MAX    9223372036854775807
-#define UINT64_MAX   18446744073709551615
+#define INT64_MIN    (-9223372036854775807LL - 1)
+#define INT64_MAX    9223372036854775807LL
+#define UINT64_MAX   18446744073709551615ULL
 
 #define INTMAX_MIN   INT64_MIN
 #define INTMAX_MAX   INT64_MAX
 #define UINTMAX_MAX  UINT64_MAX
+
+#if defined(__ILP32__)
+
+#define INTPTR_MIN   (-2147483647L - 1)
+#define INTPTR_MAX   2147483647L
+#define UINTPTR_MAX  4294967295UL
+
+#else
+
+#define INTPTR_MIN   (-9223372036854775807L - 1)
+#define INTPTR_MAX   9223372036854775807L
+#define UINTPTR_MAX  18446744073709551615UL
+
+#endif
+
+#define PTRDIFF_MIN  INTPTR_MIN
+#define PTRDIFF_MAX  INTPTR_MAX
+#define SIZE_MAX     UINTPTR_MAX
-- 
2.43.0


From 32b5789409fbc3c878c1d734c9ade683aa32ee61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:44 +0000
Subject: [PATCH 123/162] fix: limits of <limits.h> have wrong types, and those
 of signed char are missing

---
 include/limits.h | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/include/limits.h b/include/limits.h
index 514b533..0032b58 100644
--- a/include/limits.h
+++ b/include/limits.h
@@ -2,6 +2,9 @@
 
 #define CHAR_BIT   (8)  // Number of bits in one char
 
+#define SCHAR_MIN  (-128)
+#define SCHAR_MAX  (127)
+
 #define CHAR_MIN   (-128)  // -(2^7)
 #define CHAR_MAX   (127)   //  (2^7)-1
 #define UCHAR_MAX  (255)   // (2^8)-1
@@ -10,27 +13,27 @@
 #define SHRT_MAX   ( 32767)  //  (2^15)-1
 #define USHRT_MAX  (65535)  // (2^16)-1
 
-#define INT_MIN    (-2147483648)  // -(2^31)
+#define INT_MIN    (-2147483647 - 1)  // -(2^31)
 #define INT_MAX    ( 2147483647)  //  (2^31)-1
-#define UINT_MAX   (4294967295)  // (2^32)-1
+#define UINT_MAX   (4294967295U)  // (2^32)-1
 
 #if defined(__ILP32__)
 
-#define LONG_MIN   (-2147483648)  // -(2^31)
-#define LONG_MAX   ( 2147483647)  //  (2^31)-1
-#define ULONG_MAX  (4294967295)  // (2^32)-1
+#define LONG_MIN   (-2147483647L - 1)  // -(2^31)
+#define LONG_MAX   ( 2147483647L)  //  (2^31)-1
+#define ULONG_MAX  (4294967295UL)  // (2^32)-1
 
-#define LLONG_MIN  (-9223372036854775808LL)  // -(2^63)
+#define LLONG_MIN  (-9223372036854775807LL - 1)  // -(2^63)
 #define LLONG_MAX  ( 9223372036854775807LL)  //  (2^63)-1
 #define ULLONG_MAX (18446744073709551615ULL)  // (2^64)-1
 
 #elif defined(__LP64__)
 
-#define LONG_MIN   (-9223372036854775808L)  // -(2^63)
+#define LONG_MIN   (-9223372036854775807L - 1)  // -(2^63)
 #define LONG_MAX   ( 9223372036854775807L)  //  (2^63)-1
 #define ULONG_MAX  (18446744073709551615UL)  // (2^64)-1
 
-#define LLONG_MIN  (-9223372036854775808LL)  // -(2^63)
+#define LLONG_MIN  (-9223372036854775807LL - 1)  // -(2^63)
 #define LLONG_MAX  ( 9223372036854775807LL)  //  (2^63)-1
 #define ULLONG_MAX (18446744073709551615ULL)  // (2^64)-1
 
-- 
2.43.0


From ecc1226384941a4b5221fab39fd98fb8621f47d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:44 +0000
Subject: [PATCH 124/162] fix: PRI*32 formats expect a long

---
 include/inttypes.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/inttypes.h b/include/inttypes.h
index 7eb7023..27b94c0 100644
--- a/include/inttypes.h
+++ b/include/inttypes.h
@@ -1,8 +1,8 @@
 #pragma once
 
-#define PRId32   "ld"
-#define PRIu32   "lu"
-#define PRIx32   "lx"
+#define PRId32   "d"
+#define PRIu32   "u"
+#define PRIx32   "x"
 #define PRIdPTR  "ld"
 #define PRIxPTR  "lx"
 
-- 
2.43.0


From 751e244375cea963e9e0fdaa4d79ba86f5e502e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:44 +0000
Subject: [PATCH 125/162] fix: FLT_MAX is the infinity of float

---
 include/float.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/float.h b/include/float.h
index 27e9955..748fcf6 100644
--- a/include/float.h
+++ b/include/float.h
@@ -19,7 +19,7 @@
 #define FLT_MIN_10_EXP  (-37)
 #define FLT_MAX_10_EXP  (38)
 #define FLT_MIN         (1.1754943508222875e-38)
-#define FLT_MAX         (3.402823669209385e+38)
+#define FLT_MAX         (3.4028234663852886e+38)
 #define FLT_EPSILON     (1.1920928955078125e-07)
 
 #define FLT_ROUNDS  (1)  // TODO
-- 
2.43.0


From 2d7a4558de059334157ea97191f7376b72d519e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:10 +0000
Subject: [PATCH 126/162] fix: floor and ceil are wrong for subnormal numbers
 and lose the sign of zero

---
 libsrc/math/ceil.c  | 4 ++--
 libsrc/math/floor.c | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/libsrc/math/ceil.c b/libsrc/math/ceil.c
index a064cdb..943cec8 100644
--- a/libsrc/math/ceil.c
+++ b/libsrc/math/ceil.c
@@ -15,9 +15,9 @@ double ceil(double x) {
 #else
   int64_t q = *(int64_t*)&x;
   int e = GET_BIASED_EXPO(q);
-  if (e <= EXPO_BIAS + FRAC_BIT && e != 0) {
+  if (e <= EXPO_BIAS + FRAC_BIT && x != 0) {
     if (e <= EXPO_BIAS)
-      return q > 0 ? 1.0 : 0.0;
+      return q > 0 ? 1.0 : -0.0;
 
     int64_t one = (int64_t)1 << ((EXPO_BIAS + FRAC_BIT + 1) - e);
     if (q < 0) {
diff --git a/libsrc/math/floor.c b/libsrc/math/floor.c
index 3bca1e9..7d25aec 100644
--- a/libsrc/math/floor.c
+++ b/libsrc/math/floor.c
@@ -15,7 +15,7 @@ double floor(double x) {
 #else
   int64_t q = *(int64_t*)&x;
   int e = GET_BIASED_EXPO(q);
-  if (e <= EXPO_BIAS + FRAC_BIT && e != 0) {
+  if (e <= EXPO_BIAS + FRAC_BIT && x != 0) {
     if (e <= EXPO_BIAS)
       return q >= 0 ? 0.0 : -1.0;
 
-- 
2.43.0


From e3d48a758b79d7c2e0ce65ba9de32d22e74984f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:10 +0000
Subject: [PATCH 127/162] fix: round is wrong next to one half and for large
 odd numbers

---
 libsrc/math/round.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libsrc/math/round.c b/libsrc/math/round.c
index 1461ac9..e593eed 100644
--- a/libsrc/math/round.c
+++ b/libsrc/math/round.c
@@ -4,6 +4,10 @@
 
 #ifndef __NO_FLONUM
 double round(double x) {
-  return x >= 0 ? floor(x + 0.5) : ceil(x - 0.5);
+  double a = fabs(x);
+  double t = floor(a);
+  if (a - t >= 0.5)
+    t += 1;
+  return copysign(t, x);
 }
 #endif
-- 
2.43.0


From b74f88aa7ba4de4737134b8bfa1ddb748d6bd997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:10 +0000
Subject: [PATCH 128/162] fix: modf loses the sign of zero

---
 libsrc/math/modf.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libsrc/math/modf.c b/libsrc/math/modf.c
index 07db9b4..4067b93 100644
--- a/libsrc/math/modf.c
+++ b/libsrc/math/modf.c
@@ -4,11 +4,11 @@
 double modf(double x, double *pint) {
   if (!isfinite(x)) {
     *pint = x;
-    return isnan(x) ? x : 0.0;
+    return isnan(x) ? x : copysign(0.0, x);
   }
 
   double i = x >= 0 ? floor(x) : ceil(x);
   *pint = i;
-  return x - i;
+  return copysign(x - i, x);
 }
 #endif
-- 
2.43.0


From 40b9e0025698e26ee9687212861db6476f8a2b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:10 +0000
Subject: [PATCH 129/162] fix: frexp and ldexp are wrong for subnormal numbers

---
 libsrc/math/frexp.c |  7 ++++++-
 libsrc/math/ldexp.c | 27 +++++++++++++++++++--------
 2 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/libsrc/math/frexp.c b/libsrc/math/frexp.c
index 1884985..1be37d9 100644
--- a/libsrc/math/frexp.c
+++ b/libsrc/math/frexp.c
@@ -8,8 +8,13 @@ double frexp(double x, int *p) {
     *p = 0;
     return x;
   }
+  int e = 0;
+  if (fabs(x) < 2.2250738585072014e-308) {  // Subnormal: normalize.
+    x *= 18014398509481984.0;  // 2^54
+    e = -54;
+  }
   int64_t q = *(int64_t*)&x;
-  *p = GET_EXPO(q);
+  *p = GET_EXPO(q) + e;
   int64_t r = (q & (FRAC_MASK | SIGN_MASK)) | ((int64_t)EXPO_BIAS << EXPO_POS);
   return *(double*)&r;
 }
diff --git a/libsrc/math/ldexp.c b/libsrc/math/ldexp.c
index 912dc18..21ab15c 100644
--- a/libsrc/math/ldexp.c
+++ b/libsrc/math/ldexp.c
@@ -7,13 +7,24 @@ double ldexp(double x, int exp) {
   if (!isfinite(x) || x == 0) {
     return x;
   }
-  int64_t q = *(int64_t*)&x;
-  exp += GET_BIASED_EXPO(q);
-  if (exp >= ((1 << EXPO_BIT) - 1))
-    return x < 0 ? -HUGE_VAL : HUGE_VAL;
-  else if (exp < 0)
-    return 0;
-  int64_t r = (q & (FRAC_MASK | SIGN_MASK)) | ((int64_t)exp << EXPO_POS);
-  return *(double*)&r;
+  // Scale with powers of 2; a subnormal result must be rounded only once.
+  if (exp > 1023) {
+    x *= 8.98846567431158e+307;  // 2^1023
+    exp -= 1023;
+    if (exp > 1023) {
+      x *= 8.98846567431158e+307;
+      exp = exp - 1023 > 1023 ? 1023 : exp - 1023;
+    }
+  } else if (exp < -1022) {
+    const double scale = 2.2250738585072014e-308 * 9007199254740992.0;  // 2^-1022 * 2^53
+    x *= scale;
+    exp += 1022 - 53;
+    if (exp < -1022) {
+      x *= scale;
+      exp = exp + (1022 - 53) < -1022 ? -1022 : exp + (1022 - 53);
+    }
+  }
+  int64_t q = (int64_t)(exp + 1023) << EXPO_POS;
+  return x * *(double*)&q;
 }
 #endif
-- 
2.43.0


From 5242928b00df9cd28d1ef8990b22d38ef9063ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:10 +0000
Subject: [PATCH 130/162] fix: fmod is inexact

---
 libsrc/math/fmod.c | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/libsrc/math/fmod.c b/libsrc/math/fmod.c
index 4c0c070..75097d1 100644
--- a/libsrc/math/fmod.c
+++ b/libsrc/math/fmod.c
@@ -2,10 +2,23 @@
 
 #ifndef __NO_FLONUM
 double fmod(double x, double m) {
+  if (!isfinite(x) || isnan(m) || m == 0)
+    return NAN;
+  if (isinf(m))
+    return x;
+
+  // Each subtraction is exact, because `t <= r < 2t`.
+  double r = fabs(x);
   m = fabs(m);
-  if (x >= 0)
-    return x - floor(x / m) * m;
-  else
-    return x - ceil(x / m) * m;
+  int er, em;
+  frexp(m, &em);
+  while (r >= m) {
+    frexp(r, &er);
+    double t = ldexp(m, er - em);
+    if (t > r)
+      t = ldexp(m, er - em - 1);
+    r -= t;
+  }
+  return copysign(r, x);
 }
 #endif
-- 
2.43.0


From a50aee30c3b6771d98892938f56b37784813d1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:10 +0000
Subject: [PATCH 131/162] fix: isnan does not recognize all NaNs

---
 libsrc/math/isinf.c | 2 +-
 libsrc/math/isnan.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libsrc/math/isinf.c b/libsrc/math/isinf.c
index 329c407..08077e6 100644
--- a/libsrc/math/isinf.c
+++ b/libsrc/math/isinf.c
@@ -8,6 +8,6 @@ extern inline int isinf(double x);
 int __isinf(double x) {
   union { double d; int64_t q; } u;
   u.d = x;
-  return (u.q & NAN_MASK) == EXPO_MASK;
+  return (u.q & ~SIGN_MASK) == EXPO_MASK;
 }
 #endif
diff --git a/libsrc/math/isnan.c b/libsrc/math/isnan.c
index fc05fb1..5cd53e1 100644
--- a/libsrc/math/isnan.c
+++ b/libsrc/math/isnan.c
@@ -8,6 +8,6 @@ extern inline int isnan(double x);
 int __isnan(double x) {
   union { double d; int64_t q; } u;
   u.d = x;
-  return (u.q & NAN_MASK) == NAN_MASK;
+  return (u.q & ~SIGN_MASK) > EXPO_MASK;
 }
 #endif
-- 
2.43.0


From 3656055651c014d9ce3be24634fc214e233f5c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:10 +0000
Subject: [PATCH 132/162] fix: exp does not terminate properly for large
 arguments

---
 libsrc/math/exp.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/libsrc/math/exp.c b/libsrc/math/exp.c
index d758874..b9d64b8 100644
--- a/libsrc/math/exp.c
+++ b/libsrc/math/exp.c
@@ -3,9 +3,16 @@
 
 #ifndef __NO_FLONUM
 double exp(double x) {
+  if (isnan(x))
+    return x;
+  if (x > 710)
+    return HUGE_VAL;
+  if (x < -746)
+    return 0;
+
   bool neg = x < 0;
   x = fabs(x);
-  unsigned int n = x;  // TODO: Care about overflow
+  unsigned int n = x;
   double r = (x - n) /* * log(base)*/;   // log(e) = 1
 
   double result = 1;
-- 
2.43.0


From c82e242540d83d0c00e3c183b566ff29b0483f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:10 +0000
Subject: [PATCH 133/162] fix: pow is wrong for negative, special and large
 arguments

---
 libsrc/math/pow.c | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/libsrc/math/pow.c b/libsrc/math/pow.c
index db840eb..062a14f 100644
--- a/libsrc/math/pow.c
+++ b/libsrc/math/pow.c
@@ -3,17 +3,31 @@
 
 #ifndef __NO_FLONUM
 double pow(double base, double x) {
+  if (x == 0 || base == 1)
+    return 1;
+  if (isnan(base) || isnan(x))
+    return NAN;
+  if (isinf(x)) {
+    double a = fabs(base);
+    return a == 1 ? 1 : (a > 1) == (x > 0) ? HUGE_VAL : 0;
+  }
+  if (signbit(base)) {
+    bool integer = floor(x) == x;
+    if (!integer && base != 0 && isfinite(base))
+      return NAN;
+    double result = pow(-base, x);
+    return integer && fmod(x, 2) != 0 ? -result : result;
+  }
+  if (base == 0 || isinf(base))
+    return (base == 0) == (x > 0) ? 0 : HUGE_VAL;
+
   bool neg = x < 0;
   x = fabs(x);
-  unsigned int n = x;  // TODO: Care about overflow
-  double r = (x - n) * log(base);
 
-  double result = 1;
-  double y = 1;
-  for (int i = 1; i <= 15; ++i) {
-    y *= r / i;
-    result += y;
-  }
+  if (x >= 4294967296.0)
+    return exp((neg ? -x : x) * log(base));
+  unsigned int n = x;
+  double result = x == n ? 1 : exp((x - n) * log(base));
 
   double poe = base;
   for (; n > 0; n >>= 1, poe *= poe) {
-- 
2.43.0


From e67ee8c9f05bbff84d18760b38934f24facf5b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:10 +0000
Subject: [PATCH 134/162] fix: hyperbolic functions are wrong for large
 arguments

---
 libsrc/math/acosh.c | 2 ++
 libsrc/math/asinh.c | 4 +++-
 libsrc/math/cosh.c  | 4 ++++
 libsrc/math/sinh.c  | 4 ++++
 libsrc/math/tanh.c  | 2 ++
 5 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/libsrc/math/acosh.c b/libsrc/math/acosh.c
index 125e2d9..f18b30f 100644
--- a/libsrc/math/acosh.c
+++ b/libsrc/math/acosh.c
@@ -4,6 +4,8 @@
 double acosh(double x) {
   if (x < 1)
     return NAN;
+  if (x > 1e+9)
+    return log(x) + M_LN2;
   return log(x + sqrt(x * x - 1));
 }
 #endif
diff --git a/libsrc/math/asinh.c b/libsrc/math/asinh.c
index 4f3b3ac..5f51fe4 100644
--- a/libsrc/math/asinh.c
+++ b/libsrc/math/asinh.c
@@ -2,6 +2,8 @@
 
 #ifndef __NO_FLONUM
 double asinh(double x) {
-  return log(x + sqrt(x * x + 1));
+  double a = fabs(x);
+  double t = a > 1e+9 ? log(a) + M_LN2 : log(a + sqrt(a * a + 1));
+  return copysign(t, x);
 }
 #endif
diff --git a/libsrc/math/cosh.c b/libsrc/math/cosh.c
index 8d39dd5..1c24574 100644
--- a/libsrc/math/cosh.c
+++ b/libsrc/math/cosh.c
@@ -2,6 +2,10 @@
 
 #ifndef __NO_FLONUM
 double cosh(double x) {
+  if (fabs(x) > 40) {
+    double t = exp(fabs(x) * 0.5);
+    return 0.5 * t * t;
+  }
   // (e^x + e^-x) / 2
   return (exp(x) + exp(-x)) * 0.5;
 }
diff --git a/libsrc/math/sinh.c b/libsrc/math/sinh.c
index 2100ea8..ce74fdf 100644
--- a/libsrc/math/sinh.c
+++ b/libsrc/math/sinh.c
@@ -2,6 +2,10 @@
 
 #ifndef __NO_FLONUM
 double sinh(double x) {
+  if (fabs(x) > 40) {
+    double t = exp(fabs(x) * 0.5);
+    return copysign(0.5 * t * t, x);
+  }
   // (e^x - e^-x) / 2
   return (exp(x) - exp(-x)) * 0.5;
 }
diff --git a/libsrc/math/tanh.c b/libsrc/math/tanh.c
index 58b2a7c..3fbb836 100644
--- a/libsrc/math/tanh.c
+++ b/libsrc/math/tanh.c
@@ -2,6 +2,8 @@
 
 #ifndef __NO_FLONUM
 double tanh(double x) {
+  if (fabs(x) > 40)
+    return copysign(1.0, x);
   return sinh(x) / cosh(x);
 }
 #endif
-- 
2.43.0


From 815d48bf35cdf9f88607f8f024f17b6f1dde99a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:10 +0000
Subject: [PATCH 135/162] fix: atan2 is wrong for infinities and underflowing
 ratios

---
 libsrc/math/atan2.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libsrc/math/atan2.c b/libsrc/math/atan2.c
index 5978dda..9f130d8 100644
--- a/libsrc/math/atan2.c
+++ b/libsrc/math/atan2.c
@@ -3,12 +3,16 @@
 
 #ifndef __NO_FLONUM
 double atan2(double y, double x) {
+  if (isinf(x) && isinf(y)) {
+    x = copysign(1, x);
+    y = copysign(1, y);
+  }
   if (fabs(x) >= fabs(y)) {
     if (x == 0)
       return signbit(x) == 0 ? y : copysign(M_PI, y);
     double t = atan(y / x);
     if (x < 0)
-      t = (t <= 0 ? M_PI : -M_PI) + t;
+      t = copysign(M_PI, y) + t;
     return t;
   } else {
     double t = atan(x / y);
-- 
2.43.0


From 70fedba5bdc75901101e79a35644599577175a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:49 +0000
Subject: [PATCH 136/162] fix: FLT_MIN, FLT_MAX and FLT_EPSILON have type
 double

---
 include/float.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/float.h b/include/float.h
index 748fcf6..613598c 100644
--- a/include/float.h
+++ b/include/float.h
@@ -18,8 +18,8 @@
 #define FLT_MAX_EXP     (128)
 #define FLT_MIN_10_EXP  (-37)
 #define FLT_MAX_10_EXP  (38)
-#define FLT_MIN         (1.1754943508222875e-38)
-#define FLT_MAX         (3.4028234663852886e+38)
-#define FLT_EPSILON     (1.1920928955078125e-07)
+#define FLT_MIN         (1.17549435082228750797e-38F)
+#define FLT_MAX         (3.40282346638528859812e+38F)
+#define FLT_EPSILON     (1.1920928955078125e-07F)
 
 #define FLT_ROUNDS  (1)  // TODO
-- 
2.43.0


From 02fdf6c1e2dd6f4498329562d06e4979c53be306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:49 +0000
Subject: [PATCH 137/162] fix: mathematical constants are not the nearest
 doubles

---
 include/math.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/math.h b/include/math.h
index 9180869..00508cf 100644
--- a/include/math.h
+++ b/include/math.h
@@ -6,14 +6,14 @@
 #define M_PI_4      (0.78539816339744830962)
 #define M_1_PI      (1.0 / M_PI)
 #define M_2_PI      (2.0 / M_PI)
-#define M_2_SQRTPI  (1.128379167095513)
-#define M_SQRT2     (1.414213562373095)
-#define M_SQRT1_2   (0.707106781186548)
-#define M_E         (2.718281828459045)
-#define M_LOG2E     (1.442695040888963)
-#define M_LOG10E    (0.434294481903252)
-#define M_LN2       (0.693147180559945)
-#define M_LN10      (2.302585092994046)
+#define M_2_SQRTPI  (1.12837916709551257390)
+#define M_SQRT2     (1.41421356237309504880)
+#define M_SQRT1_2   (0.70710678118654752440)
+#define M_E         (2.71828182845904523536)
+#define M_LOG2E     (1.44269504088896340736)
+#define M_LOG10E    (0.43429448190325182765)
+#define M_LN2       (0.69314718055994530942)
+#define M_LN10      (2.30258509299404568402)
 #define NAN         (__builtin_nan("0x7ff8000000000000"))
 #define INFINITY    (1.0 / 0.0)
 #define HUGE_VAL    INFINITY
-- 
2.43.0


From 7eacdbc531927d3995cb5ed26d2a3020ed71f1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:49 +0000
Subject: [PATCH 138/162] fix: S_ISFIFO uses an undefined macro

---
 include/sys/stat.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sys/stat.h b/include/sys/stat.h
index 2251b3b..457b198 100644
--- a/include/sys/stat.h
+++ b/include/sys/stat.h
@@ -122,7 +122,7 @@ int fchmodat(int dirfd, const char *pathname, mode_t mode, int flags);
 #define S_ISBLK(m)   (((m) & S_IFMT) == S_IFBLK)
 #define S_ISLNK(m)   (((m) & S_IFMT) == S_IFLNK)
 #define S_ISSOCK(m)  (((m) & S_IFMT) == S_IFSOCK)
-#define S_ISFIFO(m)  (((m) & S_IFMT) == S_IFFIFO)
+#define S_ISFIFO(m)  (((m) & S_IFMT) == S_IFIFO)
 
 int stat(const char *pathname, struct stat *buf);
 int fstat(int fd, struct stat *buf);
-- 
2.43.0


From a417f4428f44e5c9ce41c6aab53ea3a437768da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:49 +0000
Subject: [PATCH 139/162] fix: printf does not know %o though <inttypes.h>
 defines PRIoMAX

---
 libsrc/stdio/vfprintf.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libsrc/stdio/vfprintf.c b/libsrc/stdio/vfprintf.c
index d061707..4d455d0 100644
--- a/libsrc/stdio/vfprintf.c
+++ b/libsrc/stdio/vfprintf.c
@@ -366,7 +366,7 @@ int vfprintf(FILE *fp, const char *fmt_, va_list ap) {
                         padding == '0');
       }
       break;
-    case 'u':
+    case 'u': case 'o':
       {
         unsigned long long x;
         if (sizez) {
@@ -378,7 +378,8 @@ int vfprintf(FILE *fp, const char *fmt_, va_list ap) {
           default: x = va_arg(ap, unsigned long long); break;  // case 2:
           }
         }
-        o += putinteger(fp, "", x, 10, kHexDigits, order, suborder, leftalign, padding == '0');
+        o += putinteger(fp, "", x, c == 'o' ? 8 : 10, kHexDigits, order, suborder, leftalign,
+                        padding == '0');
       }
       break;
     case 'x': case 'X':
-- 
2.43.0


From 6404869b08394309a47dea94ae53bb63a4b54945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:20 +0000
Subject: [PATCH 140/162] fix: constant pointer differences have type size_t

---
 src/cc/frontend/fe_misc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index 0cf6da8..23df1c0 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -1050,8 +1050,8 @@ Expr *new_expr_addsub(enum ExprKind kind, const Token *tok, Expr *lhs, Expr *rhs
       if (is_const(lhs) && is_const(rhs)) {
         assert(lhs->kind == EX_FIXNUM);
         assert(rhs->kind == EX_FIXNUM);
-        return new_expr_fixlit(&tySize, tok,
-                               (lhs->fixnum - rhs->fixnum) / type_size(ltype->pa.ptrof));
+        Fixnum diff = wrap_value(lhs->fixnum - rhs->fixnum, type_size(&tySSize), false);
+        return new_expr_fixlit(&tySSize, tok, diff / (Fixnum)type_size(ltype->pa.ptrof));
       }
       return new_expr_bop(EX_DIV, &tySSize, tok,
                           make_cast(&tySSize, tok,
-- 
2.43.0


From 2e8566ce60469b8727eb22f3ec9fdfb5075b0e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:30 +0000
Subject: [PATCH 141/162] fix: write returns the negative error number and does
 not set errno

---
 libsrc/unistd/write.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libsrc/unistd/write.c b/libsrc/unistd/write.c
index 2cab80d..547be69 100644
--- a/libsrc/unistd/write.c
+++ b/libsrc/unistd/write.c
@@ -6,6 +6,7 @@
 ssize_t write(int fd, const void *str, size_t len) {
   ssize_t ret;
   SYSCALL_RET(__NR_write, ret);
+  SET_ERRNO(ret);
   return ret;
 }
 
-- 
2.43.0


From e72ca5443ccbafb238353b9d58750b1527eb96e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:30 +0000
Subject: [PATCH 142/162] fix: fork returns the negative error number and does
 not set errno

---
 libsrc/unistd/fork.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libsrc/unistd/fork.c b/libsrc/unistd/fork.c
index db29f05..35844e5 100644
--- a/libsrc/unistd/fork.c
+++ b/libsrc/unistd/fork.c
@@ -5,6 +5,7 @@
 pid_t fork(void) {
   pid_t ret;
   SYSCALL_RET(__NR_fork, ret);
+  SET_ERRNO(ret);
   return ret;
 }
 
-- 
2.43.0


From e896d3a132c99491903e0904f549c4afb6696f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:40 +0000
Subject: [PATCH 143/162] fix: basename of a null, empty or slash-ended path

---
 libsrc/misc/basename.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/libsrc/misc/basename.c b/libsrc/misc/basename.c
index 4419ae0..2be5bee 100644
--- a/libsrc/misc/basename.c
+++ b/libsrc/misc/basename.c
@@ -1,10 +1,16 @@
 #include "libgen.h"
-#include "string.h"  // strrchr
+#include "string.h"
 
 char *basename(char *path) {
+  if (path == NULL || *path == '\0')
+    return ".";
+
+  // Remove trailing slashes.
+  char *end = path + strlen(path);
+  while (end > path + 1 && end[-1] == '/')
+    --end;
+  *end = '\0';
+
   char *p = strrchr(path, '/');
-  if (p != NULL)
-    return p + 1;
-  else
-    return path;
+  return p != NULL && p[1] != '\0' ? p + 1 : path;
 }
-- 
2.43.0


From 8a92b96e03048e4317b60e1dc4725d5d4fbdb4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:51 +0000
Subject: [PATCH 144/162] fix: dirname of a null, slash-ended or root path

---
 libsrc/misc/dirname.c | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/libsrc/misc/dirname.c b/libsrc/misc/dirname.c
index 64b76ac..6f3309f 100644
--- a/libsrc/misc/dirname.c
+++ b/libsrc/misc/dirname.c
@@ -1,11 +1,19 @@
 #include "libgen.h"
-#include "string.h"  // strrchr
+#include "string.h"
 
 char *dirname(char *path) {
-  char *p = strrchr(path, '/');
-  if (p != NULL) {
-    *p = '\0';
-    return path;
-  }
-  return ".";
+  if (path == NULL)
+    return ".";
+
+  char *end = path + strlen(path);
+  while (end > path + 1 && end[-1] == '/')  // Trailing slashes.
+    --end;
+  while (end > path && end[-1] != '/')  // Last component.
+    --end;
+  if (end == path && *path != '/')
+    return ".";
+  while (end > path + 1 && end[-1] == '/')  // Slashes between the two.
+    --end;
+  *end = '\0';
+  return path;
 }
-- 
2.43.0


From 20e1b0058ff33988d27f347a7bee2f320065fe5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:51 +0000
Subject: [PATCH 145/162] fix: rand without srand is not the sequence of
 srand(1)

---
 libsrc/stdlib/lrand48.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/libsrc/stdlib/lrand48.c b/libsrc/stdlib/lrand48.c
index 63937ee..c93243d 100644
--- a/libsrc/stdlib/lrand48.c
+++ b/libsrc/stdlib/lrand48.c
@@ -1,7 +1,6 @@
 #include "stdlib.h"
 
-// static unsigned short xsubi[3] = {0x2e16, 0xea27, 0x6c4c};  // {1, 0, 0}?
-static unsigned short xsubi[3] = {0xdeec, 0x1053, 0x1db2};
+static unsigned short xsubi[3] = {0x330e, 1, 0};  // srand48(1)
 
 // [0, 1<<31)
 long lrand48(void) {
-- 
2.43.0


From 3c44a519adb2475632e56105053e4b5e1a0eddb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:23 +0000
Subject: [PATCH 146/162] fix: getcwd reports EPERM whatever the error is

---
 libsrc/unistd/getcwd.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/libsrc/unistd/getcwd.c b/libsrc/unistd/getcwd.c
index c76c12e..ec55452 100644
--- a/libsrc/unistd/getcwd.c
+++ b/libsrc/unistd/getcwd.c
@@ -27,8 +27,7 @@ char *getcwd(char *buffer, size_t size) {
       return NULL;
   }
   int result = _getcwd(buffer, size);
-  if (result < 0) {
-    errno = -result;
+  if (result < 0) {  // errno is already set.
     free(allocated);
     return NULL;
   }
-- 
2.43.0


From 5c6da7440c47bc269553e786424028dce639fc16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:23 +0000
Subject: [PATCH 147/162] fix: getrandom mistakes descriptor 1 for a failed
 open

---
 libsrc/stdlib/getrandom.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libsrc/stdlib/getrandom.c b/libsrc/stdlib/getrandom.c
index f22cf13..df939fc 100644
--- a/libsrc/stdlib/getrandom.c
+++ b/libsrc/stdlib/getrandom.c
@@ -14,9 +14,9 @@ ssize_t getrandom(void *buf, size_t buflen, unsigned int flags) {
 #include "unistd.h"  // close
 
 ssize_t getrandom(void *buf, size_t buflen, unsigned int flags) {
-  ssize_t size = 0;
+  ssize_t size = -1;
   int fd = open(flags & GRND_RANDOM ? "/dev/random" : "/dev/urandom", O_RDONLY);
-  if (fd != 1) {
+  if (fd >= 0) {
     size = read(fd, buf, buflen);
     close(fd);
   }
-- 
2.43.0


From 78e3d231314bd12266f90b63658ce6be49abef42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:09 +0000
Subject: [PATCH 148/162] fix: isatty answers yes for descriptors below 3
 whatever they are

---
 libsrc/unistd/isatty.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libsrc/unistd/isatty.c b/libsrc/unistd/isatty.c
index a365021..905291a 100644
--- a/libsrc/unistd/isatty.c
+++ b/libsrc/unistd/isatty.c
@@ -1,5 +1,6 @@
 #include "unistd.h"
 #include "sys/ioctl.h"  // termio
+#include "_syscall.h"  // __NR_ioctl
 
 int isatty(int fd) {
 #if defined(__NR_ioctl)
-- 
2.43.0


From db1ddb0f9119e479e3d21791e7b35bc999cac1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:41 +0000
Subject: [PATCH 149/162] fix: close on WASI returns the WASI error number

---
 libsrc/_wasm/unistd/close.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libsrc/_wasm/unistd/close.c b/libsrc/_wasm/unistd/close.c
index 3b2a9d4..a3de013 100644
--- a/libsrc/_wasm/unistd/close.c
+++ b/libsrc/_wasm/unistd/close.c
@@ -1,6 +1,10 @@
 #include "unistd.h"
+#include "errno.h"
 #include "../wasi.h"
 
 int close(int fd) {
-  return fd_close(fd);
+  if (fd_close(fd) == 0)
+    return 0;
+  errno = EBADF;
+  return -1;
 }
-- 
2.43.0


From 18bba1caed3260dd0dd1f5575fed5ae1bb29b816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:36 +0000
Subject: [PATCH 150/162] fix: open on WASI ignores O_EXCL, and O_CREAT when
 reading

---
 libsrc/_wasm/unistd/open.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libsrc/_wasm/unistd/open.c b/libsrc/_wasm/unistd/open.c
index a799529..fb3eb5f 100644
--- a/libsrc/_wasm/unistd/open.c
+++ b/libsrc/_wasm/unistd/open.c
@@ -27,9 +27,11 @@ int open(const char *fn, int flag, ...) {
   }
   uint64_t fs_rights_inheriting = fs_rights_base;
 
+  if (flag & O_CREAT)
+    oflags |= OFLAGS_CREAT;
+  if (flag & O_EXCL)
+    oflags |= OFLAGS_EXCL;
   if (fs_rights_base & FD_WRITE) {
-    if (flag & O_CREAT)
-      oflags |= OFLAGS_CREAT;
     if (flag & O_TRUNC)
       oflags |= OFLAGS_TRUNC;
     if (flag & O_APPEND)
-- 
2.43.0


From e9253804d39eaf27f3ee14724571a1f81731f6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:37 +0000
Subject: [PATCH 151/162] fix: increment, difference and size of pointers to
 variable length arrays

---
 src/cc/frontend/fe_misc.c | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index 23df1c0..7a9fddd 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -976,6 +976,20 @@ Expr *new_expr_int_bop(enum ExprKind kind, const Token *tok, Expr *lhs, Expr *rh
   return new_expr_num_bop(kind, tok, lhs, rhs);
 }
 
+static bool is_vla(const Type *type) {
+#ifndef __NO_VLA
+  return ptr_or_array(type) && type->pa.vla != NULL;
+#else
+  UNUSED(type);
+  return false;
+#endif
+}
+
+static Type *decay_array(Type *type) {
+  return is_vla(type) ? ptrof(type->pa.ptrof)
+                      : type->kind == TY_ARRAY ? array_to_ptr(type) : type;
+}
+
 Expr *new_expr_addsub(enum ExprKind kind, const Token *tok, Expr *lhs, Expr *rhs) {
   lhs = str_to_char_array_var(curscope, lhs);
   rhs = str_to_char_array_var(curscope, rhs);
@@ -1021,9 +1035,7 @@ Expr *new_expr_addsub(enum ExprKind kind, const Token *tok, Expr *lhs, Expr *rhs
     }
   } else if (ptr_or_array(ltype)) {
     if (is_fixnum(rtype->kind)) {
-      type = ltype;
-      if (ltype->kind == TY_ARRAY)
-        type = array_to_ptr(ltype);
+      type = decay_array(ltype);
       // lhs + ((size_t)rhs * sizeof(*lhs))
       if (!ensure_struct(type->pa.ptrof, tok, curscope))
         return lhs;
@@ -1056,19 +1068,17 @@ Expr *new_expr_addsub(enum ExprKind kind, const Token *tok, Expr *lhs, Expr *rhs
       return new_expr_bop(EX_DIV, &tySSize, tok,
                           make_cast(&tySSize, tok,
                                     new_expr_bop(EX_SUB, &tySize, tok, lhs, rhs), false),
-                          new_expr_fixlit(&tySSize, tok, type_size(ltype->pa.ptrof)));
+                          make_cast(&tySSize, tok, calc_type_size(ltype->pa.ptrof), false));
     }
   } else if (ptr_or_array(rtype)) {
     if (kind == EX_ADD && is_fixnum(ltype->kind)) {
-      type = rhs->type;
-      if (type->kind == TY_ARRAY)
-        type = array_to_ptr(type);
+      type = decay_array(rhs->type);
       // ((size_t)lhs * sizeof(*rhs)) + rhs
       if (!ensure_struct(type->pa.ptrof, tok, curscope))
         return rhs;
       Expr *tmp = new_expr_num_bop(EX_MUL, lhs->token,
                                    make_cast(&tySize, lhs->token, lhs, false),
-                                   new_expr_fixlit(&tySize, tok, type_size(type->pa.ptrof)));
+                                   calc_type_size(type->pa.ptrof));
       lhs = rhs;
       rhs = tmp;
       Type *t = ltype;
@@ -1224,7 +1234,7 @@ static Expr *transform_incdec_of_bitfield(enum ExprKind kind, Expr *target, cons
 // `_Bool' must be kept normalized, so transform ++/-- to assignment:
 //   pre:  (ptr = &target, *ptr = (bool)(*ptr + 1))
 //   post: (ptr = &target, (val = *ptr, (*ptr = (bool)(val + 1), val)))
-static Expr *transform_incdec_of_bool(enum ExprKind kind, Expr *target, const Token *tok) {
+static Expr *transform_incdec(enum ExprKind kind, Expr *target, const Token *tok) {
   Type *type = target->type;
   Expr *ptr_assign = NULL;
   if (target->kind != EX_VAR) {
@@ -1260,8 +1270,9 @@ Expr *incdec_of(enum ExprKind kind, Expr *target, const Token *tok) {
       return transform_incdec_of_bitfield(kind, target, tok, minfo);
   }
 #endif
-  if (is_bool(target->type))
-    return transform_incdec_of_bool(kind, target, tok);
+  if (is_bool(target->type) ||
+      (target->type->kind == TY_PTR && is_vla(target->type->pa.ptrof)))
+    return transform_incdec(kind, target, tok);
   return new_expr_unary(kind, target->type, tok, target);
 }
 
-- 
2.43.0


From c599b07ef776e9e07e3eafd092533b148d5a275b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:37 +0000
Subject: [PATCH 152/162] fix: array parameters of variable length, and lengths
 given by constants without a known value

---
 src/cc/frontend/parser.c      | 17 ++++------
 src/cc/frontend/parser_type.c | 63 ++++++++++++++++++-----------------
 2 files changed, 39 insertions(+), 41 deletions(-)

diff --git a/src/cc/frontend/parser.c b/src/cc/frontend/parser.c
index 7e96071..e16faa0 100644
--- a/src/cc/frontend/parser.c
+++ b/src/cc/frontend/parser.c
@@ -801,18 +801,15 @@ static Function *define_func(Type *functype, const Token *ident, const Vector *p
 
 #ifndef __NO_VLA
 static void modify_funparam_vla_type(Type *type, Scope *scope) {
-  if (type->kind == TY_ARRAY && type->pa.vla != NULL) {
-    type->kind = TY_PTR;  // array_to_ptr, but must apply the change to the original type.
+  for (Type *t = type; ptr_or_array(t); t = t->pa.ptrof) {
+    if (t->pa.vla != NULL && t->pa.vla->kind == EX_VAR)
+      t->pa.vla->var.scope = scope;  // Fix scope, which set in `parse_direct_declarator_suffix()`
   }
 
-  for (;;) {
-    if (!ptr_or_array(type))
-      break;
-    if (type->pa.vla != NULL) {
-      assert(type->pa.vla->kind == EX_VAR);
-      type->pa.vla->var.scope = scope;  // Fix scope, which set in `parse_direct_declarator_suffix()`
-    }
-    type = type->pa.ptrof;
+  if (type->kind == TY_ARRAY && type->pa.vla != NULL) {
+    type->kind = TY_PTR;  // array_to_ptr, but must apply the change to the original type.
+    type->pa.vla = NULL;
+    type->qualifier &= ~TQ_CONST;
   }
 }
 #endif
diff --git a/src/cc/frontend/parser_type.c b/src/cc/frontend/parser_type.c
index 113a390..978711a 100644
--- a/src/cc/frontend/parser_type.c
+++ b/src/cc/frontend/parser_type.c
@@ -488,40 +488,31 @@ static ssize_t parse_array_size(Expr **pvla) {
     length = expr->fixnum;
     break;
   case EX_VAR:
-    {
+    if (expr->type->qualifier & TQ_CONST) {
       VarInfo *varinfo = scope_find(expr->var.scope, expr->var.name, NULL);
       assert(varinfo != NULL);
-      if (expr->type->qualifier & TQ_CONST) {
-        switch (expr->type->kind) {
-        case TY_FLONUM:
-          parse_error(PE_WARNING, expr->token, kConstIntExpected);
-          // Fallthrough
-        case TY_FIXNUM:
-          {
-            Initializer *init = is_global_scope(expr->var.scope) ? varinfo->global.init
-                                                                  : varinfo->local.init;
-            assert(init != NULL);
-            assert(init->kind == IK_SINGLE);
-            switch (init->single->kind) {
-            case EX_FIXNUM:
-              length = init->single->fixnum;
-              break;
-#ifndef __NO_FLONUM
-            case EX_FLONUM:
-              length = init->single->flonum;
-              break;
-#endif
-            // TODO: Compound literal?
-            default:  assert(false); break;
-            }
-          }
+      const Initializer *init = NULL;
+      if (is_global_scope(expr->var.scope))
+        init = varinfo->global.init;
+      else if (varinfo->storage & VS_STATIC)
+        init = varinfo->static_.svar->global.init;
+      else if (is_local_storage(varinfo))
+        init = varinfo->local.init;
+
+      if (init != NULL && init->kind == IK_SINGLE) {
+        const Expr *single = init->single;
+        if (single->kind == EX_FIXNUM) {
+          length = single->fixnum;
           break;
-        default:
-          parse_error(PE_NOFATAL, expr->token, kConstIntExpected);
-          length = 1;
+        }
+#ifndef __NO_FLONUM
+        if (single->kind == EX_FLONUM) {
+          parse_error(PE_WARNING, expr->token, kConstIntExpected);
+          length = single->flonum;
           break;
         }
-        break;
+#endif
+        // TODO: Compound literal?
       }
     }
     // Fallthrough
@@ -573,14 +564,24 @@ static Type *parse_direct_declarator_suffix(Type *type) {
 
       Token *var = match(TK_IDENT);
       int index;
-      if (var != NULL && parsing_funparams != NULL &&
+      if (var != NULL && parsing_funparams != NULL && fetch_token()->kind == TK_RBRACKET &&
           (index = var_find(parsing_funparams, var->ident)) >= 0) {
         VarInfo *varinfo = parsing_funparams->data[index];
         vla = new_expr_variable(var->ident, varinfo->type, var, curscope);  // TODO: curscopeはその関数のルートスコープにする必要がある
       } else {
         if (var != NULL)
           unget_token(var);
-        length = parse_array_size(&vla);
+        if (parsing_funparams != NULL) {
+          // Preceding parameters are visible.
+          Scope *scope = new_scope(curscope);
+          scope->vars = new_vector();
+          vec_concat(scope->vars, parsing_funparams);
+          curscope = scope;
+          length = parse_array_size(&vla);
+          curscope = scope->parent;
+        } else {
+          length = parse_array_size(&vla);
+        }
       }
 
       consume(TK_RBRACKET, "`]' expected");
-- 
2.43.0


From 41ffae76c5df1beb91cd89471e1c6ee5f393005c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:06 +0000
Subject: [PATCH 153/162] fix: unnamed bit-fields do not take an initializer

---
 src/cc/frontend/initializer.c | 39 +++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/src/cc/frontend/initializer.c b/src/cc/frontend/initializer.c
index 2d0b049..574cf13 100644
--- a/src/cc/frontend/initializer.c
+++ b/src/cc/frontend/initializer.c
@@ -223,6 +223,22 @@ static bool is_whole_initializer(Type *type, Expr *value) {
   return is_multi_type(value->type->kind) && same_type_without_qualifier(type, value->type, true);
 }
 
+// Find the member which takes an initializer without designator, at `index` or after.
+static int find_initialized_member(const StructInfo *sinfo, int index) {
+  for (int i = 0; i < sinfo->member_count; ++i) {
+#ifndef __NO_BITFIELD
+    const MemberInfo *member = &sinfo->members[i];
+    if (member->bitfield.active && member->name == NULL)  // Unnamed bitfield is not initialized.
+      continue;
+#endif
+    if (i >= index)
+      return i;
+    if (sinfo->is_union)  // Only the first one.
+      break;
+  }
+  return -1;
+}
+
 static Initializer *find_next_indices(InitFlattener *flattener, Initializer *elem_init) {
   Vector *indices = flattener->indices;
   for (;;) {
@@ -255,22 +271,13 @@ static Initializer *find_next_indices(InitFlattener *flattener, Initializer *ele
         {
           const StructInfo *sinfo = type->struct_.info;
           assert(sinfo != NULL);
-          int member_count = sinfo->is_union ? 1 : sinfo->member_count;
-          for (;;) {
-            if (last_index >= member_count) {
-              upward = true;
-              break;
-            }
-            MemberInfo *member = &sinfo->members[last_index];
-#ifndef __NO_BITFIELD
-            if (member->bitfield.active && member->bitfield.width == 0) {  // Initializer not assigned to zero width bitfield.
-              ++last_index;
-              indices->data[depth - 1] = INT2VOIDP(last_index);
-              continue;
-            }
-#endif
-            type = member->type;
-            break;
+          int index = find_initialized_member(sinfo, last_index);
+          if (index < 0) {
+            upward = true;
+          } else {
+            last_index = index;
+            indices->data[indices->len - 1] = INT2VOIDP(last_index);
+            type = sinfo->members[index].type;
           }
         }
         break;
-- 
2.43.0


From a46a2a64be6ab586fa22f91aa59a398cf2f2700c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:01 +0000
Subject: [PATCH 154/162] fix: log is inaccurate near one

---
 libsrc/math/log.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libsrc/math/log.c b/libsrc/math/log.c
index f368975..8d09c75 100644
--- a/libsrc/math/log.c
+++ b/libsrc/math/log.c
@@ -9,7 +9,11 @@ double log(double x) {
 
   int n;
   x = frexp(x, &n);
-  // 0.5 <= x < 1.0
+  if (x < M_SQRT1_2) {
+    x *= 2;
+    --n;
+  }
+  // sqrt(0.5) <= x < sqrt(2), so that n is 0 near 1 and nothing cancels.
 
   double y = (x - 1) / (x + 1);
   double yy = y * y;
-- 
2.43.0


From 04fabbc6aef94ca7a8c9a49eacf08fae77e48c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:09 +0000
Subject: [PATCH 155/162] fix: wcc: the value of an assignment is lost in an
 address to assign to

---
 src/wcc/traverse.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/wcc/traverse.c b/src/wcc/traverse.c
index b45ce23..05b6725 100644
--- a/src/wcc/traverse.c
+++ b/src/wcc/traverse.c
@@ -366,7 +366,7 @@ static void te_comma(Expr **pexpr, bool needval) {
 
 static void te_assign(Expr **pexpr, bool needval) {
   Expr *expr = *pexpr;
-  traverse_expr(&expr->bop.lhs, false);
+  traverse_expr(&expr->bop.lhs, true);  // Its address is needed.
   traverse_expr(&expr->bop.rhs, true);
   if (needval) {
     Expr *rhs = expr->bop.rhs;
@@ -400,7 +400,8 @@ static void te_incdec(Expr **pexpr, bool needval) {
   Expr *expr = *pexpr;
 
   static const enum ExprKind kOpAddSub[2] = {EX_ADD, EX_SUB};
-  traverse_expr(&expr->unary.sub, needval);
+  UNUSED(needval);
+  traverse_expr(&expr->unary.sub, true);  // Its address is needed.
   Expr *target = expr->unary.sub;
   if (target->kind == EX_COMPLIT)
     target = target->complit.var;
-- 
2.43.0


From 16b1fbc37428e4a199214eec718d0104be53294f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:09 +0000
Subject: [PATCH 156/162] fix: address of a variable length array, and its
 prototypes in wcc

---
 src/cc/frontend/fe_misc.c     |  9 +++++++++
 src/cc/frontend/parser.c      |  7 ++-----
 src/cc/frontend/parser_type.c | 10 +---------
 3 files changed, 12 insertions(+), 14 deletions(-)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index 7a9fddd..4284cc8 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -784,6 +784,15 @@ Expr *make_refer(const Token *tok, Expr *expr) {
       return sub;
     }
   }
+#ifndef __NO_VLA
+  if (expr->kind == EX_VAR && type->kind == TY_PTR && type->pa.vla != NULL) {
+    // VLA variable holds the address of the array.
+    Type *array = arrayof(type->pa.ptrof, LEN_VLA);
+    array->pa.vla = type->pa.vla;
+    array->pa.size_var = type->pa.size_var;
+    return make_cast(ptrof(array), tok, expr, true);
+  }
+#endif
   Expr *e = expr;
   if (e->kind == EX_COMPLIT)
     e = e->complit.var;
diff --git a/src/cc/frontend/parser.c b/src/cc/frontend/parser.c
index e16faa0..93346c3 100644
--- a/src/cc/frontend/parser.c
+++ b/src/cc/frontend/parser.c
@@ -806,11 +806,8 @@ static void modify_funparam_vla_type(Type *type, Scope *scope) {
       t->pa.vla->var.scope = scope;  // Fix scope, which set in `parse_direct_declarator_suffix()`
   }
 
-  if (type->kind == TY_ARRAY && type->pa.vla != NULL) {
-    type->kind = TY_PTR;  // array_to_ptr, but must apply the change to the original type.
-    type->pa.vla = NULL;
-    type->qualifier &= ~TQ_CONST;
-  }
+  if (type->kind == TY_PTR)
+    type->pa.vla = NULL;  // The parameter itself is just a pointer.
 }
 #endif
 
diff --git a/src/cc/frontend/parser_type.c b/src/cc/frontend/parser_type.c
index 978711a..4133819 100644
--- a/src/cc/frontend/parser_type.c
+++ b/src/cc/frontend/parser_type.c
@@ -716,15 +716,7 @@ Vector *parse_funparams(bool *pvaargs) {
 
         // Treat array or function as its pointer type automatically.
         switch (type->kind) {
-        case TY_ARRAY:
-#ifndef __NO_VLA
-          // Keep VLAs to calculate array size in `parse_defun`.
-          if (type->pa.vla != NULL)
-            ;
-          else
-#endif
-            type = array_to_ptr(type);
-          break;
+        case TY_ARRAY:  type = array_to_ptr(type); break;  // VLA size is calculated in `parse_defun`.
         case TY_FUNC:   type = ptrof(type); break;
         case TY_AUTO:
           parse_error(PE_NOFATAL, ident, "auto type not allowed in function parameter");
-- 
2.43.0


From c8ccf38c7d57423f8a69a41b2d38ee121d2a01e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:13 +0000
Subject: [PATCH 157/162] fix: __VA_OPT__ substitutes the parameters, operators
 and nested parentheses in it

---
 src/cpp/macro.c | 87 +++++++++++++++++++++++++++++++++++++------------
 1 file changed, 66 insertions(+), 21 deletions(-)

diff --git a/src/cpp/macro.c b/src/cpp/macro.c
index 09d8cef..79b58b1 100644
--- a/src/cpp/macro.c
+++ b/src/cpp/macro.c
@@ -179,6 +179,55 @@ static void hsadd(HideSet *hs, Vector *ts) {
 
 static void macro_expand_tokens(Vector *tokens, bool fetch);
 
+static Vector *subst(Macro *macro, Table *param_table, Vector *args, HideSet *hs);
+
+// Handle GNU extension: `__VA_OPT__ ( content )`, which starts at `pos` in the body.
+// Returns the position of its closing parenthesis, or -1 if the token is an ordinary one.
+static int subst_va_opt(Macro *macro, Table *param_table, Vector *args, HideSet *hs, int pos,
+                        Vector **result) {
+  static const Name *va_opt;
+  if (va_opt == NULL)
+    va_opt = alloc_name("__VA_OPT__", NULL, false);
+
+  Vector *body = macro->body;
+  const Token *tok = body->data[pos];
+  if (macro->vaargs_ident == NULL || args == NULL || tok->kind != TK_IDENT ||
+      !equal_name(tok->ident, va_opt))
+    return -1;
+  int end = pos + 1;
+  while (end < body->len && ((Token*)body->data[end])->kind == PPTK_SPACE)
+    ++end;
+  if (end >= body->len || ((Token*)body->data[end++])->kind != TK_LPAR)
+    return -1;
+
+  Vector *content = new_vector();
+  for (int depth = 0; ; ++end) {
+    if (end >= body->len)
+      return -1;
+    Token *t = body->data[end];
+    if (t->kind == TK_LPAR)
+      ++depth;
+    else if (t->kind == TK_RPAR && depth-- == 0)
+      break;
+    if (t->kind != PPTK_SPACE || content->len > 0)
+      vec_push(content, t);
+  }
+  while (content->len > 0 && ((Token*)content->data[content->len - 1])->kind == PPTK_SPACE)
+    vec_pop(content);
+
+  Vector *expanded = new_vector();
+  vec_concat(expanded, args->data[args->len - 1]);
+  macro_expand_tokens(expanded, false);
+  if (expanded->len > 0) {  // vaargs is not empty
+    Macro sub = *macro;
+    sub.body = content;
+    *result = subst(&sub, param_table, args, hs);
+  } else {
+    *result = new_vector();
+  }
+  return end;
+}
+
 static Vector *subst(Macro *macro, Table *param_table, Vector *args, HideSet *hs) {
   Vector *os = new_vector();
   Vector *body = macro->body;
@@ -194,10 +243,6 @@ static Vector *subst(Macro *macro, Table *param_table, Vector *args, HideSet *hs
       expanded_args[i] = NULL;
   }
 
-  static const Name *va_opt;
-  if (va_opt == NULL && macro->vaargs_ident != NULL)
-    va_opt = alloc_name("__VA_OPT__", NULL, false);
-
   int operand_start = 0;  // Left operand of `##`.
   for (int i = 0; i < body->len; ++i) {
     const Token *tok = body->data[i];
@@ -236,6 +281,17 @@ static Vector *subst(Macro *macro, Table *param_table, Vector *args, HideSet *hs
               vec_push(os, arg->data[k]);
             continue;
           }
+
+          Vector *opt;
+          int end = subst_va_opt(macro, param_table, args, hs, i, &opt);
+          if (end >= 0) {
+            if (opt->len > 0)
+              glue1(os, operand_start, opt->data[0]);
+            for (int k = 1; k < opt->len; ++k)
+              vec_push(os, opt->data[k]);
+            i = end;
+            continue;
+          }
         }
         glue1(os, operand_start, next);
         continue;
@@ -271,23 +327,12 @@ static Vector *subst(Macro *macro, Table *param_table, Vector *args, HideSet *hs
         }
       }
 
-      // Handle GNU extension: __VA_OPT__
-      if (macro->vaargs_ident != NULL && equal_name(tok->ident, va_opt) &&
-          i + 2 < body->len && ((Token*)body->data[i + 1])->kind == TK_LPAR) {
-        int j;
-        for (j = i + 2; j < body->len; ++j) {
-          if (((Token*)body->data[j])->kind == TK_RPAR)
-            break;
-        }
-        if (j < body->len) {
-          Vector *arg = args->data[args->len - 1];
-          if (arg->len > 0) {  // vaargs is not empty
-            // TODO: expand?
-            for (int k = i + 2; k < j; ++k) {
-              vec_push(os, body->data[k]);
-            }
-          }
-          i = j;
+      {
+        Vector *opt;
+        int end = subst_va_opt(macro, param_table, args, hs, i, &opt);
+        if (end >= 0) {
+          vec_concat(os, opt);
+          i = end;
           continue;
         }
       }
-- 
2.43.0


From 09d2c538ee1c0cc0eb33d1ea6136c6dc2ba88b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:40 +0000
Subject: [PATCH 158/162] fix: include_next finds the next header when the
 header is named with a directory

---
 src/cpp/preprocessor.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/cpp/preprocessor.c b/src/cpp/preprocessor.c
index ad5a70a..896389a 100644
--- a/src/cpp/preprocessor.c
+++ b/src/cpp/preprocessor.c
@@ -286,7 +286,7 @@ static void register_pragma_once(const char *filename) {
 //   result!=NULL: Found (returns found path into *pfn)
 //   result==NULL, *pfn!=NULL: Found, but blocked because of pragma once.
 //   result==NULL, *pfn==NULL: Not found.
-static FILE *search_sysinc(const char *prevdir, const char *path, char **pfn) {
+static FILE *search_sysinc(const char *prevdir, const char *path, char **pfn, const char **pdir) {
   for (int ord = 0; ord < INC_ORDERS; ++ord) {
     Vector *v = &sys_inc_paths[ord];
     for (int idx = 0; idx < v->len; ++idx) {
@@ -301,6 +301,7 @@ static FILE *search_sysinc(const char *prevdir, const char *path, char **pfn) {
       if (registered_pragma_once(fn) ||  // If pragma once hit, then fp keeps NULL.
           (is_file(fn) && (fp = fopen(fn, "r")) != NULL)) {
         *pfn = fn;
+        *pdir = v->data[idx];
         return fp;
       }
     }
@@ -309,6 +310,9 @@ static FILE *search_sysinc(const char *prevdir, const char *path, char **pfn) {
   return NULL;
 }
 
+// Include path in which the current file was found, or NULL.
+static const char *found_dir;
+
 static void handle_include(const char *p, Stream *stream, bool is_next) {
   const char *orgp = p = skip_whitespaces(p);
 
@@ -381,6 +385,8 @@ static void handle_include(const char *p, Stream *stream, bool is_next) {
   char *path = strndup(p, q - p);
   char *fn = NULL;
   FILE *fp = NULL;
+  const char *prev_found = found_dir;
+  const char *new_found = NULL;
   char *dir = strdup(dirname(strdup(stream->filename)));
   // Search from current directory.
   if (!is_next && !sys) {
@@ -391,7 +397,7 @@ static void handle_include(const char *p, Stream *stream, bool is_next) {
       fp = fopen(fn, "r");
   }
   if (fp == NULL) {
-    fp = search_sysinc(is_next ? dir : NULL, path, &fn);
+    fp = search_sysinc(!is_next ? NULL : prev_found != NULL ? prev_found : dir, path, &fn, &new_found);
     if (fp == NULL) {
       if (fn == NULL)  // Raise error except pragma once.
         error("Cannot open file: %s", path);
@@ -399,8 +405,10 @@ static void handle_include(const char *p, Stream *stream, bool is_next) {
     }
   }
 
+  found_dir = new_found;
   preprocess(fp, fn);
   fclose(fp);
+  found_dir = prev_found;
 
   // Put linemarker to restore line and filename.
   fprintf(pp_ofp, "# %d \"%s\" 2\n", stream->lineno + 1, stream->filename);
-- 
2.43.0


From d5c48ced04ad8a447b8ed2ff5a605e51d35eaad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:26 +0000
Subject: [PATCH 159/162] fix: %g takes the precision as significant digits,
 and width and flags

---
 libsrc/stdio/vfprintf.c | 168 ++++++++++++++++------------------------
 1 file changed, 66 insertions(+), 102 deletions(-)

diff --git a/libsrc/stdio/vfprintf.c b/libsrc/stdio/vfprintf.c
index 4d455d0..3d51859 100644
--- a/libsrc/stdio/vfprintf.c
+++ b/libsrc/stdio/vfprintf.c
@@ -30,25 +30,6 @@ static void putpadding(FILE *fp, int m, char padding) {
   } while (m > 0);
 }
 
-static int snprintullong(FILE *fp, unsigned long long x, int base, const char *digits, int order,
-                         int padding) {
-  char buf[32];
-  STATIC_ASSERT(sizeof(buf) >= (sizeof(long long) * CHAR_BIT + 2) / 3);
-  unsigned int i = 0, o = 0;
-
-  do {
-    buf[sizeof(buf) - (++i)] = digits[x % base];
-    x /= base;
-  } while (x != 0);
-
-  if (i < (unsigned int)order) {
-    unsigned int d = (unsigned int)order - i;
-    putpadding(fp, d, padding);
-    o += d;
-  }
-  return o + fwrite(&buf[sizeof(buf) - i], 1, i, fp);
-}
-
 // Put a field: sign or prefix, zeros, and the body, padded to the width.
 static int putfield(FILE *fp, const char *prefix, int zeros, const char *body, size_t len,
                     int width, bool leftalign, bool zeropad) {
@@ -91,30 +72,6 @@ static const char *signstr(bool negative, bool force) {
 #ifndef __NO_FLONUM
 #include "math.h"  // isfinite, signbit
 
-static long double pow10(int order) {
-  long double a = 1, x = 10;
-  for (; order > 0; order >>= 1) {
-    if ((order & 1) != 0)
-      a *= x;
-    x *= x;
-  }
-  return a;
-}
-
-static int sprintsign(FILE *fp, bool negative, bool force, int *porder) {
-  int o = 0;
-  if (negative) {
-    _fputc('-', fp);
-    ++o;
-  } else if (force) {
-    _fputc('+', fp);
-    ++o;
-  }
-  if (*porder > 1 && o > 0)
-    *porder -= o;
-  return o;
-}
-
 static int printnonfinite(FILE *fp, long double x, int order, bool sign, bool leftalign) {
   return putfield(fp, signstr(signbit(x), sign), 0, isnan(x) ? "nan" : "inf", 3, order, leftalign,
                   false);
@@ -172,6 +129,22 @@ static int expand_double(double x, char *digits) {
   return p - digits;
 }
 
+// Round the digits before `cut` to the nearest, ties to even: digits from `cut` to `end` are dropped.
+static void round_digits(char *cut, const char *end) {
+  char *p = cut;
+  bool up = *p > '5';
+  if (*p == '5') {
+    while (++p < end && *p == '0')
+      ;
+    up = p < end || (cut[-1] & 1) != 0;
+  }
+  if (up) {
+    for (p = cut; *(--p) == '9'; )
+      *p = '0';
+    ++*p;
+  }
+}
+
 static int printfloat(FILE *fp, long double x, int order, int suborder, bool sign, bool leftalign,
                       char padding) {
   if (!isfinite(x))
@@ -186,19 +159,8 @@ static int printfloat(FILE *fp, long double x, int order, int suborder, bool sig
   char *end = buf + 1 + expand_double(neg ? -x : x, &buf[1]);
   char *point = &buf[1 + DBL_INTUNITS * DBL_UNITDIGITS];
   if (suborder < end - point) {
-    // Round to the nearest, ties to even.
-    char *cut = point + suborder, *p = cut;
-    bool up = *p > '5';
-    if (*p == '5') {
-      while (++p < end && *p == '0')
-        ;
-      up = p < end || (cut[-1] & 1) != 0;
-    }
-    if (up) {
-      for (p = cut; *(--p) == '9'; )
-        *p = '0';
-      ++*p;
-    }
+    char *cut = point + suborder;
+    round_digits(cut, end);
     end = cut;
   }
   char *head = buf;
@@ -222,61 +184,63 @@ static int printfloat(FILE *fp, long double x, int order, int suborder, bool sig
   return o;
 }
 
-static int normalize_float(long double *px) {
-  long double x = *px;
-  int exp = 0;
-  if (x >= 1e6) {
-    do {
-      x /= 10;
-      ++exp;
-    } while (x >= 10);
-  }
-  if (x > 0 && x <= 1e-4) {
-    do {
-      x *= 10;
-      --exp;
-    } while (x < 1.0);
-  }
-  *px = x;
-  return exp;
-}
-
 static int printscientific(FILE *fp, long double x, int order, int suborder, bool sign,
                            bool leftalign, char padding) {
   if (!isfinite(x))
     return printnonfinite(fp, x, order, sign, leftalign);
 
   bool neg = signbit(x);
-  if (neg)
-    x = -x;
-  int o = sprintsign(fp, neg, sign, &order);
+  int precision = suborder < 0 ? 6 : suborder > 0 ? suborder : 1;  // Number of significant digits.
 
-  int e = normalize_float(&x);
-  unsigned long long int_part = x;
-  suborder = suborder > 0 ? suborder : 6;
-  long double one = pow10(suborder);
-  unsigned long long fraction = (x - int_part) * one + 0.5;
-  if (fraction >= one) {
-    ++int_part;
-    fraction -= one;
-  }
-  while (fraction % 10 == 0 && suborder > 0) {
-    fraction /= 10;
-    --suborder;
-  }
-  o += snprintullong(fp, int_part, 10, kHexDigits, order, padding);
-  if (fraction != 0) {
-    _fputc('.', fp); ++o;
-    o += snprintullong(fp, fraction, 10, kHexDigits, suborder, '0');
-  }
+  char buf[1 + (DBL_INTUNITS + DBL_FRACUNITS) * DBL_UNITDIGITS];
+  buf[0] = '0';  // For carry.
+  char *end = buf + 1 + expand_double(neg ? -x : x, &buf[1]);
+  char *point = &buf[1 + DBL_INTUNITS * DBL_UNITDIGITS];
 
-  if (e != 0) {
-    _fputc('e', fp); ++o;
-    o += sprintsign(fp, e < 0, true, &order);
-    e = e < 0 ? -e : e;
-    o += snprintullong(fp, e, 10, kHexDigits, 2, '0');
+  char *first = buf;
+  while (first < end && *first == '0')
+    ++first;
+  if (first >= end) {  // Zero.
+    first = point - 1;
+    end = point;
+  } else if (precision < end - first) {
+    char *cut = first + precision;
+    round_digits(cut, end);
+    end = cut;
+    if (first[-1] != '0')
+      --first;
   }
-  return o;
+  while (end > first + 1 && end[-1] == '0')
+    --end;
+
+  int e = (point - 1) - first;
+  char body[sizeof(buf) + 8], *p = body;
+  if (e >= -4 && e < precision) {
+    char *head = e >= 0 ? first : point - 1;
+    memcpy(p, head, point - head);
+    p += point - head;
+    if (end > point) {
+      *p++ = '.';
+      memcpy(p, point, end - point);
+      p += end - point;
+    }
+  } else {
+    *p++ = *first++;
+    if (first < end) {
+      *p++ = '.';
+      memcpy(p, first, end - first);
+      p += end - first;
+    }
+    *p++ = 'e';
+    *p++ = e < 0 ? '-' : '+';
+    if (e < 0)
+      e = -e;
+    if (e >= 100)
+      *p++ = '0' + e / 100;
+    *p++ = '0' + e / 10 % 10;
+    *p++ = '0' + e % 10;
+  }
+  return putfield(fp, signstr(neg, sign), 0, body, p - body, order, leftalign, padding == '0');
 }
 #endif
 
-- 
2.43.0


From 8a5f8811bbb8a07c02106158e7ad8bb8310b9d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:52 +0000
Subject: [PATCH 160/162] Revert "fix: %g takes the precision as significant
 digits, and width and flags"

This reverts commit d5c48ced04ad8a447b8ed2ff5a605e51d35eaad2.
---
 libsrc/stdio/vfprintf.c | 168 ++++++++++++++++++++++++----------------
 1 file changed, 102 insertions(+), 66 deletions(-)

diff --git a/libsrc/stdio/vfprintf.c b/libsrc/stdio/vfprintf.c
index 3d51859..4d455d0 100644
--- a/libsrc/stdio/vfprintf.c
+++ b/libsrc/stdio/vfprintf.c
@@ -30,6 +30,25 @@ static void putpadding(FILE *fp, int m, char padding) {
   } while (m > 0);
 }
 
+static int snprintullong(FILE *fp, unsigned long long x, int base, const char *digits, int order,
+                         int padding) {
+  char buf[32];
+  STATIC_ASSERT(sizeof(buf) >= (sizeof(long long) * CHAR_BIT + 2) / 3);
+  unsigned int i = 0, o = 0;
+
+  do {
+    buf[sizeof(buf) - (++i)] = digits[x % base];
+    x /= base;
+  } while (x != 0);
+
+  if (i < (unsigned int)order) {
+    unsigned int d = (unsigned int)order - i;
+    putpadding(fp, d, padding);
+    o += d;
+  }
+  return o + fwrite(&buf[sizeof(buf) - i], 1, i, fp);
+}
+
 // Put a field: sign or prefix, zeros, and the body, padded to the width.
 static int putfield(FILE *fp, const char *prefix, int zeros, const char *body, size_t len,
                     int width, bool leftalign, bool zeropad) {
@@ -72,6 +91,30 @@ static const char *signstr(bool negative, bool force) {
 #ifndef __NO_FLONUM
 #include "math.h"  // isfinite, signbit
 
+static long double pow10(int order) {
+  long double a = 1, x = 10;
+  for (; order > 0; order >>= 1) {
+    if ((order & 1) != 0)
+      a *= x;
+    x *= x;
+  }
+  return a;
+}
+
+static int sprintsign(FILE *fp, bool negative, bool force, int *porder) {
+  int o = 0;
+  if (negative) {
+    _fputc('-', fp);
+    ++o;
+  } else if (force) {
+    _fputc('+', fp);
+    ++o;
+  }
+  if (*porder > 1 && o > 0)
+    *porder -= o;
+  return o;
+}
+
 static int printnonfinite(FILE *fp, long double x, int order, bool sign, bool leftalign) {
   return putfield(fp, signstr(signbit(x), sign), 0, isnan(x) ? "nan" : "inf", 3, order, leftalign,
                   false);
@@ -129,22 +172,6 @@ static int expand_double(double x, char *digits) {
   return p - digits;
 }
 
-// Round the digits before `cut` to the nearest, ties to even: digits from `cut` to `end` are dropped.
-static void round_digits(char *cut, const char *end) {
-  char *p = cut;
-  bool up = *p > '5';
-  if (*p == '5') {
-    while (++p < end && *p == '0')
-      ;
-    up = p < end || (cut[-1] & 1) != 0;
-  }
-  if (up) {
-    for (p = cut; *(--p) == '9'; )
-      *p = '0';
-    ++*p;
-  }
-}
-
 static int printfloat(FILE *fp, long double x, int order, int suborder, bool sign, bool leftalign,
                       char padding) {
   if (!isfinite(x))
@@ -159,8 +186,19 @@ static int printfloat(FILE *fp, long double x, int order, int suborder, bool sig
   char *end = buf + 1 + expand_double(neg ? -x : x, &buf[1]);
   char *point = &buf[1 + DBL_INTUNITS * DBL_UNITDIGITS];
   if (suborder < end - point) {
-    char *cut = point + suborder;
-    round_digits(cut, end);
+    // Round to the nearest, ties to even.
+    char *cut = point + suborder, *p = cut;
+    bool up = *p > '5';
+    if (*p == '5') {
+      while (++p < end && *p == '0')
+        ;
+      up = p < end || (cut[-1] & 1) != 0;
+    }
+    if (up) {
+      for (p = cut; *(--p) == '9'; )
+        *p = '0';
+      ++*p;
+    }
     end = cut;
   }
   char *head = buf;
@@ -184,63 +222,61 @@ static int printfloat(FILE *fp, long double x, int order, int suborder, bool sig
   return o;
 }
 
+static int normalize_float(long double *px) {
+  long double x = *px;
+  int exp = 0;
+  if (x >= 1e6) {
+    do {
+      x /= 10;
+      ++exp;
+    } while (x >= 10);
+  }
+  if (x > 0 && x <= 1e-4) {
+    do {
+      x *= 10;
+      --exp;
+    } while (x < 1.0);
+  }
+  *px = x;
+  return exp;
+}
+
 static int printscientific(FILE *fp, long double x, int order, int suborder, bool sign,
                            bool leftalign, char padding) {
   if (!isfinite(x))
     return printnonfinite(fp, x, order, sign, leftalign);
 
   bool neg = signbit(x);
-  int precision = suborder < 0 ? 6 : suborder > 0 ? suborder : 1;  // Number of significant digits.
+  if (neg)
+    x = -x;
+  int o = sprintsign(fp, neg, sign, &order);
 
-  char buf[1 + (DBL_INTUNITS + DBL_FRACUNITS) * DBL_UNITDIGITS];
-  buf[0] = '0';  // For carry.
-  char *end = buf + 1 + expand_double(neg ? -x : x, &buf[1]);
-  char *point = &buf[1 + DBL_INTUNITS * DBL_UNITDIGITS];
-
-  char *first = buf;
-  while (first < end && *first == '0')
-    ++first;
-  if (first >= end) {  // Zero.
-    first = point - 1;
-    end = point;
-  } else if (precision < end - first) {
-    char *cut = first + precision;
-    round_digits(cut, end);
-    end = cut;
-    if (first[-1] != '0')
-      --first;
+  int e = normalize_float(&x);
+  unsigned long long int_part = x;
+  suborder = suborder > 0 ? suborder : 6;
+  long double one = pow10(suborder);
+  unsigned long long fraction = (x - int_part) * one + 0.5;
+  if (fraction >= one) {
+    ++int_part;
+    fraction -= one;
   }
-  while (end > first + 1 && end[-1] == '0')
-    --end;
-
-  int e = (point - 1) - first;
-  char body[sizeof(buf) + 8], *p = body;
-  if (e >= -4 && e < precision) {
-    char *head = e >= 0 ? first : point - 1;
-    memcpy(p, head, point - head);
-    p += point - head;
-    if (end > point) {
-      *p++ = '.';
-      memcpy(p, point, end - point);
-      p += end - point;
-    }
-  } else {
-    *p++ = *first++;
-    if (first < end) {
-      *p++ = '.';
-      memcpy(p, first, end - first);
-      p += end - first;
-    }
-    *p++ = 'e';
-    *p++ = e < 0 ? '-' : '+';
-    if (e < 0)
-      e = -e;
-    if (e >= 100)
-      *p++ = '0' + e / 100;
-    *p++ = '0' + e / 10 % 10;
-    *p++ = '0' + e % 10;
+  while (fraction % 10 == 0 && suborder > 0) {
+    fraction /= 10;
+    --suborder;
   }
-  return putfield(fp, signstr(neg, sign), 0, body, p - body, order, leftalign, padding == '0');
+  o += snprintullong(fp, int_part, 10, kHexDigits, order, padding);
+  if (fraction != 0) {
+    _fputc('.', fp); ++o;
+    o += snprintullong(fp, fraction, 10, kHexDigits, suborder, '0');
+  }
+
+  if (e != 0) {
+    _fputc('e', fp); ++o;
+    o += sprintsign(fp, e < 0, true, &order);
+    e = e < 0 ? -e : e;
+    o += snprintullong(fp, e, 10, kHexDigits, 2, '0');
+  }
+  return o;
 }
 #endif
 
-- 
2.43.0


From 6aa8018e092e35c26f49fce1921d814a9eacb07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:52 +0000
Subject: [PATCH 161/162] Revert "fix: include_next finds the next header when
 the header is named with a directory"

This reverts commit 09d2c538ee1c0cc0eb33d1ea6136c6dc2ba88b72.
---
 src/cpp/preprocessor.c | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/cpp/preprocessor.c b/src/cpp/preprocessor.c
index 896389a..ad5a70a 100644
--- a/src/cpp/preprocessor.c
+++ b/src/cpp/preprocessor.c
@@ -286,7 +286,7 @@ static void register_pragma_once(const char *filename) {
 //   result!=NULL: Found (returns found path into *pfn)
 //   result==NULL, *pfn!=NULL: Found, but blocked because of pragma once.
 //   result==NULL, *pfn==NULL: Not found.
-static FILE *search_sysinc(const char *prevdir, const char *path, char **pfn, const char **pdir) {
+static FILE *search_sysinc(const char *prevdir, const char *path, char **pfn) {
   for (int ord = 0; ord < INC_ORDERS; ++ord) {
     Vector *v = &sys_inc_paths[ord];
     for (int idx = 0; idx < v->len; ++idx) {
@@ -301,7 +301,6 @@ static FILE *search_sysinc(const char *prevdir, const char *path, char **pfn, co
       if (registered_pragma_once(fn) ||  // If pragma once hit, then fp keeps NULL.
           (is_file(fn) && (fp = fopen(fn, "r")) != NULL)) {
         *pfn = fn;
-        *pdir = v->data[idx];
         return fp;
       }
     }
@@ -310,9 +309,6 @@ static FILE *search_sysinc(const char *prevdir, const char *path, char **pfn, co
   return NULL;
 }
 
-// Include path in which the current file was found, or NULL.
-static const char *found_dir;
-
 static void handle_include(const char *p, Stream *stream, bool is_next) {
   const char *orgp = p = skip_whitespaces(p);
 
@@ -385,8 +381,6 @@ static void handle_include(const char *p, Stream *stream, bool is_next) {
   char *path = strndup(p, q - p);
   char *fn = NULL;
   FILE *fp = NULL;
-  const char *prev_found = found_dir;
-  const char *new_found = NULL;
   char *dir = strdup(dirname(strdup(stream->filename)));
   // Search from current directory.
   if (!is_next && !sys) {
@@ -397,7 +391,7 @@ static void handle_include(const char *p, Stream *stream, bool is_next) {
       fp = fopen(fn, "r");
   }
   if (fp == NULL) {
-    fp = search_sysinc(!is_next ? NULL : prev_found != NULL ? prev_found : dir, path, &fn, &new_found);
+    fp = search_sysinc(is_next ? dir : NULL, path, &fn);
     if (fp == NULL) {
       if (fn == NULL)  // Raise error except pragma once.
         error("Cannot open file: %s", path);
@@ -405,10 +399,8 @@ static void handle_include(const char *p, Stream *stream, bool is_next) {
     }
   }
 
-  found_dir = new_found;
   preprocess(fp, fn);
   fclose(fp);
-  found_dir = prev_found;
 
   // Put linemarker to restore line and filename.
   fprintf(pp_ofp, "# %d \"%s\" 2\n", stream->lineno + 1, stream->filename);
-- 
2.43.0


From 212be4dfeea3c4020bca3efdc97494835edd37aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:52 +0000
Subject: [PATCH 162/162] Revert "fix: __VA_OPT__ substitutes the parameters,
 operators and nested parentheses in it"

This reverts commit c8ccf38c7d57423f8a69a41b2d38ee121d2a01e8.
---
 src/cpp/macro.c | 87 ++++++++++++-------------------------------------
 1 file changed, 21 insertions(+), 66 deletions(-)

diff --git a/src/cpp/macro.c b/src/cpp/macro.c
index 79b58b1..09d8cef 100644
--- a/src/cpp/macro.c
+++ b/src/cpp/macro.c
@@ -179,55 +179,6 @@ static void hsadd(HideSet *hs, Vector *ts) {
 
 static void macro_expand_tokens(Vector *tokens, bool fetch);
 
-static Vector *subst(Macro *macro, Table *param_table, Vector *args, HideSet *hs);
-
-// Handle GNU extension: `__VA_OPT__ ( content )`, which starts at `pos` in the body.
-// Returns the position of its closing parenthesis, or -1 if the token is an ordinary one.
-static int subst_va_opt(Macro *macro, Table *param_table, Vector *args, HideSet *hs, int pos,
-                        Vector **result) {
-  static const Name *va_opt;
-  if (va_opt == NULL)
-    va_opt = alloc_name("__VA_OPT__", NULL, false);
-
-  Vector *body = macro->body;
-  const Token *tok = body->data[pos];
-  if (macro->vaargs_ident == NULL || args == NULL || tok->kind != TK_IDENT ||
-      !equal_name(tok->ident, va_opt))
-    return -1;
-  int end = pos + 1;
-  while (end < body->len && ((Token*)body->data[end])->kind == PPTK_SPACE)
-    ++end;
-  if (end >= body->len || ((Token*)body->data[end++])->kind != TK_LPAR)
-    return -1;
-
-  Vector *content = new_vector();
-  for (int depth = 0; ; ++end) {
-    if (end >= body->len)
-      return -1;
-    Token *t = body->data[end];
-    if (t->kind == TK_LPAR)
-      ++depth;
-    else if (t->kind == TK_RPAR && depth-- == 0)
-      break;
-    if (t->kind != PPTK_SPACE || content->len > 0)
-      vec_push(content, t);
-  }
-  while (content->len > 0 && ((Token*)content->data[content->len - 1])->kind == PPTK_SPACE)
-    vec_pop(content);
-
-  Vector *expanded = new_vector();
-  vec_concat(expanded, args->data[args->len - 1]);
-  macro_expand_tokens(expanded, false);
-  if (expanded->len > 0) {  // vaargs is not empty
-    Macro sub = *macro;
-    sub.body = content;
-    *result = subst(&sub, param_table, args, hs);
-  } else {
-    *result = new_vector();
-  }
-  return end;
-}
-
 static Vector *subst(Macro *macro, Table *param_table, Vector *args, HideSet *hs) {
   Vector *os = new_vector();
   Vector *body = macro->body;
@@ -243,6 +194,10 @@ static Vector *subst(Macro *macro, Table *param_table, Vector *args, HideSet *hs
       expanded_args[i] = NULL;
   }
 
+  static const Name *va_opt;
+  if (va_opt == NULL && macro->vaargs_ident != NULL)
+    va_opt = alloc_name("__VA_OPT__", NULL, false);
+
   int operand_start = 0;  // Left operand of `##`.
   for (int i = 0; i < body->len; ++i) {
     const Token *tok = body->data[i];
@@ -281,17 +236,6 @@ static Vector *subst(Macro *macro, Table *param_table, Vector *args, HideSet *hs
               vec_push(os, arg->data[k]);
             continue;
           }
-
-          Vector *opt;
-          int end = subst_va_opt(macro, param_table, args, hs, i, &opt);
-          if (end >= 0) {
-            if (opt->len > 0)
-              glue1(os, operand_start, opt->data[0]);
-            for (int k = 1; k < opt->len; ++k)
-              vec_push(os, opt->data[k]);
-            i = end;
-            continue;
-          }
         }
         glue1(os, operand_start, next);
         continue;
@@ -327,12 +271,23 @@ static Vector *subst(Macro *macro, Table *param_table, Vector *args, HideSet *hs
         }
       }
 
-      {
-        Vector *opt;
-        int end = subst_va_opt(macro, param_table, args, hs, i, &opt);
-        if (end >= 0) {
-          vec_concat(os, opt);
-          i = end;
+      // Handle GNU extension: __VA_OPT__
+      if (macro->vaargs_ident != NULL && equal_name(tok->ident, va_opt) &&
+          i + 2 < body->len && ((Token*)body->data[i + 1])->kind == TK_LPAR) {
+        int j;
+        for (j = i + 2; j < body->len; ++j) {
+          if (((Token*)body->data[j])->kind == TK_RPAR)
+            break;
+        }
+        if (j < body->len) {
+          Vector *arg = args->data[args->len - 1];
+          if (arg->len > 0) {  // vaargs is not empty
+            // TODO: expand?
+            for (int k = i + 2; k < j; ++k) {
+              vec_push(os, body->data[k]);
+            }
+          }
+          i = j;
           continue;
         }
       }
-- 
2.43.0

