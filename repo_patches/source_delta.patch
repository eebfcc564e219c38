From 1c8318969073877a317bf549ba1ce8747582a291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:21 +0000
Subject: [PATCH 001/122] fix: keep unsigned int values sign-extended in
 registers

lwu zero-extended them while addw/subw/mulw/negw and called functions
sign-extend, so comparisons and conversions of values with bit 31 set
were wrong.
---
 codegen.c | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/codegen.c b/codegen.c
index eabf11d..bda4196 100644
--- a/codegen.c
+++ b/codegen.c
@@ -414,7 +414,9 @@ static void load(struct Type *ty)
 	else if (ty->size == sizeof(short))
 		println("\tlh%s a0, (a0)", suffix);
 	else if (ty->size == sizeof(int))
-		println("\tlw%s a0, (a0)", suffix);
+		// Both int and unsigned int are kept sign-extended in
+		// registers, as the psABI and the "w" instructions do.
+		println("\tlw a0, (a0)");
 	else
 		println("\tld a0, (a0)");
 }
@@ -554,7 +556,7 @@ static int getTypeId(struct Type *ty)
 
 #define F128U8  combine("\tcall __fixunstfsi@plt", TOU8)
 #define F128U16 combine("\tcall __fixunstfsi@plt", TOU16)
-#define F128U32 combine("\tcall __fixunstfsi@plt", TOU32)
+#define F128U32 combine("\tcall __fixunstfsi@plt", TOI32)
 #define F128U64 "\tcall __fixunstfdi@plt"
 
 #define F32F64  "\tfcvt.d.s fa0, fa0"
@@ -570,15 +572,15 @@ static int getTypeId(struct Type *ty)
 static const char *cast_matrix[CAST_MAX_TYPE][CAST_MAX_TYPE] = {
 	// to
 	// i8      i16      i32      i64      u8      u16      u32      u64      f32      f64      f128            from
-	{  NULL,   NULL,    NULL,    NULL,    TOU8,   TOU16,   TOU32,   NULL,    I32F32,  I32F64,  I32F128, },  // i8
-	{  TOI8,   NULL,    NULL,    NULL,    TOU8,   TOU16,   TOU32,   NULL,    I32F32,  I32F64,  I32F128, },  // i16
-	{  TOI8,   TOI16,   NULL,    NULL,    TOU8,   TOU16,   TOU32,   NULL,    I32F32,  I32F64,  I32F128, },  // i32
-	{  TOI8,   TOI16,   TOI32,   NULL,    TOU8,   TOU16,   TOU32,   NULL,    I64F32,  I64F64,  I64F128, },  // i64
+	{  NULL,   NULL,    NULL,    NULL,    TOU8,   TOU16,   NULL,    NULL,    I32F32,  I32F64,  I32F128, },  // i8
+	{  TOI8,   NULL,    NULL,    NULL,    TOU8,   TOU16,   NULL,    NULL,    I32F32,  I32F64,  I32F128, },  // i16
+	{  TOI8,   TOI16,   NULL,    NULL,    TOU8,   TOU16,   NULL,    NULL,    I32F32,  I32F64,  I32F128, },  // i32
+	{  TOI8,   TOI16,   TOI32,   NULL,    TOU8,   TOU16,   TOI32,   NULL,    I64F32,  I64F64,  I64F128, },  // i64
 
 	{  NULL,   NULL,    NULL,    NULL,    NULL,   NULL,    NULL,    NULL,    U32F32,  U32F64,  U32F128, },  // u8
 	{  TOI8,   NULL,    NULL,    NULL,    TOU8,   NULL,    NULL,    NULL,    U32F32,  U32F64,  U32F128, },  // u16
-	{  TOI8,   TOI16,   NULL,    NULL,    TOU8,   TOU16,   NULL,    NULL,    U32F32,  U32F64,  U32F128, },  // u32
-	{  TOI8,   TOI16,   TOI32,   NULL,    TOU8,   TOU16,   TOU32,   NULL,    U64F32,  U64F64,  U64F128, },  // u64
+	{  TOI8,   TOI16,   NULL,    TOU32,   TOU8,   TOU16,   NULL,    TOU32,   U32F32,  U32F64,  U32F128, },  // u32
+	{  TOI8,   TOI16,   TOI32,   NULL,    TOU8,   TOU16,   TOI32,   NULL,    U64F32,  U64F64,  U64F128, },  // u64
 
 	{  F32I8,  F32I16,  F32I32,  F32I64,  F32U8,  F32U16,  F32U32,  F32U64,  NULL,    F32F64,  F32F128, },  // f32
 	{  F64I8,  F64I16,  F64I32,  F64I64,  F64U8,  F64U16,  F64U32,  F64U64,  F64F32,  NULL,    F64F128, },  // f64
@@ -1009,6 +1011,10 @@ static void gen_expr(struct Node *node)
 			push_ld();
 			return;
 
+		case TY_INT:
+			println("\tli a0, %d", (int)node->val);
+			return;
+
 		default:
 			println("\tli a0, %ld", node->val);
 			return;
@@ -1060,6 +1066,9 @@ static void gen_expr(struct Node *node)
 				println("\tsrli a0, a0, %d", 64 - mem->bit_width);
 			else
 				println("\tsrai a0, a0, %d", 64 - mem->bit_width);
+
+			if (mem->ty->size == sizeof(int))
+				println("\tsext.w a0, a0");
 		}
 		return;
 
-- 
2.43.0


From 1e6afbd76408c7e8939ad2e1e3282f9d43b38b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:51 +0000
Subject: [PATCH 002/122] fix: compare unsigned operands of <= and >= as
 unsigned

---
 codegen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codegen.c b/codegen.c
index bda4196..4d488b8 100644
--- a/codegen.c
+++ b/codegen.c
@@ -1570,7 +1570,7 @@ static void gen_expr(struct Node *node)
 			println("\tslt a0, a0, a1");
 		break;
 	case ND_LE:
-		if (node->ty->is_unsigned)
+		if (node->lhs->ty->is_unsigned)
 			println("\tsltu a0, a1, a0");
 		else
 			println("\tslt a0, a1, a0");
-- 
2.43.0


From 6c6dc2db45e2ae85f5cc7fe40f352a47f6e526a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:51 +0000
Subject: [PATCH 003/122] fix: test the right operand of && by its own type

---
 codegen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codegen.c b/codegen.c
index 4d488b8..abee4e3 100644
--- a/codegen.c
+++ b/codegen.c
@@ -1191,7 +1191,7 @@ static void gen_expr(struct Node *node)
 		cmp_zero(node->lhs->ty);
 		println("\tbnez a0, .L.false.%d", c);
 		gen_expr(node->rhs);
-		cmp_zero(node->lhs->ty);
+		cmp_zero(node->rhs->ty);
 		println("\tbnez a0, .L.false.%d", c);
 		println("\tli a0, 1");
 		println("\tj .L.end.%d", c);
-- 
2.43.0


From c2800ad57aeb98bfd8e186792e73f5995c5a6eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:51 +0000
Subject: [PATCH 004/122] fix: convert floating-point values to _Bool by their
 own value

---
 codegen.c | 53 +++++++++++++++++++++++++++--------------------------
 1 file changed, 27 insertions(+), 26 deletions(-)

diff --git a/codegen.c b/codegen.c
index abee4e3..282c2f0 100644
--- a/codegen.c
+++ b/codegen.c
@@ -587,32 +587,6 @@ static const char *cast_matrix[CAST_MAX_TYPE][CAST_MAX_TYPE] = {
 	{  F128I8, F128I16, F128I32, F128I64, F128U8, F128U16, F128U32, F128U64, F128F32, F128F64, NULL,    },  // f128
 };
 
-static void cast(struct Type *from, struct Type *to)
-{
-	if (to->kind == TY_VOID)
-		return;
-
-	if (to->kind == TY_BOOL) {
-		println("\tsnez a0, a0");
-		return;
-	}
-
-	int t1 = getTypeId(from);
-	int t2 = getTypeId(to);
-
-	if (cast_matrix[t1][t2]) {
-		debug("cast t1 %d t2 %d", t1, t2);
-
-		if (t1 == F128)
-			pop_ld();
-		println("%s", cast_matrix[t1][t2]);
-		if (t2 == F128)
-			push_ld();
-
-		debug("end cast");
-	}
-}
-
 static void cmp_zero(struct Type *ty)
 {
 	switch (ty->kind) {
@@ -641,6 +615,33 @@ static void cmp_zero(struct Type *ty)
 	return;
 }
 
+static void cast(struct Type *from, struct Type *to)
+{
+	if (to->kind == TY_VOID)
+		return;
+
+	if (to->kind == TY_BOOL) {
+		cmp_zero(from);
+		println("\txori a0, a0, 1");
+		return;
+	}
+
+	int t1 = getTypeId(from);
+	int t2 = getTypeId(to);
+
+	if (cast_matrix[t1][t2]) {
+		debug("cast t1 %d t2 %d", t1, t2);
+
+		if (t1 == F128)
+			pop_ld();
+		println("%s", cast_matrix[t1][t2]);
+		if (t2 == F128)
+			push_ld();
+
+		debug("end cast");
+	}
+}
+
 // Structs or unions equal or smaller than 16 bytes are passed
 // using up to two registers.
 // When structs or unions larger than 16 bytes, save the struct
-- 
2.43.0


From 1b8549440832380a87ad6527d12df106ba4c6ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:51 +0000
Subject: [PATCH 005/122] fix: convert to and from enum types as int

---
 codegen.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/codegen.c b/codegen.c
index 282c2f0..e7f6a36 100644
--- a/codegen.c
+++ b/codegen.c
@@ -487,6 +487,7 @@ static int getTypeId(struct Type *ty)
 	case TY_SHORT:
 		return ty->is_unsigned ? U16 : I16;
 	case TY_INT:
+	case TY_ENUM:
 		return ty->is_unsigned ? U32 : I32;
 	case TY_LONG:
 		return ty->is_unsigned ? U64 : I64;
-- 
2.43.0


From c6a56cf0ff101ee84e311dc714026ba3502d5a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:10 +0000
Subject: [PATCH 006/122] fix: apply the integer promotions to ~, <<, >>, unary
 + and bit-fields

---
 parser/parser.c | 10 +++++++---
 type.c          | 26 ++++++++++++++++++++++++++
 type.h          |  1 +
 3 files changed, 34 insertions(+), 3 deletions(-)

diff --git a/parser/parser.c b/parser/parser.c
index ceb23a5..66d149a 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -761,9 +761,13 @@ static struct Node *labels;
 // 	 | postfix
 static struct Node *unary(struct Token **rest, struct Token *tok)
 {
-	if (equal(tok, "+"))
-		// ignore
-		return cast(rest, tok->next);
+	if (equal(tok, "+")) {
+		struct Node *node = cast(rest, tok->next);
+
+		add_type(node);
+		int_promotion(&node);
+		return node;
+	}
 
 	if (equal(tok, "-"))
 		// depth--
diff --git a/type.c b/type.c
index ac61f5e..a0ab09a 100644
--- a/type.c
+++ b/type.c
@@ -322,6 +322,26 @@ static struct Type *get_common_type(struct Type *ty1, struct Type *ty2)
 	return ty1;
 }
 
+// A bit-field whose values all fit in an int is promoted to int,
+// whatever its declared type is.
+static void promote_bitfield(struct Node **node)
+{
+	if ((*node)->kind != ND_MEMBER || !(*node)->member->is_bitfield)
+		return;
+
+	if ((*node)->member->bit_width < 32)
+		*node = new_cast(*node, p_ty_int());
+}
+
+// Integral types smaller than int are promoted to int.
+void int_promotion(struct Node **node)
+{
+	promote_bitfield(node);
+
+	if (is_integer((*node)->ty))
+		*node = new_cast(*node, get_common_type(p_ty_int(), (*node)->ty));
+}
+
 // For many binary operators, we implicitly promote operands so that
 // both operands have the same type. Any integral type smaller than
 // int is always promoted to int. If the type of one operand is larger
@@ -331,6 +351,9 @@ static struct Type *get_common_type(struct Type *ty1, struct Type *ty2)
 // This operation is called the "usual arithmetic conversion".
 static void usual_arith_conv(struct Node **lhs, struct Node **rhs)
 {
+	promote_bitfield(lhs);
+	promote_bitfield(rhs);
+
 	struct Type *ty = get_common_type((*lhs)->ty, (*rhs)->ty);
 
 	*lhs = new_cast(*lhs, ty);
@@ -374,6 +397,8 @@ void add_type(struct Node *node)
 		break;
 
 	case ND_NEG: {
+		promote_bitfield(&node->lhs);
+
 		struct Type *ty = get_common_type(p_ty_int(), node->lhs->ty);
 		node->lhs = new_cast(node->lhs, ty);
 		node->ty = ty;
@@ -408,6 +433,7 @@ void add_type(struct Node *node)
 	case ND_BITNOT:
 	case ND_SHL:
 	case ND_SHR:
+		int_promotion(&node->lhs);
 		node->ty = node->lhs->ty;
 		break;
 
diff --git a/type.h b/type.h
index 5c99573..821ac22 100644
--- a/type.h
+++ b/type.h
@@ -66,5 +66,6 @@ struct Type *enum_type(void);
 struct Type *struct_type(void);
 
 void add_type(struct Node *node);
+void int_promotion(struct Node **node);
 
 #endif
-- 
2.43.0


From c4d37a5fd4de915fd199c0b9a4f1c21a15a80a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:23 +0000
Subject: [PATCH 007/122] fix: make A++ and A-- yield the old value for _Bool,
 float and bit-fields

Their value was recomputed from the new one, which cannot work when the
stored value was converted, rounded or wrapped. An assignment to a
bit-field now yields the value the field holds, _Bool fields read as 0
or 1, and 64-bit wide fields get a correct mask.
---
 codegen.c       | 39 ++++++++++++++++++++++++---------------
 parser/parser.c | 39 ++++++++++++++++++++++++++++++++++++++-
 type.c          |  1 +
 3 files changed, 63 insertions(+), 16 deletions(-)

diff --git a/codegen.c b/codegen.c
index e7f6a36..9eda69f 100644
--- a/codegen.c
+++ b/codegen.c
@@ -964,6 +964,21 @@ static void builtin_alloca(void)
 	println("\tsd a0, (t5)");
 }
 
+// Extract the value of a bit-field that starts at bit `offset` of a0.
+static void extract_bitfield(struct Member *mem, int offset)
+{
+	// Clear unused high bits of field member variables
+	println("\tslli a0, a0, %d", 64 - mem->bit_width - offset);
+	// Clear unused low bits of field member variables
+	if (mem->ty->is_unsigned)
+		println("\tsrli a0, a0, %d", 64 - mem->bit_width);
+	else
+		println("\tsrai a0, a0, %d", 64 - mem->bit_width);
+
+	if (mem->ty->size == sizeof(int))
+		println("\tsext.w a0, a0");
+}
+
 // Generate code for a given node.
 static void gen_expr(struct Node *node)
 {
@@ -1060,18 +1075,8 @@ static void gen_expr(struct Node *node)
 		load(node->ty);
 
 		struct Member *mem = node->member;
-		if (mem->is_bitfield) {
-			// Clear unused high bits of field member variables
-			println("\tslli a0, a0, %d", 64 - mem->bit_width - mem->bit_offset);
-			// Clear unused low bits of field member variables
-			if (mem->ty->is_unsigned)
-				println("\tsrli a0, a0, %d", 64 - mem->bit_width);
-			else
-				println("\tsrai a0, a0, %d", 64 - mem->bit_width);
-
-			if (mem->ty->size == sizeof(int))
-				println("\tsext.w a0, a0");
-		}
+		if (mem->is_bitfield)
+			extract_bitfield(mem, mem->bit_offset);
 		return;
 
 	case ND_DEREF:
@@ -1102,11 +1107,13 @@ static void gen_expr(struct Node *node)
 			// the current value from memory and merge it
 			// with a new value.
 			struct Member *mem = node->lhs->member;
+			// the lowest `bit_width` bits
+			long bits = -1UL >> (64 - mem->bit_width);
 
 			debug("merge new value into bit_field");
 
 			println("\tmv t0, a0");
-			println("\tli t1, %ld", (1L << mem->bit_width) - 1);
+			println("\tli t1, %ld", bits);
 			println("\tand t0, t0, t1");
 
 			println("\tslli t0, t0, %d", mem->bit_offset);
@@ -1115,7 +1122,7 @@ static void gen_expr(struct Node *node)
 			println("\tld a0, (sp)");
 			load(mem->ty);
 
-			long mask = ((1L << mem->bit_width) - 1) << mem->bit_offset;
+			long mask = (unsigned long)bits << mem->bit_offset;
 			println("\tli t1, %ld", ~mask);
 
 			println("\tand a0, a0, t1");
@@ -1124,8 +1131,10 @@ static void gen_expr(struct Node *node)
 
 			debug("merge new value into bit_field end");
 
-			// restore value of the bitfield
+			// The value of the assignment is the one that
+			// the bitfield holds now.
 			println("\tmv a0, t2");
+			extract_bitfield(mem, 0);
 			debug("end ND_ASSIGN var");
 			return;
 		}
diff --git a/parser/parser.c b/parser/parser.c
index 66d149a..299cd0e 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -499,11 +499,48 @@ static struct Node *to_assign(struct Node *binary)
 	return new_binary(ND_COMMA, expr1, expr2, tok);
 }
 
-// Convert A++ to `(typeof A)((A += 1) - 1)`
+// Convert A++ to `(typeof A)(tmp = &A, old = *tmp, *tmp = old + 1, old)`,
+// or A.x++ to `(typeof A.x)(tmp = &A, old = (*tmp).x, (*tmp).x = old + 1, old)`
+//
+// If A is an atomic type, convert it to `(typeof A)((A += 1) - 1)`
 static struct Node *new_inc_dec(struct Node *node, struct Token *tok, int addend)
 {
 	add_type(node);
 
+	if (!node->ty->is_atomic || node->kind == ND_MEMBER) {
+		bool is_member = (node->kind == ND_MEMBER);
+		struct Node *base = is_member ? node->lhs : node;
+		struct Obj *var = new_lvar("", pointer_to(base->ty));
+		struct Obj *old = new_lvar("", node->ty);
+		struct Node *obj[2];
+
+		for (int i = 0; i < 2; i++) {
+			obj[i] = new_unary(ND_DEREF, new_var_node(var, tok), tok);
+			if (is_member) {
+				obj[i] = new_unary(ND_MEMBER, obj[i], tok);
+				obj[i]->member = node->member;
+			}
+		}
+
+		// tmp = &A
+		struct Node *expr1 = new_binary(ND_ASSIGN, new_var_node(var, tok),
+						new_unary(ND_ADDR, base, tok), tok);
+		// old = *tmp
+		struct Node *expr2 = new_binary(ND_ASSIGN, new_var_node(old, tok),
+						obj[0], tok);
+		// *tmp = old + 1
+		struct Node *expr3 = new_binary(ND_ASSIGN, obj[1],
+						new_add(new_var_node(old, tok),
+							new_num(addend, tok), tok),
+						tok);
+
+		struct Node *expr4 = new_binary(ND_COMMA, expr3,
+						new_var_node(old, tok), tok);
+		expr4 = new_binary(ND_COMMA, expr2, expr4, tok);
+		expr4 = new_binary(ND_COMMA, expr1, expr4, tok);
+		return new_cast(expr4, node->ty);
+	}
+
 	struct Node *node_add = new_add(node, new_num(addend, tok), tok);
 	struct Node *node_to_assign = to_assign(node_add);
 	struct Node *node_minus = new_add(node_to_assign, new_num(-addend, tok), tok);
diff --git a/type.c b/type.c
index a0ab09a..3392521 100644
--- a/type.c
+++ b/type.c
@@ -10,6 +10,7 @@ static struct Type *ty_bool = &(struct Type){
 				.kind = TY_BOOL,
 				.size = 1,
 				.align = 1,
+				.is_unsigned = true,
 };
 static struct Type *ty_char = &(struct Type){
 				.kind = TY_CHAR,
-- 
2.43.0


From e021d80346c6b1904967718e3e1919bc94e4ed7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:36 +0000
Subject: [PATCH 008/122] fix: convert case labels to the promoted type of the
 switch operand

labels of long switches were truncated to int.
---
 parser/parser.c | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/parser/parser.c b/parser/parser.c
index 299cd0e..c305229 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -1162,6 +1162,13 @@ static struct Node *asm_stmt(struct Token **rest, struct Token *tok)
 	return node;
 }
 
+// Convert a case label to the promoted type of the controlling expression.
+// As in registers, both int and unsigned int are represented sign-extended.
+static long case_value(struct Type *ty, int64_t val)
+{
+	return ty->size == sizeof(int) ? (int)val : val;
+}
+
 // stmt = "return" expr? ";"
 // 	| "if" "(" expr ")" stmt ("else" stmt)?
 //	| "switch" "(" expr ")" stmt
@@ -1219,6 +1226,11 @@ static struct Node *stmt(struct Token **rest, struct Token *tok)
 		n->cond = expr(&tok, tok);
 		tok = skip(tok, ")");
 
+		add_type(n->cond);
+		if (!is_integer(n->cond->ty))
+			error_tok(n->tok, "switch quantity not an integer");
+		int_promotion(&n->cond);
+
 		struct Node *sw_prev = current_switch;
 		current_switch = n;
 
@@ -1238,13 +1250,15 @@ static struct Node *stmt(struct Token **rest, struct Token *tok)
 			error_tok(tok, "stray case");
 
 		struct Node *n = new_node(ND_CASE, tok);
-		int begin = const_expr(&tok, tok->next);
-		int end;
+		struct Type *ty = current_switch->cond->ty;
+		long begin = case_value(ty, const_expr(&tok, tok->next));
+		long end;
 
 		if (equal(tok, "...")) {
 			// [GNU] Case ranges, e.g. "case 1 ... 5:"
-			end = const_expr(&tok, tok->next);
-			if (end < begin)
+			end = case_value(ty, const_expr(&tok, tok->next));
+			if (ty->is_unsigned ? (unsigned long)end < (unsigned long)begin :
+					      end < begin)
 				error_tok(tok, "empty case range specified");
 		} else {
 			end = begin;
-- 
2.43.0


From 779e8d6b6f1bbfbc5a74f32ebd7be3a5d34d4dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:17 +0000
Subject: [PATCH 009/122] fix: compare case ranges of 32-bit switches in 32
 bits

---
 codegen.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/codegen.c b/codegen.c
index 9eda69f..194fcec 100644
--- a/codegen.c
+++ b/codegen.c
@@ -1739,9 +1739,14 @@ static void gen_stmt(struct Node *node)
 			println("\tmv t1, a0");
 			println("\tli t0, %ld", n->begin);
 			// t1 = val - begin
-			println("\tsub t1, t1, t0");
 			// t2 = end - begin
-			println("\tli t2, %ld", n->end - n->begin);
+			if (node->cond->ty->size == sizeof(int)) {
+				println("\tsubw t1, t1, t0");
+				println("\tli t2, %d", (int)(n->end - n->begin));
+			} else {
+				println("\tsub t1, t1, t0");
+				println("\tli t2, %ld", n->end - n->begin);
+			}
 
 			// If 0 <= val - begin <= end - begin,
 			// then jump into the case label.
-- 
2.43.0


From c2fa4cfa04458fe45aa770d61a92221df54f8399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:00 +0000
Subject: [PATCH 010/122] fix: round float and double constants only once

They were read with strtold and then rounded again to their type.
---
 tokenize.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tokenize.c b/tokenize.c
index 8f8ea23..93dbddb 100644
--- a/tokenize.c
+++ b/tokenize.c
@@ -520,6 +520,8 @@ static void convert_pp_number(struct Token *tok)
 	struct Type *ty;
 	if (*end == 'f' || *end == 'F') {
 		ty = p_ty_float();
+		// round only once
+		val = strtof(tok->loc, &end);
 		end++;
 
 	} else if (*end == 'l' || *end == 'L') {
@@ -529,6 +531,8 @@ static void convert_pp_number(struct Token *tok)
 	} else {
 		// implicit in default
 		ty = p_ty_double();
+		// round only once
+		val = strtod(tok->loc, &end);
 	}
 
 	if (tok->loc + tok->len != end)
-- 
2.43.0


From c36befc6f984a2a51521762d1ca466a340f02619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:00 +0000
Subject: [PATCH 011/122] fix: evaluate long double values in a0/a1 instead of
 the fs registers

The fs registers stack broke nested expressions, chained assignments,
discarded values and callee-saved registers of callers. Constants are
emitted as binary128 on x86 hosts too, and long double objects with
static storage can be initialized.
---
 codegen.c            | 138 ++++++++-----------------------------------
 parser/initializer.c |   8 +++
 toycc.h              |   1 +
 utils.c              |  19 ++++++
 4 files changed, 52 insertions(+), 114 deletions(-)

diff --git a/codegen.c b/codegen.c
index 194fcec..ca928f3 100644
--- a/codegen.c
+++ b/codegen.c
@@ -100,71 +100,11 @@ static void __pop(const char *reg)
 	depth--;
 }
 
-// let the (fs0-fs11) registers be the stack for long double
-static int ld_sp;
-
-#define push_ld() do {				\
-	__push_ld();				\
-	ldsp_debug("push_ld ld_sp %d at %s:%d\n",	\
-		ld_sp, __FILE__, __LINE__);	\
-} while (0)
-
-#define pop_ld() do {				\
-	__pop_ld();				\
-	ldsp_debug("pop_ld ld_sp %d at %s:%d\n",	\
-		ld_sp, __FILE__, __LINE__);	\
-} while (0)
-
-static void __push_ld(void)
-{
-	println("\tfmv.d.x fs%d, a0", ld_sp);
-	println("\tfmv.d.x fs%d, a1", ld_sp + 1);
-	ld_sp += 2;
-
-	if (ld_sp >= 12)
-		error("ld_sp can't be larger than 12");
-}
-
-static void __pop_ld(void)
+// A long double is evaluated to a0 (lower half) and a1 (upper half).
+static void push_ld(void)
 {
-	if (ld_sp < 2)
-		error("ld_sp can't be less than 2");
-
-	println("\tfmv.x.d a%d, fs%d", ld_sp - 1, ld_sp - 1);
-	println("\tfmv.x.d a%d, fs%d", ld_sp - 2, ld_sp - 2);
-	ld_sp -= 2;
-}
-
-#define load_ld() do {				\
-	__load_ld();				\
-	ldsp_debug("load_ld ld_sp %d at %s:%d\n",	\
-		ld_sp, __FILE__, __LINE__);	\
-} while (0)
-
-#define store_ld(x) do {			\
-	__store_ld(x);				\
-	ldsp_debug("store_ld ld_sp %d at %s:%d\n",	\
-		ld_sp, __FILE__, __LINE__);	\
-} while (0)
-
-static void __load_ld(void)
-{
-	println("\tfld fs%d, 0(a0)", ld_sp);
-	println("\tfld fs%d, 8(a0)", ld_sp + 1);
-	ld_sp += 2;
-
-	if (ld_sp >= 12)
-		error("ld_sp can't be larger than 12");
-}
-
-static void __store_ld(void)
-{
-	if (ld_sp < 2)
-		error("ld_sp can't be less than 2");
-
-	println("\tfsd fs%d, 8(a1)", ld_sp - 1);
-	println("\tfsd fs%d, 0(a1)", ld_sp - 2);
-	ld_sp -= 2;
+	push("a1");
+	push("a0");
 }
 
 // Round up `n` to the nearest multiple of `align`. For instance,
@@ -395,7 +335,8 @@ static void load(struct Type *ty)
 		println("\tfld fa0, (a0)");
 		return;
 	case TY_LDOUBLE:
-		load_ld();
+		println("\tld a1, 8(a0)");
+		println("\tld a0, 0(a0)");
 		return;
 
 	default:
@@ -424,6 +365,13 @@ static void load(struct Type *ty)
 // Store a0 to an address that the stack top is pointing to.
 static void store(struct Type *ty)
 {
+	if (ty->kind == TY_LDOUBLE) {
+		pop("t0");
+		println("\tsd a0, 0(t0)");
+		println("\tsd a1, 8(t0)");
+		return;
+	}
+
 	pop("a1");
 
 	switch (ty->kind) {
@@ -454,10 +402,6 @@ static void store(struct Type *ty)
 		println("\tfsd fa0, (a1)");
 		return;
 
-	case TY_LDOUBLE:
-		store_ld();
-		return;
-
 	default:
 		break;
 	}
@@ -602,7 +546,6 @@ static void cmp_zero(struct Type *ty)
 		break;
 
 	case TY_LDOUBLE:
-		pop_ld();
 		println("\tli a2, 0");
 		println("\tli a3, 0");
 		println("\tcall __netf2@plt");
@@ -633,11 +576,7 @@ static void cast(struct Type *from, struct Type *to)
 	if (cast_matrix[t1][t2]) {
 		debug("cast t1 %d t2 %d", t1, t2);
 
-		if (t1 == F128)
-			pop_ld();
 		println("%s", cast_matrix[t1][t2]);
-		if (t2 == F128)
-			push_ld();
 
 		debug("end cast");
 	}
@@ -702,13 +641,7 @@ static void push_args2(struct Node *args, bool first_pass)
 		break;
 
 	case TY_LDOUBLE:
-		println("\taddi sp, sp, -16");
-		println("\tfsd fs%d, 8(sp)", ld_sp - 1);
-		println("\tfsd fs%d, 0(sp)", ld_sp - 2);
-		depth += 2;
-		ld_sp -= 2;
-		ldsp_debug("pop_ld_stack ld_sp %d depth %d at %s:%d\n",
-			ld_sp, depth, __FILE__, __LINE__);
+		push_ld();
 		break;
 
 	default:
@@ -990,9 +923,6 @@ static void gen_expr(struct Node *node)
 		double f64;
 		uint64_t u64;
 
-		// Notion: With x86_64's cross-compiler toolchain,
-		// there is a loss of accuracy (128 to 80 bits) here.
-		long double ld;
 		uint64_t u64x2[2];
 	} u;
 
@@ -1021,11 +951,10 @@ static void gen_expr(struct Node *node)
 			return;
 
 		case TY_LDOUBLE:
-			u.ld = node->fval;
+			ld_to_binary128(node->fval, u.u64x2);
 			println("\tli a0, 0x%016lx  # long double %Lf",
-				u.u64x2[0], u.ld);
+				u.u64x2[0], node->fval);
 			println("\tli a1, 0x%016lx", u.u64x2[1]);
-			push_ld();
 			return;
 
 		case TY_INT:
@@ -1052,8 +981,7 @@ static void gen_expr(struct Node *node)
 		case TY_LDOUBLE:
 			println("\tli t0, -1");
 			println("\tslli t0, t0, 63");
-			debug("negative the value of the long double stack top");
-			println("\txor a%d, a%d, t0", ld_sp + 1, ld_sp + 1);
+			println("\txor a1, a1, t0");
 			return;
 
 		default:
@@ -1314,9 +1242,6 @@ static void gen_expr(struct Node *node)
 		// call function
 		println("\tjalr t0");
 
-		if (node->ty->kind == TY_LDOUBLE)
-			push_ld();
-
 		if (stack_args) {
 			println("\taddi sp, sp, %ld", stack_args * sizeof(long));
 			depth -= stack_args;
@@ -1472,30 +1397,26 @@ static void gen_expr(struct Node *node)
 		return;
 
 	} else if (node->lhs->ty->kind == TY_LDOUBLE) {
-		gen_expr(node->lhs);
+		// left_side -> a0, a1
+		// right_side -> a2, a3
 		gen_expr(node->rhs);
-		// Cautions:
-		// Save long double results in fsx registers,
-		// in case ax registers are corrupted.
-		pop_ld();
-		pop_ld();
+		push_ld();
+		gen_expr(node->lhs);
+		pop("a2");
+		pop("a3");
 
 		switch (node->kind) {
 		case ND_ADD:
 			println("\tcall __addtf3@plt");
-			push_ld();
 			break;
 		case ND_SUB:
 			println("\tcall __subtf3@plt");
-			push_ld();
 			break;
 		case ND_MUL:
 			println("\tcall __multf3@plt");
-			push_ld();
 			break;
 		case ND_DIV:
 			println("\tcall __divtf3@plt");
-			push_ld();
 			break;
 		case ND_EQ:
 			println("\tcall __eqtf2@plt");
@@ -1798,9 +1719,6 @@ static void gen_stmt(struct Node *node)
 					copy_struct_reg();
 				else
 					copy_struct_mem();
-
-			} else if (ty->kind == TY_LDOUBLE) {
-				pop_ld();
 			}
 		}
 		println("\tj return.%s", current_fn->name);
@@ -2095,10 +2013,6 @@ static void emit_text(struct Obj *prog)
 		push("fp");
 		println("\tmv fp, sp");
 
-		debug("save all fs0~fs11 registers");
-		for (int i = 0; i < 12; i++)
-			println("\tfsgnj.d ft%d, fs%d, fs%d", i, i, i);
-
 		debug("Prologue end");
 
 		// Save passed-by-register arguments to the stack
@@ -2178,7 +2092,7 @@ static void emit_text(struct Obj *prog)
 			printf("pre_depth: %d != depth: %d\n",
 				pre_depth, depth);
 
-		assert(depth == pre_depth && ld_sp == 0);
+		assert(depth == pre_depth);
 
 		// [https://www.sigbus.info/n1570#5.1.2.2.3p1]
 		// The C spec defines a special rule for the main function.
@@ -2192,10 +2106,6 @@ static void emit_text(struct Obj *prog)
 		debug("epilogue");
 		println("return.%s:", fn->name);
 
-		debug("restore all fs0~fs11 registers");
-		for (int i = 0; i < 12; i++)
-			println("\tfsgnj.d fs%d, ft%d, ft%d", i, i, i);
-
 		// restore sp register
 		println("\tmv sp, fp");
 		// restore fp register
diff --git a/parser/initializer.c b/parser/initializer.c
index ddf1c6e..5cc2e7a 100644
--- a/parser/initializer.c
+++ b/parser/initializer.c
@@ -703,6 +703,14 @@ static struct Relocation *write_gvar_data(struct Relocation *cur,
 		return cur;
 	}
 
+	if (ty->kind == TY_LDOUBLE) {
+		uint64_t quad[2];
+
+		ld_to_binary128(eval_double(init->expr), quad);
+		memcpy(buf + offset, quad, sizeof(quad));
+		return cur;
+	}
+
 	const char **label = NULL;
 	uint64_t val = eval2(init->expr, &label);
 
diff --git a/toycc.h b/toycc.h
index 8bf53b8..1814741 100644
--- a/toycc.h
+++ b/toycc.h
@@ -317,6 +317,7 @@ struct Obj *parser(struct Token *tok);
 // codegen.c
 void codegen(struct Obj *prog, FILE *out);
 int align_to(int n, int align);
+void ld_to_binary128(long double val, uint64_t *quad);
 
 // utils.c
 bool equal(struct Token *tok, const char *op);
diff --git a/utils.c b/utils.c
index 4188b7b..1d9a13d 100644
--- a/utils.c
+++ b/utils.c
@@ -1,5 +1,24 @@
 #include <toycc.h>
 
+// Get the IEEE 754 binary128 representation of a long double, the format
+// of the type on RISC-V.
+//
+// Notion: With x86_64's cross-compiler toolchain, the constants themselves
+// are only accurate to 64 bits of mantissa instead of 113.
+void ld_to_binary128(long double val, uint64_t *quad)
+{
+	memcpy(quad, &val, sizeof(val));
+
+#ifdef __x86_64__
+	// x87 extended precision: the exponent is the same, but the leading
+	// bit of the mantissa is explicit.
+	uint64_t frac = quad[0] << 1;
+
+	quad[1] = (quad[1] << 48) | (frac >> 16);
+	quad[0] = frac << 48;
+#endif
+}
+
 #define INDENT_WIDTH 8
 
 void warn_tok(struct Token *tok, const char *fmt, ...)
-- 
2.43.0


From 49c00b54ee8f191c3bab9be5ce292e5ad64e85fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:00 +0000
Subject: [PATCH 012/122] fix: evaluate constant expressions with the types and
 widths of run time

Results were not wrapped to the type of the expression, floating-point
operands were truncated before comparisons and conditions, conversions
to _Bool were wrong, and a division by zero or an address constant
crashed the compiler. In #if, all integers are (u)intmax_t.
---
 parser/common.c           | 252 +++++++++++++++++++++++++++-----------
 parser/parser.h           |   2 +-
 preprocessor/preprocess.c |   5 +
 3 files changed, 189 insertions(+), 70 deletions(-)

diff --git a/parser/common.c b/parser/common.c
index 9f91de0..703e2a1 100644
--- a/parser/common.c
+++ b/parser/common.c
@@ -20,7 +20,7 @@ static int64_t eval_rval(struct Node *node, const char ***label)
 {
 	switch (node->kind) {
 		case ND_VAR:
-			if (node->var->is_local)
+			if (node->var->is_local || !label)
 				error_tok(node->tok, "not a compile-time constant");
 
 			// return variable name
@@ -40,43 +40,113 @@ static int64_t eval_rval(struct Node *node, const char ***label)
 	}
 }
 
-// Evaluate a given node as a constant expression.
-// A constant expression is either just a number or ptr+n
-// where ptr is a pointer to a global variable and
-// n is a positive/negative number.
-// The latter form is accepted only as an initialization
-// expression for a global variable.
-int64_t eval2(struct Node *node, const char ***label)
+// Convert a constant to an integer type.
+static int64_t convert_int(struct Type *ty, int64_t val)
+{
+	if (ty->kind == TY_BOOL)
+		return val != 0;
+
+	switch (ty->size) {
+	case 1:
+		return ty->is_unsigned ? (uint8_t)val : (int8_t)val;
+	case 2:
+		return ty->is_unsigned ? (uint16_t)val : (int16_t)val;
+	case 4:
+		if (ty->is_unsigned)
+			return (uint32_t)val;
+		else
+			return (int32_t)val;
+	default:
+		return val;
+	}
+}
+
+// Evaluate a given node as a condition.
+static bool eval_bool(struct Node *node)
 {
 	add_type(node);
 
 	if (is_float(node->ty))
-		return eval_double(node);
+		return eval_double(node) != 0;
+	return eval(node) != 0;
+}
+
+static int64_t eval_div(struct Node *node)
+{
+	int64_t lhs = eval(node->lhs);
+	int64_t rhs = eval(node->rhs);
+
+	if (!rhs)
+		error_tok(node->tok, "division by zero");
+
+	if (node->ty->is_unsigned) {
+		if (node->kind == ND_DIV)
+			return (uint64_t)lhs / rhs;
+		return (uint64_t)lhs % rhs;
+	}
+
+	// avoid the overflow of the minimum value
+	if (rhs == -1)
+		return node->kind == ND_DIV ? -(uint64_t)lhs : 0;
+
+	return node->kind == ND_DIV ? lhs / rhs : lhs % rhs;
+}
+
+static int64_t eval_cmp(struct Node *node)
+{
+	if (is_float(node->lhs->ty)) {
+		long double lhs = eval_double(node->lhs);
+		long double rhs = eval_double(node->rhs);
+
+		switch (node->kind) {
+		case ND_EQ:
+			return lhs == rhs;
+		case ND_NE:
+			return lhs != rhs;
+		case ND_LT:
+			return lhs < rhs;
+		default:
+			return lhs <= rhs;
+		}
+	}
 
-	int64_t val;
+	int64_t lhs = eval(node->lhs);
+	int64_t rhs = eval(node->rhs);
+
+	switch (node->kind) {
+	case ND_EQ:
+		return lhs == rhs;
+	case ND_NE:
+		return lhs != rhs;
+	case ND_LT:
+		if (node->lhs->ty->is_unsigned)
+			return (uint64_t)lhs < (uint64_t)rhs;
+		return lhs < rhs;
+	default:
+		if (node->lhs->ty->is_unsigned)
+			return (uint64_t)lhs <= (uint64_t)rhs;
+		return lhs <= rhs;
+	}
+}
 
+static int64_t eval_int(struct Node *node, const char ***label)
+{
 	switch (node->kind) {
 	case ND_ADD:
-		return eval2(node->lhs, label) + eval(node->rhs);
+		return (uint64_t)eval2(node->lhs, label) + eval(node->rhs);
 
 	case ND_SUB:
-		return eval2(node->lhs, label) - eval(node->rhs);
+		return (uint64_t)eval2(node->lhs, label) - eval(node->rhs);
 
 	case ND_MUL:
-		return eval(node->lhs) * eval(node->rhs);
+		return (uint64_t)eval(node->lhs) * eval(node->rhs);
 
 	case ND_DIV:
-		if (node->ty->is_unsigned)
-			return (uint64_t)eval(node->lhs) / eval(node->rhs);
-		return eval(node->lhs) / eval(node->rhs);
+	case ND_MOD:
+		return eval_div(node);
 
 	case ND_NEG:
-		return -eval(node->lhs);
-
-	case ND_MOD:
-		if (node->ty->is_unsigned)
-			return (uint64_t)eval(node->lhs) % eval(node->rhs);
-		return eval(node->lhs) % eval(node->rhs);
+		return -(uint64_t)eval(node->lhs);
 
 	case ND_BITAND:
 		return eval(node->lhs) & eval(node->rhs);
@@ -88,73 +158,55 @@ int64_t eval2(struct Node *node, const char ***label)
 		return eval(node->lhs) ^ eval(node->rhs);
 
 	case ND_SHL:
-		return eval(node->lhs) << eval(node->rhs);
+		return (uint64_t)eval(node->lhs) << (eval(node->rhs) & 63);
 
 	case ND_SHR:
 		if (node->ty->is_unsigned && node->ty->size == 8)
-			return (uint64_t)eval(node->lhs) >> eval(node->rhs);
-		return eval(node->lhs) >> eval(node->rhs);
+			return (uint64_t)eval(node->lhs) >> (eval(node->rhs) & 63);
+		return eval(node->lhs) >> (eval(node->rhs) & 63);
 
 	case ND_EQ:
-		return eval(node->lhs) == eval(node->rhs);
-
 	case ND_NE:
-		return eval(node->lhs) != eval(node->rhs);
-
 	case ND_LT:
-		if (node->lhs->ty->is_unsigned)
-			return (uint64_t)eval(node->lhs) < (uint64_t)eval(node->rhs);
-		return eval(node->lhs) < eval(node->rhs);
-
 	case ND_LE:
-		if (node->lhs->ty->is_unsigned)
-			return (uint64_t)eval(node->lhs) <= (uint64_t)eval(node->rhs);
-		return eval(node->lhs) <= eval(node->rhs);
+		return eval_cmp(node);
 
 	case ND_COND:
-		return eval(node->cond) ?
+		return eval_bool(node->cond) ?
 		       eval2(node->then, label) : eval2(node->els, label);
 
 	case ND_COMMA:
 		return eval2(node->rhs, label);
 
 	case ND_NOT:
-		return !eval(node->lhs);
+		return !eval_bool(node->lhs);
 
 	case ND_BITNOT:
 		return ~eval(node->lhs);
 
 	case ND_LOGAND:
-		return eval(node->lhs) && eval(node->rhs);
+		return eval_bool(node->lhs) && eval_bool(node->rhs);
 
 	case ND_LOGOR:
-		return eval(node->lhs) || eval(node->rhs);
+		return eval_bool(node->lhs) || eval_bool(node->rhs);
 
 	case ND_CAST:
-		val = eval2(node->lhs, label);
-
-		if (is_integer(node->ty)) {
-			switch (node->ty->size) {
-			case 1:
-				return node->ty->is_unsigned ? (uint8_t)val : (int8_t)val;
-			case 2:
-				return node->ty->is_unsigned ? (uint16_t)val : (int16_t)val;
-			case 4:
-				if (node->ty->is_unsigned)
-					return (uint32_t)val;
-				else
-					return (int32_t)val;
-			default:
-				break;
-			}
+		if (is_float(node->lhs->ty)) {
+			if (node->ty->kind == TY_BOOL)
+				return eval_bool(node->lhs);
+			if (node->ty->is_unsigned && node->ty->size == 8)
+				return (uint64_t)eval_double(node->lhs);
 		}
-		return val;
+		return eval2(node->lhs, label);
 
 	case ND_ADDR:
 		// return label
 		return eval_rval(node->lhs, label);
 
 	case ND_LABEL_VAL:
+		if (!label)
+			error_tok(node->tok, "not a compile-time constant");
+
 		*label = &node->unique_label;
 		return 0;
 
@@ -185,13 +237,83 @@ int64_t eval2(struct Node *node, const char ***label)
 	}
 }
 
+// Evaluate a given node as a constant expression.
+// A constant expression is either just a number or ptr+n
+// where ptr is a pointer to a global variable and
+// n is a positive/negative number.
+// The latter form is accepted only as an initialization
+// expression for a global variable.
+int64_t eval2(struct Node *node, const char ***label)
+{
+	add_type(node);
+
+	if (is_float(node->ty))
+		return eval_double(node);
+
+	int64_t val = eval_int(node, label);
+
+	// The result has the width of its type, as at run time.
+	if (is_integer(node->ty))
+		return convert_int(node->ty, val);
+	return val;
+}
+
 // Evaluate a given node as a constant expression.
 int64_t eval(struct Node *node)
 {
 	return eval2(node, NULL);
 }
 
-double eval_double(struct Node *node)
+// Round a constant to a floating-point type.
+static long double convert_float(struct Type *ty, long double val)
+{
+	if (ty->kind == TY_FLOAT)
+		return (float)val;
+	if (ty->kind == TY_DOUBLE)
+		return (double)val;
+	return val;
+}
+
+static long double eval_float_binary(struct Node *node)
+{
+	long double lhs = eval_double(node->lhs);
+	long double rhs = eval_double(node->rhs);
+
+	// An operation on float or double must be rounded only once. The result
+	// of a double operation can be rounded to float without any error.
+	if (node->ty->kind != TY_LDOUBLE) {
+		double x = lhs, y = rhs, z;
+
+		switch (node->kind) {
+		case ND_ADD:
+			z = x + y;
+			break;
+		case ND_SUB:
+			z = x - y;
+			break;
+		case ND_MUL:
+			z = x * y;
+			break;
+		default:
+			z = x / y;
+			break;
+		}
+		return convert_float(node->ty, z);
+	}
+
+	switch (node->kind) {
+	case ND_ADD:
+		return lhs + rhs;
+	case ND_SUB:
+		return lhs - rhs;
+	case ND_MUL:
+		return lhs * rhs;
+	default:
+		return lhs / rhs;
+	}
+}
+
+long double eval_double(struct Node *node)
 {
 	add_type(node);
 
@@ -204,31 +326,23 @@ double eval_double(struct Node *node)
 
 	switch (node->kind) {
 	case ND_ADD:
-		return eval_double(node->lhs) + eval_double(node->rhs);
-
 	case ND_SUB:
-		return eval_double(node->lhs) - eval_double(node->rhs);
-
 	case ND_MUL:
-		return eval_double(node->lhs) * eval_double(node->rhs);
-
 	case ND_DIV:
-		return eval_double(node->lhs) / eval_double(node->rhs);
+		return eval_float_binary(node);
 
 	case ND_NEG:
 		return -eval_double(node->lhs);
 
 	case ND_COND:
-		return eval_double(node->cond) ?
+		return eval_bool(node->cond) ?
 			eval_double(node->then) : eval_double(node->els);
 
 	case ND_COMMA:
 		return eval_double(node->rhs);
 
 	case ND_CAST:
-		if (is_float(node->lhs->ty))
-			return eval_double(node->lhs);
-		return eval(node->lhs);
+		return convert_float(node->ty, eval_double(node->lhs));
 
 	case ND_NUM:
 		return node->fval;
diff --git a/parser/parser.h b/parser/parser.h
index 5463b7a..41fc780 100644
--- a/parser/parser.h
+++ b/parser/parser.h
@@ -8,7 +8,7 @@ bool consume_end(struct Token **rest, struct Token *tok);
 
 int64_t eval(struct Node *node);
 int64_t eval2(struct Node *node, const char ***label);
-double eval_double(struct Node *node);
+long double eval_double(struct Node *node);
 
 struct Node *new_node(enum NodeKind kind, struct Token *tok);
 struct Node *new_num(int64_t val, struct Token *tok);
diff --git a/preprocessor/preprocess.c b/preprocessor/preprocess.c
index ebad4a3..5cbae0a 100644
--- a/preprocessor/preprocess.c
+++ b/preprocessor/preprocess.c
@@ -197,6 +197,11 @@ static long eval_const_expr(struct Token **rest, struct Token *tok)
 	// Convert pp-numbers to regular numbers
 	convert_pp_tokens(expr);
 
+	// All integers act as if they were intmax_t or uintmax_t.
+	for (struct Token *t = expr; t->kind != TK_EOF; t = t->next)
+		if (t->kind == TK_NUM && is_integer(t->ty))
+			t->ty = t->ty->is_unsigned ? p_ty_ulong() : p_ty_long();
+
 	struct Token *rest2;
 	long val = const_expr(&rest2, expr);
 
-- 
2.43.0


From 54f6330ebe2c1562a00098e78f8188adddc8e9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:36 +0000
Subject: [PATCH 013/122] fix: zero-fill the bytes of static objects that have
 no initializer

---
 parser/initializer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/initializer.c b/parser/initializer.c
index 5cc2e7a..2315180 100644
--- a/parser/initializer.c
+++ b/parser/initializer.c
@@ -737,7 +737,7 @@ void gvar_initializer(struct Token **rest, struct Token *tok,
 {
 	struct Initializer *init = initializer(rest, tok, var->ty, &var->ty);
 	struct Relocation head = {};
-	char *buf = malloc(var->ty->size);
+	char *buf = calloc(1, var->ty->size);
 
 	write_gvar_data(&head, init, var->ty, buf, 0);
 	var->init_data = buf;
-- 
2.43.0


From c2d08092153aa258e17b1d3659aa29f1da0a725f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:50 +0000
Subject: [PATCH 014/122] fix: initialize bit-fields and _Bool objects of
 static storage correctly

A bit-field without initializer dropped all the members after it, and
values were not converted to _Bool.
---
 parser/initializer.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/parser/initializer.c b/parser/initializer.c
index 2315180..18218a2 100644
--- a/parser/initializer.c
+++ b/parser/initializer.c
@@ -664,13 +664,13 @@ static struct Relocation *write_gvar_data(struct Relocation *cur,
 			if (mem->is_bitfield) {
 				struct Node *expr = init->children[mem->idx]->expr;
 				if (!expr)
-					break;
+					continue;
 
 				char *loc = buf + offset + mem->offset;
 
 				uint64_t oldval = read_buf(loc, mem->ty->size);
-				uint64_t newval = eval(expr);
-				uint64_t mask = (1L << mem->bit_width) - 1;
+				uint64_t newval = eval(new_cast(expr, mem->ty));
+				uint64_t mask = -1UL >> (64 - mem->bit_width);
 				uint64_t combined = oldval | ((newval & mask) << mem->bit_offset);
 
 				write_buf(loc, combined, mem->ty->size);
@@ -711,8 +711,12 @@ static struct Relocation *write_gvar_data(struct Relocation *cur,
 		return cur;
 	}
 
+	struct Node *expr = init->expr;
+	if (is_integer(ty))
+		expr = new_cast(expr, ty);
+
 	const char **label = NULL;
-	uint64_t val = eval2(init->expr, &label);
+	uint64_t val = eval2(expr, &label);
 
 	if (!label) {
 		write_buf(buf + offset, val, ty->size);
-- 
2.43.0


From 299d4c835705498d748c3aac7ab68dfa43529483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:34 +0000
Subject: [PATCH 015/122] fix: accept and initialize unions, unnamed bit-fields
 and nested designators

Designators of anonymous unions and structs with unnamed bit-fields
crashed the compiler, unions could not be initialized by {} or another
union, and elements after a nested designator, braced strings and
trailing commas were rejected. Strings of another element size and
negative designators were read out of bounds.
---
 parser/initializer.c | 74 +++++++++++++++++++++++++++++++++++++-------
 parser/parser.c      |  4 +++
 type.c               |  2 ++
 3 files changed, 68 insertions(+), 12 deletions(-)

diff --git a/parser/initializer.c b/parser/initializer.c
index 18218a2..fa381ca 100644
--- a/parser/initializer.c
+++ b/parser/initializer.c
@@ -60,6 +60,10 @@ static struct Token *skip_excess_element(struct Token *tok)
 static void string_initializer(struct Token **rest, struct Token *tok,
 			       struct Initializer *init)
 {
+	if (!is_integer(init->ty->base) ||
+	    init->ty->base->size != tok->ty->base->size)
+		error_tok(tok, "array of inappropriate type initialized from string constant");
+
 	if (init->is_flexible)
 		*init = *new_initializer(array_of(init->ty->base, tok->ty->array_len), false);
 
@@ -122,7 +126,7 @@ static void array_designator(struct Token **rest, struct Token *tok,
 			     struct Type *ty, int *begin, int *end)
 {
 	*begin = const_expr(&tok, tok->next);
-	if (*begin >= ty->array_len)
+	if (*begin < 0 || *begin >= ty->array_len)
 		error_tok(tok, "array designator index exceeds array bounds");
 
 	if (equal(tok, "...")) {
@@ -150,8 +154,8 @@ static struct Member *struct_designator(struct Token **rest,
 		error_tok(tok, "expected a field designator");
 
 	for (struct Member *mem = ty->members; mem; mem = mem->next) {
-		// Anonymous struct member
-		if (mem->ty->kind == TY_STRUCT && !mem->name) {
+		// Anonymous struct or union member
+		if (is_struct_union(mem->ty) && !mem->name) {
 			// search the member's children
 			if (get_struct_member(mem->ty, tok)) {
 				*rest = start;
@@ -161,6 +165,10 @@ static struct Member *struct_designator(struct Token **rest,
 			continue;
 		}
 
+		// Unnamed bitfield
+		if (!mem->name)
+			continue;
+
 		// Regular struct member
 		if (mem->name->len == tok->len &&
 		   !strncmp(mem->name->loc, tok->loc, tok->len)) {
@@ -335,6 +343,14 @@ static void array_initializer2(struct Token **rest, struct Token *tok,
 	*rest = tok;
 }
 
+// Unnamed bitfields do not take part in initialization.
+static struct Member *skip_unnamed_bitfield(struct Member *mem)
+{
+	while (mem && mem->is_bitfield && !mem->name)
+		mem = mem->next;
+	return mem;
+}
+
 // struct-initializer1 = "{" initializer ("," initializer)* ","? "}"
 static void struct_initializer1(struct Token **rest, struct Token *tok,
 				struct Initializer *init)
@@ -356,6 +372,7 @@ static void struct_initializer1(struct Token **rest, struct Token *tok,
 			continue;
 		}
 
+		mem = skip_unnamed_bitfield(mem);
 		if (mem) {
 			initializer2(&tok, tok, init->children[mem->idx]);
 			mem = mem->next;
@@ -370,9 +387,11 @@ static void struct_initializer1(struct Token **rest, struct Token *tok,
 static void struct_initializer2(struct Token **rest, struct Token *tok,
 				struct Initializer *init, struct Member *mem)
 {
-	bool first = true;
+	// If it continues after a designator, "," comes first.
+	bool first = (mem == init->ty->members);
 
-	for (; mem && !is_end(tok); mem = mem->next) {
+	mem = skip_unnamed_bitfield(mem);
+	for (; mem && !is_end(tok); mem = skip_unnamed_bitfield(mem->next)) {
 		struct Token *start = tok;
 
 		if (!first)
@@ -405,17 +424,24 @@ static void union_initializer(struct Token **rest, struct Token *tok,
 		init->mem = mem;
 
 		designation(&tok, tok, init->children[mem->idx]);
+		consume(&tok, tok, ",");
 		*rest = skip(tok, "}");
 		return;
 	}
 
-	// set initializer's first member in default
-	init->mem = init->ty->members;
-
 	if (parentheses)
 		tok = tok->next;
 
-	initializer2(&tok, tok, init->children[0]);
+	// empty initializer
+	if (parentheses && consume(rest, tok, "}"))
+		return;
+
+	// set initializer's first member in default
+	init->mem = skip_unnamed_bitfield(init->ty->members);
+	if (!init->mem)
+		error_tok(tok, "excess elements in union initializer");
+
+	initializer2(&tok, tok, init->children[init->mem->idx]);
 
 	if (parentheses) {
 		consume(&tok, tok, ",");
@@ -436,6 +462,15 @@ static void initializer2(struct Token **rest, struct Token *tok,
 		return;
 	}
 
+	// A string literal can be surrounded by braces.
+	if (init->ty->kind == TY_ARRAY && is_integer(init->ty->base) &&
+	    equal(tok, "{") && tok->next->kind == TK_STR &&
+	    is_end(tok->next->next)) {
+		string_initializer(&tok, tok->next, init);
+		consume_end(rest, tok);
+		return;
+	}
+
 	if (init->ty->kind == TY_ARRAY) {
 		if (equal(tok, "{"))
 			array_initializer1(rest, tok, init);
@@ -465,6 +500,17 @@ static void initializer2(struct Token **rest, struct Token *tok,
 	}
 
 	if (init->ty->kind == TY_UNION) {
+		if (!equal(tok, "{")) {
+			// As a struct, a union can be initialized
+			// with another union.
+			struct Node *expr = assign(rest, tok);
+			add_type(expr);
+			if (expr->ty->kind == TY_UNION) {
+				init->expr = expr;
+				return;
+			}
+		}
+
 		union_initializer(rest, tok, init);
 		return;
 	}
@@ -474,6 +520,7 @@ static void initializer2(struct Token **rest, struct Token *tok,
 		// braces.
 		// E.g. `int x = {3};`. Handle that case.
 		initializer2(&tok, tok->next, init);
+		consume(&tok, tok, ",");
 		*rest = skip(tok, "}");
 		return;
 	}
@@ -574,9 +621,12 @@ static struct Node *create_lvar_init(struct Initializer *init, struct Type *ty,
 		return node;
 	}
 
-	if (ty->kind == TY_UNION) {
-		// set initializer's first member in default
-		struct Member *mem = init->mem ? init->mem : ty->members;
+	if (ty->kind == TY_UNION && !init->expr) {
+		// there is no user-supplied values
+		if (!init->mem)
+			return new_node(ND_NULL_EXPR, tok);
+
+		struct Member *mem = init->mem;
 		struct InitDesg desg2 = { desg, 0, mem, NULL };
 		return create_lvar_init(init->children[mem->idx], mem->ty, &desg2, tok);
 	}
diff --git a/parser/parser.c b/parser/parser.c
index c305229..d14ad2d 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -314,6 +314,10 @@ struct Member *get_struct_member(struct Type *ty, struct Token *tok)
 			continue;
 		}
 
+		// Unnamed bitfield
+		if (!mem->name)
+			continue;
+
 		// Regular struct member
 		if (mem->name->len == tok->len &&
 		   !strncmp(mem->name->loc, tok->loc, tok->len))
diff --git a/type.c b/type.c
index 3392521..e6b9c37 100644
--- a/type.c
+++ b/type.c
@@ -446,6 +446,8 @@ void add_type(struct Node *node)
 	case ND_COND:
 		if (node->then->ty->kind == TY_VOID || node->els->ty->kind == TY_VOID) {
 			node->ty = p_ty_void();
+		} else if (is_struct_union(node->then->ty)) {
+			node->ty = node->then->ty;
 		} else {
 			usual_arith_conv(&node->then, &node->els);
 			node->ty = node->then->ty;
-- 
2.43.0


From d661a30bf3b51ea571c3523d14d7a40aa42b79ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:28 +0000
Subject: [PATCH 016/122] fix: do not read beyond the operand string in equal()

---
 utils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils.c b/utils.c
index 1d9a13d..849a24b 100644
--- a/utils.c
+++ b/utils.c
@@ -32,7 +32,7 @@ void warn_tok(struct Token *tok, const char *fmt, ...)
 
 bool equal(struct Token *tok, const char *op)
 {
-	return !memcmp(tok->loc, op, tok->len) && !op[tok->len];
+	return strlen(op) == (size_t)tok->len && !memcmp(tok->loc, op, tok->len);
 }
 
 void __attribute__((noreturn))
-- 
2.43.0


From 9efaff2c27ff0c56ed3be4444b54e1c89efba592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:28 +0000
Subject: [PATCH 017/122] fix: fetch struct and long double variadic arguments
 by va_arg

---
 include/stdarg.h | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/include/stdarg.h b/include/stdarg.h
index b68385e..a865973 100644
--- a/include/stdarg.h
+++ b/include/stdarg.h
@@ -10,11 +10,19 @@ do {				\
 
 #define va_end(ap)
 
-#define va_arg(ap, type)		\
-({					\
-	ap += sizeof(long);		\
-	*(type *)(ap - sizeof(long));	\
-})
+// A 16-byte-aligned argument starts at an even slot, and an argument larger
+// than 2 slots is passed by reference.
+#define __va_size(type)			\
+	(sizeof(type) > 16 ? 8 : (sizeof(type) + 7) & -8)
+
+#define va_arg(ap, type)						\
+(*(type *)({								\
+	if (_Alignof(type) > 8 && sizeof(type) <= 16)			\
+		(ap) = (void *)(((unsigned long)(ap) + 15) & -16);	\
+	(ap) += __va_size(type);					\
+	sizeof(type) > 16 ? *(void **)((ap) - __va_size(type)) :	\
+			    (void *)((ap) - __va_size(type));		\
+}))
 
 #define __GNUC_VA_LIST 1
 typedef va_list __gnuc_va_list;
-- 
2.43.0


From 7c7e649aaa5a6fd714178f294e479183ac1f8ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:28 +0000
Subject: [PATCH 018/122] fix: pass arguments and return values as the psABI
 requires

Structs with floating-point members, long doubles, arguments split between
registers and the stack, variadic arguments and the 16-byte alignment of sp
did not follow the calling convention of the other compilers.
---
 codegen.c | 869 ++++++++++++++++++++++++++----------------------------
 toycc.h   |   1 -
 2 files changed, 419 insertions(+), 451 deletions(-)

diff --git a/codegen.c b/codegen.c
index ca928f3..165be6b 100644
--- a/codegen.c
+++ b/codegen.c
@@ -582,269 +582,417 @@ static void cast(struct Type *from, struct Type *to)
 	}
 }
 
-// Structs or unions equal or smaller than 16 bytes are passed
-// using up to two registers.
-// When structs or unions larger than 16 bytes, save the struct
-// in caller's stack, and transmit the pointer to callee by one
-// register.
-static void push_struct(struct Type *ty)
+// Where an argument, a parameter or a return value is passed.
+// https://github.com/riscv-non-isa/riscv-elf-psabi-doc/releases
+//
+// Here is what the spec says:
+// - Up to 8 arguments of integral type are passed using a0-a7.
+//
+// - Up to 8 arguments of floating-point type are passed using fa0-fa7.
+//
+// - Values are passed in floating-point registers whenever possible,
+//   whether or not the integer registers have been exhausted.
+//
+// - Structs or unions equal or smaller than 16 bytes are passed using up
+//   to two registers. A struct of one or two floating-point members, or
+//   of one floating-point and one integer member, uses floating-point
+//   registers for them.
+//
+// - Structs or unions larger than 16 bytes are saved in caller's stack,
+//   and the pointer is transmitted to callee.
+//
+// - Variadic arguments are passed according to the integer calling
+//   convention.
+//
+// - If all registers of an appropriate type are already used, an argument
+//   is passed by the stack: float -> integer -> stack
+//
+// - Each argument passed on the stack takes 8 bytes, and the end of
+//   the argument area must be aligned to a 16 byte boundary.
+enum {
+	PASS_GENERIC_REG,
+	PASS_FLOAT_REG,
+	PASS_STACK,
+};
+
+struct ArgPiece {
+	int kind;
+	int idx;	// register number or stack offset
+	int offset;	// offset in the argument
+	int size;
+};
+
+struct ArgLoc {
+	bool by_ref;	// the piece is a pointer to the argument
+	int copy;	// by_ref: stack offset of the copy
+	int nr;
+	struct ArgPiece piece[2];
+};
+
+struct ArgState {
+	int g_arg;	// used generic registers
+	int f_arg;	// used float registers
+	int stack;	// used stack space
+};
+
+// Flatten a struct into at most 2 scalar members.
+static bool flatten_struct(struct Type *ty, int offset,
+			   struct ArgPiece *piece, int *nr)
 {
-	int i;
-	int sz = align_to(ty->size, sizeof(long));
-	int n = sz / sizeof(long);
-
-	// transmission by registers
-	if (n <= 2) {
-		while (n--) {
-			println("\tld t0, %ld(a0)", n * sizeof(long));
-			push("t0");
+	if (ty->kind == TY_STRUCT) {
+		for (struct Member *mem = ty->members; mem; mem = mem->next) {
+			if (mem->is_bitfield && !mem->bit_width)
+				continue;
+			if (!flatten_struct(mem->ty, offset + mem->offset, piece, nr))
+				return false;
 		}
-		return;
+		return true;
 	}
 
-	// transmission by stack pointer
-	println("\tadd t1, t1, %d", -sz);
-
-	for (i = 0; i < n; i++) {
-		// push struct content into stack
-		println("\tld t0, %ld(a0)", i * sizeof(long));
-		println("\tsd t0, %ld(t1)", i * sizeof(long));
+	if (ty->kind == TY_ARRAY) {
+		for (int i = 0; i < ty->array_len; i++)
+			if (!flatten_struct(ty->base, offset + i * ty->base->size,
+					    piece, nr))
+				return false;
+		return true;
 	}
-	depth += n;
 
-	push("t1");
+	if (ty->kind == TY_UNION || ty->kind == TY_LDOUBLE || *nr == 2)
+		return false;
+
+	piece[*nr].kind = is_float_arg(ty) ? PASS_FLOAT_REG : PASS_GENERIC_REG;
+	piece[*nr].offset = offset;
+	piece[*nr].size = ty->size;
+	(*nr)++;
+	return true;
 }
 
-static void push_args2(struct Node *args, bool first_pass)
+static bool pass_by_float_reg(struct ArgState *st, struct Type *ty,
+			      struct ArgLoc *loc)
 {
-	if (!args)
-		return;
+	int nr = 0, f = 0;
+
+	if (!is_float_arg(ty) &&
+	   (ty->kind != TY_STRUCT || ty->size > 2 * (int)sizeof(long)))
+		return false;
+
+	if (!flatten_struct(ty, 0, loc->piece, &nr))
+		return false;
 
-	// in the right-to-left order
-	push_args2(args->next, first_pass);
+	for (int i = 0; i < nr; i++)
+		if (loc->piece[i].kind == PASS_FLOAT_REG)
+			f++;
 
-	if ((first_pass && !args->pass_by_stack) ||
-	   (!first_pass && args->pass_by_stack))
+	if (!f || st->f_arg + f > (int)MAX_ARG_REGS ||
+	    st->g_arg + nr - f > (int)MAX_ARG_REGS)
+		return false;
+
+	for (int i = 0; i < nr; i++)
+		loc->piece[i].idx = loc->piece[i].kind == PASS_FLOAT_REG ?
+				    st->f_arg++ : st->g_arg++;
+	loc->nr = nr;
+	return true;
+}
+
+static void locate_arg(struct ArgState *st, struct Type *ty,
+		       bool is_variadic, struct ArgLoc *loc)
+{
+	// arrays and functions are passed as pointers
+	int size = ty->kind == TY_ARRAY || ty->kind == TY_FUNC ?
+		   (int)sizeof(long) : ty->size;
+	int align = sizeof(long);
+
+	memset(loc, 0, sizeof(*loc));
+
+	if (!is_variadic && pass_by_float_reg(st, ty, loc))
 		return;
 
-	gen_expr(args);
+	memset(loc, 0, sizeof(*loc));
 
-	switch (args->ty->kind) {
-	case TY_STRUCT:
-	case TY_UNION:
-		push_struct(args->ty);
-		break;
+	if (is_struct_union(ty) && size > 2 * (int)sizeof(long)) {
+		loc->by_ref = true;
+		size = sizeof(long);
 
-	case TY_FLOAT:
-	case TY_DOUBLE:
-		push("fa0");
-		break;
+	} else if ((is_struct_union(ty) || ty->kind == TY_LDOUBLE) &&
+		   ty->align > align) {
+		align = 2 * sizeof(long);
 
-	case TY_LDOUBLE:
-		push_ld();
-		break;
+		// In the context of variadic arguments, the first register
+		// must be even index, like a0, a2, a4, a6.
+		if (is_variadic)
+			st->g_arg = align_to(st->g_arg, 2);
+	}
 
-	default:
-		push("a0");
-		break;
+	for (int pos = 0; pos < size; pos += sizeof(long)) {
+		struct ArgPiece *piece = &loc->piece[loc->nr++];
+
+		piece->offset = pos;
+		piece->size = MIN(size - pos, (int)sizeof(long));
+
+		if (st->g_arg < (int)MAX_ARG_REGS) {
+			piece->kind = PASS_GENERIC_REG;
+			piece->idx = st->g_arg++;
+			continue;
+		}
+
+		if (!pos)
+			st->stack = align_to(st->stack, align);
+
+		piece->kind = PASS_STACK;
+		piece->idx = st->stack;
+		st->stack += sizeof(long);
 	}
 }
 
-#define USED_GENERIC_REG 1
-#define USED_FLOAT_REG 2
-#define MIXED_REG 3
+// rd = rs + offset
+static void add_offset(const char *rd, const char *rs, int offset)
+{
+	if (beyond_instruction_offset(offset)) {
+		println("\tli %s, %d", rd, offset);
+		println("\tadd %s, %s, %s", rd, rd, rs);
+	} else {
+		println("\taddi %s, %s, %d", rd, rs, offset);
+	}
+}
 
-static void check_struct_mixed(struct Type *ty, int *mixed, int *idx)
+// Load a piece of the struct where `base` is pointing to.
+static void load_piece(struct ArgPiece *piece, const char *reg, const char *base)
 {
-	if (ty->kind == TY_STRUCT) {
-		for (struct Member *mem = ty->members; mem; mem = mem->next)
-			check_struct_mixed(mem->ty, mixed, idx);
+	if (piece->kind == PASS_FLOAT_REG) {
+		println("\t%s %s, %d(%s)", piece->size == sizeof(float) ? "flw" : "fld",
+			reg, piece->offset, base);
 		return;
 	}
 
-	if (ty->kind == TY_ARRAY) {
-		for (int i = 0; i < ty->array_len; i++)
-			check_struct_mixed(ty->base, mixed, idx);
+	switch (piece->size) {
+	case 1:
+		println("\tlb %s, %d(%s)", reg, piece->offset, base);
+		return;
+	case 2:
+		println("\tlh %s, %d(%s)", reg, piece->offset, base);
+		return;
+	case 4:
+		println("\tlw %s, %d(%s)", reg, piece->offset, base);
+		return;
+	case 8:
+		println("\tld %s, %d(%s)", reg, piece->offset, base);
+		return;
+	default:
+		println("\tli %s, 0", reg);
+		for (int i = piece->size - 1; i >= 0; i--) {
+			println("\tslli %s, %s, 8", reg, reg);
+			println("\tlbu t6, %d(%s)", piece->offset + i, base);
+			println("\tor %s, %s, t6", reg, reg);
+		}
 		return;
 	}
+}
 
-	if (is_float_arg(ty)) {
-		*mixed |= USED_FLOAT_REG;
-		(*idx)++;
+// Store a piece to the variable where `base` is pointing to.
+static void store_piece(struct ArgPiece *piece, const char *reg, const char *base)
+{
+	if (piece->kind == PASS_FLOAT_REG) {
+		println("\t%s %s, %d(%s)", piece->size == sizeof(float) ? "fsw" : "fsd",
+			reg, piece->offset, base);
 		return;
 	}
 
-	*mixed |= USED_GENERIC_REG;
-	(*idx)++;
+	switch (piece->size) {
+	case 1:
+		println("\tsb %s, %d(%s)", reg, piece->offset, base);
+		return;
+	case 2:
+		println("\tsh %s, %d(%s)", reg, piece->offset, base);
+		return;
+	case 4:
+		println("\tsw %s, %d(%s)", reg, piece->offset, base);
+		return;
+	case 8:
+		println("\tsd %s, %d(%s)", reg, piece->offset, base);
+		return;
+	default:
+		for (int i = 0; i < piece->size; i++) {
+			println("\tsb %s, %d(%s)", reg, piece->offset + i, base);
+			println("\tsrli %s, %s, 8", reg, reg);
+		}
+		return;
+	}
+}
+
+static const char *piece_reg(struct ArgPiece *piece)
+{
+	if (piece->kind == PASS_FLOAT_REG)
+		return argflt[piece->idx];
+	return argreg[piece->idx];
+}
+
+// Copy a struct byte by byte, t0 and t1 are corrupted.
+static void copy_bytes(const char *to, const char *from, int size)
+{
+	for (int i = 0; i < size; i++) {
+		if (beyond_instruction_offset(i)) {
+			println("\tli t0, %d", i);
+			println("\tadd t0, %s, t0", from);
+			println("\tlb t1, (t0)");
+
+			println("\tli t0, %d", i);
+			println("\tadd t0, %s, t0", to);
+			println("\tsb t1, (t0)");
+		} else {
+			println("\tlb t0, %d(%s)", i, from);
+			println("\tsb t0, %d(%s)", i, to);
+		}
+	}
 }
 
-static void check_struct_contain_float(struct Token *tok,
-				       struct Type *ty, size_t g_arg)
+// Evaluate the arguments in the right-to-left order, store what is passed
+// by the stack and push what is passed by registers.
+static void push_args2(struct Node *args, struct ArgLoc *loc, int base)
 {
-	int n = align_to(ty->size, sizeof(long)) / sizeof(long);
-	if (n > 2)
+	if (!args)
 		return;
 
-	int mixed = 0, idx = 0;
-	check_struct_mixed(ty, &mixed, &idx);
-	if (mixed != USED_GENERIC_REG && idx == 2) {
-		if (g_arg < MAX_ARG_REGS) {
-			// transmit by register
-			if ((g_arg + 1) == MAX_ARG_REGS && n == 1)
-				// pass as the last argument by generic register
-				return;
+	push_args2(args->next, loc + 1, base);
+
+	gen_expr(args);
+
+	// +---------------------------------------+
+	// |      copies of structs or unions      |
+	// |---------------------------------------|
+	// |         args passed by stack          |
+	// |---------------------------------------|<--- area
+	// |   args to be popped into registers    |
+	// +---------------------------------------+<--- sp
+	int area = (depth - base) * sizeof(long);
+
+	if (loc->by_ref) {
+		add_offset("t2", "sp", area + loc->copy);
+		copy_bytes("t2", "a0", args->ty->size);
+
+		// The pointer is set after all arguments are evaluated.
+		if (loc->piece[0].kind == PASS_GENERIC_REG)
+			push("a0");
+		return;
+	}
+
+	for (int i = loc->nr - 1; i >= 0; i--) {
+		struct ArgPiece *piece = &loc->piece[i];
+		const char *reg;
 
-			error_tok(tok, "Not support transmit struct arguments's float member by float register");
+		if (is_struct_union(args->ty)) {
+			reg = piece->kind == PASS_FLOAT_REG ? "ft0" : "t0";
+			load_piece(piece, reg, "a0");
+		} else if (is_float_arg(args->ty)) {
+			reg = "fa0";
+		} else {
+			reg = i ? "a1" : "a0";
+		}
+
+		if (piece->kind == PASS_STACK) {
+			// registers of this argument may be pushed already
+			area = (depth - base) * sizeof(long);
+			add_offset("t2", "sp", area + piece->idx);
+			println("\t%s %s, 0(t2)", reg[0] == 'f' ? "fsd" : "sd", reg);
+		} else {
+			push(reg);
 		}
 	}
 }
 
-// Load function call arguments. Arguments are already evaluated and
-// stored to the stack as local variables. What we need to do in this
-// function is to load them to registers or push them to the stack.
-// https://github.com/riscv-non-isa/riscv-elf-psabi-doc/releases
-//
-// Here is what the spec says:
-// - Up to 8 arguments of integral type are passed using a0-a7.
-//
-// - Up to 8 arguments of floating-point type are passed using fa0-fa7.
-//
-// - Values are passed in floating-point registers whenever possible,
-//   whether or not the integer registers have been exhausted.
-//
-// - Variadic arguments are passed according to the integer calling
-//   convention.
-//
-// - If all registers of an appropriate type are already used, push an
-//   argument to the stack in the right-to-left order.
-//   float -> integer -> stack
-//
-// - Each argument passed on the stack takes 8 bytes, and the end of
-//   the argument area must be aligned to a 16 byte boundary.
-//
-// +---------------------------------------+
-// |       struct or union in stack        |
-// |---------------------------------------|<--- t1 <---+
-// |                  ...                  |            |
-// |      other args passed by stack       |            |
-// |                  ...                  |            |
-// |---------------------------------------|            |
-// | arg-pointers forwards struct or union |------------+
-// +---------------------------------------+ <--- sp
-static size_t push_args(struct Node *node)
+static bool is_ret_by_ref(struct Node *node)
 {
-	size_t stack = 0, struct_stack = 0, g_arg = 0, f_arg = 0;
+	return node->ret_buffer && node->ty->size > 2 * (int)sizeof(long);
+}
+
+// Load function call arguments to registers or the stack.
+// Return the size of the used stack.
+static int push_args(struct Node *node, struct ArgLoc *locs)
+{
+	struct ArgState st = {};
 	struct Type *cur_params = node->func_ty->params;
+	struct ArgLoc *loc = locs;
 
 	// If the return type is a large struct/union, the caller passes
 	// a pointer to a buffer as if it were the first argument.
-	if (node->ret_buffer && node->ty->size > 2 * (int)sizeof(long))
-		g_arg++;
+	if (is_ret_by_ref(node))
+		st.g_arg++;
 
-	// Load as many arguments to the registers as possible.
 	for (struct Node *arg = node->args; arg; arg = arg->next) {
-		if (node->func_ty->is_variadic && cur_params == NULL) {
-			// this parameter is variadic
-			if (g_arg < MAX_ARG_REGS) {
-				g_arg++;
+		locate_arg(&st, arg->ty, !cur_params, loc++);
+		if (cur_params)
+			cur_params = cur_params->next;
+	}
 
-			} else {
-				arg->pass_by_stack = true;
-				stack++;
-			}
-			continue;
+	// expand space for struct or union in stack
+	int stack = st.stack;
+	loc = locs;
+	for (struct Node *arg = node->args; arg; arg = arg->next, loc++) {
+		if (loc->by_ref) {
+			stack = align_to(stack, MAX(arg->ty->align, 16));
+			loc->copy = stack;
+			stack += arg->ty->size;
 		}
+	}
 
-		cur_params = cur_params->next;
+	// keep sp aligned to a 16 byte boundary
+	stack = align_to(stack, 16);
+	if (depth % 2)
+		stack += sizeof(long);
 
-		if (is_struct_union(arg->ty)) {
-			check_struct_contain_float(arg->tok, arg->ty, g_arg);
+	if (stack)
+		add_offset("sp", "sp", -stack);
+	depth += stack / sizeof(long);
 
-			int n = align_to(arg->ty->size, sizeof(long)) / sizeof(long);
-			if (n <= 2) {
-				// transmission struct by stack or register(s)
-				while (n--) {
-					if (g_arg < MAX_ARG_REGS)
-						g_arg++;
-					else
-						stack++;
-				}
-			} else {
-				// reserve stack space for the struct
-				struct_stack += n;
-				stack += n;
+	int base = depth;
+	push_args2(node->args, locs, base);
 
-				// push stack pointer
-				if (g_arg < MAX_ARG_REGS)
-					g_arg++;
-				else
-					stack++;
-			}
-			continue;
-		}
+	// fetch function address
+	gen_expr(node->lhs);
+	println("\tmv t0, a0");
 
-		if (is_float_arg(arg->ty) && (f_arg < MAX_ARG_REGS)) {
-			f_arg++;
+	loc = locs;
+	for (struct Node *arg = node->args; arg; arg = arg->next, loc++) {
+		for (int i = 0; i < loc->nr; i++) {
+			struct ArgPiece *piece = &loc->piece[i];
 
-		} else if (arg->ty->kind == TY_LDOUBLE) {
-			for (int i = 1; i <= 2; i++) {
-				if (g_arg < MAX_ARG_REGS)
-					g_arg++;
-				else
-					stack++;
-			}
+			debug("arg %.*s", (int)arg->tok->len, arg->tok->loc);
 
-		} else if (g_arg < MAX_ARG_REGS) {
-			g_arg++;
+			if (piece->kind != PASS_STACK)
+				pop(piece_reg(piece));
 
-		} else {
-			arg->pass_by_stack = true;
-			stack++;
-		}
-	}
+			if (loc->by_ref) {
+				int area = (depth - base) * sizeof(long);
 
-	if ((depth + stack) % 2 == 1) {
-		println("\taddi sp, sp, -8");
-		depth++;
-		stack++;
+				if (piece->kind == PASS_GENERIC_REG) {
+					add_offset(piece_reg(piece), "sp", area + loc->copy);
+				} else {
+					add_offset("t1", "sp", area + loc->copy);
+					add_offset("t2", "sp", area + piece->idx);
+					println("\tsd t1, 0(t2)");
+				}
+			}
+		}
 	}
 
-	// expand space for struct or union in stack
-	println("\tmv t1, sp");
-	println("\tadd sp, sp, -%ld", struct_stack * sizeof(long));
-
-	// push stack arguments
-	push_args2(node->args, true);
-	// push register arguments
-	push_args2(node->args, false);
-
 	// If the return type is a large struct/union, the caller passes
 	// a pointer to a buffer as if it were the first argument.
-	if (node->ret_buffer && node->ty->size > 2 * (int)sizeof(long)) {
-		println("\tadd a0, fp, %d", node->ret_buffer->offset);
-		push("a0");
-	}
+	if (is_ret_by_ref(node))
+		add_offset("a0", "fp", node->ret_buffer->offset);
 
 	return stack;
 }
 
 static void copy_ret_buffer(struct Obj *var)
 {
-	struct Type *ty = var->ty;
+	struct ArgState st = {};
+	struct ArgLoc loc;
 
-	debug("copy_ret_buffer size %d", ty->size);
+	debug("copy_ret_buffer size %d", var->ty->size);
 
-	for (int i = 0; i < MIN((int)sizeof(long), ty->size); i++) {
-		println("\tsb a0, %d(fp)", var->offset + i);
-		println("\tsrl a0, a0, 8");
-	}
-
-	if (ty->size > (int)sizeof(long)) {
-		for (int i = 8; i < MIN(16, ty->size); i++) {
-			println("\tsb a1, %d(fp)", var->offset + i);
-			println("\tsrl a1, a1, 8");
-		}
-	}
+	locate_arg(&st, var->ty, false, &loc);
+	add_offset("t0", "fp", var->offset);
+	for (int i = 0; i < loc.nr; i++)
+		store_piece(&loc.piece[i], piece_reg(&loc.piece[i]), "t0");
 
 	debug("copy_ret_buffer end");
 }
@@ -1165,86 +1313,26 @@ static void gen_expr(struct Node *node)
 			return;
 		}
 
-		// push arguments into stack first
-		int stack_args = push_args(node);
-
-		// fetch function address
-		gen_expr(node->lhs);
-		println("\tmv t0, a0");
-
-		struct Type *cur_params = node->func_ty->params;
-		size_t g_arg = 0, f_arg = 0;
-
-		// If the return type is a large struct/union, the caller passes
-		// a pointer to a buffer as if it were the first argument.
-		if (node->ret_buffer && node->ty->size > (int)sizeof(long) * 2) {
-			debug("pop struct's pointer to a0");
-			pop(argreg[g_arg++]);
-		}
-
-		// then pop arguments from stack
-		for (struct Node *arg = node->args; arg; arg = arg->next) {
-			debug("%sarg %.*s",
-			      node->func_ty->is_variadic ? "variadic " : "",
-			      (int)arg->tok->len, arg->tok->loc);
-
-			// transfer args to variadic function with generic registers
-			if (node->func_ty->is_variadic && cur_params == NULL) {
-				if (g_arg < MAX_ARG_REGS) {
-					if (arg->ty->kind == TY_LDOUBLE) {
-						// In the context of variadic arguments,
-						// ld's first register must be even index,
-						// like a0, a2, a4, a6.
-						if (g_arg % 2 == 1)
-							g_arg++;
-
-						for (int i = 0; i < 2; i++) {
-							if (g_arg < MAX_ARG_REGS)
-								pop(argreg[g_arg++]);
-						}
-					} else {
-						pop(argreg[g_arg++]);
-					}
-
-				}
-				continue;
-			}
-
-			cur_params = cur_params->next;
-
-			if (is_struct_union(arg->ty)) {
-				int n = align_to(arg->ty->size, sizeof(long)) / sizeof(long);
-
-				// transmission by register(s) or stack
-				if (n <= 2) {
-					while (n--) {
-						if (g_arg >= MAX_ARG_REGS)
-							break;
-						pop(argreg[g_arg++]);
-					}
-					continue;
-				}
-			}
-
-			if (is_float_arg(arg->ty) && (f_arg < MAX_ARG_REGS))
-				pop(argflt[f_arg++]);
+		int nr_args = 0;
+		for (struct Node *arg = node->args; arg; arg = arg->next)
+			nr_args++;
 
-			else if (arg->ty->kind == TY_LDOUBLE) {
-				for (int i = 0; i < 2; i++) {
-					if (g_arg < MAX_ARG_REGS)
-						pop(argreg[g_arg++]);
-				}
-
-			} else if (g_arg < MAX_ARG_REGS)
-				pop(argreg[g_arg++]);
-		}
+		// load arguments, t0 is the function address
+		struct ArgLoc *locs = calloc(nr_args + 1, sizeof(struct ArgLoc));
+		int stack_args = push_args(node, locs);
+		free(locs);
 
 		// call function
 		println("\tjalr t0");
 
 		if (stack_args) {
-			println("\taddi sp, sp, %ld", stack_args * sizeof(long));
-			depth -= stack_args;
+			if (beyond_instruction_offset(stack_args)) {
+				println("\tli t0, %d", stack_args);
+				println("\tadd sp, sp, t0");
+			} else {
+				println("\taddi sp, sp, %d", stack_args);
+			}
+			depth -= stack_args / sizeof(long);
 		}
 
 		// It looks like the most significant 48 or 56 bits in a0 may
@@ -1277,7 +1365,7 @@ static void gen_expr(struct Node *node)
 		if (node->ret_buffer && node->ty->size <= 2 * (int)sizeof(long)) {
 			copy_ret_buffer(node->ret_buffer);
 			debug("mv struct's pointer to a0");
-			println("\tadd a0, fp, %d", node->ret_buffer->offset);
+			add_offset("a0", "fp", node->ret_buffer->offset);
 		}
 
 		debug("end ND_FUNCALL");
@@ -1525,36 +1613,15 @@ static void gen_expr(struct Node *node)
 
 static void copy_struct_reg(void)
 {
-	int i, pos, sz;
-	struct Type *ty = current_fn->ty->return_ty;
+	struct ArgState st = {};
+	struct ArgLoc loc;
 
 	debug("copy_struct_reg");
 
+	locate_arg(&st, current_fn->ty->return_ty, false, &loc);
 	println("\tmv t0, a0");
-	// load instruction(like lb, lh, lw) would clear invalid high bits
-	for (i = 0, pos = 0; pos < ty->size; i++, pos += sz) {
-		sz = MIN((int)sizeof(long), ty->size);
-
-		println("\tli a%d, 0", i);
-		switch (sz) {
-		case 1:
-			println("\tlb a%d, %d(t0)", i, pos);
-			break;
-
-		case 2:
-			println("\tlh a%d, %d(t0)", i, pos);
-			break;
-
-		case 3:
-		case 4:
-			println("\tlw a%d, %d(t0)", i, pos);
-			break;
-
-		default:
-			println("\tld a%d, %d(t0)", i, pos);
-			break;
-		}
-	}
+	for (int i = 0; i < loc.nr; i++)
+		load_piece(&loc.piece[i], piece_reg(&loc.piece[i]), "t0");
 
 	debug("copy_struct_reg end");
 }
@@ -1567,12 +1634,10 @@ static void copy_struct_mem(void)
 	debug("copy_struct_mem");
 
 	debug("get struct's pointer passed by caller");
-	println("\tld a1, %d(fp)", var->offset);
+	add_offset("a1", "fp", var->offset);
+	println("\tld a1, (a1)");
 
-	for (int i = 0; i < ty->size; i++) {
-		println("\tlb t0, %d(a0)", i);
-		println("\tsb t0, %d(a1)", i);
-	}
+	copy_bytes("a1", "a0", ty->size);
 
 	debug("return struct's pointer by a0");
 	println("\tmv a0, a1");
@@ -1758,61 +1823,30 @@ static void assign_lvar_offsets(struct Obj *prog)
 		// +----------------+ bottom (fp)
 		// |   local vars   |
 		// +----------------+
-		int top = 16;
+		struct ArgState st = {};
 
-		size_t g_arg = 0, f_arg = 0;
 		// initialize pass-by-stack parameters' offset
 		for (struct Obj *var = fn->params; var; var = var->next) {
-			if (is_struct_union(var->ty)) {
-				int sz = align_to(var->ty->size, sizeof(long));
-				int n = sz / sizeof(long);
-
-				if (n <= 2) {
-					if ((g_arg + n) <= MAX_ARG_REGS) {
-						g_arg += n;
-						continue;
-					} else if (g_arg + 1 == MAX_ARG_REGS) {
-						error_tok(var->ty->name_pos,
-							"Not support transmit struct parameter half by register and half by stack");
-					}
-				} else {
-					// Passed by caller stack, so just skip the register.
-					if (g_arg < MAX_ARG_REGS)
-						g_arg++;
-				}
-			} else if (is_float_arg(var->ty)) {
-				if (f_arg < MAX_ARG_REGS) {
-					f_arg++;
-					continue;
-
-				} else if (g_arg < MAX_ARG_REGS) {
-					g_arg++;
-					continue;
-				}
-			} else if (var->ty->kind == TY_LDOUBLE) {
-				if (g_arg + 2 <= MAX_ARG_REGS) {
-					g_arg += 2;
-					continue;
-				} else if (g_arg + 1 == MAX_ARG_REGS) {
-					error_tok(var->ty->name_pos, "Not support transmit half of long double by stack");
-				}
-			} else {
-				if (g_arg < MAX_ARG_REGS) {
-					g_arg++;
-					continue;
-				}
-			}
+			struct ArgLoc loc;
+
+			locate_arg(&st, var->ty, false, &loc);
 
-			top = align_to(top, sizeof(long));
-			var->offset = top;
-			debug("%s's parameter %s offset %d",
-				fn->name, var->name, var->offset);
-			top += var->ty->size;
+			// Pass-by-stack parameters are used where they are.
+			// The others are stored into local variables.
+			if (loc.nr && !loc.by_ref && loc.piece[0].kind == PASS_STACK) {
+				var->offset = 16 + loc.piece[0].idx;
+				debug("%s's parameter %s offset %d",
+					fn->name, var->name, var->offset);
+			}
 		}
 
 		if (fn->va_area) {
-			top = align_to(top, sizeof(long));
-			fn->va_area->offset = top;
+			// Variadic parameters follow the named ones. If there
+			// are unused registers, they are stored right below
+			// the parameters passed by stack.
+			int va_size = (MAX_ARG_REGS - st.g_arg) * sizeof(long);
+			fn->va_area->offset = 16 + st.stack +
+					      align_to(va_size, 16) - va_size;
 		}
 
 		int bottom = 0;
@@ -1827,7 +1861,7 @@ static void assign_lvar_offsets(struct Obj *prog)
 			var->offset = -bottom;
 		}
 		// initialize stack size
-		fn->stack_size = align_to(bottom, sizeof(long));
+		fn->stack_size = align_to(bottom, 16);
 	}
 }
 
@@ -1894,59 +1928,38 @@ static void emit_data(struct Obj *prog)
 	}
 }
 
-static void store_args(int r, int offset, int sz)
+// Store a parameter to its local variable.
+static void store_param(struct Obj *var, struct ArgLoc *loc)
 {
-	const char *rs = "sp";
-
-	if (beyond_instruction_offset(offset)) {
-		println("\tli t0, %d", offset);
-		println("\tadd t0, sp, t0");
-		rs = "t0";
-		offset = 0;
-	}
-
-	switch (sz) {
-	case sizeof(char):
-		println("\tsb %s, %d(%s)", argreg[r], offset, rs);
-		break;
-
-	case sizeof(short):
-		println("\tsh %s, %d(%s)", argreg[r], offset, rs);
-		break;
+	if (!loc->nr || var->offset > 0)
+		return;
 
-	case sizeof(int):
-		println("\tsw %s, %d(%s)", argreg[r], offset, rs);
-		break;
+	add_offset("t2", "fp", var->offset);
 
-	case sizeof(long):
-		println("\tsd %s, %d(%s)", argreg[r], offset, rs);
-		break;
+	if (loc->by_ref) {
+		const char *reg = "t3";
 
-	default:
-		for (int i = 0; i < sz; i++) {
-			println("\tsb %s, %d(%s)", argreg[r], offset + i, rs);
-			println("\tsrli %s, %s, 8", argreg[r], argreg[r]);
+		if (loc->piece[0].kind == PASS_STACK) {
+			add_offset("t3", "fp", 16 + loc->piece[0].idx);
+			println("\tld t3, (t3)");
+		} else {
+			reg = piece_reg(&loc->piece[0]);
 		}
-		break;
+		copy_bytes("t2", reg, var->ty->size);
+		return;
 	}
-}
-
-static void store_fltargs(size_t r, int offset, int sz)
-{
-	assert(r < MAX_ARG_REGS);
-
-	switch (sz) {
-	case sizeof(float):
-		println("\tfsw %s, %d(sp)", argflt[r], offset);
-		break;
 
-	case sizeof(double):
-		println("\tfsd %s, %d(sp)", argflt[r], offset);
-		break;
+	for (int i = 0; i < loc->nr; i++) {
+		struct ArgPiece *piece = &loc->piece[i];
 
-	default:
-		unreachable();
-		break;
+		if (piece->kind == PASS_STACK) {
+			// the other half is passed by register
+			add_offset("t3", "fp", 16 + piece->idx);
+			println("\tld t3, (t3)");
+			store_piece(piece, "t3", "t2");
+		} else {
+			store_piece(piece, piece_reg(piece), "t2");
+		}
 	}
 }
 
@@ -1974,36 +1987,17 @@ static void emit_text(struct Obj *prog)
 		// Prologue
 		debug("Prologue");
 
+		// The space for variadic parameters transmitted by registers.
 		int va_size = 0;
 		if (fn->va_area) {
-			size_t va_gp = 0, va_fp = 0;
-
-			for (struct Obj *var = fn->params; var; var = var->next) {
-				// count all used registers by all type parameters
-				struct Type *ty = var->ty;
-
-				switch (ty->kind) {
-				case TY_STRUCT:
-				case TY_UNION:
-					error_tok(var->ty->name_pos,
-						 "Not support transmit struct or union parameter in variadic function");
-					break;
-
-				case TY_FLOAT:
-				case TY_DOUBLE:
-					va_fp < MAX_ARG_REGS ? va_fp++ : va_gp++;
-					break;
-
-				default:
-					va_gp++;
-					break;
-				}
-			}
+			struct ArgState st = {};
+			struct ArgLoc loc;
+
+			for (struct Obj *var = fn->params; var; var = var->next)
+				locate_arg(&st, var->ty, false, &loc);
 
-			// Expand the space only when variadic parameters
-			// are transmitted by registers.
-			if (va_gp < MAX_ARG_REGS) {
-				va_size = (MAX_ARG_REGS - va_gp) * sizeof(long);
+			va_size = align_to((MAX_ARG_REGS - st.g_arg) * sizeof(long), 16);
+			if (va_size) {
 				debug("va_area's size is %d", va_size);
 				println("\tadd sp, sp, -%d", va_size);
 			}
@@ -2018,37 +2012,12 @@ static void emit_text(struct Obj *prog)
 		// Save passed-by-register arguments to the stack
 		debug("'%s' save args into stack", fn->name);
 
-		size_t g_arg = 0, f_arg = 0;
+		struct ArgState st = {};
 		for (struct Obj *var = fn->params; var; var = var->next) {
-			// pass-by-stack parameters are already in stack now
-			if (var->offset > 0) {
-				if (g_arg < MAX_ARG_REGS) {
-					// Skip the argument register,
-					// only when struct's size > (2 * sizeof(long))
-					assert(is_struct_union(var->ty));
-					g_arg++;
-				}
-
-			} else if (is_struct_union(var->ty)) {
-				store_args(g_arg++, var->offset,
-					   MIN(var->ty->size, (int)sizeof(long)));
-
-				if (var->ty->size > (int)sizeof(long))
-					store_args(g_arg++, var->offset + sizeof(long),
-							    var->ty->size - sizeof(long));
-
-			} else if (is_float_arg(var->ty) && (f_arg < MAX_ARG_REGS)) {
-				store_fltargs(f_arg++, var->offset, var->ty->size);
+			struct ArgLoc loc;
 
-			} else if (var->ty->kind == TY_LDOUBLE) {
-				if ((g_arg + 1) < MAX_ARG_REGS) {
-					store_args(g_arg++, var->offset, 8);
-					store_args(g_arg++, var->offset + 8, 8);
-				}
-
-			} else if (g_arg < MAX_ARG_REGS) {
-				store_args(g_arg++, var->offset, var->ty->size);
-			}
+			locate_arg(&st, var->ty, false, &loc);
+			store_param(var, &loc);
 		}
 
 		// Save arg registers if function is variadic
@@ -2060,8 +2029,8 @@ static void emit_text(struct Obj *prog)
 			int off = fn->va_area->offset;
 			debug("va_area->offset %d", fn->va_area->offset);
 
-			while (g_arg < MAX_ARG_REGS) {
-				store_args(g_arg++, off, sizeof(long));
+			while (st.g_arg < (int)MAX_ARG_REGS) {
+				println("\tsd %s, %d(fp)", argreg[st.g_arg++], off);
 				off += sizeof(long);
 			}
 
diff --git a/toycc.h b/toycc.h
index 1814741..917bfe9 100644
--- a/toycc.h
+++ b/toycc.h
@@ -224,7 +224,6 @@ struct Node {
 	// function call
 	struct Type *func_ty;
 	struct Node *args;
-	bool pass_by_stack;
 	struct Obj *ret_buffer;
 
 	// Goto or labeled statement, or labels-as-values
-- 
2.43.0


From b9c76bec8dbe08960d5a69e1c64ac5b64debe4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:35 +0000
Subject: [PATCH 019/122] fix: sign-extend unsigned char and short converted to
 the signed type

---
 codegen.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/codegen.c b/codegen.c
index 165be6b..0d4f047 100644
--- a/codegen.c
+++ b/codegen.c
@@ -522,8 +522,8 @@ static const char *cast_matrix[CAST_MAX_TYPE][CAST_MAX_TYPE] = {
 	{  TOI8,   TOI16,   NULL,    NULL,    TOU8,   TOU16,   NULL,    NULL,    I32F32,  I32F64,  I32F128, },  // i32
 	{  TOI8,   TOI16,   TOI32,   NULL,    TOU8,   TOU16,   TOI32,   NULL,    I64F32,  I64F64,  I64F128, },  // i64
 
-	{  NULL,   NULL,    NULL,    NULL,    NULL,   NULL,    NULL,    NULL,    U32F32,  U32F64,  U32F128, },  // u8
-	{  TOI8,   NULL,    NULL,    NULL,    TOU8,   NULL,    NULL,    NULL,    U32F32,  U32F64,  U32F128, },  // u16
+	{  TOI8,   NULL,    NULL,    NULL,    NULL,   NULL,    NULL,    NULL,    U32F32,  U32F64,  U32F128, },  // u8
+	{  TOI8,   TOI16,   NULL,    NULL,    TOU8,   NULL,    NULL,    NULL,    U32F32,  U32F64,  U32F128, },  // u16
 	{  TOI8,   TOI16,   NULL,    TOU32,   TOU8,   TOU16,   NULL,    TOU32,   U32F32,  U32F64,  U32F128, },  // u32
 	{  TOI8,   TOI16,   TOI32,   NULL,    TOU8,   TOU16,   TOI32,   NULL,    U64F32,  U64F64,  U64F128, },  // u64
 
-- 
2.43.0


From 3a8cd58b476d528ee924b1cd544b4d6bc71b7701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:13 +0000
Subject: [PATCH 020/122] fix: promote the condition of a ?: b

---
 parser/parser.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/parser/parser.c b/parser/parser.c
index d14ad2d..de85a40 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -1025,9 +1025,15 @@ struct Node *conditional(struct Token **rest, struct Token *tok)
 	if (equal(tok->next, ":")) {
 		// [GNU] Compile `a ?: b` as `tmp = a, tmp ? tmp : b`.
 		add_type(cond);
+		int_promotion(&cond);
 
 		// tmp
-		struct Obj *var = new_lvar("", cond->ty);
+		struct Type *ty = cond->ty;
+		if (ty->kind == TY_ARRAY || ty->kind == TY_VLA)
+			ty = pointer_to(ty->base);
+		else if (ty->kind == TY_FUNC)
+			ty = pointer_to(ty);
+		struct Obj *var = new_lvar("", ty);
 		// tmp = a
 		struct Node *lhs = new_binary(ND_ASSIGN, new_var_node(var, tok), cond, tok);
 
-- 
2.43.0


From e5e5a75660d53f23aafa3003ddf634feba1e0a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:37 +0000
Subject: [PATCH 021/122] fix: promote bit-fields behind the comma operator

---
 type.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/type.c b/type.c
index e6b9c37..0b03bd5 100644
--- a/type.c
+++ b/type.c
@@ -327,10 +327,15 @@ static struct Type *get_common_type(struct Type *ty1, struct Type *ty2)
 // whatever its declared type is.
 static void promote_bitfield(struct Node **node)
 {
-	if ((*node)->kind != ND_MEMBER || !(*node)->member->is_bitfield)
+	struct Node *n = *node;
+
+	while (n->kind == ND_COMMA)
+		n = n->rhs;
+
+	if (n->kind != ND_MEMBER || !n->member->is_bitfield)
 		return;
 
-	if ((*node)->member->bit_width < 32)
+	if (n->member->bit_width < 32)
 		*node = new_cast(*node, p_ty_int());
 }
 
-- 
2.43.0


From 589e3c4d0489bad95c67e45f9802a619a954b9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:25 +0000
Subject: [PATCH 022/122] fix: treat % as constant in array dimensions

---
 parser/common.c     | 2 +-
 parser/declarator.c | 3 ++-
 parser/parser.h     | 1 +
 3 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/parser/common.c b/parser/common.c
index 703e2a1..5366912 100644
--- a/parser/common.c
+++ b/parser/common.c
@@ -62,7 +62,7 @@ static int64_t convert_int(struct Type *ty, int64_t val)
 }
 
 // Evaluate a given node as a condition.
-static bool eval_bool(struct Node *node)
+bool eval_bool(struct Node *node)
 {
 	add_type(node);
 
diff --git a/parser/declarator.c b/parser/declarator.c
index 7c325b4..b503b5d 100644
--- a/parser/declarator.c
+++ b/parser/declarator.c
@@ -726,6 +726,7 @@ static bool is_const_expr(struct Node *node)
 	case ND_SUB:
 	case ND_MUL:
 	case ND_DIV:
+	case ND_MOD:
 	case ND_BITAND:
 	case ND_BITOR:
 	case ND_BITXOR:
@@ -743,7 +744,7 @@ static bool is_const_expr(struct Node *node)
 		if (!is_const_expr(node->cond))
 			return false;
 
-		return is_const_expr(eval(node->cond) ? node->then : node->els);
+		return is_const_expr(eval_bool(node->cond) ? node->then : node->els);
 
 	case ND_COMMA:
 		return is_const_expr(node->rhs);
diff --git a/parser/parser.h b/parser/parser.h
index 41fc780..9862150 100644
--- a/parser/parser.h
+++ b/parser/parser.h
@@ -7,6 +7,7 @@
 bool consume_end(struct Token **rest, struct Token *tok);
 
 int64_t eval(struct Node *node);
+bool eval_bool(struct Node *node);
 int64_t eval2(struct Node *node, const char ***label);
 long double eval_double(struct Node *node);
 
-- 
2.43.0


From c8a6eba273140d4eb5585b88829aa07fe6414601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:39 +0000
Subject: [PATCH 023/122] fix: evaluate the results of comparisons in #if as
 intmax_t

---
 parser/common.c           | 16 ++++++++++++++++
 parser/parser.c           |  6 ++++++
 parser/parser.h           |  1 +
 preprocessor/preprocess.c |  2 +-
 toycc.h                   |  1 +
 5 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/parser/common.c b/parser/common.c
index 5366912..0a463d9 100644
--- a/parser/common.c
+++ b/parser/common.c
@@ -40,9 +40,15 @@ static int64_t eval_rval(struct Node *node, const char ***label)
 	}
 }
 
+// In #if, the type of all integers is as wide as intmax_t.
+static bool is_intmax;
+
 // Convert a constant to an integer type.
 static int64_t convert_int(struct Type *ty, int64_t val)
 {
+	if (is_intmax)
+		return val;
+
 	if (ty->kind == TY_BOOL)
 		return val != 0;
 
@@ -264,6 +270,16 @@ int64_t eval(struct Node *node)
 	return eval2(node, NULL);
 }
 
+// Evaluate a given node as the condition of #if.
+int64_t eval_intmax(struct Node *node)
+{
+	is_intmax = true;
+	int64_t val = eval(node);
+	is_intmax = false;
+
+	return val;
+}
+
 // Round a constant to a floating-point type.
 static long double convert_float(struct Type *ty, long double val)
 {
diff --git a/parser/parser.c b/parser/parser.c
index de85a40..af4b45e 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -1064,6 +1064,12 @@ int64_t const_expr(struct Token **rest, struct Token *tok)
 	return eval(n);
 }
 
+int64_t pp_const_expr(struct Token **rest, struct Token *tok)
+{
+	struct Node *n = conditional(rest, tok);
+	return eval_intmax(n);
+}
+
 // assign    = conditional (assign-op assign)?
 // assign-op = "=" | "+=" | "-=" | "*=" | "/=" | "%="
 //	     | "&=" | "|=" | "^=" | "<<=" | ">>="
diff --git a/parser/parser.h b/parser/parser.h
index 9862150..ab394cf 100644
--- a/parser/parser.h
+++ b/parser/parser.h
@@ -8,6 +8,7 @@ bool consume_end(struct Token **rest, struct Token *tok);
 
 int64_t eval(struct Node *node);
 bool eval_bool(struct Node *node);
+int64_t eval_intmax(struct Node *node);
 int64_t eval2(struct Node *node, const char ***label);
 long double eval_double(struct Node *node);
 
diff --git a/preprocessor/preprocess.c b/preprocessor/preprocess.c
index 5cbae0a..f2c9eae 100644
--- a/preprocessor/preprocess.c
+++ b/preprocessor/preprocess.c
@@ -203,7 +203,7 @@ static long eval_const_expr(struct Token **rest, struct Token *tok)
 			t->ty = t->ty->is_unsigned ? p_ty_ulong() : p_ty_long();
 
 	struct Token *rest2;
-	long val = const_expr(&rest2, expr);
+	long val = pp_const_expr(&rest2, expr);
 
 	if (rest2->kind != TK_EOF)
 		error_tok(rest2, "extra token");
diff --git a/toycc.h b/toycc.h
index 917bfe9..37c540a 100644
--- a/toycc.h
+++ b/toycc.h
@@ -311,6 +311,7 @@ struct Obj {
 
 struct Node *new_cast(struct Node *expr, struct Type *ty);
 int64_t const_expr(struct Token **rest, struct Token *tok);
+int64_t pp_const_expr(struct Token **rest, struct Token *tok);
 struct Obj *parser(struct Token *tok);
 
 // codegen.c
-- 
2.43.0


From ad779975f26734a861aa2ad1c676946dcb99a2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:21 +0000
Subject: [PATCH 024/122] fix: accept elements of multi-dimensional arrays in
 address constants

---
 parser/common.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/parser/common.c b/parser/common.c
index 0a463d9..744ad5c 100644
--- a/parser/common.c
+++ b/parser/common.c
@@ -225,6 +225,15 @@ static int64_t eval_int(struct Node *node, const char ***label)
 		// return address
 		return eval_rval(node->lhs, label) + node->member->offset;
 
+	case ND_DEREF:
+		// an array or a function evaluates to its address
+		if (!label)
+			error_tok(node->tok, "not a compile-time constant");
+		if (node->ty->kind != TY_ARRAY && node->ty->kind != TY_FUNC)
+			error_tok(node->tok, "invalid initializer");
+
+		return eval2(node->lhs, label);
+
 	case ND_VAR:
 		if (!label)
 			error_tok(node->tok, "not a compile-time constant");
-- 
2.43.0


From fccd38023972e38b2d54744466e80a14b731d685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:28 +0000
Subject: [PATCH 025/122] fix: lay out bit-fields and packed structs and unions
 as the psABI requires

---
 codegen.c            | 59 +++++++++++++++++++++++++++++++++++++++++++-
 parser/declarator.c  | 46 ++++++++++++++++++++++++++--------
 parser/initializer.c | 37 +++++++++++++--------------
 toycc.h              |  2 ++
 4 files changed, 115 insertions(+), 29 deletions(-)

diff --git a/codegen.c b/codegen.c
index 0d4f047..417e035 100644
--- a/codegen.c
+++ b/codegen.c
@@ -1060,6 +1060,50 @@ static void extract_bitfield(struct Member *mem, int offset)
 		println("\tsext.w a0, a0");
 }
 
+// Load a bit-field, whose address is in a0, byte by byte.
+static void load_packed_bitfield(struct Member *mem)
+{
+	int end = mem->bit_offset + mem->bit_width;
+
+	println("\tmv t0, a0");
+	println("\tli a0, 0");
+
+	for (int i = 0; i * 8 < end; i++) {
+		println("\tlbu t1, %d(t0)", i);
+		if (i * 8 < mem->bit_offset)
+			println("\tsrli t1, t1, %d", mem->bit_offset - i * 8);
+		else
+			println("\tslli t1, t1, %d", i * 8 - mem->bit_offset);
+		println("\tor a0, a0, t1");
+	}
+	extract_bitfield(mem, 0);
+}
+
+// Store a0 to a bit-field, whose address is in t0, byte by byte.
+static void store_packed_bitfield(struct Member *mem)
+{
+	int end = mem->bit_offset + mem->bit_width;
+
+	for (int i = 0; i * 8 < end; i++) {
+		int mask = 255;
+
+		if (i * 8 < mem->bit_offset)
+			mask &= 255 << mem->bit_offset;
+		if (end - i * 8 < 8)
+			mask &= (1 << (end - i * 8)) - 1;
+
+		if (i * 8 < mem->bit_offset)
+			println("\tslli t1, a0, %d", mem->bit_offset - i * 8);
+		else
+			println("\tsrli t1, a0, %d", i * 8 - mem->bit_offset);
+		println("\tandi t1, t1, %d", mask);
+		println("\tlbu t2, %d(t0)", i);
+		println("\tandi t2, t2, %d", 255 - mask);
+		println("\tor t1, t1, t2");
+		println("\tsb t1, %d(t0)", i);
+	}
+}
+
 // Generate code for a given node.
 static void gen_expr(struct Node *node)
 {
@@ -1148,9 +1192,14 @@ static void gen_expr(struct Node *node)
 
 	case ND_MEMBER:
 		gen_addr(node);
-		load(node->ty);
 
 		struct Member *mem = node->member;
+		if (mem->is_packed) {
+			load_packed_bitfield(mem);
+			return;
+		}
+
+		load(node->ty);
 		if (mem->is_bitfield)
 			extract_bitfield(mem, mem->bit_offset);
 		return;
@@ -1183,6 +1232,14 @@ static void gen_expr(struct Node *node)
 			// the current value from memory and merge it
 			// with a new value.
 			struct Member *mem = node->lhs->member;
+
+			if (mem->is_packed) {
+				pop("t0");
+				store_packed_bitfield(mem);
+				extract_bitfield(mem, 0);
+				return;
+			}
+
 			// the lowest `bit_width` bits
 			long bits = -1UL >> (64 - mem->bit_width);
 
diff --git a/parser/declarator.c b/parser/declarator.c
index b503b5d..297e34b 100644
--- a/parser/declarator.c
+++ b/parser/declarator.c
@@ -38,6 +38,7 @@ static void struct_members(struct Token **rest, struct Token *tok, struct Type *
 			mem->ty = basety;
 			mem->idx = idx++;
 			mem->align = attr.align ? attr.align : mem->ty->align;
+			mem->is_aligned = attr.align;
 			cur = cur->next = mem;
 			continue;
 		}
@@ -56,6 +57,7 @@ static void struct_members(struct Token **rest, struct Token *tok, struct Type *
 			// if _Alignas set, refer to attr.align,
 			// otherwise refer to ty->align.
 			mem->align = attr.align ? attr.align : mem->ty->align;
+			mem->is_aligned = attr.align;
 
 			if (consume(&tok, tok, ":")) {
 				mem->is_bitfield = true;
@@ -170,6 +172,25 @@ static int align_down(int n, int align)
 	return align_to(n - align + 1, align);
 }
 
+// Apply the packed attribute to the members, and
+// set the alignment of the struct or union.
+static void align_members(struct Type *ty)
+{
+	for (struct Member *mem = ty->members; mem; mem = mem->next) {
+		if (ty->is_packed && mem->is_bitfield)
+			mem->is_packed = true;
+		if (ty->is_packed && !mem->is_aligned)
+			mem->align = 1;
+
+		// Unnamed bitfields do not affect the alignment.
+		if (mem->is_bitfield && !mem->name)
+			continue;
+		// align of struct is max among each member's alignment
+		if (ty->align < mem->align)
+			ty->align = mem->align;
+	}
+}
+
 // struct-decl = struct-union-decl
 static struct Type *struct_decl(struct Token **rest, struct Token *tok)
 {
@@ -179,6 +200,8 @@ static struct Type *struct_decl(struct Token **rest, struct Token *tok)
 	if (ty->size < 0)
 		return ty;
 
+	align_members(ty);
+
 	// Assign offsets within the struct to members
 	int bits = 0;
 	for (struct Member *mem = ty->members; mem; mem = mem->next) {
@@ -188,6 +211,11 @@ static struct Type *struct_decl(struct Token **rest, struct Token *tok)
 				// It affects only alignment.
 				bits = align_to(bits, mem->ty->size * 8);
 
+			} else if (mem->is_packed) {
+				mem->offset = bits / 8;
+				mem->bit_offset = bits % 8;
+				bits += mem->bit_width;
+
 			} else {
 				int sz = mem->ty->size;
 
@@ -206,15 +234,10 @@ static struct Type *struct_decl(struct Token **rest, struct Token *tok)
 				bits += mem->bit_width;
 			}
 		} else {
-			if (!ty->is_packed)
-				bits = align_to(bits, mem->align * 8);
+			bits = align_to(bits, mem->align * 8);
 			mem->offset = bits / 8;
 			bits += mem->ty->size * 8;
 		}
-
-		// align of struct is max among each member's alignment
-		if (!ty->is_packed && ty->align < mem->align)
-			ty->align = mem->align;
 	}
 	ty->size = align_to(bits, ty->align * 8) / 8;
 
@@ -233,11 +256,14 @@ static struct Type *union_decl(struct Token **rest, struct Token *tok)
 	// If union, we don't have to assign offsets because they
 	// are already initialized to 0.
 	// We need to compute the alignment and the size though.
+	align_members(ty);
 	for (struct Member *mem = ty->members; mem; mem = mem->next) {
-		if (ty->align < mem->align)
-			ty->align = mem->align;
-		if (ty->size < mem->ty->size)
-			ty->size = mem->ty->size;
+		int sz = mem->ty->size;
+
+		if (mem->is_bitfield)
+			sz = align_to(mem->bit_width, 8) / 8;
+		if (ty->size < sz)
+			ty->size = sz;
 	}
 	ty->size = align_to(ty->size, ty->align);
 
diff --git a/parser/initializer.c b/parser/initializer.c
index fa381ca..847ae13 100644
--- a/parser/initializer.c
+++ b/parser/initializer.c
@@ -683,17 +683,15 @@ static void write_buf(char *buf, uint64_t val, int sz)
 		unreachable();
 }
 
-static uint64_t read_buf(const char *buf, int sz)
+// Write a bitfield bit by bit, because it may span units of its type.
+static void write_bitfield(char *loc, struct Member *mem, uint64_t val)
 {
-	if (sz == 1)
-		return *buf;
-	if (sz == 2)
-		return *(uint16_t *)buf;
-	if (sz == 4)
-		return *(uint32_t *)buf;
-	if (sz == 8)
-		return *(uint64_t *)buf;
-	unreachable();
+	for (int i = 0; i < mem->bit_width; i++) {
+		int pos = mem->bit_offset + i;
+
+		if (val >> i & 1)
+			loc[pos / 8] |= 1 << (pos % 8);
+	}
 }
 
 static struct Relocation *write_gvar_data(struct Relocation *cur,
@@ -716,14 +714,8 @@ static struct Relocation *write_gvar_data(struct Relocation *cur,
 				if (!expr)
 					continue;
 
-				char *loc = buf + offset + mem->offset;
-
-				uint64_t oldval = read_buf(loc, mem->ty->size);
-				uint64_t newval = eval(new_cast(expr, mem->ty));
-				uint64_t mask = -1UL >> (64 - mem->bit_width);
-				uint64_t combined = oldval | ((newval & mask) << mem->bit_offset);
-
-				write_buf(loc, combined, mem->ty->size);
+				write_bitfield(buf + offset + mem->offset, mem,
+					       eval(new_cast(expr, mem->ty)));
 			} else {
 				cur = write_gvar_data(cur, init->children[mem->idx],
 						mem->ty, buf, offset + mem->offset);
@@ -736,6 +728,15 @@ static struct Relocation *write_gvar_data(struct Relocation *cur,
 		// no handle and just leave it to caller
 		if (!init->mem)
 			return cur;
+
+		if (init->mem->is_bitfield) {
+			struct Node *expr = init->children[init->mem->idx]->expr;
+
+			if (expr)
+				write_bitfield(buf + offset, init->mem,
+					       eval(new_cast(expr, init->mem->ty)));
+			return cur;
+		}
 		return write_gvar_data(cur, init->children[init->mem->idx],
 					init->mem->ty, buf, offset);
 	}
diff --git a/toycc.h b/toycc.h
index 37c540a..9029975 100644
--- a/toycc.h
+++ b/toycc.h
@@ -124,10 +124,12 @@ struct Member {
 	struct Token *name;
 	int idx;
 	int align;
+	bool is_aligned;	// has an alignment specifier
 	int offset;
 
 	// Bitfield
 	bool is_bitfield;
+	bool is_packed;		// does not have to fit in a unit of its type
 	int bit_offset;
 	int bit_width;
 };
-- 
2.43.0


From eb519ad3d95727a58c203ca2aee7518bf2fd2b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:28 +0000
Subject: [PATCH 026/122] fix: do not pass structs of a pointer and a float in
 float registers

---
 codegen.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/codegen.c b/codegen.c
index 417e035..9929280 100644
--- a/codegen.c
+++ b/codegen.c
@@ -657,7 +657,9 @@ static bool flatten_struct(struct Type *ty, int offset,
 		return true;
 	}
 
-	if (ty->kind == TY_UNION || ty->kind == TY_LDOUBLE || *nr == 2)
+	// Pointers do not count as integers here.
+	if (ty->kind == TY_UNION || ty->kind == TY_LDOUBLE ||
+	    ty->kind == TY_PTR || *nr == 2)
 		return false;
 
 	piece[*nr].kind = is_float_arg(ty) ? PASS_FLOAT_REG : PASS_GENERIC_REG;
-- 
2.43.0


From 7c53015a9073d41114ce07e29c4c58545c777ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:05 +0000
Subject: [PATCH 027/122] fix: pass the bit-field of a struct without the float
 next to it

---
 codegen.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/codegen.c b/codegen.c
index 9929280..a913afa 100644
--- a/codegen.c
+++ b/codegen.c
@@ -645,6 +645,16 @@ static bool flatten_struct(struct Type *ty, int offset,
 				continue;
 			if (!flatten_struct(mem->ty, offset + mem->offset, piece, nr))
 				return false;
+
+			// A bitfield is passed without the rest of its unit.
+			if (mem->is_bitfield) {
+				struct ArgPiece *last = &piece[*nr - 1];
+
+				last->offset += mem->bit_offset / 8;
+				last->size = 1;
+				while (last->size * 8 < mem->bit_width)
+					last->size *= 2;
+			}
 		}
 		return true;
 	}
-- 
2.43.0


From 760919dccce145161259e2250f36edcea47ab354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:43 +0000
Subject: [PATCH 028/122] fix: pass over-aligned structs of floats in float
 registers

---
 codegen.c       | 27 ++++++++++++++++++++-------
 parser/parser.c |  2 +-
 toycc.h         |  1 +
 3 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/codegen.c b/codegen.c
index a913afa..d178683 100644
--- a/codegen.c
+++ b/codegen.c
@@ -684,8 +684,7 @@ static bool pass_by_float_reg(struct ArgState *st, struct Type *ty,
 {
 	int nr = 0, f = 0;
 
-	if (!is_float_arg(ty) &&
-	   (ty->kind != TY_STRUCT || ty->size > 2 * (int)sizeof(long)))
+	if (!is_float_arg(ty) && ty->kind != TY_STRUCT)
 		return false;
 
 	if (!flatten_struct(ty, 0, loc->piece, &nr))
@@ -756,6 +755,20 @@ static void locate_arg(struct ArgState *st, struct Type *ty,
 	}
 }
 
+// A struct or union is returned in memory if
+// it does not fit in the registers of the first argument.
+bool is_returned_by_ref(struct Type *ty)
+{
+	struct ArgState st = {};
+	struct ArgLoc loc;
+
+	if (!is_struct_union(ty))
+		return false;
+
+	locate_arg(&st, ty, false, &loc);
+	return loc.by_ref;
+}
+
 // rd = rs + offset
 static void add_offset(const char *rd, const char *rs, int offset)
 {
@@ -913,7 +926,7 @@ static void push_args2(struct Node *args, struct ArgLoc *loc, int base)
 
 static bool is_ret_by_ref(struct Node *node)
 {
-	return node->ret_buffer && node->ty->size > 2 * (int)sizeof(long);
+	return node->ret_buffer && is_returned_by_ref(node->ty);
 }
 
 // Load function call arguments to registers or the stack.
@@ -1431,7 +1444,7 @@ static void gen_expr(struct Node *node)
 
 		// If the return type is a small struct, a value is returned
 		// using up to two registers.
-		if (node->ret_buffer && node->ty->size <= 2 * (int)sizeof(long)) {
+		if (node->ret_buffer && !is_returned_by_ref(node->ty)) {
 			copy_ret_buffer(node->ret_buffer);
 			debug("mv struct's pointer to a0");
 			add_offset("a0", "fp", node->ret_buffer->offset);
@@ -1849,10 +1862,10 @@ static void gen_stmt(struct Node *node)
 
 			struct Type *ty = node->lhs->ty;
 			if (is_struct_union(ty)) {
-				if (ty->size <= (int)sizeof(long) * 2)
-					copy_struct_reg();
-				else
+				if (is_returned_by_ref(ty))
 					copy_struct_mem();
+				else
+					copy_struct_reg();
 			}
 		}
 		println("\tj return.%s", current_fn->name);
diff --git a/parser/parser.c b/parser/parser.c
index af4b45e..6e83d72 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -1551,7 +1551,7 @@ static struct Token *function(struct Token *tok, struct Type *basety,
 	// A buffer for a struct/union return value is passed
 	// as the hidden first parameter.
 	struct Type *rty = ty->return_ty;
-	if (is_struct_union(rty) && rty->size > 2 * (int)sizeof(long))
+	if (is_returned_by_ref(rty))
 		new_lvar("", pointer_to(rty));
 
 	fn->params = ret_locals();
diff --git a/toycc.h b/toycc.h
index 9029975..da0f7b7 100644
--- a/toycc.h
+++ b/toycc.h
@@ -319,6 +319,7 @@ struct Obj *parser(struct Token *tok);
 // codegen.c
 void codegen(struct Obj *prog, FILE *out);
 int align_to(int n, int align);
+bool is_returned_by_ref(struct Type *ty);
 void ld_to_binary128(long double val, uint64_t *quad);
 
 // utils.c
-- 
2.43.0


From 1c20592e4033fd88b9e6b4e83138030d612e4cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:56 +0000
Subject: [PATCH 029/122] fix: accept arrays of pointers whose elided braces
 start with a string

---
 parser/initializer.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser/initializer.c b/parser/initializer.c
index 847ae13..e8dc1da 100644
--- a/parser/initializer.c
+++ b/parser/initializer.c
@@ -457,7 +457,10 @@ static void union_initializer(struct Token **rest, struct Token *tok,
 static void initializer2(struct Token **rest, struct Token *tok,
 			 struct Initializer *init)
 {
-	if (init->ty->kind == TY_ARRAY && tok->kind == TK_STR) {
+	// An array of another type may start with an element that
+	// begins with a string, e.g. `char *x[][2] = {"a", "b"};`.
+	if (init->ty->kind == TY_ARRAY && is_integer(init->ty->base) &&
+	    tok->kind == TK_STR && !equal(tok->next, "[")) {
 		string_initializer(rest, tok, init);
 		return;
 	}
-- 
2.43.0


From 2dcd11f8723198ecf333166bcea8c19e3abc133f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:42 +0000
Subject: [PATCH 030/122] fix: let designators override a struct or union
 expression

---
 parser/initializer.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/initializer.c b/parser/initializer.c
index e8dc1da..3c0bd53 100644
--- a/parser/initializer.c
+++ b/parser/initializer.c
@@ -220,6 +220,7 @@ static void designation(struct Token **rest, struct Token *tok, struct Initializ
 	if (equal(tok, ".") && init->ty->kind == TY_UNION) {
 		struct Member *mem = struct_designator(&tok, tok, init->ty);
 		init->mem = mem;
+		init->expr = NULL;
 
 		designation(rest, tok, init->children[mem->idx]);
 		return;
@@ -482,6 +483,8 @@ static void initializer2(struct Token **rest, struct Token *tok,
 		return;
 	}
 
+	init->expr = NULL;
+
 	if (init->ty->kind == TY_STRUCT) {
 		if (equal(tok, "{")) {
 			struct_initializer1(rest, tok, init);
-- 
2.43.0


From 6516b609383a6f9b19b898bb8a5dba317263bd38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:50 +0000
Subject: [PATCH 031/122] fix: accept underscores in pp-numbers

---
 tokenize.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tokenize.c b/tokenize.c
index 93dbddb..5c9f595 100644
--- a/tokenize.c
+++ b/tokenize.c
@@ -619,7 +619,7 @@ struct Token *tokenize(struct File *file)
 					strchr("eEpP", p[0]) &&
 					strchr("+-", p[1]))
 					p += 2;
-				else if (isalnum(*p) || *p == '.')
+				else if (isalnum(*p) || *p == '_' || *p == '.')
 					p++;
 				else
 					break;
-- 
2.43.0


From b1d8744b06a790a47fd05507ffaa73e886662f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:03 +0000
Subject: [PATCH 032/122] fix: skip the extra tokens behind preprocessing
 directives

---
 preprocessor/preprocess.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preprocessor/preprocess.c b/preprocessor/preprocess.c
index f2c9eae..2a5c254 100644
--- a/preprocessor/preprocess.c
+++ b/preprocessor/preprocess.c
@@ -67,7 +67,7 @@ static struct Token *skip_line(struct Token *tok)
 		return tok;
 
 	warn_tok(tok, "extra token");
-	while (tok->at_bol)
+	while (!tok->at_bol && tok->kind != TK_EOF)
 		tok = tok->next;
 	return tok;
 }
-- 
2.43.0


From d1eb6c6ae35025e634694e93a4a03e0e0b94147b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:16 +0000
Subject: [PATCH 033/122] fix: do not take files with text outside the guard
 for guarded

---
 preprocessor/preprocess.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/preprocessor/preprocess.c b/preprocessor/preprocess.c
index 2a5c254..44199f9 100644
--- a/preprocessor/preprocess.c
+++ b/preprocessor/preprocess.c
@@ -918,11 +918,17 @@ static const char *detect_include_guard(struct Token *tok)
 			continue;
 		}
 
-		if (equal(tok->next, "endif") && tok->next->next->kind == TK_EOF)
-			return macro;
+		// The `#endif` of the guard must be the end of the file.
+		if (equal(tok->next, "endif"))
+			return tok->next->next->kind == TK_EOF ? macro : NULL;
 
-		if (equal(tok, "if") || equal(tok, "ifdef") || equal(tok, "ifndef"))
-			tok = skip_cond_incl(tok->next);
+		if (equal(tok->next, "elif") || equal(tok->next, "else"))
+			return NULL;
+
+		if (equal(tok->next, "if") ||
+		    equal(tok->next, "ifdef") ||
+		    equal(tok->next, "ifndef"))
+			tok = skip_cond_incl2(tok->next->next);
 		else
 			tok = tok->next;
 	}
-- 
2.43.0


From 67b2949896ab29c197d55512431fde5a0449f1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:27 +0000
Subject: [PATCH 034/122] fix: search #include_next files behind the directory
 of the current file

---
 preprocessor/preprocess.c | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/preprocessor/preprocess.c b/preprocessor/preprocess.c
index 44199f9..aa09b0f 100644
--- a/preprocessor/preprocess.c
+++ b/preprocessor/preprocess.c
@@ -52,7 +52,9 @@ struct CondIncl {
 static struct HashMap macros;
 static struct CondIncl *cond_incl;
 static struct HashMap pragma_once;
-static int include_next_idx;
+// Maps the path of an included file to the index of the include path
+// behind the one it was found in
+static struct HashMap include_next_idx;
 
 static bool is_hash(struct Token *tok)
 {
@@ -980,20 +982,24 @@ const char *search_include_paths(const char *filename)
 			continue;
 
 		hashmap_put(&cache, filename, (void *)path);
-		include_next_idx = i + 1;
+		hashmap_put(&include_next_idx, path, (void *)(long)(i + 1));
 		return path;
 	}
 	return NULL;
 }
 
-static const char *search_include_next(const char *filename)
+// Search the include paths behind the one the current file was found in.
+static const char *search_include_next(const char *filename, const char *current)
 {
-	for (; include_next_idx < get_include_paths()->len; include_next_idx++) {
-		const char *path = format("%s/%s",
-					   get_include_paths()->data[include_next_idx],
-					   filename);
-		if (file_exists(path))
-			return path;
+	int i = (long)hashmap_get(&include_next_idx, current);
+
+	for (; i < get_include_paths()->len; i++) {
+		const char *path = format("%s/%s", get_include_paths()->data[i], filename);
+		if (!file_exists(path))
+			continue;
+
+		hashmap_put(&include_next_idx, path, (void *)(long)(i + 1));
+		return path;
 	}
 	return NULL;
 }
@@ -1068,7 +1074,7 @@ static struct Token *preprocess2(struct Token *tok)
 		if (equal(tok, "include_next")) {
 			bool ignore;
 			const char *filename = read_include_filename(&tok, tok->next, &ignore);
-			const char *path = search_include_next(filename);
+			const char *path = search_include_next(filename, start->file->name);
 
 			tok = include_file(tok, path ? path : filename, start->next->next);
 			continue;
-- 
2.43.0


From 4dc8b4c5edb024a3951a8e861c8d510771d64ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:02 +0000
Subject: [PATCH 035/122] fix: expand macro arguments once and keep them as
 written for # and ##

---
 preprocessor/preprocess.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/preprocessor/preprocess.c b/preprocessor/preprocess.c
index aa09b0f..248fc7c 100644
--- a/preprocessor/preprocess.c
+++ b/preprocessor/preprocess.c
@@ -40,6 +40,7 @@ struct MacroArg {
 	const char *name;	// the name points to parameter's name
 	bool is_va_args;
 	struct Token *tok;
+	struct Token *expanded;	// completely macro-expanded tok
 };
 
 struct CondIncl {
@@ -529,6 +530,16 @@ static struct Token *paste(struct Token *lhs, struct Token *rhs)
 	return tok;
 }
 
+// Macro-expand an argument. The tokens of the argument itself are left
+// alone because # and ## need them as they were written.
+static struct Token *expand_arg(struct MacroArg *arg)
+{
+	if (!arg->expanded)
+		arg->expanded = preprocess2(append(arg->tok, new_eof(arg->tok)));
+
+	return arg->expanded;
+}
+
 // check macro's arguments for __VA_ARGS__
 static bool has_varargs(struct MacroArg *args)
 {
@@ -660,7 +671,8 @@ static struct Token *subst(struct Token *tok, struct MacroArg *args)
 		// before they are substituted into a macro body.
 		if (arg) {
 			// expand the macro
-			struct Token *t = preprocess2(arg->tok);
+			struct Token *t = copy_token(expand_arg(arg));
+			t->next = arg->expanded->next;
 			t->at_bol = tok->at_bol;
 			t->has_space = tok->has_space;
 
-- 
2.43.0


From f99365057870f2a002ae5a6533b3daa6d1c8e821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:35 +0000
Subject: [PATCH 036/122] fix: apply ## in object-like macros

---
 preprocessor/preprocess.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/preprocessor/preprocess.c b/preprocessor/preprocess.c
index 248fc7c..ce8ff9e 100644
--- a/preprocessor/preprocess.c
+++ b/preprocessor/preprocess.c
@@ -553,14 +553,14 @@ static bool has_varargs(struct MacroArg *args)
 }
 
 // Replace func-like macro parameters with given arguments.
-static struct Token *subst(struct Token *tok, struct MacroArg *args)
+static struct Token *subst(struct Token *tok, struct MacroArg *args, bool is_objlike)
 {
 	struct Token head = {};
 	struct Token *cur = &head;
 
 	while (tok->kind != TK_EOF) {
 		// "#" followed by a parameter is replaced with stringized actuals.
-		if (equal(tok, "#")) {
+		if (equal(tok, "#") && !is_objlike) {
 			struct MacroArg *arg = find_arg(args, tok->next);
 			if (!arg)
 				error_tok(tok->next, "'#' is not followed by a macro parameter");
@@ -722,7 +722,7 @@ static bool expand_macro(struct Token **rest, struct Token *tok)
 	if (m->is_objlike) {
 		// add macro to the tok's hideset
 		struct Hideset *hs = hideset_union(tok->hideset, new_hideset(m->name));
-		struct Token *body = add_hideset(m->body, hs);
+		struct Token *body = add_hideset(subst(m->body, NULL, true), hs);
 
 		for (struct Token *t = body; t->kind != TK_EOF; t = t->next)
 			t->origin = tok;
@@ -756,7 +756,7 @@ static bool expand_macro(struct Token **rest, struct Token *tok)
 	// add self into hide-set
 	hs = hideset_union(hs, new_hideset(m->name));
 
-	struct Token *body = subst(m->body, args);
+	struct Token *body = subst(m->body, args, false);
 	body = add_hideset(body, hs);
 
 	for (struct Token *t = body; t->kind != TK_EOF; t = t->next)
-- 
2.43.0


From c09e4ba41b9c8264e3d98c7b6af4e5e35f14ecd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:48 +0000
Subject: [PATCH 037/122] fix: substitute the macro parameters in __VA_OPT__()

---
 preprocessor/preprocess.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/preprocessor/preprocess.c b/preprocessor/preprocess.c
index ce8ff9e..ecb4814 100644
--- a/preprocessor/preprocess.c
+++ b/preprocessor/preprocess.c
@@ -546,7 +546,7 @@ static bool has_varargs(struct MacroArg *args)
 	for (struct MacroArg *ap = args; ap; ap = ap->next) {
 		if (!strcmp(ap->name, "__VA_ARGS__")) {
 			// check the first argument
-			return ap->tok->kind != TK_EOF;
+			return expand_arg(ap)->kind != TK_EOF;
 		}
 	}
 	return false;
@@ -659,7 +659,8 @@ static struct Token *subst(struct Token *tok, struct MacroArg *args, bool is_obj
 			// check macro's arguments for __VA_ARGS__
 			if (has_varargs(args))
 				// expand and insert into token list
-				for (struct Token *t = arg_x->tok; t->kind != TK_EOF; t = t->next)
+				for (struct Token *t = subst(arg_x->tok, args, is_objlike);
+				     t->kind != TK_EOF; t = t->next)
 					cur = cur->next = t;
 
 			tok = skip(tok, ")");
-- 
2.43.0


From 0f034e79ac57be2cf09d6a855fd4395ee078d18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:02 +0000
Subject: [PATCH 038/122] fix: recognize directives whatever macros the line
 before ends with

---
 preprocessor/preprocess.c | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/preprocessor/preprocess.c b/preprocessor/preprocess.c
index ecb4814..14ada9d 100644
--- a/preprocessor/preprocess.c
+++ b/preprocessor/preprocess.c
@@ -59,7 +59,8 @@ static struct HashMap include_next_idx;
 
 static bool is_hash(struct Token *tok)
 {
-	return tok->at_bol && equal(tok, "#");
+	// A "#" that results from a macro doesn't start a directive.
+	return tok->at_bol && !tok->origin && equal(tok, "#");
 }
 
 // Some preprocessor directives such as #include allow extraneous
@@ -698,6 +699,23 @@ static struct Token *subst(struct Token *tok, struct MacroArg *args, bool is_obj
 	return head.next;
 }
 
+// Replace the macro invocation from tok up to next with body.
+static struct Token *replace_macro(struct Token *tok, struct Token *body,
+				   struct Token *next)
+{
+	if (body->kind == TK_EOF) {
+		// The next token is still where it was.
+		if (tok->at_bol || tok->has_space)
+			next->has_space = true;
+		return next;
+	}
+
+	body = append(body, next);
+	body->at_bol = tok->at_bol;
+	body->has_space = tok->has_space;
+	return body;
+}
+
 // If tok is a macro, expand it and return true.
 // Otherwise, do nothing and return false.
 static bool expand_macro(struct Token **rest, struct Token *tok)
@@ -728,10 +746,7 @@ static bool expand_macro(struct Token **rest, struct Token *tok)
 		for (struct Token *t = body; t->kind != TK_EOF; t = t->next)
 			t->origin = tok;
 
-		*rest = append(body, tok->next);
-		(*rest)->at_bol = tok->at_bol;
-		(*rest)->has_space = tok->has_space;
-
+		*rest = replace_macro(tok, body, tok->next);
 		return true;
 	}
 
@@ -763,10 +778,7 @@ static bool expand_macro(struct Token **rest, struct Token *tok)
 	for (struct Token *t = body; t->kind != TK_EOF; t = t->next)
 		t->origin = macro_token;
 
-	*rest = append(body, tok->next);
-	(*rest)->at_bol = macro_token->at_bol;
-	(*rest)->has_space = macro_token->has_space;
-
+	*rest = replace_macro(macro_token, body, tok->next);
 	return true;
 }
 
-- 
2.43.0


From 88909f3096f6d1922435ff955f011cc0addb8b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:15 +0000
Subject: [PATCH 039/122] fix: keep the white space between tokens for the #
 operator

---
 preprocessor/preprocess.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/preprocessor/preprocess.c b/preprocessor/preprocess.c
index 14ada9d..9cf2fc2 100644
--- a/preprocessor/preprocess.c
+++ b/preprocessor/preprocess.c
@@ -452,7 +452,7 @@ static const char *join_tokens(struct Token *tok, struct Token *end)
 	// Compute the length of the resulting token.
 	int len = 1;
 	for (struct Token *t = tok; t != end && t->kind != TK_EOF; t = t->next) {
-		if (t != tok && t->has_space)
+		if (t != tok && (t->has_space || t->at_bol))
 			len++;
 		len += t->len;
 	}
@@ -462,7 +462,7 @@ static const char *join_tokens(struct Token *tok, struct Token *end)
 	// Copy token texts.
 	int pos = 0;
 	for (struct Token *t = tok; t != end && t->kind != TK_EOF; t = t->next) {
-		if (t != tok && t->has_space)
+		if (t != tok && (t->has_space || t->at_bol))
 			buf[pos++] = ' ';
 
 		strncpy(buf + pos, t->loc, t->len);
@@ -512,7 +512,11 @@ static struct Token *stringize(struct Token *hash, struct Token *arg)
 	// source location for error reporting function, so we use a macro
 	// name token as a template.
 	const char *s = join_tokens(arg, NULL);
-	return new_str_token(s, hash);
+	struct Token *tok = new_str_token(s, hash);
+
+	tok->at_bol = hash->at_bol;
+	tok->has_space = hash->has_space;
+	return tok;
 }
 
 // Concatenate two tokens to create a new token.
@@ -528,6 +532,8 @@ static struct Token *paste(struct Token *lhs, struct Token *rhs)
 	if (tok->next->kind != TK_EOF)
 		error_tok(lhs, "pasting forms '%s', an invalid token", buf);
 
+	tok->at_bol = lhs->at_bol;
+	tok->has_space = lhs->has_space;
 	return tok;
 }
 
@@ -733,6 +739,8 @@ static bool expand_macro(struct Token **rest, struct Token *tok)
 	// Built-in dynamic macro application such as __FILE__ & __LINE__
 	if (m->handler) {
 		*rest = m->handler(tok);
+		(*rest)->at_bol = tok->at_bol;
+		(*rest)->has_space = tok->has_space;
 		(*rest)->next = tok->next;
 		return true;
 	}
-- 
2.43.0


From e79eab6112199920efe44d7f6d9294c972d68c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:03 +0000
Subject: [PATCH 040/122] fix: do not expand the arguments of ,##__VA_ARGS__
 before substitution

---
 preprocessor/preprocess.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/preprocessor/preprocess.c b/preprocessor/preprocess.c
index 9cf2fc2..9d77ba2 100644
--- a/preprocessor/preprocess.c
+++ b/preprocessor/preprocess.c
@@ -586,15 +586,16 @@ static struct Token *subst(struct Token *tok, struct MacroArg *args, bool is_obj
 
 			if (arg && arg->is_va_args) {
 				// macro's arguments
-				if (arg->tok->kind == TK_EOF) {
-					// just ignore
-					tok = tok->next->next->next;
-
-				} else {
-					// point to __VA_ARGS__
+				// just ignore the comma if there are none
+				if (arg->tok->kind != TK_EOF) {
+					// As an operand of ##, __VA_ARGS__
+					// is not macro-expanded.
 					cur = cur->next = copy_token(tok);
-					tok = tok->next->next;
+					for (struct Token *t = arg->tok; t->kind != TK_EOF; t = t->next)
+						cur = cur->next = copy_token(t);
 				}
+
+				tok = tok->next->next->next;
 				continue;
 			}
 		}
-- 
2.43.0


From d8a26198e85e2588392afbf39dcd5beef90eb5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:17 +0000
Subject: [PATCH 041/122] fix: do not take the line behind a null directive for
 a directive

---
 preprocessor/preprocess.c | 37 ++++++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/preprocessor/preprocess.c b/preprocessor/preprocess.c
index 9d77ba2..96a74ff 100644
--- a/preprocessor/preprocess.c
+++ b/preprocessor/preprocess.c
@@ -63,6 +63,12 @@ static bool is_hash(struct Token *tok)
 	return tok->at_bol && !tok->origin && equal(tok, "#");
 }
 
+// Returns true if tok starts the directive of a given name.
+static bool is_directive(struct Token *tok, const char *name)
+{
+	return is_hash(tok) && !tok->next->at_bol && equal(tok->next, name);
+}
+
 // Some preprocessor directives such as #include allow extraneous
 // tokens before newline. This function skips such tokens.
 static struct Token *skip_line(struct Token *tok)
@@ -231,15 +237,14 @@ static struct CondIncl *push_cond_incl(struct Token *tok, bool included)
 static struct Token *skip_cond_incl2(struct Token *tok)
 {
 	while (tok->kind != TK_EOF) {
-		if (is_hash(tok) &&
-		   (equal(tok->next, "if") ||
-		    equal(tok->next, "ifdef") ||
-		    equal(tok->next, "ifndef"))) {
+		if (is_directive(tok, "if") ||
+		    is_directive(tok, "ifdef") ||
+		    is_directive(tok, "ifndef")) {
 			tok = skip_cond_incl2(tok->next->next);
 			continue;
 		}
 
-		if (is_hash(tok) && equal(tok->next, "endif"))
+		if (is_directive(tok, "endif"))
 			return tok->next->next;
 
 		tok = tok->next;
@@ -252,19 +257,17 @@ static struct Token *skip_cond_incl2(struct Token *tok)
 static struct Token *skip_cond_incl(struct Token *tok)
 {
 	while (tok->kind != TK_EOF) {
-		if (is_hash(tok) &&
-		   (equal(tok->next, "if") ||
-		    equal(tok->next, "ifdef") ||
-		    equal(tok->next, "ifndef"))) {
+		if (is_directive(tok, "if") ||
+		    is_directive(tok, "ifdef") ||
+		    is_directive(tok, "ifndef")) {
 			tok = skip_cond_incl2(tok->next->next);
 			continue;
 		}
 
 		// end with #else or #endif
-		if (is_hash(tok) &&
-		   (equal(tok->next, "elif") ||
-		    equal(tok->next, "else") ||
-		    equal(tok->next, "endif")))
+		if (is_directive(tok, "elif") ||
+		    is_directive(tok, "else") ||
+		    is_directive(tok, "endif"))
 			break;
 
 		tok = tok->next;
@@ -1086,6 +1089,10 @@ static struct Token *preprocess2(struct Token *tok)
 		struct Token *start = tok;
 		tok = tok->next;
 
+		// `#`-only line is legal. It's called a null directive.
+		if (tok->at_bol)
+			continue;
+
 		if (equal(tok, "include")) {
 			bool is_dquote;
 			const char *filename =
@@ -1224,10 +1231,6 @@ static struct Token *preprocess2(struct Token *tok)
 		if (equal(tok, "error"))
 			error_tok(tok, "error");
 
-		// `#`-only line is legal. It's called a null directive.
-		if (tok->at_bol)
-			continue;
-
 		error_tok(tok, "invalid preprocessor directive");
 	}
 
-- 
2.43.0


From 73ce0363ff7237b641304597c84304d460291c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:31 +0000
Subject: [PATCH 042/122] fix: keep the tokens of -E output apart

---
 main.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/main.c b/main.c
index 9d40ae3..41d7d41 100644
--- a/main.c
+++ b/main.c
@@ -468,16 +468,21 @@ static void print_tokens(struct Token *tok)
 {
 	FILE *out = open_file(opt_o ? opt_o : "-");
 	bool first_line = true;
+	struct Token *prev = NULL;
 
 	for (; tok->kind != TK_EOF; tok = tok->next) {
 		if (!first_line && tok->at_bol)
 			fprintf(out, "\n");
 
-		if (tok->has_space && !tok->at_bol)
+		// Tokens that were not written next to each other must not
+		// be read as one token.
+		if (!first_line && !tok->at_bol &&
+		    (tok->has_space || tok->loc != prev->loc + prev->len))
 			fprintf(out, " ");
 		fprintf(out, "%.*s", (int)tok->len, tok->loc);
 
 		first_line = false;
+		prev = tok;
 	}
 	fprintf(out, "\n");
 }
-- 
2.43.0


From f04f9e9827338e63bab6362ebdb9b375cdc48cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:59 +0000
Subject: [PATCH 043/122] fix: accept #line within conditional groups

---
 preprocessor/preprocess.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/preprocessor/preprocess.c b/preprocessor/preprocess.c
index 96a74ff..ce943f4 100644
--- a/preprocessor/preprocess.c
+++ b/preprocessor/preprocess.c
@@ -1045,7 +1045,8 @@ static const char *search_include_next(const char *filename, const char *current
 static void read_line_marker(struct Token **rest, struct Token *tok)
 {
 	struct Token *start = tok;
-	tok = preprocessor(copy_line(rest, tok));
+	tok = preprocess2(copy_line(rest, tok));
+	convert_pp_tokens(tok);
 
 	if (tok->kind != TK_NUM || tok->ty->kind != TY_INT)
 		error_tok(tok, "invalid line marker");
-- 
2.43.0


From e421ce4391e2112273949e8a4ef4318bc7bdc5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:33 +0000
Subject: [PATCH 044/122] fix: print adjacent string literals and all numbers
 with -E

---
 main.c                    | 1 +
 preprocessor/preprocess.c | 8 +++++++-
 toycc.h                   | 1 +
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/main.c b/main.c
index 41d7d41..cb00643 100644
--- a/main.c
+++ b/main.c
@@ -611,6 +611,7 @@ static void cc1(void)
 		return;
 	}
 
+	tok = postprocess(tok);
 	struct Obj *prog = parser(tok);
 
 	// Open a temporary output buffer.
diff --git a/preprocessor/preprocess.c b/preprocessor/preprocess.c
index ce943f4..8b0bc7b 100644
--- a/preprocessor/preprocess.c
+++ b/preprocessor/preprocess.c
@@ -1354,6 +1354,12 @@ struct Token *preprocessor(struct Token *tok)
 	if (cond_incl)
 		error_tok(cond_incl->tok, "unterminated conditional directive");
 
+	return tok;
+}
+
+// Convert the preprocessing tokens into tokens
+struct Token *postprocess(struct Token *tok)
+{
 	// pp-number:
 	// After all replacements due to macro expansion and
 	// the defined unary operator have been performed,
@@ -1368,4 +1374,4 @@ struct Token *preprocessor(struct Token *tok)
 		t->line_no += t->line_delta;
 
 	return tok;
-};
+}
diff --git a/toycc.h b/toycc.h
index da0f7b7..433ab0e 100644
--- a/toycc.h
+++ b/toycc.h
@@ -139,6 +139,7 @@ void init_macros(void);
 void define_macro(const char *name, const char *buf);
 void undef_macro(const char *name);
 struct Token *preprocessor(struct Token *tok);
+struct Token *postprocess(struct Token *tok);
 bool file_exists(const char *path);
 const char *search_include_paths(const char *filename);
 
-- 
2.43.0


From 9a4bd443587dadc7a79f5163329d1a28afd84fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:24 +0000
Subject: [PATCH 045/122] fix: do not take a ( on the next line for the
 parameters of an empty macro

---
 preprocessor/preprocess.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preprocessor/preprocess.c b/preprocessor/preprocess.c
index 8b0bc7b..7abeb09 100644
--- a/preprocessor/preprocess.c
+++ b/preprocessor/preprocess.c
@@ -859,7 +859,7 @@ static void read_macro_definition(struct Token **rest, struct Token *tok)
 	const char *name = strndup(tok->loc, tok->len);
 	tok = tok->next;
 
-	if (!tok->has_space && equal(tok, "(")) {
+	if (!tok->at_bol && !tok->has_space && equal(tok, "(")) {
 		// function-like macro
 		const char *va_args_name = NULL;
 		struct MacroParam *params = read_macro_params(&tok, tok->next, &va_args_name);
-- 
2.43.0


From 333608704f12b11e3932461bbc21a2e48794686b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:59 +0000
Subject: [PATCH 046/122] fix: do not insert a key twice when a deleted entry
 precedes it

---
 hashmap.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/hashmap.c b/hashmap.c
index 4947695..ba7646a 100644
--- a/hashmap.c
+++ b/hashmap.c
@@ -92,6 +92,7 @@ static struct HashEntry *get_or_insert_entry(struct HashMap *map, const char *ke
 	}
 
 	uint64_t hash = fnv_hash(key, keylen);
+	struct HashEntry *tombstone = NULL;
 
 	for (int i = 0; i < map->capacity; i++) {
 		struct HashEntry *ent = &map->buckets[(hash + i) % map->capacity];
@@ -99,16 +100,18 @@ static struct HashEntry *get_or_insert_entry(struct HashMap *map, const char *ke
 		if (match(ent, key, keylen))
 			return ent;
 
-		if (ent->key == TOMBSTONE) {
-			ent->key = key;
-			ent->keylen = keylen;
-			return ent;
-		}
+		// The key may still follow behind a deleted entry.
+		if (ent->key == TOMBSTONE && !tombstone)
+			tombstone = ent;
 
 		if (ent->key == NULL) {
+			if (tombstone)
+				ent = tombstone;
+			else
+				map->used++;
+
 			ent->key = key;
 			ent->keylen = keylen;
-			map->used++;
 			return ent;
 		}
 
-- 
2.43.0


From 5748b7d6e6ab69428b5cb6089e3dbdfa88b7c404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:52 +0000
Subject: [PATCH 047/122] fix: apply #pragma once to a file whatever its path
 is

---
 preprocessor/preprocess.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/preprocessor/preprocess.c b/preprocessor/preprocess.c
index 7abeb09..3d04c6c 100644
--- a/preprocessor/preprocess.c
+++ b/preprocessor/preprocess.c
@@ -974,11 +974,20 @@ static const char *detect_include_guard(struct Token *tok)
 	return NULL;
 }
 
+// Returns a name that is the same for all paths to a file.
+static const char *file_id(const char *path)
+{
+	struct stat st;
+	if (stat(path, &st))
+		return path;
+	return format("%ld:%ld", (long)st.st_dev, (long)st.st_ino);
+}
+
 static struct Token *include_file(struct Token *tok, const char *path,
 				  struct Token *filename_tok)
 {
 	// Check for "#pragma once"
-	if (hashmap_get(&pragma_once, path))
+	if (hashmap_get(&pragma_once, file_id(path)))
 		return tok;
 
 	// If we read the same file before, and if the file was guarded
@@ -1217,7 +1226,7 @@ static struct Token *preprocess2(struct Token *tok)
 
 		if (equal(tok, "pragma") && equal(tok->next, "once")) {
 			// put current file name into pragma_once
-			hashmap_put(&pragma_once, tok->file->name, (void *)1);
+			hashmap_put(&pragma_once, file_id(tok->file->name), (void *)1);
 			tok = skip_line(tok->next->next);
 			continue;
 		}
-- 
2.43.0


From a5bd17aa1c2b94f08ed9b6215cbdfe0844a1d152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:06:08 +0000
Subject: [PATCH 048/122] fix: search include directories in the order of -I,
 standard, -idirafter

---
 main.c | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/main.c b/main.c
index cb00643..cc67076 100644
--- a/main.c
+++ b/main.c
@@ -30,6 +30,7 @@ static struct StringArray include_paths;
 static struct StringArray opt_include;
 static struct StringArray ld_extra_args;
 static struct StringArray std_include_paths;
+static struct StringArray idirafter;
 
 static bool opt_fcommon = true;
 static bool opt_fpic;
@@ -161,8 +162,6 @@ static void parse_args(int argc, const char **argv)
 			if (!argv[++i])
 				usage(1);
 
-	struct StringArray idirafter = {};
-
 	for (i = 1; i < argc; i++) {
 		if (!strcmp(argv[i], "-###")) {
 			opt_hash_hash_hash = true;
@@ -212,6 +211,11 @@ static void parse_args(int argc, const char **argv)
 			continue;
 		}
 
+		if (!strcmp(argv[i], "-I")) {
+			strarray_push(&include_paths, argv[++i]);
+			continue;
+		}
+
 		if (!strncmp(argv[i], "-I", 2)) {
 			strarray_push(&include_paths, argv[i] + 2);
 			continue;
@@ -330,7 +334,7 @@ static void parse_args(int argc, const char **argv)
 		}
 
 		if (!strcmp(argv[i], "-idirafter")) {
-			strarray_push(&idirafter, argv[i++]);
+			strarray_push(&idirafter, argv[++i]);
 			continue;
 		}
 
@@ -389,9 +393,6 @@ static void parse_args(int argc, const char **argv)
 		strarray_push(&input_paths, argv[i]);
 	}
 
-	for (int i = 0; i < idirafter.len; i++)
-		strarray_push(&include_paths, idirafter.data[i]);
-
 	if (input_paths.len == 0)
 		error("no input files");
 
@@ -788,18 +789,21 @@ static void add_default_include_paths(const char *argv0)
 {
 	// We expect that toycc-specific include files
 	// are installed to ./include relative to argv[0].
-	strarray_push(&include_paths,
+	strarray_push(&std_include_paths,
 		      format("%s/include", dirname(strdup(argv0))));
 
-	// Add standard include paths.
-	strarray_push(&include_paths, "/usr/local/include");
-	strarray_push(&include_paths, "/usr/riscv64-linux-gnu/include");
-	strarray_push(&include_paths, "/usr/include/riscv64-linux-gnu");
-	strarray_push(&include_paths, "/usr/include");
+	// Add standard include paths. They are kept for -MMD option.
+	strarray_push(&std_include_paths, "/usr/local/include");
+	strarray_push(&std_include_paths, "/usr/riscv64-linux-gnu/include");
+	strarray_push(&std_include_paths, "/usr/include/riscv64-linux-gnu");
+	strarray_push(&std_include_paths, "/usr/include");
 
-	// Keep a copy of the standard include paths for -MMD option.
-	for (int i = 0; i < include_paths.len; i++)
-		strarray_push(&std_include_paths, include_paths.data[i]);
+	// The standard include paths are searched between those of -I
+	// and those of -idirafter.
+	for (int i = 0; i < std_include_paths.len; i++)
+		strarray_push(&include_paths, std_include_paths.data[i]);
+	for (int i = 0; i < idirafter.len; i++)
+		strarray_push(&include_paths, idirafter.data[i]);
 }
 
 static enum FileType get_file_type(const char *filename)
@@ -832,8 +836,8 @@ int main(int argc, const char **argv)
 
 	atexit(cleanup);
 	init_macros();
-	add_default_include_paths(argv[0]);
 	parse_args(argc, argv);
+	add_default_include_paths(argv[0]);
 
 	if (opt_cc1) {
 		cc1();
-- 
2.43.0


From c3d968ba3801d57f90b6ff3134963f32306d225e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:51 +0000
Subject: [PATCH 049/122] fix: do not define __CHAR_UNSIGNED__, char is signed

---
 preprocessor/predefined_macro.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/preprocessor/predefined_macro.c b/preprocessor/predefined_macro.c
index 5dc4c24..e404ed3 100644
--- a/preprocessor/predefined_macro.c
+++ b/preprocessor/predefined_macro.c
@@ -128,7 +128,6 @@ void init_macros(void)
 	define_macro("__UINTMAX_TYPE__", "long unsigned int");
 	define_macro("__linux", "1");
 	define_macro("__FLT_EVAL_METHOD_TS_18661_3__", "0");
-	define_macro("__CHAR_UNSIGNED__", "1");
 	define_macro("__UINT32_MAX__", "0xffffffffU");
 	define_macro("__riscv_fdiv", "1");
 	define_macro("__LDBL_MAX_EXP__", "16384");
-- 
2.43.0


From 39853ce125756f444a3d0e0faeb4371b525ea8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:46 +0000
Subject: [PATCH 050/122] fix: describe float, long double, wchar_t and
 max_align_t as they are in float.h and stddef.h

---
 include/float.h  | 32 +++++++++++++++++---------------
 include/stddef.h |  4 ++--
 2 files changed, 19 insertions(+), 17 deletions(-)

diff --git a/include/float.h b/include/float.h
index 6c53cdc..133e4d6 100644
--- a/include/float.h
+++ b/include/float.h
@@ -1,21 +1,21 @@
 #ifndef __STDFLOAT_H
 #define __STDFLOAT_H
 
-#define DECIMAL_DIG 21
+#define DECIMAL_DIG 36
 #define FLT_EVAL_METHOD 0 // C11 5.2.4.2.2p9
 #define FLT_RADIX 2
 #define FLT_ROUNDS 1      // C11 5.2.4.2.2p8: to nearest
 
 #define FLT_DIG 6
-#define FLT_EPSILON 0x1p-23
+#define FLT_EPSILON 0x1p-23F
 #define FLT_MANT_DIG 24
-#define FLT_MAX 0x1.fffffep+127
+#define FLT_MAX 0x1.fffffep+127F
 #define FLT_MAX_10_EXP 38
 #define FLT_MAX_EXP 128
-#define FLT_MIN 0x1p-126
+#define FLT_MIN 0x1p-126F
 #define FLT_MIN_10_EXP -37
 #define FLT_MIN_EXP -125
-#define FLT_TRUE_MIN 0x1p-149
+#define FLT_TRUE_MIN 0x1p-149F
 
 #define DBL_DIG 15
 #define DBL_EPSILON 0x1p-52
@@ -28,15 +28,17 @@
 #define DBL_MIN_EXP -1021
 #define DBL_TRUE_MIN 0x0.0000000000001p-1022
 
-#define LDBL_DIG 15
-#define LDBL_EPSILON 0x1p-52
-#define LDBL_MANT_DIG 53
-#define LDBL_MAX 0x1.fffffffffffffp+1023
-#define LDBL_MAX_10_EXP 308
-#define LDBL_MAX_EXP 1024
-#define LDBL_MIN 0x1p-1022
-#define LDBL_MIN_10_EXP -307
-#define LDBL_MIN_EXP -1021
-#define LDBL_TRUE_MIN 0x0.0000000000001p-1022
+// long double is IEEE binary128, but constants are read with the precision
+// of the long double of the host.
+#define LDBL_DIG 33
+#define LDBL_EPSILON 0x1p-112L
+#define LDBL_MANT_DIG 113
+#define LDBL_MAX 0x1.fffffffffffffffep+16383L
+#define LDBL_MAX_10_EXP 4932
+#define LDBL_MAX_EXP 16384
+#define LDBL_MIN 0x1p-16382L
+#define LDBL_MIN_10_EXP -4931
+#define LDBL_MIN_EXP -16381
+#define LDBL_TRUE_MIN 0x1p-16445L
 
 #endif
diff --git a/include/stddef.h b/include/stddef.h
index ccd3857..d054d21 100644
--- a/include/stddef.h
+++ b/include/stddef.h
@@ -5,8 +5,8 @@
 
 typedef unsigned long size_t;
 typedef long ptrdiff_t;
-typedef unsigned int wchar_t;
-typedef long max_align_t;
+typedef int wchar_t;
+typedef long double max_align_t;
 
 #define offsetof(type, member) ((size_t)&(((type *)0)->member))
 
-- 
2.43.0


From cea14a3ba9bfec4d6a617e7bc3024cd648a56c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:58 +0000
Subject: [PATCH 051/122] fix: parse nested declarators once

Each level of parentheses was parsed twice, so that the time doubled with
every level and the expressions within were parsed several times.
---
 parser/declarator.c | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/parser/declarator.c b/parser/declarator.c
index 297e34b..1a50f68 100644
--- a/parser/declarator.c
+++ b/parser/declarator.c
@@ -343,6 +343,22 @@ static struct Type *pointers(struct Token **rest, struct Token *tok,
 	return ty;
 }
 
+// Returns the token behind the ")" that matches the "(" at tok.
+static struct Token *skip_parens(struct Token *tok)
+{
+	struct Token *start = tok;
+	int level = 0;
+
+	for (; tok->kind != TK_EOF; tok = tok->next) {
+		if (equal(tok, "("))
+			level++;
+		else if (equal(tok, ")") && --level == 0)
+			return tok->next;
+	}
+
+	error_tok(start, "expected ')'");
+}
+
 static struct Type *type_suffix(struct Token **rest, struct Token *tok,
 				struct Type *ty);
 // abstract_declarator = pointers ("(" abstract-declarator ")")? type-suffix
@@ -354,14 +370,13 @@ static struct Type *abstract_declarator(struct Token **rest, struct Token *tok,
 	// like "sizeof(char(*)[4])"
 	if (equal(tok, "(")) {
 		struct Token *start = tok->next;
-		struct Type dummy = {};
 
 		// get 'type' & update 'rest'
-		abstract_declarator(&tok, start, &dummy);
-		tok = skip(tok, ")");
-		ty = type_suffix(rest, tok, ty);
+		ty = type_suffix(rest, skip_parens(tok), ty);
 
-		return abstract_declarator(&tok, start, ty);
+		ty = abstract_declarator(&tok, start, ty);
+		skip(tok, ")");
+		return ty;
 	}
 
 	// like "sizeof(char[4][4])"
@@ -841,17 +856,14 @@ struct Type *declarator(struct Token **rest, struct Token *tok, struct Type *ty)
 
 	if (equal(tok, "(")) {
 		struct Token *start = tok->next;
-		struct Type dummy = {};
-
-		// get the token of type_suffix firstly
-		declarator(&tok, start, &dummy);
-		tok = skip(tok, ")");
 
 		// get the type of declarator, and update 'rest'
-		ty = type_suffix(rest, tok, ty);
+		ty = type_suffix(rest, skip_parens(tok), ty);
 
 		// process 'start' token, and keep the 'rest' & return it
-		return declarator(&tok, start, ty);
+		ty = declarator(&tok, start, ty);
+		skip(tok, ")");
+		return ty;
 	}
 
 	struct Token *name = NULL;
-- 
2.43.0


From 756b6ce99ca6482a2346278a08aa4cd311496743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:13 +0000
Subject: [PATCH 052/122] fix: give statement expressions without a value the
 type void

---
 type.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/type.c b/type.c
index 0b03bd5..5835919 100644
--- a/type.c
+++ b/type.c
@@ -495,6 +495,8 @@ void add_type(struct Node *node)
 
 			if (stmt->kind == ND_EXPR_STMT)
 				node->ty = stmt->lhs->ty;
+			else
+				node->ty = p_ty_void();
 
 		} else {
 			error_tok(node->tok,
-- 
2.43.0


From 0055ef0e80b2965fe8a744952b97fd3402f438f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:29 +0000
Subject: [PATCH 053/122] fix: report non-pointers passed to
 __builtin_atomic_exchange

---
 type.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/type.c b/type.c
index 5835919..dcafaf4 100644
--- a/type.c
+++ b/type.c
@@ -523,7 +523,7 @@ void add_type(struct Node *node)
 
 	case ND_EXCH:
 		if (node->lhs->ty->kind != TY_PTR)
-			error_tok(node->cas_addr->tok, "pointer expected");
+			error_tok(node->lhs->tok, "pointer expected");
 
 		node->ty = node->lhs->ty->base;
 		break;
-- 
2.43.0


From 5f6c2ead1b9b1e90ca74fef68c6ea2f459ffa503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:45 +0000
Subject: [PATCH 054/122] fix: reject invalid operands of + and -

---
 parser/parser.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/parser/parser.c b/parser/parser.c
index 6e83d72..c64ea0f 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -720,6 +720,9 @@ struct Node *new_add(struct Node *lhs, struct Node *rhs, struct Token *tok)
 		rhs = tmp;
 	}
 
+	if (!lhs->ty->base || !is_integer(rhs->ty))
+		error_tok(tok, "invalid operands");
+
 	// VLA + num
 	if (lhs->ty->base->kind == TY_VLA) {
 		rhs = new_binary(ND_MUL, rhs,
@@ -739,7 +742,7 @@ static struct Node *new_sub(struct Node *lhs, struct Node *rhs, struct Token *to
 	add_type(rhs);
 
 	// num - num
-	if (is_numeric(lhs->ty) && is_numeric(lhs->ty))
+	if (is_numeric(lhs->ty) && is_numeric(rhs->ty))
 		return new_binary(ND_SUB, lhs, rhs, tok);
 
 	// ptr - ptr, which returns how many elements are between the two.
@@ -749,6 +752,10 @@ static struct Node *new_sub(struct Node *lhs, struct Node *rhs, struct Token *to
 		return new_binary(ND_DIV, node, new_num(lhs->ty->base->size, tok), tok);
 	}
 
+	// num - ptr
+	if (!lhs->ty->base || !is_integer(rhs->ty))
+		error_tok(tok, "invalid operands");
+
 	// VLA - num
 	if (lhs->ty->base->kind == TY_VLA) {
 		rhs = new_binary(ND_MUL, rhs,
@@ -761,13 +768,8 @@ static struct Node *new_sub(struct Node *lhs, struct Node *rhs, struct Token *to
 	}
 
 	// ptr - num
-	if (lhs->ty->base && is_integer(rhs->ty)) {
-		rhs = new_binary(ND_MUL, rhs, new_long(lhs->ty->base->size, tok), tok);
-		return new_binary(ND_SUB, lhs, rhs, tok);
-	}
-
-	// num - ptr
-	error_tok(tok, "invalid operands");
+	rhs = new_binary(ND_MUL, rhs, new_long(lhs->ty->base->size, tok), tok);
+	return new_binary(ND_SUB, lhs, rhs, tok);
 }
 
 static struct Node *add(struct Token **rest, struct Token *tok)
-- 
2.43.0


From 4e202881f3ce12d2d299d1fc7155695d917aaead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:00 +0000
Subject: [PATCH 055/122] fix: recognize u8 string literals in concatenations

---
 preprocessor/preprocess.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preprocessor/preprocess.c b/preprocessor/preprocess.c
index 3d04c6c..13832ef 100644
--- a/preprocessor/preprocess.c
+++ b/preprocessor/preprocess.c
@@ -1258,7 +1258,7 @@ enum StringKind {
 
 static enum StringKind getStringKind(struct Token *tok)
 {
-	if (!strcmp(tok->loc, "u8"))
+	if (!strncmp(tok->loc, "u8", 2))
 		return STR_UTF8;
 
 	switch (tok->loc[0]) {
-- 
2.43.0


From 7811ba77dec11452a3c1b630787459836af5a764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:17 +0000
Subject: [PATCH 056/122] fix: reject #ifdef and #ifndef without a macro name

---
 preprocessor/preprocess.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/preprocessor/preprocess.c b/preprocessor/preprocess.c
index 13832ef..662b6b8 100644
--- a/preprocessor/preprocess.c
+++ b/preprocessor/preprocess.c
@@ -1157,6 +1157,8 @@ static struct Token *preprocess2(struct Token *tok)
 		}
 
 		if (equal(tok, "ifdef")) {
+			if (tok->next->at_bol || tok->next->kind != TK_IDENT)
+				error_tok(tok, "macro name must be an identifier");
 			bool defined = find_macro(tok->next);
 
 			push_cond_incl(tok, defined);
@@ -1168,6 +1170,8 @@ static struct Token *preprocess2(struct Token *tok)
 		}
 
 		if (equal(tok, "ifndef")) {
+			if (tok->next->at_bol || tok->next->kind != TK_IDENT)
+				error_tok(tok, "macro name must be an identifier");
 			bool defined = find_macro(tok->next);
 
 			push_cond_incl(tok, !defined);
-- 
2.43.0


From f276924ebbfe582e36ecfc51eabd758c144d4429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:32 +0000
Subject: [PATCH 057/122] fix: reject #include of an identifier that is no
 macro

---
 preprocessor/preprocess.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/preprocessor/preprocess.c b/preprocessor/preprocess.c
index 662b6b8..5abf25e 100644
--- a/preprocessor/preprocess.c
+++ b/preprocessor/preprocess.c
@@ -913,6 +913,8 @@ static const char *read_include_filename(struct Token **rest, struct Token *tok,
 	// a single string token or a sequence of "<" ... ">".
 	if (tok->kind == TK_IDENT) {
 		struct Token *tok2 = preprocess2(copy_line(rest, tok));
+		if (tok2->kind == TK_IDENT)
+			error_tok(tok, "expected a filename");
 		return read_include_filename(&tok2, tok2, is_dquote);
 	}
 
-- 
2.43.0


From 85f5c23711827acbf8ab8bcf58b4920d6d1fb4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:47 +0000
Subject: [PATCH 058/122] fix: read long hexadecimal escapes without overflow

---
 tokenize.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tokenize.c b/tokenize.c
index 5c9f595..6fe0ccd 100644
--- a/tokenize.c
+++ b/tokenize.c
@@ -216,7 +216,7 @@ static int read_escaped_char(const char **new_pos, const char *p)
 		if (!isxdigit(*p))
 			error_at(p, "invalid hex escape sequence");
 
-		int c = 0;
+		uint32_t c = 0;
 		for (; isxdigit(*p); p++)
 			c = (c << 4) + from_hex(*p);
 		*new_pos = p;
-- 
2.43.0


From 26b4e04978b80f90221d7419a336149d457df29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:02 +0000
Subject: [PATCH 059/122] fix: do not read beyond the end of the text in
 directives and comments

---
 preprocessor/preprocess.c | 1 +
 tokenize.c                | 4 +++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/preprocessor/preprocess.c b/preprocessor/preprocess.c
index 5abf25e..3bdffc1 100644
--- a/preprocessor/preprocess.c
+++ b/preprocessor/preprocess.c
@@ -114,6 +114,7 @@ static struct Token *new_eof(struct Token *tok)
 	struct Token *t = copy_token(tok);
 	t->kind = TK_EOF;
 	t->len = 0;
+	t->at_bol = true;
 	return t;
 }
 
diff --git a/tokenize.c b/tokenize.c
index 6fe0ccd..49a013f 100644
--- a/tokenize.c
+++ b/tokenize.c
@@ -568,7 +568,7 @@ struct Token *tokenize(struct File *file)
 		// Skip line comments
 		if (startwith(p, "//")) {
 			p += 2;
-			while (*p != '\n')
+			while (*p && *p != '\n')
 				p++;
 
 			has_space = true;
@@ -724,6 +724,8 @@ struct Token *tokenize(struct File *file)
 
 		error_at(p, "invalid token");
 	}
+	// the end of the text ends the last line too
+	at_bol = true;
 	cur->next = new_token(TK_EOF, p, p);
 
 	add_line_number(head.next);
-- 
2.43.0


From 3c001a698beaa3b88f0db448f90590f610faf986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:10 +0000
Subject: [PATCH 060/122] fix: report bad escapes in concatenated literals in
 their own file

---
 tokenize.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tokenize.c b/tokenize.c
index 49a013f..4ec0cab 100644
--- a/tokenize.c
+++ b/tokenize.c
@@ -362,6 +362,8 @@ static struct Token *read_utf32_string_literal(const char *start,
 
 struct Token *tokenize_string_literal(struct Token *tok, struct Type *basety)
 {
+	current_file = tok->file;
+
 	struct Token *t;
 
 	if (basety->size == 2)
-- 
2.43.0


From b9ad0332134d4a08beda3cdf9adf5524947ec6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:25 +0000
Subject: [PATCH 061/122] fix: report the position of unnamed array and
 function parameters

---
 parser/declarator.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/declarator.c b/parser/declarator.c
index 1a50f68..46a49ef 100644
--- a/parser/declarator.c
+++ b/parser/declarator.c
@@ -731,6 +731,7 @@ static struct Type *func_params(struct Token **rest, struct Token *tok, struct T
 		struct Type *ty2 = declarator(&tok, tok, basety);
 
 		struct Token *name = ty2->name;
+		struct Token *name_pos = ty2->name_pos;
 
 		if (ty2->kind == TY_ARRAY) {
 			// "array of T" is converted to "pointer to T" only
@@ -738,12 +739,14 @@ static struct Type *func_params(struct Token **rest, struct Token *tok, struct T
 			// For example, *argv[] is converted to **argv by this.
 			ty2 = pointer_to(ty2->base);
 			ty2->name = name;
+			ty2->name_pos = name_pos;
 
 		} else if (ty2->kind == TY_FUNC) {
 			// Likewise, a function is converted to a pointer to
 			// a function only in the parameter context.
 			ty2 = pointer_to(ty2);
 			ty2->name = name;
+			ty2->name_pos = name_pos;
 		}
 
 		cur->next = copy_type(ty2);
-- 
2.43.0


From ebb29bb2a3ba4f82945a997c2bffc23709684dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:41 +0000
Subject: [PATCH 062/122] fix: report enumerators that overflow

---
 parser/declarator.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/parser/declarator.c b/parser/declarator.c
index 46a49ef..1119143 100644
--- a/parser/declarator.c
+++ b/parser/declarator.c
@@ -300,7 +300,8 @@ static struct Type *enum_specifier(struct Token **rest, struct Token *tok)
 	tok = skip(tok, "{");
 
 	// read an enum-list
-	int i = 0, val = 0;
+	int i = 0;
+	int64_t val = 0;
 	while (!consume_end(rest, tok)) {
 		if (i++ > 0)
 			tok = skip(tok, ",");
@@ -309,7 +310,9 @@ static struct Type *enum_specifier(struct Token **rest, struct Token *tok)
 		tok = tok->next;
 
 		if (equal(tok, "=")) {
-			val = const_expr(&tok, tok->next);
+			val = (int)const_expr(&tok, tok->next);
+		} else if (val > INT32_MAX) {
+			error_tok(tok, "overflow in enumeration values");
 		}
 
 		struct VarScope *sc = push_scope(name);
-- 
2.43.0


From 5ba35c87028a70310e465954c1827a04bdd0fac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:42 +0000
Subject: [PATCH 063/122] fix: report redefinitions of tags

---
 parser/declarator.c | 23 +++++++++++++++++------
 parser/scope.c      | 13 +++++++++++--
 parser/scope.h      |  1 +
 type.h              |  3 +++
 4 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/parser/declarator.c b/parser/declarator.c
index 1119143..e54abe0 100644
--- a/parser/declarator.c
+++ b/parser/declarator.c
@@ -117,9 +117,11 @@ static struct Token *attribute_list(struct Token *tok, struct Type *ty)
 }
 
 // struct-union-decl = attribute? ident? ("{" struct-members)?
-static struct Type *struct_union_decl(struct Token **rest, struct Token *tok)
+static struct Type *struct_union_decl(struct Token **rest, struct Token *tok,
+				      enum TypeKind kind)
 {
 	struct Type *ty = struct_type();
+	ty->kind = kind;
 
 	// check attribute descriptor
 	tok = attribute_list(tok, ty);
@@ -137,6 +139,9 @@ static struct Type *struct_union_decl(struct Token **rest, struct Token *tok)
 		*rest = tok;
 
 		struct Type *ty2 = find_tag(tag);
+		if (ty2 && ty2->kind != kind)
+			error_tok(tag, "not a %s tag",
+				  kind == TY_UNION ? "union" : "struct");
 		if (ty2)
 			return ty2;
 
@@ -155,6 +160,8 @@ static struct Type *struct_union_decl(struct Token **rest, struct Token *tok)
 
 	// register the struct type if a name was given
 	if (tag) {
+		ty->tag = tag;
+
 		// If there is a redefinition, overwrite a previous type.
 		struct Type *ret = overwrite_tag(tag, ty);
 		if (ret)
@@ -194,8 +201,7 @@ static void align_members(struct Type *ty)
 // struct-decl = struct-union-decl
 static struct Type *struct_decl(struct Token **rest, struct Token *tok)
 {
-	struct Type *ty = struct_union_decl(rest, tok);
-	ty->kind = TY_STRUCT;
+	struct Type *ty = struct_union_decl(rest, tok, TY_STRUCT);
 
 	if (ty->size < 0)
 		return ty;
@@ -247,8 +253,7 @@ static struct Type *struct_decl(struct Token **rest, struct Token *tok)
 // union-decl = struct-union-decl
 static struct Type *union_decl(struct Token **rest, struct Token *tok)
 {
-	struct Type *ty = struct_union_decl(rest, tok);
-	ty->kind = TY_UNION;
+	struct Type *ty = struct_union_decl(rest, tok, TY_UNION);
 
 	if (ty->size < 0)
 		return ty;
@@ -320,8 +325,14 @@ static struct Type *enum_specifier(struct Token **rest, struct Token *tok)
 		sc->enum_val = val++;
 	}
 
-	if (tag)
+	if (tag) {
+		struct Type *ty2 = find_scope_tag(tag);
+		if (ty2 && ty2->tag != tag)
+			error_tok(tag, "redefinition of tag");
+
+		ty->tag = tag;
 		push_tag_scope(tag, ty);
+	}
 	return ty;
 }
 
diff --git a/parser/scope.c b/parser/scope.c
index 26b2013..33aeb1d 100644
--- a/parser/scope.c
+++ b/parser/scope.c
@@ -66,6 +66,12 @@ struct Type *find_tag(struct Token *tok)
 	return NULL;
 }
 
+// Find a tag that is declared in the current scope
+struct Type *find_scope_tag(struct Token *tok)
+{
+	return hashmap_get2(&scope->tags, tok->loc, tok->len);
+}
+
 struct Obj *find_func(const char *name)
 {
 	struct Scope *sc = scope;
@@ -83,9 +89,12 @@ struct Obj *find_func(const char *name)
 
 struct Type *overwrite_tag(struct Token *tag, struct Type *ty)
 {
-	struct Type *ty2 = hashmap_get2(&scope->tags, tag->loc, tag->len);
-	if (ty2)
+	struct Type *ty2 = find_scope_tag(tag);
+	if (ty2) {
+		if (ty2->kind != ty->kind || (ty2->size >= 0 && ty2->tag != tag))
+			error_tok(tag, "redefinition of tag");
 		*ty2 = *ty;
+	}
 
 	return ty2;
 }
diff --git a/parser/scope.h b/parser/scope.h
index d0245f9..59da195 100644
--- a/parser/scope.h
+++ b/parser/scope.h
@@ -32,6 +32,7 @@ void enter_scope(void);
 void leave_scope(void);
 
 struct Type *find_tag(struct Token *tok);
+struct Type *find_scope_tag(struct Token *tok);
 struct Obj *find_func(const char *name);
 
 void push_tag_scope(struct Token *tok, struct Type *ty);
diff --git a/type.h b/type.h
index 821ac22..f528503 100644
--- a/type.h
+++ b/type.h
@@ -25,6 +25,9 @@ struct Type {
 	struct Node *vla_len; // # of elements
 	struct Obj *vla_size; // sizeof() value
 
+	// struct, union or enum
+	struct Token *tag;	// tag of the definition
+
 	// struct
 	struct Member *members;
 	bool is_flexible;
-- 
2.43.0


From 8f709611f81b68bd4e4da2f7649715f4ddf83e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:58 +0000
Subject: [PATCH 064/122] fix: report members and bit-fields of invalid types

---
 parser/declarator.c | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/parser/declarator.c b/parser/declarator.c
index e54abe0..3771c3e 100644
--- a/parser/declarator.c
+++ b/parser/declarator.c
@@ -19,6 +19,14 @@ struct Node *new_cast(struct Node *expr, struct Type *ty)
 	return n;
 }
 
+// Returns true if objects of a given type have a size.
+static bool is_complete(struct Type *ty)
+{
+	if (ty->kind == TY_VOID || ty->kind == TY_FUNC)
+		return false;
+	return ty->size >= 0;
+}
+
 // struct-members = (declspec declarator ("," declarator)* ";")*
 static void struct_members(struct Token **rest, struct Token *tok, struct Type *ty)
 {
@@ -35,6 +43,9 @@ static void struct_members(struct Token **rest, struct Token *tok, struct Type *
 		if ((basety->kind == TY_STRUCT || basety->kind == TY_UNION) &&
 		     consume(&tok, tok, ";")) {
 			struct Member *mem = calloc(1, sizeof(struct Member));
+			if (!is_complete(basety))
+				error_tok(tok, "member has incomplete type");
+
 			mem->ty = basety;
 			mem->idx = idx++;
 			mem->align = attr.align ? attr.align : mem->ty->align;
@@ -60,10 +71,26 @@ static void struct_members(struct Token **rest, struct Token *tok, struct Type *
 			mem->is_aligned = attr.align;
 
 			if (consume(&tok, tok, ":")) {
+				struct Token *start = tok;
+				int64_t width = const_expr(&tok, tok);
+				int max = mem->ty->kind == TY_BOOL ? 1 : mem->ty->size * 8;
+
+				if (!is_integer(mem->ty))
+					error_tok(start, "bit-field has invalid type");
+				if (width < 0 || width > max || (width == 0 && mem->name))
+					error_tok(start, "bit-field has invalid width");
+
 				mem->is_bitfield = true;
-				mem->bit_width = const_expr(&tok, tok);
+				mem->bit_width = width;
 			}
 
+			// Only the last member may be a flexible array.
+			if (mem->ty->kind == TY_VLA ||
+			    (!is_complete(mem->ty) &&
+			     !(mem->ty->kind == TY_ARRAY && equal(tok, ";") &&
+			       equal(tok->next, "}"))))
+				error_tok(tok, "member has incomplete type");
+
 			cur->next = mem;
 			cur = cur->next;
 		}
-- 
2.43.0


From 85248d93753436275e564ba32203cd7177902080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:14 +0000
Subject: [PATCH 065/122] fix: report arrays and structs that are too large

---
 codegen.c           |  2 +-
 parser/declarator.c | 26 +++++++++++++++++++++-----
 parser/parser.c     |  3 +--
 toycc.h             |  2 +-
 4 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/codegen.c b/codegen.c
index d178683..8d2046a 100644
--- a/codegen.c
+++ b/codegen.c
@@ -109,7 +109,7 @@ static void push_ld(void)
 
 // Round up `n` to the nearest multiple of `align`. For instance,
 // align_to(5, 8) returns 8 and align_to(11, 8) returns 16.
-int align_to(int n, int align)
+int64_t align_to(int64_t n, int64_t align)
 {
 	return (n + align - 1) / align * align;
 }
diff --git a/parser/declarator.c b/parser/declarator.c
index 3771c3e..fa9e267 100644
--- a/parser/declarator.c
+++ b/parser/declarator.c
@@ -201,7 +201,7 @@ static struct Type *struct_union_decl(struct Token **rest, struct Token *tok,
 	return ty;
 }
 
-static int align_down(int n, int align)
+static int64_t align_down(int64_t n, int64_t align)
 {
 	return align_to(n - align + 1, align);
 }
@@ -236,7 +236,7 @@ static struct Type *struct_decl(struct Token **rest, struct Token *tok)
 	align_members(ty);
 
 	// Assign offsets within the struct to members
-	int bits = 0;
+	int64_t bits = 0;
 	for (struct Member *mem = ty->members; mem; mem = mem->next) {
 		if (mem->is_bitfield) {
 			if (mem->bit_width == 0) {
@@ -269,10 +269,13 @@ static struct Type *struct_decl(struct Token **rest, struct Token *tok)
 		} else {
 			bits = align_to(bits, mem->align * 8);
 			mem->offset = bits / 8;
-			bits += mem->ty->size * 8;
+			bits += (int64_t)mem->ty->size * 8;
 		}
 	}
-	ty->size = align_to(bits, ty->align * 8) / 8;
+	bits = align_to(bits, ty->align * 8);
+	if (bits / 8 > INT32_MAX)
+		error_tok(tok, "struct is too large");
+	ty->size = bits / 8;
 
 	return ty;
 }
@@ -859,10 +862,14 @@ static struct Type *array_dimension(struct Token **rest, struct Token *tok,
 
 	if (equal(tok, "]")) {
 		ty = type_suffix(rest, tok->next, ty);
+		if (!is_complete(ty))
+			error_tok(tok, "array of incomplete type");
 		// set flag for incomplete array
 		return array_of(ty, -1);
 	}
 
+	struct Token *start = tok;
+
 	// allows conditional expression
 	struct Node *expr = conditional(&tok, tok);
 
@@ -870,10 +877,19 @@ static struct Type *array_dimension(struct Token **rest, struct Token *tok,
 	tok = skip(tok, "]");
 	ty = type_suffix(rest, tok, ty);
 
+	if (!is_complete(ty))
+		error_tok(start, "array of incomplete type");
+
 	if (ty->kind == TY_VLA || !is_const_expr(expr))
 		return vla_of(ty, expr);
 
-	return array_of(ty, eval(expr));
+	int64_t len = eval(expr);
+	if (len < 0)
+		error_tok(start, "array size is negative");
+	if (len > INT32_MAX / MAX(ty->size, 1))
+		error_tok(start, "array is too large");
+
+	return array_of(ty, len);
 }
 
 // type-suffix = "(" func-params
diff --git a/parser/parser.c b/parser/parser.c
index c64ea0f..3bcaf8a 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -1454,8 +1454,7 @@ static bool is_function(struct Token *tok)
 	if (equal(tok, ";"))
 		return false;
 
-	struct Type dummy = {};
-	struct Type *ty = declarator(&tok, tok, &dummy);
+	struct Type *ty = declarator(&tok, tok, copy_type(p_ty_char()));
 
 	return ty->kind == TY_FUNC;
 }
diff --git a/toycc.h b/toycc.h
index 433ab0e..24da948 100644
--- a/toycc.h
+++ b/toycc.h
@@ -319,7 +319,7 @@ struct Obj *parser(struct Token *tok);
 
 // codegen.c
 void codegen(struct Obj *prog, FILE *out);
-int align_to(int n, int align);
+int64_t align_to(int64_t n, int64_t align);
 bool is_returned_by_ref(struct Type *ty);
 void ld_to_binary128(long double val, uint64_t *quad);
 
-- 
2.43.0


From 593818ffeb8cfba51708546511238e97844461a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:34 +0000
Subject: [PATCH 066/122] fix: report array designators that exceed the range
 of int

---
 parser/initializer.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/parser/initializer.c b/parser/initializer.c
index 3c0bd53..54fb1a7 100644
--- a/parser/initializer.c
+++ b/parser/initializer.c
@@ -125,14 +125,16 @@ static void string_initializer(struct Token **rest, struct Token *tok,
 static void array_designator(struct Token **rest, struct Token *tok,
 			     struct Type *ty, int *begin, int *end)
 {
-	*begin = const_expr(&tok, tok->next);
-	if (*begin < 0 || *begin >= ty->array_len)
+	int64_t idx = const_expr(&tok, tok->next);
+	if (idx < 0 || idx >= ty->array_len)
 		error_tok(tok, "array designator index exceeds array bounds");
+	*begin = idx;
 
 	if (equal(tok, "...")) {
-		*end = const_expr(&tok, tok->next);
-		if (*end >= ty->array_len)
+		idx = const_expr(&tok, tok->next);
+		if (idx < 0 || idx >= ty->array_len)
 			error_tok(tok, "array designator index exceeds array bounds");
+		*end = idx;
 		if (*end < *begin)
 			error_tok(tok, "array designator range [%d, %d] is empty", *begin, *end);
 	} else {
@@ -243,7 +245,7 @@ static int count_array_init_elements(struct Token *tok, struct Type *ty)
 {
 	bool first = true;
 	struct Initializer *dummy = new_initializer(ty->base, true);
-	int i = 0, max = 0;
+	int64_t i = 0, max = 0;
 
 	while (!consume_end(&tok, tok)) {
 		if (!first)
@@ -259,6 +261,8 @@ static int count_array_init_elements(struct Token *tok, struct Type *ty)
 				i = const_expr(&tok, tok->next);
 
 			tok = skip(tok, "]");
+			if (i < 0 || i >= INT32_MAX / MAX(ty->base->size, 1))
+				error_tok(tok, "array designator index exceeds array bounds");
 			designation(&tok, tok, dummy);
 
 		} else {
-- 
2.43.0


From 868c5d743f7d196b0cc074d2d23cb6b04ea2f512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:03 +0000
Subject: [PATCH 067/122] fix: accept function declarators anywhere in a
 declaration

`int f(void), x;` was rejected, a function declared by way of a typedef
became a variable, and the body of a function nested in another one
corrupted the state of the parser.
---
 parser/declarator.c |  6 +++++
 parser/declarator.h |  2 ++
 parser/parser.c     | 64 +++++++++++++++++++++------------------------
 3 files changed, 38 insertions(+), 34 deletions(-)

diff --git a/parser/declarator.c b/parser/declarator.c
index fa9e267..752f7af 100644
--- a/parser/declarator.c
+++ b/parser/declarator.c
@@ -1005,6 +1005,12 @@ struct Node *declaration(struct Token **rest, struct Token *tok,
 		if (ty->kind == TY_VOID)
 			error_tok(start, "variable declared void");
 
+		if (ty->kind == TY_FUNC) {
+			struct VarAttr none = {};
+			declare_function(tok, ty, attr ? attr : &none);
+			continue;
+		}
+
 		if (!ty->name)
 			error_tok(ty->name_pos, "variable name omitted");
 
diff --git a/parser/declarator.h b/parser/declarator.h
index c67944a..bd38cd5 100644
--- a/parser/declarator.h
+++ b/parser/declarator.h
@@ -18,6 +18,8 @@ struct Node *declaration(struct Token **rest, struct Token *tok,
 			 struct Type *basety, struct VarAttr *attr);
 struct Token *parse_typedef(struct Token *tok, struct Type *basety);
 void declare_builtin_functions(void);
+struct Obj *declare_function(struct Token *tok, struct Type *ty,
+			     const struct VarAttr *attr);
 struct Node *compute_vla_size(struct Type *ty, struct Token *tok);
 
 #endif
diff --git a/parser/parser.c b/parser/parser.c
index 3bcaf8a..eb36d40 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -1449,16 +1449,6 @@ static struct Node *stmt(struct Token **rest, struct Token *tok)
 	return expr_stmt(rest, tok);
 }
 
-static bool is_function(struct Token *tok)
-{
-	if (equal(tok, ";"))
-		return false;
-
-	struct Type *ty = declarator(&tok, tok, copy_type(p_ty_char()));
-
-	return ty->kind == TY_FUNC;
-}
-
 static void create_param_lvars(struct Type *param)
 {
 	if (param) {
@@ -1508,10 +1498,10 @@ static void mark_live(struct Obj *var)
 	}
 }
 
-static struct Token *function(struct Token *tok, struct Type *basety,
-			      const struct VarAttr *attr)
+// Declare a function. `tok` is the token behind its declarator.
+struct Obj *declare_function(struct Token *tok, struct Type *ty,
+			     const struct VarAttr *attr)
 {
-	struct Type *ty = declarator(&tok, tok, basety);
 	if (!ty->name)
 		error_tok(ty->name_pos, "function name omitted");
 
@@ -1529,6 +1519,10 @@ static struct Token *function(struct Token *tok, struct Type *basety,
 
 		fn->is_definition = fn->is_definition || equal(tok, "{");
 
+		// The declaration may be hidden in the current scope.
+		if (!is_global_scope())
+			push_scope(name_str)->var = fn;
+
 	} else {
 		fn = new_gvar(name_str, ty);
 		fn->is_function = true;
@@ -1537,12 +1531,11 @@ static struct Token *function(struct Token *tok, struct Type *basety,
 		fn->is_inline = attr->is_inline;
 	}
 	fn->is_root = !(fn->is_static && fn->is_inline);
+	return fn;
+}
 
-	// if it's declaration, return
-	if (consume(&tok, tok, ";"))
-		return tok;
-	// else it's definition, continue
-
+static struct Token *function(struct Token *tok, struct Type *ty, struct Obj *fn)
+{
 	current_fn = fn;
 	// initialize local variables list
 	init_locals();
@@ -1583,17 +1576,30 @@ static struct Token *function(struct Token *tok, struct Type *basety,
 	return tok;
 }
 
-static struct Token *global_variable(struct Token *tok, struct Type *basety,
-				     struct VarAttr *attr)
+// global-declaration = (declarator ("=" initializer)?
+//			 ("," declarator ("=" initializer)?)*)? ";"
+//		      | declarator "{" compound-stmt
+static struct Token *global_declaration(struct Token *tok, struct Type *basety,
+					struct VarAttr *attr)
 {
 	bool first = true;
 
 	while (!consume(&tok, tok, ";")) {
 		if (!first)
 			tok = skip(tok, ",");
-		first = false;
 
 		struct Type *ty = declarator(&tok, tok, basety);
+
+		if (ty->kind == TY_FUNC) {
+			bool is_body = first && is_global_scope() && equal(tok, "{");
+			struct Obj *fn = declare_function(tok, ty, attr);
+			if (is_body)
+				return function(tok, ty, fn);
+			first = false;
+			continue;
+		}
+		first = false;
+
 		if (!ty->name)
 			error_tok(ty->name_pos, "variable name omitted");
 
@@ -1635,13 +1641,8 @@ static struct Node *compound_stmt(struct Token **rest, struct Token *tok)
 				continue;
 			}
 
-			if (is_function(tok)) {
-				tok = function(tok, basety, &attr);
-				continue;
-			}
-
 			if (attr.is_extern) {
-				tok = global_variable(tok, basety, &attr);
+				tok = global_declaration(tok, basety, &attr);
 				continue;
 			}
 
@@ -1677,13 +1678,8 @@ struct Obj *parser(struct Token *tok)
 			continue;
 		}
 
-		if (is_function(tok)) {
-			// function
-			tok = function(tok, basety, &attr);
-		} else {
-			// global variable
-			tok = global_variable(tok, basety, &attr);
-		}
+		// function or global variables
+		tok = global_declaration(tok, basety, &attr);
 	}
 
 	for (struct Obj *var = ret_globals(); var; var = var->next)
-- 
2.43.0


From 056f649bcd306426b01eadcd303f6beef0dff3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:53 +0000
Subject: [PATCH 068/122] fix: accept function types without a name

---
 parser/declarator.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/parser/declarator.c b/parser/declarator.c
index 752f7af..17aecb4 100644
--- a/parser/declarator.c
+++ b/parser/declarator.c
@@ -403,6 +403,14 @@ static struct Token *skip_parens(struct Token *tok)
 	error_tok(start, "expected ')'");
 }
 
+// Returns true if the "(" at tok starts the parameters of a function
+// without a name, not a nested declarator.
+static bool is_param_list(struct Token *tok)
+{
+	return equal(tok, "(") &&
+	       (equal(tok->next, ")") || is_typename(tok->next));
+}
+
 static struct Type *type_suffix(struct Token **rest, struct Token *tok,
 				struct Type *ty);
 // abstract_declarator = pointers ("(" abstract-declarator ")")? type-suffix
@@ -412,7 +420,7 @@ static struct Type *abstract_declarator(struct Token **rest, struct Token *tok,
 	ty = pointers(&tok, tok, ty);
 
 	// like "sizeof(char(*)[4])"
-	if (equal(tok, "(")) {
+	if (equal(tok, "(") && !is_param_list(tok)) {
 		struct Token *start = tok->next;
 
 		// get 'type' & update 'rest'
@@ -914,7 +922,9 @@ struct Type *declarator(struct Token **rest, struct Token *tok, struct Type *ty)
 {
 	ty = pointers(&tok, tok, ty);
 
-	if (equal(tok, "(")) {
+	// A typedef name can be declared anew.
+	if (equal(tok, "(") &&
+	    (!is_param_list(tok) || tok->next->kind == TK_IDENT)) {
 		struct Token *start = tok->next;
 
 		// get the type of declarator, and update 'rest'
-- 
2.43.0


From 9d08e62bd37b9895fc97b278eab0903257591306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:12 +0000
Subject: [PATCH 069/122] fix: accept postfix operators and sizeof with
 compound literals

---
 parser/declarator.c |  2 +-
 parser/declarator.h |  1 +
 parser/parser.c     | 68 +++++++++++++++++++++++++--------------------
 3 files changed, 40 insertions(+), 31 deletions(-)

diff --git a/parser/declarator.c b/parser/declarator.c
index 17aecb4..3efff81 100644
--- a/parser/declarator.c
+++ b/parser/declarator.c
@@ -388,7 +388,7 @@ static struct Type *pointers(struct Token **rest, struct Token *tok,
 }
 
 // Returns the token behind the ")" that matches the "(" at tok.
-static struct Token *skip_parens(struct Token *tok)
+struct Token *skip_parens(struct Token *tok)
 {
 	struct Token *start = tok;
 	int level = 0;
diff --git a/parser/declarator.h b/parser/declarator.h
index bd38cd5..b22dac4 100644
--- a/parser/declarator.h
+++ b/parser/declarator.h
@@ -13,6 +13,7 @@ struct VarAttr {
 
 struct Type *declspec(struct Token **rest, struct Token *tok,
                       struct VarAttr *attr);
+struct Token *skip_parens(struct Token *tok);
 struct Type *declarator(struct Token **rest, struct Token *tok, struct Type *ty);
 struct Node *declaration(struct Token **rest, struct Token *tok,
 			 struct Type *basety, struct VarAttr *attr);
diff --git a/parser/parser.c b/parser/parser.c
index eb36d40..de828d6 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -134,6 +134,14 @@ static struct Node *generic_selection(struct Token **rest, struct Token *tok)
 // 	rest: return current tok pointer
 static struct Node *compound_stmt(struct Token **rest, struct Token *tok);
 static struct Node *unary(struct Token **rest, struct Token *tok);
+// Returns true if a type name in parentheses is at tok that does not
+// start a compound literal.
+static bool is_typename_parens(struct Token *tok)
+{
+	return equal(tok, "(") && is_typename(tok->next) &&
+	       !equal(skip_parens(tok), "{");
+}
+
 // primary = "(" "{" stmt+ "}" ")"
 // 	| "(" expr ")"
 //	| "sizeof" "(" type-name ")"
@@ -164,8 +172,7 @@ static struct Node *primary(struct Token **rest, struct Token *tok)
 		return node;
 	}
 
-	if (equal(tok, "sizeof") && equal(tok->next, "(") &&
-	    is_typename(tok->next->next)) {
+	if (equal(tok, "sizeof") && is_typename_parens(tok->next)) {
 		struct Type *ty = typename(&tok, tok->next->next);
 		// update rest
 		*rest = skip(tok, ")");
@@ -198,8 +205,7 @@ static struct Node *primary(struct Token **rest, struct Token *tok)
 		return new_ulong(node->ty->size, tok);
 	}
 
-	if (equal(tok, "_Alignof") && equal(tok->next, "(") &&
-	    is_typename(tok->next->next)) {
+	if (equal(tok, "_Alignof") && is_typename_parens(tok->next)) {
 
 		struct Type *ty = typename(&tok, tok->next->next);
 		*rest = skip(tok, ")");
@@ -552,7 +558,28 @@ static struct Node *new_inc_dec(struct Node *node, struct Token *tok, int addend
 	return new_cast(node_minus, node->ty);
 }
 
-// postfix = "(" type-name ")" "{" initializer-list "}"
+// compound-literal = "(" type-name ")" "{" initializer-list "}"
+static struct Node *compound_literal(struct Token **rest, struct Token *tok)
+{
+	struct Token *start = tok;
+	struct Type *ty = typename(&tok, tok->next);
+	tok = skip(tok, ")");
+
+	if (is_global_scope()) {
+		// never enter scope, so allocate global var
+		struct Obj *var = new_anon_gvar(ty);
+		gvar_initializer(rest, tok, var);
+		return new_var_node(var, start);
+	}
+
+	struct Obj *var = new_lvar("", ty);
+	struct Node *lhs = lvar_initializer(rest, tok, var);
+	// refer to var self under dereference case
+	struct Node *rhs = new_var_node(var, tok);
+	return new_binary(ND_COMMA, lhs, rhs, start);
+}
+
+// postfix = compound-literal postfix-tail*
 //         | ident "(" func-args ")" postfix-tail*
 //         | primary postfix-tail*
 //
@@ -564,27 +591,12 @@ static struct Node *new_inc_dec(struct Node *node, struct Token *tok, int addend
 //              | "--"
 static struct Node *postfix(struct Token **rest, struct Token *tok)
 {
-	if (equal(tok, "(") && is_typename(tok->next)) {
-		// Compound literal
-		struct Token *start = tok;
-		struct Type *ty = typename(&tok, tok->next);
-		tok = skip(tok, ")");
+	struct Node *node;
 
-		if (is_global_scope()) {
-			// never enter scope, so allocate global var
-			struct Obj *var = new_anon_gvar(ty);
-			gvar_initializer(rest, tok, var);
-			return new_var_node(var, start);
-		}
-
-		struct Obj *var = new_lvar("", ty);
-		struct Node *lhs = lvar_initializer(rest, tok, var);
-		// refer to var self under dereference case
-		struct Node *rhs = new_var_node(var, tok);
-		return new_binary(ND_COMMA, lhs, rhs, start);
-	}
-
-	struct Node *node = primary(&tok, tok);
+	if (equal(tok, "(") && is_typename(tok->next))
+		node = compound_literal(&tok, tok);
+	else
+		node = primary(&tok, tok);
 
 	while (1) {
 		if (equal(tok, "(")) {
@@ -640,15 +652,11 @@ static struct Node *postfix(struct Token **rest, struct Token *tok)
 // cast = "(" type-name ")" cast | unary
 static struct Node *cast(struct Token **rest, struct Token *tok)
 {
-	if (equal(tok, "(") && is_typename(tok->next)) {
+	if (is_typename_parens(tok)) {
 		struct Token *start = tok;
 		struct Type *ty = typename(&tok, tok->next);
 		tok = skip(tok, ")");
 
-		// compound literal
-		if (equal(tok, "{"))
-			return unary(rest, start);
-
 		// type cast
 		struct Node *n = new_cast(cast(rest, tok), ty);
 		n->tok = start;
-- 
2.43.0


From 91a42a822d8d17cc97e3a1b70b49bc52570bada9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:20 +0000
Subject: [PATCH 070/122] fix: declare the tag of a struct or union in its own
 scope

---
 parser/declarator.c | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/parser/declarator.c b/parser/declarator.c
index 3efff81..b5b9c0e 100644
--- a/parser/declarator.c
+++ b/parser/declarator.c
@@ -165,7 +165,8 @@ static struct Type *struct_union_decl(struct Token **rest, struct Token *tok,
 	if (tag && !equal(tok, "{")) {
 		*rest = tok;
 
-		struct Type *ty2 = find_tag(tag);
+		// "struct tag;" declares a new type in its scope.
+		struct Type *ty2 = equal(tok, ";") ? find_scope_tag(tag) : find_tag(tag);
 		if (ty2 && ty2->kind != kind)
 			error_tok(tag, "not a %s tag",
 				  kind == TY_UNION ? "union" : "struct");
@@ -180,6 +181,14 @@ static struct Type *struct_union_decl(struct Token **rest, struct Token *tok,
 
 	tok = skip(tok, "{");
 
+	// The members can refer to the type.
+	if (tag && !find_scope_tag(tag)) {
+		struct Type *ty2 = struct_type();
+		ty2->kind = kind;
+		ty2->size = -1;
+		push_tag_scope(tag, ty2);
+	}
+
 	// Construct a struct object
 	struct_members(&tok, tok, ty);
 	// check attribute descriptor again
@@ -188,14 +197,8 @@ static struct Type *struct_union_decl(struct Token **rest, struct Token *tok,
 	// register the struct type if a name was given
 	if (tag) {
 		ty->tag = tag;
-
-		// If there is a redefinition, overwrite a previous type.
-		struct Type *ret = overwrite_tag(tag, ty);
-		if (ret)
-			return ret;
-
-		// Otherwise, register the struct type.
-		push_tag_scope(tag, ty);
+		// overwrite the type of previous declarations
+		return overwrite_tag(tag, ty);
 	}
 
 	return ty;
-- 
2.43.0


From 99ea1413180d93cc5974f49646b835f932bc08ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:36 +0000
Subject: [PATCH 071/122] fix: emit static inline functions that initializers
 refer to

---
 parser/common.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/parser/common.c b/parser/common.c
index 744ad5c..3e07895 100644
--- a/parser/common.c
+++ b/parser/common.c
@@ -25,6 +25,8 @@ static int64_t eval_rval(struct Node *node, const char ***label)
 
 			// return variable name
 			*label = &node->var->name;
+			if (node->var->is_function)
+				node->var->is_root = true;
 			return 0;
 
 		case ND_DEREF:
@@ -240,8 +242,13 @@ static int64_t eval_int(struct Node *node, const char ***label)
 		if (node->var->ty->kind != TY_ARRAY && node->var->ty->kind != TY_FUNC)
 			error_tok(node->tok, "invalid initializer");
 
+		if (node->var->is_local)
+			error_tok(node->tok, "not a compile-time constant");
+
 		// return label
 		*label = &node->var->name;
+		if (node->var->is_function)
+			node->var->is_root = true;
 		return 0;
 
 	case ND_NUM:
-- 
2.43.0


From 914cec87ad11cf2d82735f7174bea145bf58d390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:53 +0000
Subject: [PATCH 072/122] fix: apply _Alignas and _Thread_local to static local
 variables

---
 parser/declarator.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/declarator.c b/parser/declarator.c
index b5b9c0e..3df0cce 100644
--- a/parser/declarator.c
+++ b/parser/declarator.c
@@ -1032,6 +1032,10 @@ struct Node *declaration(struct Token **rest, struct Token *tok,
 			struct Obj *var = new_anon_gvar(ty);
 			push_scope(get_ident(ty->name))->var = var;
 
+			var->is_tls = attr->is_tls;
+			if (attr->align)
+				var->align = attr->align;
+
 			if (equal(tok, "="))
 				gvar_initializer(&tok, tok->next, var);
 			continue;
-- 
2.43.0


From 021575853d5e340d8dcffc25d775c22cb7223184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:11 +0000
Subject: [PATCH 073/122] fix: merge the declarations of a global variable

Two tentative definitions of a variable removed each other, so that no
definition was left, and the length and the alignment of previous
declarations were lost.
---
 codegen.c       |  2 +-
 parser/parser.c | 35 +++++++++++++++++++++++++++++++----
 parser/scope.c  | 31 ++++++++++++++++++++++++-------
 toycc.h         |  1 +
 4 files changed, 57 insertions(+), 12 deletions(-)

diff --git a/codegen.c b/codegen.c
index 8d2046a..106bd52 100644
--- a/codegen.c
+++ b/codegen.c
@@ -1958,7 +1958,7 @@ static void emit_data(struct Obj *prog)
 		else
 			println(".global %s", var->name);
 
-		if (get_opt_fcommon() && var->is_tentative) {
+		if (get_opt_fcommon() && var->is_tentative && !var->is_tls) {
 			// common symbol
 			println(".comm %s, %d, %d",
 				var->name, var->ty->size, var->align);
diff --git a/parser/parser.c b/parser/parser.c
index de828d6..331c75e 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -1584,6 +1584,17 @@ static struct Token *function(struct Token *tok, struct Type *ty, struct Obj *fn
 	return tok;
 }
 
+// Find a previous declaration of a global variable.
+static struct Obj *find_gvar(struct Token *tok)
+{
+	struct VarScope *sc = find_var(tok);
+	if (sc && sc->var && !sc->var->is_local && !sc->var->is_function &&
+	    equal(tok, sc->var->name))
+		return sc->var;
+
+	return NULL;
+}
+
 // global-declaration = (declarator ("=" initializer)?
 //			 ("," declarator ("=" initializer)?)*)? ";"
 //		      | declarator "{" compound-stmt
@@ -1611,19 +1622,35 @@ static struct Token *global_declaration(struct Token *tok, struct Type *basety,
 		if (!ty->name)
 			error_tok(ty->name_pos, "variable name omitted");
 
-		struct Obj *var = new_gvar(get_ident(ty->name), ty);
+		if (ty->kind == TY_VOID)
+			error_tok(ty->name, "variable declared void");
+
+		const char *name = get_ident(ty->name);
+		struct Token *name_tok = ty->name;
+		struct Obj *prev = find_gvar(ty->name);
+
+		// The length of an array may be known from a previous declaration.
+		if (prev && ty->kind == TY_ARRAY && ty->size < 0 &&
+		    prev->ty->kind == TY_ARRAY)
+			ty = prev->ty;
+
+		struct Obj *var = new_gvar(name, ty);
 
-		var->is_definition = !attr->is_extern;
-		var->is_static = attr->is_static;
+		var->tok = name_tok;
+		var->is_definition = !attr->is_extern || equal(tok, "=");
+		var->is_static = attr->is_static ||
+				 (attr->is_extern && prev && prev->is_static);
 		var->is_tls = attr->is_tls;
 
 		if (attr->align)
 			var->align = attr->align;
+		if (prev)
+			var->align = MAX(var->align, prev->align);
 
 		if (equal(tok, "="))
 			gvar_initializer(&tok, tok->next, var);
 
-		else if (!attr->is_extern && !attr->is_tls)
+		else if (!attr->is_extern)
 			var->is_tentative = true;
 	}
 	return tok;
diff --git a/parser/scope.c b/parser/scope.c
index 33aeb1d..6245d2a 100644
--- a/parser/scope.c
+++ b/parser/scope.c
@@ -168,7 +168,7 @@ bool is_global_scope(void)
 // Remove redundant tentative definitions.
 void scan_globals(void)
 {
-	struct Obj head;
+	struct Obj head = {};
 	struct Obj *cur = &head;
 
 	for (struct Obj *var = globals; var; var = var->next) {
@@ -177,17 +177,34 @@ void scan_globals(void)
 			continue;
 		}
 
-		// Find another definition of the same identifier.
+		// Find another definition of the same identifier. If there are
+		// only tentative ones, the last of them, which comes first in
+		// the list, is kept.
+		bool is_behind = false;
 		struct Obj *var2 = globals;
-		for (; var2; var2 = var2->next)
-			if (var != var2 && var2->is_definition &&
-			   !strcmp(var->name, var2->name))
+		for (; var2; var2 = var2->next) {
+			if (var == var2)
+				is_behind = true;
+			else if (var2->is_definition &&
+				 !(is_behind && var2->is_tentative) &&
+				 !strcmp(var->name, var2->name))
 				break;
+		}
 
 		// If there's another definition, the tentative definition
 		// is redundant
-		if (!var2)
-			cur = cur->next = var;
+		if (var2)
+			continue;
+
+		// The type may have been completed in the meantime. An array
+		// of unknown length has one element.
+		if (var->ty->kind == TY_ARRAY && var->ty->size < 0)
+			var->ty = array_of(var->ty->base, 1);
+		if (var->ty->size < 0)
+			error_tok(var->tok, "variable has incomplete type");
+		var->align = MAX(var->align, var->ty->align);
+
+		cur = cur->next = var;
 
 		// pass var definition
 	}
diff --git a/toycc.h b/toycc.h
index 24da948..ee0529b 100644
--- a/toycc.h
+++ b/toycc.h
@@ -279,6 +279,7 @@ struct Obj {
 	struct Obj *next;
 	const char *name;
 	struct Type *ty;	// Type
+	struct Token *tok;	// declaration of a global variable
 	bool is_local;		// local or global/function
 	int align;		// alignment
 
-- 
2.43.0


From 299267e44c4b2cff4fb0aea609463bf29b0dc563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:02 +0000
Subject: [PATCH 074/122] fix: subtract pointers to variable-length arrays

---
 parser/parser.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/parser/parser.c b/parser/parser.c
index 331c75e..ebf871a 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -757,7 +757,14 @@ static struct Node *new_sub(struct Node *lhs, struct Node *rhs, struct Token *to
 	if (lhs->ty->base && rhs->ty->base) {
 		struct Node *node = new_binary(ND_SUB, lhs, rhs, tok);
 		node->ty = p_ty_long();
-		return new_binary(ND_DIV, node, new_num(lhs->ty->base->size, tok), tok);
+
+		struct Node *size;
+		if (lhs->ty->base->kind == TY_VLA)
+			size = new_cast(new_var_node(lhs->ty->base->vla_size, tok),
+					p_ty_long());
+		else
+			size = new_num(lhs->ty->base->size, tok);
+		return new_binary(ND_DIV, node, size, tok);
 	}
 
 	// num - ptr
-- 
2.43.0


From a34e47c8860d437703400dd0b53cec433f9272ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:17 +0000
Subject: [PATCH 075/122] fix: compute the size of variable-length arrays where
 they are declared

The sizes of typedefs and of typeof() were computed anew in every
declaration, those of the types in casts never.
---
 parser/declarator.c | 33 +++++++++++++++++++++++++++++----
 parser/declarator.h |  3 ++-
 parser/parser.c     | 21 +++++++++++++++++----
 3 files changed, 48 insertions(+), 9 deletions(-)

diff --git a/parser/declarator.c b/parser/declarator.c
index 3df0cce..7a38186 100644
--- a/parser/declarator.c
+++ b/parser/declarator.c
@@ -957,6 +957,15 @@ struct Type *declarator(struct Token **rest, struct Token *tok, struct Type *ty)
 
 static struct Obj *builtin_alloca;
 
+// Returns true if a given type depends on the length of a VLA.
+bool is_variably_modified(struct Type *ty)
+{
+	for (; ty; ty = ty->base)
+		if (ty->kind == TY_VLA)
+			return true;
+	return false;
+}
+
 // Generate code for computing a VLA size.
 struct Node *compute_vla_size(struct Type *ty, struct Token *tok)
 {
@@ -965,14 +974,15 @@ struct Node *compute_vla_size(struct Type *ty, struct Token *tok)
 		node = new_binary(ND_COMMA, node,
 				compute_vla_size(ty->base, tok), tok);
 
-	if (ty->kind != TY_VLA)
+	// The size of a type is computed only once, where it is declared.
+	if (ty->kind != TY_VLA || ty->vla_size)
 		return node;
 
 	struct Node *base_sz;
 	if (ty->base->kind == TY_VLA)
 		base_sz = new_var_node(ty->base->vla_size, tok);
 	else
-		base_sz = new_num(ty->base->size, tok);
+		base_sz = new_ulong(ty->base->size, tok);
 
 	ty->vla_size = new_lvar("", p_ty_ulong());
 	struct Node *expr = new_binary(ND_ASSIGN,
@@ -1028,6 +1038,9 @@ struct Node *declaration(struct Token **rest, struct Token *tok,
 			error_tok(ty->name_pos, "variable name omitted");
 
 		if (attr && attr->is_static) {
+			if (ty->kind == TY_VLA)
+				error_tok(ty->name, "storage size is not constant");
+
 			// static local variable
 			struct Obj *var = new_anon_gvar(ty);
 			push_scope(get_ident(ty->name))->var = var;
@@ -1038,6 +1051,8 @@ struct Node *declaration(struct Token **rest, struct Token *tok,
 
 			if (equal(tok, "="))
 				gvar_initializer(&tok, tok->next, var);
+			if (var->ty->size < 0)
+				error_tok(ty->name_pos, "variable has incomplete type");
 			continue;
 		}
 
@@ -1091,8 +1106,10 @@ struct Node *declaration(struct Token **rest, struct Token *tok,
 	return node;
 }
 
-struct Token *parse_typedef(struct Token *tok, struct Type *basety)
+// Returns the computation of the sizes of variable-length arrays.
+struct Node *parse_typedef(struct Token **rest, struct Token *tok, struct Type *basety)
 {
+	struct Node *node = new_node(ND_NULL_EXPR, tok);
 	bool first = true;
 
 	while (!consume(&tok, tok, ";")) {
@@ -1105,9 +1122,17 @@ struct Token *parse_typedef(struct Token *tok, struct Type *basety)
 			error_tok(ty->name_pos, "typedef name omitted");
 
 		push_scope(get_ident(ty->name))->type_def = ty;
+
+		if (is_variably_modified(ty)) {
+			if (is_global_scope())
+				error_tok(ty->name, "variably modified type at file scope");
+			node = new_binary(ND_COMMA, node,
+					  compute_vla_size(ty, tok), tok);
+		}
 	}
 
-	return tok;
+	*rest = tok;
+	return new_unary(ND_EXPR_STMT, node, tok);
 }
 
 void declare_builtin_functions(void)
diff --git a/parser/declarator.h b/parser/declarator.h
index b22dac4..2419c06 100644
--- a/parser/declarator.h
+++ b/parser/declarator.h
@@ -17,7 +17,8 @@ struct Token *skip_parens(struct Token *tok);
 struct Type *declarator(struct Token **rest, struct Token *tok, struct Type *ty);
 struct Node *declaration(struct Token **rest, struct Token *tok,
 			 struct Type *basety, struct VarAttr *attr);
-struct Token *parse_typedef(struct Token *tok, struct Type *basety);
+struct Node *parse_typedef(struct Token **rest, struct Token *tok, struct Type *basety);
+bool is_variably_modified(struct Type *ty);
 void declare_builtin_functions(void);
 struct Obj *declare_function(struct Token *tok, struct Type *ty,
 			     const struct VarAttr *attr);
diff --git a/parser/parser.c b/parser/parser.c
index ebf871a..6f67615 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -134,6 +134,14 @@ static struct Node *generic_selection(struct Token **rest, struct Token *tok)
 // 	rest: return current tok pointer
 static struct Node *compound_stmt(struct Token **rest, struct Token *tok);
 static struct Node *unary(struct Token **rest, struct Token *tok);
+// A VLA is represented by a pointer, but aligned as its elements.
+static int align_of(struct Type *ty)
+{
+	while (ty->kind == TY_VLA)
+		ty = ty->base;
+	return ty->align;
+}
+
 // Returns true if a type name in parentheses is at tok that does not
 // start a compound literal.
 static bool is_typename_parens(struct Token *tok)
@@ -209,14 +217,14 @@ static struct Node *primary(struct Token **rest, struct Token *tok)
 
 		struct Type *ty = typename(&tok, tok->next->next);
 		*rest = skip(tok, ")");
-		return new_ulong(ty->align, tok);
+		return new_ulong(align_of(ty), tok);
 	}
 
 	if (equal(tok, "_Alignof")) {
 		struct Node *node = unary(rest, tok->next);
 		add_type(node);
 
-		return new_ulong(node->ty->align, tok);
+		return new_ulong(align_of(node->ty), tok);
 	}
 
 	if (equal(tok, "_Generic"))
@@ -660,6 +668,8 @@ static struct Node *cast(struct Token **rest, struct Token *tok)
 		// type cast
 		struct Node *n = new_cast(cast(rest, tok), ty);
 		n->tok = start;
+		if (is_variably_modified(ty))
+			n = new_binary(ND_COMMA, compute_vla_size(ty, start), n, start);
 		return n;
 	}
 
@@ -1631,6 +1641,8 @@ static struct Token *global_declaration(struct Token *tok, struct Type *basety,
 
 		if (ty->kind == TY_VOID)
 			error_tok(ty->name, "variable declared void");
+		if (is_variably_modified(ty))
+			error_tok(ty->name, "variably modified type at file scope");
 
 		const char *name = get_ident(ty->name);
 		struct Token *name_tok = ty->name;
@@ -1679,7 +1691,8 @@ static struct Node *compound_stmt(struct Token **rest, struct Token *tok)
 			struct Type *basety = declspec(&tok, tok, &attr);
 
 			if (attr.is_typedef) {
-				tok = parse_typedef(tok, basety);
+				cur = cur->next = parse_typedef(&tok, tok, basety);
+				add_type(cur);
 				continue;
 			}
 
@@ -1716,7 +1729,7 @@ struct Obj *parser(struct Token *tok)
 
 		// typedef
 		if (attr.is_typedef) {
-			tok = parse_typedef(tok, basety);
+			parse_typedef(&tok, tok, basety);
 			continue;
 		}
 
-- 
2.43.0


From 0769a77518c0d9867667ff4ca146814aacdc7a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:33 +0000
Subject: [PATCH 076/122] fix: report statement expressions and labels outside
 of functions

---
 parser/parser.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parser/parser.c b/parser/parser.c
index 6f67615..6702299 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -167,6 +167,9 @@ static struct Node *primary(struct Token **rest, struct Token *tok)
 
 	if (equal(tok, "(") && equal(tok->next, "{")) {
 		// This is a GNU statement expression.
+		if (is_global_scope())
+			error_tok(tok, "statement expression outside of a function");
+
 		struct Node *n = new_node(ND_STMT_EXPR, tok);
 
 		n->body = compound_stmt(&tok, tok->next->next)->body;
@@ -883,6 +886,9 @@ static struct Node *unary(struct Token **rest, struct Token *tok)
 
 	// [GNU] labels-as-values
 	if (equal(tok, "&&")) {
+		if (is_global_scope())
+			error_tok(tok, "label outside of a function");
+
 		struct Node *node = new_node(ND_LABEL_VAL, tok);
 		node->label = get_ident(tok->next);
 		node->goto_next = gotos;
-- 
2.43.0


From a9dec95cf62e796e58b720dbe844d28d8491c798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:06 +0000
Subject: [PATCH 077/122] fix: read the size of a variable-length array after
 it is computed

---
 parser/parser.c | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/parser/parser.c b/parser/parser.c
index 6702299..c3fef39 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -671,7 +671,7 @@ static struct Node *cast(struct Token **rest, struct Token *tok)
 		// type cast
 		struct Node *n = new_cast(cast(rest, tok), ty);
 		n->tok = start;
-		if (is_variably_modified(ty))
+		if (is_variably_modified(ty) && !is_global_scope())
 			n = new_binary(ND_COMMA, compute_vla_size(ty, start), n, start);
 		return n;
 	}
@@ -721,6 +721,25 @@ static struct Node *new_long(int64_t val, struct Token *tok)
 // so that p+n points to the location n elements (not bytes) ahead of p.
 // In other words, we need to scale an integer value before adding to a
 // pointer value. This function takes care of the scaling.
+// Returns true if a given node is a pointer to VLA whose size may be
+// computed along with the value of the pointer, as in a cast.
+static bool is_vla_pointer(struct Node *node)
+{
+	return node->kind != ND_VAR && node->ty->base &&
+	       node->ty->base->kind == TY_VLA;
+}
+
+// Evaluate a pointer to VLA before the size of the VLA is read.
+// Replaces the pointer with a variable.
+static struct Node *hoist_vla_pointer(struct Node **node, struct Token *tok)
+{
+	struct Obj *var = new_lvar("", pointer_to((*node)->ty->base));
+	struct Node *expr = new_binary(ND_ASSIGN, new_var_node(var, tok), *node, tok);
+
+	*node = new_var_node(var, tok);
+	return expr;
+}
+
 struct Node *new_add(struct Node *lhs, struct Node *rhs, struct Token *tok)
 {
 	add_type(lhs);
@@ -744,6 +763,11 @@ struct Node *new_add(struct Node *lhs, struct Node *rhs, struct Token *tok)
 	if (!lhs->ty->base || !is_integer(rhs->ty))
 		error_tok(tok, "invalid operands");
 
+	if (is_vla_pointer(lhs)) {
+		struct Node *expr = hoist_vla_pointer(&lhs, tok);
+		return new_binary(ND_COMMA, expr, new_add(lhs, rhs, tok), tok);
+	}
+
 	// VLA + num
 	if (lhs->ty->base->kind == TY_VLA) {
 		rhs = new_binary(ND_MUL, rhs,
@@ -766,6 +790,11 @@ static struct Node *new_sub(struct Node *lhs, struct Node *rhs, struct Token *to
 	if (is_numeric(lhs->ty) && is_numeric(rhs->ty))
 		return new_binary(ND_SUB, lhs, rhs, tok);
 
+	if (is_vla_pointer(lhs)) {
+		struct Node *expr = hoist_vla_pointer(&lhs, tok);
+		return new_binary(ND_COMMA, expr, new_sub(lhs, rhs, tok), tok);
+	}
+
 	// ptr - ptr, which returns how many elements are between the two.
 	if (lhs->ty->base && rhs->ty->base) {
 		struct Node *node = new_binary(ND_SUB, lhs, rhs, tok);
-- 
2.43.0


From c7a35c927581962efc24222700d57911699dd703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:37 +0000
Subject: [PATCH 078/122] fix: report invalid alignments

---
 parser/declarator.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/parser/declarator.c b/parser/declarator.c
index 7a38186..4e0e6f1 100644
--- a/parser/declarator.c
+++ b/parser/declarator.c
@@ -109,6 +109,17 @@ static void struct_members(struct Token **rest, struct Token *tok, struct Type *
 	ty->members = head.next;
 }
 
+// Read an alignment, which must be a power of two.
+static int alignment(struct Token **rest, struct Token *tok)
+{
+	struct Token *start = tok;
+	int64_t val = const_expr(rest, tok);
+
+	if (val < 0 || val > (1 << 28) || (val & (val - 1)))
+		error_tok(start, "invalid alignment");
+	return val;
+}
+
 // attribute = ("__attribute__" "(" "(" "packed" ")" ")")*
 static struct Token *attribute_list(struct Token *tok, struct Type *ty)
 {
@@ -130,7 +141,9 @@ static struct Token *attribute_list(struct Token *tok, struct Type *ty)
 
 			if (consume(&tok, tok, "aligned")) {
 				tok = skip(tok, "(");
-				ty->align = const_expr(&tok, tok);
+				int align = alignment(&tok, tok);
+				if (align)
+					ty->align = align;
 				tok = skip(tok, ")");
 				continue;
 			}
@@ -623,7 +636,7 @@ struct Type *declspec(struct Token **rest, struct Token *tok,
 			if (is_typename(tok)) {
 				attr->align = typename(&tok, tok)->align;
 			} else {
-				attr->align = const_expr(&tok, tok);
+				attr->align = alignment(&tok, tok);
 			}
 
 			tok = skip(tok, ")");
-- 
2.43.0


From eff8da17d37a634fc05b5350dad8d7e1e387446a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:52 +0000
Subject: [PATCH 079/122] fix: give parameters a scope of their own

The length of an array parameter was looked up outside of the function,
and tags that were declared in the parameters were visible behind it.
---
 parser/declarator.c | 45 ++++++++++++++++++++++++++++++++-------------
 parser/parser.c     | 20 +++++++++++++++++---
 parser/scope.c      | 43 +++++++++++++++++++++++++++++++++++++++++--
 parser/scope.h      |  6 ++++++
 type.h              |  2 ++
 5 files changed, 98 insertions(+), 18 deletions(-)

diff --git a/parser/declarator.c b/parser/declarator.c
index 4e0e6f1..8a5b271 100644
--- a/parser/declarator.c
+++ b/parser/declarator.c
@@ -27,6 +27,15 @@ static bool is_complete(struct Type *ty)
 	return ty->size >= 0;
 }
 
+// Returns true if a given type depends on the length of a VLA.
+bool is_variably_modified(struct Type *ty)
+{
+	for (; ty; ty = ty->base)
+		if (ty->kind == TY_VLA)
+			return true;
+	return false;
+}
+
 // struct-members = (declspec declarator ("," declarator)* ";")*
 static void struct_members(struct Token **rest, struct Token *tok, struct Type *ty)
 {
@@ -85,7 +94,7 @@ static void struct_members(struct Token **rest, struct Token *tok, struct Type *
 			}
 
 			// Only the last member may be a flexible array.
-			if (mem->ty->kind == TY_VLA ||
+			if (is_variably_modified(mem->ty) ||
 			    (!is_complete(mem->ty) &&
 			     !(mem->ty->kind == TY_ARRAY && equal(tok, ";") &&
 			       equal(tok->next, "}"))))
@@ -453,8 +462,13 @@ static struct Type *abstract_declarator(struct Token **rest, struct Token *tok,
 
 struct Type *typename(struct Token **rest, struct Token *tok)
 {
+	struct Token *start = tok;
 	struct Type *base = declspec(&tok, tok, NULL);
-	return abstract_declarator(rest, tok, base);
+	struct Type *ty = abstract_declarator(rest, tok, base);
+
+	if (is_variably_modified(ty) && is_global_scope())
+		error_tok(start, "variably modified type at file scope");
+	return ty;
 }
 
 static struct Type *find_typedef(struct Token *tok)
@@ -784,6 +798,8 @@ static struct Type *func_params(struct Token **rest, struct Token *tok, struct T
 	struct Type *cur = &head;
 	bool is_variadic = false;
 
+	enter_param_scope(NULL);
+
 	while (!equal(tok, ")")) {
 		if (cur != &head)
 			tok = skip(tok, ",");
@@ -801,7 +817,7 @@ static struct Type *func_params(struct Token **rest, struct Token *tok, struct T
 		struct Token *name = ty2->name;
 		struct Token *name_pos = ty2->name_pos;
 
-		if (ty2->kind == TY_ARRAY) {
+		if (ty2->kind == TY_ARRAY || ty2->kind == TY_VLA) {
 			// "array of T" is converted to "pointer to T" only
 			//  in the parameter context.
 			// For example, *argv[] is converted to **argv by this.
@@ -819,9 +835,14 @@ static struct Type *func_params(struct Token **rest, struct Token *tok, struct T
 
 		cur->next = copy_type(ty2);
 		cur = cur->next;
+
+		// The following parameters can refer to it.
+		if (name)
+			cur->param = new_param(get_ident(name), cur);
 	}
 
 	ty = func_type(ty);
+	ty->param_scope = leave_param_scope();
 	ty->params = head.next;
 	ty->is_variadic = is_variadic;
 
@@ -881,9 +902,16 @@ static bool is_const_expr(struct Node *node)
 static struct Type *array_dimension(struct Token **rest, struct Token *tok,
 				    struct Type *ty)
 {
-	while (equal(tok, "static") || equal(tok, "restrict"))
+	while (equal(tok, "static") || equal(tok, "restrict") ||
+	       equal(tok, "const") || equal(tok, "volatile"))
 		tok = tok->next;
 
+	// [*] is a VLA of unspecified size in a function prototype.
+	if (equal(tok, "*") && equal(tok->next, "]")) {
+		ty = type_suffix(rest, tok->next->next, ty);
+		return vla_of(ty, new_num(1, tok));
+	}
+
 	if (equal(tok, "]")) {
 		ty = type_suffix(rest, tok->next, ty);
 		if (!is_complete(ty))
@@ -970,15 +998,6 @@ struct Type *declarator(struct Token **rest, struct Token *tok, struct Type *ty)
 
 static struct Obj *builtin_alloca;
 
-// Returns true if a given type depends on the length of a VLA.
-bool is_variably_modified(struct Type *ty)
-{
-	for (; ty; ty = ty->base)
-		if (ty->kind == TY_VLA)
-			return true;
-	return false;
-}
-
 // Generate code for computing a VLA size.
 struct Node *compute_vla_size(struct Type *ty, struct Token *tok)
 {
diff --git a/parser/parser.c b/parser/parser.c
index c3fef39..7c1a234 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -671,7 +671,7 @@ static struct Node *cast(struct Token **rest, struct Token *tok)
 		// type cast
 		struct Node *n = new_cast(cast(rest, tok), ty);
 		n->tok = start;
-		if (is_variably_modified(ty) && !is_global_scope())
+		if (is_variably_modified(ty))
 			n = new_binary(ND_COMMA, compute_vla_size(ty, start), n, start);
 		return n;
 	}
@@ -1517,7 +1517,7 @@ static void create_param_lvars(struct Type *param)
 			error_tok(param->name_pos, "parameter name omitted");
 
 		// locals -> arg1 -> arg2 -> ... -> argn
-		new_lvar(get_ident(param->name), param);
+		add_lvar(param->param);
 	}
 }
 
@@ -1599,7 +1599,7 @@ static struct Token *function(struct Token *tok, struct Type *ty, struct Obj *fn
 	current_fn = fn;
 	// initialize local variables list
 	init_locals();
-	enter_scope();
+	enter_param_scope(ty->param_scope);
 
 	create_param_lvars(ty->params);
 	// A buffer for a struct/union return value is passed
@@ -1628,7 +1628,21 @@ static struct Token *function(struct Token *tok, struct Type *ty, struct Obj *fn
 	push_scope("__FUNCTION__")->var =
 		new_string_literal(fn->name, array_of(p_ty_char(), strlen(fn->name) + 1));
 
+	// compute the sizes of the types of the parameters
+	struct Node *sizes = new_node(ND_NULL_EXPR, tok);
+	for (struct Type *param = ty->params; param; param = param->next)
+		if (is_variably_modified(param))
+			sizes = new_binary(ND_COMMA, sizes,
+					   compute_vla_size(param, tok), tok);
+
 	fn->body = compound_stmt(&tok, tok);
+
+	if (sizes->kind == ND_COMMA) {
+		struct Node *stmt = new_unary(ND_EXPR_STMT, sizes, sizes->tok);
+		add_type(stmt);
+		stmt->next = fn->body->body;
+		fn->body->body = stmt;
+	}
 	fn->locals = ret_locals();
 	leave_scope();
 
diff --git a/parser/scope.c b/parser/scope.c
index 6245d2a..926aa51 100644
--- a/parser/scope.c
+++ b/parser/scope.c
@@ -45,6 +45,27 @@ void leave_scope(void)
 	scope = scope->next;
 }
 
+// Enter a new scope of parameters, or the one of a function definition again
+void enter_param_scope(struct Scope *sc)
+{
+	if (!sc) {
+		enter_scope();
+		scope->is_params = true;
+		return;
+	}
+
+	sc->next = scope;
+	scope = sc;
+}
+
+struct Scope *leave_param_scope(void)
+{
+	struct Scope *sc = scope;
+
+	leave_scope();
+	return sc;
+}
+
 struct VarScope *find_var(struct Token *tok)
 {
 	for (struct Scope *sc = scope; sc; sc = sc->next) {
@@ -125,12 +146,24 @@ static struct Obj *new_var(const char *name, struct Type *ty)
 	return var;
 }
 
-struct Obj *new_lvar(const char *name, struct Type *ty)
+// create variable for a parameter that is not linked yet
+struct Obj *new_param(const char *name, struct Type *ty)
 {
 	struct Obj *var = new_var(name, ty);
 	var->is_local = true;
+	return var;
+}
+
+void add_lvar(struct Obj *var)
+{
 	var->next = locals;
 	locals = var;
+}
+
+struct Obj *new_lvar(const char *name, struct Type *ty)
+{
+	struct Obj *var = new_param(name, ty);
+	add_lvar(var);
 	return var;
 }
 
@@ -161,8 +194,14 @@ struct Obj *new_string_literal(const char *p, struct Type *ty)
 
 bool is_global_scope(void)
 {
+	struct Scope *sc = scope;
+
+	// parameters belong to the scope of their function
+	while (sc->is_params)
+		sc = sc->next;
+
 	// the last scope is the global scope
-	return scope->next == NULL;
+	return sc->next == NULL;
 }
 
 // Remove redundant tentative definitions.
diff --git a/parser/scope.h b/parser/scope.h
index 59da195..658798e 100644
--- a/parser/scope.h
+++ b/parser/scope.h
@@ -21,6 +21,8 @@ struct Scope {
 	struct HashMap vars;
 	// and the other is for struct/union/enum tags.
 	struct HashMap tags;
+
+	bool is_params;		// scope of function parameters
 };
 
 void init_locals(void);
@@ -30,6 +32,8 @@ struct Obj *ret_globals(void);
 
 void enter_scope(void);
 void leave_scope(void);
+void enter_param_scope(struct Scope *sc);
+struct Scope *leave_param_scope(void);
 
 struct Type *find_tag(struct Token *tok);
 struct Type *find_scope_tag(struct Token *tok);
@@ -39,6 +43,8 @@ void push_tag_scope(struct Token *tok, struct Type *ty);
 struct VarScope *push_scope(const char *name);
 struct Type *overwrite_tag(struct Token *tok, struct Type *ty);
 
+struct Obj *new_param(const char *name, struct Type *ty);
+void add_lvar(struct Obj *var);
 struct Obj *new_lvar(const char *name, struct Type *ty);
 struct Obj *new_gvar(const char *name, struct Type *ty);
 struct Obj *new_anon_gvar(struct Type *ty);
diff --git a/type.h b/type.h
index f528503..cd6a3b3 100644
--- a/type.h
+++ b/type.h
@@ -17,6 +17,7 @@ struct Type {
 	// declaration
 	struct Token *name;
 	struct Token *name_pos;
+	struct Obj *param;	// variable of a parameter
 
 	// Array
 	int array_len;
@@ -36,6 +37,7 @@ struct Type {
 	// function type
 	struct Type *return_ty;
 	struct Type *params;
+	struct Scope *param_scope;
 	bool is_variadic;
 	struct Type *next;
 };
-- 
2.43.0


From 94c71b8d68963f5c9edaaeb8d13517789f0aa977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:17 +0000
Subject: [PATCH 080/122] fix: let a function definition declare the parameters

---
 parser/parser.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/parser.c b/parser/parser.c
index 7c1a234..29e9207 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -1579,6 +1579,10 @@ struct Obj *declare_function(struct Token *tok, struct Type *ty,
 
 		fn->is_definition = fn->is_definition || equal(tok, "{");
 
+		// int f() does not declare any parameters.
+		if (equal(tok, "{") || ty->params)
+			fn->ty = ty;
+
 		// The declaration may be hidden in the current scope.
 		if (!is_global_scope())
 			push_scope(name_str)->var = fn;
-- 
2.43.0


From 9e90e828aca5d69140ced348bbd5f8651113051e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:02 +0000
Subject: [PATCH 081/122] fix: report every option without its argument

---
 main.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/main.c b/main.c
index cc67076..a02bbb2 100644
--- a/main.c
+++ b/main.c
@@ -78,11 +78,17 @@ static bool take_arg(const char *arg)
 	const char *x[] = {
 		"-o",
 		"-I",
+		"-D",
+		"-U",
+		"-L",
 		"-idirafter",
 		"-include",
 		"-x",
 		"-MF",
 		"-MT",
+		"-MQ",
+		"-cc1-input",
+		"-cc1-output",
 		"-Xlinker",
 	};
 
-- 
2.43.0


From f547d5d513ed0f12f7c31d8826565a87e2436c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:22 +0000
Subject: [PATCH 082/122] fix: report outputs that cannot be written

---
 main.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/main.c b/main.c
index a02bbb2..30127a9 100644
--- a/main.c
+++ b/main.c
@@ -420,6 +420,17 @@ static FILE *open_file(const char *path)
 	return out;
 }
 
+static void close_file(FILE *out)
+{
+	bool failed = ferror(out);
+
+	// keep stdout open
+	if (out == stdout ? fflush(out) : fclose(out))
+		failed = true;
+	if (failed)
+		error("cannot write output file: %s", strerror(errno));
+}
+
 static void run_subprocess(const char **argv)
 {
 	// if -### is given, dump the subprocess's command line
@@ -492,6 +503,7 @@ static void print_tokens(struct Token *tok)
 		prev = tok;
 	}
 	fprintf(out, "\n");
+	close_file(out);
 }
 
 static struct Token *must_tokenize_file(const char *path)
@@ -571,6 +583,7 @@ static void print_dependencies(void)
 	if (opt_MP)
 		for (int i = 1; files[i]; i++)
 			fprintf(out, "%s:\n\n", quote_makefile(files[i]->name));
+	close_file(out);
 }
 
 static void cc1(void)
@@ -633,7 +646,7 @@ static void cc1(void)
 	// Write the assembly text to a file.
 	FILE *out = open_file(output_file);
 	fwrite(buf, buflen, 1, out);
-	fclose(out);
+	close_file(out);
 }
 
 static void cleanup(void)
-- 
2.43.0


From 6721e853a849b10aac55068e088e91c67becbe20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:38 +0000
Subject: [PATCH 083/122] fix: check the status of the very process that was
 started

---
 main.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/main.c b/main.c
index 30127a9..a1f9a68 100644
--- a/main.c
+++ b/main.c
@@ -441,7 +441,11 @@ static void run_subprocess(const char **argv)
 		fprintf(stderr, "\n");
 	}
 
-	if (fork() == 0) {
+	int pid = fork();
+	if (pid < 0)
+		error("fork failed: %s", strerror(errno));
+
+	if (pid == 0) {
 		// child process: run a new command
 		execvp(argv[0], (char *const *)argv);
 		fprintf(stderr, "exec failed: %s: %s\n",
@@ -449,10 +453,9 @@ static void run_subprocess(const char **argv)
 		_exit(1);
 	}
 
-	// wait for the child processes to finish
+	// wait for the child process to finish
 	int status;
-	while (wait(&status) > 0);
-	if (status)
+	if (waitpid(pid, &status, 0) != pid || status)
 		exit(1);
 }
 
-- 
2.43.0


From 3561183cfde99651ebf320effbbb6233e138ea59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:55 +0000
Subject: [PATCH 084/122] fix: link assembly files unless -c is given

---
 main.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/main.c b/main.c
index a1f9a68..38c0eac 100644
--- a/main.c
+++ b/main.c
@@ -908,9 +908,15 @@ int main(int argc, const char **argv)
 
 		// handle .s
 		if (type == FILE_ASM) {
-			if (!opt_S)
-				// .s -> .o
-				assemble(input, output);
+			if (opt_S || opt_M)
+				continue;
+
+			if (!opt_c) {
+				// .s -> .o -> binary
+				output = create_tmpfile();
+				strarray_push(&ld_args, output);
+			}
+			assemble(input, output);
 			continue;
 		}
 
-- 
2.43.0


From 840f2dee8d21d197aa84ea81d02adcd10998d764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:13 +0000
Subject: [PATCH 085/122] fix: report input files that cannot be read

---
 preprocessor/preprocess.c | 2 +-
 tokenize.c                | 7 +++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/preprocessor/preprocess.c b/preprocessor/preprocess.c
index 3bdffc1..e7705b0 100644
--- a/preprocessor/preprocess.c
+++ b/preprocessor/preprocess.c
@@ -926,7 +926,7 @@ static const char *read_include_filename(struct Token **rest, struct Token *tok,
 bool file_exists(const char *path)
 {
 	struct stat st;
-	return !stat(path, &st);
+	return !stat(path, &st) && !S_ISDIR(st.st_mode);
 }
 
 // Detect the following "include guard" pattern.
diff --git a/tokenize.c b/tokenize.c
index 4ec0cab..7b2b3dc 100644
--- a/tokenize.c
+++ b/tokenize.c
@@ -761,8 +761,15 @@ static char *read_file(const char *path)
 		fwrite(buf2, 1, n, out);
 	}
 
+	bool failed = ferror(fp);
+	int err = errno;
+
 	if (fp != stdin)
 		fclose(fp);
+	if (failed) {
+		errno = err;
+		return NULL;
+	}
 
 	// make sure that the last line is properly terminated with '\n'
 	fflush(out);
-- 
2.43.0


From 743d38d43c4e119a3459916229cffb97febfd5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:33 +0000
Subject: [PATCH 086/122] fix: do not link if only compilation was asked for

---
 main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main.c b/main.c
index 38c0eac..aaa0300 100644
--- a/main.c
+++ b/main.c
@@ -953,7 +953,7 @@ int main(int argc, const char **argv)
 		strarray_push(&ld_args, tmp2);
 	}
 
-	if (ld_args.len)
+	if (ld_args.len && !opt_c && !opt_S && !opt_E && !opt_M)
 		run_linker(&ld_args, opt_o ? opt_o : "a.out");
 
 	return 0;
-- 
2.43.0


From e5da07c0758b56b41deb97dda0f9483120c3691c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:52 +0000
Subject: [PATCH 087/122] fix: list every dependency once and quoted

A header that was read several times was listed several times, special
characters in names were not quoted, and with -include the source file
got a phony target.
---
 main.c | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/main.c b/main.c
index aaa0300..d7db11c 100644
--- a/main.c
+++ b/main.c
@@ -553,6 +553,23 @@ static bool in_std_include_path(const char *path)
 	return false;
 }
 
+// Returns true if a header is to be listed, which is done once
+// even if it was read several times.
+static bool is_dependency(struct File **files, int idx)
+{
+	const char *name = files[idx]->name;
+
+	if (opt_MMD && in_std_include_path(name))
+		return false;
+	if (!strcmp(name, base_file))
+		return false;
+
+	for (int i = 0; i < idx; i++)
+		if (!strcmp(name, files[i]->name))
+			return false;
+	return true;
+}
+
 // If -M options is given, the compiler write a list of input files to
 // stdout in a format that "make" command can read.
 // This feature is used to automate file dependency management.
@@ -576,15 +593,16 @@ static void print_dependencies(void)
 
 	struct File **files = get_input_files();
 
-	for (int i = 0; files[i]; i++) {
-		if (opt_MMD && in_std_include_path(files[i]->name))
-			continue;
-		fprintf(out, " \\\n\t%s", files[i]->name);
-	}
+	// The source file comes first. It has no phony target.
+	fprintf(out, " \\\n\t%s", quote_makefile(base_file));
+
+	for (int i = 0; files[i]; i++)
+		if (is_dependency(files, i))
+			fprintf(out, " \\\n\t%s", quote_makefile(files[i]->name));
 	fprintf(out, "\n");
 
-	if (opt_MP)
-		for (int i = 1; files[i]; i++)
+	for (int i = 0; opt_MP && files[i]; i++)
+		if (is_dependency(files, i))
 			fprintf(out, "%s:\n\n", quote_makefile(files[i]->name));
 	close_file(out);
 }
-- 
2.43.0


From f306bcef22d22bb29c44174ae5f46a54e8f56f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:09 +0000
Subject: [PATCH 088/122] fix: let -MD refer to the output file that -o names

---
 main.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/main.c b/main.c
index d7db11c..b8ab596 100644
--- a/main.c
+++ b/main.c
@@ -542,6 +542,14 @@ static const char *replace_extn(const char *tmpl, const char *extn)
 	return format("%s%s", filename, extn);
 }
 
+// Replace file extension, but keep the directory
+static const char *replace_path_extn(const char *path, const char *extn)
+{
+	if (!strchr(path, '/'))
+		return replace_extn(path, extn);
+	return format("%s/%s", dirname(strdup(path)), replace_extn(path, extn));
+}
+
 static bool in_std_include_path(const char *path)
 {
 	for (int i = 0; i < std_include_paths.len; i++) {
@@ -579,7 +587,8 @@ static void print_dependencies(void)
 	if (opt_MF)
 		path = opt_MF;
 	else if (opt_MD)
-		path = replace_extn(opt_o ? opt_o : base_file, ".d");
+		path = opt_o ? replace_path_extn(opt_o, ".d") :
+			       replace_extn(base_file, ".d");
 	else if (opt_o)
 		path = opt_o;
 	else
@@ -588,6 +597,8 @@ static void print_dependencies(void)
 	FILE *out = open_file(path);
 	if (opt_MT)
 		fprintf(out, "%s:", opt_MT);
+	else if (opt_o && opt_MD && !opt_M && !opt_E)
+		fprintf(out, "%s:", quote_makefile(opt_o));
 	else
 		fprintf(out, "%s:", quote_makefile(replace_extn(base_file, ".o")));
 
-- 
2.43.0


From f081dae6025cd9c51fbff6ef94aae84f990f3a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:22 +0000
Subject: [PATCH 089/122] fix: accept -l and -Wl together with -c and -o

---
 main.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/main.c b/main.c
index b8ab596..c4cf512 100644
--- a/main.c
+++ b/main.c
@@ -895,7 +895,14 @@ int main(int argc, const char **argv)
 		return 0;
 	}
 
-	if (input_paths.len > 1 && opt_o && (opt_c || opt_S || opt_E))
+	// libraries and linker options are no files
+	int nr_files = 0;
+	for (int i = 0; i < input_paths.len; i++)
+		if (strncmp(input_paths.data[i], "-l", 2) &&
+		    strncmp(input_paths.data[i], "-Wl,", 4))
+			nr_files++;
+
+	if (nr_files > 1 && opt_o && (opt_c || opt_S || opt_E))
 		error("cannot specify '-o' with '-c', '-S' or '-E' with multiple files");
 
 	for (int i = 0; i < input_paths.len; i++) {
-- 
2.43.0


From 2840978cb5bf1b672422ba3f8e737427fb54841f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:00 +0000
Subject: [PATCH 090/122] fix: compile with SIGCHLD ignored by the parent
 process

---
 main.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/main.c b/main.c
index c4cf512..9383ae1 100644
--- a/main.c
+++ b/main.c
@@ -1,6 +1,7 @@
 #include <toycc.h>
 #include <sys/types.h>
 #include <sys/wait.h>
+#include <signal.h>
 #include <unistd.h>
 #include <libgen.h>
 #include <glob.h>
@@ -885,6 +886,10 @@ int main(int argc, const char **argv)
 	const char *input, *output;
 	struct StringArray ld_args = {};
 
+	// The status of children is not available if the parent process
+	// made us ignore SIGCHLD.
+	signal(SIGCHLD, SIG_DFL);
+
 	atexit(cleanup);
 	init_macros();
 	parse_args(argc, argv);
-- 
2.43.0


From b47babe7719e0130ff0db2447d310a952005bce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:36 +0000
Subject: [PATCH 091/122] fix: address thread-local variables relative to tp
 without -fpic

---
 codegen.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/codegen.c b/codegen.c
index 106bd52..fa445e9 100644
--- a/codegen.c
+++ b/codegen.c
@@ -209,10 +209,19 @@ static void gen_addr(struct Node *node)
 
 		// Thread-local variable
 		if (node->var->is_tls) {
+			if (!node->var->is_definition) {
+				// It may be defined by a DSO, so the offset
+				// from tp is loaded from the GOT table.
+				println("\tla.tls.ie a0, %s", node->var->name);
+				println("\tadd a0, a0, tp");
+				return;
+			}
+
 			// HI20
-			println("\tauipc a0, %%tprel_hi(%s)", node->var->name);
+			println("\tlui a0, %%tprel_hi(%s)", node->var->name);
+			println("\tadd a0, a0, tp, %%tprel_add(%s)", node->var->name);
 			// LO12
-			println("\tadd a0, a0, %%tprel_lo(%s)", node->var->name);
+			println("\taddi a0, a0, %%tprel_lo(%s)", node->var->name);
 			return;
 		}
 
-- 
2.43.0


From 46871832ae3326f11c08d49076af33e674967504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:50 +0000
Subject: [PATCH 092/122] fix: align the stack at calls to __tls_get_addr

---
 codegen.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/codegen.c b/codegen.c
index fa445e9..ab9cb81 100644
--- a/codegen.c
+++ b/codegen.c
@@ -163,11 +163,18 @@ static void pseudo_addressing(const char *symbol)
 static void TLS_relative_addressing(const char *symbol)
 {
 	int c = count();
-	println(".L.pcrel%d:", c);
 
+	// keep the stack aligned at the call
+	if (depth % 2)
+		println("\taddi sp, sp, -8");
+
+	println(".L.pcrel%d:", c);
 	println("\tauipc a0, %%tls_gd_pcrel_hi(%s)", symbol);
 	println("\taddi a0, a0, %%pcrel_lo(.L.pcrel%d)", c);
 	println("\tcall __tls_get_addr@plt");
+
+	if (depth % 2)
+		println("\taddi sp, sp, 8");
 }
 
 // Compute the absolute address of a given node.
-- 
2.43.0


From 13444fa061ea08f90caf1710bbdc9052d1ad04a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:36 +0000
Subject: [PATCH 093/122] fix: compare-and-swap and exchange objects of 1, 2
 and 8 bytes and floats

The operands are kept on the stack while the others are evaluated, and are
converted to the type of the object.
---
 codegen.c | 176 ++++++++++++++++++++++++++++++++++++++++--------------
 type.c    |  13 ++++
 2 files changed, 144 insertions(+), 45 deletions(-)

diff --git a/codegen.c b/codegen.c
index ab9cb81..e4cfd68 100644
--- a/codegen.c
+++ b/codegen.c
@@ -1145,6 +1145,133 @@ static void store_packed_bitfield(struct Member *mem)
 	}
 }
 
+// A char or a short is accessed atomically as a part of the word at t0.
+// Make t0 the address of that word, t5 the position and t6 the mask of the
+// part, and move the value in t3 to its position.
+static void gen_atomic_part(struct Type *ty)
+{
+	println("\tandi t5, t0, 3");
+	println("\tslli t5, t5, 3");
+	println("\tandi t0, t0, -4");
+	println("\tli t6, %d", ty->size == sizeof(char) ? 0xff : 0xffff);
+	println("\tsllw t6, t6, t5");
+	println("\tsllw t3, t3, t5");
+	println("\tand t3, t3, t6");
+}
+
+// Compare and swap. The new value is in a0 or fa0, the address of the
+// expected value and that of the object are on the stack.
+static void gen_cas(struct Type *ty)
+{
+	int c = count();
+	bool is_part = ty->size < (int)sizeof(int);
+	const char *sz = ty->size == sizeof(long) ? "d" : "w";
+
+	// t0: address of the object, t1: address of the expected value
+	pop("t1");
+	pop("t0");
+
+	// t3: new value
+	if (is_float_arg(ty))
+		println("\tfmv.x.%s t3, fa0", sz);
+	else
+		println("\tmv t3, a0");
+
+	// t2: expected value
+	if (ty->size == sizeof(char))
+		println("\tlbu t2, (t1)");
+	else if (ty->size == sizeof(short))
+		println("\tlhu t2, (t1)");
+	else
+		println("\tl%s t2, (t1)", sz);
+
+	if (is_part) {
+		gen_atomic_part(ty);
+		println("\tsllw t2, t2, t5");
+	}
+
+	println(".L.cas_retry.%d:", c);
+
+	// lr(Load-Reserved):
+	// Load and Reserved control of the memory address.
+	//
+	// aq(acquisition), rl(release):
+	// If both bits are set, no memory operation in this hardware
+	// thread is observed to take place on the other side of the
+	// atomic memory operation.
+
+	// t4: value of the object
+	println("\tlr.%s.aqrl t4, (t0)", sz);
+	if (is_part) {
+		println("\tand a1, t4, t6");
+		println("\tbne a1, t2, .L.cas_fail.%d", c);
+		println("\txor a1, t4, a1");
+		println("\tor a1, a1, t3");
+	} else {
+		println("\tbne t4, t2, .L.cas_fail.%d", c);
+		println("\tmv a1, t3");
+	}
+
+	// sc(Store-Conditional):
+	// Writes a value from a register to a specified memory
+	// address, the write operation takes effect only if the
+	// memory address is still reserved by the processor.
+	println("\tsc.%s.rl a0, a1, (t0)", sz);
+	println("\tbnez a0, .L.cas_retry.%d", c);
+	println("\tli a0, 1");
+	println("\tj .L.cas_end.%d", c);
+
+	// if not equals, write the value to where the expected value is
+	println(".L.cas_fail.%d:", c);
+	if (is_part)
+		println("\tsrlw t4, a1, t5");
+	if (ty->size == sizeof(char))
+		println("\tsb t4, (t1)");
+	else if (ty->size == sizeof(short))
+		println("\tsh t4, (t1)");
+	else
+		println("\ts%s t4, (t1)", sz);
+	println("\tli a0, 0");
+	println(".L.cas_end.%d:", c);
+}
+
+// Exchange. The new value is in a0 or fa0, the address of the object is
+// on the stack.
+static void gen_exch(struct Type *ty)
+{
+	int c = count();
+	const char *sz = ty->size == sizeof(long) ? "d" : "w";
+
+	pop("t0");
+	if (is_float_arg(ty))
+		println("\tfmv.x.%s t3, fa0", sz);
+	else
+		println("\tmv t3, a0");
+
+	if (ty->size < (int)sizeof(int)) {
+		gen_atomic_part(ty);
+
+		println(".L.exch_retry.%d:", c);
+		println("\tlr.w.aqrl t4, (t0)");
+		println("\tand a0, t4, t6");
+		println("\txor a1, t4, a0");
+		println("\tor a1, a1, t3");
+		println("\tsc.w.rl a1, a1, (t0)");
+		println("\tbnez a1, .L.exch_retry.%d", c);
+
+		// extend the old value as load() does
+		println("\tsrlw a0, a0, t5");
+		println("\tslli a0, a0, %d", 64 - ty->size * 8);
+		println("\t%s a0, a0, %d", ty->is_unsigned ? "srli" : "srai",
+			64 - ty->size * 8);
+		return;
+	}
+
+	println("\tamoswap.%s.aqrl a0, t3, (t0)", sz);
+	if (is_float_arg(ty))
+		println("\tfmv.%s.x fa0, a0", sz);
+}
+
 // Generate code for a given node.
 static void gen_expr(struct Node *node)
 {
@@ -1474,60 +1601,19 @@ static void gen_expr(struct Node *node)
 		return;
 
 	case ND_CAS:
-		// t0: A addr
 		gen_expr(node->cas_addr);
-		println("\tmv t0, a0");
-		// t1: B addr
+		push("a0");
 		gen_expr(node->cas_old);
-		println("\tmv t1, a0");
-		// t2: B value
-		load(node->cas_old->ty->base);
-		println("\tmv t2, a0");
-		// t3: C value
+		push("a0");
 		gen_expr(node->cas_new);
-		println("\tmv t3, a0");
-
-		c = count();
-		println(".L.cas_retry.%d:", c);
-
-		// lr(Load-Reserved):
-		// Load and Reserved control of the memory address.
-		//
-		// aq(acquisition):
-		// If the AQ bit is set, any memory operations in this
-		// hardware thread that occur after an atomic memory
-		// operation(AMO) will not occur before the AMO.
-
-		// t4: A value
-		println("\tlr.w.aq t4, (t0)");
-		println("\tbne t4, t2, .L.cas_return.%d", c);
-
-		// sc(Store-Conditional):
-		// Writes a value from a register to a specified memory
-		// address, the write operation takes effect only if the
-		// memory address is still reserved by the processor.
-		println("\tsc.w.aq a0, t3, (t0)");
-		println("\tbnez a0, .L.cas_retry.%d", c);
-
-		println(".L.cas_return.%d:", c);
-		// compare A value and B value
-		println("\tsubw t2, t4, t2");
-		println("\tseqz a0, t2");
-		println("\tbeqz t2, .L.cas_end.%d", c);
-
-		// if not equals, write B addr with A value
-		println("\tsw t4, (t1)");
-		println(".L.cas_end.%d:", c);
+		gen_cas(node->cas_addr->ty->base);
 		return;
 
 	case ND_EXCH:
 		gen_expr(node->lhs);
 		push("a0");
 		gen_expr(node->rhs);
-		pop("a1");
-
-		size_t sz = node->lhs->ty->base->size;
-		println("amoswap.%s.aq a0, a0, (a1)", sz <= sizeof(int) ? "w" : "d");
+		gen_exch(node->lhs->ty->base);
 		return;
 
 	default:
diff --git a/type.c b/type.c
index dcafaf4..6a851bb 100644
--- a/type.c
+++ b/type.c
@@ -367,6 +367,15 @@ static void usual_arith_conv(struct Node **lhs, struct Node **rhs)
 }
 
 
+// Only scalars of up to 64 bits are accessed atomically.
+static void check_atomic(struct Node *addr)
+{
+	struct Type *ty = addr->ty->base;
+
+	if ((!is_numeric(ty) && ty->kind != TY_PTR) || ty->size > (int)sizeof(long))
+		error_tok(addr->tok, "atomic operation on an invalid type");
+}
+
 void add_type(struct Node *node)
 {
 	if (!node || node->ty)
@@ -518,6 +527,8 @@ void add_type(struct Node *node)
 		if (node->cas_old->ty->kind != TY_PTR)
 			error_tok(node->cas_old->tok, "pointer expected");
 
+		check_atomic(node->cas_addr);
+		node->cas_new = new_cast(node->cas_new, node->cas_addr->ty->base);
 		node->ty = p_ty_bool();
 		break;
 
@@ -525,6 +536,8 @@ void add_type(struct Node *node)
 		if (node->lhs->ty->kind != TY_PTR)
 			error_tok(node->lhs->tok, "pointer expected");
 
+		check_atomic(node->lhs);
+		node->rhs = new_cast(node->rhs, node->lhs->ty->base);
 		node->ty = node->lhs->ty->base;
 		break;
 
-- 
2.43.0


From 915e88437224dd6e840007acfe47bc01cfcea005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:53 +0000
Subject: [PATCH 094/122] fix: make loads and stores of atomic objects
 sequentially consistent

---
 codegen.c | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/codegen.c b/codegen.c
index e4cfd68..e57c84c 100644
--- a/codegen.c
+++ b/codegen.c
@@ -326,7 +326,7 @@ static void gen_addr(struct Node *node)
 static struct Obj *current_fn;
 
 // Load a value from where a0 is pointing to.
-static void load(struct Type *ty)
+static void load_value(struct Type *ty)
 {
 	// If it is an array, do not attempt to load a value
 	// to the register because in general we can't load
@@ -378,8 +378,18 @@ static void load(struct Type *ty)
 		println("\tld a0, (a0)");
 }
 
+static void load(struct Type *ty)
+{
+	// Atomic objects are accessed in one order by all threads.
+	if (ty->is_atomic)
+		println("\tfence rw, rw");
+	load_value(ty);
+	if (ty->is_atomic)
+		println("\tfence r, rw");
+}
+
 // Store a0 to an address that the stack top is pointing to.
-static void store(struct Type *ty)
+static void store_value(struct Type *ty)
 {
 	if (ty->kind == TY_LDOUBLE) {
 		pop("t0");
@@ -432,6 +442,15 @@ static void store(struct Type *ty)
 		println("\tsd a0, (a1)");
 }
 
+static void store(struct Type *ty)
+{
+	if (ty->is_atomic)
+		println("\tfence rw, w");
+	store_value(ty);
+	if (ty->is_atomic)
+		println("\tfence rw, rw");
+}
+
 enum {
 	I8, I16, I32, I64,
 	U8, U16, U32, U64,
-- 
2.43.0


From 920efa5828ed3edbe273dd8026ba184b5f2e2509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:56 +0000
Subject: [PATCH 095/122] fix: update members of atomic type atomically, and
 yield their old value by A++

---
 parser/parser.c | 39 ++++++++++++++++++++++++++++-----------
 1 file changed, 28 insertions(+), 11 deletions(-)

diff --git a/parser/parser.c b/parser/parser.c
index 29e9207..f83a7a5 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -381,13 +381,24 @@ static struct Node *struct_ref(struct Node *node, struct Token *tok)
 	return node;
 }
 
+// Returns true if a given lvalue is accessed atomically.
+static bool is_atomic(struct Node *node)
+{
+	if (node->kind == ND_MEMBER && node->member->is_bitfield)
+		return false;
+	return node->ty->is_atomic;
+}
+
 // Convert op= operators to expressions containing an assignment.
 //
 // In general, `A op= C` is converted to ``tmp = &A, *tmp = *tmp op B`.
 // However, if a given expression is of form `A.x op= C`, the input is
 // converted to `tmp = &A, (*tmp).x = (*tmp).x op C` to handle assignments
 // to bitfields.
-static struct Node *to_assign(struct Node *binary)
+//
+// If `yield_old`, the value is that of A before the assignment, which is
+// supported only if A is an atomic object.
+static struct Node *to_assign2(struct Node *binary, bool yield_old)
 {
 	add_type(binary->lhs);
 	add_type(binary->rhs);
@@ -395,7 +406,7 @@ static struct Node *to_assign(struct Node *binary)
 	struct Token *tok = binary->tok;
 
 	// Convert `A.x op= C` to `tmp = &A, (*tmp).x = (*tmp).x op C`.
-	if (binary->lhs->kind == ND_MEMBER) {
+	if (binary->lhs->kind == ND_MEMBER && !is_atomic(binary->lhs)) {
 		// var tmp
 		struct Obj *var = new_lvar("", pointer_to(binary->lhs->lhs->ty));
 
@@ -435,9 +446,9 @@ static struct Node *to_assign(struct Node *binary)
 	//		new = old op val;
 	//	} while (!atomic_compare_exchange_strong(addr, &old, new));
 	//
-	//	new;
+	//	new; (or old)
 	// })
-	if (binary->lhs->ty->is_atomic) {
+	if (is_atomic(binary->lhs)) {
 		struct Node head = {};
 		struct Node *cur = &head;
 
@@ -493,8 +504,10 @@ static struct Node *to_assign(struct Node *binary)
 		loop->cond = new_unary(ND_NOT, cas, tok);
 
 		cur = cur->next = loop;
-		// return new
-		cur = cur->next = new_unary(ND_EXPR_STMT, new_var_node(new, tok), tok);
+		// return new or old
+		cur = cur->next = new_unary(ND_EXPR_STMT,
+					    new_var_node(yield_old ? old : new, tok),
+					    tok);
 
 		//  ({ ... })
 		struct Node *node = new_node(ND_STMT_EXPR, tok);
@@ -520,15 +533,20 @@ static struct Node *to_assign(struct Node *binary)
 	return new_binary(ND_COMMA, expr1, expr2, tok);
 }
 
+static struct Node *to_assign(struct Node *binary)
+{
+	return to_assign2(binary, false);
+}
+
 // Convert A++ to `(typeof A)(tmp = &A, old = *tmp, *tmp = old + 1, old)`,
 // or A.x++ to `(typeof A.x)(tmp = &A, old = (*tmp).x, (*tmp).x = old + 1, old)`
 //
-// If A is an atomic type, convert it to `(typeof A)((A += 1) - 1)`
+// If A is an atomic object, convert it to `A += 1` that yields the old value.
 static struct Node *new_inc_dec(struct Node *node, struct Token *tok, int addend)
 {
 	add_type(node);
 
-	if (!node->ty->is_atomic || node->kind == ND_MEMBER) {
+	if (!is_atomic(node)) {
 		bool is_member = (node->kind == ND_MEMBER);
 		struct Node *base = is_member ? node->lhs : node;
 		struct Obj *var = new_lvar("", pointer_to(base->ty));
@@ -563,10 +581,9 @@ static struct Node *new_inc_dec(struct Node *node, struct Token *tok, int addend
 	}
 
 	struct Node *node_add = new_add(node, new_num(addend, tok), tok);
-	struct Node *node_to_assign = to_assign(node_add);
-	struct Node *node_minus = new_add(node_to_assign, new_num(-addend, tok), tok);
+	struct Node *node_to_assign = to_assign2(node_add, true);
 
-	return new_cast(node_minus, node->ty);
+	return new_cast(node_to_assign, node->ty);
 }
 
 // compound-literal = "(" type-name ")" "{" initializer-list "}"
-- 
2.43.0


From ea794fec29d8524fd21b578772848ac8f48ad356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:41 +0000
Subject: [PATCH 096/122] fix: provide atomic_fetch_* and others in stdatomic.h
 as C11 requires

atomic_fetch_* yield the old value, ATOMIC_FLAG_INIT takes no argument,
atomic_thread_fence is a fence, memory_order is a typedef name and
atomic_wchar_t has the type of wchar_t.
---
 include/stdatomic.h | 47 ++++++++++++++++++++++++++++++---------------
 1 file changed, 32 insertions(+), 15 deletions(-)

diff --git a/include/stdatomic.h b/include/stdatomic.h
index 22da14f..244c320 100644
--- a/include/stdatomic.h
+++ b/include/stdatomic.h
@@ -12,19 +12,20 @@
 #define ATOMIC_LLONG_LOCK_FREE 1
 #define ATOMIC_POINTER_LOCK_FREE 1
 
-enum memory_order {
+typedef enum memory_order {
 	memory_order_relaxed,
 	memory_order_consume,
 	memory_order_acquire,
 	memory_order_release,
 	memory_order_acq_rel,
 	memory_order_seq_cst,
-};
+} memory_order;
 
-#define ATOMIC_FLAG_INIT(x) (x)
+#define ATOMIC_FLAG_INIT 0
+#define ATOMIC_VAR_INIT(x) (x)
 #define atomic_init(addr, val) (*(addr) = (val))
 #define kill_dependency(x) (x)
-#define atomic_thread_fence(order)
+#define atomic_thread_fence(order) ({ asm volatile("fence rw, rw"); })
 #define atomic_signal_fence(order)
 #define atomic_is_lock_free(x) 1
 
@@ -34,17 +35,29 @@ enum memory_order {
 #define atomic_load_explicit(addr, order) (*(addr))
 #define atomic_store_explicit(addr, val, order) (*(addr) = (val))
 
-#define atomic_fetch_add(obj, val) (*(obj) += (val))
-#define atomic_fetch_sub(obj, val) (*(obj) -= (val))
-#define atomic_fetch_or(obj, val) (*(obj) |= (val))
-#define atomic_fetch_xor(obj, val) (*(obj) ^= (val))
-#define atomic_fetch_and(obj, val) (*(obj) &= (val))
+// atomic_fetch_op(obj, val) yields the old value of the object.
+#define __atomic_fetch(obj, op, val)					\
+({									\
+	typeof(obj) __obj = (obj);					\
+	typeof((val) + 0) __val = (val);				\
+	typeof(*__obj) __old = *__obj;					\
+									\
+	while (!__builtin_compare_and_swap(__obj, &__old, __old op __val)) \
+		;							\
+	__old;								\
+})
 
-#define atomic_fetch_add_explicit(obj, val, order) (*(obj) += (val))
-#define atomic_fetch_sub_explicit(obj, val, order) (*(obj) -= (val))
-#define atomic_fetch_or_explicit(obj, val, order) (*(obj) |= (val))
-#define atomic_fetch_xor_explicit(obj, val, order) (*(obj) ^= (val))
-#define atomic_fetch_and_explicit(obj, val, order) (*(obj) &= (val))
+#define atomic_fetch_add(obj, val) __atomic_fetch(obj, +, val)
+#define atomic_fetch_sub(obj, val) __atomic_fetch(obj, -, val)
+#define atomic_fetch_or(obj, val) __atomic_fetch(obj, |, val)
+#define atomic_fetch_xor(obj, val) __atomic_fetch(obj, ^, val)
+#define atomic_fetch_and(obj, val) __atomic_fetch(obj, &, val)
+
+#define atomic_fetch_add_explicit(obj, val, order) __atomic_fetch(obj, +, val)
+#define atomic_fetch_sub_explicit(obj, val, order) __atomic_fetch(obj, -, val)
+#define atomic_fetch_or_explicit(obj, val, order) __atomic_fetch(obj, |, val)
+#define atomic_fetch_xor_explicit(obj, val, order) __atomic_fetch(obj, ^, val)
+#define atomic_fetch_and_explicit(obj, val, order) __atomic_fetch(obj, &, val)
 
 // __builtin_compare_and_swap(pa, pb, c_val)
 // if (*pa == *pb) then *pa = c_val, return true
@@ -53,6 +66,10 @@ enum memory_order {
 	__builtin_compare_and_swap((p), (old), (new))
 #define atomic_compare_exchange_strong(p, old, new) \
 	__builtin_compare_and_swap((p), (old), (new))
+#define atomic_compare_exchange_weak_explicit(p, old, new, succ, fail) \
+	__builtin_compare_and_swap((p), (old), (new))
+#define atomic_compare_exchange_strong_explicit(p, old, new, succ, fail) \
+	__builtin_compare_and_swap((p), (old), (new))
 
 #define atomic_exchange(obj, val) \
 	__builtin_atomic_exchange((obj), (val))
@@ -79,7 +96,7 @@ typedef _Atomic long long atomic_llong;
 typedef _Atomic unsigned long long atomic_ullong;
 typedef _Atomic unsigned short atomic_char16_t;
 typedef _Atomic unsigned atomic_char32_t;
-typedef _Atomic unsigned atomic_wchar_t;
+typedef _Atomic int atomic_wchar_t;
 typedef _Atomic signed char atomic_int_least8_t;
 typedef _Atomic unsigned char atomic_uint_least8_t;
 typedef _Atomic short atomic_int_least16_t;
-- 
2.43.0


From 4e836df4c254563f6a5894f714c945e02b37020d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:37 +0000
Subject: [PATCH 097/122] fix: diagnostics and debug records name a file with
 the line number of another

After #line, diagnostics and .loc directives combined the name of the
physical file with the presumed line number.  Keep the physical line in
the token: .loc then is a place in the physical file, and diagnostics give
the presumed name with the presumed number.
---
 preprocessor/preprocess.c | 4 ----
 utils.c                   | 8 ++++----
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/preprocessor/preprocess.c b/preprocessor/preprocess.c
index e7705b0..14fc942 100644
--- a/preprocessor/preprocess.c
+++ b/preprocessor/preprocess.c
@@ -1385,9 +1385,5 @@ struct Token *postprocess(struct Token *tok)
 	// each preprocessing token is converted into a token.
 	convert_pp_tokens(tok);
 	join_adjacent_string_literals(tok);
-
-	for (struct Token *t = tok; t; t = t->next)
-		t->line_no += t->line_delta;
-
 	return tok;
 }
diff --git a/utils.c b/utils.c
index 849a24b..0a14898 100644
--- a/utils.c
+++ b/utils.c
@@ -25,8 +25,8 @@ void warn_tok(struct Token *tok, const char *fmt, ...)
 {
 	va_list ap;
 	va_start(ap, fmt);
-	verror_at(tok->file->name, tok->file->contents,
-		  tok->line_no, tok->loc, fmt, ap);
+	verror_at(tok->filename, tok->file->contents,
+		  tok->line_no + tok->line_delta, tok->loc, fmt, ap);
 	va_end(ap);
 }
 
@@ -89,8 +89,8 @@ error_tok(struct Token *tok, const char *fmt, ...)
 {
 	va_list ap;
 	va_start(ap, fmt);
-	verror_at(tok->file->name, tok->file->contents,
-		  tok->line_no, tok->loc, fmt, ap);
+	verror_at(tok->filename, tok->file->contents,
+		  tok->line_no + tok->line_delta, tok->loc, fmt, ap);
 	va_end(ap);
 	exit(1);
 }
-- 
2.43.0


From b850c6c88a225a7aa2023c4cac3faaf9e66a302d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:07 +0000
Subject: [PATCH 098/122] fix: tokens made by # and ## are reported at line 1

A diagnostic or debug record for a pasted identifier named line 1 of the
file.  Give such tokens the line of the tokens they are made of.
---
 preprocessor/preprocess.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/preprocessor/preprocess.c b/preprocessor/preprocess.c
index 14fc942..fb8d4fb 100644
--- a/preprocessor/preprocess.c
+++ b/preprocessor/preprocess.c
@@ -140,7 +140,9 @@ static struct Token *copy_line(struct Token **rest, struct Token *tok)
 struct Token *new_num_token(int val, struct Token *tmpl)
 {
 	const char *buf = format("%d", val);
-	return tokenize(new_file(tmpl->file->name, tmpl->file->file_no, buf));
+	struct Token *tok = tokenize(new_file(tmpl->file->name, tmpl->file->file_no, buf));
+	tok->line_no = tmpl->line_no;
+	return tok;
 }
 
 static struct Macro *find_macro(struct Token *tok);
@@ -505,7 +507,9 @@ static const char *quote_string(const char *str)
 struct Token *new_str_token(const char *str, struct Token *tmpl)
 {
 	const char *buf = quote_string(str);
-	return tokenize(new_file(tmpl->file->name, tmpl->file->file_no, buf));
+	struct Token *tok = tokenize(new_file(tmpl->file->name, tmpl->file->file_no, buf));
+	tok->line_no = tmpl->line_no;
+	return tok;
 }
 
 // Concatenates all tokens in `arg` and returns a new string token.
@@ -536,6 +540,7 @@ static struct Token *paste(struct Token *lhs, struct Token *rhs)
 	if (tok->next->kind != TK_EOF)
 		error_tok(lhs, "pasting forms '%s', an invalid token", buf);
 
+	tok->line_no = lhs->line_no;
 	tok->at_bol = lhs->at_bol;
 	tok->has_space = lhs->has_space;
 	return tok;
-- 
2.43.0


From d77023fbf71a8035f8ea5335667800ff1504c548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:39 +0000
Subject: [PATCH 099/122] fix: assignment to the value of a call, assignment or
 conditional is accepted

f() = 3 and (x = 3)++ were compiled to stores through a garbage address.
---
 codegen.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/codegen.c b/codegen.c
index e57c84c..a11780b 100644
--- a/codegen.c
+++ b/codegen.c
@@ -299,8 +299,11 @@ static void gen_addr(struct Node *node)
 		break;
 
 	case ND_FUNCALL:
-		if (node->ret_buffer)
+		if (node->ret_buffer) {
 			gen_expr(node);
+			return;
+		}
+		error_tok(node->tok, "not a lvalue");
 		break;
 
 	case ND_ASSIGN:
@@ -310,6 +313,7 @@ static void gen_addr(struct Node *node)
 			gen_expr(node);
 			return;
 		}
+		error_tok(node->tok, "not a lvalue");
 		break;
 
 	case ND_VLA_PTR:
-- 
2.43.0


From bdec9c831e17e4749c6fb603578b38f64845f1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:56 +0000
Subject: [PATCH 100/122] fix: #define and #undef without a name take one from
 the next line

Likewise a macro parameter list continued on the next line.
---
 preprocessor/preprocess.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/preprocessor/preprocess.c b/preprocessor/preprocess.c
index fb8d4fb..9325bc3 100644
--- a/preprocessor/preprocess.c
+++ b/preprocessor/preprocess.c
@@ -825,6 +825,9 @@ static struct MacroParam *read_macro_params(struct Token **rest,
 	struct MacroParam *cur = &head;
 
 	while (!equal(tok, ")")) {
+		if (tok->at_bol || tok->next->at_bol)
+			error_tok(tok, "unterminated macro parameter list");
+
 		if (cur != &head)
 			tok = skip(tok, ",");
 
@@ -852,6 +855,9 @@ static struct MacroParam *read_macro_params(struct Token **rest,
 		tok = tok->next;
 	}
 
+	if (tok->at_bol)
+		error_tok(tok, "unterminated macro parameter list");
+
 	// skip ')'
 	*rest = tok->next;
 	return head.next;
@@ -859,7 +865,7 @@ static struct MacroParam *read_macro_params(struct Token **rest,
 
 static void read_macro_definition(struct Token **rest, struct Token *tok)
 {
-	if (tok->kind != TK_IDENT)
+	if (tok->at_bol || tok->kind != TK_IDENT)
 		error_tok(tok, "macro name must be an identifier");
 
 	const char *name = strndup(tok->loc, tok->len);
@@ -1146,7 +1152,7 @@ static struct Token *preprocess2(struct Token *tok)
 
 		if (equal(tok, "undef")) {
 			tok = tok->next;
-			if (tok->kind != TK_IDENT)
+			if (tok->at_bol || tok->kind != TK_IDENT)
 				error_tok(tok, "macro name must be an identifier");
 
 			undef_macro(strndup(tok->loc, tok->len));
-- 
2.43.0


From d745e102d6944635b6978cb6cde47dba471d45d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:25 +0000
Subject: [PATCH 101/122] fix: typedef combined with one other storage class is
 accepted

---
 parser/declarator.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/declarator.c b/parser/declarator.c
index 8a5b271..18f0dd0 100644
--- a/parser/declarator.c
+++ b/parser/declarator.c
@@ -612,7 +612,7 @@ struct Type *declspec(struct Token **rest, struct Token *tok,
 				attr->is_tls = true;
 
 			if (attr->is_typedef &&
-			    attr->is_static + attr->is_extern + attr->is_inline + attr->is_tls > 1)
+			    attr->is_static + attr->is_extern + attr->is_inline + attr->is_tls > 0)
 				error_tok(tok, "typedef may not be used together with "
 					       "static, extern, inline, __thread or _Thread_local");
 
-- 
2.43.0


From 8b4c9f349d76a2b6110ee0160fb87567089bd9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:05 +0000
Subject: [PATCH 102/122] fix: an unclosed character constant extends to a
 quote on a later line

---
 tokenize.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tokenize.c b/tokenize.c
index 7b2b3dc..2649c81 100644
--- a/tokenize.c
+++ b/tokenize.c
@@ -397,7 +397,7 @@ static struct Token *read_char_literal(const char *start,
 					struct Type *ty)
 {
 	const char *p = quote + 1;
-	if (*p == '\0')
+	if (*p == '\0' || *p == '\n')
 		error_at(start, "unclosed char literal");
 
 	int c;
@@ -406,9 +406,9 @@ static struct Token *read_char_literal(const char *start,
 	else
 		c = decode_utf8(&p, p);
 
-	const char *end = strchr(p, '\'');
-	if (!end)
-		error_at(p, "unclosed char literal");
+	const char *end = strpbrk(p, "'\n");
+	if (!end || *end == '\n')
+		error_at(start, "unclosed char literal");
 
 	// skip '\''
 	struct Token *tok = new_token(TK_NUM, start, end + 1);
-- 
2.43.0


From b7106ff734d512b8b0930db010473747d2358f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:25 +0000
Subject: [PATCH 103/122] fix: names declared in a controlling expression
 outlive their statement

if, switch, while and do statements are blocks of their own (C11 6.8.4p3,
6.8.5p5); an enumerator or tag declared in their controlling expression
stayed visible behind them.
---
 parser/parser.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/parser/parser.c b/parser/parser.c
index f83a7a5..e2356d2 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -1301,6 +1301,7 @@ static struct Node *stmt(struct Token **rest, struct Token *tok)
 	if (equal(tok, "if")) {
 		struct Node *n = new_node(ND_IF, tok);
 
+		enter_scope();
 		tok = skip(tok->next, "(");
 		n->cond = expr(&tok, tok);
 
@@ -1309,6 +1310,7 @@ static struct Node *stmt(struct Token **rest, struct Token *tok)
 
 		if (equal(tok, "else"))
 			n->els = stmt(&tok, tok->next);
+		leave_scope();
 
 		*rest = tok;
 		return n;
@@ -1317,6 +1319,7 @@ static struct Node *stmt(struct Token **rest, struct Token *tok)
 	if (equal(tok, "switch")) {
 		struct Node *n = new_node(ND_SWITCH, tok);
 
+		enter_scope();
 		tok = skip(tok->next, "(");
 		n->cond = expr(&tok, tok);
 		tok = skip(tok, ")");
@@ -1334,6 +1337,7 @@ static struct Node *stmt(struct Token **rest, struct Token *tok)
 
 		// a series of "case"s
 		n->then = stmt(rest, tok);
+		leave_scope();
 
 		current_switch = sw_prev;
 		brk_label = brk_prev;
@@ -1422,6 +1426,7 @@ static struct Node *stmt(struct Token **rest, struct Token *tok)
 	if (equal(tok, "while")) {
 		struct Node *n = new_node(ND_FOR, tok);
 
+		enter_scope();
 		tok = skip(tok->next, "(");
 		n->cond = expr(&tok, tok);
 
@@ -1435,6 +1440,7 @@ static struct Node *stmt(struct Token **rest, struct Token *tok)
 		cont_label = n->cont_label = new_unique_name();
 
 		n->then = stmt(rest, tok);
+		leave_scope();
 
 		// resume
 		brk_label = brk_tmp;
@@ -1452,6 +1458,7 @@ static struct Node *stmt(struct Token **rest, struct Token *tok)
 		brk_label = node->brk_label = new_unique_name();
 		cont_label = node->cont_label = new_unique_name();
 
+		enter_scope();
 		node->then = stmt(&tok, tok->next);
 
 		// resume
@@ -1463,6 +1470,7 @@ static struct Node *stmt(struct Token **rest, struct Token *tok)
 		node->cond = expr(&tok, tok);
 		tok = skip(tok, ")");
 		*rest = skip(tok, ";");
+		leave_scope();
 
 		return node;
 	}
-- 
2.43.0


From bd98b937ecedb660cd8a59b236c28bab858c5fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:42 +0000
Subject: [PATCH 104/122] fix: uninitialized objects of a shared library
 overlap others in the executable

Symbols in .bss had no type and size, so that a copy relocation reserved no
space for them.
---
 codegen.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/codegen.c b/codegen.c
index a11780b..e31ce6b 100644
--- a/codegen.c
+++ b/codegen.c
@@ -2129,6 +2129,8 @@ static void emit_data(struct Obj *prog)
 		else
 			println(".bss");
 
+		println(".type %s, @object", var->name);
+		println(".size %s, %d", var->name, var->ty->size);
 		println(".align %d", llog2(var->align));
 		println("%s:", var->name);
 		println("\t.zero %d", var->ty->size);
-- 
2.43.0


From de7fde44ef2e7adde79554e4d3a87f12681d896b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:58 +0000
Subject: [PATCH 105/122] fix: no external definition of a function declared
 inline and extern

C11 6.7.4p7: a file scope declaration without inline or with extern makes
the definition of an inline function external.
---
 parser/parser.c | 9 +++++++++
 toycc.h         | 1 +
 2 files changed, 10 insertions(+)

diff --git a/parser/parser.c b/parser/parser.c
index e2356d2..d36e951 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -1602,6 +1602,14 @@ struct Obj *declare_function(struct Token *tok, struct Type *ty,
 		if (!fn->is_static && attr->is_static)
 			error_tok(tok, "static declaration follows a non-static declaration");
 
+		// A declaration without inline or with extern makes the
+		// definition an external one.
+		if (fn->is_inline_only && is_global_scope() &&
+		    (!attr->is_inline || attr->is_extern)) {
+			fn->is_inline_only = false;
+			fn->is_static = false;
+		}
+
 		fn->is_definition = fn->is_definition || equal(tok, "{");
 
 		// int f() does not declare any parameters.
@@ -1618,6 +1626,7 @@ struct Obj *declare_function(struct Token *tok, struct Type *ty,
 		fn->is_definition = equal(tok, "{");
 		fn->is_static = attr->is_static || (attr->is_inline && !attr->is_extern);
 		fn->is_inline = attr->is_inline;
+		fn->is_inline_only = attr->is_inline && !attr->is_static && !attr->is_extern;
 	}
 	fn->is_root = !(fn->is_static && fn->is_inline);
 	return fn;
diff --git a/toycc.h b/toycc.h
index ee0529b..4ea0b18 100644
--- a/toycc.h
+++ b/toycc.h
@@ -300,6 +300,7 @@ struct Obj {
 
 	// function
 	bool is_inline;
+	bool is_inline_only;	// no external definition so far
 	struct Obj *params;
 	struct Node *body;
 	struct Obj *locals;
-- 
2.43.0


From 3a8469b0a0e817b07a2ad7a61044c46d2bbef9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:12:03 +0000
Subject: [PATCH 106/122] fix: escape the file names in .file directives

A source file whose name has a double quote made the assembler fail, and
a backslash was taken as the start of an escape sequence.
---
 codegen.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/codegen.c b/codegen.c
index e31ce6b..3b40d14 100644
--- a/codegen.c
+++ b/codegen.c
@@ -2305,6 +2305,20 @@ static void emit_text(struct Obj *prog)
 	}
 }
 
+// A '"' or a '\\' in a file name has to be escaped for the assembler.
+static const char *escape_name(const char *name)
+{
+	char *buf = calloc(1, strlen(name) * 2 + 1);
+	char *p = buf;
+
+	for (; *name; name++) {
+		if (*name == '"' || *name == '\\')
+			*p++ = '\\';
+		*p++ = *name;
+	}
+	return buf;
+}
+
 // Traverse the AST to emit assembly.
 void codegen(struct Obj *prog, FILE *out)
 {
@@ -2313,7 +2327,7 @@ void codegen(struct Obj *prog, FILE *out)
 	struct File **files = get_input_files();
 	for (int i = 0; files[i]; i++)
 		println(".file %d \"%s\"",
-			files[i]->file_no, files[i]->name);
+			files[i]->file_no, escape_name(files[i]->name));
 
 	assign_lvar_offsets(prog);
 	emit_data(prog);
-- 
2.43.0


From 38ceb563e5af96ddbdfb4428675e71f2e18a235c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:04 +0000
Subject: [PATCH 107/122] fix: sign of the NaN an invalid operation in a
 constant expression yields

---
 parser/common.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/parser/common.c b/parser/common.c
index 3e07895..4165cf9 100644
--- a/parser/common.c
+++ b/parser/common.c
@@ -306,7 +306,7 @@ static long double convert_float(struct Type *ty, long double val)
 	return val;
 }
 
-static long double eval_float_binary(struct Node *node)
+static long double fold_float(struct Node *node)
 {
 	long double lhs = eval_double(node->lhs);
 	long double rhs = eval_double(node->rhs);
@@ -345,6 +345,14 @@ static long double eval_float_binary(struct Node *node)
 	}
 }
 
+static long double eval_float_binary(struct Node *node)
+{
+	long double val = fold_float(node);
+
+	// The sign of a NaN depends on the host, it is positive on the target.
+	return val == val ? val : strtold("nan", NULL);
+}
+
 long double eval_double(struct Node *node)
 {
 	add_type(node);
-- 
2.43.0


From 72b8454001a8cc10a9dc3eb36eee27bbfd860323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:31 +0000
Subject: [PATCH 108/122] fix: time and memory exponential in the nesting of
 initializers

---
 parser/initializer.c | 33 +++++++++++++++++++++++++++------
 toycc.h              |  5 +++++
 2 files changed, 32 insertions(+), 6 deletions(-)

diff --git a/parser/initializer.c b/parser/initializer.c
index 54fb1a7..8093e6a 100644
--- a/parser/initializer.c
+++ b/parser/initializer.c
@@ -45,6 +45,27 @@ static struct Initializer *new_initializer(struct Type *ty, bool is_flexible)
 	return init;
 }
 
+// The elements of a range are parsed separately.
+static int range_elements;
+
+// An initializer is read twice to count the elements of an array, or if a
+// struct may be initialized with another struct. Parse its expressions only
+// once, otherwise the time is exponential in the nesting of compound literals.
+static struct Node *init_assign(struct Token **rest, struct Token *tok)
+{
+	if (!tok->init_expr || tok->init_range != range_elements) {
+		struct Token *end;
+		struct Node *node = assign(&end, tok);
+
+		tok->init_expr = node;
+		tok->init_end = end;
+		tok->init_range = range_elements;
+	}
+
+	*rest = tok->init_end;
+	return tok->init_expr;
+}
+
 static struct Token *skip_excess_element(struct Token *tok)
 {
 	if (equal(tok, "{")) {
@@ -52,7 +73,7 @@ static struct Token *skip_excess_element(struct Token *tok)
 		return skip(tok, "}");
 	}
 
-	assign(&tok, tok);
+	init_assign(&tok, tok);
 	return tok;
 }
 
@@ -200,7 +221,7 @@ static void designation(struct Token **rest, struct Token *tok, struct Initializ
 		array_designator(&tok, tok, init->ty, &begin, &end);
 
 		struct Token *tok2;
-		for (int i = begin; i <= end; i++)
+		for (int i = begin; i <= end; i++, range_elements++)
 			designation(&tok2, tok, init->children[i]);
 
 		// initialize the rest index
@@ -305,7 +326,7 @@ static void array_initializer1(struct Token **rest, struct Token *tok,
 			array_designator(&tok, tok, init->ty, &begin, &end);
 
 			struct Token *tok2;
-			for (int j = begin; j <= end; j++)
+			for (int j = begin; j <= end; j++, range_elements++)
 				designation(&tok2, tok, init->children[j]);
 			tok = tok2;
 			i = end;
@@ -498,7 +519,7 @@ static void initializer2(struct Token **rest, struct Token *tok,
 		// A struct can be initialized with another struct. E.g.
 		// `struct T x = y;` where y is a variable of type `struct T`.
 		// Handle that case first.
-		struct Node *expr = assign(rest, tok);
+		struct Node *expr = init_assign(rest, tok);
 		add_type(expr);
 		if (expr->ty->kind == TY_STRUCT) {
 			init->expr = expr;
@@ -513,7 +534,7 @@ static void initializer2(struct Token **rest, struct Token *tok,
 		if (!equal(tok, "{")) {
 			// As a struct, a union can be initialized
 			// with another union.
-			struct Node *expr = assign(rest, tok);
+			struct Node *expr = init_assign(rest, tok);
 			add_type(expr);
 			if (expr->ty->kind == TY_UNION) {
 				init->expr = expr;
@@ -535,7 +556,7 @@ static void initializer2(struct Token **rest, struct Token *tok,
 		return;
 	}
 
-	init->expr = assign(rest, tok);
+	init->expr = init_assign(rest, tok);
 }
 
 static struct Type *copy_struct_type(struct Type *ty)
diff --git a/toycc.h b/toycc.h
index 4ea0b18..bf978d7 100644
--- a/toycc.h
+++ b/toycc.h
@@ -64,6 +64,11 @@ struct Token {
 	bool has_space;		// True if this token follows a space character
 	struct Hideset *hideset;// for macro expansion
 	struct Token *origin;	// If this is expanded from a macro, the original token
+
+	// If an initializer starts here
+	struct Node *init_expr;
+	struct Token *init_end;
+	int init_range;
 };
 
 struct File {
-- 
2.43.0


From ce5b01fafbd48c515c86b1ba07a4560e4c9cf4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:32 +0000
Subject: [PATCH 109/122] fix: crash on an empty file name on the command line

---
 main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main.c b/main.c
index 9383ae1..2d945e7 100644
--- a/main.c
+++ b/main.c
@@ -535,7 +535,7 @@ static struct Token *append_tokens(struct Token *tok1, struct Token *tok2)
 // Replace file extension
 static const char *replace_extn(const char *tmpl, const char *extn)
 {
-	const char *filename = basename(strdup(tmpl));
+	const char *filename = strdup(basename(strdup(tmpl)));
 	char *dot = strrchr(filename, '.');
 
 	if (dot)
-- 
2.43.0


From 86466f797404c5387b0eece215793ccb22ab758d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:51 +0000
Subject: [PATCH 110/122] fix: inline and _Generic are accepted as identifiers

---
 tokenize.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tokenize.c b/tokenize.c
index 2649c81..76d8175 100644
--- a/tokenize.c
+++ b/tokenize.c
@@ -169,6 +169,8 @@ static bool is_keyword(struct Token *tok)
 		"__thread",
 		"_Atomic",
 		"__attribute__",
+		"inline",
+		"_Generic",
 	};
 
 	if (map.capacity == 0) {
-- 
2.43.0


From 1a49eb742eb00126494ae61fa2b7bd92bab45e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:54 +0000
Subject: [PATCH 111/122] fix: stack pointer lost by calls with more than 2 KB
 of arguments on the stack

---
 codegen.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/codegen.c b/codegen.c
index 3b40d14..c005309 100644
--- a/codegen.c
+++ b/codegen.c
@@ -812,8 +812,10 @@ bool is_returned_by_ref(struct Type *ty)
 static void add_offset(const char *rd, const char *rs, int offset)
 {
 	if (beyond_instruction_offset(offset)) {
-		println("\tli %s, %d", rd, offset);
-		println("\tadd %s, %s, %s", rd, rd, rs);
+		const char *tmp = strcmp(rd, rs) ? rd : "t0";
+
+		println("\tli %s, %d", tmp, offset);
+		println("\tadd %s, %s, %s", rd, tmp, rs);
 	} else {
 		println("\taddi %s, %s, %d", rd, rs, offset);
 	}
-- 
2.43.0


From dd1bbd04f6b3a5bb92ffad2a309452978800a3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:45 +0000
Subject: [PATCH 112/122] fix: jumps out of statement expressions leave
 temporaries on the stack

---
 codegen.c       | 22 ++++++++++++++++++++++
 parser/parser.c |  8 ++++++++
 toycc.h         |  1 +
 3 files changed, 31 insertions(+)

diff --git a/codegen.c b/codegen.c
index c005309..adf2cc5 100644
--- a/codegen.c
+++ b/codegen.c
@@ -1854,6 +1854,22 @@ static void copy_struct_mem(void)
 	debug("copy_struct_mem end");
 }
 
+// A jump out of a statement expression leaves what the expressions around it
+// have pushed on the stack, so it is dropped where the jump leads to.
+static void drop_temporaries(void)
+{
+	// The first two values are ra and fp.
+	int used = (depth - 2) * sizeof(long);
+
+	if (!current_fn->jumps_in_expr)
+		return;
+
+	add_offset("t0", "fp", current_fn->alloca_bottom->offset);
+	println("\tld sp, (t0)");
+	if (used)
+		add_offset("sp", "sp", -used);
+}
+
 static void gen_stmt(struct Node *node)
 {
 	int c;
@@ -1897,11 +1913,13 @@ static void gen_stmt(struct Node *node)
 		}
 		gen_stmt(node->then);
 		println("%s:", node->cont_label);
+		drop_temporaries();
 		if (node->inc)
 			gen_expr(node->inc);
 		println("\tj begin.%d", c);
 
 		println("%s:", node->brk_label);
+		drop_temporaries();
 		debug("end ND_FOR");
 		return;
 
@@ -1911,12 +1929,14 @@ static void gen_stmt(struct Node *node)
 		println("begin.%d:", c);
 		gen_stmt(node->then);
 		println("%s:", node->cont_label);
+		drop_temporaries();
 
 		gen_expr(node->cond);
 		cmp_zero(node->cond->ty);
 		println("\tbeqz a0, begin.%d", c);
 
 		println("%s:", node->brk_label);
+		drop_temporaries();
 		return;
 
 	case ND_SWITCH:
@@ -1957,6 +1977,7 @@ static void gen_stmt(struct Node *node)
 		println("\tj %s", node->brk_label);
 		gen_stmt(node->then);
 		println("%s:", node->brk_label);
+		drop_temporaries();
 		return;
 
 	case ND_CASE:
@@ -1980,6 +2001,7 @@ static void gen_stmt(struct Node *node)
 
 	case ND_LABEL:
 		println("%s:", node->unique_label);
+		drop_temporaries();
 		gen_stmt(node->lhs);
 		return;
 
diff --git a/parser/parser.c b/parser/parser.c
index d36e951..23b1560 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -19,6 +19,8 @@
 
 // Points to the function object the parser is currently parsing.
 static struct Obj *current_fn;
+// number of statement expressions around the statement
+static int stmt_exprs;
 
 // funcall = (assign ("," assign)*)? ")"
 static struct Node *funcall(struct Token **rest, struct Token *tok, struct Node *fn)
@@ -172,7 +174,9 @@ static struct Node *primary(struct Token **rest, struct Token *tok)
 
 		struct Node *n = new_node(ND_STMT_EXPR, tok);
 
+		stmt_exprs++;
 		n->body = compound_stmt(&tok, tok->next->next)->body;
+		stmt_exprs--;
 		*rest = skip(tok, ")");
 		return n;
 	}
@@ -1478,6 +1482,10 @@ static struct Node *stmt(struct Token **rest, struct Token *tok)
 	if (equal(tok, "asm"))
 		return asm_stmt(rest, tok);
 
+	if (stmt_exprs && (equal(tok, "goto") || equal(tok, "break") ||
+			   equal(tok, "continue")))
+		current_fn->jumps_in_expr = true;
+
 	if (equal(tok, "goto")) {
 		if (equal(tok->next, "*")) {
 			// [GNU] `goto *ptr` jumps to the address specified by `ptr`.
diff --git a/toycc.h b/toycc.h
index bf978d7..49da986 100644
--- a/toycc.h
+++ b/toycc.h
@@ -311,6 +311,7 @@ struct Obj {
 	struct Obj *locals;
 	struct Obj *va_area;
 	struct Obj *alloca_bottom;
+	bool jumps_in_expr;	// there is a jump in a statement expression
 	int stack_size;
 
 	// for static inline function
-- 
2.43.0


From 13c5ef5b6c16df386f7296c78f28d836482b6e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:09 +0000
Subject: [PATCH 113/122] fix: objects and functions named alloca are called as
 the builtin

---
 codegen.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/codegen.c b/codegen.c
index adf2cc5..ff4803b 100644
--- a/codegen.c
+++ b/codegen.c
@@ -1556,6 +1556,8 @@ static void gen_expr(struct Node *node)
 		debug("ND_FUNCALL");
 
 		if (node->lhs->kind == ND_VAR &&
+		    node->lhs->var->ty->kind == TY_FUNC && node->args &&
+		   !node->lhs->var->is_definition &&
 		   !strcmp(node->lhs->var->name, "alloca")) {
 			// size
 			gen_expr(node->args);
-- 
2.43.0


From 4073ea847caa9a52aa04153e71df14d5fcff88fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:26 +0000
Subject: [PATCH 114/122] fix: stack not aligned at calls of the long double
 library functions

---
 codegen.c | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/codegen.c b/codegen.c
index ff4803b..1ed6f80 100644
--- a/codegen.c
+++ b/codegen.c
@@ -160,21 +160,31 @@ static void pseudo_addressing(const char *symbol)
 	println("\tla a0, %s", symbol);
 }
 
+// Keep the stack aligned at calls of library functions.
+static void begin_lib_call(void)
+{
+	if (depth % 2)
+		println("\taddi sp, sp, -8");
+}
+
+static void end_lib_call(void)
+{
+	if (depth % 2)
+		println("\taddi sp, sp, 8");
+}
+
 static void TLS_relative_addressing(const char *symbol)
 {
 	int c = count();
 
-	// keep the stack aligned at the call
-	if (depth % 2)
-		println("\taddi sp, sp, -8");
+	begin_lib_call();
 
 	println(".L.pcrel%d:", c);
 	println("\tauipc a0, %%tls_gd_pcrel_hi(%s)", symbol);
 	println("\taddi a0, a0, %%pcrel_lo(.L.pcrel%d)", c);
 	println("\tcall __tls_get_addr@plt");
 
-	if (depth % 2)
-		println("\taddi sp, sp, 8");
+	end_lib_call();
 }
 
 // Compute the absolute address of a given node.
@@ -587,7 +597,9 @@ static void cmp_zero(struct Type *ty)
 	case TY_LDOUBLE:
 		println("\tli a2, 0");
 		println("\tli a3, 0");
+		begin_lib_call();
 		println("\tcall __netf2@plt");
+		end_lib_call();
 		println("\tseqz a0, a0");
 		break;
 
@@ -615,7 +627,11 @@ static void cast(struct Type *from, struct Type *to)
 	if (cast_matrix[t1][t2]) {
 		debug("cast t1 %d t2 %d", t1, t2);
 
+		if (t1 == F128 || t2 == F128)
+			begin_lib_call();
 		println("%s", cast_matrix[t1][t2]);
+		if (t1 == F128 || t2 == F128)
+			end_lib_call();
 
 		debug("end cast");
 	}
@@ -1704,6 +1720,7 @@ static void gen_expr(struct Node *node)
 		pop("a2");
 		pop("a3");
 
+		begin_lib_call();
 		switch (node->kind) {
 		case ND_ADD:
 			println("\tcall __addtf3@plt");
@@ -1737,6 +1754,7 @@ static void gen_expr(struct Node *node)
 			error_tok(node->tok, "invalid expression");
 			break;
 		}
+		end_lib_call();
 		return;
 	}
 
-- 
2.43.0


From 178d0555fa98889d71a56954f59951f295544d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:54:20 +0000
Subject: [PATCH 115/122] fix: a struct expression initializes the first member
 of an unbraced struct

---
 parser/initializer.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/initializer.c b/parser/initializer.c
index 8093e6a..7c7a714 100644
--- a/parser/initializer.c
+++ b/parser/initializer.c
@@ -521,7 +521,7 @@ static void initializer2(struct Token **rest, struct Token *tok,
 		// Handle that case first.
 		struct Node *expr = init_assign(rest, tok);
 		add_type(expr);
-		if (expr->ty->kind == TY_STRUCT) {
+		if (is_compatible(expr->ty, init->ty)) {
 			init->expr = expr;
 			return;
 		}
@@ -536,7 +536,7 @@ static void initializer2(struct Token **rest, struct Token *tok,
 			// with another union.
 			struct Node *expr = init_assign(rest, tok);
 			add_type(expr);
-			if (expr->ty->kind == TY_UNION) {
+			if (is_compatible(expr->ty, init->ty)) {
 				init->expr = expr;
 				return;
 			}
-- 
2.43.0


From 24e8b6fb96b062b97c340dbc1a9284cb9f26078f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:58 +0000
Subject: [PATCH 116/122] fix: keep static inline functions that an initializer
 referred to before their definition

---
 parser/parser.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser/parser.c b/parser/parser.c
index 23b1560..7d4900a 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -1636,7 +1636,10 @@ struct Obj *declare_function(struct Token *tok, struct Type *ty,
 		fn->is_inline = attr->is_inline;
 		fn->is_inline_only = attr->is_inline && !attr->is_static && !attr->is_extern;
 	}
-	fn->is_root = !(fn->is_static && fn->is_inline);
+
+	// An initializer may already refer to the function.
+	if (!(fn->is_static && fn->is_inline))
+		fn->is_root = true;
 	return fn;
 }
 
-- 
2.43.0


From f98f3029d3564ea3be9a49fe9aff1ef99cf59302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:53 +0000
Subject: [PATCH 117/122] fix: reject a return value of another struct or union
 type

The code generator looked for a hidden parameter the function does not
have, and read through a null pointer.
---
 parser/parser.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser/parser.c b/parser/parser.c
index 7d4900a..f3201a0 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -1297,6 +1297,8 @@ static struct Node *stmt(struct Token **rest, struct Token *tok)
 		struct Type *ty = current_fn->ty->return_ty;
 		if (!is_struct_union(ty))
 			exp = new_cast(exp, current_fn->ty->return_ty);
+		else if (!is_compatible(exp->ty, ty))
+			error_tok(exp->tok, "returning a value of an incompatible type");
 
 		node->lhs = exp;
 		return node;
-- 
2.43.0


From 1ee21c69498cb65d6b300db948b3d59f8c5d4532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:11 +0000
Subject: [PATCH 118/122] fix: an array decays if the other operand is an
 integer

`0 == array` compared a truncated address, `c ? 0 : array` had an
integer type.
---
 type.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/type.c b/type.c
index 6a851bb..1ad5156 100644
--- a/type.c
+++ b/type.c
@@ -298,6 +298,8 @@ static struct Type *get_common_type(struct Type *ty1, struct Type *ty2)
 
 	if (ty1->kind == TY_FUNC)
 		return pointer_to(ty1);
+	if (ty2->base)
+		return pointer_to(ty2->base);
 	if (ty2->kind == TY_FUNC)
 		return pointer_to(ty2);
 
-- 
2.43.0


From 61bd45ca36c7719162249c0dc16337521b679711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:30 +0000
Subject: [PATCH 119/122] fix: type of a conditional expression with a null
 pointer constant or "void *"

`(c ? (void *)0 : p)->member` was rejected, and `c ? intp : voidp`
had the type "int *".
---
 type.c | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/type.c b/type.c
index 1ad5156..e9cbc69 100644
--- a/type.c
+++ b/type.c
@@ -378,6 +378,29 @@ static void check_atomic(struct Node *addr)
 		error_tok(addr->tok, "atomic operation on an invalid type");
 }
 
+static bool is_void_pointer(struct Node *node)
+{
+	return node->ty->kind == TY_PTR && node->ty->base->kind == TY_VOID;
+}
+
+static bool is_null_pointer(struct Node *node)
+{
+	return is_void_pointer(node) && node->kind == ND_CAST &&
+	       node->lhs->kind == ND_NUM && !node->lhs->val;
+}
+
+// Returns true if the third operand of a conditional operator determines
+// its type. A null pointer constant takes the type of the other operand,
+// which otherwise is converted to "void *".
+static bool is_els_type(struct Node *node)
+{
+	struct Type *ty = node->els->ty;
+
+	if (is_null_pointer(node->then))
+		return ty->base || ty->kind == TY_FUNC;
+	return is_void_pointer(node->els) && !is_null_pointer(node->els);
+}
+
 void add_type(struct Node *node)
 {
 	if (!node || node->ty)
@@ -464,6 +487,9 @@ void add_type(struct Node *node)
 			node->ty = p_ty_void();
 		} else if (is_struct_union(node->then->ty)) {
 			node->ty = node->then->ty;
+		} else if (is_els_type(node)) {
+			usual_arith_conv(&node->els, &node->then);
+			node->ty = node->els->ty;
 		} else {
 			usual_arith_conv(&node->then, &node->els);
 			node->ty = node->then->ty;
-- 
2.43.0


From f3ad893f63de5c8143fb8b68b5916683ce2db4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:49 +0000
Subject: [PATCH 120/122] fix: a variable-length array decays in a generic
 selection

---
 parser/parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser.c b/parser/parser.c
index f3201a0..1157987 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -97,7 +97,7 @@ static struct Node *generic_selection(struct Token **rest, struct Token *tok)
 	if (t1->kind == TY_FUNC)
 		t1 = pointer_to(t1);
 
-	else if (t1->kind == TY_ARRAY)
+	else if (t1->kind == TY_ARRAY || t1->kind == TY_VLA)
 		t1 = pointer_to(t1->base);
 
 	struct Node *ret = NULL;
-- 
2.43.0


From b3ba6d3c33330a9b642beec911f83e3e73e60aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:42 +0000
Subject: [PATCH 121/122] fix: a string or a union member that overrides
 another one replaces it completely

A string kept the elements of a longer one before, a union member
those of a designator before, and a braced union could have only
one designator.
---
 parser/initializer.c | 40 +++++++++++++++++++++++++++++++++++++---
 1 file changed, 37 insertions(+), 3 deletions(-)

diff --git a/parser/initializer.c b/parser/initializer.c
index 7c7a714..0adf059 100644
--- a/parser/initializer.c
+++ b/parser/initializer.c
@@ -45,6 +45,26 @@ static struct Initializer *new_initializer(struct Type *ty, bool is_flexible)
 	return init;
 }
 
+// Forget what earlier designators have set in an object
+// that is initialized as a whole again.
+static void clear_initializer(struct Initializer *init)
+{
+	struct Type *ty = init->ty;
+
+	init->expr = NULL;
+	init->mem = NULL;
+
+	if (!init->children)
+		return;
+
+	if (ty->kind == TY_ARRAY)
+		for (int i = 0; i < ty->array_len; i++)
+			clear_initializer(init->children[i]);
+	else
+		for (struct Member *mem = ty->members; mem; mem = mem->next)
+			clear_initializer(init->children[mem->idx]);
+}
+
 // The elements of a range are parsed separately.
 static int range_elements;
 
@@ -90,6 +110,8 @@ static void string_initializer(struct Token **rest, struct Token *tok,
 
 	int len = MIN(init->ty->array_len, tok->ty->array_len);
 
+	clear_initializer(init);
+
 	switch (init->ty->base->size) {
 	case 1: {
 		const char *str = tok->str;
@@ -242,6 +264,9 @@ static void designation(struct Token **rest, struct Token *tok, struct Initializ
 
 	if (equal(tok, ".") && init->ty->kind == TY_UNION) {
 		struct Member *mem = struct_designator(&tok, tok, init->ty);
+
+		if (init->mem != mem)
+			clear_initializer(init);
 		init->mem = mem;
 		init->expr = NULL;
 
@@ -446,10 +471,19 @@ static void union_initializer(struct Token **rest, struct Token *tok,
 	bool parentheses = equal(tok, "{");
 
 	if (parentheses && equal(tok->next, ".")) {
-		struct Member *mem = struct_designator(&tok, tok->next, init->ty);
-		init->mem = mem;
+		tok = tok->next;
+
+		// The last one overrides those before.
+		do {
+			struct Member *mem = struct_designator(&tok, tok, init->ty);
+
+			if (init->mem != mem)
+				clear_initializer(init);
+			init->mem = mem;
+
+			designation(&tok, tok, init->children[mem->idx]);
+		} while (!is_end(tok) && consume(&tok, tok, ","));
 
-		designation(&tok, tok, init->children[mem->idx]);
 		consume(&tok, tok, ",");
 		*rest = skip(tok, "}");
 		return;
-- 
2.43.0


From bc58705dd2bac6b2efe9931ad0875a203b4674a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:35 +0000
Subject: [PATCH 122/122] fix: assignment operators on pointers to VLA that are
 not variables

---
 parser/parser.c | 40 +++++++++++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/parser/parser.c b/parser/parser.c
index 1157987..cc3ec7e 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -611,6 +611,8 @@ static struct Node *compound_literal(struct Token **rest, struct Token *tok)
 	return new_binary(ND_COMMA, lhs, rhs, start);
 }
 
+static struct Node *new_add_sub(enum NodeKind kind, struct Node *lhs,
+				struct Node *rhs, struct Token *tok);
 // postfix = compound-literal postfix-tail*
 //         | ident "(" func-args ")" postfix-tail*
 //         | primary postfix-tail*
@@ -642,7 +644,8 @@ static struct Node *postfix(struct Token **rest, struct Token *tok)
 			struct Node *idx = expr(&tok, tok->next);
 
 			tok = skip(tok, "]");
-			node = new_unary(ND_DEREF, new_add(node, idx, start), start);
+			node = new_add_sub(ND_ADD, node, idx, start);
+			node = new_unary(ND_DEREF, node, start);
 			continue;
 		}
 
@@ -784,11 +787,6 @@ struct Node *new_add(struct Node *lhs, struct Node *rhs, struct Token *tok)
 	if (!lhs->ty->base || !is_integer(rhs->ty))
 		error_tok(tok, "invalid operands");
 
-	if (is_vla_pointer(lhs)) {
-		struct Node *expr = hoist_vla_pointer(&lhs, tok);
-		return new_binary(ND_COMMA, expr, new_add(lhs, rhs, tok), tok);
-	}
-
 	// VLA + num
 	if (lhs->ty->base->kind == TY_VLA) {
 		rhs = new_binary(ND_MUL, rhs,
@@ -811,11 +809,6 @@ static struct Node *new_sub(struct Node *lhs, struct Node *rhs, struct Token *to
 	if (is_numeric(lhs->ty) && is_numeric(rhs->ty))
 		return new_binary(ND_SUB, lhs, rhs, tok);
 
-	if (is_vla_pointer(lhs)) {
-		struct Node *expr = hoist_vla_pointer(&lhs, tok);
-		return new_binary(ND_COMMA, expr, new_sub(lhs, rhs, tok), tok);
-	}
-
 	// ptr - ptr, which returns how many elements are between the two.
 	if (lhs->ty->base && rhs->ty->base) {
 		struct Node *node = new_binary(ND_SUB, lhs, rhs, tok);
@@ -850,6 +843,27 @@ static struct Node *new_sub(struct Node *lhs, struct Node *rhs, struct Token *to
 	return new_binary(ND_SUB, lhs, rhs, tok);
 }
 
+// Add or subtract values, not the operands of an assignment operator.
+static struct Node *new_add_sub(enum NodeKind kind, struct Node *lhs,
+				struct Node *rhs, struct Token *tok)
+{
+	struct Node **ptr = &lhs;
+	struct Node *expr = NULL;
+
+	add_type(lhs);
+	add_type(rhs);
+
+	if (kind == ND_ADD && !lhs->ty->base)
+		ptr = &rhs;
+	if (is_vla_pointer(*ptr))
+		expr = hoist_vla_pointer(ptr, tok);
+
+	struct Node *node = kind == ND_ADD ? new_add(lhs, rhs, tok) :
+					     new_sub(lhs, rhs, tok);
+
+	return expr ? new_binary(ND_COMMA, expr, node, tok) : node;
+}
+
 static struct Node *add(struct Token **rest, struct Token *tok)
 {
 	struct Node *node = mul(&tok, tok);
@@ -858,12 +872,12 @@ static struct Node *add(struct Token **rest, struct Token *tok)
 		struct Token *start = tok;
 
 		if (equal(tok, "+")) {
-			node = new_add(node, mul(&tok, tok->next), start);
+			node = new_add_sub(ND_ADD, node, mul(&tok, tok->next), start);
 			continue;
 		}
 
 		if (equal(tok, "-")) {
-			node = new_sub(node, mul(&tok, tok->next), start);
+			node = new_add_sub(ND_SUB, node, mul(&tok, tok->next), start);
 			continue;
 		}
 
-- 
2.43.0

