From d3b7fc72cea8e1c7a4ee8f94961c3453a76192b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:07 +0000
Subject: [PATCH 01/68] fix: report modulo by zero instead of crashing with
 SIGFPE

---
 src/eval.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/eval.c b/src/eval.c
index 2b9f9b2..54b6346 100644
--- a/src/eval.c
+++ b/src/eval.c
@@ -494,7 +494,15 @@ static struct node *eval_node_oper_2(struct node *n) {
 
 		switch (n->data.as_oper.oper) {
 		case '%':
-			ret = node_new_int(leftn->data.as_int % rightn->data.as_int);
+			if (rightn->data.as_int == 0) {
+				error(error_type_out_of_range, "division by zero");
+				ret = NULL;
+			} else if (rightn->data.as_int == -1) {
+				// avoids trapping on INT64_MIN % -1
+				ret = node_new_int(0);
+			} else {
+				ret = node_new_int(leftn->data.as_int % rightn->data.as_int);
+			}
 			break;
 		case SHL:
 			ret = node_new_int(leftn->data.as_int << rightn->data.as_int);
-- 
2.43.0


From 7bca154e02e8e6d0f124bd4cd35a2760e77a7c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:07 +0000
Subject: [PATCH 02/68] fix: relational operators bind tighter than == and !=,
 as documented

---
 src/grammar.y | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grammar.y b/src/grammar.y
index b679585..c967eb4 100644
--- a/src/grammar.y
+++ b/src/grammar.y
@@ -79,8 +79,8 @@ static void check_end_opcode(struct prog_line *line);
 %left '|'
 %left '^'
 %left '&'
-%left '<' LE '>' GE
 %left EQ NE
+%left '<' LE '>' GE
 %left SHL SHR
 %left '+' '-'
 %left '*' '/' '%'
-- 
2.43.0


From 6314221dc5038dc20c2724d7dafc6856f3313d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:07 +0000
Subject: [PATCH 03/68] fix: compute the offset of a PCR operand whose target
 is address 0

---
 src/instr.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/instr.c b/src/instr.c
index 911c0c8..baf2307 100644
--- a/src/instr.c
+++ b/src/instr.c
@@ -291,7 +291,8 @@ static void instr_indexed2(_Bool indirect, struct node const *arg0, struct node
 		goto invalid_mode;
 	}
 
-	if (arg0_type == node_type_int && arg0_attr == node_attr_none
+	// a PCR operand is a target address, so zero is not "no offset"
+	if (!pcr && arg0_type == node_type_int && arg0_attr == node_attr_none
 	    && arg0->data.as_int == 0) {
 		arg0_type = node_type_empty;
 	}
-- 
2.43.0


From 7ceecf6726127e305550c3c3d8b4808779fbc20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:07 +0000
Subject: [PATCH 04/68] fix: use the no-offset form for a zero offset from W

---
 src/instr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/instr.c b/src/instr.c
index baf2307..9f30f00 100644
--- a/src/instr.c
+++ b/src/instr.c
@@ -175,7 +175,7 @@ static struct {
 	{ idx_type_xyus, node_attr_none,     off_type_reg_e, 0x87, idx_indirect_ok },
 	{ idx_type_xyus, node_attr_none,     off_type_reg_f, 0x8a, idx_indirect_ok },
 	{ idx_type_xyus, node_attr_none,     off_type_reg_w, 0x8e, idx_indirect_ok },
-	{ idx_type_w,    node_attr_none,     off_type_none,  0x8f, idx_indirect_ok_6309 },
+	{ idx_type_w,    node_attr_none,     off_type_zero,  0x8f, idx_indirect_ok_6309 },
 	{ idx_type_w,    node_attr_none,     off_type_16bit, 0xaf, idx_indirect_ok_6309 },
 	{ idx_type_w,    node_attr_postinc2, off_type_none,  0xcf, idx_indirect_ok_6309 },
 	{ idx_type_w,    node_attr_predec2,  off_type_none,  0xef, idx_indirect_ok_6309 },
-- 
2.43.0


From 9de421948bb2eeda84a134e61850b0fefab985d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:07 +0000
Subject: [PATCH 05/68] fix: reject registers with no code in inter-register
 ops

---
 src/instr.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/instr.c b/src/instr.c
index 9f30f00..47f91db 100644
--- a/src/instr.c
+++ b/src/instr.c
@@ -545,6 +545,10 @@ void instr_pair(struct opcode const *op, struct node const *args) {
 		if (type[i] == node_type_reg) {
 			nibble[i] = reg_tfr_nibble[arga[i]->data.as_reg];
 			size[i] = reg_tfr_size[arga[i]->data.as_reg];
+			if (nibble[i] < 0) {
+				error(error_type_syntax, "invalid register in inter-register op");
+				return;
+			}
 		} else if (type[i] == node_type_int) {
 			int v = arga[i]->data.as_int;
 			if (v == 0 && asm6809_options.isa == asm6809_isa_6309) {
-- 
2.43.0


From 5e3bebb5a52ab986707b510ff077378417df3969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:40 +0000
Subject: [PATCH 06/68] fix: accept strings in place of integer values
 everywhere, as documented

---
 src/assemble.c |  7 +++++++
 src/eval.c     | 17 ++++++++++++-----
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/assemble.c b/src/assemble.c
index f476ba1..7a53e59 100644
--- a/src/assemble.c
+++ b/src/assemble.c
@@ -265,6 +265,13 @@ static int64_t have_int_optional(struct node *args, int aindex, const char *op,
 	case node_type_float:
 		in = arga[aindex]->data.as_float;
 		break;
+	case node_type_string:
+		{
+			struct node *n = eval_int(arga[aindex]);
+			in = n->data.as_int;
+			node_free(n);
+		}
+		break;
 	}
 	return in;
 }
diff --git a/src/eval.c b/src/eval.c
index 54b6346..95add2c 100644
--- a/src/eval.c
+++ b/src/eval.c
@@ -206,7 +206,7 @@ struct node *eval_int(struct node *n) {
 		{
 			uint32_t value = 0;
 			for (const char *s = n->data.as_string; *s; s++)
-				value = (value << 8) | *s;
+				value = (value << 8) | (uint8_t)*s;
 			return node_set_attr(node_new_int(value), n->attr);
 		}
 	default:
@@ -253,8 +253,9 @@ struct node *eval_int_free(struct node *n) {
 	}
 	if (n->type == node_type_int)
 		return n;
+	struct node *ret = eval_int(n);
 	node_free(n);
-	return NULL;
+	return ret;
 }
 
 // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -375,12 +376,18 @@ static struct node *eval_node_oper_2(struct node *n) {
 			ret = node_new_int(strcmp(leftn->data.as_string, rightn->data.as_string) != 0);
 			break;
 		default:
+			/* Otherwise both are used in place of integers */
+			string_op = 0;
 			ret = NULL;
 			break;
 		}
-		node_free(leftn);
-		node_free(rightn);
-		return ret;
+		if (string_op) {
+			node_free(leftn);
+			node_free(rightn);
+			return ret;
+		}
+		leftn = eval_int_free(leftn);
+		rightn = eval_int_free(rightn);
 	}
 
 	_Bool int_only = (leftn->type == node_type_int && rightn->type == node_type_int);
-- 
2.43.0


From 59340b80e103cc4253287a216874b5c42136489a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:40 +0000
Subject: [PATCH 07/68] fix: report operators applied to registers or empty
 operands

---
 src/eval.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/eval.c b/src/eval.c
index 95add2c..296b4ae 100644
--- a/src/eval.c
+++ b/src/eval.c
@@ -260,6 +260,12 @@ struct node *eval_int_free(struct node *n) {
 
 // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
 
+/* Without a diagnostic, the undefined result would assemble to padding. */
+
+static void bad_operand(void) {
+	error(error_type_syntax, "invalid operand type in expression");
+}
+
 static struct node *eval_node_oper_1(struct node *n) {
 	struct node *ret = NULL;
 	struct node *arg;
@@ -286,6 +292,7 @@ static struct node *eval_node_oper_1(struct node *n) {
 			ret = node_new_float(-arg->data.as_float);
 			break;
 		default:
+			bad_operand();
 			break;
 		}
 		break;
@@ -296,6 +303,7 @@ static struct node *eval_node_oper_1(struct node *n) {
 		case node_type_float:
 			return arg;
 		default:
+			bad_operand();
 			break;
 		}
 		break;
@@ -313,6 +321,8 @@ static struct node *eval_node_oper_1(struct node *n) {
 		arg = eval_int_free(arg);
 		if (arg) {
 			ret = node_new_int(~arg->data.as_int);
+		} else {
+			bad_operand();
 		}
 		break;
 
@@ -438,10 +448,12 @@ static struct node *eval_node_oper_2(struct node *n) {
 		}
 
 		if (!(leftn = eval_float_free(leftn))) {
+			bad_operand();
 			node_free(rightn);
 			return NULL;
 		}
 		if (!(rightn = eval_float_free(rightn))) {
+			bad_operand();
 			node_free(leftn);
 			return NULL;
 		}
@@ -491,10 +503,12 @@ static struct node *eval_node_oper_2(struct node *n) {
 	case LAND: case LOR:
 
 		if (!(leftn = eval_int_free(leftn))) {
+			bad_operand();
 			node_free(rightn);
 			return NULL;
 		}
 		if (!(rightn = eval_int_free(rightn))) {
+			bad_operand();
 			node_free(leftn);
 			return NULL;
 		}
@@ -562,8 +576,10 @@ static struct node *eval_node_oper_3(struct node *n) {
 	if (!(condn = eval_node(n->data.as_oper.args[0])))
 		return NULL;
 
-	if (!(condn = eval_int_free(condn)))
+	if (!(condn = eval_int_free(condn))) {
+		bad_operand();
 		return NULL;
+	}
 
 	if (condn->data.as_int != 0) {
 		ret = eval_node(n->data.as_oper.args[1]);
-- 
2.43.0


From 093fbbc2f27383ec539e0057a9a6f399a23e14c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:13 +0000
Subject: [PATCH 08/68] fix: reject operands that are not values instead of
 assembling them as zero

---
 src/instr.c | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/instr.c b/src/instr.c
index 47f91db..0d7c45c 100644
--- a/src/instr.c
+++ b/src/instr.c
@@ -59,6 +59,8 @@ void instr_immediate(struct opcode const *op, struct node const *args) {
 	if (tmp) {
 		value = tmp->data.as_int;
 		node_free(tmp);
+	} else if (node_type_of(arga[0]) != node_type_undef) {
+		error(error_type_syntax, "invalid immediate value");
 	}
 	if ((op->type & OPCODE_EXT_TYPE) == OPCODE_IMM8)
 		section_emit_uint8(value);
@@ -94,14 +96,18 @@ void instr_rel(struct opcode const *op, struct node const *args) {
 		return;
 	}
 	section_emit_op(op->immediate);
-	if (node_type_of(arga[0]) != node_type_int) {
+	struct node *arg = eval_int(arga[0]);
+	if (!arg) {
+		if (node_type_of(arga[0]) != node_type_undef)
+			error(error_type_syntax, "invalid branch target");
 		if ((op->type & OPCODE_EXT_TYPE) == OPCODE_REL8)
 			section_emit_pad(1);
 		else
 			section_emit_pad(2);
 		return;
 	}
-	int rel8 = to_rel16(arga[0]->data.as_int - (cur_section->pc + 1));
+	int rel8 = to_rel16(arg->data.as_int - (cur_section->pc + 1));
+	node_free(arg);
 	_Bool rel8v = (rel8 < -128 || rel8 > 127);
 	if ((op->type & OPCODE_EXT_TYPE) == OPCODE_REL8) {
 		if (rel8v)
@@ -439,6 +445,10 @@ void instr_address(struct opcode const *op, struct node const *args, int imm8_va
 	}
 
 	struct node *arg = eval_int(arga[0]);
+	if (!arg && node_type_of(arga[0]) != node_type_undef) {
+		error(error_type_syntax, "invalid addressing mode");
+		return;
+	}
 	enum node_attr attr = node_attr_16bit;
 	unsigned addr = cur_section->pc;
 	if (arg) {
@@ -483,8 +493,14 @@ void instr_imm8_mem(struct opcode const *op, struct node const *args) {
 		return;
 	}
 	int imm8_val = 0;
-	if (node_type_of(arga[0]) == node_type_int)
-		imm8_val = arga[0]->data.as_int;
+	struct node *imm = eval_int(arga[0]);
+	if (imm) {
+		imm8_val = imm->data.as_int;
+		node_free(imm);
+	} else if (node_type_of(arga[0]) != node_type_undef) {
+		error(error_type_syntax, "invalid immediate value");
+		return;
+	}
 	struct node *newa = node_new_array();
 	newa->data.as_array.nargs = nargs - 1;
 	newa->data.as_array.args = arga + 1;
-- 
2.43.0


From d0049f431ec889b317f536eade26b82dbce67e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:13 +0000
Subject: [PATCH 09/68] fix: honour a numeric register in 6309 bit transfer
 instructions

---
 src/instr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/instr.c b/src/instr.c
index 0d7c45c..3ee7235 100644
--- a/src/instr.c
+++ b/src/instr.c
@@ -670,7 +670,7 @@ void instr_reg_mem(struct opcode const *op, struct node const *args) {
 	case node_type_undef:
 		break;
 	case node_type_int:
-		pbyte |= (arga[0]->data.as_int & 3) << 6;
+		pbyte = (arga[0]->data.as_int & 3) << 6;
 		error(error_type_illegal, "numerical value used in place of register");
 		break;
 	case node_type_reg:
-- 
2.43.0


From 342d8e785289a7537928cac163a0408148ed30ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:13 +0000
Subject: [PATCH 10/68] fix: reject non-numeric bits and addresses in 6309 bit
 transfer instructions

---
 src/instr.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/instr.c b/src/instr.c
index 3ee7235..1d28fb6 100644
--- a/src/instr.c
+++ b/src/instr.c
@@ -692,6 +692,14 @@ void instr_reg_mem(struct opcode const *op, struct node const *args) {
 		goto invalid_register;
 	}
 
+	for (int i = 1; i < 4; i++) {
+		enum node_type type = node_type_of(arga[i]);
+		if (type != node_type_int && type != node_type_undef) {
+			error(error_type_syntax, "invalid operand in register-memory operation");
+			return;
+		}
+	}
+
 	if (node_type_of(arga[1]) == node_type_int) {
 		if (arga[1]->data.as_int < 0 || arga[1]->data.as_int > 7) {
 			error(error_type_out_of_range, "bad source bit");
-- 
2.43.0


From 7de592bffd4e9260313fa8ed16fa13b8e4ed5c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:13 +0000
Subject: [PATCH 11/68] fix: wrap relative offsets in constant time

---
 src/instr.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/instr.c b/src/instr.c
index 1d28fb6..713ca1d 100644
--- a/src/instr.c
+++ b/src/instr.c
@@ -81,11 +81,8 @@ void instr_immediate(struct opcode const *op, struct node const *args) {
  * to be range tested. */
 
 static int to_rel16(int64_t i) {
-	while (i < -32768)
-		i += 65536;
-	while (i > 32767)
-		i -= 65536;
-	return i;
+	i &= 0xffff;
+	return (i > 32767) ? i - 65536 : i;
 }
 
 void instr_rel(struct opcode const *op, struct node const *args) {
-- 
2.43.0


From 1bee37ce86d12e686779c41b0e127259bd27319a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:13 +0000
Subject: [PATCH 12/68] fix: allow register operands that are forward
 references

---
 src/instr.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/instr.c b/src/instr.c
index 713ca1d..94c3ef1 100644
--- a/src/instr.c
+++ b/src/instr.c
@@ -517,6 +517,9 @@ void instr_stack(struct opcode const *op, struct node const *args, enum reg_id s
 
 	int pbyte = 0;
 	for (int i = 0; i < nargs; i++) {
+		// may be a forward reference to a symbol naming a register
+		if (node_type_of(arga[i]) == node_type_undef)
+			continue;
 		if (node_type_of(arga[i]) != node_type_reg) {
 			error(error_type_syntax, "invalid argument");
 			return;
@@ -550,9 +553,9 @@ void instr_pair(struct opcode const *op, struct node const *args) {
 		return;
 	}
 
-	int nibble[2];
+	int nibble[2] = { 0, 0 };
 	int type[2];
-	int size[2];
+	int size[2] = { 16 | 8, 16 | 8 };
 	for (int i = 0; i < 2; i++) {
 		type[i] = node_type_of(arga[i]);
 		if (type[i] == node_type_reg) {
@@ -603,7 +606,7 @@ void instr_tfm(struct opcode const *op, struct node const *args) {
 		return;
 	}
 
-	int nibble[2];
+	int nibble[2] = { 0, 0 };
 	int type[2];
 	int attr[2];
 	for (int i = 0; i < 2; i++) {
@@ -629,6 +632,13 @@ void instr_tfm(struct opcode const *op, struct node const *args) {
 		}
 	}
 
+	// may be a forward reference to a symbol naming a register
+	if (type[0] == node_type_undef || type[1] == node_type_undef) {
+		section_emit_op(op->immediate);
+		section_emit_pad(1);
+		return;
+	}
+
 	unsigned pbyte = (nibble[0] << 4) | nibble[1];
 	unsigned mod = 0;
 	if (attr[0] == node_attr_postinc && attr[1] == node_attr_postinc) {
-- 
2.43.0


From 0c2efbed0c0ef24a99586893386bae75f907a1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:31 +0000
Subject: [PATCH 13/68] fix: size span buffers by their content, not by PC
 (heap overflow near INT_MAX)

---
 src/section.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/section.c b/src/section.c
index 38271b9..6c8dfe1 100644
--- a/src/section.c
+++ b/src/section.c
@@ -257,7 +257,7 @@ static void section_emit(uint8_t const *buf, int nbytes) {
 	cur_section->put += nbytes;
 	cur_section->pc += nbytes;
 
-	if (cur_section->pc >= (int)(span->org + span->allocated)) {
+	if (span->size + nbytes > span->allocated) {
 		span->allocated += 128;
 		span->data = xrealloc(span->data, span->allocated);
 	}
-- 
2.43.0


From 2cd96ef8ac1786855d5962952f625fd4ab4c6218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:31 +0000
Subject: [PATCH 14/68] fix: reject addresses and counts too large to represent
 instead of truncating them

---
 src/assemble.c | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/src/assemble.c b/src/assemble.c
index 7a53e59..3643a5b 100644
--- a/src/assemble.c
+++ b/src/assemble.c
@@ -40,6 +40,11 @@ option) any later version.
 static struct prog_ctx *defining_macro_ctx = NULL;
 static int defining_macro_level = 0;
 
+/* Addresses and counts are limited well beyond what can be assembled (64K), so
+ * that arithmetic on them can neither wrap nor take forever. */
+#define MAX_ADDRESS (0x3fffffffL)
+#define MAX_COUNT (0x10000L)
+
 static unsigned asm_pass;
 static unsigned prog_depth = 0;
 
@@ -646,6 +651,10 @@ static void pseudo_org(struct prog_line *line) {
 	if (verify_num_args(line->args, 1, 1, "ORG") < 0)
 		return;
 	long new_pc = have_int_required(line->args, 0, "ORG", cur_section->pc);
+	if (new_pc < -MAX_ADDRESS || new_pc > MAX_ADDRESS) {
+		error(error_type_out_of_range, "address out of range for ORG");
+		return;
+	}
 	cur_section->pc = new_pc;
 	if (new_pc >= 0)
 		cur_section->put = new_pc;
@@ -693,6 +702,10 @@ static void pseudo_put(struct prog_line *line) {
 		error(error_type_out_of_range, "invalid negative address for PUT");
 		return;
 	}
+	if (new_put > MAX_ADDRESS) {
+		error(error_type_out_of_range, "address out of range for PUT");
+		return;
+	}
 	cur_section->put = new_put;
 }
 
@@ -885,6 +898,10 @@ static void pseudo_rzb(struct prog_line *line) {
 	if (count < 0) {
 		error(error_type_out_of_range, "negative count for RZB");
 	}
+	if (count > MAX_COUNT) {
+		error(error_type_out_of_range, "count for RZB too large");
+		return;
+	}
 	for (long i = 0; i < count; i++)
 		section_emit_uint8(fill);
 }
@@ -899,6 +916,10 @@ static void pseudo_fill(struct prog_line *line) {
 	if (count < 0) {
 		error(error_type_out_of_range, "negative count for FILL");
 	}
+	if (count > MAX_COUNT) {
+		error(error_type_out_of_range, "count for FILL too large");
+		return;
+	}
 	for (long i = 0; i < count; i++)
 		section_emit_uint8(fill);
 }
@@ -913,6 +934,10 @@ static void pseudo_rmb(struct prog_line *line) {
 		error(error_type_out_of_range, "negative argument to RMB");
 		return;
 	}
+	if (count > MAX_COUNT) {
+		error(error_type_out_of_range, "argument to RMB too large");
+		return;
+	}
 	section_skip(count);
 }
 
@@ -929,6 +954,10 @@ static void pseudo_align(struct prog_line *line) {
 		return;
 	}
 	long count = (align - (cur_section->pc % align)) % align;
+	if (count > MAX_COUNT) {
+		error(error_type_out_of_range, "argument to ALIGN too large");
+		return;
+	}
 	if (nargs < 2) {
 		section_skip(count);
 	} else {
-- 
2.43.0


From 144f878ae2339d8049484c30590a2584eceedc32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:47 +0000
Subject: [PATCH 15/68] fix: place a new section after the last one defined,
 even if another was reselected

---
 src/section.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/section.c b/src/section.c
index 6c8dfe1..eaa3a66 100644
--- a/src/section.c
+++ b/src/section.c
@@ -32,6 +32,9 @@ option) any later version.
 static struct dict *sections = NULL;
 static unsigned span_sequence = 0;
 
+/* Section most recently started in the current pass: the next will follow it */
+static struct section *newest_section = NULL;
+
 struct section *cur_section = NULL;
 
 // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -100,6 +103,7 @@ void section_free_all(void) {
 		dict_destroy(sections);
 	sections = NULL;
 	cur_section = NULL;
+	newest_section = NULL;
 }
 
 // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -121,13 +125,14 @@ void section_set(const char *name, unsigned pass) {
 			next_section->spans = NULL;
 			next_section->span = NULL;
 		}
-		if (cur_section && cur_section->pass == pass) {
-			next_section->pc = cur_section->last_pc;
-			next_section->put = cur_section->last_put;
+		if (newest_section && newest_section->pass == pass) {
+			next_section->pc = newest_section->last_pc;
+			next_section->put = newest_section->last_put;
 		} else {
 			next_section->pc = 0;
 			next_section->put = 0;
 		}
+		newest_section = next_section;
 		next_section->pass = pass;
 		next_section->dp = asm6809_options.setdp;
 		next_section->line_number = 0;
-- 
2.43.0


From 53bca2c312bfcb0deaca28021c3faa206255530c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:47 +0000
Subject: [PATCH 16/68] fix: trigger another pass when only a section's put
 address has moved

---
 src/section.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/section.c b/src/section.c
index eaa3a66..abbd581 100644
--- a/src/section.c
+++ b/src/section.c
@@ -148,7 +148,7 @@ static void verify_section(void *key, void *value, void *data) {
 	struct section *sect = value;
 	if (!sect)
 		return;
-	if (sect->last_pc != sect->pc) {
+	if (sect->last_pc != sect->pc || sect->last_put != sect->put) {
 		sect->last_pc = sect->pc;
 		sect->last_put = sect->put;
 		error(error_type_inconsistent, NULL);
-- 
2.43.0


From 7f9db18b1e98418c8e03407eb340a691d8c741af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:47 +0000
Subject: [PATCH 17/68] fix: don't output sections that were only selected in
 an earlier pass

---
 src/section.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/section.c b/src/section.c
index abbd581..46969ab 100644
--- a/src/section.c
+++ b/src/section.c
@@ -222,6 +222,9 @@ struct section *section_coalesce_all(_Bool pad) {
 	struct slist *section_list = dict_get_values(sections);
 	for (struct slist *l = section_list; l; l = l->next) {
 		struct section *s = l->data;
+		// ignore sections not selected in the final pass
+		if (cur_section && s->pass != cur_section->pass)
+			continue;
 		sect->spans = slist_concat(sect->spans, slist_copy_deep(s->spans, (slist_copy_func)section_span_ref, NULL));
 	}
 	slist_free(section_list);
-- 
2.43.0


From 8c1388fe0a01aff028a3df99c3bbe311a32e9945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:47 +0000
Subject: [PATCH 18/68] fix: give a SECTION line its own position in the
 section it selects

---
 src/assemble.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/assemble.c b/src/assemble.c
index 3643a5b..95490cf 100644
--- a/src/assemble.c
+++ b/src/assemble.c
@@ -676,6 +676,7 @@ static void pseudo_section(struct prog_line *line) {
 		return;
 	}
 	section_set(n->data.as_string, asm_pass);
+	cur_section->line_number++;
 	node_free(n);
 	set_label(line->label, node_new_int(cur_section->pc), 0);
 	listing_add_line(cur_section->pc, 0, NULL, line->text);
@@ -687,6 +688,7 @@ static void pseudo_section(struct prog_line *line) {
 
 static void pseudo_section_name(struct prog_line *line) {
 	section_set(line->opcode->data.as_string, asm_pass);
+	cur_section->line_number++;
 	set_label(line->label, node_new_int(cur_section->pc), 0);
 	listing_add_line(cur_section->pc, 0, NULL, line->text);
 }
-- 
2.43.0


From 8322c6224556018d00a46c7376f71bcb2b07b7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:10 +0000
Subject: [PATCH 19/68] fix: out of range values are only fatal if no
 inconsistencies were found

---
 src/error.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/error.c b/src/error.c
index 3d7e764..ef85338 100644
--- a/src/error.c
+++ b/src/error.c
@@ -44,7 +44,9 @@ static struct slist **error_list_next = &error_list;
 
 static void verror(enum error_type type, const char *fmt, va_list ap) {
 	struct error *err = NULL;
-	if (type > error_level) {
+	if (type > error_level &&
+	    !(type == error_type_out_of_range &&
+	      error_level == error_type_inconsistent)) {
 		error_level = type;
 	}
 	if (type == error_type_inconsistent &&
-- 
2.43.0


From 4ad574b9cce558a9c358ef049e5e1fb0b23161f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:10 +0000
Subject: [PATCH 20/68] fix: list data exactly when a line emits it, even after
 PUT

---
 src/assemble.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/assemble.c b/src/assemble.c
index 95490cf..ba45195 100644
--- a/src/assemble.c
+++ b/src/assemble.c
@@ -500,9 +500,13 @@ void assemble_prog(struct prog *prog, unsigned pass) {
 		op_handler = dict_lookup(pseudo_data_dict, n_line.opcode->data.as_string);
 		if (op_handler) {
 			int old_pc = cur_section->pc;
+			struct section_span const *old_span = cur_section->span;
+			unsigned old_size = old_span ? old_span->size : 0;
 			op_handler(&n_line);
 			int nbytes = cur_section->pc - old_pc;
-			if (cur_section->span && cur_section->pc == (int)(cur_section->span->put + cur_section->span->size))
+			// only list data if any was emitted, as opposed to reserved
+			if (cur_section->span &&
+			    (cur_section->span != old_span || cur_section->span->size != old_size))
 				listing_add_line(old_pc & 0xffff, nbytes, cur_section->span, l->text);
 			else
 				listing_add_line(old_pc & 0xffff, nbytes, NULL, l->text);
-- 
2.43.0


From bc8d63553dca127b320c0bb533ff74c64c3bfa33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:10 +0000
Subject: [PATCH 21/68] fix: don't keep adding lines to an unfinished macro
 after the end of its file

---
 src/assemble.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/assemble.c b/src/assemble.c
index ba45195..5e7eb0c 100644
--- a/src/assemble.c
+++ b/src/assemble.c
@@ -586,6 +586,14 @@ next_line:
 		error(error_type_syntax, "IF not matched with ENDIF");
 	}
 
+	if (defining_macro_level > 0) {
+		error(error_type_syntax, "unfinished macro");
+		if (defining_macro_ctx)
+			prog_ctx_free(defining_macro_ctx);
+		defining_macro_ctx = NULL;
+		defining_macro_level = 0;
+	}
+
 	assert(prog_depth > 0);
 	prog_depth--;
 	prog_ctx_free(ctx);
-- 
2.43.0


From 4f6f0ab5634970d0384391869da5fa7ed7d64563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:11 +0000
Subject: [PATCH 22/68] fix: accept floating point results within indirect
 operands

---
 src/assemble.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/assemble.c b/src/assemble.c
index 5e7eb0c..9f9467a 100644
--- a/src/assemble.c
+++ b/src/assemble.c
@@ -220,6 +220,8 @@ static void args_float_to_int(struct node *args) {
 	for (int i = 0; i < nargs; i++) {
 		if (node_type_of(arga[i]) == node_type_float)
 			arga[i] = eval_int_free(arga[i]);
+		else
+			args_float_to_int(arga[i]);
 	}
 }
 
-- 
2.43.0


From ed81479e8f7b6cd3ae93ab87af5e15027af27ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:11 +0000
Subject: [PATCH 23/68] fix: allow INCLUDEBIN of a forward reference, as
 intended

---
 src/assemble.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/assemble.c b/src/assemble.c
index 9f9467a..d473c64 100644
--- a/src/assemble.c
+++ b/src/assemble.c
@@ -1011,6 +1011,8 @@ static void pseudo_includebin(struct prog_line *line) {
 	if (verify_num_args(line->args, 1, 1, "INCLUDE") < 0)
 		return;
 	struct node **arga = node_array_of(line->args);
+	if (node_type_of(arga[0]) == node_type_undef)
+		return;
 	if (node_type_of(arga[0]) != node_type_string) {
 		error(error_type_syntax, "invalid argument to INCLUDEBIN");
 		return;
-- 
2.43.0


From 3282816a5e3097d012d197a56971bfecf22e6626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:11 +0000
Subject: [PATCH 24/68] fix: report read errors in INCLUDEBIN

---
 src/assemble.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/assemble.c b/src/assemble.c
index d473c64..8ae8d4f 100644
--- a/src/assemble.c
+++ b/src/assemble.c
@@ -1026,6 +1026,8 @@ static void pseudo_includebin(struct prog_line *line) {
 	while ((c = fgetc(f)) != EOF) {
 		section_emit_uint8(c);
 	}
+	if (ferror(f))
+		error(error_type_fatal, "error reading file: %s", arga[0]->data.as_string);
 	fclose(f);
 }
 
-- 
2.43.0


From 7d4e7ef91b13ff7c3e508ca63a6b1f469db33ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:49 +0000
Subject: [PATCH 25/68] fix: report output files that can't be opened or
 written

---
 src/asm6809.c | 18 ++++++------------
 src/output.c  | 39 +++++++++++++++++++++++++++++----------
 src/output.h  | 10 ++++++++++
 3 files changed, 45 insertions(+), 22 deletions(-)

diff --git a/src/asm6809.c b/src/asm6809.c
index 55e2143..f3e92c2 100644
--- a/src/asm6809.c
+++ b/src/asm6809.c
@@ -215,12 +215,10 @@ int main(int argc, char **argv) {
 
 	/* Generate listing file */
 	if (listing_filename) {
-		FILE *listf = fopen(listing_filename, "wb");
+		FILE *listf = output_open(listing_filename);
 		if (listf) {
 			listing_print(listf);
-			fclose(listf);
-		} else {
-			error(error_type_fatal, "%s: %s", listing_filename, strerror(errno));
+			output_close(listf, listing_filename);
 		}
 	}
 
@@ -272,23 +270,19 @@ int main(int argc, char **argv) {
 
 	/* Generate exports file */
 	if (exports_filename) {
-		FILE *expf = fopen(exports_filename, "wb");
+		FILE *expf = output_open(exports_filename);
 		if (expf) {
 			prog_print_exports(expf);
-			fclose(expf);
-		} else {
-			error(error_type_fatal, "%s: %s", exports_filename, strerror(errno));
+			output_close(expf, exports_filename);
 		}
 	}
 
 	/* Generate symbols file */
 	if (symbol_filename) {
-		FILE *symf = fopen(symbol_filename, "wb");
+		FILE *symf = output_open(symbol_filename);
 		if (symf) {
 			prog_print_symbols(symf);
-			fclose(symf);
-		} else {
-			error(error_type_fatal, "%s: %s", symbol_filename, strerror(errno));
+			output_close(symf, symbol_filename);
 		}
 	}
 
diff --git a/src/output.c b/src/output.c
index a68f2ec..7880952 100644
--- a/src/output.c
+++ b/src/output.c
@@ -13,9 +13,11 @@ option) any later version.
 #include "config.h"
 
 #include <assert.h>
+#include <errno.h>
 #include <stdint.h>
 #include <stdio.h>
 #include <stdlib.h>
+#include <string.h>
 
 #include "error.h"
 #include "eval.h"
@@ -25,6 +27,23 @@ option) any later version.
 #include "slist.h"
 #include "symbol.h"
 
+/* Open and close output files, reporting any failure to write them. */
+
+FILE *output_open(const char *filename) {
+	FILE *f = fopen(filename, "wb");
+	if (!f)
+		error(error_type_fatal, "%s: %s", filename, strerror(errno));
+	return f;
+}
+
+void output_close(FILE *f, const char *filename) {
+	_Bool failed = ferror(f) != 0;
+	if (fclose(f) != 0)
+		failed = 1;
+	if (failed)
+		error(error_type_fatal, "%s: write failed", filename);
+}
+
 /* Helper that dumps a single binary blob to file. */
 
 static void write_single_binary(FILE *f, struct section_span *span) {
@@ -48,7 +67,7 @@ static int get_exec_addr(void) {
 /* Output format: Plain binary.  All coalesced into one big blob. */
 
 void output_binary(const char *filename) {
-	FILE *f = fopen(filename, "wb");
+	FILE *f = output_open(filename);
 	if (!f)
 		return;
 
@@ -59,7 +78,7 @@ void output_binary(const char *filename) {
 	}
 
 	section_free(sect);
-	fclose(f);
+	output_close(f, filename);
 }
 
 /* Output format: DragonDOS binary. */
@@ -67,7 +86,7 @@ void output_binary(const char *filename) {
 void output_dragondos(const char *filename) {
 	int exec_addr = get_exec_addr();
 
-	FILE *f = fopen(filename, "wb");
+	FILE *f = output_open(filename);
 	if (!f)
 		return;
 
@@ -96,7 +115,7 @@ void output_dragondos(const char *filename) {
 		write_single_binary(f, span);
 
 	section_free(sect);
-	fclose(f);
+	output_close(f, filename);
 }
 
 /* Output format: CoCo RSDOS binary. */
@@ -110,7 +129,7 @@ void output_dragondos(const char *filename) {
 void output_coco(const char *filename) {
 	int exec_addr = get_exec_addr();
 
-	FILE *f = fopen(filename, "wb");
+	FILE *f = output_open(filename);
 	if (!f)
 		return;
 
@@ -137,7 +156,7 @@ void output_coco(const char *filename) {
 	fputc(exec_addr  & 0xff, f);
 
 	section_free(sect);
-	fclose(f);
+	output_close(f, filename);
 }
 
 /* Output format: Motorola SREC. */
@@ -145,7 +164,7 @@ void output_coco(const char *filename) {
 void output_motorola_srec(const char *filename) {
 	int exec_addr = get_exec_addr();
 
-	FILE *f = fopen(filename, "wb");
+	FILE *f = output_open(filename);
 	if (!f)
 		return;
 
@@ -180,7 +199,7 @@ void output_motorola_srec(const char *filename) {
         }
 
 	section_free(sect);
-	fclose(f);
+	output_close(f, filename);
 }
 
 /* Output format: Intel HEX. */
@@ -188,7 +207,7 @@ void output_motorola_srec(const char *filename) {
 void output_intel_hex(const char *filename) {
 	int exec_addr = get_exec_addr();
 
-	FILE *f = fopen(filename, "wb");
+	FILE *f = output_open(filename);
 	if (!f)
 		return;
 
@@ -223,5 +242,5 @@ void output_intel_hex(const char *filename) {
 	}
 
 	section_free(sect);
-	fclose(f);
+	output_close(f, filename);
 }
diff --git a/src/output.h b/src/output.h
index ed9ffba..ac854f9 100644
--- a/src/output.h
+++ b/src/output.h
@@ -13,6 +13,16 @@ option) any later version.
 #ifndef ASM6809_OUTPUT_H_
 #define ASM6809_OUTPUT_H_
 
+#include <stdio.h>
+
+/*
+ * Open and close output files.  Failure to open, write or close is reported as
+ * a fatal error.
+ */
+
+FILE *output_open(const char *filename);
+void output_close(FILE *f, const char *filename);
+
 /*
  * Write assembled data to a variety of output formats.
  */
-- 
2.43.0


From d2136c5a34e006da630804b3bda45c49868c2b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:49 +0000
Subject: [PATCH 26/68] fix: report data that the output format cannot
 represent

---
 src/output.c | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/output.c b/src/output.c
index 7880952..e1a9a51 100644
--- a/src/output.c
+++ b/src/output.c
@@ -51,6 +51,24 @@ static void write_single_binary(FILE *f, struct section_span *span) {
 	fwrite(span->data, 1, size, f);
 }
 
+/* Most formats have only 16 bits to represent an address. */
+
+static _Bool valid_address_range(struct section_span *span) {
+	if (span->put <= 0x10000 && span->size <= 0x10000 - span->put)
+		return 1;
+	error(error_type_data, "data at $%04X cannot be represented in output format", span->put);
+	return 0;
+}
+
+/* Some also have only 16 bits to represent a size. */
+
+static _Bool valid_size(struct section_span *span) {
+	if (span->size <= 0xffff)
+		return 1;
+	error(error_type_data, "too much data at $%04X for output format", span->put);
+	return 0;
+}
+
 /* Helper to figure out exec address. */
 
 static int get_exec_addr(void) {
@@ -98,6 +116,7 @@ void output_dragondos(const char *filename) {
 		span = sect->spans->data;
 		put = span->put;
 		size = span->size;
+		(void)(valid_address_range(span) && valid_size(span));
 	}
 	if (exec_addr < 0)
 		exec_addr = put & 0xffff;
@@ -139,6 +158,8 @@ void output_coco(const char *filename) {
 		struct section_span *span = l->data;
 		unsigned put = span->put;
 		unsigned size = span->size;
+		if (!valid_address_range(span) || !valid_size(span))
+			continue;
 		if (exec_addr < 0)
 			exec_addr = put & 0xffff;
 		fputc(0x00, f);
@@ -175,6 +196,8 @@ void output_motorola_srec(const char *filename) {
 		unsigned put = span->put;
 		unsigned size = span->size;
 		unsigned base = 0;
+		if (!valid_address_range(span))
+			continue;
 		while (size > 0) {
 			unsigned nbytes = (size > 32) ? 32 : size;
 			unsigned sum = nbytes + 3 + (put >> 8) + (put & 0xff);
@@ -218,6 +241,8 @@ void output_intel_hex(const char *filename) {
 		unsigned put = span->put;
 		unsigned size = span->size;
 		unsigned base = 0;
+		if (!valid_address_range(span))
+			continue;
 		while (size > 0) {
 			unsigned nbytes = (size > 32) ? 32 : size;
 			unsigned sum = nbytes + put + (put >> 8);
-- 
2.43.0


From 8c829a81f4b546dc1c3821ee5ef8abe1f6e48227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:49 +0000
Subject: [PATCH 27/68] fix: evaluate the EXEC address as an integer whatever
 its type

---
 src/asm6809.c | 10 +++-------
 src/output.c  | 10 ++++++++--
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/asm6809.c b/src/asm6809.c
index f3e92c2..c8e0e24 100644
--- a/src/asm6809.c
+++ b/src/asm6809.c
@@ -227,15 +227,11 @@ int main(int argc, char **argv) {
 	if (exec_option) {
 		struct node *n = simple_parse_int(exec_option);
 		if (!n) {
-			unsigned v = 0;
-			struct node *tmp = symbol_get(exec_option);
-			if (tmp) {
-				v = tmp->data.as_int & 0xffff;
-				node_free(tmp);
-			} else {
+			n = symbol_get(exec_option);
+			if (!n) {
 				error(error_type_fatal, "exec symbol '%s' not defined", exec_option);
+				n = node_new_int(0);
 			}
-			n = node_new_int(v);
 		}
 		symbol_force_set(".exec", n, 0, max_passes);
 	}
diff --git a/src/output.c b/src/output.c
index e1a9a51..089596d 100644
--- a/src/output.c
+++ b/src/output.c
@@ -75,8 +75,14 @@ static int get_exec_addr(void) {
 	struct node *n = symbol_try_get(".exec");
 	int ret = -1;
 	if (n) {
-		if (n->data.as_int >= 0)
-			ret = n->data.as_int & 0xffff;
+		struct node *v = eval_int(n);
+		if (!v) {
+			error(error_type_data, "EXEC address is not an integer");
+		} else {
+			if (v->data.as_int >= 0)
+				ret = v->data.as_int & 0xffff;
+			node_free(v);
+		}
 		node_free(n);
 	}
 	return ret;
-- 
2.43.0


From 5644278c5dfafe3a4fabf797d8a4adc2cd5e2ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:49 +0000
Subject: [PATCH 28/68] fix: use the value given to --setdp

---
 src/asm6809.c | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/asm6809.c b/src/asm6809.c
index c8e0e24..11141bd 100644
--- a/src/asm6809.c
+++ b/src/asm6809.c
@@ -43,6 +43,9 @@ struct asm6809_options asm6809_options;
 #define OUTPUT_MOTOROLA_SREC (3)
 #define OUTPUT_INTEL_HEX (4)
 
+// long options with no short equivalent
+#define OPTION_SETDP (256)
+
 static int max_passes = 12;
 static int output_format = OUTPUT_BINARY;
 static char *exec_option = NULL;
@@ -65,7 +68,7 @@ static struct option long_options[] = {
 	{ "6809", no_argument, &isa, asm6809_isa_6809 },
 	{ "6309", no_argument, &isa, asm6809_isa_6309 },
 	{ "define", required_argument, NULL, 'd' },
-	{ "setdp", required_argument, &setdp, 0 },
+	{ "setdp", required_argument, NULL, OPTION_SETDP },
 	{ "max-passes", required_argument, NULL, 'P' },
 	{ "output", required_argument, NULL, 'o' },
 	{ "listing", required_argument, NULL, 'l' },
@@ -123,6 +126,18 @@ int main(int argc, char **argv) {
 		case 'd':
 			define_symbol(optarg);
 			break;
+		case OPTION_SETDP:
+			{
+				struct node *n = simple_parse_int(optarg);
+				if (!n) {
+					error(error_type_fatal, "invalid value for setdp");
+					error_print_list();
+					tidy_up_and_exit(EXIT_FAILURE);
+				}
+				setdp = (n->data.as_int >= 0) ? (int)(n->data.as_int & 0xff) : -1;
+				node_free(n);
+			}
+			break;
 		case 'P':
 			{
 				long v = strtol(optarg, NULL, 0);
@@ -297,7 +312,11 @@ int main(int argc, char **argv) {
 /* Special parsing of arguments.  Integers only for now. */
 static struct node *simple_parse_int(const char *str) {
 	struct node *n = NULL;
-	if (str[0] == '$') {
+	if (str[0] == '-') {
+		n = simple_parse_int(str+1);
+		if (n)
+			n->data.as_int = -n->data.as_int;
+	} else if (str[0] == '$') {
 		n = node_new_int(strtol(str+1, NULL, 16));
 	} else if (str[0] == '@') {
 		n = node_new_int(strtol(str+1, NULL, 8));
-- 
2.43.0


From e0d7429540a9ba020e20f3322335df6703dce499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:49 +0000
Subject: [PATCH 29/68] fix: report invalid values in --define instead of
 leaving the symbol undefined

---
 src/asm6809.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/asm6809.c b/src/asm6809.c
index 11141bd..daacd14 100644
--- a/src/asm6809.c
+++ b/src/asm6809.c
@@ -342,6 +342,8 @@ static void define_symbol(const char *str) {
 	if (tmp) {
 		*(tmp++) = 0;
 		value = simple_parse_int(tmp);
+		if (!value)
+			error(error_type_fatal, "invalid value for '%s'", key);
 	} else {
 		value = node_new_int(1);
 	}
-- 
2.43.0


From 51134e6e374a8b2c530f508ba59083a068779346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:49 +0000
Subject: [PATCH 30/68] fix: exit with failure if an exported symbol is
 undefined

---
 src/asm6809.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asm6809.c b/src/asm6809.c
index daacd14..aad10e0 100644
--- a/src/asm6809.c
+++ b/src/asm6809.c
@@ -298,7 +298,7 @@ int main(int argc, char **argv) {
 	}
 
 	/* Any errors in all that? */
-	if (error_level >= error_type_syntax) {
+	if (error_level >= error_type_inconsistent) {
 		error_print_list();
 		tidy_up_and_exit(EXIT_FAILURE);
 	}
-- 
2.43.0


From 84494b569c49928b71dc651254be63f4ba457ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:29 +0000
Subject: [PATCH 31/68] fix: keep the EXEC address out of the symbols file,
 which must be includable

---
 src/program.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/program.c b/src/program.c
index 6e064d0..9a761ff 100644
--- a/src/program.c
+++ b/src/program.c
@@ -285,6 +285,13 @@ void prog_print_exports(FILE *f) {
 
 void prog_print_symbols(FILE *f) {
 	struct slist *symbols = symbol_get_list();
+	// the EXEC address is kept as a symbol, but is not one
+	for (struct slist *l = symbols; l; l = l->next) {
+		if (0 == strcmp(l->data, ".exec")) {
+			symbols = slist_remove(symbols, l->data);
+			break;
+		}
+	}
 	slist_foreach(symbols, (slist_iter_func)print_symbol, f);
 	slist_free(symbols);
 }
-- 
2.43.0


From b250d52c14ee439f9a3d9e147adba70aa02e5919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:29 +0000
Subject: [PATCH 32/68] fix: print all operators in exported macros such that
 they parse the same

---
 src/node.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/node.c b/src/node.c
index 0d7af50..a6f1090 100644
--- a/src/node.c
+++ b/src/node.c
@@ -295,6 +295,12 @@ static const char *opstr(int op) {
 	switch (op) {
 	case SHL: return "<<";
 	case SHR: return ">>";
+	case LE: return "<=";
+	case GE: return ">=";
+	case EQ: return "==";
+	case NE: return "!=";
+	case LAND: return "&&";
+	case LOR: return "||";
 	default: str[0] = op; str[1] = 0; break;
 	}
 	return str;
@@ -353,7 +359,8 @@ void node_print(FILE *f, struct node const *n) {
 
 	/* Simple types */
 	case node_type_pc:
-		fprintf(f, "*");
+		// "/" directly following "*" would introduce a string
+		fprintf(f, "(*)");
 		break;
 	case node_type_backref:
 		fprintf(f, "%"PRId64"B", n->data.as_int);
@@ -384,9 +391,16 @@ void node_print(FILE *f, struct node const *n) {
 			fprintf(f, "%s", opstr(n->data.as_oper.oper));
 			node_print(f, n->data.as_oper.args[0]);
 		} else if (n->data.as_oper.nargs == 2) {
+			// spaces prevent confusion with other tokens, e.g. %1
 			node_print(f, n->data.as_oper.args[0]);
-			fprintf(f, "%s", opstr(n->data.as_oper.oper));
+			fprintf(f, " %s ", opstr(n->data.as_oper.oper));
+			node_print(f, n->data.as_oper.args[1]);
+		} else if (n->data.as_oper.nargs == 3) {
+			node_print(f, n->data.as_oper.args[0]);
+			fprintf(f, " ? ");
 			node_print(f, n->data.as_oper.args[1]);
+			fprintf(f, " : ");
+			node_print(f, n->data.as_oper.args[2]);
 		}
 		fprintf(f, ")");
 		break;
-- 
2.43.0


From 02bccf276d267391d5cdfe0bb4e37e51517fd28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:29 +0000
Subject: [PATCH 33/68] fix: escape strings in symbols and exports files

---
 src/node.c    | 24 +++++++++++++++++++++++-
 src/node.h    |  1 +
 src/program.c | 12 +++++++-----
 3 files changed, 31 insertions(+), 6 deletions(-)

diff --git a/src/node.c b/src/node.c
index a6f1090..a8915cd 100644
--- a/src/node.c
+++ b/src/node.c
@@ -306,6 +306,24 @@ static const char *opstr(int op) {
 	return str;
 }
 
+/* Print the contents of a string escaped as necessary for it to be delimited by
+ * "/" and parsed again. */
+
+void node_print_text(FILE *f, char const *s) {
+	for (; *s; s++) {
+		switch (*s) {
+		case '\n': fputs("\\n", f); break;
+		case '\r': fputs("\\r", f); break;
+		case '/': case '\\': case '&':
+			fputc('\\', f);
+			/* fall through */
+		default:
+			fputc(*s, f);
+			break;
+		}
+	}
+}
+
 void node_print(FILE *f, struct node const *n) {
 	struct slist *l;
 	if (!n) {
@@ -381,7 +399,11 @@ void node_print(FILE *f, struct node const *n) {
 	case node_type_text:
 		fprintf(f, "/");
 		for (l = n->data.as_list; l; l = l->next) {
-			node_print(f, (struct node *)l->data);
+			struct node const *part = l->data;
+			if (node_type_of(part) == node_type_string)
+				node_print_text(f, part->data.as_string);
+			else
+				node_print(f, part);
 		}
 		fprintf(f, "/");
 		break;
diff --git a/src/node.h b/src/node.h
index 74998a9..ec8261c 100644
--- a/src/node.h
+++ b/src/node.h
@@ -202,6 +202,7 @@ struct node *node_array_push(struct node *a, struct node *n);
  */
 
 void node_print(FILE *f, struct node const *n);
+void node_print_text(FILE *f, char const *s);  // print escaped string contents
 void node_print_array(FILE *f, struct node const *n);  // print array without []
 
 #endif
diff --git a/src/program.c b/src/program.c
index 9a761ff..a21b1b0 100644
--- a/src/program.c
+++ b/src/program.c
@@ -229,7 +229,6 @@ static void print_symbol(const char *key, FILE *f) {
 		node_free(sym);
 		if (!n)
 			return;
-		int delim = 0;
 		enum node_attr old_attr = node_attr_of(n);
 		n = node_set_attr(n, node_attr_none);
 		switch (node_type_of(n)) {
@@ -242,13 +241,16 @@ static void print_symbol(const char *key, FILE *f) {
 		case node_type_reg:
 			break;
 		case node_type_string:
-			delim = '/';
 			break;
 		}
 		fprintf(f, "%s\tequ\t", key);
-		if (delim) fputc(delim, f);
-		node_print(f, n);
-		if (delim) fputc(delim, f);
+		if (node_type_of(n) == node_type_string) {
+			fputc('/', f);
+			node_print_text(f, n->data.as_string);
+			fputc('/', f);
+		} else {
+			node_print(f, n);
+		}
 		fprintf(f, "\n");
 		n = node_set_attr(n, old_attr);
 		node_free(n);
-- 
2.43.0


From a6ba35622d3ca05a2a065d96344080ae66e432fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:29 +0000
Subject: [PATCH 34/68] fix: print floating point symbols without losing
 precision

---
 src/node.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/node.c b/src/node.c
index a8915cd..1cb41fc 100644
--- a/src/node.c
+++ b/src/node.c
@@ -19,6 +19,7 @@ option) any later version.
 #include <string.h>
 
 #include "xalloc.h"
+#include "xvasprintf.h"
 
 #include "error.h"
 #include "node.h"
@@ -366,7 +367,18 @@ void node_print(FILE *f, struct node const *n) {
 		fprintf(f, "%"PRId64, n->data.as_int);
 		break;
 	case node_type_float:
-		fprintf(f, "%f", n->data.as_float);
+		{
+			// enough digits that the same value is read back
+			int precision = 6;
+			char *s = xasprintf("%.*f", precision, n->data.as_float);
+			while (strtod(s, NULL) != n->data.as_float && precision < 1100) {
+				free(s);
+				precision += (precision < 20) ? 1 : 54;
+				s = xasprintf("%.*f", precision, n->data.as_float);
+			}
+			fprintf(f, "%s", s);
+			free(s);
+		}
 		break;
 	case node_type_reg:
 		fprintf(f, "%s", reg_id_to_name(n->data.as_reg));
-- 
2.43.0


From 925ffba0edfd9a404e44d22281d0c35da8a6b39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:29 +0000
Subject: [PATCH 35/68] fix: keep increments and decrements when exporting
 register symbols

---
 src/program.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/program.c b/src/program.c
index a21b1b0..986b7a5 100644
--- a/src/program.c
+++ b/src/program.c
@@ -230,7 +230,9 @@ static void print_symbol(const char *key, FILE *f) {
 		if (!n)
 			return;
 		enum node_attr old_attr = node_attr_of(n);
-		n = node_set_attr(n, node_attr_none);
+		// increments and decrements are part of a register's value
+		if (node_type_of(n) != node_type_reg)
+			n = node_set_attr(n, node_attr_none);
 		switch (node_type_of(n)) {
 		default:
 			error(error_type_syntax, "can't export symbol type");
-- 
2.43.0


From 62344f6dc20e8dd9158db9d75187c57902c61d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:01 +0000
Subject: [PATCH 36/68] fix: don't crash writing the symbols file of a program
 with no symbols

---
 src/symbol.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/symbol.c b/src/symbol.c
index b3ef68e..275bf93 100644
--- a/src/symbol.c
+++ b/src/symbol.c
@@ -115,7 +115,8 @@ static void add_to_list(const char *key, struct node *value, struct slist **l) {
 
 struct slist *symbol_get_list(void) {
 	struct slist *l = NULL;
-	dict_foreach(symbols, (dict_iter_func)add_to_list, &l);
+	if (symbols)
+		dict_foreach(symbols, (dict_iter_func)add_to_list, &l);
 	return l;
 }
 
-- 
2.43.0


From 01d3ab969e85fa65ce3093dba2b1da2f06c2aade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:08 +0000
Subject: [PATCH 37/68] fix: accept a string after a division operator

---
 src/lex.l | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lex.l b/src/lex.l
index 3bddbf3..c520ce5 100644
--- a/src/lex.l
+++ b/src/lex.l
@@ -116,7 +116,7 @@ ${hexdigit}+	{ yylval.as_int = strtoimax(yytext+1, NULL, 16); return INTEGER; }
 
 <argnostr,argnostrnum>{
 
-\/		{ BEGIN(argnostr); return *yytext; }
+\/		{ BEGIN(arg); return *yytext; }
 
 }
 
-- 
2.43.0


From 35ae5c001dd4fd37bc9e939df1fb925910e1f33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:08 +0000
Subject: [PATCH 38/68] fix: say why assembly failed when only the size of a
 section is unstable

---
 src/section.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/section.c b/src/section.c
index 46969ab..d27b8f8 100644
--- a/src/section.c
+++ b/src/section.c
@@ -143,7 +143,6 @@ void section_set(const char *name, unsigned pass) {
 }
 
 static void verify_section(void *key, void *value, void *data) {
-	(void)key;
 	(void)data;
 	struct section *sect = value;
 	if (!sect)
@@ -151,7 +150,7 @@ static void verify_section(void *key, void *value, void *data) {
 	if (sect->last_pc != sect->pc || sect->last_put != sect->put) {
 		sect->last_pc = sect->pc;
 		sect->last_put = sect->put;
-		error(error_type_inconsistent, NULL);
+		error(error_type_inconsistent, "end of section '%s' unstable", (const char *)key);
 	}
 }
 
-- 
2.43.0


From 53794dc4d76734639c5ef747f901136710dce9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:00 +0000
Subject: [PATCH 39/68] fix: don't take a full scanner buffer for the end of
 the file

---
 src/lex.l | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lex.l b/src/lex.l
index c520ce5..c6c3b58 100644
--- a/src/lex.l
+++ b/src/lex.l
@@ -235,7 +235,8 @@ static _Bool need_eol = 1;
 static int read_line(char *buf, int max_size) {
 	if (!yyin)
 		return YY_NULL;
-	char *r = fgets(buf, max_size, yyin);
+	// flex always leaves room for a terminating NUL after max_size bytes
+	char *r = fgets(buf, max_size + 1, yyin);
 	if (!r) {
 		if (!feof(yyin)) {
 			error(error_type_fatal, "scanner read failed");
-- 
2.43.0


From 87ac4f4c46ecb5098bc151c69bec01215367744f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:35 +0000
Subject: [PATCH 40/68] fix: recognise CRLF across scanner buffer boundaries

---
 src/lex.l | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/lex.l b/src/lex.l
index c6c3b58..bde5a7a 100644
--- a/src/lex.l
+++ b/src/lex.l
@@ -255,7 +255,14 @@ static int read_line(char *buf, int max_size) {
 	}
 
 	int len = strlen(buf);
-	if (len > 1 && buf[len-1] == '\n' && buf[len-2] == '\r') {
+	if (len > 0 && buf[len-1] == '\r') {
+		// CRLF may straddle two reads
+		int c = fgetc(yyin);
+		if (c == '\n')
+			buf[len-1] = '\n';
+		else if (c != EOF)
+			ungetc(c, yyin);
+	} else if (len > 1 && buf[len-1] == '\n' && buf[len-2] == '\r') {
 		buf[len-2] = '\n';
 		len--;
 	}
-- 
2.43.0


From 72a47d2e6b0168e1e0e3dddfd2264fedcb30cab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:43 +0000
Subject: [PATCH 41/68] fix: reject a second ELSE however the conditional was
 decided

The state of a conditional wasn't updated by an ELSE that selected nothing,
so ELSIF or ELSE could follow it unnoticed.
---
 src/assemble.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/assemble.c b/src/assemble.c
index 8ae8d4f..db7702d 100644
--- a/src/assemble.c
+++ b/src/assemble.c
@@ -432,9 +432,9 @@ void assemble_prog(struct prog *prog, unsigned pass) {
 				error(error_type_syntax, "repeated ELSE");
 			} else if (cond_excluded == cond_list) {
 				if ((intptr_t)cond_list->data != cond_state_if_done) {
-					cond_list->data = (void *)cond_state_else;
 					cond_excluded = NULL;
 				}
+				cond_list->data = (void *)cond_state_else;
 			} else if (!cond_excluded) {
 				cond_list->data = (void *)cond_state_else;
 				cond_excluded = cond_list;
-- 
2.43.0


From b4c0d2bb694352bb7fbb311de3859d2ec9903d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:06 +0000
Subject: [PATCH 42/68] fix: replace macro definitions made in an earlier pass

Which of several definitions in a conditional is selected may change from one
pass to the next, but the first one seen was kept.
---
 src/assemble.c | 5 ++---
 src/program.c  | 6 ++----
 2 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/assemble.c b/src/assemble.c
index db7702d..69af8f0 100644
--- a/src/assemble.c
+++ b/src/assemble.c
@@ -1045,9 +1045,8 @@ static void pseudo_macro(struct prog_line *line) {
 		return;
 	}
 	struct prog *macro = prog_macro_by_name(name);
-	if (macro) {
-		if (macro->pass == asm_pass)
-			error(error_type_syntax, "macro '%s' redefined", name);
+	if (macro && macro->pass == asm_pass) {
+		error(error_type_syntax, "macro '%s' redefined", name);
 		return;
 	}
 	macro = prog_new_macro(name);
diff --git a/src/program.c b/src/program.c
index 986b7a5..00bf283 100644
--- a/src/program.c
+++ b/src/program.c
@@ -66,10 +66,8 @@ struct prog *prog_new_file(const char *filename) {
 }
 
 struct prog *prog_new_macro(const char *name) {
-	if (prog_macro_by_name(name)) {
-		error(error_type_syntax, "attempt to redefined macro '%s'", name);
-		return NULL;
-	}
+	// replaces any definition from an earlier pass, which isn't freed as it
+	// may still be being assembled
 	struct prog *macro = prog_new(prog_type_macro, name);
 	macros = slist_prepend(macros, macro);
 	return macro;
-- 
2.43.0


From 35c1ad6fa0ead2a60c2a2b9ae6ce8587419d92e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:41 +0000
Subject: [PATCH 43/68] fix: let any symbol characters follow a positional
 variable in a label

As in operands, text after a positional variable is part of the symbol, even
if it begins with a digit or a dot or looks like a register.
---
 src/lex.l | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/lex.l b/src/lex.l
index bde5a7a..d15e756 100644
--- a/src/lex.l
+++ b/src/lex.l
@@ -41,6 +41,7 @@ void lex_free_all(void);
 %option noinput
 %option nounput
 
+%s labelnum
 %s opcode
 %s arg
 %s argnostr
@@ -74,15 +75,26 @@ ${hexdigit}+	{ yylval.as_int = strtoimax(yytext+1, NULL, 16); return INTEGER; }
 \!		{ yylval.as_int = 0; return INTEGER; }
 
 {word}		{ return id_or_reg(); }
-&{digit}	{ yylval.as_string = strndup(yytext+1, yyleng-1); return INTERP; }
-&\{{decimal}\}	{ yylval.as_string = strndup(yytext+2, yyleng-3); return INTERP; }
-\\{digit}	{ yylval.as_string = strndup(yytext+1, yyleng-1); return INTERP; }
-\\\{{decimal}\}	{ yylval.as_string = strndup(yytext+2, yyleng-3); return INTERP; }
+
+}
+
+<labelnum>{
+
+{rword}		{ yylval.as_string = strndup(yytext, yyleng); return ID; }
+
+}
+
+<INITIAL,labelnum>{
+
+&{digit}	{ BEGIN(labelnum); yylval.as_string = strndup(yytext+1, yyleng-1); return INTERP; }
+&\{{decimal}\}	{ BEGIN(labelnum); yylval.as_string = strndup(yytext+2, yyleng-3); return INTERP; }
+\\{digit}	{ BEGIN(labelnum); yylval.as_string = strndup(yytext+1, yyleng-1); return INTERP; }
+\\\{{decimal}\}	{ BEGIN(labelnum); yylval.as_string = strndup(yytext+2, yyleng-3); return INTERP; }
 
 {ws}*[;\*].*	/* ";" or "*" introduces comment to end of line */
 {ws}+		{ BEGIN(opcode); return WS; }
 \r		/* skip CR */
-{ws}*\n		{ return '\n'; }
+{ws}*\n		{ BEGIN(INITIAL); return '\n'; }
 .		{ return *yytext; }
 
 }
-- 
2.43.0


From 70bc57bca5bbab6dfb2428c4c933cfa94e394749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:13 +0000
Subject: [PATCH 44/68] fix: report lines too complex to parse instead of
 ignoring the rest of the file

---
 src/grammar.y | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/grammar.y b/src/grammar.y
index c967eb4..e36c86e 100644
--- a/src/grammar.y
+++ b/src/grammar.y
@@ -207,7 +207,11 @@ struct prog *grammar_parse_file(const char *filename) {
 	}
 	struct prog *prog = prog_new(prog_type_file, filename);
 	cur_ctx = prog_ctx_new(prog);
-	yyparse();
+	if (yyparse() != 0) {
+		// parser stack exhausted, eg. by too many nested parentheses
+		cur_ctx->line_number++;
+		error(error_type_syntax, "expression too complex");
+	}
 	prog_ctx_free(cur_ctx);
 	cur_ctx = NULL;
 	if (yyin)
-- 
2.43.0


From 4e0c07e931510747b91e21a28e403d30c7768d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:23 +0000
Subject: [PATCH 45/68] fix: reject expressions nested too deeply to evaluate
 instead of overflowing the stack

---
 src/grammar.y | 15 ++++++++++++++-
 src/node.c    | 29 ++++++++++++++++++++++++++---
 src/node.h    |  6 ++++++
 3 files changed, 46 insertions(+), 4 deletions(-)

diff --git a/src/grammar.y b/src/grammar.y
index e36c86e..a91a299 100644
--- a/src/grammar.y
+++ b/src/grammar.y
@@ -38,6 +38,7 @@ static struct prog_ctx *cur_ctx = NULL;
 struct prog *grammar_parse_file(const char *filename);
 
 static void check_end_opcode(struct prog_line *line);
+static void add_line(struct prog_line *line);
 %}
 
 %union {
@@ -90,7 +91,7 @@ static void check_end_opcode(struct prog_line *line);
 %%
 
 program	:
-	| program line	{ prog_line_set_text($2, lex_fetch_line()); prog_ctx_add_line(cur_ctx, $2); check_end_opcode($2); }
+	| program line	{ add_line($2); }
 	| program error '\n'	{ raise_error(); yyerrok; }
 	;
 
@@ -193,6 +194,7 @@ static void raise_error(void) {
 	free(l);
 	cur_ctx->line_number++;
 	error(error_type_syntax, "");
+	node_too_deep = 0;
 }
 
 static void yyerror(const char *s) {
@@ -212,6 +214,7 @@ struct prog *grammar_parse_file(const char *filename) {
 		cur_ctx->line_number++;
 		error(error_type_syntax, "expression too complex");
 	}
+	node_too_deep = 0;
 	prog_ctx_free(cur_ctx);
 	cur_ctx = NULL;
 	if (yyin)
@@ -220,6 +223,16 @@ struct prog *grammar_parse_file(const char *filename) {
 	return prog;
 }
 
+static void add_line(struct prog_line *line) {
+	prog_line_set_text(line, lex_fetch_line());
+	prog_ctx_add_line(cur_ctx, line);
+	if (node_too_deep) {
+		error(error_type_syntax, "expression too complex");
+		node_too_deep = 0;
+	}
+	check_end_opcode(line);
+}
+
 static void check_end_opcode(struct prog_line *line) {
 	struct node *n = eval_string(line->opcode);
 	if (n) {
diff --git a/src/node.c b/src/node.c
index 1cb41fc..5fec933 100644
--- a/src/node.c
+++ b/src/node.c
@@ -240,22 +240,45 @@ static struct node *node_new_oper_n(int oper, int nargs) {
 	struct node *n = node_new(node_type_oper);
 	struct node **arga = xmalloc(nargs * sizeof(*arga));
 	n->data.as_oper.oper = oper;
+	n->data.as_oper.depth = 1;
 	n->data.as_oper.nargs = nargs;
 	n->data.as_oper.args = arga;
 	return n;
 }
 
+/* Operator nodes are dealt with recursively, so limit the depth to which they
+ * nest. */
+
+#define MAX_OPER_DEPTH (5000)
+
+_Bool node_too_deep = 0;
+
+static struct node *check_depth(struct node *n) {
+	for (int i = 0; i < n->data.as_oper.nargs; i++) {
+		struct node *arg = n->data.as_oper.args[i];
+		if (node_type_of(arg) == node_type_oper &&
+		    n->data.as_oper.depth <= arg->data.as_oper.depth)
+			n->data.as_oper.depth = arg->data.as_oper.depth + 1;
+	}
+	if (n->data.as_oper.depth > MAX_OPER_DEPTH) {
+		node_free(n);
+		node_too_deep = 1;
+		return node_new_empty();
+	}
+	return n;
+}
+
 struct node *node_new_oper_1(int oper, struct node *a1) {
 	struct node *n = node_new_oper_n(oper, 1);
 	n->data.as_oper.args[0] = a1;
-	return n;
+	return check_depth(n);
 }
 
 struct node *node_new_oper_2(int oper, struct node *a1, struct node *a2) {
 	struct node *n = node_new_oper_n(oper, 2);
 	n->data.as_oper.args[0] = a1;
 	n->data.as_oper.args[1] = a2;
-	return n;
+	return check_depth(n);
 }
 
 struct node *node_new_oper_3(int oper, struct node *a1, struct node *a2, struct node *a3) {
@@ -263,7 +286,7 @@ struct node *node_new_oper_3(int oper, struct node *a1, struct node *a2, struct
 	n->data.as_oper.args[0] = a1;
 	n->data.as_oper.args[1] = a2;
 	n->data.as_oper.args[2] = a3;
-	return n;
+	return check_depth(n);
 }
 
 /* Array type */
diff --git a/src/node.h b/src/node.h
index ec8261c..cadb213 100644
--- a/src/node.h
+++ b/src/node.h
@@ -87,6 +87,7 @@ struct node;
 
 struct node_oper {
 	int oper;
+	int depth;
 	int nargs;
 	struct node **args;
 };
@@ -186,6 +187,11 @@ struct node *node_new_interp(char *v);
 
 struct node *node_new_id(struct slist *v);
 struct node *node_new_text(struct slist *v);
+/* Asserted when operators were nested too deeply to be acted upon.  Such an
+ * expression is discarded. */
+
+extern _Bool node_too_deep;
+
 struct node *node_new_oper_1(int oper, struct node *a1);
 struct node *node_new_oper_2(int oper, struct node *a1, struct node *a2);
 struct node *node_new_oper_3(int oper, struct node *a1, struct node *a2, struct node *a3);
-- 
2.43.0


From 24f3858d3811abe2d385d30c7f729229f4caa8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:57 +0000
Subject: [PATCH 46/68] fix: stop at once when the maximum program depth is
 exceeded

---
 src/assemble.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/assemble.c b/src/assemble.c
index 69af8f0..60b1949 100644
--- a/src/assemble.c
+++ b/src/assemble.c
@@ -48,6 +48,10 @@ static int defining_macro_level = 0;
 static unsigned asm_pass;
 static unsigned prog_depth = 0;
 
+/* Once the maximum depth is exceeded, skip the rest of the program: recursion
+ * could otherwise still branch a huge number of times. */
+static _Bool prog_too_deep = 0;
+
 enum cond_state {
 	cond_state_if,
 	cond_state_if_done,
@@ -302,8 +306,11 @@ static int64_t have_int_required(struct node *args, int aindex, const char *op,
 void assemble_prog(struct prog *prog, unsigned pass) {
 	if (prog_depth >= asm6809_options.max_program_depth) {
 		error(error_type_fatal, "maximum program depth exceeded");
+		prog_too_deep = 1;
 		return;
 	}
+	if (prog_depth == 0)
+		prog_too_deep = 0;
 	asm_pass = pass;
 	prog_depth++;
 	struct prog_ctx *ctx = prog_ctx_new(prog);
@@ -314,7 +321,7 @@ void assemble_prog(struct prog *prog, unsigned pass) {
 	struct slist *cond_list = NULL;
 	struct slist *cond_excluded = NULL;
 
-	while (!prog_ctx_end(ctx)) {
+	while (!prog_too_deep && !prog_ctx_end(ctx)) {
 		/* Dummy line to be populated with values evaluated or not, as
 		 * appropriate. */
 		struct prog_line n_line;
-- 
2.43.0


From 0abe57333252511d91086c2ce757476b56523059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:28 +0000
Subject: [PATCH 47/68] fix: reject malformed numbers in option values

---
 src/asm6809.c | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/asm6809.c b/src/asm6809.c
index aad10e0..1ecabf0 100644
--- a/src/asm6809.c
+++ b/src/asm6809.c
@@ -15,6 +15,7 @@ option) any later version.
 
 #include "config.h"
 
+#include <ctype.h>
 #include <errno.h>
 #include <getopt.h>
 #include <stdio.h>
@@ -140,8 +141,10 @@ int main(int argc, char **argv) {
 			break;
 		case 'P':
 			{
-				long v = strtol(optarg, NULL, 0);
-				if (errno != 0 || v < 2 || v > 255) {
+				char *end;
+				errno = 0;
+				long v = strtol(optarg, &end, 0);
+				if (errno != 0 || end == optarg || *end != 0 || v < 2 || v > 255) {
 					error(error_type_fatal, "invalid value for max-passes");
 					error_print_list();
 					tidy_up_and_exit(EXIT_FAILURE);
@@ -309,6 +312,18 @@ int main(int argc, char **argv) {
 
 // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
 
+/* The whole of the string must be a number in the specified base. */
+static struct node *simple_parse_digits(const char *str, int base) {
+	char *end;
+	if (!isxdigit((unsigned char)str[0]))
+		return NULL;
+	errno = 0;
+	long v = strtol(str, &end, base);
+	if (errno != 0 || end == str || *end != 0)
+		return NULL;
+	return node_new_int(v);
+}
+
 /* Special parsing of arguments.  Integers only for now. */
 static struct node *simple_parse_int(const char *str) {
 	struct node *n = NULL;
@@ -317,20 +332,20 @@ static struct node *simple_parse_int(const char *str) {
 		if (n)
 			n->data.as_int = -n->data.as_int;
 	} else if (str[0] == '$') {
-		n = node_new_int(strtol(str+1, NULL, 16));
+		n = simple_parse_digits(str+1, 16);
 	} else if (str[0] == '@') {
-		n = node_new_int(strtol(str+1, NULL, 8));
+		n = simple_parse_digits(str+1, 8);
 	} else if (str[0] == '%') {
-		n = node_new_int(strtol(str+1, NULL, 2));
+		n = simple_parse_digits(str+1, 2);
 	} else if (str[0] == '0') {
 		if (str[1] == 'x')
-			n = node_new_int(strtol(str+2, NULL, 16));
+			n = simple_parse_digits(str+2, 16);
 		else if (str[1] == 'b')
-			n = node_new_int(strtol(str+2, NULL, 2));
+			n = simple_parse_digits(str+2, 2);
 		else
-			n = node_new_int(strtol(str, NULL, 10));
+			n = simple_parse_digits(str, 10);
 	} else if (str[0] >= '0' && str[0] <= '9') {
-		n = node_new_int(strtol(str, NULL, 10));
+		n = simple_parse_digits(str, 10);
 	}
 	return n;
 }
-- 
2.43.0


From f65442cdc5441f988488c30b807fe32a4a002fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:36 +0000
Subject: [PATCH 48/68] fix: don't let references find local labels only set in
 an earlier pass

---
 src/section.c |  1 +
 src/symbol.c  | 33 ++++++++++++++++++++++++++++-----
 src/symbol.h  |  7 +++++++
 3 files changed, 36 insertions(+), 5 deletions(-)

diff --git a/src/section.c b/src/section.c
index d27b8f8..908a494 100644
--- a/src/section.c
+++ b/src/section.c
@@ -152,6 +152,7 @@ static void verify_section(void *key, void *value, void *data) {
 		sect->last_put = sect->put;
 		error(error_type_inconsistent, "end of section '%s' unstable", (const char *)key);
 	}
+	symbol_local_finish_pass(sect->local_labels, sect->pass);
 }
 
 void section_finish_pass(void) {
diff --git a/src/symbol.c b/src/symbol.c
index 275bf93..65e92db 100644
--- a/src/symbol.c
+++ b/src/symbol.c
@@ -49,6 +49,7 @@ struct symbol {
 
 struct symbol_local {
 	unsigned line_number;
+	unsigned pass;
 	struct node *node;
 };
 
@@ -217,7 +218,6 @@ struct node *symbol_local_fwdref(struct dict *table, intptr_t key, unsigned line
 
 void symbol_local_set(struct dict *table, intptr_t key, unsigned line_number,
 		      struct node *value, unsigned pass) {
-	(void)pass;
 	gl_list_t sym_list = dict_lookup(table, (void *)key);
 	gl_list_node_t old_lnode = NULL;
 	struct symbol_local const *old_sym = NULL;
@@ -233,14 +233,37 @@ void symbol_local_set(struct dict *table, intptr_t key, unsigned line_number,
 	struct node *newn = eval_node(value);
 	struct symbol_local *new_sym = xmalloc(sizeof(*new_sym));
 	new_sym->line_number = line_number;
+	new_sym->pass = pass;
 	new_sym->node = newn;
-	if (old_sym) {
-		if (!node_equal(old_sym->node, newn))
-			error(error_type_inconsistent,
-			      "value of local label '%ld' unstable", key);
+	/* Earlier references found some other label if this one was not known
+	 * from the previous pass. */
+	if (old_sym ? !node_equal(old_sym->node, newn) : pass > 0) {
+		error(error_type_inconsistent,
+		      "value of local label '%ld' unstable", key);
 	}
 	if (old_lnode) {
 		gl_list_remove_node(sym_list, old_lnode);
 	}
 	gl_sortedlist_add(sym_list, sym_local_compar, new_sym);
 }
+
+static void remove_stale_locals(void *key, void *value, void *data) {
+	gl_list_t sym_list = value;
+	unsigned pass = *(unsigned *)data;
+	gl_list_iterator_t iter = gl_list_iterator(sym_list);
+	const void *elt;
+	gl_list_node_t node;
+	while (gl_list_iterator_next(&iter, &elt, &node)) {
+		struct symbol_local const *sym = elt;
+		if (sym->pass != pass) {
+			gl_list_remove_node(sym_list, node);
+			error(error_type_inconsistent,
+			      "position of local label '%ld' unstable", (intptr_t)key);
+		}
+	}
+	gl_list_iterator_free(&iter);
+}
+
+void symbol_local_finish_pass(struct dict *table, unsigned pass) {
+	dict_foreach(table, remove_stale_locals, &pass);
+}
diff --git a/src/symbol.h b/src/symbol.h
index 03705f6..092960c 100644
--- a/src/symbol.h
+++ b/src/symbol.h
@@ -59,4 +59,11 @@ struct node *symbol_local_fwdref(struct dict *table, intptr_t key, unsigned line
 void symbol_local_set(struct dict *table, intptr_t key, unsigned line_number,
 		      struct node *value, unsigned pass);
 
+/*
+ * Forget local labels not set again this pass.  An inconsistency is raised if
+ * there are any, as they may have been referred to.
+ */
+
+void symbol_local_finish_pass(struct dict *table, unsigned pass);
+
 #endif
-- 
2.43.0


From 32f01d2c9f524bfdbf7930da928f8b5c20900dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:31 +0000
Subject: [PATCH 49/68] fix: finish a macro definition even if ENDM has an
 invalid argument

---
 src/assemble.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/assemble.c b/src/assemble.c
index 60b1949..a2cc2e9 100644
--- a/src/assemble.c
+++ b/src/assemble.c
@@ -1067,6 +1067,10 @@ static void pseudo_macro(struct prog_line *line) {
 /* TODO: argument not actually checked yet */
 
 static void pseudo_endm(struct prog_line *line) {
+	// finished even if there is an error, which is on this line
+	if (defining_macro_ctx)
+		prog_ctx_free(defining_macro_ctx);
+	defining_macro_ctx = NULL;
 	int nargs = node_array_count(line->args);
 	struct node **arga = node_array_of(line->args);
 	if (nargs > 1) {
@@ -1077,10 +1081,6 @@ static void pseudo_endm(struct prog_line *line) {
 		error(error_type_syntax, "invalid argument to ENDM");
 		return;
 	}
-	if (!defining_macro_ctx)
-		return;
-	prog_ctx_free(defining_macro_ctx);
-	defining_macro_ctx = NULL;
 }
 
 /* END.  Specify EXEC address. */
-- 
2.43.0


From 410d353797b90d529568e603244088eb6ff33330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:13 +0000
Subject: [PATCH 50/68] fix: don't wrap the number of a positional variable to
 32 bits

---
 src/interp.c | 4 ++--
 src/interp.h | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/interp.c b/src/interp.c
index 571241b..83741a8 100644
--- a/src/interp.c
+++ b/src/interp.c
@@ -45,7 +45,7 @@ void interp_pop(void) {
 	node_free(n);
 }
 
-struct node *interp_get(int index) {
+struct node *interp_get(long index) {
 	if (!interp_stack) {
 		error(error_type_syntax, "no positional variables on stack");
 		return NULL;
@@ -53,7 +53,7 @@ struct node *interp_get(int index) {
 	struct node *args = interp_stack->data;
 	int nargs = args ? args->data.as_array.nargs : 0;
 	if (index < 1 || index > nargs) {
-		error(error_type_syntax, "invalid positional variable: %d", index);
+		error(error_type_syntax, "invalid positional variable: %ld", index);
 		return NULL;
 	}
 	struct node *n = args->data.as_array.args[index-1];
diff --git a/src/interp.h b/src/interp.h
index 15113fe..0d66075 100644
--- a/src/interp.h
+++ b/src/interp.h
@@ -22,6 +22,6 @@ void interp_push(struct node *);
 void interp_pop(void);
 
 /* Fetch positional variable from the current array. */
-struct node *interp_get(int index);
+struct node *interp_get(long index);
 
 #endif
-- 
2.43.0


From 6fa873ed948688bd94172da6417b94c437fd2bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:48 +0000
Subject: [PATCH 51/68] fix: don't convert floating point values in FCB through
 32 bits

---
 src/assemble.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/assemble.c b/src/assemble.c
index a2cc2e9..26e15de 100644
--- a/src/assemble.c
+++ b/src/assemble.c
@@ -799,7 +799,7 @@ static void emit_formatted(char const *ins, int argn, struct node *n,
 		section_emit_uint8(n->data.as_int | or_last);
 		break;
 	case node_type_float:
-		section_emit_uint8((int32_t)n->data.as_float | or_last);
+		section_emit_uint8((int64_t)n->data.as_float | or_last);
 		break;
 	case node_type_string:
 		for (char const *c = n->data.as_string; *c; c++) {
-- 
2.43.0


From 546a3abac33e7bbf3041517711afea9774c76f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:10 +0000
Subject: [PATCH 52/68] fix: report floating point division by zero

---
 src/eval.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/eval.c b/src/eval.c
index 296b4ae..f5eee93 100644
--- a/src/eval.c
+++ b/src/eval.c
@@ -463,6 +463,11 @@ static struct node *eval_node_oper_2(struct node *n) {
 			ret = node_new_float(leftn->data.as_float * rightn->data.as_float);
 			break;
 		case '/':
+			if (rightn->data.as_float == 0.0) {
+				error(error_type_out_of_range, "division by zero");
+				ret = NULL;
+				break;
+			}
 			ret = node_new_float(leftn->data.as_float / rightn->data.as_float);
 			break;
 		case '+':
-- 
2.43.0


From df8efec299dec43bb47f8f993a49910993f862d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:11 +0000
Subject: [PATCH 53/68] fix: report shift counts out of range

---
 src/eval.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/eval.c b/src/eval.c
index f5eee93..05cb124 100644
--- a/src/eval.c
+++ b/src/eval.c
@@ -266,6 +266,15 @@ static void bad_operand(void) {
 	error(error_type_syntax, "invalid operand type in expression");
 }
 
+/* Shifting by anything else is undefined. */
+
+static _Bool valid_shift(struct node *count) {
+	if (count->data.as_int >= 0 && count->data.as_int <= 63)
+		return 1;
+	error(error_type_out_of_range, "shift count out of range");
+	return 0;
+}
+
 static struct node *eval_node_oper_1(struct node *n) {
 	struct node *ret = NULL;
 	struct node *arg;
@@ -531,9 +540,17 @@ static struct node *eval_node_oper_2(struct node *n) {
 			}
 			break;
 		case SHL:
+			if (!valid_shift(rightn)) {
+				ret = NULL;
+				break;
+			}
 			ret = node_new_int(leftn->data.as_int << rightn->data.as_int);
 			break;
 		case SHR:
+			if (!valid_shift(rightn)) {
+				ret = NULL;
+				break;
+			}
 			ret = node_new_int(leftn->data.as_int >> rightn->data.as_int);
 			break;
 		case '&':
-- 
2.43.0


From 267353c047ae5e5bdab58aedffd4b7b0020e8439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:01 +0000
Subject: [PATCH 54/68] fix: report 8-bit PCR operands that don't reach their
 target

---
 src/instr.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/instr.c b/src/instr.c
index 94c3ef1..f5fdba8 100644
--- a/src/instr.c
+++ b/src/instr.c
@@ -329,6 +329,10 @@ static void instr_indexed2(_Bool indirect, struct node const *arg0, struct node
 		if (pcr) {
 			if (off_type == off_type_8bit) {
 				off_value -= (cur_section->pc + 2);
+				int rel8 = to_rel16(off_value);
+				// only if this form was forced
+				if (rel8 < -128 || rel8 > 127)
+					error(error_type_out_of_range, "8-bit relative value out of range");
 			} else if (off_type == off_type_16bit) {
 				off_value -= (cur_section->pc + 3);
 			}
-- 
2.43.0


From f97c604aea73a6365f8a913c16d9d5559e783d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:16 +0000
Subject: [PATCH 55/68] fix: reject incremented and decremented registers where
 they mean nothing

---
 src/instr.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/instr.c b/src/instr.c
index f5fdba8..08bd8b1 100644
--- a/src/instr.c
+++ b/src/instr.c
@@ -528,6 +528,8 @@ void instr_stack(struct opcode const *op, struct node const *args, enum reg_id s
 			error(error_type_syntax, "invalid argument");
 			return;
 		}
+		if (node_attr_of(arga[i]) != node_attr_none)
+			goto invalid_register;
 		if (arga[i]->data.as_reg == stack)
 			goto invalid_register;
 		uint8_t bit = reg_stack_bit[arga[i]->data.as_reg];
@@ -565,7 +567,7 @@ void instr_pair(struct opcode const *op, struct node const *args) {
 		if (type[i] == node_type_reg) {
 			nibble[i] = reg_tfr_nibble[arga[i]->data.as_reg];
 			size[i] = reg_tfr_size[arga[i]->data.as_reg];
-			if (nibble[i] < 0) {
+			if (nibble[i] < 0 || node_attr_of(arga[i]) != node_attr_none) {
 				error(error_type_syntax, "invalid register in inter-register op");
 				return;
 			}
@@ -685,6 +687,8 @@ void instr_reg_mem(struct opcode const *op, struct node const *args) {
 		error(error_type_illegal, "numerical value used in place of register");
 		break;
 	case node_type_reg:
+		if (node_attr_of(arga[0]) != node_attr_none)
+			goto invalid_register;
 		switch (arga[0]->data.as_reg) {
 		case REG_CC:
 			pbyte = 0;
-- 
2.43.0


From 5e99efc885b38ff06380dc1854653ada52256d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:17 +0000
Subject: [PATCH 56/68] fix: reject immediate branch targets

---
 src/instr.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/instr.c b/src/instr.c
index 08bd8b1..7842d68 100644
--- a/src/instr.c
+++ b/src/instr.c
@@ -92,6 +92,8 @@ void instr_rel(struct opcode const *op, struct node const *args) {
 		error(error_type_syntax, "invalid number of arguments");
 		return;
 	}
+	if (node_attr_of(arga[0]) == node_attr_immediate)
+		error(error_type_syntax, "invalid branch target");
 	section_emit_op(op->immediate);
 	struct node *arg = eval_int(arga[0]);
 	if (!arg) {
-- 
2.43.0


From 2e9c760a2946192a2fee72d77d33d9ea0875986f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:11 +0000
Subject: [PATCH 57/68] fix: open a conditional for IF with the wrong number of
 arguments

Its ENDIF (and ELSE) were reported as well, blaming lines without error.
---
 src/assemble.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/assemble.c b/src/assemble.c
index 26e15de..9ef1611 100644
--- a/src/assemble.c
+++ b/src/assemble.c
@@ -394,8 +394,11 @@ void assemble_prog(struct prog *prog, unsigned pass) {
 				symbol_ignore_undefined = 1;
 				n_line.args = eval_node(l->args);
 				symbol_ignore_undefined = 0;
-				if (verify_num_args(n_line.args, 1, 1, "IF") < 0)
+				if (verify_num_args(n_line.args, 1, 1, "IF") < 0) {
+					/* Still opens a block for ENDIF to close. */
+					cond_list = slist_prepend(cond_list, (void *)cond_state_if_done);
 					goto next_line;
+				}
 			}
 			if (!cond_excluded && !have_int_required(n_line.args, 0, "IF", 0)) {
 				cond_list = slist_prepend(cond_list, (void *)cond_state_if);
-- 
2.43.0


From 2c36c986a666281089521a85082c429b360d9d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:22 +0000
Subject: [PATCH 58/68] fix: don't take bytes from $80 up for the end of the
 file

One in a comment without semicolon, or in an erroneous line, ended parsing.
---
 src/lex.l | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lex.l b/src/lex.l
index d15e756..d357564 100644
--- a/src/lex.l
+++ b/src/lex.l
@@ -95,7 +95,7 @@ ${hexdigit}+	{ yylval.as_int = strtoimax(yytext+1, NULL, 16); return INTEGER; }
 {ws}+		{ BEGIN(opcode); return WS; }
 \r		/* skip CR */
 {ws}*\n		{ BEGIN(INITIAL); return '\n'; }
-.		{ return *yytext; }
+.		{ return (unsigned char)*yytext; }
 
 }
 
@@ -112,7 +112,7 @@ ${hexdigit}+	{ yylval.as_int = strtoimax(yytext+1, NULL, 16); return INTEGER; }
 {ws}+		{ BEGIN(arg); return WS; }
 {ws}*\n		{ BEGIN(INITIAL); return '\n'; }
 \r		/* skip CR */
-.		{ BEGIN(INITIAL); return *yytext; }
+.		{ BEGIN(INITIAL); return (unsigned char)*yytext; }
 
 }
 
@@ -187,7 +187,7 @@ ${hexdigit}+	{ BEGIN(argnostr); yylval.as_int = strtoimax(yytext+1, NULL, 16); r
 {ws}+		/* skip whitespace */
 \r		/* skip CR */
 \n		{ BEGIN(INITIAL); return *yytext; }
-.		{ return *yytext; }
+.		{ return (unsigned char)*yytext; }
 
 }
 
-- 
2.43.0


From b895c7e2d94df7694c55b00a1f8a8c6af12c967b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:22 +0000
Subject: [PATCH 59/68] fix: don't copy a backslash at the end of a line to
 standard output

---
 src/lex.l | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lex.l b/src/lex.l
index d357564..08f7b9b 100644
--- a/src/lex.l
+++ b/src/lex.l
@@ -213,6 +213,7 @@ ${hexdigit}+	{ BEGIN(argnostr); yylval.as_int = strtoimax(yytext+1, NULL, 16); r
 \\n		{ yylval.as_string = strndup("\n", 1); return TEXT; }
 \\r		{ yylval.as_string = strndup("\r", 1); return TEXT; }
 \\.		{ yylval.as_string = strndup(yytext+1, 1); return TEXT; }
+\\		{ yylval.as_string = strndup(yytext, 1); return TEXT; }
 
 [^\n\r"&\/\\]+	{ yylval.as_string = strndup(yytext, yyleng); return TEXT; }
 
-- 
2.43.0


From 50de52507b718ba4e9e4ba060a220127c241c88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:22 +0000
Subject: [PATCH 60/68] fix: character constants from $80 up are not negative

---
 src/lex.l | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lex.l b/src/lex.l
index 08f7b9b..a55daf3 100644
--- a/src/lex.l
+++ b/src/lex.l
@@ -70,8 +70,8 @@ rword	[A-Za-z0-9_\.]+
 {decimal}	{ yylval.as_int = strtoimax(yytext, NULL, 10); return INTEGER; }
 ${hexdigit}+	{ yylval.as_int = strtoimax(yytext+1, NULL, 16); return INTEGER; }
 0x{hexdigit}+	{ yylval.as_int = strtoimax(yytext+2, NULL, 16); return INTEGER; }
-'.'		{ yylval.as_int = *(yytext+1); return INTEGER; }
-'.		{ yylval.as_int = *(yytext+1); return INTEGER; }
+'.'		{ yylval.as_int = (unsigned char)yytext[1]; return INTEGER; }
+'.		{ yylval.as_int = (unsigned char)yytext[1]; return INTEGER; }
 \!		{ yylval.as_int = 0; return INTEGER; }
 
 {word}		{ return id_or_reg(); }
@@ -163,8 +163,8 @@ ${hexdigit}+	{ yylval.as_int = strtoimax(yytext+1, NULL, 16); return INTEGER; }
 {decimal}	{ BEGIN(argnostr); yylval.as_int = strtoimax(yytext, NULL, 10); return INTEGER; }
 ${hexdigit}+	{ BEGIN(argnostr); yylval.as_int = strtoimax(yytext+1, NULL, 16); return INTEGER; }
 0x{hexdigit}+	{ BEGIN(argnostr); yylval.as_int = strtoimax(yytext+2, NULL, 16); return INTEGER; }
-'.'		{ BEGIN(argnostr); yylval.as_int = *(yytext+1); return INTEGER; }
-'.		{ BEGIN(argnostr); yylval.as_int = *(yytext+1); return INTEGER; }
+'.'		{ BEGIN(argnostr); yylval.as_int = (unsigned char)yytext[1]; return INTEGER; }
+'.		{ BEGIN(argnostr); yylval.as_int = (unsigned char)yytext[1]; return INTEGER; }
 [0-9]*\.[0-9]+	|
 {decimal}\.	{ BEGIN(argnostr); yylval.as_float = strtod(yytext, NULL); return FLOAT; }
 
-- 
2.43.0


From 3f9fe71d4c8ae5f63596d3eeb6eaf410427fb6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:25 +0000
Subject: [PATCH 61/68] fix: don't join words of a comment to the symbol before
 it

'bra foo back' referred to symbol 'fooback'.
---
 src/lex.l | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lex.l b/src/lex.l
index a55daf3..cd5f43a 100644
--- a/src/lex.l
+++ b/src/lex.l
@@ -144,6 +144,12 @@ ${hexdigit}+	{ yylval.as_int = strtoimax(yytext+1, NULL, 16); return INTEGER; }
 
 }
 
+<argnostr,argnostrnum>{
+
+{ws}+[A-Za-z0-9_\.].*	/* a word can't continue an operand: comment */
+
+}
+
 <arg,argnostr,argnostrnum>{
 
 &\{{decimal}\}	{ BEGIN(argnostrnum); yylval.as_string = strndup(yytext+2, yyleng-3); return INTERP; }
@@ -151,7 +157,7 @@ ${hexdigit}+	{ yylval.as_int = strtoimax(yytext+1, NULL, 16); return INTEGER; }
 \\\{{decimal}\}	{ BEGIN(argnostrnum); yylval.as_string = strndup(yytext+2, yyleng-3); return INTERP; }
 
 \+\+		{ BEGIN(argnostr); return INC2; }
-\-\-		{ BEGIN(argnostr); return DEC2; }
+\-\-		{ BEGIN(arg); return DEC2; }
 
 {decimal}[bB]	{ BEGIN(argnostr); yylval.as_int = strtoimax(yytext, NULL, 10); return BACKREF; }
 {decimal}[fF]	{ BEGIN(argnostr); yylval.as_int = strtoimax(yytext, NULL, 10); return FWDREF; }
-- 
2.43.0


From c600930020457c94abc681d54a1bfd146a3ffd00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:42 +0000
Subject: [PATCH 62/68] fix: reject malformed arguments

Arguments that could not be parsed were silently dropped, in whole or in
part: 'fdb 1,2,(3' assembled as 'fdb 1,2' and 'ldx #$12G4' as 'ldx #$12'.
Only what is separated from complete arguments by white space is a comment.
---
 src/grammar.y | 42 ++++++++++++++++++++++++++++++++++++++++--
 src/lex.l     | 13 +++++++++++++
 2 files changed, 53 insertions(+), 2 deletions(-)

diff --git a/src/grammar.y b/src/grammar.y
index a91a299..301f0d0 100644
--- a/src/grammar.y
+++ b/src/grammar.y
@@ -16,11 +16,13 @@ option) any later version.
 #include <stdio.h>
 #include <string.h>
 
+#include "array.h"
 #include "c-strcase.h"
 
 #include "error.h"
 #include "eval.h"
 #include "node.h"
+#include "opcode.h"
 #include "program.h"
 #include "register.h"
 #include "slist.h"
@@ -30,13 +32,16 @@ static void yyerror(const char *);
 void yylex_destroy(void);
 int yylex(void);
 char *lex_fetch_line(void);
+_Bool lex_after_space(void);
 void lex_free_all(void);
 
 extern FILE *yyin;
 static struct prog_ctx *cur_ctx = NULL;
+static _Bool malformed = 0;
 
 struct prog *grammar_parse_file(const char *filename);
 
+static void check_malformed(struct node *opcode);
 static void check_end_opcode(struct prog_line *line);
 static void add_line(struct prog_line *line);
 %}
@@ -96,12 +101,18 @@ program	:
 	;
 
 line	: label WS id WS arglist '\n'	{ $$ = prog_line_new($1, $3, $5); }
-	| label WS id WS arglist error '\n'	{ $$ = prog_line_new($1, $3, $5); }
+	| label WS id WS arglist comment error '\n'	{ $$ = prog_line_new($1, $3, $5); }
 	| label WS id '\n'		{ $$ = prog_line_new($1, $3, NULL); }
-	| label WS id error '\n'	{ $$ = prog_line_new($1, $3, NULL); }
+	| label WS id error '\n'	{ $$ = prog_line_new($1, $3, NULL); check_malformed($3); }
 	| label '\n'			{ $$ = prog_line_new($1, NULL, NULL); }
 	;
 
+/* Only reached if the arguments so far are complete.  Anything else that
+ * follows, separated by white space, is a comment. */
+
+comment	:			{ if (!lex_after_space()) check_malformed($<as_node>-2); }
+	;
+
 label	:			{ $$ = NULL; }
 	| INTEGER		{ $$ = node_new_int($1); }
 	| id			{ $$ = $1; }
@@ -195,6 +206,7 @@ static void raise_error(void) {
 	cur_ctx->line_number++;
 	error(error_type_syntax, "");
 	node_too_deep = 0;
+	malformed = 0;
 }
 
 static void yyerror(const char *s) {
@@ -229,10 +241,36 @@ static void add_line(struct prog_line *line) {
 	if (node_too_deep) {
 		error(error_type_syntax, "expression too complex");
 		node_too_deep = 0;
+	} else if (malformed) {
+		error(error_type_syntax, "malformed arguments");
 	}
+	malformed = 0;
 	check_end_opcode(line);
 }
 
+/* The arguments of the current line can't be parsed.  That only matters if
+ * they mean anything: what follows an instruction that takes or uses no
+ * arguments is a comment. */
+
+static void check_malformed(struct node *opcode) {
+	static const char *const ignored[] = {
+		"else", "endif", "endm",
+		"nam", "name", "opt", "page", "spc", "sttl", "ttl",
+	};
+	struct node *n = eval_string(opcode);
+	malformed = 1;
+	if (n) {
+		struct opcode const *op = opcode_by_name(n->data.as_string);
+		if (op && op->type == OPCODE_INHERENT)
+			malformed = 0;
+		for (unsigned i = 0; i < ARRAY_N_ELEMENTS(ignored); i++) {
+			if (0 == c_strcasecmp(ignored[i], n->data.as_string))
+				malformed = 0;
+		}
+		node_free(n);
+	}
+}
+
 static void check_end_opcode(struct prog_line *line) {
 	struct node *n = eval_string(line->opcode);
 	if (n) {
diff --git a/src/lex.l b/src/lex.l
index cd5f43a..2aeb8e7 100644
--- a/src/lex.l
+++ b/src/lex.l
@@ -35,6 +35,15 @@ void lex_free_all(void);
 #define YY_INPUT(buf,result,max_size) \
 	{ result = read_line(buf, max_size); }
 
+/* Did white space precede the current token? */
+static _Bool after_space = 0;
+static _Bool was_space = 0;
+
+#define YY_USER_ACTION \
+	{ after_space = was_space; was_space = (*yytext == ' ' || *yytext == '\t'); }
+
+_Bool lex_after_space(void);
+
 %}
 
 %option noyywrap
@@ -301,6 +310,10 @@ static int read_line(char *buf, int max_size) {
 	return len;
 }
 
+_Bool lex_after_space(void) {
+	return after_space;
+}
+
 char *lex_fetch_line(void) {
 	if (!lines) {
 		error(error_type_fatal, "internal: line copy fetched before ready");
-- 
2.43.0


From ff0e1127a6e07a954011244ac173820ffaed9977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:42 +0000
Subject: [PATCH 63/68] fix: check all bits of a register number

---
 src/instr.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/instr.c b/src/instr.c
index 7842d68..7fd29a9 100644
--- a/src/instr.c
+++ b/src/instr.c
@@ -574,7 +574,7 @@ void instr_pair(struct opcode const *op, struct node const *args) {
 				return;
 			}
 		} else if (type[i] == node_type_int) {
-			int v = arga[i]->data.as_int;
+			int64_t v = arga[i]->data.as_int;
 			if (v == 0 && asm6809_options.isa == asm6809_isa_6309) {
 				nibble[i] = 0x0c;
 				size[i] = 16 | 8;
@@ -628,7 +628,7 @@ void instr_tfm(struct opcode const *op, struct node const *args) {
 			}
 			nibble[i] = v;
 		} else if (type[i] == node_type_int) {
-			int v = arga[i]->data.as_int;
+			int64_t v = arga[i]->data.as_int;
 			error(error_type_illegal, "numerical values used in TFM op");
 			if (v < 0 || v > 4) {
 				error(error_type_out_of_range, "numeric value for register out of range");
-- 
2.43.0


From cc13344828a1da3e04489cbbc034c7bb17a46823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:51 +0000
Subject: [PATCH 64/68] fix: reject a size given for a register offset

---
 src/instr.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/instr.c b/src/instr.c
index 7fd29a9..b4566db 100644
--- a/src/instr.c
+++ b/src/instr.c
@@ -191,6 +191,10 @@ static _Bool off_type_compatible(enum off_type off_type, _Bool pcr, struct node
 	enum node_type ntype = node_type_of(n);
 	enum node_attr nattr = node_attr_of(n);
 
+	// only values have a size
+	if (nattr != node_attr_none && ntype != node_type_int && ntype != node_type_empty)
+		return 0;
+
 	switch (nattr) {
 	case node_attr_none:
 		break;
-- 
2.43.0


From 85b728146ae23183dae3f1c7cd631934077b69ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:19 +0000
Subject: [PATCH 65/68] fix: count malformed lines of included files

Errors in the lines after one were reported for the wrong line.
---
 src/grammar.y | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/grammar.y b/src/grammar.y
index 301f0d0..20c245d 100644
--- a/src/grammar.y
+++ b/src/grammar.y
@@ -200,10 +200,10 @@ strpart	: TEXT			{ $$ = node_new_string($1); }
 %%
 
 static void raise_error(void) {
-	// discard line with error - going to fail anyway
-	char *l = lex_fetch_line();
-	free(l);
-	cur_ctx->line_number++;
+	// blank line in place of the error - going to fail anyway
+	struct prog_line *line = prog_line_new(NULL, NULL, NULL);
+	prog_line_set_text(line, lex_fetch_line());
+	prog_ctx_add_line(cur_ctx, line);
 	error(error_type_syntax, "");
 	node_too_deep = 0;
 	malformed = 0;
-- 
2.43.0


From 4a5adf8ae66d6ae94931c12786149924e32f16e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:19 +0000
Subject: [PATCH 66/68] fix: don't modify shared nodes when applying attributes

An addressing prefix applied to a literal chosen by a conditional or
passed to a macro ended up in the macro's exported body, where it need not
parse, and one applied to a register symbol lost its increment.
---
 src/node.c | 44 +++++++++++++++++++++++++++++++++++++-------
 1 file changed, 37 insertions(+), 7 deletions(-)

diff --git a/src/node.c b/src/node.c
index 5fec933..a11b750 100644
--- a/src/node.c
+++ b/src/node.c
@@ -111,9 +111,42 @@ struct node **node_array_of(struct node const *n) {
 	return n->data.as_array.args;
 }
 
+/* Literals are shared with the program text, values with the symbol table.
+ * Only the holder of the sole reference may modify a node, so copy others. */
+
+static struct node *node_unshare(struct node *n) {
+	if (n->ref == 1)
+		return n;
+	struct node *copy;
+	switch (n->type) {
+	case node_type_empty:
+		copy = node_new_empty();
+		break;
+	case node_type_int:
+		copy = node_new_int(n->data.as_int);
+		break;
+	case node_type_float:
+		copy = node_new_float(n->data.as_float);
+		break;
+	case node_type_reg:
+		copy = node_new_reg(n->data.as_reg);
+		break;
+	case node_type_string:
+		copy = node_new_string(xstrdup(n->data.as_string));
+		break;
+	default:
+		return n;
+	}
+	copy->attr = n->attr;
+	node_free(n);
+	return copy;
+}
+
 struct node *node_set_attr(struct node *n, enum node_attr attr) {
-	if (n)
+	if (n && n->attr != attr) {
+		n = node_unshare(n);
 		n->attr = attr;
+	}
 	return n;
 }
 
@@ -122,10 +155,8 @@ struct node *node_set_attr(struct node *n, enum node_attr attr) {
 struct node *node_set_attr_if(struct node *n, enum node_attr attr) {
 	if (!n)
 		return NULL;
-	if (attr != node_attr_none) {
-		n->attr = attr;
-		return n;
-	}
+	if (attr != node_attr_none)
+		return node_set_attr(n, attr);
 	switch (n->attr) {
 	case node_attr_postinc:
 	case node_attr_postinc2:
@@ -134,8 +165,7 @@ struct node *node_set_attr_if(struct node *n, enum node_attr attr) {
 	case node_attr_postdec:
 		break;
 	default:
-		n->attr = attr;
-		break;
+		return node_set_attr(n, attr);
 	}
 	return n;
 }
-- 
2.43.0


From 818f01e803e7830ece6d3f38e6808798fd265f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:19 +0000
Subject: [PATCH 67/68] fix: reject malformed text in place of an argument

It was taken for a comment after an empty argument.
---
 src/grammar.y | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/grammar.y b/src/grammar.y
index 20c245d..9eef55d 100644
--- a/src/grammar.y
+++ b/src/grammar.y
@@ -41,6 +41,8 @@ static _Bool malformed = 0;
 
 struct prog *grammar_parse_file(const char *filename);
 
+static _Bool last_is_empty(struct node *args);
+static struct node *discard_empty(struct node *args);
 static void check_malformed(struct node *opcode);
 static void check_end_opcode(struct prog_line *line);
 static void add_line(struct prog_line *line);
@@ -101,16 +103,16 @@ program	:
 	;
 
 line	: label WS id WS arglist '\n'	{ $$ = prog_line_new($1, $3, $5); }
-	| label WS id WS arglist comment error '\n'	{ $$ = prog_line_new($1, $3, $5); }
+	| label WS id WS arglist comment error '\n'	{ $$ = prog_line_new($1, $3, discard_empty($5)); }
 	| label WS id '\n'		{ $$ = prog_line_new($1, $3, NULL); }
 	| label WS id error '\n'	{ $$ = prog_line_new($1, $3, NULL); check_malformed($3); }
 	| label '\n'			{ $$ = prog_line_new($1, NULL, NULL); }
 	;
 
 /* Only reached if the arguments so far are complete.  Anything else that
- * follows, separated by white space, is a comment. */
+ * follows an argument, separated by white space, is a comment. */
 
-comment	:			{ if (!lex_after_space()) check_malformed($<as_node>-2); }
+comment	:			{ if (!lex_after_space() || last_is_empty($<as_node>0)) check_malformed($<as_node>-2); }
 	;
 
 label	:			{ $$ = NULL; }
@@ -248,6 +250,21 @@ static void add_line(struct prog_line *line) {
 	check_end_opcode(line);
 }
 
+static _Bool last_is_empty(struct node *args) {
+	int nargs = node_array_count(args);
+	return nargs > 0 && node_type_of(node_array_of(args)[nargs-1]) == node_type_empty;
+}
+
+/* Nothing but text that isn't an argument. */
+
+static struct node *discard_empty(struct node *args) {
+	if (node_array_count(args) == 1 && last_is_empty(args)) {
+		node_free(args);
+		return NULL;
+	}
+	return args;
+}
+
 /* The arguments of the current line can't be parsed.  That only matters if
  * they mean anything: what follows an instruction that takes or uses no
  * arguments is a comment. */
-- 
2.43.0


From 256b4090543151c712187f453d2e086720f887ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:38 +0000
Subject: [PATCH 68/68] fix: list addresses below zero on every kind of line

Section directives and pseudo-ops that place no data passed the bare
location to the listing, which drops the address of a line located
below zero.  Every other line wraps it to 16 bits, so do the same.
---
 src/assemble.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/assemble.c b/src/assemble.c
index 9ef1611..1d0615a 100644
--- a/src/assemble.c
+++ b/src/assemble.c
@@ -528,7 +528,7 @@ void assemble_prog(struct prog *prog, unsigned pass) {
 		/* Other pseudo-ops */
 		op_handler = dict_lookup(pseudo_dict, n_line.opcode->data.as_string);
 		if (op_handler) {
-			listing_add_line(cur_section->pc, 0, NULL, l->text);
+			listing_add_line(cur_section->pc & 0xffff, 0, NULL, l->text);
 			op_handler(&n_line);
 			goto next_line;
 		}
@@ -703,7 +703,7 @@ static void pseudo_section(struct prog_line *line) {
 	cur_section->line_number++;
 	node_free(n);
 	set_label(line->label, node_new_int(cur_section->pc), 0);
-	listing_add_line(cur_section->pc, 0, NULL, line->text);
+	listing_add_line(cur_section->pc & 0xffff, 0, NULL, line->text);
 }
 
 /*
@@ -714,7 +714,7 @@ static void pseudo_section_name(struct prog_line *line) {
 	section_set(line->opcode->data.as_string, asm_pass);
 	cur_section->line_number++;
 	set_label(line->label, node_new_int(cur_section->pc), 0);
-	listing_add_line(cur_section->pc, 0, NULL, line->text);
+	listing_add_line(cur_section->pc & 0xffff, 0, NULL, line->text);
 }
 
 /* PUT.  Following instructions will be located at this address.  Allows
-- 
2.43.0

