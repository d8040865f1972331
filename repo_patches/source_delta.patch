From 22c8ceaadece4fb72579a052b5e785c1ed93ce3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:10 +0000
Subject: [PATCH 01/63] fix: offset for a PCR operand whose target address is
 zero

---
 src/instr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/instr.c b/src/instr.c
index 911c0c8..4a04d94 100644
--- a/src/instr.c
+++ b/src/instr.c
@@ -291,7 +291,7 @@ static void instr_indexed2(_Bool indirect, struct node const *arg0, struct node
 		goto invalid_mode;
 	}
 
-	if (arg0_type == node_type_int && arg0_attr == node_attr_none
+	if (!pcr && arg0_type == node_type_int && arg0_attr == node_attr_none
 	    && arg0->data.as_int == 0) {
 		arg0_type = node_type_empty;
 	}
-- 
2.43.0


From 626181a5739b17dbc5535ceb2e6d4d7444f9f501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:23 +0000
Subject: [PATCH 02/63] fix: report division or modulo by zero instead of
 crashing or yielding zero

---
 src/eval.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/eval.c b/src/eval.c
index 2b9f9b2..4abe915 100644
--- a/src/eval.c
+++ b/src/eval.c
@@ -444,7 +444,12 @@ static struct node *eval_node_oper_2(struct node *n) {
 			ret = node_new_float(leftn->data.as_float * rightn->data.as_float);
 			break;
 		case '/':
-			ret = node_new_float(leftn->data.as_float / rightn->data.as_float);
+			if (rightn->data.as_float == 0.) {
+				error(error_type_out_of_range, "division by zero");
+				ret = NULL;
+			} else {
+				ret = node_new_float(leftn->data.as_float / rightn->data.as_float);
+			}
 			break;
 		case '+':
 			ret = node_new_float(leftn->data.as_float + rightn->data.as_float);
@@ -494,7 +499,15 @@ static struct node *eval_node_oper_2(struct node *n) {
 
 		switch (n->data.as_oper.oper) {
 		case '%':
-			ret = node_new_int(leftn->data.as_int % rightn->data.as_int);
+			if (rightn->data.as_int == 0) {
+				error(error_type_out_of_range, "modulo by zero");
+				ret = NULL;
+			} else if (rightn->data.as_int == -1) {
+				// would trap for the most negative value
+				ret = node_new_int(0);
+			} else {
+				ret = node_new_int(leftn->data.as_int % rightn->data.as_int);
+			}
 			break;
 		case SHL:
 			ret = node_new_int(leftn->data.as_int << rightn->data.as_int);
-- 
2.43.0


From 49f2414878448fba28096c64e01e31e348a1c80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:48 +0000
Subject: [PATCH 03/63] fix: shift counts outside 0 to 63 had no defined result

---
 src/eval.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/eval.c b/src/eval.c
index 4abe915..6bdaecd 100644
--- a/src/eval.c
+++ b/src/eval.c
@@ -497,6 +497,17 @@ static struct node *eval_node_oper_2(struct node *n) {
 			return NULL;
 		}
 
+		if ((n->data.as_oper.oper == SHL || n->data.as_oper.oper == SHR) &&
+		    (rightn->data.as_int < 0 || rightn->data.as_int > 63)) {
+			// not defined by C
+			if (rightn->data.as_int < 0)
+				error(error_type_out_of_range, "negative shift count");
+			ret = node_new_int((n->data.as_oper.oper == SHR && leftn->data.as_int < 0) ? -1 : 0);
+			node_free(leftn);
+			node_free(rightn);
+			return ret;
+		}
+
 		switch (n->data.as_oper.oper) {
 		case '%':
 			if (rightn->data.as_int == 0) {
-- 
2.43.0


From 550ea483e1f57554d6b77f2f79877e405471e6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:49 +0000
Subject: [PATCH 04/63] fix: relational operators bind tighter than equality,
 as documented

---
 src/grammar.y | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grammar.y b/src/grammar.y
index b679585..c967eb4 100644
--- a/src/grammar.y
+++ b/src/grammar.y
@@ -79,8 +79,8 @@ static void check_end_opcode(struct prog_line *line);
 %left '|'
 %left '^'
 %left '&'
-%left '<' LE '>' GE
 %left EQ NE
+%left '<' LE '>' GE
 %left SHL SHR
 %left '+' '-'
 %left '*' '/' '%'
-- 
2.43.0


From fdea32edda47b56511a1b79b07afd9cb01b6c4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:50 +0000
Subject: [PATCH 05/63] fix: reject registers without a code in inter-register
 instructions

---
 src/instr.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/instr.c b/src/instr.c
index 4a04d94..1e00a63 100644
--- a/src/instr.c
+++ b/src/instr.c
@@ -544,6 +544,10 @@ void instr_pair(struct opcode const *op, struct node const *args) {
 		if (type[i] == node_type_reg) {
 			nibble[i] = reg_tfr_nibble[arga[i]->data.as_reg];
 			size[i] = reg_tfr_size[arga[i]->data.as_reg];
+			if (nibble[i] < 0) {
+				error(error_type_syntax, "invalid register in inter-register op");
+				return;
+			}
 		} else if (type[i] == node_type_int) {
 			int v = arga[i]->data.as_int;
 			if (v == 0 && asm6809_options.isa == asm6809_isa_6309) {
-- 
2.43.0


From 5bdd03e877955083674ef990fdb96503e7b8ec92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:51 +0000
Subject: [PATCH 06/63] fix: numeric register in 6309 bit operations was always
 encoded as 3

---
 src/instr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/instr.c b/src/instr.c
index 1e00a63..c0431fb 100644
--- a/src/instr.c
+++ b/src/instr.c
@@ -653,7 +653,7 @@ void instr_reg_mem(struct opcode const *op, struct node const *args) {
 	case node_type_undef:
 		break;
 	case node_type_int:
-		pbyte |= (arga[0]->data.as_int & 3) << 6;
+		pbyte = (arga[0]->data.as_int & 3) << 6;
 		error(error_type_illegal, "numerical value used in place of register");
 		break;
 	case node_type_reg:
-- 
2.43.0


From 1b2be6bf3bf4edc95aac31bcd3c83b39c0bdceff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:52 +0000
Subject: [PATCH 07/63] fix: use the value given to --setdp

---
 src/asm6809.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/asm6809.c b/src/asm6809.c
index 55e2143..d969f83 100644
--- a/src/asm6809.c
+++ b/src/asm6809.c
@@ -65,7 +65,7 @@ static struct option long_options[] = {
 	{ "6809", no_argument, &isa, asm6809_isa_6809 },
 	{ "6309", no_argument, &isa, asm6809_isa_6309 },
 	{ "define", required_argument, NULL, 'd' },
-	{ "setdp", required_argument, &setdp, 0 },
+	{ "setdp", required_argument, NULL, 'p' },
 	{ "max-passes", required_argument, NULL, 'P' },
 	{ "output", required_argument, NULL, 'o' },
 	{ "listing", required_argument, NULL, 'l' },
@@ -123,6 +123,12 @@ int main(int argc, char **argv) {
 		case 'd':
 			define_symbol(optarg);
 			break;
+		case 'p':
+			{
+				long v = strtol(optarg, NULL, 0);
+				setdp = (v >= 0) ? (v & 0xff) : -1;
+			}
+			break;
 		case 'P':
 			{
 				long v = strtol(optarg, NULL, 0);
-- 
2.43.0


From 1fc92728cd2acd7025427ea77fafbc7536ec555b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:53 +0000
Subject: [PATCH 08/63] fix: crash writing a symbols file when there are no
 symbols

---
 src/symbol.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/symbol.c b/src/symbol.c
index b3ef68e..bddc29c 100644
--- a/src/symbol.c
+++ b/src/symbol.c
@@ -115,6 +115,8 @@ static void add_to_list(const char *key, struct node *value, struct slist **l) {
 
 struct slist *symbol_get_list(void) {
 	struct slist *l = NULL;
+	if (!symbols)
+		return NULL;
 	dict_foreach(symbols, (dict_iter_func)add_to_list, &l);
 	return l;
 }
-- 
2.43.0


From 54111de4ec442272e424bd2290ce6681467d57e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:54 +0000
Subject: [PATCH 09/63] fix: use after free following an unfinished macro
 definition

---
 src/assemble.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/assemble.c b/src/assemble.c
index f476ba1..e3fa8e4 100644
--- a/src/assemble.c
+++ b/src/assemble.c
@@ -570,6 +570,11 @@ next_line:
 		error(error_type_syntax, "IF not matched with ENDIF");
 	}
 
+	/* An unfinished macro definition is reported, and its context freed, by
+	 * prog_ctx_free(). */
+	defining_macro_level = 0;
+	defining_macro_ctx = NULL;
+
 	assert(prog_depth > 0);
 	prog_depth--;
 	prog_ctx_free(ctx);
-- 
2.43.0


From 16880c1934ea70926e59e7df510cc68512fb17a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:17 +0000
Subject: [PATCH 10/63] fix: END or -e with a non-integer value read the wrong
 kind of data

---
 src/asm6809.c  | 5 ++++-
 src/assemble.c | 8 +++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/asm6809.c b/src/asm6809.c
index d969f83..beaacb4 100644
--- a/src/asm6809.c
+++ b/src/asm6809.c
@@ -26,6 +26,7 @@ option) any later version.
 #include "asm6809.h"
 #include "assemble.h"
 #include "error.h"
+#include "eval.h"
 #include "listing.h"
 #include "node.h"
 #include "opcode.h"
@@ -236,7 +237,9 @@ int main(int argc, char **argv) {
 		struct node *n = simple_parse_int(exec_option);
 		if (!n) {
 			unsigned v = 0;
-			struct node *tmp = symbol_get(exec_option);
+			struct node *sym = symbol_get(exec_option);
+			struct node *tmp = eval_int(sym);
+			node_free(sym);
 			if (tmp) {
 				v = tmp->data.as_int & 0xffff;
 				node_free(tmp);
diff --git a/src/assemble.c b/src/assemble.c
index e3fa8e4..8353a4e 100644
--- a/src/assemble.c
+++ b/src/assemble.c
@@ -1033,7 +1033,13 @@ static void pseudo_end(struct prog_line *line) {
 	if (nargs < 1)
 		return;
 	struct node **arga = node_array_of(line->args);
-	symbol_set(".exec", arga[0], asm_pass, 0);
+	struct node *n = eval_int(arga[0]);
+	if (!n && node_type_of(arga[0]) != node_type_undef) {
+		error(error_type_syntax, "invalid argument to END");
+		return;
+	}
+	symbol_set(".exec", n, asm_pass, 0);
+	node_free(n);
 }
 
 /* Ignore certain historical pseudo-ops */
-- 
2.43.0


From 419b5d1df976cb28528704d39a89f812567c80ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:19 +0000
Subject: [PATCH 11/63] fix: reject data PUT beyond addressable memory

---
 src/assemble.c | 4 ++++
 src/section.c  | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/assemble.c b/src/assemble.c
index 8353a4e..24ade3d 100644
--- a/src/assemble.c
+++ b/src/assemble.c
@@ -691,6 +691,10 @@ static void pseudo_put(struct prog_line *line) {
 		error(error_type_out_of_range, "invalid negative address for PUT");
 		return;
 	}
+	if (new_put > 0xffff) {
+		error(error_type_out_of_range, "address for PUT beyond addressable memory");
+		return;
+	}
 	cur_section->put = new_put;
 }
 
diff --git a/src/section.c b/src/section.c
index 38271b9..f2f8c4c 100644
--- a/src/section.c
+++ b/src/section.c
@@ -269,7 +269,7 @@ static void section_emit(uint8_t const *buf, int nbytes) {
 	}
 	span->size += nbytes;
 
-	if (cur_section->pc > 0x10000) {
+	if (cur_section->pc > 0x10000 || cur_section->put > 0x10000) {
 		error(error_type_out_of_range, "assembling beyond addressable memory");
 	}
 }
-- 
2.43.0


From da4e1dcd517637c3ed07bca07025366acd58c8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:20 +0000
Subject: [PATCH 12/63] fix: ORG and RMB values that do not fit an int were
 silently truncated

---
 src/assemble.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/assemble.c b/src/assemble.c
index 24ade3d..9b707b2 100644
--- a/src/assemble.c
+++ b/src/assemble.c
@@ -644,6 +644,10 @@ static void pseudo_org(struct prog_line *line) {
 	if (verify_num_args(line->args, 1, 1, "ORG") < 0)
 		return;
 	long new_pc = have_int_required(line->args, 0, "ORG", cur_section->pc);
+	if (new_pc < -0x10000 || new_pc > 0x10000) {
+		error(error_type_out_of_range, "address for ORG beyond addressable memory");
+		new_pc = cur_section->pc;
+	}
 	cur_section->pc = new_pc;
 	if (new_pc >= 0)
 		cur_section->put = new_pc;
@@ -915,6 +919,10 @@ static void pseudo_rmb(struct prog_line *line) {
 		error(error_type_out_of_range, "negative argument to RMB");
 		return;
 	}
+	if (count > 0x10000) {
+		error(error_type_out_of_range, "count for RMB too large");
+		return;
+	}
 	section_skip(count);
 }
 
-- 
2.43.0


From f0161f23d89dece973d5ab3433447f4a46163de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:20 +0000
Subject: [PATCH 13/63] fix: notice when only the put address of a section
 changes between passes

---
 src/section.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/section.c b/src/section.c
index f2f8c4c..c3957f3 100644
--- a/src/section.c
+++ b/src/section.c
@@ -143,7 +143,7 @@ static void verify_section(void *key, void *value, void *data) {
 	struct section *sect = value;
 	if (!sect)
 		return;
-	if (sect->last_pc != sect->pc) {
+	if (sect->last_pc != sect->pc || sect->last_put != sect->put) {
 		sect->last_pc = sect->pc;
 		sect->last_put = sect->put;
 		error(error_type_inconsistent, NULL);
-- 
2.43.0


From 1df27739a14137cc7dbbc5a6006de50e5569266e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:37 +0000
Subject: [PATCH 14/63] fix: a new section follows the one defined before it,
 not the one switched from

---
 src/section.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/section.c b/src/section.c
index c3957f3..90dd3f9 100644
--- a/src/section.c
+++ b/src/section.c
@@ -34,6 +34,9 @@ static unsigned span_sequence = 0;
 
 struct section *cur_section = NULL;
 
+/* Section most recently seen for the first time in a pass. */
+static struct section *newest_section = NULL;
+
 // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
 
 static struct section_span *section_span_new(void) {
@@ -100,6 +103,7 @@ void section_free_all(void) {
 		dict_destroy(sections);
 	sections = NULL;
 	cur_section = NULL;
+	newest_section = NULL;
 }
 
 // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -121,9 +125,9 @@ void section_set(const char *name, unsigned pass) {
 			next_section->spans = NULL;
 			next_section->span = NULL;
 		}
-		if (cur_section && cur_section->pass == pass) {
-			next_section->pc = cur_section->last_pc;
-			next_section->put = cur_section->last_put;
+		if (newest_section && newest_section->pass == pass) {
+			next_section->pc = newest_section->last_pc;
+			next_section->put = newest_section->last_put;
 		} else {
 			next_section->pc = 0;
 			next_section->put = 0;
@@ -131,6 +135,7 @@ void section_set(const char *name, unsigned pass) {
 		next_section->pass = pass;
 		next_section->dp = asm6809_options.setdp;
 		next_section->line_number = 0;
+		newest_section = next_section;
 	}
 
 	cur_section = next_section;
-- 
2.43.0


From 249d605ab23004a0a5a134a30af7ec07ed5e63fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:38 +0000
Subject: [PATCH 15/63] fix: spans left by an earlier pass in a section no
 longer used were output

---
 src/section.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/section.c b/src/section.c
index 90dd3f9..1488a91 100644
--- a/src/section.c
+++ b/src/section.c
@@ -148,6 +148,12 @@ static void verify_section(void *key, void *value, void *data) {
 	struct section *sect = value;
 	if (!sect)
 		return;
+	if (sect->pass != cur_section->pass && sect->spans) {
+		/* not used in this pass: discard what an earlier pass emitted */
+		slist_free_full(sect->spans, (slist_free_func)section_span_free);
+		sect->spans = NULL;
+		sect->span = NULL;
+	}
 	if (sect->last_pc != sect->pc || sect->last_put != sect->put) {
 		sect->last_pc = sect->pc;
 		sect->last_put = sect->put;
-- 
2.43.0


From 62e491234a00f04076e06ba8f344431371372812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:08 +0000
Subject: [PATCH 16/63] fix: letter case of CODE, DATA, BSS, RAM and AUTO
 selected different sections

---
 src/assemble.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/assemble.c b/src/assemble.c
index 9b707b2..284b300 100644
--- a/src/assemble.c
+++ b/src/assemble.c
@@ -19,9 +19,11 @@ option) any later version.
 #include <stdlib.h>
 
 #include "array.h"
+#include "c-ctype.h"
 #include "c-strcase.h"
 #include "dict.h"
 #include "slist.h"
+#include "xalloc.h"
 
 #include "asm6809.h"
 #include "assemble.h"
@@ -679,7 +681,12 @@ static void pseudo_section(struct prog_line *line) {
  */
 
 static void pseudo_section_name(struct prog_line *line) {
-	section_set(line->opcode->data.as_string, asm_pass);
+	/* pseudo-ops are case-insensitive, section names are not */
+	char *name = xstrdup(line->opcode->data.as_string);
+	for (char *c = name; *c; c++)
+		*c = c_toupper(*c);
+	section_set(name, asm_pass);
+	free(name);
 	set_label(line->label, node_new_int(cur_section->pc), 0);
 	listing_add_line(cur_section->pc, 0, NULL, line->text);
 }
-- 
2.43.0


From 01041f233722fb4a45051b306f2f3704ab13c95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:09 +0000
Subject: [PATCH 17/63] fix: exported macros lost ternary and two-character
 operators

---
 src/node.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/node.c b/src/node.c
index 0d7af50..0000b3a 100644
--- a/src/node.c
+++ b/src/node.c
@@ -295,6 +295,12 @@ static const char *opstr(int op) {
 	switch (op) {
 	case SHL: return "<<";
 	case SHR: return ">>";
+	case LE: return "<=";
+	case GE: return ">=";
+	case EQ: return "==";
+	case NE: return "!=";
+	case LAND: return "&&";
+	case LOR: return "||";
 	default: str[0] = op; str[1] = 0; break;
 	}
 	return str;
@@ -385,8 +391,15 @@ void node_print(FILE *f, struct node const *n) {
 			node_print(f, n->data.as_oper.args[0]);
 		} else if (n->data.as_oper.nargs == 2) {
 			node_print(f, n->data.as_oper.args[0]);
-			fprintf(f, "%s", opstr(n->data.as_oper.oper));
+			// spaces keep '%' from looking like a binary number
+			fprintf(f, " %s ", opstr(n->data.as_oper.oper));
+			node_print(f, n->data.as_oper.args[1]);
+		} else if (n->data.as_oper.nargs == 3) {
+			node_print(f, n->data.as_oper.args[0]);
+			fprintf(f, " ? ");
 			node_print(f, n->data.as_oper.args[1]);
+			fprintf(f, " : ");
+			node_print(f, n->data.as_oper.args[2]);
 		}
 		fprintf(f, ")");
 		break;
-- 
2.43.0


From 833f6de423addfe32f5d1442fe4b482e8993f938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:10 +0000
Subject: [PATCH 18/63] fix: strings with delimiters or escapes did not survive
 export

---
 src/node.c    | 20 +++++++++++++++++++-
 src/node.h    |  1 +
 src/program.c | 13 ++++++-------
 3 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/src/node.c b/src/node.c
index 0000b3a..17405a7 100644
--- a/src/node.c
+++ b/src/node.c
@@ -306,6 +306,20 @@ static const char *opstr(int op) {
 	return str;
 }
 
+/* Print text such that it reads back the same between '/' delimiters. */
+
+void node_print_text(FILE *f, const char *s) {
+	for (; *s; s++) {
+		switch (*s) {
+		case '\n': fprintf(f, "\\n"); break;
+		case '\r': fprintf(f, "\\r"); break;
+		case '&': fprintf(f, "&&"); break;
+		case '/': case '\\': fputc('\\', f); /* fall through */
+		default: fputc(*s, f); break;
+		}
+	}
+}
+
 void node_print(FILE *f, struct node const *n) {
 	struct slist *l;
 	if (!n) {
@@ -380,7 +394,11 @@ void node_print(FILE *f, struct node const *n) {
 	case node_type_text:
 		fprintf(f, "/");
 		for (l = n->data.as_list; l; l = l->next) {
-			node_print(f, (struct node *)l->data);
+			struct node const *part = l->data;
+			if (node_type_of(part) == node_type_string)
+				node_print_text(f, part->data.as_string);
+			else
+				node_print(f, part);
 		}
 		fprintf(f, "/");
 		break;
diff --git a/src/node.h b/src/node.h
index 74998a9..7f4a3d5 100644
--- a/src/node.h
+++ b/src/node.h
@@ -201,6 +201,7 @@ struct node *node_array_push(struct node *a, struct node *n);
  * Code exporting.
  */
 
+void node_print_text(FILE *f, const char *s);
 void node_print(FILE *f, struct node const *n);
 void node_print_array(FILE *f, struct node const *n);  // print array without []
 
diff --git a/src/program.c b/src/program.c
index 6e064d0..7dd6da4 100644
--- a/src/program.c
+++ b/src/program.c
@@ -229,7 +229,6 @@ static void print_symbol(const char *key, FILE *f) {
 		node_free(sym);
 		if (!n)
 			return;
-		int delim = 0;
 		enum node_attr old_attr = node_attr_of(n);
 		n = node_set_attr(n, node_attr_none);
 		switch (node_type_of(n)) {
@@ -240,16 +239,16 @@ static void print_symbol(const char *key, FILE *f) {
 		case node_type_int:
 		case node_type_float:
 		case node_type_reg:
+			fprintf(f, "%s\tequ\t", key);
+			node_print(f, n);
+			fprintf(f, "\n");
 			break;
 		case node_type_string:
-			delim = '/';
+			fprintf(f, "%s\tequ\t/", key);
+			node_print_text(f, n->data.as_string);
+			fprintf(f, "/\n");
 			break;
 		}
-		fprintf(f, "%s\tequ\t", key);
-		if (delim) fputc(delim, f);
-		node_print(f, n);
-		if (delim) fputc(delim, f);
-		fprintf(f, "\n");
 		n = node_set_attr(n, old_attr);
 		node_free(n);
 	}
-- 
2.43.0


From 0afc7e870bfcaee820b1efd3d10dcb749ecf82e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:30 +0000
Subject: [PATCH 19/63] fix: EXEC address made the symbols file unusable as
 source

---
 src/symbol.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/symbol.c b/src/symbol.c
index bddc29c..e93937e 100644
--- a/src/symbol.c
+++ b/src/symbol.c
@@ -110,6 +110,9 @@ struct node *symbol_get(const char *key) {
 
 static void add_to_list(const char *key, struct node *value, struct slist **l) {
 	(void)value;
+	/* not a name that source can contain, i.e. the EXEC address */
+	if (*key == '.')
+		return;
 	*l = slist_prepend(*l, (void *)key);
 }
 
-- 
2.43.0


From a09a0e527889656832cdf1cb4257752cbb6ee3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:31 +0000
Subject: [PATCH 20/63] fix: exported floating point values lost precision

---
 src/node.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/node.c b/src/node.c
index 17405a7..2412302 100644
--- a/src/node.c
+++ b/src/node.c
@@ -362,7 +362,7 @@ void node_print(FILE *f, struct node const *n) {
 		fprintf(f, "%"PRId64, n->data.as_int);
 		break;
 	case node_type_float:
-		fprintf(f, "%f", n->data.as_float);
+		fprintf(f, "%.17f", n->data.as_float);
 		break;
 	case node_type_reg:
 		fprintf(f, "%s", reg_id_to_name(n->data.as_reg));
-- 
2.43.0


From 835e63a1fb99b679b3b154594fd9b46cfb2e6f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:32 +0000
Subject: [PATCH 21/63] fix: exporting an undefined symbol is an error

---
 src/asm6809.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asm6809.c b/src/asm6809.c
index beaacb4..95de1b8 100644
--- a/src/asm6809.c
+++ b/src/asm6809.c
@@ -302,7 +302,7 @@ int main(int argc, char **argv) {
 	}
 
 	/* Any errors in all that? */
-	if (error_level >= error_type_syntax) {
+	if (error_level >= error_type_inconsistent) {
 		error_print_list();
 		tidy_up_and_exit(EXIT_FAILURE);
 	}
-- 
2.43.0


From 82b13cb03ff012ab96c4233f663796ac00560c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:32 +0000
Subject: [PATCH 22/63] fix: failing to open or write the output file was not
 reported

---
 src/output.c | 37 +++++++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/src/output.c b/src/output.c
index a68f2ec..e30877b 100644
--- a/src/output.c
+++ b/src/output.c
@@ -13,9 +13,11 @@ option) any later version.
 #include "config.h"
 
 #include <assert.h>
+#include <errno.h>
 #include <stdint.h>
 #include <stdio.h>
 #include <stdlib.h>
+#include <string.h>
 
 #include "error.h"
 #include "eval.h"
@@ -32,6 +34,21 @@ static void write_single_binary(FILE *f, struct section_span *span) {
 	fwrite(span->data, 1, size, f);
 }
 
+/* Open and close the output file, reporting failure. */
+
+static FILE *open_output(const char *filename) {
+	FILE *f = fopen(filename, "wb");
+	if (!f)
+		error(error_type_fatal, "%s: %s", filename, strerror(errno));
+	return f;
+}
+
+static void close_output(FILE *f, const char *filename) {
+	int failed = ferror(f);
+	if (fclose(f) != 0 || failed)
+		error(error_type_fatal, "%s: write failed", filename);
+}
+
 /* Helper to figure out exec address. */
 
 static int get_exec_addr(void) {
@@ -48,7 +65,7 @@ static int get_exec_addr(void) {
 /* Output format: Plain binary.  All coalesced into one big blob. */
 
 void output_binary(const char *filename) {
-	FILE *f = fopen(filename, "wb");
+	FILE *f = open_output(filename);
 	if (!f)
 		return;
 
@@ -59,7 +76,7 @@ void output_binary(const char *filename) {
 	}
 
 	section_free(sect);
-	fclose(f);
+	close_output(f, filename);
 }
 
 /* Output format: DragonDOS binary. */
@@ -67,7 +84,7 @@ void output_binary(const char *filename) {
 void output_dragondos(const char *filename) {
 	int exec_addr = get_exec_addr();
 
-	FILE *f = fopen(filename, "wb");
+	FILE *f = open_output(filename);
 	if (!f)
 		return;
 
@@ -96,7 +113,7 @@ void output_dragondos(const char *filename) {
 		write_single_binary(f, span);
 
 	section_free(sect);
-	fclose(f);
+	close_output(f, filename);
 }
 
 /* Output format: CoCo RSDOS binary. */
@@ -110,7 +127,7 @@ void output_dragondos(const char *filename) {
 void output_coco(const char *filename) {
 	int exec_addr = get_exec_addr();
 
-	FILE *f = fopen(filename, "wb");
+	FILE *f = open_output(filename);
 	if (!f)
 		return;
 
@@ -137,7 +154,7 @@ void output_coco(const char *filename) {
 	fputc(exec_addr  & 0xff, f);
 
 	section_free(sect);
-	fclose(f);
+	close_output(f, filename);
 }
 
 /* Output format: Motorola SREC. */
@@ -145,7 +162,7 @@ void output_coco(const char *filename) {
 void output_motorola_srec(const char *filename) {
 	int exec_addr = get_exec_addr();
 
-	FILE *f = fopen(filename, "wb");
+	FILE *f = open_output(filename);
 	if (!f)
 		return;
 
@@ -180,7 +197,7 @@ void output_motorola_srec(const char *filename) {
         }
 
 	section_free(sect);
-	fclose(f);
+	close_output(f, filename);
 }
 
 /* Output format: Intel HEX. */
@@ -188,7 +205,7 @@ void output_motorola_srec(const char *filename) {
 void output_intel_hex(const char *filename) {
 	int exec_addr = get_exec_addr();
 
-	FILE *f = fopen(filename, "wb");
+	FILE *f = open_output(filename);
 	if (!f)
 		return;
 
@@ -223,5 +240,5 @@ void output_intel_hex(const char *filename) {
 	}
 
 	section_free(sect);
-	fclose(f);
+	close_output(f, filename);
 }
-- 
2.43.0


From 580af85b56f265dc2adc03d010093528fba84f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:51 +0000
Subject: [PATCH 23/63] fix: failing to write the listing, exports or symbols
 file was not reported

---
 src/asm6809.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/asm6809.c b/src/asm6809.c
index 95de1b8..2ccf0a3 100644
--- a/src/asm6809.c
+++ b/src/asm6809.c
@@ -225,7 +225,9 @@ int main(int argc, char **argv) {
 		FILE *listf = fopen(listing_filename, "wb");
 		if (listf) {
 			listing_print(listf);
-			fclose(listf);
+			int failed = ferror(listf);
+			if (fclose(listf) != 0 || failed)
+				error(error_type_fatal, "%s: write failed", listing_filename);
 		} else {
 			error(error_type_fatal, "%s: %s", listing_filename, strerror(errno));
 		}
@@ -284,7 +286,9 @@ int main(int argc, char **argv) {
 		FILE *expf = fopen(exports_filename, "wb");
 		if (expf) {
 			prog_print_exports(expf);
-			fclose(expf);
+			int failed = ferror(expf);
+			if (fclose(expf) != 0 || failed)
+				error(error_type_fatal, "%s: write failed", exports_filename);
 		} else {
 			error(error_type_fatal, "%s: %s", exports_filename, strerror(errno));
 		}
@@ -295,7 +299,9 @@ int main(int argc, char **argv) {
 		FILE *symf = fopen(symbol_filename, "wb");
 		if (symf) {
 			prog_print_symbols(symf);
-			fclose(symf);
+			int failed = ferror(symf);
+			if (fclose(symf) != 0 || failed)
+				error(error_type_fatal, "%s: write failed", symbol_filename);
 		} else {
 			error(error_type_fatal, "%s: %s", symbol_filename, strerror(errno));
 		}
-- 
2.43.0


From 48e9c52a50175c6fc21de929d3ecd0f811e47d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:52 +0000
Subject: [PATCH 24/63] fix: operands of the wrong kind were assembled as if
 undefined

---
 src/instr.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/instr.c b/src/instr.c
index c0431fb..aa52199 100644
--- a/src/instr.c
+++ b/src/instr.c
@@ -59,6 +59,8 @@ void instr_immediate(struct opcode const *op, struct node const *args) {
 	if (tmp) {
 		value = tmp->data.as_int;
 		node_free(tmp);
+	} else if (node_type_of(arga[0]) != node_type_undef) {
+		error(error_type_syntax, "invalid immediate value");
 	}
 	if ((op->type & OPCODE_EXT_TYPE) == OPCODE_IMM8)
 		section_emit_uint8(value);
@@ -95,6 +97,8 @@ void instr_rel(struct opcode const *op, struct node const *args) {
 	}
 	section_emit_op(op->immediate);
 	if (node_type_of(arga[0]) != node_type_int) {
+		if (node_type_of(arga[0]) != node_type_undef)
+			error(error_type_syntax, "invalid branch target");
 		if ((op->type & OPCODE_EXT_TYPE) == OPCODE_REL8)
 			section_emit_pad(1);
 		else
@@ -444,6 +448,8 @@ void instr_address(struct opcode const *op, struct node const *args, int imm8_va
 		attr = arg->attr;
 		addr = arg->data.as_int & 0xffff;
 		node_free(arg);
+	} else if (node_type_of(arga[0]) != node_type_undef) {
+		error(error_type_syntax, "invalid addressing mode");
 	}
 
 	if ((op->type & OPCODE_DIRECT)) {
-- 
2.43.0


From 3ecc8690d1c6e4d73690d6617931086be1f9f04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:11 +0000
Subject: [PATCH 25/63] fix: 6309 bit and immediate-to-memory operands of the
 wrong kind were ignored

---
 src/instr.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/instr.c b/src/instr.c
index aa52199..1ffdd1e 100644
--- a/src/instr.c
+++ b/src/instr.c
@@ -488,8 +488,13 @@ void instr_imm8_mem(struct opcode const *op, struct node const *args) {
 		return;
 	}
 	int imm8_val = 0;
-	if (node_type_of(arga[0]) == node_type_int)
-		imm8_val = arga[0]->data.as_int;
+	struct node *tmp = eval_int(arga[0]);
+	if (tmp) {
+		imm8_val = tmp->data.as_int;
+		node_free(tmp);
+	} else if (node_type_of(arga[0]) != node_type_undef) {
+		error(error_type_syntax, "invalid immediate value");
+	}
 	struct node *newa = node_new_array();
 	newa->data.as_array.nargs = nargs - 1;
 	newa->data.as_array.args = arga + 1;
@@ -681,6 +686,12 @@ void instr_reg_mem(struct opcode const *op, struct node const *args) {
 		goto invalid_register;
 	}
 
+	for (int i = 1; i < 4; i++) {
+		if (node_type_of(arga[i]) != node_type_int && node_type_of(arga[i]) != node_type_undef) {
+			error(error_type_syntax, "invalid argument in register-memory operation");
+			return;
+		}
+	}
 	if (node_type_of(arga[1]) == node_type_int) {
 		if (arga[1]->data.as_int < 0 || arga[1]->data.as_int > 7) {
 			error(error_type_out_of_range, "bad source bit");
-- 
2.43.0


From 916a3f5f8416f075b22563added5b47deea1892c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:12 +0000
Subject: [PATCH 26/63] fix: characters above 127 corrupted the integer value
 of a string

---
 src/eval.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eval.c b/src/eval.c
index 6bdaecd..23e2f22 100644
--- a/src/eval.c
+++ b/src/eval.c
@@ -206,7 +206,7 @@ struct node *eval_int(struct node *n) {
 		{
 			uint32_t value = 0;
 			for (const char *s = n->data.as_string; *s; s++)
-				value = (value << 8) | *s;
+				value = (value << 8) | (unsigned char)*s;
 			return node_set_attr(node_new_int(value), n->attr);
 		}
 	default:
-- 
2.43.0


From 8f8fb52ef20de2aa09fc2351c03ea46aec0f9b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:13 +0000
Subject: [PATCH 27/63] fix: pseudo-ops did not accept a string in place of an
 integer

---
 src/assemble.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/assemble.c b/src/assemble.c
index 284b300..5af9e81 100644
--- a/src/assemble.c
+++ b/src/assemble.c
@@ -267,6 +267,13 @@ static int64_t have_int_optional(struct node *args, int aindex, const char *op,
 	case node_type_float:
 		in = arga[aindex]->data.as_float;
 		break;
+	case node_type_string:
+		{
+			struct node *n = eval_int(arga[aindex]);
+			in = n->data.as_int;
+			node_free(n);
+		}
+		break;
 	}
 	return in;
 }
-- 
2.43.0


From 397834a46f3c023f0115408b3171202383e68884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:14 +0000
Subject: [PATCH 28/63] fix: operators other than comparisons silently gave no
 value for two strings

---
 src/eval.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/eval.c b/src/eval.c
index 23e2f22..f92ccc7 100644
--- a/src/eval.c
+++ b/src/eval.c
@@ -353,6 +353,26 @@ static struct node *eval_node_oper_2(struct node *n) {
 
 	_Bool string_op = (leftn->type == node_type_string && rightn->type == node_type_string);
 
+	if (string_op) {
+		/* Only comparisons are performed on strings.  Convert them to
+		 * integers for anything else. */
+		switch (n->data.as_oper.oper) {
+		case '<': case LE: case '>': case GE: case EQ: case NE:
+			break;
+		default:
+			{
+				struct node *newl = eval_int(leftn);
+				struct node *newr = eval_int(rightn);
+				node_free(leftn);
+				node_free(rightn);
+				leftn = newl;
+				rightn = newr;
+				string_op = 0;
+			}
+			break;
+		}
+	}
+
 	if (string_op) {
 		/* Certain operations can be performed on strings */
 		switch (n->data.as_oper.oper) {
-- 
2.43.0


From aa112b9c182ae7d9359a23b60400e744bfc757a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:43 +0000
Subject: [PATCH 29/63] fix: a string as condition of ?: silently gave no value

---
 src/eval.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eval.c b/src/eval.c
index f92ccc7..23eee28 100644
--- a/src/eval.c
+++ b/src/eval.c
@@ -253,8 +253,9 @@ struct node *eval_int_free(struct node *n) {
 	}
 	if (n->type == node_type_int)
 		return n;
+	struct node *ret = eval_int(n);
 	node_free(n);
-	return NULL;
+	return ret;
 }
 
 // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
-- 
2.43.0


From e80a1a16b605be0843d8b7d3975915a2825336c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:44 +0000
Subject: [PATCH 30/63] fix: registers as operands in an expression silently
 gave no value

---
 src/eval.c | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/eval.c b/src/eval.c
index 23eee28..76bdb10 100644
--- a/src/eval.c
+++ b/src/eval.c
@@ -260,6 +260,13 @@ struct node *eval_int_free(struct node *n) {
 
 // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
 
+/* Registers, for example, cannot be used as operands. */
+
+static struct node *invalid_operand(void) {
+	error(error_type_syntax, "invalid operand in expression");
+	return NULL;
+}
+
 static struct node *eval_node_oper_1(struct node *n) {
 	struct node *ret = NULL;
 	struct node *arg;
@@ -267,6 +274,12 @@ static struct node *eval_node_oper_1(struct node *n) {
 	if (!(arg = eval_node(n->data.as_oper.args[0])))
 		return NULL;
 
+	if (node_type_of(arg) != node_type_int && node_type_of(arg) != node_type_float &&
+	    node_type_of(arg) != node_type_string) {
+		node_free(arg);
+		return invalid_operand();
+	}
+
 	/* All these operations only act on numbers, so convert any strings */
 
 	if (node_type_of(arg) == node_type_string) {
@@ -453,11 +466,11 @@ static struct node *eval_node_oper_2(struct node *n) {
 
 		if (!(leftn = eval_float_free(leftn))) {
 			node_free(rightn);
-			return NULL;
+			return invalid_operand();
 		}
 		if (!(rightn = eval_float_free(rightn))) {
 			node_free(leftn);
-			return NULL;
+			return invalid_operand();
 		}
 
 		switch (n->data.as_oper.oper) {
@@ -511,11 +524,11 @@ static struct node *eval_node_oper_2(struct node *n) {
 
 		if (!(leftn = eval_int_free(leftn))) {
 			node_free(rightn);
-			return NULL;
+			return invalid_operand();
 		}
 		if (!(rightn = eval_int_free(rightn))) {
 			node_free(leftn);
-			return NULL;
+			return invalid_operand();
 		}
 
 		if ((n->data.as_oper.oper == SHL || n->data.as_oper.oper == SHR) &&
@@ -593,7 +606,7 @@ static struct node *eval_node_oper_3(struct node *n) {
 		return NULL;
 
 	if (!(condn = eval_int_free(condn)))
-		return NULL;
+		return invalid_operand();
 
 	if (condn->data.as_int != 0) {
 		ret = eval_node(n->data.as_oper.args[1]);
-- 
2.43.0


From d178fb33c157049a63318c28da431e3b58d1076f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:45 +0000
Subject: [PATCH 31/63] fix: relative operands far outside the address space
 took minutes to assemble

---
 src/instr.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/instr.c b/src/instr.c
index 1ffdd1e..297c6f7 100644
--- a/src/instr.c
+++ b/src/instr.c
@@ -81,11 +81,8 @@ void instr_immediate(struct opcode const *op, struct node const *args) {
  * to be range tested. */
 
 static int to_rel16(int64_t i) {
-	while (i < -32768)
-		i += 65536;
-	while (i > 32767)
-		i -= 65536;
-	return i;
+	i &= 0xffff;
+	return (i > 32767) ? i - 65536 : i;
 }
 
 void instr_rel(struct opcode const *op, struct node const *args) {
-- 
2.43.0


From dcba8ad4e431db7355982858b6e727b86360622e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:45 +0000
Subject: [PATCH 32/63] fix: listing left out data bytes located elsewhere with
 PUT

---
 src/assemble.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/assemble.c b/src/assemble.c
index 5af9e81..ab023ca 100644
--- a/src/assemble.c
+++ b/src/assemble.c
@@ -499,7 +499,7 @@ void assemble_prog(struct prog *prog, unsigned pass) {
 			int old_pc = cur_section->pc;
 			op_handler(&n_line);
 			int nbytes = cur_section->pc - old_pc;
-			if (cur_section->span && cur_section->pc == (int)(cur_section->span->put + cur_section->span->size))
+			if (cur_section->span && cur_section->pc == (int)(cur_section->span->org + cur_section->span->size))
 				listing_add_line(old_pc & 0xffff, nbytes, cur_section->span, l->text);
 			else
 				listing_add_line(old_pc & 0xffff, nbytes, NULL, l->text);
-- 
2.43.0


From 5f61d58d10a7fac17b913a8c2090a44353903ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:47 +0000
Subject: [PATCH 33/63] fix: source too deeply nested for the parser was
 silently cut short

---
 src/grammar.y | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/grammar.y b/src/grammar.y
index c967eb4..e95d9c5 100644
--- a/src/grammar.y
+++ b/src/grammar.y
@@ -207,7 +207,8 @@ struct prog *grammar_parse_file(const char *filename) {
 	}
 	struct prog *prog = prog_new(prog_type_file, filename);
 	cur_ctx = prog_ctx_new(prog);
-	yyparse();
+	if (yyparse() != 0)
+		error(error_type_fatal, "parser failed");
 	prog_ctx_free(cur_ctx);
 	cur_ctx = NULL;
 	if (yyin)
-- 
2.43.0


From 6b5fa982a3620bdb2fa4ef3acf9b18b26027f63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:48 +0000
Subject: [PATCH 34/63] fix: RZB, FILL and ALIGN with a huge count exhausted
 memory

---
 src/assemble.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/assemble.c b/src/assemble.c
index ab023ca..4e4aba2 100644
--- a/src/assemble.c
+++ b/src/assemble.c
@@ -905,6 +905,10 @@ static void pseudo_rzb(struct prog_line *line) {
 	if (count < 0) {
 		error(error_type_out_of_range, "negative count for RZB");
 	}
+	if (count > 0x10000) {
+		error(error_type_out_of_range, "count for RZB too large");
+		return;
+	}
 	for (long i = 0; i < count; i++)
 		section_emit_uint8(fill);
 }
@@ -919,6 +923,10 @@ static void pseudo_fill(struct prog_line *line) {
 	if (count < 0) {
 		error(error_type_out_of_range, "negative count for FILL");
 	}
+	if (count > 0x10000) {
+		error(error_type_out_of_range, "count for FILL too large");
+		return;
+	}
 	for (long i = 0; i < count; i++)
 		section_emit_uint8(fill);
 }
@@ -953,6 +961,10 @@ static void pseudo_align(struct prog_line *line) {
 		return;
 	}
 	long count = (align - (cur_section->pc % align)) % align;
+	if (count > 0x10000) {
+		error(error_type_out_of_range, "invalid argument to ALIGN");
+		return;
+	}
 	if (nargs < 2) {
 		section_skip(count);
 	} else {
-- 
2.43.0


From 61cfb66132e89bd90948c870932be7f799d38deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:11 +0000
Subject: [PATCH 35/63] fix: listing could show earlier data on a line that
 only reserves memory

---
 src/assemble.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/assemble.c b/src/assemble.c
index 4e4aba2..8d745a3 100644
--- a/src/assemble.c
+++ b/src/assemble.c
@@ -497,9 +497,11 @@ void assemble_prog(struct prog *prog, unsigned pass) {
 		op_handler = dict_lookup(pseudo_data_dict, n_line.opcode->data.as_string);
 		if (op_handler) {
 			int old_pc = cur_section->pc;
+			struct section_span *old_span = cur_section->span;
+			unsigned old_size = old_span ? old_span->size : 0;
 			op_handler(&n_line);
 			int nbytes = cur_section->pc - old_pc;
-			if (cur_section->span && cur_section->pc == (int)(cur_section->span->org + cur_section->span->size))
+			if (cur_section->span && (cur_section->span != old_span || cur_section->span->size != old_size))
 				listing_add_line(old_pc & 0xffff, nbytes, cur_section->span, l->text);
 			else
 				listing_add_line(old_pc & 0xffff, nbytes, NULL, l->text);
-- 
2.43.0


From 949e1bce96ec3d8850c719083f5c869937d60e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:28 +0000
Subject: [PATCH 36/63] fix: positional variables in the instruction field were
 rejected while parsing

---
 src/grammar.y | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/grammar.y b/src/grammar.y
index e95d9c5..ae20c38 100644
--- a/src/grammar.y
+++ b/src/grammar.y
@@ -218,12 +218,15 @@ struct prog *grammar_parse_file(const char *filename) {
 }
 
 static void check_end_opcode(struct prog_line *line) {
-	struct node *n = eval_string(line->opcode);
-	if (n) {
+	if (!line->opcode)
+		return;
+	/* Positional variables have no value while parsing */
+	struct slist *parts = line->opcode->data.as_list;
+	struct node *n = parts->data;
+	if (!parts->next && n->type == node_type_string) {
 		if (0 == c_strcasecmp("end", n->data.as_string)) {
 			fclose(yyin);
 			yyin = NULL;
 		}
-		node_free(n);
 	}
 }
-- 
2.43.0


From f4c84e6d102d9813ae328000b4c3d147dd7424e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:28 +0000
Subject: [PATCH 37/63] fix: lines with an unusable value pasted into a name
 were silently dropped

---
 src/eval.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/eval.c b/src/eval.c
index 76bdb10..8880c3e 100644
--- a/src/eval.c
+++ b/src/eval.c
@@ -162,6 +162,7 @@ struct node *eval_string(struct node *n) {
 			break;
 		case node_type_reg:
 			if (tmp->attr != node_attr_none) {
+				error(error_type_syntax, "invalid value in name or string");
 				node_free(tmp);
 				node_free(out);
 				return NULL;
@@ -169,6 +170,7 @@ struct node *eval_string(struct node *n) {
 			addtext = xstrdup(reg_id_to_name(tmp->data.as_reg));
 			break;
 		default:
+			error(error_type_syntax, "invalid value in name or string");
 			node_free(tmp);
 			node_free(out);
 			return NULL;
-- 
2.43.0


From e5943f5e042c7967f14aac87c87239325de676fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:50 +0000
Subject: [PATCH 38/63] fix: positional variables in the instruction field were
 rejected in macro definitions

---
 src/assemble.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/assemble.c b/src/assemble.c
index 8d745a3..b899db8 100644
--- a/src/assemble.c
+++ b/src/assemble.c
@@ -199,6 +199,16 @@ void assemble_free_all(void) {
 
 // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
 
+static _Bool node_has_interp(struct node *n) {
+	if (node_type_of(n) != node_type_id)
+		return 0;
+	for (struct slist *l = n->data.as_list; l; l = l->next) {
+		if (node_type_of(l->data) == node_type_interp)
+			return 1;
+	}
+	return 0;
+}
+
 static enum node_attr arg_attr(struct node *args, int index) {
 	if (!args)
 		return node_attr_undef;
@@ -329,7 +339,11 @@ void assemble_prog(struct prog *prog, unsigned pass) {
 		}
 
 		n_line.label = NULL;
-		n_line.opcode = eval_string(l->opcode);
+		/* Positional variables have no value within a definition, and
+		 * neither MACRO nor ENDM contain any. */
+		n_line.opcode = NULL;
+		if (defining_macro_level == 0 || !node_has_interp(l->opcode))
+			n_line.opcode = eval_string(l->opcode);
 		n_line.args = NULL;
 		n_line.text = l->text;
 
-- 
2.43.0


From 6215c9eb4c146d6fb0b7739e87c945d7b1b1bdee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:16 +0000
Subject: [PATCH 39/63] fix: 65536 bytes of data were recorded as length zero
 in DragonDOS and CoCo files

---
 src/output.c | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/output.c b/src/output.c
index e30877b..5788dd6 100644
--- a/src/output.c
+++ b/src/output.c
@@ -99,6 +99,8 @@ void output_dragondos(const char *filename) {
 	}
 	if (exec_addr < 0)
 		exec_addr = put & 0xffff;
+	if (size > 0xffff)
+		error(error_type_data, "too much data for DragonDOS format");
 
 	fputc(0x55, f);
 	fputc(0x02, f);
@@ -137,14 +139,21 @@ void output_coco(const char *filename) {
 		struct section_span *span = l->data;
 		unsigned put = span->put;
 		unsigned size = span->size;
+		unsigned base = 0;
 		if (exec_addr < 0)
 			exec_addr = put & 0xffff;
-		fputc(0x00, f);
-		fputc((size >> 8) & 0xff, f);
-		fputc(size & 0xff, f);
-		fputc((put >> 8) & 0xff, f);
-		fputc(put & 0xff, f);
-		fwrite(span->data, 1, size, f);
+		while (size > 0) {
+			unsigned nbytes = (size > 0xffff) ? 0xffff : size;
+			fputc(0x00, f);
+			fputc((nbytes >> 8) & 0xff, f);
+			fputc(nbytes & 0xff, f);
+			fputc((put >> 8) & 0xff, f);
+			fputc(put & 0xff, f);
+			fwrite(span->data + base, 1, nbytes, f);
+			put += nbytes;
+			base += nbytes;
+			size -= nbytes;
+		}
 	}
 
 	fputc(0xff, f);
-- 
2.43.0


From 9a7c5f13feed0d8518ed874563db846302f8a3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:03 +0000
Subject: [PATCH 40/63] fix: branches accepted an immediate operand as their
 target

---
 src/instr.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/instr.c b/src/instr.c
index 297c6f7..0a87db7 100644
--- a/src/instr.c
+++ b/src/instr.c
@@ -92,6 +92,10 @@ void instr_rel(struct opcode const *op, struct node const *args) {
 		error(error_type_syntax, "invalid number of arguments");
 		return;
 	}
+	if (node_attr_of(arga[0]) == node_attr_immediate) {
+		error(error_type_syntax, "invalid branch target");
+		return;
+	}
 	section_emit_op(op->immediate);
 	if (node_type_of(arga[0]) != node_type_int) {
 		if (node_type_of(arga[0]) != node_type_undef)
-- 
2.43.0


From c7573da13a8d1164e61ff80790059f95aaf2744e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:10 +0000
Subject: [PATCH 41/63] fix: inter-register operands with no value left
 variables uninitialised

---
 src/instr.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/instr.c b/src/instr.c
index 0a87db7..6859f7e 100644
--- a/src/instr.c
+++ b/src/instr.c
@@ -548,9 +548,9 @@ void instr_pair(struct opcode const *op, struct node const *args) {
 		return;
 	}
 
-	int nibble[2];
+	int nibble[2] = { 0, 0 };
 	int type[2];
-	int size[2];
+	int size[2] = { 16 | 8, 16 | 8 };
 	for (int i = 0; i < 2; i++) {
 		type[i] = node_type_of(arga[i]);
 		if (type[i] == node_type_reg) {
@@ -601,7 +601,7 @@ void instr_tfm(struct opcode const *op, struct node const *args) {
 		return;
 	}
 
-	int nibble[2];
+	int nibble[2] = { 0, 0 };
 	int type[2];
 	int attr[2];
 	for (int i = 0; i < 2; i++) {
-- 
2.43.0


From c0d4ec395dea9c041880f58db1bf3b66f4b34fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:06 +0000
Subject: [PATCH 42/63] fix: malformed operands were dropped silently as if
 they were a comment

---
 src/grammar.y | 23 +++++++++++++++++++++--
 src/lex.l     | 33 +++++++++++++++++++++++++++++++++
 2 files changed, 54 insertions(+), 2 deletions(-)

diff --git a/src/grammar.y b/src/grammar.y
index ae20c38..9c2f13d 100644
--- a/src/grammar.y
+++ b/src/grammar.y
@@ -30,6 +30,7 @@ static void yyerror(const char *);
 void yylex_destroy(void);
 int yylex(void);
 char *lex_fetch_line(void);
+_Bool lex_comment_start(void);
 void lex_free_all(void);
 
 extern FILE *yyin;
@@ -38,6 +39,9 @@ static struct prog_ctx *cur_ctx = NULL;
 struct prog *grammar_parse_file(const char *filename);
 
 static void check_end_opcode(struct prog_line *line);
+static void check_comment(void);
+
+static _Bool error_in_comment = 0;
 %}
 
 %union {
@@ -95,9 +99,9 @@ program	:
 	;
 
 line	: label WS id WS arglist '\n'	{ $$ = prog_line_new($1, $3, $5); }
-	| label WS id WS arglist error '\n'	{ $$ = prog_line_new($1, $3, $5); }
+	| label WS id WS arglist error '\n'	{ $$ = prog_line_new($1, $3, $5); check_comment(); yyerrok; }
 	| label WS id '\n'		{ $$ = prog_line_new($1, $3, NULL); }
-	| label WS id error '\n'	{ $$ = prog_line_new($1, $3, NULL); }
+	| label WS id error '\n'	{ $$ = prog_line_new($1, $3, NULL); check_comment(); yyerrok; }
 	| label '\n'			{ $$ = prog_line_new($1, NULL, NULL); }
 	;
 
@@ -197,6 +201,21 @@ static void raise_error(void) {
 
 static void yyerror(const char *s) {
 	(void)s;
+	error_in_comment = lex_comment_start();
+}
+
+/*
+ * Anything following the operands is only a comment if separated from them by
+ * whitespace, and if the operands were complete.
+ */
+
+static void check_comment(void) {
+	if (!error_in_comment) {
+		// line number is only updated when line is added
+		cur_ctx->line_number++;
+		error(error_type_syntax, "");
+		cur_ctx->line_number--;
+	}
 }
 
 struct prog *grammar_parse_file(const char *filename) {
diff --git a/src/lex.l b/src/lex.l
index 3bddbf3..faf5b86 100644
--- a/src/lex.l
+++ b/src/lex.l
@@ -30,11 +30,24 @@ static int id_or_reg(void);
 static int read_line(char *buf, int max_size);
 
 char *lex_fetch_line(void);
+_Bool lex_comment_start(void);
 void lex_free_all(void);
 
 #define YY_INPUT(buf,result,max_size) \
 	{ result = read_line(buf, max_size); }
 
+/* Note what surrounds each token, to tell a comment following the operands
+ * from a mistake within them. */
+
+static _Bool seen_ws = 0;
+static _Bool token_after_ws = 0;
+static char last_char = 0;
+static char prev_char = 0;
+
+#define YY_USER_ACTION note_token();
+
+static void note_token(void);
+
 %}
 
 %option noyywrap
@@ -211,6 +224,26 @@ ${hexdigit}+	{ BEGIN(argnostr); yylval.as_int = strtoimax(yytext+1, NULL, 16); r
 
 %%
 
+static void note_token(void) {
+	if (yytext[strspn(yytext, " \t")] == 0) {
+		seen_ws = 1;
+		return;
+	}
+	token_after_ws = seen_ws;
+	seen_ws = 0;
+	prev_char = last_char;
+	last_char = yytext[yyleng-1];
+}
+
+/*
+ * A comment may follow operands, separated from them by whitespace.  True if
+ * the last token returned could start one.
+ */
+
+_Bool lex_comment_start(void) {
+	return token_after_ws && last_char != '\n' && prev_char && !strchr(",([#~", prev_char);
+}
+
 static int id_or_reg(void) {
 	enum reg_id r = reg_name_to_id(yytext);
 	if (r != REG_INVALID) {
-- 
2.43.0


From 3558c0bc65b941cbf9bd64b625d62a085f605910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:59 +0000
Subject: [PATCH 43/63] fix: modulo by a number starting with 0 or 1 was taken
 as a binary literal

---
 src/lex.l | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lex.l b/src/lex.l
index faf5b86..72f41ae 100644
--- a/src/lex.l
+++ b/src/lex.l
@@ -119,6 +119,9 @@ ${hexdigit}+	{ yylval.as_int = strtoimax(yytext+1, NULL, 16); return INTEGER; }
 
 <arg>{
 
+	/* following an operand, "%" is the modulo operator */
+\%{bindigit}+	{ BEGIN(argnostr); yylval.as_int = strtoimax(yytext+1, NULL, 2); return INTEGER; }
+
 [/"]		{
 			delim = *yytext;
 			BEGIN(string);
@@ -157,7 +160,6 @@ ${hexdigit}+	{ yylval.as_int = strtoimax(yytext+1, NULL, 16); return INTEGER; }
 {decimal}[bB]	{ BEGIN(argnostr); yylval.as_int = strtoimax(yytext, NULL, 10); return BACKREF; }
 {decimal}[fF]	{ BEGIN(argnostr); yylval.as_int = strtoimax(yytext, NULL, 10); return FWDREF; }
 
-\%{bindigit}+	{ BEGIN(argnostr); yylval.as_int = strtoimax(yytext+1, NULL, 2); return INTEGER; }
 0b{bindigit}+	{ BEGIN(argnostr); yylval.as_int = strtoimax(yytext+2, NULL, 2); return INTEGER; }
 @{octdigit}+	{ BEGIN(argnostr); yylval.as_int = strtoimax(yytext+1, NULL, 8); return INTEGER; }
 0{octdigit}+	{ BEGIN(argnostr); yylval.as_int = strtoimax(yytext, NULL, 8); return INTEGER; }
-- 
2.43.0


From f7b46cd4690476f2af74df72d116a027e256bad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:54 +0000
Subject: [PATCH 44/63] fix: a comment in place of the first operand is not an
 empty operand

---
 src/grammar.y | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/grammar.y b/src/grammar.y
index 9c2f13d..7cb3c84 100644
--- a/src/grammar.y
+++ b/src/grammar.y
@@ -40,6 +40,7 @@ struct prog *grammar_parse_file(const char *filename);
 
 static void check_end_opcode(struct prog_line *line);
 static void check_comment(void);
+static struct node *comment_args(struct node *args);
 
 static _Bool error_in_comment = 0;
 %}
@@ -99,7 +100,7 @@ program	:
 	;
 
 line	: label WS id WS arglist '\n'	{ $$ = prog_line_new($1, $3, $5); }
-	| label WS id WS arglist error '\n'	{ $$ = prog_line_new($1, $3, $5); check_comment(); yyerrok; }
+	| label WS id WS arglist error '\n'	{ $$ = prog_line_new($1, $3, comment_args($5)); check_comment(); yyerrok; }
 	| label WS id '\n'		{ $$ = prog_line_new($1, $3, NULL); }
 	| label WS id error '\n'	{ $$ = prog_line_new($1, $3, NULL); check_comment(); yyerrok; }
 	| label '\n'			{ $$ = prog_line_new($1, NULL, NULL); }
@@ -218,6 +219,20 @@ static void check_comment(void) {
 	}
 }
 
+/*
+ * If a comment starts where the first operand would be, there are no operands
+ * (rather than one empty operand).
+ */
+
+static struct node *comment_args(struct node *args) {
+	if (args->data.as_array.nargs == 1 &&
+	    args->data.as_array.args[0]->type == node_type_empty) {
+		node_free(args);
+		return NULL;
+	}
+	return args;
+}
+
 struct prog *grammar_parse_file(const char *filename) {
 	yyin = fopen(filename, "r");
 	if (!yyin) {
-- 
2.43.0


From 8a7954b28ff52bbbd8ca8652bfb578a95a8aba9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:38 +0000
Subject: [PATCH 45/63] fix: FCB truncates large floating-point values like
 integers

---
 src/assemble.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/assemble.c b/src/assemble.c
index b899db8..faad22c 100644
--- a/src/assemble.c
+++ b/src/assemble.c
@@ -799,7 +799,7 @@ static void emit_formatted(char const *ins, int argn, struct node *n,
 		section_emit_uint8(n->data.as_int | or_last);
 		break;
 	case node_type_float:
-		section_emit_uint8((int32_t)n->data.as_float | or_last);
+		section_emit_uint8((int64_t)n->data.as_float | or_last);
 		break;
 	case node_type_string:
 		for (char const *c = n->data.as_string; *c; c++) {
-- 
2.43.0


From ce0b377956ccc764f6abb748a90d2a5fda16eebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:09 +0000
Subject: [PATCH 46/63] fix: don't evaluate positional variables in skipped
 lines' instruction field

---
 src/assemble.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/assemble.c b/src/assemble.c
index faad22c..014b704 100644
--- a/src/assemble.c
+++ b/src/assemble.c
@@ -340,9 +340,11 @@ void assemble_prog(struct prog *prog, unsigned pass) {
 
 		n_line.label = NULL;
 		/* Positional variables have no value within a definition, and
-		 * neither MACRO nor ENDM contain any. */
+		 * need not have one in skipped lines.  No keyword that matters
+		 * there contains any. */
 		n_line.opcode = NULL;
-		if (defining_macro_level == 0 || !node_has_interp(l->opcode))
+		if ((defining_macro_level == 0 && !cond_excluded) ||
+		    !node_has_interp(l->opcode))
 			n_line.opcode = eval_string(l->opcode);
 		n_line.args = NULL;
 		n_line.text = l->text;
-- 
2.43.0


From 9d56aa38fb435fa84e954a73d9da5d62aaf0d3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:45 +0000
Subject: [PATCH 47/63] fix: a second ELSE or ELSIF after ELSE was accepted if
 an ELSIF had skipped to it

---
 src/assemble.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/assemble.c b/src/assemble.c
index 014b704..f727321 100644
--- a/src/assemble.c
+++ b/src/assemble.c
@@ -443,9 +443,9 @@ void assemble_prog(struct prog *prog, unsigned pass) {
 				error(error_type_syntax, "repeated ELSE");
 			} else if (cond_excluded == cond_list) {
 				if ((intptr_t)cond_list->data != cond_state_if_done) {
-					cond_list->data = (void *)cond_state_else;
 					cond_excluded = NULL;
 				}
+				cond_list->data = (void *)cond_state_else;
 			} else if (!cond_excluded) {
 				cond_list->data = (void *)cond_state_else;
 				cond_excluded = cond_list;
-- 
2.43.0


From 42992c458de9fc10dc7e852bcc546ce0e046d05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:03 +0000
Subject: [PATCH 48/63] fix: out of range values in an unfinished pass were
 fatal if they followed the inconsistency

---
 src/error.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/error.c b/src/error.c
index 3d7e764..71797d1 100644
--- a/src/error.c
+++ b/src/error.c
@@ -44,7 +44,10 @@ static struct slist **error_list_next = &error_list;
 
 static void verror(enum error_type type, const char *fmt, va_list ap) {
 	struct error *err = NULL;
-	if (type > error_level) {
+	/* out of range is not fatal if an inconsistency was found, whichever
+	 * was found first */
+	if (type > error_level &&
+	    !(type == error_type_out_of_range && error_level == error_type_inconsistent)) {
 		error_level = type;
 	}
 	if (type == error_type_inconsistent &&
-- 
2.43.0


From 49a406a3ecf381e25508c8f31b41b22402b6c44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:04 +0000
Subject: [PATCH 49/63] fix: local label numbers with leading zeros were taken
 as octal

---
 src/lex.l | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/lex.l b/src/lex.l
index 72f41ae..9e30d86 100644
--- a/src/lex.l
+++ b/src/lex.l
@@ -78,7 +78,6 @@ rword	[A-Za-z0-9_\.]+
 \%{bindigit}+	{ yylval.as_int = strtoimax(yytext+1, NULL, 2); return INTEGER; }
 0b{bindigit}+	{ yylval.as_int = strtoimax(yytext+2, NULL, 2); return INTEGER; }
 @{octdigit}+	{ yylval.as_int = strtoimax(yytext+1, NULL, 8); return INTEGER; }
-0{octdigit}+	{ yylval.as_int = strtoimax(yytext, NULL, 8); return INTEGER; }
 {decimal}	{ yylval.as_int = strtoimax(yytext, NULL, 10); return INTEGER; }
 ${hexdigit}+	{ yylval.as_int = strtoimax(yytext+1, NULL, 16); return INTEGER; }
 0x{hexdigit}+	{ yylval.as_int = strtoimax(yytext+2, NULL, 16); return INTEGER; }
-- 
2.43.0


From 00a0b43335e8989828d1a350f294017117f1c1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:02 +0000
Subject: [PATCH 50/63] fix: a read error in a file given to INCLUDEBIN was not
 reported

---
 src/assemble.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/assemble.c b/src/assemble.c
index f727321..f6c2ebd 100644
--- a/src/assemble.c
+++ b/src/assemble.c
@@ -1033,6 +1033,9 @@ static void pseudo_includebin(struct prog_line *line) {
 	while ((c = fgetc(f)) != EOF) {
 		section_emit_uint8(c);
 	}
+	if (ferror(f)) {
+		error(error_type_fatal, "%s: read failed", arga[0]->data.as_string);
+	}
 	fclose(f);
 }
 
-- 
2.43.0


From cfdc1dd7dd4c5e813019ff26d19258170fe73370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:54 +0000
Subject: [PATCH 51/63] fix: arguments to EXPORT that are not names were
 ignored

---
 src/assemble.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/assemble.c b/src/assemble.c
index f6c2ebd..fe748c6 100644
--- a/src/assemble.c
+++ b/src/assemble.c
@@ -761,6 +761,8 @@ static void pseudo_export(struct prog_line *line) {
 		if (n) {
 			prog_export(n->data.as_string);
 			node_free(n);
+		} else {
+			error(error_type_syntax, "invalid argument to EXPORT");
 		}
 	}
 }
-- 
2.43.0


From c4933b82e625f3d00687943a84da2f9fd2289835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:55 +0000
Subject: [PATCH 52/63] fix: EQU and SET without a label were accepted

---
 src/assemble.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/assemble.c b/src/assemble.c
index fe748c6..7ffee43 100644
--- a/src/assemble.c
+++ b/src/assemble.c
@@ -638,6 +638,10 @@ static void set_label(struct node *label, struct node *value, _Bool changeable)
 static void pseudo_equ(struct prog_line *line) {
 	if (verify_num_args(line->args, 1, 1, "EQU") < 0)
 		return;
+	if (!line->label) {
+		error(error_type_syntax, "EQU without a label");
+		return;
+	}
 	struct node **arga = node_array_of(line->args);
 	set_label(line->label, node_ref(arga[0]), 0);
 	struct node *n = eval_int(arga[0]);
@@ -654,6 +658,10 @@ static void pseudo_equ(struct prog_line *line) {
 static void pseudo_set(struct prog_line *line) {
 	if (verify_num_args(line->args, 1, 1, "SET") < 0)
 		return;
+	if (!line->label) {
+		error(error_type_syntax, "SET without a label");
+		return;
+	}
 	struct node **arga = node_array_of(line->args);
 	set_label(line->label, node_ref(arga[0]), 1);
 	struct node *n = eval_int(arga[0]);
-- 
2.43.0


From 5b6fc391dbd3d84970276f5ca9858e08b5c697c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:01 +0000
Subject: [PATCH 53/63] fix: export the least integer such that it reads back

---
 src/node.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/node.c b/src/node.c
index 2412302..1663d0b 100644
--- a/src/node.c
+++ b/src/node.c
@@ -359,7 +359,11 @@ void node_print(FILE *f, struct node const *n) {
 	case node_type_empty:
 		break;
 	case node_type_int:
-		fprintf(f, "%"PRId64, n->data.as_int);
+		if (n->data.as_int == INT64_MIN)
+			// its magnitude does not fit an integer
+			fprintf(f, "(%"PRId64"-1)", INT64_MIN + 1);
+		else
+			fprintf(f, "%"PRId64, n->data.as_int);
 		break;
 	case node_type_float:
 		fprintf(f, "%.17f", n->data.as_float);
-- 
2.43.0


From d9f91835ae27e48167b7123f4550cf7e2d2db34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:52 +0000
Subject: [PATCH 54/63] fix: setting an attribute leaves other references to
 the node alone

---
 src/node.c | 40 ++++++++++++++++++++++++++++++++--------
 src/node.h |  4 ++--
 2 files changed, 34 insertions(+), 10 deletions(-)

diff --git a/src/node.c b/src/node.c
index 1663d0b..7dff207 100644
--- a/src/node.c
+++ b/src/node.c
@@ -110,9 +110,36 @@ struct node **node_array_of(struct node const *n) {
 	return n->data.as_array.args;
 }
 
+/* Give up a reference to a node in exchange for one that may be modified: if
+ * others refer to the same base type node, that's a copy. */
+
+static struct node *node_own(struct node *n) {
+	struct node *new;
+	if (n->ref == 1)
+		return n;
+	switch (n->type) {
+	case node_type_int:
+	case node_type_float:
+	case node_type_reg:
+		new = node_new(n->type);
+		new->data = n->data;
+		break;
+	case node_type_string:
+		new = node_new_string(n->data.as_string ? xstrdup(n->data.as_string) : NULL);
+		break;
+	default:
+		return n;
+	}
+	new->attr = n->attr;
+	node_free(n);
+	return new;
+}
+
 struct node *node_set_attr(struct node *n, enum node_attr attr) {
-	if (n)
-		n->attr = attr;
+	if (!n || n->attr == attr)
+		return n;
+	n = node_own(n);
+	n->attr = attr;
 	return n;
 }
 
@@ -121,10 +148,8 @@ struct node *node_set_attr(struct node *n, enum node_attr attr) {
 struct node *node_set_attr_if(struct node *n, enum node_attr attr) {
 	if (!n)
 		return NULL;
-	if (attr != node_attr_none) {
-		n->attr = attr;
-		return n;
-	}
+	if (attr != node_attr_none)
+		return node_set_attr(n, attr);
 	switch (n->attr) {
 	case node_attr_postinc:
 	case node_attr_postinc2:
@@ -133,8 +158,7 @@ struct node *node_set_attr_if(struct node *n, enum node_attr attr) {
 	case node_attr_postdec:
 		break;
 	default:
-		n->attr = attr;
-		break;
+		return node_set_attr(n, attr);
 	}
 	return n;
 }
diff --git a/src/node.h b/src/node.h
index 7f4a3d5..3109ab9 100644
--- a/src/node.h
+++ b/src/node.h
@@ -145,8 +145,8 @@ static inline enum node_attr node_attr_of(struct node const *n) {
 int node_array_count(struct node const *n);
 struct node **node_array_of(struct node const *n);
 
-/* Overwrite attribute on supplied node and return same node.  No new reference
- * is created. */
+/* Overwrite attribute on supplied node and return it, or a copy if others refer
+ * to the same base type node.  No new reference is created. */
 
 struct node *node_set_attr(struct node *n, enum node_attr attr);
 
-- 
2.43.0


From 253f74a25bca46c09ce28798e2e6f7f631503b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:54 +0000
Subject: [PATCH 55/63] fix: read bytes above 127, NULs and very long lines as
 what they are

---
 src/lex.l | 37 +++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/src/lex.l b/src/lex.l
index 9e30d86..d867ed4 100644
--- a/src/lex.l
+++ b/src/lex.l
@@ -81,8 +81,8 @@ rword	[A-Za-z0-9_\.]+
 {decimal}	{ yylval.as_int = strtoimax(yytext, NULL, 10); return INTEGER; }
 ${hexdigit}+	{ yylval.as_int = strtoimax(yytext+1, NULL, 16); return INTEGER; }
 0x{hexdigit}+	{ yylval.as_int = strtoimax(yytext+2, NULL, 16); return INTEGER; }
-'.'		{ yylval.as_int = *(yytext+1); return INTEGER; }
-'.		{ yylval.as_int = *(yytext+1); return INTEGER; }
+'.'		{ yylval.as_int = (unsigned char)yytext[1]; return INTEGER; }
+'.		{ yylval.as_int = (unsigned char)yytext[1]; return INTEGER; }
 \!		{ yylval.as_int = 0; return INTEGER; }
 
 {word}		{ return id_or_reg(); }
@@ -95,7 +95,7 @@ ${hexdigit}+	{ yylval.as_int = strtoimax(yytext+1, NULL, 16); return INTEGER; }
 {ws}+		{ BEGIN(opcode); return WS; }
 \r		/* skip CR */
 {ws}*\n		{ return '\n'; }
-.		{ return *yytext; }
+.		{ return (unsigned char)*yytext; }
 
 }
 
@@ -112,7 +112,7 @@ ${hexdigit}+	{ yylval.as_int = strtoimax(yytext+1, NULL, 16); return INTEGER; }
 {ws}+		{ BEGIN(arg); return WS; }
 {ws}*\n		{ BEGIN(INITIAL); return '\n'; }
 \r		/* skip CR */
-.		{ BEGIN(INITIAL); return *yytext; }
+.		{ BEGIN(INITIAL); return (unsigned char)*yytext; }
 
 }
 
@@ -165,8 +165,8 @@ ${hexdigit}+	{ yylval.as_int = strtoimax(yytext+1, NULL, 16); return INTEGER; }
 {decimal}	{ BEGIN(argnostr); yylval.as_int = strtoimax(yytext, NULL, 10); return INTEGER; }
 ${hexdigit}+	{ BEGIN(argnostr); yylval.as_int = strtoimax(yytext+1, NULL, 16); return INTEGER; }
 0x{hexdigit}+	{ BEGIN(argnostr); yylval.as_int = strtoimax(yytext+2, NULL, 16); return INTEGER; }
-'.'		{ BEGIN(argnostr); yylval.as_int = *(yytext+1); return INTEGER; }
-'.		{ BEGIN(argnostr); yylval.as_int = *(yytext+1); return INTEGER; }
+'.'		{ BEGIN(argnostr); yylval.as_int = (unsigned char)yytext[1]; return INTEGER; }
+'.		{ BEGIN(argnostr); yylval.as_int = (unsigned char)yytext[1]; return INTEGER; }
 [0-9]*\.[0-9]+	|
 {decimal}\.	{ BEGIN(argnostr); yylval.as_float = strtod(yytext, NULL); return FLOAT; }
 
@@ -189,7 +189,7 @@ ${hexdigit}+	{ BEGIN(argnostr); yylval.as_int = strtoimax(yytext+1, NULL, 16); r
 {ws}+		/* skip whitespace */
 \r		/* skip CR */
 \n		{ BEGIN(INITIAL); return *yytext; }
-.		{ return *yytext; }
+.		{ return (unsigned char)*yytext; }
 
 }
 
@@ -269,14 +269,23 @@ static _Bool need_eol = 1;
 static int read_line(char *buf, int max_size) {
 	if (!yyin)
 		return YY_NULL;
-	char *r = fgets(buf, max_size, yyin);
-	if (!r) {
+	int len = 0;
+	int c = EOF;
+	while (len < max_size && (c = getc(yyin)) != EOF) {
+		if (c == 0) {
+			error(error_type_syntax, "NUL character in source");
+			c = ' ';
+		}
+		buf[len++] = c;
+		if (c == '\n')
+			break;
+	}
+	if (len == 0) {
 		if (!feof(yyin)) {
 			error(error_type_fatal, "scanner read failed");
 		}
 		if (need_eol) {
-			buf[0] = '\n';
-			buf[1] = 0;
+			buf[len++] = '\n';
 		} else {
 			if (line) {
 				free(line);
@@ -287,17 +296,17 @@ static int read_line(char *buf, int max_size) {
 		}
 	}
 
-	int len = strlen(buf);
 	if (len > 1 && buf[len-1] == '\n' && buf[len-2] == '\r') {
 		buf[len-2] = '\n';
 		len--;
 	}
 	line = xrealloc(line, line_length + len + 1);
-	memcpy(line + line_length, buf, len + 1);
+	memcpy(line + line_length, buf, len);
 	line_length = line_length + len;
+	line[line_length] = 0;
 	need_eol = 1;
 
-	if (line_length > 0 && line[line_length-1] == '\n') {
+	if (line[line_length-1] == '\n') {
 		need_eol = 0;
 		line[line_length-1] = 0;
 		lines = slist_append(lines, line);
-- 
2.43.0


From 9ddc64e989b11558d6d75cf7eafb9a165e87ce80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:55 +0000
Subject: [PATCH 56/63] fix: refuse expressions too deep to evaluate
 recursively

---
 src/node.c | 22 ++++++++++++++++------
 src/node.h |  5 +++++
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/node.c b/src/node.c
index 7dff207..dec5c45 100644
--- a/src/node.c
+++ b/src/node.c
@@ -264,28 +264,38 @@ static struct node *node_new_oper_n(int oper, int nargs) {
 	struct node **arga = xmalloc(nargs * sizeof(*arga));
 	n->data.as_oper.oper = oper;
 	n->data.as_oper.nargs = nargs;
+	n->data.as_oper.depth = 1;
 	n->data.as_oper.args = arga;
 	return n;
 }
 
+static void node_oper_set_arg(struct node *n, int i, struct node *arg) {
+	n->data.as_oper.args[i] = arg;
+	if (node_type_of(arg) != node_type_oper || arg->data.as_oper.depth < n->data.as_oper.depth)
+		return;
+	n->data.as_oper.depth = arg->data.as_oper.depth + 1;
+	if (n->data.as_oper.depth > NODE_MAX_DEPTH)
+		error_abort("expression too complex");
+}
+
 struct node *node_new_oper_1(int oper, struct node *a1) {
 	struct node *n = node_new_oper_n(oper, 1);
-	n->data.as_oper.args[0] = a1;
+	node_oper_set_arg(n, 0, a1);
 	return n;
 }
 
 struct node *node_new_oper_2(int oper, struct node *a1, struct node *a2) {
 	struct node *n = node_new_oper_n(oper, 2);
-	n->data.as_oper.args[0] = a1;
-	n->data.as_oper.args[1] = a2;
+	node_oper_set_arg(n, 0, a1);
+	node_oper_set_arg(n, 1, a2);
 	return n;
 }
 
 struct node *node_new_oper_3(int oper, struct node *a1, struct node *a2, struct node *a3) {
 	struct node *n = node_new_oper_n(oper, 3);
-	n->data.as_oper.args[0] = a1;
-	n->data.as_oper.args[1] = a2;
-	n->data.as_oper.args[2] = a3;
+	node_oper_set_arg(n, 0, a1);
+	node_oper_set_arg(n, 1, a2);
+	node_oper_set_arg(n, 2, a3);
 	return n;
 }
 
diff --git a/src/node.h b/src/node.h
index 3109ab9..07b9cae 100644
--- a/src/node.h
+++ b/src/node.h
@@ -85,9 +85,14 @@ enum node_type {
 
 struct node;
 
+/* Operators nest no deeper than this, as trees are walked recursively. */
+
+#define NODE_MAX_DEPTH (10000)
+
 struct node_oper {
 	int oper;
 	int nargs;
+	int depth;
 	struct node **args;
 };
 
-- 
2.43.0


From 896718d996855390dd89305e6d602b25f72ed77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:48 +0000
Subject: [PATCH 57/63] fix: refuse -d with a value that is no number instead
 of leaving the symbol undefined

---
 src/asm6809.c | 38 ++++++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/src/asm6809.c b/src/asm6809.c
index 2ccf0a3..b8ec5c3 100644
--- a/src/asm6809.c
+++ b/src/asm6809.c
@@ -21,6 +21,7 @@ option) any later version.
 #include <stdlib.h>
 #include <string.h>
 
+#include "c-ctype.h"
 #include "xalloc.h"
 
 #include "asm6809.h"
@@ -321,24 +322,31 @@ int main(int argc, char **argv) {
 
 /* Special parsing of arguments.  Integers only for now. */
 static struct node *simple_parse_int(const char *str) {
-	struct node *n = NULL;
+	int base = 10;
 	if (str[0] == '$') {
-		n = node_new_int(strtol(str+1, NULL, 16));
+		base = 16;
+		str++;
 	} else if (str[0] == '@') {
-		n = node_new_int(strtol(str+1, NULL, 8));
+		base = 8;
+		str++;
 	} else if (str[0] == '%') {
-		n = node_new_int(strtol(str+1, NULL, 2));
-	} else if (str[0] == '0') {
-		if (str[1] == 'x')
-			n = node_new_int(strtol(str+2, NULL, 16));
-		else if (str[1] == 'b')
-			n = node_new_int(strtol(str+2, NULL, 2));
-		else
-			n = node_new_int(strtol(str, NULL, 10));
-	} else if (str[0] >= '0' && str[0] <= '9') {
-		n = node_new_int(strtol(str, NULL, 10));
+		base = 2;
+		str++;
+	} else if (str[0] == '0' && str[1] == 'x') {
+		base = 16;
+		str += 2;
+	} else if (str[0] == '0' && str[1] == 'b') {
+		base = 2;
+		str += 2;
 	}
-	return n;
+	/* digits only, no sign, white space or further prefix */
+	if (!c_isxdigit(str[0]) || c_tolower(str[1]) == 'x')
+		return NULL;
+	char *end;
+	long v = strtol(str, &end, base);
+	if (end == str || *end)
+		return NULL;
+	return node_new_int(v);
 }
 
 static void define_symbol(const char *str) {
@@ -348,6 +356,8 @@ static void define_symbol(const char *str) {
 	if (tmp) {
 		*(tmp++) = 0;
 		value = simple_parse_int(tmp);
+		if (!value)
+			error(error_type_fatal, "invalid value for symbol '%s': %s", key, tmp);
 	} else {
 		value = node_new_int(1);
 	}
-- 
2.43.0


From c463488b4a3ec191b962f0fd4972eab708816b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:58 +0000
Subject: [PATCH 58/63] fix: defining a symbol given by -d is an error in any
 pass

---
 src/asm6809.c | 2 +-
 src/symbol.c  | 2 +-
 src/symbol.h  | 4 ++++
 3 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/asm6809.c b/src/asm6809.c
index b8ec5c3..1a82d57 100644
--- a/src/asm6809.c
+++ b/src/asm6809.c
@@ -362,7 +362,7 @@ static void define_symbol(const char *str) {
 		value = node_new_int(1);
 	}
 	// TODO: check that key is a valid symbol name
-	symbol_set(key, value, 0, 0);
+	symbol_set(key, value, 0, SYMBOL_PASS_OPTION);
 	free(key);
 	node_free(value);
 }
diff --git a/src/symbol.c b/src/symbol.c
index e93937e..edd70aa 100644
--- a/src/symbol.c
+++ b/src/symbol.c
@@ -74,7 +74,7 @@ _Bool symbol_force_set(const char *key, struct node *value, _Bool changeable, un
 	if (!symbols)
 		init_table();
 	struct symbol *olds = dict_lookup(symbols, key);
-	if (!changeable && olds && olds->pass == pass) {
+	if (!changeable && olds && (olds->pass == pass || olds->pass == SYMBOL_PASS_OPTION)) {
 		error(error_type_syntax, "symbol '%s' redefined", key);
 		return 0;
 	}
diff --git a/src/symbol.h b/src/symbol.h
index 03705f6..2d643ce 100644
--- a/src/symbol.h
+++ b/src/symbol.h
@@ -26,6 +26,10 @@ struct slist;
 
 extern _Bool symbol_ignore_undefined;
 
+/* Pass number for symbols defined by option: these exist before the first pass,
+ * and defining them in any pass is a redefinition. */
+#define SYMBOL_PASS_OPTION (~0u)
+
 /*
  * Set a symbol in the current symbol table.  The value is evaluated to a
  * simple type before setting.  If the value already existed from a previous
-- 
2.43.0


From 4abc79b03212c5ee9685c88a3fa99be0af2e530e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:42 +0000
Subject: [PATCH 59/63] fix: let INCLUDEBIN take a file name defined later, as
 documented

---
 src/assemble.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/assemble.c b/src/assemble.c
index 7ffee43..3cd1eb5 100644
--- a/src/assemble.c
+++ b/src/assemble.c
@@ -1030,6 +1030,9 @@ static void pseudo_includebin(struct prog_line *line) {
 	if (verify_num_args(line->args, 1, 1, "INCLUDE") < 0)
 		return;
 	struct node **arga = node_array_of(line->args);
+	/* A forward reference is not known until the next pass. */
+	if (node_type_of(arga[0]) == node_type_undef)
+		return;
 	if (node_type_of(arga[0]) != node_type_string) {
 		error(error_type_syntax, "invalid argument to INCLUDEBIN");
 		return;
-- 
2.43.0


From 8e2a054fabb991003ba12db10993f25b3a91f5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:17 +0000
Subject: [PATCH 60/63] fix: accept a comment separated by whitespace from a
 symbol operand

---
 src/grammar.y |  1 +
 src/lex.l     | 19 ++++++++++++++-----
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/grammar.y b/src/grammar.y
index 7cb3c84..4b8041d 100644
--- a/src/grammar.y
+++ b/src/grammar.y
@@ -66,6 +66,7 @@ static _Bool error_in_comment = 0;
 %token <as_token> LE GE EQ NE
 %token <as_token> LOR LAND
 %token DELIM
+%token COMMENT
 %token DEC2 INC2
 
 %destructor { free($$); } <as_string>
diff --git a/src/lex.l b/src/lex.l
index d867ed4..e89a393 100644
--- a/src/lex.l
+++ b/src/lex.l
@@ -16,6 +16,7 @@ option) any later version.
 #include <stdio.h>
 #include <string.h>
 
+#include "c-ctype.h"
 #include "xalloc.h"
 
 #include "error.h"
@@ -48,6 +49,14 @@ static char prev_char = 0;
 
 static void note_token(void);
 
+/* The parts of an identifier adjoin: one separated by whitespace from another
+ * is no part of it, but starts a comment. */
+
+#define CHECK_ADJOINS \
+	if (YY_START != arg && token_after_ws && prev_char && \
+	    (c_isalnum(prev_char) || strchr("_.}", prev_char))) \
+		return COMMENT
+
 %}
 
 %option noyywrap
@@ -137,21 +146,21 @@ ${hexdigit}+	{ yylval.as_int = strtoimax(yytext+1, NULL, 16); return INTEGER; }
 
 <arg,argnostr>{
 
-{word}		{ BEGIN(argnostr); return id_or_reg(); }
+{word}		{ CHECK_ADJOINS; BEGIN(argnostr); return id_or_reg(); }
 
 }
 
 <argnostrnum>{
 
-{rword}		{ BEGIN(argnostrnum); yylval.as_string = strndup(yytext, yyleng); return ID; }
+{rword}		{ CHECK_ADJOINS; BEGIN(argnostrnum); yylval.as_string = strndup(yytext, yyleng); return ID; }
 
 }
 
 <arg,argnostr,argnostrnum>{
 
-&\{{decimal}\}	{ BEGIN(argnostrnum); yylval.as_string = strndup(yytext+2, yyleng-3); return INTERP; }
-\\{digit}	{ BEGIN(argnostrnum); yylval.as_string = strndup(yytext+1, yyleng-1); return INTERP; }
-\\\{{decimal}\}	{ BEGIN(argnostrnum); yylval.as_string = strndup(yytext+2, yyleng-3); return INTERP; }
+&\{{decimal}\}	{ CHECK_ADJOINS; BEGIN(argnostrnum); yylval.as_string = strndup(yytext+2, yyleng-3); return INTERP; }
+\\{digit}	{ CHECK_ADJOINS; BEGIN(argnostrnum); yylval.as_string = strndup(yytext+1, yyleng-1); return INTERP; }
+\\\{{decimal}\}	{ CHECK_ADJOINS; BEGIN(argnostrnum); yylval.as_string = strndup(yytext+2, yyleng-3); return INTERP; }
 
 \+\+		{ BEGIN(argnostr); return INC2; }
 \-\-		{ BEGIN(argnostr); return DEC2; }
-- 
2.43.0


From 9979bcbe1b4f1eb6e422d7234f4a7b6cbcca4491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:58 +0000
Subject: [PATCH 61/63] fix: numbers of 2^32 and more in place of a register
 escaped the range check

---
 src/instr.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/instr.c b/src/instr.c
index 6859f7e..603356a 100644
--- a/src/instr.c
+++ b/src/instr.c
@@ -561,7 +561,7 @@ void instr_pair(struct opcode const *op, struct node const *args) {
 				return;
 			}
 		} else if (type[i] == node_type_int) {
-			int v = arga[i]->data.as_int;
+			int64_t v = arga[i]->data.as_int;
 			if (v == 0 && asm6809_options.isa == asm6809_isa_6309) {
 				nibble[i] = 0x0c;
 				size[i] = 16 | 8;
@@ -615,7 +615,7 @@ void instr_tfm(struct opcode const *op, struct node const *args) {
 			}
 			nibble[i] = v;
 		} else if (type[i] == node_type_int) {
-			int v = arga[i]->data.as_int;
+			int64_t v = arga[i]->data.as_int;
 			error(error_type_illegal, "numerical values used in TFM op");
 			if (v < 0 || v > 4) {
 				error(error_type_out_of_range, "numeric value for register out of range");
-- 
2.43.0


From 60bf617f9b58aa15fd9c01280838cf650b47680e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:42 +0000
Subject: [PATCH 62/63] fix: floating-point values (such as quotients) inside
 an indirect operand were refused

---
 src/assemble.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/assemble.c b/src/assemble.c
index 3cd1eb5..830d6ed 100644
--- a/src/assemble.c
+++ b/src/assemble.c
@@ -227,6 +227,8 @@ static void args_float_to_int(struct node *args) {
 	for (int i = 0; i < nargs; i++) {
 		if (node_type_of(arga[i]) == node_type_float)
 			arga[i] = eval_int_free(arga[i]);
+		else
+			args_float_to_int(arga[i]);
 	}
 }
 
-- 
2.43.0


From 2a0fe9ff7ef91741d96340cfa12fd23f7a86a43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:41 +0000
Subject: [PATCH 63/63] fix: exported register symbols lost their increment or
 decrement

---
 src/program.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/program.c b/src/program.c
index 7dd6da4..a8bc85b 100644
--- a/src/program.c
+++ b/src/program.c
@@ -230,7 +230,9 @@ static void print_symbol(const char *key, FILE *f) {
 		if (!n)
 			return;
 		enum node_attr old_attr = node_attr_of(n);
-		n = node_set_attr(n, node_attr_none);
+		/* Increments and decrements are part of a register value */
+		if (node_type_of(n) != node_type_reg)
+			n = node_set_attr(n, node_attr_none);
 		switch (node_type_of(n)) {
 		default:
 			error(error_type_syntax, "can't export symbol type");
-- 
2.43.0

