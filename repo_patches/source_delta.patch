From d028c251032ffd09cea8eb8e5915195f7ba36c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:21 +0000
Subject: [PATCH 001/110] fix: reject a configuration that ends inside an
 object

---
 parser.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser.c b/parser.c
index 11cd1d5..a593f2c 100644
--- a/parser.c
+++ b/parser.c
@@ -747,6 +747,11 @@ parse_root(struct parse *p)
 			parse_bitfield(p);
 		else
 			parse_errx(p, "unknown top-level type");
+
+		/* The end of file must fall between objects. */
+
+		if (p->lasttype == TOK_EOF)
+			parse_errx(p, "unexpected end of file");
 	}
 
 	return 1;
-- 
2.43.0


From 73fed8101d62ddcc2265d76d7de8f69d52c8b5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:21 +0000
Subject: [PATCH 002/110] fix: write limits on bits fields instead of aborting

---
 writer.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/writer.c b/writer.c
index 7c3b094..e3b2e6e 100644
--- a/writer.c
+++ b/writer.c
@@ -281,6 +281,7 @@ parse_write_field(struct writer *w, const struct field *p)
 	TAILQ_FOREACH(fv, &p->fvq, entries) 
 		switch (p->type) {
 		case FTYPE_BIT:
+		case FTYPE_BITFIELD:
 		case FTYPE_DATE:
 		case FTYPE_EPOCH:
 		case FTYPE_INT:
-- 
2.43.0


From 3e93eab1dce9397d72ed4bd4f5dee8b238a088fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:31 +0000
Subject: [PATCH 003/110] fix: reject default dates out of range

---
 parser_field.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/parser_field.c b/parser_field.c
index 003c690..93f58a1 100644
--- a/parser_field.c
+++ b/parser_field.c
@@ -326,7 +326,8 @@ parse_field_info(struct parse *p, struct field *fd)
 				if (parse_next(p) != TOK_INTEGER) {
 					parse_errx(p, "expected year (integer)");
 					break;
-				} else if (p->last.integer > INT_MAX) {
+				} else if (p->last.integer > INT_MAX ||
+				    p->last.integer < INT_MIN + 1900) {
 					parse_errx(p, "invalid year");
 					break;
 				}
@@ -337,7 +338,7 @@ parse_field_info(struct parse *p, struct field *fd)
 				} else if (p->last.integer >= 0) {
 					parse_errx(p, "invalid month");
 					break;
-				} else if (p->last.integer < INT_MIN) {
+				} else if (p->last.integer < -INT_MAX) {
 					parse_errx(p, "invalid month");
 					break;
 				}
@@ -348,7 +349,7 @@ parse_field_info(struct parse *p, struct field *fd)
 				} else if (p->last.integer >= 0) {
 					parse_errx(p, "invalid day");
 					break;
-				} else if (p->last.integer < INT_MIN) {
+				} else if (p->last.integer < -INT_MAX) {
 					parse_errx(p, "invalid day");
 					break;
 				}
-- 
2.43.0


From 56c60b33557d1468e80647a243b77a0ae1198dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:57 +0000
Subject: [PATCH 004/110] fix: interpret default dates in UTC, not the local
 time zone

---
 parser_field.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/parser_field.c b/parser_field.c
index 93f58a1..7665f75 100644
--- a/parser_field.c
+++ b/parser_field.c
@@ -354,9 +354,8 @@ parse_field_info(struct parse *p, struct field *fd)
 					break;
 				}
 				tm.tm_mday = (int)-p->last.integer;
-				tm.tm_isdst = -1;
 				fd->flags |= FIELD_HASDEF;
-				fd->def.integer = mktime(&tm); 
+				fd->def.integer = timegm(&tm);
 				break;
 			case FTYPE_BIT:
 			case FTYPE_BITFIELD:
-- 
2.43.0


From b6aca1d52d179616b007bac103314230a73f4ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:57 +0000
Subject: [PATCH 005/110] fix: write default dates in the form the parser
 accepts

---
 writer.c | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/writer.c b/writer.c
index e3b2e6e..c982792 100644
--- a/writer.c
+++ b/writer.c
@@ -27,6 +27,7 @@
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
+#include <time.h>
 
 #include "ort.h"
 
@@ -158,6 +159,23 @@ wprint(struct writer *w, const char *fmt, ...)
 	return len >= 0;
 }
 
+/*
+ * Write a date (seconds since the epoch) as yyyy-mm-dd.
+ * Returns zero on failure (memory), non-zero otherwise.
+ */
+static int
+wdate(struct writer *w, int64_t v)
+{
+	const struct tm	*tm;
+	time_t		 t = v;
+
+	if ((tm = gmtime(&t)) == NULL)
+		return 0;
+	return wprint(w, "%.4" PRId64 "-%.2d-%.2d", 
+		(int64_t)tm->tm_year + 1900, 
+		tm->tm_mon + 1, tm->tm_mday);
+}
+
 /*
  * Write a field/enumeration/whatever comment.
  * Returns zero on failure (memory), non-zero otherwise.
@@ -246,12 +264,15 @@ parse_write_field(struct writer *w, const struct field *p)
 		switch (p->type) {
 		case FTYPE_BIT:
 		case FTYPE_BITFIELD:
-		case FTYPE_DATE:
 		case FTYPE_EPOCH:
 		case FTYPE_INT:
 			rc = wprint(w, " default %" PRId64,
 				p->def.integer);
 			break;
+		case FTYPE_DATE:
+			rc = wputs(w, " default ") &&
+				wdate(w, p->def.integer);
+			break;
 		case FTYPE_REAL:
 			rc = wprint(w, " default %g",
 				p->def.decimal);
-- 
2.43.0


From e075faf04c00e1d888b229c4635ce1fddf23084d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:57 +0000
Subject: [PATCH 006/110] fix: write decimals so that they read back as the
 same value

---
 writer.c | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/writer.c b/writer.c
index c982792..f8d8225 100644
--- a/writer.c
+++ b/writer.c
@@ -159,6 +159,28 @@ wprint(struct writer *w, const char *fmt, ...)
 	return len >= 0;
 }
 
+/*
+ * Write a decimal with as many digits as it takes to read back the same
+ * value and without an exponent, which the parser does not understand.
+ * Returns zero on failure (memory), non-zero otherwise.
+ */
+static int
+wdecimal(struct writer *w, double v)
+{
+	char	buf[1536];
+	int	i;
+
+	/* Don't let large values be taken for integers. */
+
+	i = v >= 1e15 || v <= -1e15;
+	for ( ; i < 1100; i++) {
+		snprintf(buf, sizeof(buf), "%.*f", i, v);
+		if (strtod(buf, NULL) == v)
+			break;
+	}
+	return wputs(w, buf);
+}
+
 /*
  * Write a date (seconds since the epoch) as yyyy-mm-dd.
  * Returns zero on failure (memory), non-zero otherwise.
@@ -274,8 +296,8 @@ parse_write_field(struct writer *w, const struct field *p)
 				wdate(w, p->def.integer);
 			break;
 		case FTYPE_REAL:
-			rc = wprint(w, " default %g",
-				p->def.decimal);
+			rc = wputs(w, " default ") &&
+				wdecimal(w, p->def.decimal);
 			break;
 		case FTYPE_EMAIL:
 		case FTYPE_TEXT:
@@ -311,8 +333,9 @@ parse_write_field(struct writer *w, const struct field *p)
 				return 0;
 			break;
 		case FTYPE_REAL:
-			if (!wprint(w, " limit %s %g",
-			    vtypes[fv->type], fv->d.value.decimal))
+			if (!wprint(w, " limit %s ",
+			    vtypes[fv->type]) ||
+			    !wdecimal(w, fv->d.value.decimal))
 				return 0;
 			break;
 		case FTYPE_BLOB:
-- 
2.43.0


From c00fd6a3d482775f0ca062a64be34b4e7b57d0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:57 +0000
Subject: [PATCH 007/110] fix: clear errno before converting a decimal

---
 parser.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser.c b/parser.c
index a593f2c..7723f45 100644
--- a/parser.c
+++ b/parser.c
@@ -550,6 +550,7 @@ again:
 		if ( ! buf_push(p, '\0'))
 			return TOK_ERR;
 		if (hasdot) {
+			errno = 0;
 			p->last.decimal = strtod(p->buf, &epp);
 			if (epp == p->buf || ERANGE == errno)
 				return(parse_errx(p, 
-- 
2.43.0


From 3876c72e281ff96363b43437ced474b88999bc79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:13 +0000
Subject: [PATCH 008/110] fix: do not use a role constraint name after its
 buffer was reused

---
 parser_struct.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/parser_struct.c b/parser_struct.c
index 4457f81..05dfe5e 100644
--- a/parser_struct.c
+++ b/parser_struct.c
@@ -1350,16 +1350,18 @@ parse_struct_roles(struct parse *p, struct strct *s)
 			goto cleanup;
 		} 
 
-		/* Assign all roles to the given operation. */
-
-		if (!rolemap_assign(p, s, 
-		    (const char *const *)ns, nsz, type, name))
-			goto cleanup;
+		/* Only use "name" if its buffer wasn't overwritten. */
 
 		if (p->lasttype != TOK_SEMICOLON) {
 			parse_errx(p, "expected semicolon");
 			goto cleanup;
 		}
+
+		/* Assign all roles to the given operation. */
+
+		if (!rolemap_assign(p, s, 
+		    (const char *const *)ns, nsz, type, name))
+			goto cleanup;
 	}
 
 	if (!PARSE_STOP(p) && p->lasttype == TOK_RBRACE)
-- 
2.43.0


From 983b0b02eee1f1d1d05f5ecdeb2516640c9e0ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:51 +0000
Subject: [PATCH 009/110] fix: find duplicate unique statements after a
 differing one

---
 linker.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/linker.c b/linker.c
index fd7534b..958faaa 100644
--- a/linker.c
+++ b/linker.c
@@ -393,7 +393,7 @@ check_unique_unique(struct config *cfg, struct strct *s)
 					break;
 			}
 			if (nf != NULL)
-				break;
+				continue;
 			gen_errx(cfg, &u->pos, "duplicate "
 				"unique statements: %s:%zu:%zu",
 				uu->pos.fname, uu->pos.line,
-- 
2.43.0


From a8baf9d8b9df167813d93fa7c7ae8030d6b39dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:51 +0000
Subject: [PATCH 010/110] fix: merge noexport roles without widening them to
 other fields

---
 linker_resolve.c | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/linker_resolve.c b/linker_resolve.c
index ce2dc64..878c6a6 100644
--- a/linker_resolve.c
+++ b/linker_resolve.c
@@ -545,22 +545,34 @@ static int
 resolve_struct_rolemap_field(struct config *cfg,
 	struct struct_rolemap *r, struct field *f)
 {
+	struct rolemap	*dst = f->rolemap, *src = r->result;
 	struct rref	*rdst, *rsrc;
 
-	if (f->rolemap == NULL) {
-		f->rolemap = r->result;
+	if (dst == NULL) {
+		f->rolemap = src;
 		return 1;
 	}
 
-	TAILQ_FOREACH(rsrc, &r->result->rq, entries) {
-		TAILQ_FOREACH(rdst, &f->rolemap->rq, entries)
+	/*
+	 * The map for all fields is shared between them, so add to the
+	 * map of the named field in whichever order they come.
+	 */
+
+	if (r->name != NULL) {
+		dst = r->result;
+		src = f->rolemap;
+		f->rolemap = dst;
+	}
+
+	TAILQ_FOREACH(rsrc, &src->rq, entries) {
+		TAILQ_FOREACH(rdst, &dst->rq, entries)
 			if (rdst->role == rsrc->role)
 				break;
 
 		/* Already specified! */
 
 		if (rdst != NULL)
-			return 1;
+			continue;
 
 		/* Source doesn't exist in destination. */
 
@@ -569,8 +581,8 @@ resolve_struct_rolemap_field(struct config *cfg,
 			gen_err(cfg, &rsrc->pos);
 			return 0;
 		}
-		TAILQ_INSERT_TAIL(&f->rolemap->rq, rdst, entries);
-		rdst->parent = f->rolemap;
+		TAILQ_INSERT_TAIL(&dst->rq, rdst, entries);
+		rdst->parent = dst;
 		rdst->pos = rsrc->pos;
 		rdst->role = rsrc->role;
 	}
-- 
2.43.0


From 4a8c5821adb54a33fdbe5232f44d8b8d978cf8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:27 +0000
Subject: [PATCH 011/110] fix: keep aliases alphabetic beyond two letters

---
 linker_aliases.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/linker_aliases.c b/linker_aliases.c
index 707c1ec..6b75e02 100644
--- a/linker_aliases.c
+++ b/linker_aliases.c
@@ -85,7 +85,7 @@ linker_aliases_create(struct config *cfg, struct strct *orig,
 		if (*offs >= 26 * 26)
 			c = asprintf(&a->alias, "_%c%c%c", 
 				(char)(*offs / 26 / 26) + 97,
-				(char)(*offs / 26) + 97,
+				(char)(*offs / 26 % 26) + 97,
 				(char)(*offs % 26) + 97);
 		else if (*offs >= 26)
 			c = asprintf(&a->alias, "_%c%c", 
-- 
2.43.0


From 70a2bc357aa6eeeaa2d9a6cf00b84dd58c2cfd6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:31 +0000
Subject: [PATCH 012/110] fix: order structures after all those they embed

---
 linker.c | 25 +++++++++----------------
 ort.h    |  1 -
 2 files changed, 9 insertions(+), 17 deletions(-)

diff --git a/linker.c b/linker.c
index 958faaa..1bbe717 100644
--- a/linker.c
+++ b/linker.c
@@ -82,26 +82,26 @@ gen_errx(struct config *cfg,
 }
 
 /*
- * Recursively annotate our height from each node.
+ * Recursively annotate our height from each node: the longest chain of
+ * references leading to it.
  * We only do this for FTYPE_STRUCT objects.
  */
 static void
-annotate(struct ref *ref, size_t height, size_t colour)
+annotate(struct ref *ref, size_t height)
 {
 	struct field	*f;
 	struct strct	*p;
 
 	p = ref->target->parent;
 
-	if (p->colour == colour)
+	if (p->height >= height)
 		return;
 
-	p->colour = colour;
-	p->height += height;
+	p->height = height;
 
 	TAILQ_FOREACH(f, &p->fq, entries)
 		if (FTYPE_STRUCT == f->type)
-			annotate(f->ref, height + 1, colour);
+			annotate(f->ref, height + 1);
 }
 
 /*
@@ -493,7 +493,7 @@ ort_parse_close(struct config *cfg)
 	struct field	 *f;
 	struct rolemap	 *rm;
 	struct search	 *srch;
-	size_t		  colour = 1, sz = 0, i = 0;
+	size_t		  sz = 0, i = 0;
 
 	if (TAILQ_EMPTY(&cfg->sq)) {
 		gen_errx(cfg, NULL, "no structures in configuration");
@@ -557,22 +557,15 @@ ort_parse_close(struct config *cfg)
 
 	/*
 	 * Now follow and order all outbound links for structs.
-	 * From the get-go, we don't descend into structures that we've
-	 * already coloured.
 	 * This establishes a "height" that we'll use when ordering our
 	 * structures in the header file.
 	 */
 
 	TAILQ_FOREACH(p, &cfg->sq, entries) {
 		sz++;
-		if (p->colour)
-			continue;
 		TAILQ_FOREACH(f, &p->fq, entries)
-			if (FTYPE_STRUCT == f->type) {
-				p->colour = colour;
-				annotate(f->ref, 1, colour);
-			}
-		colour++;
+			if (FTYPE_STRUCT == f->type)
+				annotate(f->ref, p->height + 1);
 	}
 	assert(sz > 0);
 
diff --git a/ort.h b/ort.h
index 73375be..9127de2 100644
--- a/ort.h
+++ b/ort.h
@@ -415,7 +415,6 @@ struct	strct {
 	char		  *doc;
 	size_t		   height; /* dep order (XXX: remove) */
 	struct pos	   pos;
-	size_t		   colour; /* during linkage (XXX: remove) */
 	struct field	  *rowid;
 	struct fieldq	   fq;
 	struct searchq	   sq;
-- 
2.43.0


From 94945966a8ec0275900bcbec458a42827ded4314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:31 +0000
Subject: [PATCH 013/110] fix: find recursion that does not go through the
 first structure

---
 linker_aliases.c | 38 ++++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/linker_aliases.c b/linker_aliases.c
index 6b75e02..876d709 100644
--- a/linker_aliases.c
+++ b/linker_aliases.c
@@ -30,10 +30,19 @@
 #include "extern.h"
 #include "linker.h"
 
+/*
+ * The structures leading up to the one being descended into.
+ */
+struct	chain {
+	const struct strct	*p;
+	const struct chain	*prior;
+};
+
 /*
  * Map all "parent.child" chains of foreign references from a given
  * structure (recursively) into alias names.
- * Also checks that the given "orig" does not have infinite recursion.
+ * Also checks that the chain of structures from "orig" to "p" (in reverse
+ * order, "chain") does not have infinite recursion.
  * This is used when creating SQL queries because we might join on the
  * same structure more than once, so it requires "AS" statements.
  * The "AS" name is the alias name.
@@ -42,22 +51,25 @@
  */
 static int
 linker_aliases_create(struct config *cfg, struct strct *orig, 
-	struct strct *p, size_t *offs, const struct alias *prior)
+	struct strct *p, size_t *offs, const struct alias *prior,
+	const struct chain *chain)
 {
-	struct field	*f;
-	struct alias	*a;
-	int		 c;
+	const struct chain	 next = { p, chain }, *ch;
+	struct field		*f;
+	struct alias		*a;
+	int			 c;
 
 	TAILQ_FOREACH(f, &p->fq, entries) {
 		if (f->type != FTYPE_STRUCT)
 			continue;
 		assert(f->ref != NULL);
 
-		if (f->ref->target->parent == orig) {
-			gen_errx(cfg, &orig->pos,
-				"contains recursive references");
-			return 0;
-		}
+		for (ch = &next; ch != NULL; ch = ch->prior)
+			if (f->ref->target->parent == ch->p) {
+				gen_errx(cfg, &ch->p->pos, "contains "
+					"recursive references");
+				return 0;
+			}
 		
 		if ((a = calloc(1, sizeof(struct alias))) == NULL) {
 			gen_err(cfg, &f->pos);
@@ -103,7 +115,8 @@ linker_aliases_create(struct config *cfg, struct strct *orig,
 		(*offs)++;
 
 		if (!linker_aliases_create
-		    (cfg, orig, f->ref->target->parent, offs, a))
+		    (cfg, orig, f->ref->target->parent, 
+		     offs, a, &next))
 			return 0;
 	}
 
@@ -234,7 +247,8 @@ linker_aliases(struct config *cfg)
 	/* Creates aliases and checks for infinite recursion. */
 
 	TAILQ_FOREACH(p, &cfg->sq, entries)
-		if (!linker_aliases_create(cfg, p, p, &count, NULL))
+		if (!linker_aliases_create
+		    (cfg, p, p, &count, NULL, NULL))
 			return 0;
 
 	/* Assigns aliases to search types. */
-- 
2.43.0


From 2f2b265898904f345eeef4192fc9cdbdec29d842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:05 +0000
Subject: [PATCH 014/110] fix: write negative zero as a decimal

---
 writer.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/writer.c b/writer.c
index f8d8225..009b29a 100644
--- a/writer.c
+++ b/writer.c
@@ -23,6 +23,7 @@
 #include <assert.h>
 #include <ctype.h>
 #include <inttypes.h>
+#include <math.h> /* signbit */
 #include <stdarg.h>
 #include <stdio.h>
 #include <stdlib.h>
@@ -170,9 +171,9 @@ wdecimal(struct writer *w, double v)
 	char	buf[1536];
 	int	i;
 
-	/* Don't let large values be taken for integers. */
+	/* Don't let large values or -0.0 be taken for integers. */
 
-	i = v >= 1e15 || v <= -1e15;
+	i = v >= 1e15 || v <= -1e15 || (v == 0.0 && signbit(v));
 	for ( ; i < 1100; i++) {
 		snprintf(buf, sizeof(buf), "%.*f", i, v);
 		if (strtod(buf, NULL) == v)
-- 
2.43.0


From af24e7f83f52b254a378bb789a0051e0ae9db5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:54 +0000
Subject: [PATCH 015/110] fix: reject a nul byte in a string instead of cutting
 the string short

---
 parser.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser.c b/parser.c
index 7723f45..488f9bd 100644
--- a/parser.c
+++ b/parser.c
@@ -496,6 +496,11 @@ again:
 			if (c == EOF || (c == '"' && last != '\\'))
 				break;
 
+			/* This would cut the string short. */
+
+			if (c == '\0')
+				return parse_errx(p, "nul byte in string");
+
 			/* Strip out CRLF. */
 
 			if (last == '\r' && c == '\n') {
-- 
2.43.0


From 694f5a0513771d4c2286e8554536cf8a1f580a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:14 +0000
Subject: [PATCH 016/110] fix: report removed roles as removed

A removed enumeration item was written as a removed role and a removed
role was not written at all.
---
 writer-diff.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/writer-diff.c b/writer-diff.c
index 4ea0f0e..4eb4d8d 100644
--- a/writer-diff.c
+++ b/writer-diff.c
@@ -984,7 +984,7 @@ ort_write_diff_roleq(FILE *f, const struct diffq *q, const struct diff *d)
 		case DIFF_ADD_ROLE:
 			rc = ort_write_role(f, 1, dd);
 			break;
-		case DIFF_DEL_EITEM:
+		case DIFF_DEL_ROLE:
 			rc = ort_write_role(f, 0, dd);
 			break;
 		case DIFF_MOD_ROLE:
-- 
2.43.0


From b9cb5d3e143939767f1de7874bffd9ae2629ddb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:53 +0000
Subject: [PATCH 017/110] fix: compare label languages by name in differences

Language indices are those of each configuration.
---
 diff.c | 37 ++++++++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/diff.c b/diff.c
index 01827f0..7de3800 100644
--- a/diff.c
+++ b/diff.c
@@ -85,7 +85,8 @@ ort_check_rolemap_roles(const struct rolemap *from,
  * Return zero if dissimilar, non-zero if similar.
  */
 static int
-ort_check_labels(const struct labelq *from, const struct labelq *into)
+ort_check_labels(const struct config *cfrom, const struct labelq *from,
+	const struct config *cinto, const struct labelq *into)
 {
 	size_t	 		 fromsz = 0, intosz = 0;
 	const struct label	*linto, *lfrom;
@@ -103,7 +104,8 @@ ort_check_labels(const struct labelq *from, const struct labelq *into)
 
 	TAILQ_FOREACH(lfrom, from, entries) {
 		TAILQ_FOREACH(linto, into, entries) {
-			if (linto->lang != lfrom->lang)
+			if (strcmp(cinto->langs[linto->lang],
+			    cfrom->langs[lfrom->lang]))
 				continue;
 			if (strcmp(linto->label, lfrom->label))
 				continue;
@@ -220,6 +222,7 @@ ort_check_comment(const char *from, const char *into)
  */
 static int
 ort_diff_bitidx(struct diffq *q,
+	const struct config *cfrom, const struct config *cinto,
 	const struct bitidx *ifrom, const struct bitidx *iinto)
 {
 	struct diff	*d;
@@ -244,7 +247,8 @@ ort_diff_bitidx(struct diffq *q,
 		type = DIFF_MOD_BITIDX;
 	}
 
-	if (!ort_check_labels(&ifrom->labels, &iinto->labels)) {
+	if (!ort_check_labels
+	    (cfrom, &ifrom->labels, cinto, &iinto->labels)) {
 		if ((d = diff_alloc(q, DIFF_MOD_BITIDX_LABELS)) == NULL)
 			return -1;
 		d->bitidx_pair.from = ifrom;
@@ -436,6 +440,7 @@ ort_diff_field(struct diffq *q,
  */
 static int
 ort_diff_eitem(struct diffq *q,
+	const struct config *cfrom, const struct config *cinto,
 	const struct eitem *ifrom, const struct eitem *iinto)
 {
 	struct diff	*d;
@@ -468,7 +473,8 @@ ort_diff_eitem(struct diffq *q,
 		type = DIFF_MOD_EITEM;
 	}
 
-	if (!ort_check_labels(&ifrom->labels, &iinto->labels)) {
+	if (!ort_check_labels
+	    (cfrom, &ifrom->labels, cinto, &iinto->labels)) {
 		if ((d = diff_alloc(q, DIFF_MOD_EITEM_LABELS)) == NULL)
 			return -1;
 		d->eitem_pair.from = ifrom;
@@ -488,6 +494,7 @@ ort_diff_eitem(struct diffq *q,
  */
 static int
 ort_diff_bitf(struct diffq *q,
+	const struct config *cfrom, const struct config *cinto,
 	const struct bitf *efrom, const struct bitf *einto)
 {
 	const struct bitidx	*ifrom, *iinto;
@@ -504,7 +511,8 @@ ort_diff_bitf(struct diffq *q,
 		TAILQ_FOREACH(ifrom, &efrom->bq, entries)
 			if (strcasecmp(iinto->name, ifrom->name) == 0)
 				break;
-		if ((rc = ort_diff_bitidx(q, ifrom, iinto)) < 0)
+		if ((rc = ort_diff_bitidx
+		    (q, cfrom, cinto, ifrom, iinto)) < 0)
 			return 0;
 		else if (rc > 0)
 			type = DIFF_MOD_BITF;
@@ -534,9 +542,11 @@ ort_diff_bitf(struct diffq *q,
 	}
 
 	if (!ort_check_labels
-	     (&efrom->labels_unset, &einto->labels_unset) ||
+	     (cfrom, &efrom->labels_unset,
+	      cinto, &einto->labels_unset) ||
 	    !ort_check_labels
-	     (&efrom->labels_null, &einto->labels_null)) {
+	     (cfrom, &efrom->labels_null,
+	      cinto, &einto->labels_null)) {
 		d = diff_alloc(q, DIFF_MOD_BITF_LABELS);
 		if (d == NULL)
 			return 0;
@@ -1281,6 +1291,7 @@ ort_diff_strct(struct diffq *q,
  */
 static int
 ort_diff_enm(struct diffq *q,
+	const struct config *cfrom, const struct config *cinto,
 	const struct enm *efrom, const struct enm *einto)
 {
 	const struct eitem	*ifrom, *iinto;
@@ -1297,7 +1308,8 @@ ort_diff_enm(struct diffq *q,
 		TAILQ_FOREACH(ifrom, &efrom->eq, entries)
 			if (strcasecmp(iinto->name, ifrom->name) == 0)
 				break;
-		if ((rc = ort_diff_eitem(q, ifrom, iinto)) < 0)
+		if ((rc = ort_diff_eitem
+		    (q, cfrom, cinto, ifrom, iinto)) < 0)
 			return 0;
 		else if (rc > 0)
 			type = DIFF_MOD_ENM;
@@ -1326,7 +1338,8 @@ ort_diff_enm(struct diffq *q,
 	}
 
 	if (!ort_check_labels
-	    (&efrom->labels_null, &einto->labels_null)) {
+	    (cfrom, &efrom->labels_null,
+	     cinto, &einto->labels_null)) {
 		if ((d = diff_alloc(q, DIFF_MOD_ENM_LABELS)) == NULL)
 			return 0;
 		d->enm_pair.from = efrom;
@@ -1362,7 +1375,8 @@ ort_diff_bitfs(struct diffq *q,
 			if ((d = diff_alloc(q, DIFF_ADD_BITF)) == NULL)
 				return 0;
 			d->bitf = einto;
-		} else if (!ort_diff_bitf(q, efrom, einto))
+		} else if (!ort_diff_bitf
+		    (q, from, into, efrom, einto))
 			return 0;
 	}
 
@@ -1612,7 +1626,8 @@ ort_diff_enms(struct diffq *q,
 			if ((d = diff_alloc(q, DIFF_ADD_ENM)) == NULL)
 				return 0;
 			d->enm = einto;
-		} else if (!ort_diff_enm(q, efrom, einto))
+		} else if (!ort_diff_enm
+		    (q, from, into, efrom, einto))
 			return 0;
 	}
 
-- 
2.43.0


From 56ff34db9f64bb72108875bddd51113ba76412b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:53 +0000
Subject: [PATCH 018/110] fix: compare searches that are distinct over their
 own structure

Their distinct clause has no field name.
---
 diff.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/diff.c b/diff.c
index 7de3800..da25252 100644
--- a/diff.c
+++ b/diff.c
@@ -921,7 +921,9 @@ ort_diff_search(struct diffq *q,
 	if ((from->dst != NULL && into->dst == NULL) ||
 	    (from->dst == NULL && into->dst != NULL) ||
 	    (from->dst != NULL && into->dst != NULL &&
-	     strcasecmp(from->dst->fname, into->dst->fname))) {
+	     ((from->dst->fname == NULL) != (into->dst->fname == NULL) ||
+	      (from->dst->fname != NULL &&
+	       strcasecmp(from->dst->fname, into->dst->fname))))) {
 		if (q != NULL) {
 			d = diff_alloc(q, DIFF_MOD_SEARCH_DISTINCT);
 			if (d == NULL)
-- 
2.43.0


From ac76c8e4bef13c48eff3ed95ec4a5745ddc0883b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:30 +0000
Subject: [PATCH 019/110] fix: audit exports by the structure exported, not the
 one queried

Whether a role may export none of a structure's fields was looked up only
for the structure holding the query: missing nested structures, and wrong
for queries distinct over another structure.
---
 audit.c | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/audit.c b/audit.c
index 15b43ec..631ddac 100644
--- a/audit.c
+++ b/audit.c
@@ -54,8 +54,18 @@ follow(const struct strct *st, const struct role *r, struct auditq *aq,
 	int			 nexp, c;
 	size_t			 i;
 	const struct field	*fd;
+	const struct rolemap	*rm;
 	char			*newpath;
 
+	/* None of the structure's fields may be exported to the role. */
+
+	TAILQ_FOREACH(rm, &st->rq, entries)
+		if (rm->type == ROLEMAP_NOEXPORT &&
+		    rm->f == NULL && rolemap_has(rm, r)) {
+			exported = 0;
+			break;
+		}
+
 	TAILQ_FOREACH(a, aq, entries)
 		if (a->type == AUDIT_REACHABLE && a->ar.st == st)
 			break;
@@ -166,10 +176,8 @@ ort_audit(const struct role *r, const struct config *cfg)
 	const struct strct	*st, *sst;
 	const struct search	*sr;
 	const struct update	*up;
-	const struct rolemap	*rm;
 	struct audit		*a;
 	struct auditq		*aq = NULL;
-	int			 exported;
 
 	if ((aq = calloc(1, sizeof(struct auditq))) == NULL)
 		goto err;
@@ -177,15 +185,6 @@ ort_audit(const struct role *r, const struct config *cfg)
 	TAILQ_INIT(aq);
 
 	TAILQ_FOREACH(st, &cfg->sq, entries) {
-		exported = 1;
-		TAILQ_FOREACH(rm, &st->rq, entries) 
-			if (rm->type == ROLEMAP_NOEXPORT &&
-			    rm->f == NULL &&
-			    rolemap_has(rm, r)) {
-				exported = 0;
-				break;
-			}
-
 		if (st->ins != NULL &&
 		    rolemap_has(st->ins->rolemap, r)) {
 			a = calloc(1, sizeof(struct audit));
@@ -224,7 +223,7 @@ ort_audit(const struct role *r, const struct config *cfg)
 				a->sr = sr;
 				sst = sr->dst != NULL ? 
 					sr->dst->strct : st;
-				if (!follow(sst, r, aq, sr, exported, NULL))
+				if (!follow(sst, r, aq, sr, 1, NULL))
 					goto err;
 			}
 	}
-- 
2.43.0


From 78c629cea3817d483485ba0110c8038cb308a5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:00 +0000
Subject: [PATCH 020/110] fix: escape backslashes and control characters in
 JSON

---
 audit-json.c | 6 +++++-
 lang-json.c  | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/audit-json.c b/audit-json.c
index 821a596..b21c86e 100644
--- a/audit-json.c
+++ b/audit-json.c
@@ -210,9 +210,13 @@ print_doc(const char *cp)
 		case ('\t'):
 			fputs("\\t", stdout);
 			break;
+		case ('\\'):
+			/* Only double-quotes are escaped in ort(5). */
+			fputs(*cp == '"' ? "\\" : "\\\\", stdout);
+			break;
 		default:
 			if ((unsigned char)c < 32)
-				printf("\\u%.4u", c);
+				printf("\\u%.4x", (unsigned int)c);
 			else
 				fputc(c, stdout);
 			break;
diff --git a/lang-json.c b/lang-json.c
index d45bf02..791eae5 100644
--- a/lang-json.c
+++ b/lang-json.c
@@ -145,9 +145,13 @@ gen_string(FILE *f, const char *cp)
 		case '\t':
 			rc = fputs("\\t", f) != EOF;
 			break;
+		case '\\':
+			/* Only double-quotes are escaped in ort(5). */
+			rc = fputs(cp[1] == '"' ? "\\" : "\\\\", f) != EOF;
+			break;
 		default:
 			if ((unsigned char)*cp < 32)
-				rc = fprintf(f, "\\u%.4u", *cp) > 0;
+				rc = fprintf(f, "\\u%.4x", (unsigned int)*cp) > 0;
 			else
 				rc = fputc(*cp, f) != EOF;
 		}
-- 
2.43.0


From 393327a96ae1cba4d640b4bf0fb667a8a5c564e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:00 +0000
Subject: [PATCH 021/110] fix: escape backslashes and newlines in JavaScript
 labels

---
 lang-javascript.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/lang-javascript.c b/lang-javascript.c
index a43de9a..64aae8f 100644
--- a/lang-javascript.c
+++ b/lang-javascript.c
@@ -81,6 +81,19 @@ gen_label_text(FILE *f, const char *cp)
 
 	while ((c = *cp++) != '\0')
 		switch (c) {
+		case '\\':
+			/* Only double-quotes are escaped in ort(5). */
+			if (*cp != '"' && fputs("\\\\", f) == EOF)
+				return 0;
+			break;
+		case '\n':
+			if (fputs("\\n", f) == EOF)
+				return 0;
+			break;
+		case '\r':
+			if (fputs("\\r", f) == EOF)
+				return 0;
+			break;
 		case '\'':
 			if (fputs("\\\'", f) == EOF)
 				return 0;
-- 
2.43.0


From ce2161cf7a7bacd79e7563c1b9a1e55b4eba5986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:23 +0000
Subject: [PATCH 022/110] fix: do not swap lines and columns in JSON

---
 lang-json.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lang-json.c b/lang-json.c
index 791eae5..fe1beb1 100644
--- a/lang-json.c
+++ b/lang-json.c
@@ -250,7 +250,7 @@ gen_pos(FILE *f, const struct pos *pos)
 	if (!gen_string(f, pos->fname))
 		return 0;
 	return fprintf(f, ", \"line\": %zu, \"column\": %zu },", 
-		pos->column, pos->line) > 0;
+		pos->line, pos->column) > 0;
 }
 
 /*
-- 
2.43.0


From 3898895d4cf661fb8c123a814377d479c9806021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:46 +0000
Subject: [PATCH 023/110] fix: write decimals in JSON so that they read back as
 the same value

---
 lang-json.c | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/lang-json.c b/lang-json.c
index fe1beb1..32456aa 100644
--- a/lang-json.c
+++ b/lang-json.c
@@ -22,6 +22,7 @@
 
 #include <assert.h>
 #include <inttypes.h>
+#include <math.h> /* signbit */
 #include <stdarg.h>
 #include <stdio.h>
 #include <stdlib.h>
@@ -161,6 +162,28 @@ gen_string(FILE *f, const char *cp)
 	return fputc('\"', f) != EOF;
 }
 
+/*
+ * Format a decimal with as many digits as it takes to read back the same
+ * value and without an exponent, which ort(5) does not have.
+ * Return zero on failure, non-zero on success.
+ */
+static int
+gen_decimal(FILE *f, double v)
+{
+	char	buf[1536];
+	int	i;
+
+	/* Don't let large values be taken for integers. */
+
+	i = v >= 1e15 || v <= -1e15 || (v == 0.0 && signbit(v));
+	for ( ; i < 1100; i++) {
+		snprintf(buf, sizeof(buf), "%.*f", i, v);
+		if (strtod(buf, NULL) == v)
+			break;
+	}
+	return fputs(buf, f) != EOF;
+}
+
 /*
  * Generate a full rolemap: rolemapObj[] w/o comma.
  * Return zero on failure, non-zero on success.
@@ -593,7 +616,9 @@ gen_field(FILE *f, const struct field *fd)
 				return 0;
 			break;
 		case FTYPE_REAL:
-			if (fprintf(f, "\"%g\"", fd->def.decimal) < 0)
+			if (fputc('"', f) == EOF ||
+			    !gen_decimal(f, fd->def.decimal) ||
+			    fputc('"', f) == EOF)
 				return 0;
 			break;
 		case FTYPE_EMAIL:
@@ -635,8 +660,7 @@ gen_field(FILE *f, const struct field *fd)
 				return 0;
 			break;
 		case FTYPE_REAL:
-			if (fprintf(f, "%g", 
-			    fv->d.value.decimal) < 0)
+			if (!gen_decimal(f, fv->d.value.decimal))
 				return 0;
 			break;
 		case FTYPE_BLOB:
-- 
2.43.0


From 4dea1aaf41f0017671faea6d42ecca4015b4bae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:46 +0000
Subject: [PATCH 024/110] fix: write limits on bits fields in JSON instead of
 aborting

---
 lang-json.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lang-json.c b/lang-json.c
index 32456aa..0d9015d 100644
--- a/lang-json.c
+++ b/lang-json.c
@@ -652,6 +652,7 @@ gen_field(FILE *f, const struct field *fd)
 			return 0;
 		switch (fd->type) {
 		case FTYPE_BIT:
+		case FTYPE_BITFIELD:
 		case FTYPE_DATE:
 		case FTYPE_EPOCH:
 		case FTYPE_INT:
-- 
2.43.0


From 89ea8aa8e4f46f7b2d9f13e1dd24f1c7c3770a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:46 +0000
Subject: [PATCH 025/110] fix: write default dates as dates in ort-json.ts

---
 ort-json.ts | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/ort-json.ts b/ort-json.ts
index d7dac10..f1e027c 100644
--- a/ort-json.ts
+++ b/ort-json.ts
@@ -479,6 +479,17 @@ namespace ortJson {
 			return ' comment "' + doc.replace(/"/g, '\\"') + '"';
 		}
 
+		/**
+		 * Convert seconds since the epoch to yyyy-mm-dd.
+		 */
+		private dateToString(epoch: string): string
+		{
+			const d: Date = new Date(Number(epoch) * 1000);
+			return d.getUTCFullYear().toString() + '-' +
+				(d.getUTCMonth() + 1).toString() + '-' +
+				d.getUTCDate().toString();
+		}
+
 		private roleObjToString(r: roleObj): string
 		{
 			let str: string = ' role ' + r.name;
@@ -543,6 +554,8 @@ namespace ortJson {
 				str += ' default "' + 
 					field.def.replace(/"/g, '\\"') +
 					'"';
+			else if (field.def !== null && field.type === 'date')
+				str += ' default ' + this.dateToString(field.def);
 			else if (field.def !== null)
 				str += ' default ' + field.def;
 
-- 
2.43.0


From ec12842af853d205b5730e5e183b47db828ddfca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:12 +0000
Subject: [PATCH 026/110] fix: end comments on a line of their own, even after
 a trailing newline

---
 lang.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lang.c b/lang.c
index 15ad2b1..702a3d3 100644
--- a/lang.c
+++ b/lang.c
@@ -224,9 +224,12 @@ print_comment(FILE *f, const char *doc, size_t tabs,
 			curcol++;
 		}
 
-		/* Newline-terminate. */
+		/*
+		 * Newline-terminate, even after a trailing newline, as
+		 * that's already been followed by the in-comment marker.
+		 */
 
-		if (last != '\n' && fputc('\n', f) == EOF)
+		if (fputc('\n', f) == EOF)
 			return 0;
 	}
 
-- 
2.43.0


From 971a641d26b2ef187b69402ca112f0113c904b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:48 +0000
Subject: [PATCH 027/110] fix: do not accept two more SQL keywords as
 identifiers

---
 parser.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser.c b/parser.c
index 488f9bd..777650b 100644
--- a/parser.c
+++ b/parser.c
@@ -143,6 +143,7 @@ static	const char *const badidents[] = {
 	"MATCH",
 	"NATURAL",
 	"NOT",
+	"NOTHING",
 	"NOTNULL",
 	"NULL",
 	"OF",
@@ -164,6 +165,7 @@ static	const char *const badidents[] = {
 	"RENAME",
 	"REPLACE",
 	"RESTRICT",
+	"RETURNING",
 	"RIGHT",
 	"ROLLBACK",
 	"ROW",
-- 
2.43.0


From c57d85a04c9366fab246c0c20ee5ce3bac86e24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:40 +0000
Subject: [PATCH 028/110] fix: find the -f and -x that divide operands when
 getopt permutes

---
 maindiff.c | 8 ++++++--
 sqldiff.c  | 7 ++++++-
 xliff.c    | 7 ++++++-
 3 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/maindiff.c b/maindiff.c
index bfec866..afbc4b6 100644
--- a/maindiff.c
+++ b/maindiff.c
@@ -37,7 +37,7 @@ main(int argc, char *argv[])
 {
 	FILE		**confs = NULL, **dconfs = NULL;
 	struct config	 *cfg = NULL, *dcfg = NULL;
-	int		  rc = 2;
+	int		  rc = 2, c;
 	size_t		  confsz = 0, dconfsz = 0, i, j, 
 			  confst = 0;
 	struct diffq	 *q = NULL;
@@ -48,7 +48,11 @@ main(int argc, char *argv[])
 		err(2, "pledge");
 #endif
 
-	if (getopt(argc, argv, "d") != -1)
+	/* A "-f" ends the options: it divides the operands. */
+
+	if ((c = getopt(argc, argv, "+f")) == 'f')
+		optind--;
+	else if (c != -1)
 		goto usage;
 
 	argc -= optind;
diff --git a/sqldiff.c b/sqldiff.c
index cbf2bea..17b6149 100644
--- a/sqldiff.c
+++ b/sqldiff.c
@@ -50,7 +50,9 @@ main(int argc, char *argv[])
 		err(EXIT_FAILURE, "pledge");
 #endif
 
-	while ((c = getopt(argc, argv, "d")) != -1)
+	/* A "-f" ends the options: it divides the operands. */
+
+	while ((c = getopt(argc, argv, "+df")) != -1 && c != 'f')
 		switch (c) {
 		case 'd':
 			destruct = 1;
@@ -59,6 +61,9 @@ main(int argc, char *argv[])
 			goto usage;
 		}
 
+	if (c == 'f')
+		optind--;
+
 	argc -= optind;
 	argv += optind;
 	sz = (size_t)argc;
diff --git a/xliff.c b/xliff.c
index ad30878..5c6dfe9 100644
--- a/xliff.c
+++ b/xliff.c
@@ -54,7 +54,9 @@ main(int argc, char *argv[])
 
 	memset(&args, 0, sizeof(struct ort_lang_xliff));
 
-	while ((c = getopt(argc, argv, "cju")) != -1)
+	/* A "-x" ends the options: it divides the operands. */
+
+	while ((c = getopt(argc, argv, "+cjux")) != -1 && c != 'x')
 		switch (c) {
 		case 'c':
 			args.flags |= ORT_LANG_XLIFF_COPY;
@@ -69,6 +71,9 @@ main(int argc, char *argv[])
 			goto usage;
 		}
 
+	if (c == 'x')
+		optind--;
+
 	argc -= optind;
 	argv += optind;
 
-- 
2.43.0


From efe1808e363689361bf862947caa09263c69efac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:37 +0000
Subject: [PATCH 029/110] fix: do not mistake a trailing -f or -x for a second
 file

---
 maindiff.c | 2 +-
 sqldiff.c  | 2 +-
 xliff.c    | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/maindiff.c b/maindiff.c
index afbc4b6..dc03ce6 100644
--- a/maindiff.c
+++ b/maindiff.c
@@ -77,7 +77,7 @@ main(int argc, char *argv[])
 
 	/* If we have 2 w/o -f, it's old-new. */
 
-	if (confsz == 0 && argc == 2)
+	if (dconfsz == (size_t)argc && argc == 2)
 		confsz = dconfsz = confst = 1;
 
 	/* Need at least one configuration. */
diff --git a/sqldiff.c b/sqldiff.c
index 17b6149..adf4ffb 100644
--- a/sqldiff.c
+++ b/sqldiff.c
@@ -87,7 +87,7 @@ main(int argc, char *argv[])
 
 	/* If we have 2 w/o -f, it's old-new. */
 
-	if (confsz == 0 && sz == 2)
+	if (dconfsz == sz && sz == 2)
 		confsz = dconfsz = confst = 1;
 
 	/* Need at least one configuration. */
diff --git a/xliff.c b/xliff.c
index 5c6dfe9..b971482 100644
--- a/xliff.c
+++ b/xliff.c
@@ -105,7 +105,7 @@ main(int argc, char *argv[])
 
 		/* If we have 2 w/o -x, it's old-new. */
 
-		if (args.insz == 0 && sz == 2)
+		if (confsz == sz && sz == 2)
 			args.insz = confsz = xmlstart = 1;
 
 		if (OP_UPDATE == op && args.insz > 1)
-- 
2.43.0


From 21af57612476b6c4879e1faffd44b536578ee150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:51 +0000
Subject: [PATCH 030/110] fix: escape strings and keep the precision of
 decimals in SQL defaults

---
 lang-sql.c | 34 +++++++++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/lang-sql.c b/lang-sql.c
index 01a8315..94b4ef5 100644
--- a/lang-sql.c
+++ b/lang-sql.c
@@ -263,6 +263,27 @@ ort_lang_sql(const struct ort_lang_sql *args,
 	return 1;
 }
 
+/*
+ * Generate a string literal, doubling single quotes and removing the
+ * escapes from double quotes.
+ */
+static int
+gen_string(FILE *f, const char *cp)
+{
+
+	if (fputc('\'', f) == EOF)
+		return 0;
+	for ( ; *cp != '\0'; cp++) {
+		if (cp[0] == '\\' && cp[1] == '"')
+			continue;
+		if (*cp == '\'' && fputc('\'', f) == EOF)
+			return 0;
+		if (fputc(*cp, f) == EOF)
+			return 0;
+	}
+	return fputc('\'', f) != EOF;
+}
+
 /*
  * This is the ALTER TABLE version of the field generators in
  * gen_struct().
@@ -270,7 +291,8 @@ ort_lang_sql(const struct ort_lang_sql *args,
 static int
 gen_diff_field_new(FILE *f, const struct field *fd)
 {
-	int	 rc;
+	char	 buf[64];
+	int	 rc, prec;
 
 	if (fprintf(f, "ALTER TABLE %s ADD COLUMN %s %s",
 	    fd->parent->name, fd->name, ftypes[fd->type]) < 0)
@@ -305,11 +327,17 @@ gen_diff_field_new(FILE *f, const struct field *fd)
 			rc = fprintf(f, "%" PRId64, fd->def.integer);
 			break;
 		case FTYPE_REAL:
-			rc = fprintf(f, "%g", fd->def.decimal);
+			for (prec = 6; prec < 17; prec++) {
+				snprintf(buf, sizeof(buf), 
+					"%.*g", prec, fd->def.decimal);
+				if (strtod(buf, NULL) == fd->def.decimal)
+					break;
+			}
+			rc = fprintf(f, "%.*g", prec, fd->def.decimal);
 			break;
 		case FTYPE_EMAIL:
 		case FTYPE_TEXT:
-			rc = fprintf(f, "'%s'", fd->def.string);
+			rc = gen_string(f, fd->def.string) ? 0 : -1;
 			break;
 		case FTYPE_ENUM:
 			rc = fprintf(f, "%" PRId64, 
-- 
2.43.0


From f243b86ec5a0f33ac048c9311ca548b792f8e299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:40 +0000
Subject: [PATCH 031/110] fix: drop tables in the reverse order of their
 references

---
 lang-sql.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lang-sql.c b/lang-sql.c
index 94b4ef5..69aa6f6 100644
--- a/lang-sql.c
+++ b/lang-sql.c
@@ -676,7 +676,9 @@ ort_lang_diff_sql(const struct ort_lang_sql *args,
 				goto out;
 		}
 
-	TAILQ_FOREACH(d, q, entries) 
+	/* Drop referring structures before those they refer to. */
+
+	TAILQ_FOREACH_REVERSE(d, q, diffq, entries) 
 		if (d->type == DIFF_DEL_STRCT && destruct) {
 			if (!gen_prologue(f, &prol))
 				goto out;
-- 
2.43.0


From e18798ae919cf4a2e82ec5933144c41c1a34605a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:14 +0000
Subject: [PATCH 032/110] fix: escape the empty string in JavaScript statements
 that concatenate

---
 lang.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lang.c b/lang.c
index 702a3d3..d8627b1 100644
--- a/lang.c
+++ b/lang.c
@@ -987,6 +987,8 @@ gen_sql_stmts(FILE *f, size_t tabs,
 
 				if ((ur->field->flags & FIELD_NULL)) {
 					if (fprintf(f, 
+					    lang == LANG_JS ?
+					    "COALESCE(%s,\\'\\')" :
 					    "COALESCE(%s,'')",
 					    ur->field->name) < 0)
 						return 0;
-- 
2.43.0


From 8bb30c432770d19753b377297cc8f1061863f6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:25 +0000
Subject: [PATCH 033/110] fix: count distinct or limited rows with valid SQL

---
 lang.c | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/lang.c b/lang.c
index d8627b1..bd07fc1 100644
--- a/lang.c
+++ b/lang.c
@@ -512,7 +512,7 @@ gen_sql_stmts(FILE *f, size_t tabs,
 	const struct update	*up;
 	const struct uref	*ur;
 	const struct ord	*ord;
-	int			 first, hastrail, needquot, rc;
+	int			 first, hastrail, needquot, subsel, rc;
 	size_t			 pos, nc, col, ntabs;
 	char			 delim;
 	const char		*spacer;
@@ -621,12 +621,18 @@ gen_sql_stmts(FILE *f, size_t tabs,
 		/* 
 		 * Juggle around the possibilities of...
 		 *   select count(*)
-		 *   select count(distinct --gen_sql_stmt_schema--)
+		 *   select count(*) from (select --anything below--)
 		 *   select --gen_sql_stmt_schema--
+		 * The second is for counting what's not simply the rows
+		 * that match.
 		 */
 
-		if (s->type == STYPE_COUNT) {
-			if ((rc = fprintf(f, "COUNT(")) < 0)
+		subsel = s->type == STYPE_COUNT &&
+			(s->dst != NULL || s->limit > 0 || s->offset > 0);
+
+		if (subsel) {
+			rc = fprintf(f, "COUNT(*) FROM (SELECT ");
+			if (rc < 0)
 				return 0;
 			col += (size_t)rc;
 		}
@@ -646,13 +652,11 @@ gen_sql_stmts(FILE *f, size_t tabs,
 				return 0;
 			needquot = 1;
 		} else
-			if (fputc('*', f) == EOF)
+			if (fputs(subsel ? "1" : "COUNT(*)", f) == EOF)
 				return 0;
 
 		if (needquot && fprintf(f, "%s%c", spacer, delim) < 0)
 			return 0;
-		if (s->type == STYPE_COUNT && fputc(')', f) == EOF)
-			return 0;
 		if (fprintf(f, " FROM %s", p->name) < 0)
 			return 0;
 
@@ -662,7 +666,7 @@ gen_sql_stmts(FILE *f, size_t tabs,
 		 * OFFSET commands.
 		 */
 
-		hastrail = 
+		hastrail = subsel ||
 			(s->aggr != NULL && s->group != NULL) ||
 			(!TAILQ_EMPTY(&s->sntq)) ||
 			(!TAILQ_EMPTY(&s->ordq)) ||
@@ -801,6 +805,8 @@ gen_sql_stmts(FILE *f, size_t tabs,
 		if (STYPE_SEARCH != s->type && s->offset > 0 &&
 		    fprintf(f, " OFFSET %" PRId64, s->offset) < 0)
 			return 0;
+		if (subsel && fputc(')', f) == EOF)
+			return 0;
 		if (fputc(delim, f) == EOF)
 			return 0;
 		if (lang == LANG_RUST && fputs("; }", f) == EOF)
-- 
2.43.0


From e204a6477ba50619c8eff5de54f970ee97ae7f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:35 +0000
Subject: [PATCH 034/110] fix: group the rows that match, one row per group

---
 lang.c | 79 ++++++++++++++++++----------------------------------------
 1 file changed, 24 insertions(+), 55 deletions(-)

diff --git a/lang.c b/lang.c
index bd07fc1..b6bb932 100644
--- a/lang.c
+++ b/lang.c
@@ -628,7 +628,8 @@ gen_sql_stmts(FILE *f, size_t tabs,
 		 */
 
 		subsel = s->type == STYPE_COUNT &&
-			(s->dst != NULL || s->limit > 0 || s->offset > 0);
+			(s->dst != NULL || s->group != NULL || 
+			 s->limit > 0 || s->offset > 0);
 
 		if (subsel) {
 			rc = fprintf(f, "COUNT(*) FROM (SELECT ");
@@ -678,45 +679,6 @@ gen_sql_stmts(FILE *f, size_t tabs,
 		    (f, ntabs, lang, p, p, NULL, &nc))
 			return 0;
 
-		/* 
-		 * We need to have a special JOIN command for aggregate
-		 * groupings: we LEFT OUTER JOIN the grouped set to
-		 * itself, conditioning upon the aggregate inequality.
-		 * We'll filter NULL joinings in the WHERE statement.
-		 */
-
-		if (NULL != s->aggr && NULL != s->group) {
-			assert(s->aggr->field->parent == 
-			       s->group->field->parent);
-			if (nc == 0 &&
-			    fprintf(f, " %c", delim) < 0)
-				return 0;
-			if (fputc('\n', f) == EOF)
-				return 0;
-			if (!gen_ws(f, ntabs + 1, lang))
-				return 0;
-			if (fprintf(f, 
-			    "%s%cLEFT OUTER JOIN %s as _custom "
-			    "ON %s.%s = _custom.%s "
-			    "AND %s.%s %s _custom.%s %c",
-			    spacer, delim,
-			    s->group->field->parent->name, 
-			    s->group->alias == NULL ?
-			    s->group->field->parent->name : 
-			    s->group->alias->alias,
-			    s->group->field->name, 
-			    s->group->field->name,
-			    s->group->alias == NULL ?
-			    s->group->field->parent->name : 
-			    s->group->alias->alias, 
-			    s->aggr->field->name, 
-			    AGGR_MAXROW == s->aggr->op ?  "<" : ">",
-			    s->aggr->field->name,
-			    delim) < 0)
-				return 0;
-			nc = 1;
-		}
-
 		if (!hastrail) {
 			if (nc == 0 && fputc(delim, f) == EOF)
 				return 0;
@@ -738,21 +700,7 @@ gen_sql_stmts(FILE *f, size_t tabs,
 
 		first = 1;
 
-		/* 
-		 * If we're grouping, filter out all of the joins that
-		 * failed and aren't part of the results.
-		 */
-
-		if (s->group != NULL) {
-			if (first && fputs("WHERE", f) == EOF)
-				return 0;
-			if (fprintf(f, " _custom.%s IS NULL", 
-			    s->group->field->name) < 0)
-				return 0;
-			first = 0;
-		}
-
-		/* Continue with our proper WHERE clauses. */
+		/* Our WHERE clauses. */
 
 		TAILQ_FOREACH(sent, &s->sntq, entries) {
 			if (sent->field->type == FTYPE_PASSWORD &&
@@ -782,6 +730,27 @@ gen_sql_stmts(FILE *f, size_t tabs,
 			}
 		}
 
+		/*
+		 * If we're grouping, use that the columns of a group in
+		 * sqlite3 are of the row having its only minimum or
+		 * maximum.  (The column is never null.)
+		 */
+
+		if (s->aggr != NULL && s->group != NULL) {
+			assert(s->aggr->field->parent == 
+			       s->group->field->parent);
+			if (fprintf(f, " GROUP BY %s.%s "
+			    "HAVING %s(%s.%s) NOTNULL",
+			    s->group->alias == NULL ?
+			    p->name : s->group->alias->alias,
+			    s->group->field->name,
+			    s->aggr->op == AGGR_MAXROW ? "MAX" : "MIN",
+			    s->aggr->alias == NULL ?
+			    p->name : s->aggr->alias->alias,
+			    s->aggr->field->name) < 0)
+				return 0;
+		}
+
 		first = 1;
 		if (!TAILQ_EMPTY(&s->ordq) &&
 		    fputs(" ORDER BY ", f) == EOF)
-- 
2.43.0


From 09b6d1ddc9f593763698ed84123b7774b1f8f4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:46 +0000
Subject: [PATCH 035/110] fix: offset searches, and offset without a limit

---
 lang.c | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/lang.c b/lang.c
index b6bb932..8df87af 100644
--- a/lang.c
+++ b/lang.c
@@ -672,7 +672,7 @@ gen_sql_stmts(FILE *f, size_t tabs,
 			(!TAILQ_EMPTY(&s->sntq)) ||
 			(!TAILQ_EMPTY(&s->ordq)) ||
 			(s->type != STYPE_SEARCH && s->limit > 0) ||
-			(s->type != STYPE_SEARCH && s->offset > 0);
+			s->offset > 0;
 		
 		nc = 0;
 		if (!gen_sql_stmt_join
@@ -768,12 +768,17 @@ gen_sql_stmts(FILE *f, size_t tabs,
 				return 0;
 		}
 
-		if (STYPE_SEARCH != s->type && s->limit > 0 &&
-		    fprintf(f, " LIMIT %" PRId64, s->limit) < 0)
-			return 0;
-		if (STYPE_SEARCH != s->type && s->offset > 0 &&
-		    fprintf(f, " OFFSET %" PRId64, s->offset) < 0)
-			return 0;
+		/* Searches only ever extract the first row. */
+
+		if (s->offset > 0) {
+			if (fprintf(f, " LIMIT %" PRId64 
+			    " OFFSET %" PRId64, 
+			    s->limit > 0 ? s->limit : -1,
+			    s->offset) < 0)
+				return 0;
+		} else if (STYPE_SEARCH != s->type && s->limit > 0)
+			if (fprintf(f, " LIMIT %" PRId64, s->limit) < 0)
+				return 0;
 		if (subsel && fputc(')', f) == EOF)
 			return 0;
 		if (fputc(delim, f) == EOF)
-- 
2.43.0


From f16a1523999f449d8777da98d3af45e41307b39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:30 +0000
Subject: [PATCH 036/110] fix: report all violations of constraints as such in
 Node

---
 lang-nodejs.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lang-nodejs.c b/lang-nodejs.c
index 778be6d..16e701f 100644
--- a/lang-nodejs.c
+++ b/lang-nodejs.c
@@ -531,6 +531,8 @@ gen_insert(FILE *f, const struct strct *p)
 	     "\t\t\tinfo = stmt.run(parms);\n"
 	     "\t\t} catch (er) {\n"
 	     "\t\t\tif (er.code === 'SQLITE_CONSTRAINT_UNIQUE' ||\n"
+	     "\t\t\t    er.code === 'SQLITE_CONSTRAINT_PRIMARYKEY' ||\n"
+	     "\t\t\t    er.code === 'SQLITE_CONSTRAINT_TRIGGER' ||\n"
 	     "\t\t\t    er.code === 'SQLITE_CONSTRAINT_FOREIGNKEY')\n"
 	     "\t\t\t\treturn BigInt(-1);\n"
 	     "\t\t\tthrow er;\n"
@@ -826,6 +828,8 @@ gen_update(FILE *f, const struct config *cfg,
 		    "\t\t\tinfo = stmt.run(parms);\n"
 		    "\t\t} catch (er) {\n"
 		    "\t\t\tif (er.code === 'SQLITE_CONSTRAINT_UNIQUE' ||\n"
+		    "\t\t\t    er.code === 'SQLITE_CONSTRAINT_PRIMARYKEY' ||\n"
+		    "\t\t\t    er.code === 'SQLITE_CONSTRAINT_TRIGGER' ||\n"
 		    "\t\t\t    er.code === 'SQLITE_CONSTRAINT_FOREIGNKEY')\n"
 		    "\t\t\t\treturn false;\n"
 		    "\t\t\tthrow er;\n"
-- 
2.43.0


From 507b7b71472ab91b130f4c2263b2eaffb3ea8092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:42 +0000
Subject: [PATCH 037/110] fix: begin transactions with valid SQL in Node

---
 lang-nodejs.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lang-nodejs.c b/lang-nodejs.c
index 16e701f..ccf9751 100644
--- a/lang-nodejs.c
+++ b/lang-nodejs.c
@@ -2157,7 +2157,7 @@ gen_ortctx(const struct ort_lang_nodejs *args,
 		return 0;
 	if (fputs("\tdb_trans_open_immediate(id: number): void\n"
 	    "\t{\n"
-	    "\t\tthis.#o.db.exec(\'BEGIN TRANSACTION IMMEDIATE\');\n"
+	    "\t\tthis.#o.db.exec(\'BEGIN IMMEDIATE TRANSACTION\');\n"
 	    "\t}\n\n", f) == EOF)
 		return 0;
 
@@ -2172,7 +2172,7 @@ gen_ortctx(const struct ort_lang_nodejs *args,
 		return 0;
 	if (fputs("\tdb_trans_open_deferred(id: number): void\n"
 	    "\t{\n"
-	    "\t\tthis.#o.db.exec(\'BEGIN TRANSACTION DEFERRED\');\n"
+	    "\t\tthis.#o.db.exec(\'BEGIN DEFERRED TRANSACTION\');\n"
 	    "\t}\n\n", f) == EOF)
 		return 0;
 
@@ -2185,7 +2185,7 @@ gen_ortctx(const struct ort_lang_nodejs *args,
 		return 0;
 	if (fputs("\tdb_trans_open_exclusive(id: number): void\n"
 	    "\t{\n"
-	    "\t\tthis.#o.db.exec(\'BEGIN TRANSACTION EXCLUSIVE\');\n"
+	    "\t\tthis.#o.db.exec(\'BEGIN EXCLUSIVE TRANSACTION\');\n"
 	    "\t}\n\n", f) == EOF)
 		return 0;
 
-- 
2.43.0


From c9a371c3dc369fa94d88adfe9084ab9862f63995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:53 +0000
Subject: [PATCH 038/110] fix: name the type of ort's arguments correctly

---
 lang-nodejs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lang-nodejs.c b/lang-nodejs.c
index ccf9751..9d5eae9 100644
--- a/lang-nodejs.c
+++ b/lang-nodejs.c
@@ -2286,7 +2286,7 @@ ort_lang_nodejs(const struct ort_lang_nodejs *args,
 		    fputs("export ", f) == EOF)
 			return 0;
 		if (fputs
-		    ("function ort(dbname: string, args?: optargs): ortdb\n"
+		    ("function ort(dbname: string, args?: ortargs): ortdb\n"
 		     "{\n"
 		     "\treturn new ortdb(dbname, args);\n"
 		     "}\n", f) == EOF)
-- 
2.43.0


From aef14f104ac9ed59b5bdd86dcb5cd895ac8aad59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:05 +0000
Subject: [PATCH 039/110] fix: let roles move to their ancestors, not their
 descendants, in Node

---
 lang-nodejs.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/lang-nodejs.c b/lang-nodejs.c
index 9d5eae9..f8f63f2 100644
--- a/lang-nodejs.c
+++ b/lang-nodejs.c
@@ -1997,9 +1997,13 @@ gen_ortctx_dbrole_role(FILE *f, const struct role *r)
 	    "\t\t\tswitch(newrole) {\n", r->name) < 0)
 		return 0;
 
-	if (!gen_role(f, r, 3))
-		return 0;
-	if (fputs("\t\t\t\tthis.#role = newrole;\n"
+	/* All ancestors but for "all", and the role of nothing. */
+
+	for (rr = r; strcmp(rr->name, "all") != 0; rr = rr->parent)
+		if (fprintf(f, "\t\t\tcase '%s':\n", rr->name) < 0)
+			return 0;
+	if (fputs("\t\t\tcase 'none':\n"
+	    "\t\t\t\tthis.#role = newrole;\n"
 	    "\t\t\t\treturn;\n"
 	    "\t\t\tdefault:\n"
 	    "\t\t\t\tbreak;\n"
@@ -2060,7 +2064,7 @@ gen_ortctx_dbrole(FILE *f, const struct config *cfg)
 	    "\t\t\tprocess.abort();\n\n", f) == EOF)
 		return 0;
 
-	/* All possible descents from current into encompassed role. */
+	/* All possible ascents from current into encompassing role. */
 
 	if (fputs("\t\tswitch (this.#role) {\n"
 	    "\t\tcase 'default':\n"
-- 
2.43.0


From 3eee0b8c3131ac1d23da5c9edd3dce340da122ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:17 +0000
Subject: [PATCH 040/110] fix: deny operations without roles when roles are
 enabled in Node

---
 lang-nodejs.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/lang-nodejs.c b/lang-nodejs.c
index f8f63f2..ac9b081 100644
--- a/lang-nodejs.c
+++ b/lang-nodejs.c
@@ -171,12 +171,16 @@ gen_role(FILE *f, const struct role *r, size_t tabs)
  * Return <0 on failure, >0 if we wrote something, 0 otherwise.
  */
 static int
-gen_rolemap(FILE *f, const struct rolemap *rm)
+gen_rolemap(FILE *f, const struct config *cfg, const struct rolemap *rm)
 {
 	const struct rref	*rr;
 
-	if (rm == NULL)
+	/* With roles, what's not assigned any is denied to all. */
+
+	if (rm == NULL && TAILQ_EMPTY(&cfg->rq))
 		return 0;
+	else if (rm == NULL)
+		return fputs("\t\tprocess.abort();\n", f) != EOF;
 
 	if (fputs("\t\tswitch (this.#role) {\n", f) == EOF)
 		return 0;
@@ -386,7 +390,7 @@ gen_fill(FILE *f, const struct strct *p)
  * success.
  */
 static int
-gen_insert(FILE *f, const struct strct *p)
+gen_insert(FILE *f, const struct config *cfg, const struct strct *p)
 {
 	const struct field	*fd;
 	size_t	 	 	 pos = 1, col;
@@ -461,7 +465,7 @@ gen_insert(FILE *f, const struct strct *p)
 	    "\n", p->name) < 0)
 		return 0;
 
-	if ((rc = gen_rolemap(f, p->ins->rolemap)) < 0)
+	if ((rc = gen_rolemap(f, cfg, p->ins->rolemap)) < 0)
 		return 0;
 	else if (rc > 0 && fputc('\n', f) == EOF)
 		return 0;
@@ -732,7 +736,7 @@ gen_update(FILE *f, const struct config *cfg,
 	    num) < 0)
 		return 0;
 
-	if ((rc = gen_rolemap(f, up->rolemap)) < 0)
+	if ((rc = gen_rolemap(f, cfg, up->rolemap)) < 0)
 		return 0;
 	else if (rc > 0 && fputc('\n', f) == EOF)
 		return 0;
@@ -1148,7 +1152,7 @@ gen_query(FILE *f, const struct config *cfg,
 	    "\t\tstmt.raw(true);\n"
 	    "\n", s->parent->name, num) < 0)
 		return 0;
-	if ((rc = gen_rolemap(f, s->rolemap)) < 0)
+	if ((rc = gen_rolemap(f, cfg, s->rolemap)) < 0)
 		return 0;
 	else if (rc > 0 && fputc('\n', f) == EOF)
 		return 0;
@@ -1292,7 +1296,7 @@ gen_api(FILE *f, const struct config *cfg, const struct strct *p)
 	if (!gen_reffind(f, p))
 		return 0;
 
-	if (p->ins != NULL && !gen_insert(f, p))
+	if (p->ins != NULL && !gen_insert(f, cfg, p))
 		return 0;
 
 	pos = 0;
-- 
2.43.0


From ddde09e41463b1dabda7efc122e327522ccd751f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:58 +0000
Subject: [PATCH 041/110] fix: enforce limits on lengths in Node validators, in
 bytes

---
 lang-nodejs.c | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/lang-nodejs.c b/lang-nodejs.c
index ac9b081..a45c7f9 100644
--- a/lang-nodejs.c
+++ b/lang-nodejs.c
@@ -1614,7 +1614,17 @@ gen_ortns_express_valid(FILE *f, const struct field *fd)
 
 	switch (fd->type) {
 	case FTYPE_BLOB:
-		if (fputs("\t\t\treturn Buffer.from(v);\n", f) == EOF)
+		if (fputs
+		    ("\t\t\tconst nv: Buffer = "
+		     "Buffer.from(v);\n", f) == EOF)
+			return 0;
+		TAILQ_FOREACH(fv, &fd->fvq, entries)
+			if (fprintf(f, 
+			    "\t\t\tif (!(nv.length %s %zu))\n"
+			    "\t\t\t\treturn null;\n", 
+			    vtypes[fv->type], fv->d.value.len) < 0)
+				return 0;
+		if (fputs("\t\t\treturn nv;\n", f) == EOF)
 			return 0;
 		return 1;
 	case FTYPE_TEXT:
@@ -1625,7 +1635,7 @@ gen_ortns_express_valid(FILE *f, const struct field *fd)
 			return 0;
 		TAILQ_FOREACH(fv, &fd->fvq, entries)
 			if (fprintf(f, 
-			    "\t\t\tif (!(nv.length %s %zu))\n"
+			    "\t\t\tif (!(Buffer.byteLength(nv) %s %zu))\n"
 			    "\t\t\t\treturn null;\n", 
 			    vtypes[fv->type], fv->d.value.len) < 0)
 				return 0;
@@ -1638,8 +1648,16 @@ gen_ortns_express_valid(FILE *f, const struct field *fd)
 		     "\t\t\t\treturn null;\n"
 		     "\t\t\tconst em: string|false = \n"
 		     "\t\t\t\tvalidator.normalizeEmail(v.trim());\n"
-		     "\t\t\treturn typeof(em) === 'string' ? "
-		     "em : null;\n", f) == EOF)
+		     "\t\t\tif (typeof(em) !== 'string')\n"
+		     "\t\t\t\treturn null;\n", f) == EOF)
+			return 0;
+		TAILQ_FOREACH(fv, &fd->fvq, entries)
+			if (fprintf(f, 
+			    "\t\t\tif (!(Buffer.byteLength(em) %s %zu))\n"
+			    "\t\t\t\treturn null;\n", 
+			    vtypes[fv->type], fv->d.value.len) < 0)
+				return 0;
+		if (fputs("\t\t\treturn em;\n", f) == EOF)
 			return 0;
 		return 1;
 	case FTYPE_REAL:
-- 
2.43.0


From 460b31de29c3df0cb2f900b65c5631cd18d95e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:59 +0000
Subject: [PATCH 042/110] fix: keep the precision of decimal limits in Node
 validators

---
 lang-nodejs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lang-nodejs.c b/lang-nodejs.c
index a45c7f9..62e7c98 100644
--- a/lang-nodejs.c
+++ b/lang-nodejs.c
@@ -1672,7 +1672,7 @@ gen_ortns_express_valid(FILE *f, const struct field *fd)
 			return 0;
 		TAILQ_FOREACH(fv, &fd->fvq, entries)
 			if (fprintf(f, 
-			    "\t\t\tif (!(nv %s %f))\n"
+			    "\t\t\tif (!(nv %s %.17g))\n"
 			    "\t\t\t\treturn null;\n", 
 			    vtypes[fv->type], fv->d.value.decimal) < 0)
 				return 0;
-- 
2.43.0


From 48bdb1581eddd1229525b263a28cc92337b6702a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:22 +0000
Subject: [PATCH 043/110] fix: do not throw on e-mail and date values that are
 not strings in Node

---
 lang-nodejs.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lang-nodejs.c b/lang-nodejs.c
index 62e7c98..1802f70 100644
--- a/lang-nodejs.c
+++ b/lang-nodejs.c
@@ -1644,10 +1644,10 @@ gen_ortns_express_valid(FILE *f, const struct field *fd)
 		return 1;
 	case FTYPE_EMAIL:
 		if (fputs
-		    ("\t\t\tif (!validator.isEmail(v.trim()))\n"
+		    ("\t\t\tif (!validator.isEmail(v.toString().trim()))\n"
 		     "\t\t\t\treturn null;\n"
 		     "\t\t\tconst em: string|false = \n"
-		     "\t\t\t\tvalidator.normalizeEmail(v.trim());\n"
+		     "\t\t\t\tvalidator.normalizeEmail(v.toString().trim());\n"
 		     "\t\t\tif (typeof(em) !== 'string')\n"
 		     "\t\t\t\treturn null;\n", f) == EOF)
 			return 0;
@@ -1681,11 +1681,11 @@ gen_ortns_express_valid(FILE *f, const struct field *fd)
 		return 1;
 	case FTYPE_DATE:
 		if (fputs
-		    ("\t\t\tif (!validator.isDate(v.trim(), { "
+		    ("\t\t\tif (!validator.isDate(v.toString().trim(), { "
 		     "format: 'YYYY-MM-DD', strictMode: true }))\n"
 		     "\t\t\t\treturn null;\n"
 		     "\t\t\tconst nd: Date|null = "
-		     "validator.toDate(v.trim());\n"
+		     "validator.toDate(v.toString().trim());\n"
 		     "\t\t\tif (nd === null)\n"
 		     "\t\t\t\treturn null;\n"
 		     "\t\t\tconst nv: bigint = "
-- 
2.43.0


From d4c098d65a473728839c871c0d79f9f69cd54bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:13 +0000
Subject: [PATCH 044/110] fix: C types of references to references

A field referencing a field that is itself a reference was given a type
that's never defined.  Use the type of the ultimately-referenced field.
---
 lang-c-header.c  | 12 ++++++------
 lang-c-manpage.c |  4 ++--
 lang-c.c         | 34 +++++++++++++++++++++++++++++++++-
 lang-c.h         |  3 +++
 4 files changed, 44 insertions(+), 9 deletions(-)

diff --git a/lang-c-header.c b/lang-c-header.c
index a5af397..bca4393 100644
--- a/lang-c-header.c
+++ b/lang-c-header.c
@@ -94,7 +94,7 @@ gen_field(FILE *f, const struct field *fd)
 	case FTYPE_DATE:
 	case FTYPE_EPOCH:
 	case FTYPE_INT:
-		rfd = fd->ref != NULL ? fd->ref->target : fd;
+		rfd = get_type_field(fd);
 		c = fprintf(f, "\t%s_%s\t %s;\n",
 			rfd->parent->name, rfd->name, fd->name);
 		break;
@@ -233,8 +233,8 @@ gen_type_funcs(FILE *f, const struct ort_lang_c *args,
 			 * not the reference.
 			 */
 
-			rfd = fd->ref != NULL ? fd->ref->target : fd;
-			if (fd->ref == NULL &&
+			rfd = get_type_field(fd);
+			if (get_type_field(fd) == fd &&
 			    fprintf(f,
 			    "#define ORT_%s_%s(_src) "
 			     "(%s_%s){ .val = (_src) }\n",
@@ -283,7 +283,7 @@ gen_type_funcs(FILE *f, const struct ort_lang_c *args,
 
 			/* Like above, don't expand references. */
 
-			if (fd->ref == NULL &&
+			if (get_type_field(fd) == fd &&
 			    fprintf(f,
 			    "#define ORT_%s_%s(_src) (_src)\n",
 			    s->name, fd->name) < 0)
@@ -342,7 +342,7 @@ gen_types(FILE *f, const struct ort_lang_c *args,
 					type = "time_t";
 				else
 					type = "int64_t";
-				if (fd->ref == NULL &&
+				if (get_type_field(fd) == fd &&
 				    fprintf(f,
 				    "typedef struct %s_%s "
 				     "{ %s val; } %s_%s;\n",
@@ -366,7 +366,7 @@ gen_types(FILE *f, const struct ort_lang_c *args,
 					type = "time_t";
 				else
 					type = "int64_t";
-				if (fd->ref == NULL &&
+				if (get_type_field(fd) == fd &&
 				    fprintf(f,
 				    "typedef %s %s_%s;\n",
 				    type, s->name, fd->name) < 0)
diff --git a/lang-c-manpage.c b/lang-c-manpage.c
index 9073d25..9c215d8 100644
--- a/lang-c-manpage.c
+++ b/lang-c-manpage.c
@@ -50,7 +50,7 @@ gen_field_type(FILE *f, const struct field *fd)
 	case FTYPE_DATE:
 	case FTYPE_EPOCH:
 	case FTYPE_INT:
-		rfd = fd->ref != NULL ? fd->ref->target : fd;
+		rfd = get_type_field(fd);
 		c = fprintf(f, "%s_%s", rfd->parent->name, rfd->name);
 		break;
 	default:
@@ -316,7 +316,7 @@ gen_field(FILE *f, const struct field *fd)
 	case FTYPE_DATE:
 	case FTYPE_EPOCH:
 	case FTYPE_INT:
-		rfd = fd->ref != NULL ? fd->ref->target : fd;
+		rfd = get_type_field(fd);
 		c = fprintf(f, "%s_%s %s\n", 
 			rfd->parent->name, rfd->name, fd->name);
 		break;
diff --git a/lang-c.c b/lang-c.c
index 8f3fb64..d811b90 100644
--- a/lang-c.c
+++ b/lang-c.c
@@ -259,6 +259,38 @@ gen_func_db_close(FILE *f, int decl)
 		decl ? " " : "\n", decl ? ";" : "") > 0;
 }
 
+/*
+ * Integral fields use a type named after the field they ultimately
+ * reference, as references may be to fields that are also references.
+ * If these are circular, use the lexically-first of the circle.
+ * Return the field, which is "fd" itself if not a reference.
+ */
+const struct field *
+get_type_field(const struct field *fd)
+{
+	const struct field	*slow = fd, *first;
+	int			 c, step = 0;
+
+	while (fd->ref != NULL) {
+		fd = fd->ref->target;
+		if (step)
+			slow = slow->ref->target;
+		step = !step;
+		if (fd != slow)
+			continue;
+		for (first = fd, fd = fd->ref->target;
+		     fd != slow; fd = fd->ref->target) {
+			c = strcmp(fd->parent->name, first->parent->name);
+			if (c < 0 || (c == 0 &&
+			    strcmp(fd->name, first->name) < 0))
+				first = fd;
+		}
+		return first;
+	}
+
+	return fd;
+}
+
 /*
  * Generate the variables in a function header, breaking the line at 72
  * characters to indent 5 spaces.  The "col" is the current position in
@@ -305,7 +337,7 @@ print_var(FILE *f, size_t pos, size_t col,
 	case FTYPE_DATE:
 	case FTYPE_EPOCH:
 	case FTYPE_INT:
-		rfd = fd->ref != NULL ? fd->ref->target : fd;
+		rfd = get_type_field(fd);
 		rc = fprintf(f, "%s_%s %sv%zu", 
 			rfd->parent->name, rfd->name,
 			(flags & FIELD_NULL) ?  "*" : "", pos);
diff --git a/lang-c.h b/lang-c.h
index 8bf839b..544f79f 100644
--- a/lang-c.h
+++ b/lang-c.h
@@ -60,6 +60,9 @@ int	gen_filldep(struct filldepq *, const struct strct *, unsigned int);
 const struct filldep *
 	get_filldep(const struct filldepq *, const struct strct *);
 
+const struct field
+	*get_type_field(const struct field *);
+
 const char	*get_optype_str(enum optype);
 const char	*get_modtype_str(enum modtype);
 const char	*get_stype_str(enum stype);
-- 
2.43.0


From 13d925849d8b6237674861db094cd7947d51ab57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:22 +0000
Subject: [PATCH 045/110] fix: C lookup of null references by keys that aren't
 integers

These assumed an integer, so wouldn't compile with other keys.
---
 lang-c-source.c | 41 +++++++++++++++++++++++++++++++++++------
 1 file changed, 35 insertions(+), 6 deletions(-)

diff --git a/lang-c-source.c b/lang-c-source.c
index 077b475..a563ca6 100644
--- a/lang-c-source.c
+++ b/lang-c-source.c
@@ -451,6 +451,37 @@ gen_bind_val(FILE *f, const struct field *fd,
 	return gen_bind(f, fd, idx, pos, 0, 1, type);
 }
 
+/*
+ * Bind the value of field "fd" in the structure "p" to "parm".
+ * Return zero on failure, non-zero on success.
+ */
+static int
+gen_bind_ref(FILE *f, const struct field *fd)
+{
+	if (fprintf(f,
+	    "\t\tmemset(&parm, 0, sizeof(parm));\n"
+	    "\t\tparm.type = %s;\n", bindtypes[fd->type]) < 0)
+		return 0;
+
+	switch (fd->type) {
+	case FTYPE_BIT:
+	case FTYPE_BITFIELD:
+	case FTYPE_DATE:
+	case FTYPE_EPOCH:
+	case FTYPE_INT:
+		return fprintf(f, "\t\tparm.%s = ORT_GET_%s_%s(p);\n",
+			bindvars[fd->type],
+			fd->parent->name, fd->name) > 0;
+	case FTYPE_BLOB:
+		return fprintf(f, "\t\tparm.%s = p->%s;\n"
+			"\t\tparm.sz = p->%s_sz;\n",
+			bindvars[fd->type], fd->name, fd->name) > 0;
+	default:
+		return fprintf(f, "\t\tparm.%s = p->%s;\n",
+			bindvars[fd->type], fd->name) > 0;
+	}
+}
+
 /*
  * Like gen_bind() but only for hashed passwords.
  * Accepts an additional "hpos", which is the index of the current
@@ -1711,9 +1742,10 @@ gen_reffind(FILE *f, const struct config *cfg, const struct strct *p)
 		if (fd->type != FTYPE_STRUCT)
 			continue;
 		if ((fd->ref->source->flags & FIELD_NULL))
-			if (fprintf(f, "\tif (p->has_%s) {\n"
-			    "\t\tparm.type = SQLBOX_PARM_INT;\n"
-			    "\t\tparm.iparm = ORT_GET_%s_%s(p);\n"
+			if (fprintf(f, "\tif (p->has_%s) {\n",
+			    fd->ref->source->name) < 0 ||
+			    !gen_bind_ref(f, fd->ref->source) ||
+			    fprintf(f,
 			    "\t\tif (!sqlbox_prepare_bind_async\n"
 			    "\t\t    (db, 0, STMT_%s_BY_UNIQUE_%s, 1, &parm, 0))\n"
 			    "\t\t\texit(EXIT_FAILURE);\n"
@@ -1724,9 +1756,6 @@ gen_reffind(FILE *f, const struct config *cfg, const struct strct *p)
 			    "\t\t\texit(EXIT_FAILURE);\n"
 			    "\t\tp->has_%s = 1;\n"
 			    "\t}\n",
-			    fd->ref->source->name,
-			    fd->ref->source->parent->name,
-			    fd->ref->source->name,
 			    fd->ref->target->parent->name,
 			    fd->ref->target->name,
 			    fd->ref->target->parent->name,
-- 
2.43.0


From a9d91d1e34b007200fed04595198308ee7dde4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:22 +0000
Subject: [PATCH 046/110] fix: position of C iterate parameters after a
 password

Passwords aren't bound, so it's the bound index that doesn't advance and
not the argument's position.
---
 lang-c-source.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lang-c-source.c b/lang-c-source.c
index a563ca6..5cb78bf 100644
--- a/lang-c-source.c
+++ b/lang-c-source.c
@@ -558,8 +558,8 @@ gen_iterator(FILE *f, const struct config *cfg,
 				idx, pos, sent->op);
 			if (c < 0)
 				return 0;
-			pos += (size_t)c;
-			idx++;
+			idx += (size_t)c;
+			pos++;
 		}
 
 	/* Prepare and step. */
-- 
2.43.0


From 15e4932856b0a961975ad513228eb116ec3a7337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:22 +0000
Subject: [PATCH 047/110] fix: C search with several passwords

Don't check a further password if one has already not matched.
---
 lang-c-source.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lang-c-source.c b/lang-c-source.c
index 5cb78bf..16c0183 100644
--- a/lang-c-source.c
+++ b/lang-c-source.c
@@ -1422,11 +1422,11 @@ gen_search(FILE *f, const struct config *cfg,
 			pos++;
 			continue;
 		}
-		if (fputs("\t\tif ", f) == EOF)
+		if (fputs("\t\tif (p != NULL && ", f) == EOF)
 			return 0;
 		if (!gen_checkpass(f, 1, pos, sent))
 			return 0;
-		if (fprintf(f, " {\n"
+		if (fprintf(f, ") {\n"
 		    "\t\t\tdb_%s_free(p);\n"
 		    "\t\t\tp = NULL;\n"
 		    "\t\t}\n",
-- 
2.43.0


From a26945ad26e557a8bab98afd7ddb74290bbf7622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:46 +0000
Subject: [PATCH 048/110] fix: C export of fields unexported for a role and its
 descendants

These had several cases of the same role, which doesn't compile.
---
 lang-c-source.c | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/lang-c-source.c b/lang-c-source.c
index 16c0183..fcf3f20 100644
--- a/lang-c-source.c
+++ b/lang-c-source.c
@@ -254,6 +254,24 @@ gen_role(FILE *f, const struct role *r)
 	return 1;
 }
 
+/*
+ * Whether an ancestor of "r" is also in the role map: gen_role() of the
+ * ancestor already prints "r".
+ */
+static int
+has_ancestor(const struct rolemap *map, const struct role *r)
+{
+	const struct rref	*rs;
+	const struct role	*rp;
+
+	for (rp = r->parent; rp != NULL; rp = rp->parent)
+		TAILQ_FOREACH(rs, &map->rq, entries)
+			if (rs->role == rp)
+				return 1;
+
+	return 0;
+}
+
 /*
  * Fill an individual field from the database in gen_fill().
  * Return zero on failure, non-zero on success.
@@ -2176,7 +2194,8 @@ gen_json_out_field(FILE *f,
 		    "(p->priv_store)) {\n", f) == EOF)
 			return 0;
 		TAILQ_FOREACH(rs, &fd->rolemap->rq, entries)
-			if (!gen_role(f, rs->role))
+			if (!has_ancestor(fd->rolemap, rs->role) &&
+			    !gen_role(f, rs->role))
 				return 0;
 		if (!gen_comment(f, 2, COMMENT_C,
 		    "Don't export field to noted roles."))
-- 
2.43.0


From 46d5d9b334c97ab093205ac4974ce363b14adc93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:46 +0000
Subject: [PATCH 049/110] fix: let C roles enter none

As documented, this may be entered from any role.
---
 lang-c-source.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lang-c-source.c b/lang-c-source.c
index fcf3f20..2b84e67 100644
--- a/lang-c-source.c
+++ b/lang-c-source.c
@@ -1192,6 +1192,10 @@ gen_func_role_transitions(FILE *f, const struct config *cfg)
 	    "\t\treturn;\n"
 	    "\tif (ctx->role == ROLE_none)\n"
 	    "\t\tabort();\n"
+	    "\tif (r == ROLE_none) {\n"
+	    "\t\tctx->role = r;\n"
+	    "\t\treturn;\n"
+	    "\t}\n"
 	    "\n"
 	    "\tswitch (ctx->role) {\n"
 	    "\tcase ROLE_default:\n"
-- 
2.43.0


From 45afce44188d82b9a42f5dd120e195418bacd360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:57 +0000
Subject: [PATCH 050/110] fix: keep the precision of decimal limits in C
 validators

---
 lang-c-source.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lang-c-source.c b/lang-c-source.c
index 2b84e67..aa6d82a 100644
--- a/lang-c-source.c
+++ b/lang-c-source.c
@@ -2078,7 +2078,7 @@ gen_valids_field(FILE *f,
 		break;
 	case FTYPE_REAL:
 		if (fprintf(f,
-		    "\tif (p->parsed.d %s %g)\n"
+		    "\tif (p->parsed.d %s %.17g)\n"
 		    "\t\treturn 0;\n",
 		    validbins[v->type], v->d.value.decimal) < 0)
 			return 0;
-- 
2.43.0


From ba094fd71f6ce09cfe169da9ef1f122a4ea964cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:58 +0000
Subject: [PATCH 051/110] fix: define all C validators that are declared, with
 limits of blobs

---
 lang-c-header.c |  2 ++
 lang-c-source.c | 29 +++++++++++++++++------------
 2 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/lang-c-header.c b/lang-c-header.c
index bca4393..13acf85 100644
--- a/lang-c-header.c
+++ b/lang-c-header.c
@@ -874,6 +874,8 @@ gen_valids(FILE *f, const struct config *cfg, const struct strct *p)
 	const struct field	*fd;
 
 	TAILQ_FOREACH(fd, &p->fq, entries) {
+		if (fd->type == FTYPE_STRUCT)
+			continue;
 		if (fputc('\n', f) == EOF)
 			return 0;
 		if (!gen_commentv(f, 0, COMMENT_C,
diff --git a/lang-c-source.c b/lang-c-source.c
index aa6d82a..2376691 100644
--- a/lang-c-source.c
+++ b/lang-c-source.c
@@ -2110,22 +2110,27 @@ gen_valids(FILE *f, const struct strct *p)
 	const struct eitem	*ei;
 
 	TAILQ_FOREACH(fd, &p->fq, entries) {
-		if (fd->type == FTYPE_STRUCT ||
-		    fd->type == FTYPE_BLOB)
-			continue;
-		if (fd->type != FTYPE_ENUM &&
-		    TAILQ_EMPTY(&fd->fvq))
+		if (fd->type == FTYPE_STRUCT)
 			continue;
 
-		assert(validtypes[fd->type] != NULL);
-
 		if (!gen_func_valid(f, fd, 0))
 			return 0;
-		if (fprintf(f, "{\n"
-		    "\tif (!%s(p))\n"
-		    "\t\treturn 0;\n", validtypes[fd->type]) < 0)
+		if (fputs("{\n", f) == EOF)
 			return 0;
 
+		/* Blobs have no type to check: only limits. */
+
+		if (fd->type == FTYPE_BLOB) {
+			if (fputs("\t(void)p;\n", f) == EOF)
+				return 0;
+		} else {
+			assert(validtypes[fd->type] != NULL);
+			if (fprintf(f, "\tif (!%s(p))\n"
+			    "\t\treturn 0;\n",
+			    validtypes[fd->type]) < 0)
+				return 0;
+		}
+
 		/* Enumeration: check against knowns. */
 
 		if (fd->type == FTYPE_ENUM) {
@@ -2814,12 +2819,12 @@ gen_valid(FILE *f, const struct strct *p)
 
 	/*
 	 * Don't generate an entry for structs.
-	 * Blobs always succeed (NULL validator).
+	 * Blobs without limits always succeed (NULL validator).
 	 * Non-enums without limits use the default function.
 	 */
 
 	TAILQ_FOREACH(fd, &p->fq, entries) {
-		if (fd->type == FTYPE_BLOB) {
+		if (fd->type == FTYPE_BLOB && TAILQ_EMPTY(&fd->fvq)) {
 			if (fprintf(f, "\t{ NULL, \"%s-%s\" },\n",
 			    p->name, fd->name) < 0)
 				return 0;
-- 
2.43.0


From fbe153d70fab443f592a8abbf758921b7a06c9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:58 +0000
Subject: [PATCH 052/110] fix: C of structures with null references but no
 queries

---
 lang-c-source.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lang-c-source.c b/lang-c-source.c
index 2376691..7a891ce 100644
--- a/lang-c-source.c
+++ b/lang-c-source.c
@@ -2762,7 +2762,7 @@ gen_functions(FILE *f, const struct config *cfg, const struct strct *p,
 			return 0;
 		if (!gen_unfill_r(f, p))
 			return 0;
-		if (!gen_reffind(f, cfg, p))
+		if (fd != NULL && !gen_reffind(f, cfg, p))
 			return 0;
 		if (!gen_free(f, p))
 			return 0;
-- 
2.43.0


From dc388e49d2c40971396c2ad26858d15ef692cdd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:59 +0000
Subject: [PATCH 053/110] fix: refuse malformed and too large numbers in JSON
 import

---
 jsmn.c          | 23 +++++++++--------------
 lang-c-source.c |  1 +
 2 files changed, 10 insertions(+), 14 deletions(-)

diff --git a/jsmn.c b/jsmn.c
index cb0b249..12b06f5 100644
--- a/jsmn.c
+++ b/jsmn.c
@@ -317,35 +317,30 @@ jsmn_eq(const char *json, const jsmntok_t *tok, const char *s)
 static int
 jsmn_parse_real(const char *buf, size_t sz, double *ret)
 {
-	char 	 tmp[128];
-	int	 rc;
+	char	 tmp[128], *ep;
 
-	if (sz > sizeof(tmp) - 1)
+	if (sz == 0 || sz > sizeof(tmp) - 1)
 		return 0;
 
 	memcpy(tmp, buf, sz);
 	tmp[sz] = '\0';
 
-	if ((rc = sscanf(tmp, "%lf", ret)) == -1)
-		return -1;
-
-	return 1 == rc;
+	*ret = strtod(tmp, &ep);
+	return ep != tmp && *ep == '\0';
 }
 
 static int
 jsmn_parse_int(const char *buf, size_t sz, int64_t *ret)
 {
-	char 	 tmp[32];
-	int	 rc;
+	char	 tmp[32], *ep;
 
-	if (sz > sizeof(tmp) - 1)
+	if (sz == 0 || sz > sizeof(tmp) - 1)
 		return 0;
 
 	memcpy(tmp, buf, sz);
 	tmp[sz] = '\0';
 
-	if ((rc = sscanf(tmp, "%" SCNd64, ret)) == -1)
-		return -1;
-
-	return 1 == rc;
+	errno = 0;
+	*ret = strtoll(tmp, &ep, 10);
+	return errno == 0 && ep != tmp && *ep == '\0';
 }
diff --git a/lang-c-source.c b/lang-c-source.c
index 7a891ce..0abd86b 100644
--- a/lang-c-source.c
+++ b/lang-c-source.c
@@ -2955,6 +2955,7 @@ ort_lang_c_source(const struct ort_lang_c *args,
 	if (args->flags & ORT_LANG_C_JSON_JSMN)
 		if (fputs(
 		    "#include <ctype.h>\n"
+		    "#include <errno.h>\n"
 		    "#include <inttypes.h>\n", f) == EOF)
 			return 0;
 
-- 
2.43.0


From 51beb1e8620316dbe9639343c34759c53f9af082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:59 +0000
Subject: [PATCH 054/110] fix: decode strings in JSON import, without leaks on
 repeated keys

---
 jsmn.c          | 118 ++++++++++++++++++++++++++++++++++++++++++++++++
 lang-c-source.c |  45 +++++++++++-------
 2 files changed, 147 insertions(+), 16 deletions(-)

diff --git a/jsmn.c b/jsmn.c
index 12b06f5..5f4ca3b 100644
--- a/jsmn.c
+++ b/jsmn.c
@@ -344,3 +344,121 @@ jsmn_parse_int(const char *buf, size_t sz, int64_t *ret)
 	*ret = strtoll(tmp, &ep, 10);
 	return errno == 0 && ep != tmp && *ep == '\0';
 }
+
+/*
+ * Parse four hexadecimal digits of a \\u escape.
+ * Return zero on failure, non-zero on success.
+ */
+static int
+jsmn_parse_hex(const char *buf, size_t sz, unsigned int *ret)
+{
+	size_t	 i;
+
+	if (sz < 4)
+		return 0;
+
+	for (*ret = 0, i = 0; i < 4; i++) {
+		*ret <<= 4;
+		if (buf[i] >= '0' && buf[i] <= '9')
+			*ret |= buf[i] - '0';
+		else if (buf[i] >= 'a' && buf[i] <= 'f')
+			*ret |= buf[i] - 'a' + 10;
+		else if (buf[i] >= 'A' && buf[i] <= 'F')
+			*ret |= buf[i] - 'A' + 10;
+		else
+			return 0;
+	}
+
+	return 1;
+}
+
+/*
+ * Copy a string, replacing its escape sequences.
+ * Return <0 on memory failure, zero if malformed (including the NUL
+ * character, which we can't represent), and >0 on success.
+ * On success, "ret" must be freed by the caller.
+ */
+static int
+jsmn_parse_str(const char *buf, size_t sz, char **ret)
+{
+	size_t		 i, j;
+	unsigned int	 c, lo;
+	char		*cp;
+
+	/* The escaped form is never shorter than what it denotes. */
+
+	*ret = NULL;
+	if ((cp = malloc(sz + 1)) == NULL)
+		return -1;
+
+	for (i = j = 0; i < sz; i++) {
+		if (buf[i] != '\\') {
+			cp[j++] = buf[i];
+			continue;
+		}
+		if (++i == sz)
+			goto err;
+		switch (buf[i]) {
+		case 'b':
+			cp[j++] = '\b';
+			continue;
+		case 'f':
+			cp[j++] = '\f';
+			continue;
+		case 'n':
+			cp[j++] = '\n';
+			continue;
+		case 'r':
+			cp[j++] = '\r';
+			continue;
+		case 't':
+			cp[j++] = '\t';
+			continue;
+		case 'u':
+			break;
+		default:
+			cp[j++] = buf[i];
+			continue;
+		}
+
+		if (!jsmn_parse_hex(buf + i + 1, sz - i - 1, &c))
+			goto err;
+		i += 4;
+
+		/* Surrogates must come in pairs. */
+
+		if (c >= 0xd800 && c < 0xdc00) {
+			if (sz - i < 7 ||
+			    buf[i + 1] != '\\' || buf[i + 2] != 'u' ||
+			    !jsmn_parse_hex(buf + i + 3, 4, &lo) ||
+			    lo < 0xdc00 || lo > 0xdfff)
+				goto err;
+			c = 0x10000 + ((c - 0xd800) << 10) + (lo - 0xdc00);
+			i += 6;
+		} else if (c == 0 || (c >= 0xdc00 && c <= 0xdfff))
+			goto err;
+
+		if (c < 0x80) {
+			cp[j++] = c;
+		} else if (c < 0x800) {
+			cp[j++] = 0xc0 | (c >> 6);
+			cp[j++] = 0x80 | (c & 0x3f);
+		} else if (c < 0x10000) {
+			cp[j++] = 0xe0 | (c >> 12);
+			cp[j++] = 0x80 | ((c >> 6) & 0x3f);
+			cp[j++] = 0x80 | (c & 0x3f);
+		} else {
+			cp[j++] = 0xf0 | (c >> 18);
+			cp[j++] = 0x80 | ((c >> 12) & 0x3f);
+			cp[j++] = 0x80 | ((c >> 6) & 0x3f);
+			cp[j++] = 0x80 | (c & 0x3f);
+		}
+	}
+
+	cp[j] = '\0';
+	*ret = cp;
+	return 1;
+err:
+	free(cp);
+	return 0;
+}
diff --git a/lang-c-source.c b/lang-c-source.c
index 0abd86b..d498cad 100644
--- a/lang-c-source.c
+++ b/lang-c-source.c
@@ -2302,7 +2302,7 @@ gen_json_parse(FILE *f, const struct strct *p)
 {
 	const struct field	*fd;
 	int			 intcast = 0, hasstruct = 0,
-				 hasblob = 0;
+				 hasblob = 0, hastext = 0;
 
 	/* Whether we need conversion space. */
 
@@ -2321,6 +2321,11 @@ gen_json_parse(FILE *f, const struct strct *p)
 		case FTYPE_BLOB:
 			hasblob = 1;
 			break;
+		case FTYPE_EMAIL:
+		case FTYPE_PASSWORD:
+		case FTYPE_TEXT:
+			hastext = 1;
+			break;
 		case FTYPE_STRUCT:
 			hasstruct = 1;
 			break;
@@ -2337,7 +2342,8 @@ gen_json_parse(FILE *f, const struct strct *p)
 		return 0;
 	if (intcast && fputs("\tint64_t tmpint;\n", f) == EOF)
 		return 0;
-	if ((hasblob || hasstruct) && fputs("\tint rc;\n", f) == EOF)
+	if ((hasblob || hasstruct || hastext) &&
+	    fputs("\tint rc;\n", f) == EOF)
 		return 0;
 	if (hasblob && fputs("\tchar *tmpbuf;\n", f) == EOF)
 		return 0;
@@ -2456,46 +2462,53 @@ gen_json_parse(FILE *f, const struct strct *p)
 				return 0;
 			break;
 		case FTYPE_BLOB:
-			if (fprintf(f, "\t\t\ttmpbuf = strndup\n"
+			if (fprintf(f, "\t\t\trc = jsmn_parse_str\n"
 			    "\t\t\t\t(buf + t[j+1].start,\n"
-			    "\t\t\t\t t[j+1].end - t[j+1].start);\n"
-			    "\t\t\tif (tmpbuf == NULL)\n"
-			    "\t\t\t\treturn -1;\n"
-			    "\t\t\tp->%s = malloc((t[j+1].end - "
-			    "t[j+1].start) + 1);\n"
+			    "\t\t\t\t t[j+1].end - t[j+1].start, "
+			    "&tmpbuf);\n"
+			    "\t\t\tif (rc <= 0)\n"
+			    "\t\t\t\treturn rc;\n"
+			    "\t\t\tfree(p->%s);\n"
+			    "\t\t\tp->%s = malloc(strlen(tmpbuf) + 1);\n"
 			    "\t\t\tif (p->%s == NULL) {\n"
 			    "\t\t\t\tfree(tmpbuf);\n"
 			    "\t\t\t\treturn -1;\n"
 			    "\t\t\t}\n"
 			    "\t\t\trc = b64_pton(tmpbuf, p->%s,\n"
-			    "\t\t\t\t(t[j+1].end - t[j+1].start) + 1);\n"
+			    "\t\t\t\tstrlen(tmpbuf) + 1);\n"
 			    "\t\t\tfree(tmpbuf);\n"
 			    "\t\t\tif (rc < 0)\n"
-			    "\t\t\t\treturn -1;\n"
+			    "\t\t\t\treturn 0;\n"
 			    "\t\t\tp->%s_sz = rc;\n"
 			    "\t\t\tj++;\n", fd->name, fd->name,
-			    fd->name, fd->name) < 0)
+			    fd->name, fd->name, fd->name) < 0)
 				return 0;
 			break;
 		case FTYPE_TEXT:
 		case FTYPE_PASSWORD:
 		case FTYPE_EMAIL:
-			if (fprintf(f, "\t\t\tp->%s = strndup\n"
+			if (fprintf(f, "\t\t\tfree(p->%s);\n"
+			    "\t\t\trc = jsmn_parse_str\n"
 			    "\t\t\t\t(buf + t[j+1].start,\n"
-			    "\t\t\t\t t[j+1].end - t[j+1].start);\n"
-			    "\t\t\tif (p->%s == NULL)\n"
-			    "\t\t\t\treturn -1;\n"
+			    "\t\t\t\t t[j+1].end - t[j+1].start, "
+			    "&p->%s);\n"
+			    "\t\t\tif (rc <= 0)\n"
+			    "\t\t\t\treturn rc;\n"
 			    "\t\t\tj++;\n",
 			    fd->name, fd->name) < 0)
 				return 0;
 			break;
 		case FTYPE_STRUCT:
-			if (fprintf(f, "\t\t\trc = jsmn_%s\n"
+			if (fprintf(f, "\t\t\tjsmn_%s_clear(&p->%s);\n"
+			    "\t\t\tmemset(&p->%s, 0, sizeof(p->%s));\n"
+			    "\t\t\trc = jsmn_%s\n"
 			    "\t\t\t\t(&p->%s, buf,\n"
 			    "\t\t\t\t &t[j+1], toksz - j);\n"
 			    "\t\t\tif (rc <= 0)\n"
 			    "\t\t\t\treturn rc;\n"
 			    "\t\t\tj += rc;\n",
+			    fd->ref->target->parent->name, fd->name,
+			    fd->name, fd->name,
 			    fd->ref->target->parent->name,
 			    fd->name) < 0)
 				return 0;
-- 
2.43.0


From 28c09f0e31af5c00f5a54df91e298212cda499c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:00 +0000
Subject: [PATCH 055/110] fix: import null nested structures from JSON as
 exported

---
 lang-c-source.c | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/lang-c-source.c b/lang-c-source.c
index d498cad..475c1cf 100644
--- a/lang-c-source.c
+++ b/lang-c-source.c
@@ -2364,7 +2364,9 @@ gen_json_parse(FILE *f, const struct strct *p)
 
 		/* Check correct kind of token. */
 
-		if ((fd->flags & FIELD_NULL) && fprintf
+		if (((fd->flags & FIELD_NULL) ||
+		     (fd->type == FTYPE_STRUCT &&
+		      (fd->ref->source->flags & FIELD_NULL))) && fprintf
 		    (f, "\t\t\tif (t[j+1].type == "
 		     "JSMN_PRIMITIVE &&\n"
 		     "\t\t\t    buf[t[j+1].start] == \'n\') {\n"
@@ -2553,15 +2555,6 @@ gen_json_parse(FILE *f, const struct strct *p)
 				return 0;
 			break;
 		case FTYPE_STRUCT:
-			if (fd->ref->source->flags & FIELD_NULL) {
-				if (fprintf(f, "\tif (p->has_%s)\n"
-			            "\t\tjsmn_%s_clear(&p->%s);\n",
-				    fd->ref->source->name,
-				    fd->ref->target->parent->name,
-				    fd->name) < 0)
-					return 0;
-				break;
-			}
 			if (fprintf(f, "\tjsmn_%s_clear(&p->%s);\n",
 			    fd->ref->target->parent->name,
 			    fd->name) < 0)
-- 
2.43.0


From 1f3dc33eab997749b707f9109a1690b1b6b3e547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:00 +0000
Subject: [PATCH 056/110] fix: do not read beyond the tokens in JSON import

---
 lang-c-source.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lang-c-source.c b/lang-c-source.c
index 475c1cf..9eb9ccb 100644
--- a/lang-c-source.c
+++ b/lang-c-source.c
@@ -2351,7 +2351,9 @@ gen_json_parse(FILE *f, const struct strct *p)
 	if (fputs("\n"
 	    "\tif (toksz < 1 || t[0].type != JSMN_OBJECT)\n"
 	    "\t\treturn 0;\n\n"
-	    "\tfor (i = 0, j = 0; i < t[0].size; i++) {\n", f) == EOF)
+	    "\tfor (i = 0, j = 0; i < t[0].size; i++) {\n"
+	    "\t\tif (toksz - j < 3)\n"
+	    "\t\t\treturn 0;\n", f) == EOF)
 		return 0;
 
 	TAILQ_FOREACH(fd, &p->fq, entries) {
@@ -2505,7 +2507,7 @@ gen_json_parse(FILE *f, const struct strct *p)
 			    "\t\t\tmemset(&p->%s, 0, sizeof(p->%s));\n"
 			    "\t\t\trc = jsmn_%s\n"
 			    "\t\t\t\t(&p->%s, buf,\n"
-			    "\t\t\t\t &t[j+1], toksz - j);\n"
+			    "\t\t\t\t &t[j+1], toksz - j - 1);\n"
 			    "\t\t\tif (rc <= 0)\n"
 			    "\t\t\t\treturn rc;\n"
 			    "\t\t\tj += rc;\n",
@@ -2595,7 +2597,7 @@ gen_json_parse(FILE *f, const struct strct *p)
 	    "\t\treturn -1;\n"
 	    "\n"
 	    "\tfor (i = j = 0; i < *sz; i++) {\n"
-	    "\t\trc = jsmn_%s(&(*p)[i], buf, &t[j+1], toksz - j);\n"
+	    "\t\trc = jsmn_%s(&(*p)[i], buf, &t[j+1], toksz - j - 1);\n"
 	    "\t\tif (rc <= 0)\n"
 	    "\t\t\treturn rc;\n"
 	    "\t\tj += rc;\n"
-- 
2.43.0


From f0eced47e2ef6143c793abf966b5257620043f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:00 +0000
Subject: [PATCH 057/110] fix: have no elements in a JSON array if it cannot be
 allocated

---
 lang-c-source.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lang-c-source.c b/lang-c-source.c
index 9eb9ccb..61c4b9f 100644
--- a/lang-c-source.c
+++ b/lang-c-source.c
@@ -2592,9 +2592,9 @@ gen_json_parse(FILE *f, const struct strct *p)
 	    "\tif (toksz < 1 || t[0].type != JSMN_ARRAY)\n"
 	    "\t\treturn 0;\n"
 	    "\n"
-	    "\t*sz = t[0].size;\n"
-	    "\tif ((*p = calloc(*sz, sizeof(struct %s))) == NULL)\n"
+	    "\tif ((*p = calloc(t[0].size, sizeof(struct %s))) == NULL)\n"
 	    "\t\treturn -1;\n"
+	    "\t*sz = t[0].size;\n"
 	    "\n"
 	    "\tfor (i = j = 0; i < *sz; i++) {\n"
 	    "\t\trc = jsmn_%s(&(*p)[i], buf, &t[j+1], toksz - j - 1);\n"
-- 
2.43.0


From 493b6dbff6b00c3aeef7e376f74c3588bd305172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:18 +0000
Subject: [PATCH 058/110] fix: reserve all C keywords

The words inline, int, return, sizeof, switch, and while could be used
as identifiers, which had ort-c-header(1) emit C that doesn't compile.
---
 parser.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parser.c b/parser.c
index 777650b..ca35261 100644
--- a/parser.c
+++ b/parser.c
@@ -54,17 +54,23 @@ static	const char *const badidents[] = {
 	"extern",
 	"float",
 	"goto",
+	"inline",
+	"int",
 	"long",
 	"register",
+	"return",
 	"short",
 	"signed",
+	"sizeof",
 	"static",
 	"struct",
+	"switch",
 	"typedef",
 	"union",
 	"unsigned",
 	"void",
 	"volatile",
+	"while",
 	/* Things not allowed in SQLite. */
 	"ABORT",
 	"ACTION",
-- 
2.43.0


From f031be20a1abc835980260375bac24443a9b86b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:10 +0000
Subject: [PATCH 059/110] fix: don't let documentation close block comments

Text with star-slash ended the comment, letting what follows be
interpreted as C, JavaScript, or Rust.  Also, emit escaped quotes in
one-line comments as in all others.
---
 lang.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/lang.c b/lang.c
index 8df87af..84ce10d 100644
--- a/lang.c
+++ b/lang.c
@@ -128,8 +128,8 @@ gen_enum_unique(FILE *f, int defn, const struct field *fd,
  * Generate a (possibly) multi-line comment with "tabs" number of
  * preceding tab spaces.
  * This uses the standard comment syntax as seen in this comment itself.
- * FIXME: make sure that text we're ommitting doesn't clobber the
- * comment epilogue, like having star-slash in the text of a C comment.
+ * If the text has the comment epilogue, i.e., star-slash in the text of
+ * a block comment, the two are separated by a space.
  */
 static int
 print_comment(FILE *f, const char *doc, size_t tabs, 
@@ -218,6 +218,13 @@ print_comment(FILE *f, const char *doc, size_t tabs,
 				}
 			}
 
+			/* Don't let the text close block comments. */
+
+			if (*cp == '/' && last == '*' &&
+			    strcmp(in, "-- ") != 0 &&
+			    fputc(' ', f) == EOF)
+				return 0;
+
 			if (fputc(*cp, f) == EOF)
 				return 0;
 			last = *cp;
@@ -265,12 +272,12 @@ gen_comment(FILE *f, size_t tabs, enum cmtt type, const char *cp)
 	/*
 	 * If we're a C comment and are sufficiently small, then print
 	 * us on a one-line comment block.
-	 * FIXME: make sure the comment doesn't have the end-of-comment
-	 * marker itself.
+	 * This can't have anything needing to be escaped.
 	 */
 
 	if (type == COMMENT_C && cp != NULL && tabs >= 1 && 
-	    strchr(cp, '\n') == NULL && strlen(cp) < maxcol) {
+	    strchr(cp, '\n') == NULL && strlen(cp) < maxcol &&
+	    strstr(cp, "*/") == NULL && strstr(cp, "\\\"") == NULL) {
 		for (i = 0; i < tabs; i++) 
 			if (fputc('\t', f) == EOF)
 				return 0;
-- 
2.43.0


From 329f2f87bcc91722846141e4fcb6e518cdc77c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:17 +0000
Subject: [PATCH 060/110] fix: refuse operations having functions of the same
 name

Update and delete names weren't checked for being unique within the
structure as documented in ort(5), nor were unnamed queries, updates,
and deletes of the same terms, so the C and Rust output didn't compile
and the JavaScript output had only the last.
---
 linker.c | 104 +++++++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 104 insertions(+)

diff --git a/linker.c b/linker.c
index 1bbe717..f587589 100644
--- a/linker.c
+++ b/linker.c
@@ -478,6 +478,103 @@ check_roleops(struct config *cfg, const struct strct *p)
 			"role not assigned to insert function");
 }
 
+/*
+ * Whether two queries would generate functions of the same name.
+ * Named queries have already been checked during parse.
+ */
+static int
+same_search(const struct search *a, const struct search *b)
+{
+	const struct sent	*sa, *sb;
+
+	if (a->type != b->type || a->name != NULL || b->name != NULL)
+		return 0;
+
+	for (sa = TAILQ_FIRST(&a->sntq), sb = TAILQ_FIRST(&b->sntq);
+	     sa != NULL && sb != NULL;
+	     sa = TAILQ_NEXT(sa, entries), sb = TAILQ_NEXT(sb, entries))
+		if (sa->op != sb->op || strcmp(sa->uname, sb->uname))
+			return 0;
+
+	return sa == NULL && sb == NULL;
+}
+
+/*
+ * Like same_search() but for updates and deletes, which may be named.
+ */
+static int
+same_update(const struct update *a, const struct update *b)
+{
+	const struct uref	*ua, *ub;
+
+	if (a->type != b->type)
+		return 0;
+	if (a->name != NULL && b->name != NULL)
+		return strcmp(a->name, b->name) == 0;
+	if (a->name != NULL || b->name != NULL)
+		return 0;
+	if ((a->flags & UPDATE_ALL) != (b->flags & UPDATE_ALL))
+		return 0;
+
+	for (ua = TAILQ_FIRST(&a->mrq), ub = TAILQ_FIRST(&b->mrq);
+	     ua != NULL && ub != NULL;
+	     ua = TAILQ_NEXT(ua, entries), ub = TAILQ_NEXT(ub, entries))
+		if (ua->field != ub->field || ua->mod != ub->mod)
+			return 0;
+	if (ua != NULL || ub != NULL)
+		return 0;
+
+	for (ua = TAILQ_FIRST(&a->crq), ub = TAILQ_FIRST(&b->crq);
+	     ua != NULL && ub != NULL;
+	     ua = TAILQ_NEXT(ua, entries), ub = TAILQ_NEXT(ub, entries))
+		if (ua->field != ub->field || ua->op != ub->op)
+			return 0;
+
+	return ua == NULL && ub == NULL;
+}
+
+/*
+ * Make sure that no two operations of the structure generate functions
+ * of the same name.
+ * Returns zero on failure, non-zero on success.
+ */
+static int
+check_unique_ops(struct config *cfg, const struct strct *p)
+{
+	const struct search	*s, *ss;
+	const struct update	*u, *uu;
+	const struct updateq	*uqs[] = { &p->uq, &p->dq };
+	size_t			 errs = 0, i;
+
+	TAILQ_FOREACH(s, &p->sq, entries)
+		for (ss = TAILQ_NEXT(s, entries); ss != NULL;
+		     ss = TAILQ_NEXT(ss, entries))
+			if (same_search(s, ss)) {
+				gen_errx(cfg, &ss->pos, "duplicate "
+					"function name: %s:%zu:%zu",
+					s->pos.fname, s->pos.line,
+					s->pos.column);
+				errs++;
+			}
+
+	for (i = 0; i < sizeof(uqs) / sizeof(uqs[0]); i++)
+		TAILQ_FOREACH(u, uqs[i], entries)
+			for (uu = TAILQ_NEXT(u, entries); uu != NULL;
+			     uu = TAILQ_NEXT(uu, entries))
+				if (same_update(u, uu)) {
+					gen_errx(cfg, &uu->pos,
+						"duplicate "
+						"function name: "
+						"%s:%zu:%zu",
+						u->pos.fname,
+						u->pos.line,
+						u->pos.column);
+					errs++;
+				}
+
+	return errs == 0;
+}
+
 /*
  * This is the "linking" phase where a fully-parsed configuration file
  * has its components linked together and checked for correctness.
@@ -519,6 +616,13 @@ ort_parse_close(struct config *cfg)
 	if (i > 0)
 		return 0;
 
+	/* Check that operations generate distinct functions. */
+
+	TAILQ_FOREACH(p, &cfg->sq, entries)
+		i += !check_unique_ops(cfg, p);
+	if (i > 0)
+		return 0;
+
 	/* Check that each rolemap has no duplicate roles. */
 
 	TAILQ_FOREACH(p, &cfg->sq, entries)
-- 
2.43.0


From e84653b4754a3a1bc2acb0783d1d683659bbe1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:02 +0000
Subject: [PATCH 061/110] fix: reserve the top-level names of the C API

Structures, enumerations, and bitfields named ort or stmt conflicted
with the database type and enumeration of statements of ort-c-header(1)
and ort-c-source(1).
---
 parser.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/parser.c b/parser.c
index ca35261..dbf36d4 100644
--- a/parser.c
+++ b/parser.c
@@ -322,6 +322,14 @@ parse_check_dupetoplevel(struct parse *p, const char *name)
 	const struct bitf *b;
 	const struct strct *s;
 
+	/* Used in the C API and its implementation. */
+
+	if (strcasecmp(name, "ort") == 0 ||
+	    strcasecmp(name, "stmt") == 0) {
+		parse_errx(p, "reserved identifier");
+		return(0);
+	}
+
 	TAILQ_FOREACH(e, &p->cfg->eq, entries)
 		if (0 == strcasecmp(e->name, name)) {
 			parse_errx(p, "duplicates enum name: "
-- 
2.43.0


From 4aa3a2a6a1182d5cc7edf4defda281d80ad9b98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:07 +0000
Subject: [PATCH 062/110] fix: XLIFF files without the expected elements or
 text crashed ort-xliff

---
 lang-xliff.c | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/lang-xliff.c b/lang-xliff.c
index 66dc4ad..854746f 100644
--- a/lang-xliff.c
+++ b/lang-xliff.c
@@ -64,6 +64,7 @@ struct	xparse {
 	struct xliffunit	*curunit; /* current translating unit */
 	int			 type; /* >0 source, <0 target, 0 none */
 	int			 er; /* if non-zero exit on sys fail */
+	int			 failed; /* if non-zero, error reported */
 };
 
 /* Forward declarations. */
@@ -130,6 +131,7 @@ xparse_err(struct xparse *xp, const char *fmt, ...)
 	pos.line = XML_GetCurrentLineNumber(xp->p);
 	pos.column = XML_GetCurrentColumnNumber(xp->p);
 
+	xp->failed = 1;
 	va_start(ap, fmt);
 	ort_msgv(xp->mq, MSGTYPE_WARN, 0, &pos, fmt, ap);
 	va_end(ap);
@@ -305,7 +307,7 @@ xstart(void *dat, const XML_Char *s, const XML_Char **atts)
 			return;
 		}
 	} else if (strcmp(s, "trans-unit") == 0) {
-		if (p->set->trglang == NULL) {
+		if (p->set == NULL || p->set->trglang == NULL) {
 			xparse_err(p, "<trans-unit> not in <file>");
 			XML_StopParser(p->p, 0);
 			return;
@@ -466,8 +468,15 @@ xend(void *dat, const XML_Char *s)
 
 	XML_SetDefaultHandlerExpand(p->p, NULL);
 
+	/*
+	 * If an element that was refused is empty, we're still called
+	 * for its end.
+	 */
+
+	if (p->er || p->failed || p->curunit == NULL)
+		return;
+
 	if (strcmp(s, "trans-unit") == 0) {
-		assert(p->curunit != NULL);
 		if (p->curunit->source == NULL || 
 		    p->curunit->target == NULL) {
 			xparse_err(p, "missing <source> or "
@@ -477,11 +486,15 @@ xend(void *dat, const XML_Char *s)
 		}
 		p->curunit = NULL;
 	} else if (strcmp(s, "target") == 0) {
-		assert(p->curunit != NULL);
+		xtext(p, "", 0);
+		if (p->er)
+			return;
 		unescape(p->curunit->target);
 		p->type = 0;
 	} else if (strcmp(s, "source") == 0) {
-		assert(p->curunit != NULL);
+		xtext(p, "", 0);
+		if (p->er)
+			return;
 		unescape(p->curunit->source);
 		p->type = 0;
 	}
@@ -536,6 +549,12 @@ xliff_read(struct msgq *mq, FILE *f,
 		return 0;
 	} while (!feof(f));
 
+	if (xp->set == NULL || xp->set->trglang == NULL) {
+		xparse_err(xp, "missing <xliff> or <file>");
+		xparse_free(xp);
+		return 0;
+	}
+
 	*ret = xp->set;
 	xp->set = NULL;
 	xparse_free(xp);
-- 
2.43.0


From 9f0eb6329e172815154069f8574108753b531e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:39 +0000
Subject: [PATCH 063/110] fix: attributes of XLIFF output weren't escaped

---
 lang-xliff.c | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/lang-xliff.c b/lang-xliff.c
index 854746f..ad6d63a 100644
--- a/lang-xliff.c
+++ b/lang-xliff.c
@@ -426,6 +426,22 @@ escape(const char *s)
 	return buf;
 }
 
+/*
+ * Replace the string with its XML-escaped form as in escape().
+ * Return zero on memory failure, non-zero otherwise.
+ */
+static int
+xliff_escape(char **s)
+{
+	char	*buf;
+
+	if ((buf = escape(*s)) == NULL)
+		return 0;
+	free(*s);
+	*s = buf;
+	return 1;
+}
+
 /*
  * In-place unescape from XML into native characters.
  * This considers only '&amp;' -> '&' and '&lt;' -> '<'.
@@ -873,6 +889,10 @@ ort_lang_xliff_update(const struct ort_lang_xliff *args,
 	rc = -1;
 	qsort(x->u, x->usz, sizeof(struct xliffunit), xliffunit_sort);
 
+	if (!xliff_escape(&x->trglang) || !xliff_escape(&x->srclang) ||
+	    !xliff_escape(&x->original))
+		goto out;
+
 	if (fprintf(f, 
 	    "<xliff version=\"1.2\" "
 	    "xmlns=\"urn:oasis:names:tc:xliff:document:1.2\">\n"
@@ -882,6 +902,8 @@ ort_lang_xliff_update(const struct ort_lang_xliff *args,
 		goto out;
 
 	for (i = 0; i < x->usz; i++) {
+		if (!xliff_escape(&x->u[i].name))
+			goto out;
 		if ((sbuf = escape(x->u[i].source)) == NULL)
 			goto out;
 		if (x->u[i].target != NULL &&
@@ -1010,12 +1032,18 @@ ort_lang_xliff_extract(const struct ort_lang_xliff *args,
 	 * Escape all '<' and '&' as '&lt;' and '&amp;'.
 	 */
 
-	if (fprintf(f, "<xliff version=\"1.2\" "
+	if ((buf = escape(cfg->fnamesz ? cfg->fnames[0] : "")) == NULL)
+		goto out;
+	rc = fprintf(f, "<xliff version=\"1.2\" "
 	    "xmlns=\"urn:oasis:names:tc:xliff:document:1.2\">\n"
 	    "\t<file source-language=\"TODO\" original=\"%s\" "
 	    "target-language=\"TODO\" datatype=\"plaintext\">\n"
-            "\t\t<body>\n", cfg->fnamesz ? cfg->fnames[0] : "") < 0)
+            "\t\t<body>\n", buf);
+	free(buf);
+	if (rc < 0) {
+		rc = 0;
 		goto out;
+	}
 
 	for (i = 0; i < ssz; i++) {
 		rc = 0;
-- 
2.43.0


From d293df511d925ea01e20a27ffcac1284c296fff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:39 +0000
Subject: [PATCH 064/110] fix: translations with quotes made configurations
 that don't parse

---
 lang-xliff.c | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/lang-xliff.c b/lang-xliff.c
index ad6d63a..0e35309 100644
--- a/lang-xliff.c
+++ b/lang-xliff.c
@@ -588,6 +588,28 @@ xliffunit_sort(const void *a1, const void *a2)
 	return strcmp(p1->source, p2->source);
 }
 
+/*
+ * Create a label, in which quotes are escaped, from a translation.
+ * Return NULL on memory failure.
+ */
+static char *
+xliff_label(const char *s)
+{
+	size_t	 i, j;
+	char	*buf;
+
+	if ((buf = calloc(strlen(s) * 2 + 1, 1)) == NULL)
+		return NULL;
+
+	for (i = j = 0; s[i] != '\0'; i++) {
+		if (s[i] == '"' && (i == 0 || s[i - 1] != '\\'))
+			buf[j++] = '\\';
+		buf[j++] = s[i];
+	}
+
+	return buf;
+}
+
 /*
  * Return <0 on error, 0 on syntax error, >0 on success.
  */
@@ -670,13 +692,23 @@ xliff_join_unit(struct config *cfg, struct labelq *q, int copy,
 		return 1;
 	}
 
+	/* Strings can't end with what escapes their closing quote. */
+
+	if (*targ != '\0' && targ[strlen(targ) - 1] == '\\') {
+		ort_msg(mq, MSGTYPE_ERROR, 0, pos, 
+			"translation ends with a backslash");
+		return 0;
+	}
+
 	/* Add the translation. */
 
 	if ((l = calloc(1, sizeof(struct label))) == NULL)
 		return -1;
 	l->lang = lang;
-	if ((l->label = strdup(targ)) == NULL)
+	if ((l->label = xliff_label(targ)) == NULL) {
+		free(l);
 		return -1;
+	}
 	TAILQ_INSERT_TAIL(q, l, entries);
 	return 1;
 }
-- 
2.43.0


From 1815047e21e5d9a168eb2c039a67ca44edd43054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:39 +0000
Subject: [PATCH 065/110] fix: target languages that can't be written made
 configurations that don't parse

---
 lang-xliff.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/lang-xliff.c b/lang-xliff.c
index 0e35309..9b377c4 100644
--- a/lang-xliff.c
+++ b/lang-xliff.c
@@ -21,6 +21,7 @@
 #endif
 
 #include <assert.h>
+#include <ctype.h>
 #include <expat.h>
 #include <limits.h> /* INT_MAX */
 #include <stdarg.h>
@@ -828,12 +829,26 @@ xliff_join_single(struct config *cfg, int copy,
 	void		*pp;
 	int		 rc;
 	struct pos	 pos;
+	const char	*cp;
 
 	if ((rc = xliff_read(mq, xml, fn, p, &x)) <= 0)
 		return rc;
 
 	assert(x->trglang != NULL);
 
+	/* The configuration needs identifiers for its languages. */
+
+	for (cp = x->trglang; isalnum((unsigned char)*cp); cp++)
+		continue;
+	if (*cp != '\0' || !isalpha((unsigned char)x->trglang[0])) {
+		pos.fname = fn;
+		pos.line = pos.column = 0;
+		ort_msg(mq, MSGTYPE_ERROR, 0, &pos, 
+			"language \"%s\" not supported", x->trglang);
+		xparse_xliff_free(x);
+		return 0;
+	}
+
 	for (i = 0; i < cfg->langsz; i++)
 		if (strcmp(cfg->langs[i], x->trglang) == 0)
 			break;
-- 
2.43.0


From 46e215bc8cdfeda1f06daa9fa2da3d1fd39e020c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:04 +0000
Subject: [PATCH 066/110] fix: ort-xliff exited zero when it ran out of memory
 or failed to write

---
 xliff.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xliff.c b/xliff.c
index b971482..93f4d91 100644
--- a/xliff.c
+++ b/xliff.c
@@ -177,7 +177,7 @@ main(int argc, char *argv[])
 		break;
 	}
 
-	if (!rc)
+	if (rc <= 0)
 		warn(NULL);
 out:
 	ort_write_msg_file(stderr, &cfg->mq);
@@ -198,7 +198,7 @@ out:
 
 	free(confs);
 	free(args.in);
-	return !rc;
+	return rc <= 0;
 usage:
 	fprintf(stderr, 
 		"usage: %s [-c] -j [config...] -x [xliff...]\n"
-- 
2.43.0


From 63db6ccd2d8474bdfc9449c3fa07a532752cae18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:04 +0000
Subject: [PATCH 067/110] fix: ort-xliff refused the untranslated units it
 writes

---
 lang-xliff.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lang-xliff.c b/lang-xliff.c
index 9b377c4..ded2c4f 100644
--- a/lang-xliff.c
+++ b/lang-xliff.c
@@ -494,10 +494,9 @@ xend(void *dat, const XML_Char *s)
 		return;
 
 	if (strcmp(s, "trans-unit") == 0) {
-		if (p->curunit->source == NULL || 
-		    p->curunit->target == NULL) {
-			xparse_err(p, "missing <source> or "
-				"<target> in <trans-unit>");
+		if (p->curunit->source == NULL) {
+			xparse_err(p, "missing <source> in "
+				"<trans-unit>");
 			XML_StopParser(p->p, 0);
 			return;
 		}
@@ -645,7 +644,8 @@ xliff_join_unit(struct config *cfg, struct labelq *q, int copy,
 	/* Look up what we want to translate in the database. */
 
 	for (i = 0; i < x->usz; i++)
-		if (strcmp(x->u[i].source, l->label) == 0)
+		if (x->u[i].target != NULL &&
+		    strcmp(x->u[i].source, l->label) == 0)
 			break;
 
 	if (i == x->usz && type == NULL) {
-- 
2.43.0


From 0a780af39e12d8fed4cf7fe5b4b573cdac09f99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:33 +0000
Subject: [PATCH 068/110] fix: leaks when extracting and joining translations

---
 lang-xliff.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lang-xliff.c b/lang-xliff.c
index ded2c4f..11c8c82 100644
--- a/lang-xliff.c
+++ b/lang-xliff.c
@@ -856,12 +856,16 @@ xliff_join_single(struct config *cfg, int copy,
 	if (i == cfg->langsz) {
 		pp = reallocarray(cfg->langs,
 			 cfg->langsz + 1, sizeof(char *));
-		if (pp == NULL)
+		if (pp == NULL) {
+			xparse_xliff_free(x);
 			return -1;
+		}
 		cfg->langs = pp;
 		cfg->langs[cfg->langsz] = strdup(x->trglang);
-		if (cfg->langs[cfg->langsz] == NULL)
+		if (cfg->langs[cfg->langsz] == NULL) {
+			xparse_xliff_free(x);
 			return -1;
+		}
 		cfg->langsz++;
 	} else {
 		pos.fname = fn;
@@ -1115,6 +1119,7 @@ ort_lang_xliff_extract(const struct ort_lang_xliff *args,
 
 	rc = fputs("\t\t</body>\n\t</file>\n</xliff>\n", f) != EOF;
 out:
+	free(s);
 	if (mq == &tmpq)
 		ort_msgq_free(mq);
 	return rc;
-- 
2.43.0


From 388329bba925c0cedc3f9b628334173f4a2ba806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:33 +0000
Subject: [PATCH 069/110] fix: ort-xliff -u could use an identifier twice

---
 lang-xliff.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/lang-xliff.c b/lang-xliff.c
index 11c8c82..99b6138 100644
--- a/lang-xliff.c
+++ b/lang-xliff.c
@@ -722,7 +722,7 @@ xliff_update_unit(struct msgq *mq, const struct labelq *q,
 	const char *type, struct xliffset *x, const struct pos *pos)
 {
 	const struct label		*l;
-	size_t			 i;
+	size_t			 i, num;
 	struct xliffunit	*u;
 	char			 nbuf[32];
 	void			*pp;
@@ -759,7 +759,17 @@ xliff_update_unit(struct msgq *mq, const struct labelq *q,
 			return -1;
 		x->u = pp;
 		u = &x->u[x->usz++];
-		snprintf(nbuf, sizeof(nbuf), "%zu", x->usz);
+
+		/* Identifiers must be unique. */
+
+		num = x->usz;
+		do {
+			snprintf(nbuf, sizeof(nbuf), "%zu", num++);
+			for (i = 0; i < x->usz - 1; i++)
+				if (strcmp(x->u[i].name, nbuf) == 0)
+					break;
+		} while (i < x->usz - 1);
+
 		memset(u, 0, sizeof(struct xliffunit));
 		if ((u->name = strdup(nbuf)) == NULL)
 			return -1;
-- 
2.43.0


From 7f93da6c0e1a83d916a2c98cb0a11567833d341e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:33 +0000
Subject: [PATCH 070/110] fix: labels of null enumerations weren't translated

---
 lang-xliff.c | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/lang-xliff.c b/lang-xliff.c
index 99b6138..5205ddf 100644
--- a/lang-xliff.c
+++ b/lang-xliff.c
@@ -793,7 +793,7 @@ xliff_join_xliff(struct config *cfg, int copy,
 	struct bitidx	*bi;
 	int		 rc;
 
-	TAILQ_FOREACH(e, &cfg->eq, entries)
+	TAILQ_FOREACH(e, &cfg->eq, entries) {
 		TAILQ_FOREACH(ei, &e->eq, entries) {
 			rc = xliff_join_unit
 			    (cfg, &ei->labels, copy, NULL, 
@@ -801,6 +801,14 @@ xliff_join_xliff(struct config *cfg, int copy,
 			if (rc <= 0)
 				return rc;
 		}
+		if (TAILQ_EMPTY(&e->labels_null))
+			continue;
+		rc = xliff_join_unit
+		    (cfg, &e->labels_null, copy, 
+		     "isnull", lang, x, &e->pos, mq);
+		if (rc <= 0)
+			return rc;
+	}
 
 	TAILQ_FOREACH(b, &cfg->bq, entries) {
 		TAILQ_FOREACH(bi, &b->bq, entries) {
@@ -922,13 +930,20 @@ ort_lang_xliff_update(const struct ort_lang_xliff *args,
 
 	assert(x != NULL);
 
-	TAILQ_FOREACH(e, &cfg->eq, entries)
+	TAILQ_FOREACH(e, &cfg->eq, entries) {
 		TAILQ_FOREACH(ei, &e->eq, entries) {
 			rc = xliff_update_unit
 			    (mq, &ei->labels, NULL, x, &ei->pos);
 			if (rc <= 0)
 				goto out;
 		}
+		if (TAILQ_EMPTY(&e->labels_null))
+			continue;
+		rc = xliff_update_unit
+		    (mq, &e->labels_null, "isnull", x, &e->pos);
+		if (rc <= 0)
+			goto out;
+	}
 
 	TAILQ_FOREACH(b, &cfg->bq, entries) {
 		TAILQ_FOREACH(bi, &b->bq, entries) {
@@ -1067,11 +1082,17 @@ ort_lang_xliff_extract(const struct ort_lang_xliff *args,
 
 	/* Extract all unique labels strings. */
 
-	TAILQ_FOREACH(e, &cfg->eq, entries)
+	TAILQ_FOREACH(e, &cfg->eq, entries) {
 		TAILQ_FOREACH(ei, &e->eq, entries)
 			if (!xliff_extract_unit(mq, f, &ei->labels, 
 			    NULL, &ei->pos, &s, &ssz))
 				goto out;
+		if (TAILQ_EMPTY(&e->labels_null))
+			continue;
+		if (!xliff_extract_unit(mq, f, &e->labels_null,
+		    "isnull", &e->pos, &s, &ssz))
+			goto out;
+	}
 
 	TAILQ_FOREACH(b, &cfg->bq, entries) {
 		TAILQ_FOREACH(bi, &b->bq, entries)
-- 
2.43.0


From 9402f8c3682c9617c890c6b228062305810d464b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:55 +0000
Subject: [PATCH 071/110] fix: empty translations made configurations that
 don't parse

---
 lang-xliff.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lang-xliff.c b/lang-xliff.c
index 5205ddf..8f28bdc 100644
--- a/lang-xliff.c
+++ b/lang-xliff.c
@@ -645,6 +645,7 @@ xliff_join_unit(struct config *cfg, struct labelq *q, int copy,
 
 	for (i = 0; i < x->usz; i++)
 		if (x->u[i].target != NULL &&
+		    x->u[i].target[0] != '\0' &&
 		    strcmp(x->u[i].source, l->label) == 0)
 			break;
 
-- 
2.43.0


From f4e37e742afd88010410b9249979da0c4ad2fe5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:55 +0000
Subject: [PATCH 072/110] fix: joining languages by another case made
 configurations that don't parse

---
 lang-xliff.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lang-xliff.c b/lang-xliff.c
index 8f28bdc..700ceb6 100644
--- a/lang-xliff.c
+++ b/lang-xliff.c
@@ -848,17 +848,20 @@ xliff_join_single(struct config *cfg, int copy,
 	void		*pp;
 	int		 rc;
 	struct pos	 pos;
-	const char	*cp;
+	char		*cp;
 
 	if ((rc = xliff_read(mq, xml, fn, p, &x)) <= 0)
 		return rc;
 
 	assert(x->trglang != NULL);
 
-	/* The configuration needs identifiers for its languages. */
+	/*
+	 * The configuration needs identifiers for its languages, which
+	 * are in lowercase.
+	 */
 
 	for (cp = x->trglang; isalnum((unsigned char)*cp); cp++)
-		continue;
+		*cp = tolower((unsigned char)*cp);
 	if (*cp != '\0' || !isalpha((unsigned char)x->trglang[0])) {
 		pos.fname = fn;
 		pos.line = pos.column = 0;
-- 
2.43.0


From c549c4a28cf5568a914ec7d2688e93aa61ff99a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:52 +0000
Subject: [PATCH 073/110] fix: callbacks ran before the date and bit-field
 classes were filled

---
 lang-javascript.c | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/lang-javascript.c b/lang-javascript.c
index 64aae8f..66d348d 100644
--- a/lang-javascript.c
+++ b/lang-javascript.c
@@ -278,6 +278,19 @@ gen_js_field(FILE *f, const struct field *fd)
 	    (fd->flags & FIELD_NOEXPORT))
 		return 1;
 
+	/* These precede _fillField(), which runs the custom callbacks. */
+
+	if (fd->type == FTYPE_BIT || fd->type == FTYPE_BITFIELD)
+		if (fprintf(f, "\t\t\t_fillBitsChecked"
+		    "(e, '%s-%s', o.%s, inc);\n",
+		    fd->parent->name, fd->name, fd->name) < 0)
+			return 0;
+	if (fd->type == FTYPE_DATE || fd->type == FTYPE_EPOCH)
+		if (fprintf(f, "\t\t\t_fillDateValue"
+		    "(e, '%s-%s', o.%s, inc);\n",
+		    fd->parent->name, fd->name, fd->name) < 0)
+			return 0;
+
 	if (fd->type == FTYPE_STRUCT) {
 		if (fd->rolemap != NULL)
 			rc = (fd->ref->source->flags & FIELD_NULL) ?
@@ -411,18 +424,6 @@ gen_js_field(FILE *f, const struct field *fd)
 	}
 
 	free(buf);
-
-	if (fd->type == FTYPE_BIT || fd->type == FTYPE_BITFIELD)
-		if (fprintf(f, "\t\t\t_fillBitsChecked"
-		    "(e, '%s-%s', o.%s, inc);\n",
-		    fd->parent->name, fd->name, fd->name) < 0)
-			return 0;
-	if (fd->type == FTYPE_DATE || fd->type == FTYPE_EPOCH)
-		if (fprintf(f, "\t\t\t_fillDateValue"
-		    "(e, '%s-%s', o.%s, inc);\n",
-		    fd->parent->name, fd->name, fd->name) < 0)
-			return 0;
-
 	return 1;
 }
 
-- 
2.43.0


From 33ee4e453ef02c96ee184aec01b92d1c05fbd06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:52 +0000
Subject: [PATCH 074/110] fix: dates were those of the browser's time zone, and
 years not padded

---
 ortPrivate.ts | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ortPrivate.ts b/ortPrivate.ts
index 46a1941..fd71711 100644
--- a/ortPrivate.ts
+++ b/ortPrivate.ts
@@ -791,10 +791,11 @@
 
 		/* Make sure to zero-pad the digits. */
 
-		const year = d.getFullYear();
-		const mo = d.getMonth() + 1;
-		const day = d.getDate();
-		const full = year + '-' +
+		const year = d.getUTCFullYear();
+		const mo = d.getUTCMonth() + 1;
+		const day = d.getUTCDate();
+		const full = (year >= 0 && year < 1000 ?
+			('000' + year).slice(-4) : year) + '-' +
 			(mo < 10 ? '0' : '') + mo + '-' +
 			(day < 10 ? '0' : '') + day;
 		_attrcl(e, 'value', fname + '-date-value', full, inc);
-- 
2.43.0


From 4dcd86fdce645cc2a970d9319197b85c6f680377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:52 +0000
Subject: [PATCH 075/110] fix: the zero bit index was checked when the last bit
 was set

---
 ortPrivate.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ortPrivate.ts b/ortPrivate.ts
index fd71711..cf55507 100644
--- a/ortPrivate.ts
+++ b/ortPrivate.ts
@@ -842,7 +842,7 @@
 				continue;
 
 			if ((v === 0 && lval.isZero()) ||
-			    !Long.ONE.shl(v - 1).and(lval).isZero()) {
+			    (v > 0 && !Long.ONE.shl(v - 1).and(lval).isZero())) {
 				inp.setAttribute('checked', 'checked');
 			}
 		}
-- 
2.43.0


From 610a819bc6c2be119503857c0cdb03114307d507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:52 +0000
Subject: [PATCH 076/110] fix: filling an array into an empty element didn't
 hide it

---
 lang-javascript.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lang-javascript.c b/lang-javascript.c
index 66d348d..a0898aa 100644
--- a/lang-javascript.c
+++ b/lang-javascript.c
@@ -890,10 +890,11 @@ ort_lang_javascript(const struct config *cfg,
 		if (fputs("\t\t{\n"
 		    "\t\t\tconst o = Array.isArray(this.obj) ?\n"
 		    "\t\t\t\tthis.obj : [this.obj];\n"
-		    "\t\t\tif (e === null || e.children.length === 0)\n"
+		    "\t\t\tif (e === null)\n"
 		    "\t\t\t\treturn;\n"
 		    "\t\t\t_hide(e);\n"
-		    "\t\t\tif (o.length === 0 || this.obj === null)\n"
+		    "\t\t\tif (o.length === 0 || this.obj === null ||\n"
+		    "\t\t\t    e.children.length === 0)\n"
 		    "\t\t\t\treturn;\n"
 		    "\t\t\t_show(e);\n"
 		    "\t\t\tconst row = e.children[0];\n"
-- 
2.43.0


From 8838487ed993b12f917fafe4c0527b8ceaac0533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:25 +0000
Subject: [PATCH 077/110] fix: comparing signed with large unsigned numbers

---
 ortPrivate.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ortPrivate.ts b/ortPrivate.ts
index cf55507..c4cf85b 100644
--- a/ortPrivate.ts
+++ b/ortPrivate.ts
@@ -229,7 +229,7 @@
 
 			// At this point the sign bits are the same
 
-			if (!this.unsigned)
+			if (!this.unsigned && !v.unsigned)
 				return this.sub(v).isNegative() ? -1 : 1;
 
 			// Both are positive if at least one is unsigned
-- 
2.43.0


From 990d9018f5522449a38b29df84e0bcbbef849733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:25 +0000
Subject: [PATCH 078/110] fix: numbers with several signs were taken for valid

---
 ortPrivate.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ortPrivate.ts b/ortPrivate.ts
index c4cf85b..a7b2188 100644
--- a/ortPrivate.ts
+++ b/ortPrivate.ts
@@ -488,7 +488,7 @@
 			const usgn: boolean =
 				(typeof unsigned === 'undefined') ?
 				false : unsigned;
-			const hyph: number = str.indexOf('-');
+			const hyph: number = str.lastIndexOf('-');
 			const radixToPower: Long = Long.TEN_TO_EIGHT;
 			let result: Long = Long.ZERO;
 
-- 
2.43.0


From 3b0232a0da941afec5cce2ffbba36c52a917c6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:15 +0000
Subject: [PATCH 079/110] fix: classes named as variables of the generated
 JavaScript broke it

---
 lang-javascript.c | 38 +++++++++++++++++++++-----------------
 ortPrivate.ts     |  4 ++--
 2 files changed, 23 insertions(+), 19 deletions(-)

diff --git a/lang-javascript.c b/lang-javascript.c
index a0898aa..0b87a7a 100644
--- a/lang-javascript.c
+++ b/lang-javascript.c
@@ -265,10 +265,12 @@ gen_jsdoc_field(FILE *f, const struct field *fd)
 /*
  * Generate calls to _fillField, _fillDateValue, and _fillBitsChecked
  * with properly wrapping lines.
+ * Classes are named with their namespace "ns", as they may otherwise be
+ * those of the function's variables.
  * Don't generate calls if we don't export the value.
  */
 static int
-gen_js_field(FILE *f, const struct field *fd)
+gen_js_field(FILE *f, const char *ns, const struct field *fd)
 {
 	char	*buf = NULL;
 	int	 rc;
@@ -298,27 +300,27 @@ gen_js_field(FILE *f, const struct field *fd)
 					"\t\t\t\ttypeof o.%s === "
 					  "\'undefined\' ? undefined :\n"
 					"\t\t\t\to.%s === null ? null :\n"
-					"\t\t\t\tnew %s(o.%s)", 
+					"\t\t\t\tnew %s.%s(o.%s)", 
 					fd->name, fd->name,
-					fd->ref->target->parent->name, 
+					ns, fd->ref->target->parent->name, 
 					fd->name) :
 				asprintf(&buf, 
 					"\t\t\t\ttypeof o.%s === "
 					  "\'undefined\' ?\n"
-					"\t\t\t\tundefined : new %s(o.%s)", 
+					"\t\t\t\tundefined : new %s.%s(o.%s)", 
 					fd->name,
-					fd->ref->target->parent->name, 
+					ns, fd->ref->target->parent->name, 
 					fd->name);
 		else
 			rc = (fd->ref->source->flags & FIELD_NULL) ?
 				asprintf(&buf, 
 					"\t\t\t\to.%s === null ? null :\n"
-					"\t\t\t\tnew %s(o.%s)", 
+					"\t\t\t\tnew %s.%s(o.%s)", 
 					fd->name,
-					fd->ref->target->parent->name, 
+					ns, fd->ref->target->parent->name, 
 					fd->name) :
-				asprintf(&buf, "\t\t\t\tnew %s(o.%s)", 
-					fd->ref->target->parent->name, 
+				asprintf(&buf, "\t\t\t\tnew %s.%s(o.%s)", 
+					ns, fd->ref->target->parent->name, 
 					fd->name);
 		if (rc == -1)
 			return 0;
@@ -508,6 +510,7 @@ ort_lang_javascript(const struct config *cfg,
 	const struct bitidx	*bi;
 	const struct enm	*e;
 	const struct eitem	*ei;
+	const char		*ns;
 	char			*obj, *objarray;
 	int64_t			 maxvalue;
 	struct ort_lang_js	 tmp;
@@ -517,10 +520,11 @@ ort_lang_javascript(const struct config *cfg,
 		args = &tmp;
 	}
 
+	ns = args->ns != NULL && args->ns[0] != '\0' ?
+		args->ns : ORT_LANG_JS_DEFAULT_NS;
+
 	if (fprintf(f, "%snamespace %s {\n",
-	    (args->flags & ORT_LANG_JS_EXPORT) ? "export " : "",
-	    args->ns != NULL && args->ns[0] != '\0' ?
-	    args->ns : ORT_LANG_JS_DEFAULT_NS) < 0)
+	    (args->flags & ORT_LANG_JS_EXPORT) ? "export " : "", ns) < 0)
 		return 0;
 	if (args->ext_privMethods != NULL &&
 	    fputs(args->ext_privMethods, f) == EOF)
@@ -775,7 +779,7 @@ ort_lang_javascript(const struct config *cfg,
 		    "\t\t\t\tcustom = null;\n", f) == EOF)
 			return 0;
 		TAILQ_FOREACH(fd, &s->fq, entries)
-			if (!gen_js_field(f, fd))
+			if (!gen_js_field(f, ns, fd))
 				return 0;
 		if (fprintf(f, "\t\t\tif (custom !== null &&\n"
 		    "\t\t\t    typeof(custom[\'%s\']) !== 'undefined') {\n"
@@ -1045,9 +1049,9 @@ ort_lang_javascript(const struct config *cfg,
 		TAILQ_FOREACH(bi, &bf->bq, entries) {
 			if (fprintf(f, 
 			    "\t\t\tif (!vlong.and"
-			    "(%s.BITF_%s).isZero()) {\n"
+			    "(%s.%s.BITF_%s).isZero()) {\n"
 			    "\t\t\t\tconst res = _strlang(", 
-			    bf->name, bi->name) < 0)
+			    ns, bf->name, bi->name) < 0)
 				return 0;
 			if (!gen_labels(f, cfg, &bi->labels))
 				return 0;
@@ -1131,9 +1135,9 @@ ort_lang_javascript(const struct config *cfg,
 		    "\t\t\tswitch(v.toString()) {\n", f) == EOF)
 			return 0;
 		TAILQ_FOREACH(ei, &e->eq, entries) {
-			if (fprintf(f, "\t\t\tcase %s.%s:\n"
+			if (fprintf(f, "\t\t\tcase %s.%s.%s:\n"
 			    "\t\t\t\ts = _strlang(",
-			    e->name, ei->name) < 0)
+			    ns, e->name, ei->name) < 0)
 				return 0;
 			if (!gen_labels(f, cfg, &ei->labels))
 				return 0;
diff --git a/ortPrivate.ts b/ortPrivate.ts
index a7b2188..95c9d69 100644
--- a/ortPrivate.ts
+++ b/ortPrivate.ts
@@ -556,7 +556,7 @@
 	 */
 	function _strlang(vals: langmap): string
 	{
-		const lang = document.documentElement.lang;
+		const lang = globalThis.document.documentElement.lang;
 		if (lang !== null && lang in vals)
 			return vals[lang];
 		else if ('_default' in vals)
@@ -641,7 +641,7 @@
 	 */
 	function _repl(e: HTMLElement, text: string): void
 	{
-		e.replaceChildren(document.createTextNode(text));
+		e.replaceChildren(globalThis.document.createTextNode(text));
 	}
 
 	/**
-- 
2.43.0


From d1f20c6e5df175cab90a0cbe18d811b69cd16d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:00 +0000
Subject: [PATCH 080/110] fix: generated TypeScript did not compile under
 strict checks

---
 lang-nodejs.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lang-nodejs.c b/lang-nodejs.c
index 1802f70..b4c266a 100644
--- a/lang-nodejs.c
+++ b/lang-nodejs.c
@@ -180,7 +180,7 @@ gen_rolemap(FILE *f, const struct config *cfg, const struct rolemap *rm)
 	if (rm == NULL && TAILQ_EMPTY(&cfg->rq))
 		return 0;
 	else if (rm == NULL)
-		return fputs("\t\tprocess.abort();\n", f) != EOF;
+		return fputs("\t\t(<any>process).abort();\n", f) != EOF;
 
 	if (fputs("\t\tswitch (this.#role) {\n", f) == EOF)
 		return 0;
@@ -533,7 +533,7 @@ gen_insert(FILE *f, const struct config *cfg, const struct strct *p)
 	return fputs("\n"
 	     "\t\ttry {\n"
 	     "\t\t\tinfo = stmt.run(parms);\n"
-	     "\t\t} catch (er) {\n"
+	     "\t\t} catch (er: any) {\n"
 	     "\t\t\tif (er.code === 'SQLITE_CONSTRAINT_UNIQUE' ||\n"
 	     "\t\t\t    er.code === 'SQLITE_CONSTRAINT_PRIMARYKEY' ||\n"
 	     "\t\t\t    er.code === 'SQLITE_CONSTRAINT_TRIGGER' ||\n"
@@ -830,7 +830,7 @@ gen_update(FILE *f, const struct config *cfg,
 		if (fputs("\n"
 		    "\t\ttry {\n"
 		    "\t\t\tinfo = stmt.run(parms);\n"
-		    "\t\t} catch (er) {\n"
+		    "\t\t} catch (er: any) {\n"
 		    "\t\t\tif (er.code === 'SQLITE_CONSTRAINT_UNIQUE' ||\n"
 		    "\t\t\t    er.code === 'SQLITE_CONSTRAINT_PRIMARYKEY' ||\n"
 		    "\t\t\t    er.code === 'SQLITE_CONSTRAINT_TRIGGER' ||\n"
@@ -1711,7 +1711,7 @@ gen_ortns_express_valid(FILE *f, const struct field *fd)
 		     "\t\t\tlet nv: bigint;\n"
 		     "\t\t\ttry {\n"
 		     "\t\t\t\tnv = BigInt(v);\n"
-		     "\t\t\t} catch (er) {\n"
+		     "\t\t\t} catch (er: any) {\n"
 		     "\t\t\t\treturn null;\n"
 		     "\t\t\t}\n", f) == EOF)
 			return 0;
@@ -2107,7 +2107,7 @@ gen_ortctx_dbrole(FILE *f, const struct config *cfg)
 	     "\t\t\tbreak;\n"
 	     "\t\t}\n"
 	     "\n"
-	     "\t\tprocess.abort();\n"
+	     "\t\t(<any>process).abort();\n"
 	     "\t}\n", f) != EOF;
 }
 
-- 
2.43.0


From 0afff000e03a5a51ed38118122d800ab2910367b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:00 +0000
Subject: [PATCH 081/110] fix: ort_lang_nodejs took some failed writes for
 success

---
 lang-nodejs.c | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/lang-nodejs.c b/lang-nodejs.c
index b4c266a..d03240b 100644
--- a/lang-nodejs.c
+++ b/lang-nodejs.c
@@ -134,7 +134,7 @@ gen_var(FILE *f, size_t pos, size_t col, const struct field *fd)
 	    (fd->type == FTYPE_STRUCT &&
 	     (fd->ref->source->flags & FIELD_NULL))) {
 		if ((rc = fprintf(f, "|null")) < 0)
-			return 0;
+			return -1;
 		col += (size_t)rc;
 	}
 
@@ -180,18 +180,18 @@ gen_rolemap(FILE *f, const struct config *cfg, const struct rolemap *rm)
 	if (rm == NULL && TAILQ_EMPTY(&cfg->rq))
 		return 0;
 	else if (rm == NULL)
-		return fputs("\t\t(<any>process).abort();\n", f) != EOF;
+		return fputs("\t\t(<any>process).abort();\n", f) == EOF ? -1 : 1;
 
 	if (fputs("\t\tswitch (this.#role) {\n", f) == EOF)
-		return 0;
+		return -1;
 	TAILQ_FOREACH(rr, &rm->rq, entries)
 		if (!gen_role(f, rr->role, 2))
-			return 0;
+			return -1;
 
 	return fputs("\t\t\tbreak;\n"
 	     "\t\tdefault:\n"
 	     "\t\t\tprocess.abort();\n"
-	     "\t\t}\n", f) != EOF;
+	     "\t\t}\n", f) == EOF ? -1 : 1;
 }
 
 /*
@@ -1218,7 +1218,8 @@ gen_query(FILE *f, const struct config *cfg,
 		       if (fprintf(f, "\t\tthis.db_%s_reffind"
 			   "(this.#o, obj);\n", rs->name) < 0)
 			       return 0;
-		gen_query_checkpass(f, s, 1);
+		if (!gen_query_checkpass(f, s, 1))
+			return 0;
 		if (fprintf(f, "\t\treturn new "
 	  	    "ortns.%s(this.#role, obj);\n", rs->name) < 0)
 			return 0;
@@ -1235,7 +1236,8 @@ gen_query(FILE *f, const struct config *cfg,
 			if (fprintf(f, "\t\t\tthis.db_%s_reffind"
 			    "(this.#o, obj);\n", rs->name) < 0)
 				return 0;
-		gen_query_checkpass(f, s, 0);
+		if (!gen_query_checkpass(f, s, 0))
+			return 0;
 		if (fprintf(f, 
 		    "\t\t\tcb(new ortns.%s(this.#role, obj));\n"
 		    "\t\t}\n", rs->name) < 0)
@@ -1257,7 +1259,8 @@ gen_query(FILE *f, const struct config *cfg,
 			if (fprintf(f, "\t\t\tthis.db_%s_reffind"
 			    "(this.#o, obj);\n", rs->name) < 0)
 				return 0;
-		gen_query_checkpass(f, s, 0);
+		if (!gen_query_checkpass(f, s, 0))
+			return 0;
 		if (fprintf(f, 
 		    "\t\t\tobjs.push(new ortns.%s(this.#role, obj));\n"
 		    "\t\t}\n"
@@ -2107,7 +2110,7 @@ gen_ortctx_dbrole(FILE *f, const struct config *cfg)
 	     "\t\t\tbreak;\n"
 	     "\t\t}\n"
 	     "\n"
-	     "\t\t(<any>process).abort();\n"
+	     "\t\tprocess.abort();\n"
 	     "\t}\n", f) != EOF;
 }
 
-- 
2.43.0


From 32367fec2a0b0329b8655e5a3943b926a4a26253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:00 +0000
Subject: [PATCH 082/110] fix: ort_lang_rust took some failed writes for
 success

---
 lang-rust.c | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/lang-rust.c b/lang-rust.c
index 1df62c3..e306b86 100644
--- a/lang-rust.c
+++ b/lang-rust.c
@@ -182,22 +182,22 @@ gen_var(FILE *f, size_t pos, const struct field *fd, int comma)
 	if (fprintf(f, "v%zu: ", pos) < 0)
 		return -1;
 	if ((fd->flags & FIELD_NULL) && fputs("Option<", f) == EOF)
-		return 0;
+		return -1;
 	if (fd->type == FTYPE_ENUM) {
 		if (fprintf(f, "data::%c%s",
 		    toupper((unsigned char)fd->enm->name[0]),
 		    fd->enm->name + 1) < 0)
-			return 0;
+			return -1;
 	} else {
 		if (strcmp(ftypes[fd->type], "i64") &&
 		    strcmp(ftypes[fd->type], "f64"))
 			if (fputc('&', f) == EOF)
-				return 0;
+				return -1;
 		if (fputs(ftypes[fd->type], f) == EOF)
-			return 0;
+			return -1;
 	}
 	if ((fd->flags & FIELD_NULL) && fputs(">", f) == EOF)
-		return 0;
+		return -1;
 	return 1;
 }
 
@@ -215,14 +215,14 @@ gen_field_to_json(const struct field *fd, int first, FILE *f)
 	if (fd->rolemap != NULL &&
 	    !TAILQ_EMPTY(&fd->rolemap->rq)) {
 		if (fprintf(f, "%16sif !(", "") < 0)
-			return 0;
+			return -1;
 		TAILQ_FOREACH(r, &fd->rolemap->rq, entries) {
 			rc = gen_role(f, r->role, 5, "role", rc, 1);
 			if (rc < 0)
-				return 0;
+				return -1;
 		}
 		if (fputs(") {\n", f) == EOF)
-			return 0;
+			return -1;
 		tabs += 4;
 	}
 
@@ -365,7 +365,7 @@ gen_field_to_json(const struct field *fd, int first, FILE *f)
 	}
 
 	if (fd->rolemap != NULL && fprintf(f, "%16s}\n", "") < 0)
-		return 0;
+		return -1;
 
 	return 1;
 }
@@ -1334,7 +1334,8 @@ gen_query(const struct search *s, size_t num, FILE *f)
 			   "%16sself.db_%s_reffind(&mut obj);\n",
 			   "", rs->name) < 0)
 			       return 0;
-		gen_query_checkpass(f, s, 1);
+		if (!gen_query_checkpass(f, s, 1))
+			return 0;
 		if (fprintf(f,
 		    "%16sreturn Ok(Some(objs::%s {\n"
 		    "%20sdata: obj,\n", "", ret, "") < 0)
@@ -1362,7 +1363,8 @@ gen_query(const struct search *s, size_t num, FILE *f)
 			   "%16sself.db_%s_reffind(&mut obj);\n",
 			   "", rs->name) < 0)
 			       return 0;
-		gen_query_checkpass(f, s, 0);
+		if (!gen_query_checkpass(f, s, 0))
+			return 0;
 		if (fprintf(f,
 		    "%16scb(objs::%s {\n"
 		    "%20sdata: obj,\n", "", ret, "") < 0)
@@ -1391,7 +1393,8 @@ gen_query(const struct search *s, size_t num, FILE *f)
 			   "%16sself.db_%s_reffind(&mut obj);\n",
 			   "", rs->name) < 0)
 			       return 0;
-		gen_query_checkpass(f, s, 0);
+		if (!gen_query_checkpass(f, s, 0))
+			return 0;
 		if (fprintf(f,
 		    "%16svec.push(objs::%s {\n"
 		    "%20sdata: obj,\n", "", ret, "") < 0)
-- 
2.43.0


From e386bb7a92b4917842e98a2f2556578dcdda4cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:00 +0000
Subject: [PATCH 083/110] fix: ort_lang_c_source took some failed writes for
 success

---
 lang-c-source.c | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/lang-c-source.c b/lang-c-source.c
index 61c4b9f..196331b 100644
--- a/lang-c-source.c
+++ b/lang-c-source.c
@@ -449,7 +449,7 @@ gen_bind(FILE *f, const struct field *fd, size_t idx,
 	if (fd->type == FTYPE_BLOB) {
 		for (i = 0; i < tabs; i++)
 			if (fputc('\t', f) == EOF)
-				return 0;
+				return -1;
 		if (fprintf(f, "parms[%zu].sz = v%zu_sz;\n",
 		    idx - 1, pos) < 0)
 			return -1;
@@ -2894,7 +2894,8 @@ ort_lang_c_source(const struct ort_lang_c *args,
 	size_t			 sz;
 	int			 need_kcgi = 0,
 				 need_kcgijson = 0,
-				 need_sqlbox = 0;
+				 need_sqlbox = 0,
+				 rc = 1;
 	struct filldepq		 fq;
 	struct filldep		*fd;
 
@@ -3156,17 +3157,20 @@ ort_lang_c_source(const struct ort_lang_c *args,
 				return 0;
 
 	TAILQ_FOREACH(p, &cfg->sq, entries)
-		gen_functions(f, cfg, p,
-			args->flags & ORT_LANG_C_JSON_KCGI,
-			args->flags & ORT_LANG_C_JSON_JSMN,
-			args->flags & ORT_LANG_C_VALID_KCGI,
-			args->flags & ORT_LANG_C_DB_SQLBOX, &fq);
+		if (!gen_functions(f, cfg, p,
+		    args->flags & ORT_LANG_C_JSON_KCGI,
+		    args->flags & ORT_LANG_C_JSON_JSMN,
+		    args->flags & ORT_LANG_C_VALID_KCGI,
+		    args->flags & ORT_LANG_C_DB_SQLBOX, &fq)) {
+			rc = 0;
+			break;
+		}
 
 	while ((fd = TAILQ_FIRST(&fq)) != NULL) {
 		TAILQ_REMOVE(&fq, fd, entries);
 		free(fd);
 	}
 
-	return 1;
+	return rc;
 }
 
-- 
2.43.0


From fb5f05c02443f54c6cb9b37dc05cca17ea924e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:00 +0000
Subject: [PATCH 084/110] fix: ort_lang_c_manpage failed if no structure has an
 insert

---
 lang-c-manpage.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lang-c-manpage.c b/lang-c-manpage.c
index 9c215d8..13a3f9a 100644
--- a/lang-c-manpage.c
+++ b/lang-c-manpage.c
@@ -981,7 +981,7 @@ gen_inserts(FILE *f, const struct config *cfg, int syn)
 		if (s->ins != NULL)
 			break;
 	if (s == NULL)
-		return 0;
+		return 1;
 
 	if (!syn && fputs(
 	    ".Ss Database inserts\n"
@@ -989,11 +989,11 @@ gen_inserts(FILE *f, const struct config *cfg, int syn)
 	    "All functions return -1 on constraint failure or the new\n"
 	    "row identifier on success.\n"
 	    ".Bl -tag -width Ds\n", f) == EOF)
-		return -1;
+		return 0;
 
 	TAILQ_FOREACH(s, &cfg->sq, entries) 
 		if (s->ins != NULL && !gen_insert(f, s, syn))
-			return -1;
+			return 0;
 
 	if (!syn && fputs(".El\n", f) == EOF)
 		return 0;
-- 
2.43.0


From 943d5494baf176af5ce85a400e179015f7cd952f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:00 +0000
Subject: [PATCH 085/110] fix: ort_write_diff_file took some failed writes for
 success

---
 writer-diff.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/writer-diff.c b/writer-diff.c
index 4eb4d8d..034656f 100644
--- a/writer-diff.c
+++ b/writer-diff.c
@@ -1092,14 +1092,16 @@ ort_write_diff_file(FILE *f, const struct diffq *q,
 	size_t			 i;
 
 	for (i = 0; i < fromsz; i++)
-		fprintf(f, "--- %s\n", from[i]);
-	if (fromsz == 0)
-		fprintf(f, "--- <stdin>\n");
+		if (fprintf(f, "--- %s\n", from[i]) < 0)
+			return 0;
+	if (fromsz == 0 && fprintf(f, "--- <stdin>\n") < 0)
+		return 0;
 
 	for (i = 0; i < intosz; i++)
-		fprintf(f, "+++ %s\n", into[i]);
-	if (intosz == 0)
-		fprintf(f, "+++ <stdin>\n");
+		if (fprintf(f, "+++ %s\n", into[i]) < 0)
+			return 0;
+	if (intosz == 0 && fprintf(f, "+++ <stdin>\n") < 0)
+		return 0;
 
 	/* Write enumerations iff any have changed. */
 
-- 
2.43.0


From 6b2ad85593e1d30f97d76b044fdaba39597f9ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:00 +0000
Subject: [PATCH 086/110] fix: exit status was success if output could not be
 written

---
 audit-json.c |  7 +++++++
 cheader.c    |  7 +++++++
 cmanpage.c   |  7 +++++++
 csource.c    |  7 +++++++
 javascript.c |  7 +++++++
 json.c       |  7 +++++++
 main.c       |  7 +++++++
 mainaudit.c  |  7 +++++++
 maindiff.c   |  7 +++++++
 nodejs.c     |  7 +++++++
 rust.c       |  7 +++++++
 sql.c        |  7 +++++++
 sqldiff.c    | 11 +++++++++--
 xliff.c      |  7 +++++++
 14 files changed, 100 insertions(+), 2 deletions(-)

diff --git a/audit-json.c b/audit-json.c
index b21c86e..d962585 100644
--- a/audit-json.c
+++ b/audit-json.c
@@ -519,6 +519,13 @@ main(int argc, char *argv[])
 
 	gen_audit_json(cfg, aq, r, standalone);
 	rc = 1;
+
+	/* Not all may have been written until now. */
+
+	if (rc && (fflush(stdout) == EOF || ferror(stdout))) {
+		warn("stdout");
+		rc = 0;
+	}
 out:
 	ort_write_msg_file(stderr, &cfg->mq);
 	ort_auditq_free(aq);
diff --git a/cheader.c b/cheader.c
index b83027f..e58b889 100644
--- a/cheader.c
+++ b/cheader.c
@@ -112,6 +112,13 @@ main(int argc, char *argv[])
 	if ((rc = ort_parse_close(cfg)))
 		if (!(rc = ort_lang_c_header(&args, cfg, stdout)))
 			warn(NULL);
+
+	/* Not all may have been written until now. */
+
+	if (rc && (fflush(stdout) == EOF || ferror(stdout))) {
+		warn("stdout");
+		rc = 0;
+	}
 out:
 	ort_write_msg_file(stderr, &cfg->mq);
 	ort_config_free(cfg);
diff --git a/cmanpage.c b/cmanpage.c
index 16a2e20..e0bc390 100644
--- a/cmanpage.c
+++ b/cmanpage.c
@@ -95,6 +95,13 @@ main(int argc, char *argv[])
 	if ((rc = ort_parse_close(cfg)))
 		if (!(rc = ort_lang_c_manpage(&args, cfg, stdout)))
 			warn(NULL);
+
+	/* Not all may have been written until now. */
+
+	if (rc && (fflush(stdout) == EOF || ferror(stdout))) {
+		warn("stdout");
+		rc = 0;
+	}
 out:
 	ort_write_msg_file(stderr, &cfg->mq);
 	ort_config_free(cfg);
diff --git a/csource.c b/csource.c
index 6400838..40616c0 100644
--- a/csource.c
+++ b/csource.c
@@ -170,6 +170,13 @@ main(int argc, char *argv[])
 	if ((rc = ort_parse_close(cfg)))
 		if (!(rc = ort_lang_c_source(&args, cfg, stdout)))
 			warn(NULL);
+
+	/* Not all may have been written until now. */
+
+	if (rc && (fflush(stdout) == EOF || ferror(stdout))) {
+		warn("stdout");
+		rc = 0;
+	}
 out:
 	ort_write_msg_file(stderr, &cfg->mq);
 	ort_config_free(cfg);
diff --git a/javascript.c b/javascript.c
index 5bddea4..3f63aff 100644
--- a/javascript.c
+++ b/javascript.c
@@ -146,6 +146,13 @@ main(int argc, char *argv[])
 	if ((rc = ort_parse_close(cfg)))
 		if (!(rc = ort_lang_javascript(cfg, &args, stdout)))
 			warn(NULL);
+
+	/* Not all may have been written until now. */
+
+	if (rc && (fflush(stdout) == EOF || ferror(stdout))) {
+		warn("stdout");
+		rc = 0;
+	}
 out:
 	ort_write_msg_file(stderr, &cfg->mq);
 	ort_config_free(cfg);
diff --git a/json.c b/json.c
index 16178b9..2322820 100644
--- a/json.c
+++ b/json.c
@@ -83,6 +83,13 @@ main(int argc, char *argv[])
 	if ((rc = ort_parse_close(cfg)))
 		if (!(rc = ort_lang_json(&args, cfg, stdout)))
 			warn(NULL);
+
+	/* Not all may have been written until now. */
+
+	if (rc && (fflush(stdout) == EOF || ferror(stdout))) {
+		warn("stdout");
+		rc = 0;
+	}
 out:
 	ort_write_msg_file(stderr, &cfg->mq);
 	ort_config_free(cfg);
diff --git a/main.c b/main.c
index 98fe232..a803d13 100644
--- a/main.c
+++ b/main.c
@@ -76,6 +76,13 @@ main(int argc, char *argv[])
 	if ((rc = ort_parse_close(cfg)))
 		if (!(rc = ort_write_file(stdout, cfg)))
 			warn(NULL);
+
+	/* Not all may have been written until now. */
+
+	if (rc && (fflush(stdout) == EOF || ferror(stdout))) {
+		warn("stdout");
+		rc = 0;
+	}
 out:
 	ort_write_msg_file(stderr, &cfg->mq);
 	ort_config_free(cfg);
diff --git a/mainaudit.c b/mainaudit.c
index 591dd14..8b17319 100644
--- a/mainaudit.c
+++ b/mainaudit.c
@@ -264,6 +264,13 @@ main(int argc, char *argv[])
 
 	audit_write(aq, verb);
 	rc = 1;
+
+	/* Not all may have been written until now. */
+
+	if (rc && (fflush(stdout) == EOF || ferror(stdout))) {
+		warn("stdout");
+		rc = 0;
+	}
 out:
 	ort_write_msg_file(stderr, &cfg->mq);
 	ort_auditq_free(aq);
diff --git a/maindiff.c b/maindiff.c
index dc03ce6..910d366 100644
--- a/maindiff.c
+++ b/maindiff.c
@@ -174,6 +174,13 @@ main(int argc, char *argv[])
 		warn(NULL);
 	}
 
+	/* Not all may have been written until now. */
+
+	if (rc != -1 && (fflush(stdout) == EOF || ferror(stdout))) {
+		warn("stdout");
+		rc = -1;
+	}
+
 out:
 	ort_write_msg_file(stderr, &cfg->mq);
 	ort_write_msg_file(stderr, &dcfg->mq);
diff --git a/nodejs.c b/nodejs.c
index 0463a41..e97c883 100644
--- a/nodejs.c
+++ b/nodejs.c
@@ -97,6 +97,13 @@ main(int argc, char *argv[])
 	if ((rc = ort_parse_close(cfg)))
 		if (!(rc = ort_lang_nodejs(&args, cfg, stdout)))
 			warn(NULL);
+
+	/* Not all may have been written until now. */
+
+	if (rc && (fflush(stdout) == EOF || ferror(stdout))) {
+		warn("stdout");
+		rc = 0;
+	}
 out:
 	ort_write_msg_file(stderr, &cfg->mq);
 	ort_config_free(cfg);
diff --git a/rust.c b/rust.c
index 20ef3a9..7e4cbe0 100644
--- a/rust.c
+++ b/rust.c
@@ -81,6 +81,13 @@ main(int argc, char *argv[])
 	if ((rc = ort_parse_close(cfg)))
 		if (!(rc = ort_lang_rust(&args, cfg, stdout)))
 			warn(NULL);
+
+	/* Not all may have been written until now. */
+
+	if (rc && (fflush(stdout) == EOF || ferror(stdout))) {
+		warn("stdout");
+		rc = 0;
+	}
 out:
 	ort_write_msg_file(stderr, &cfg->mq);
 	ort_config_free(cfg);
diff --git a/sql.c b/sql.c
index fc4cda4..5534f3d 100644
--- a/sql.c
+++ b/sql.c
@@ -78,6 +78,13 @@ main(int argc, char *argv[])
 	if ((rc = ort_parse_close(cfg)))
 		if (!(rc = ort_lang_sql(NULL, cfg, stdout)))
 			warn(NULL);
+
+	/* Not all may have been written until now. */
+
+	if (rc && (fflush(stdout) == EOF || ferror(stdout))) {
+		warn("stdout");
+		rc = 0;
+	}
 out:
 	ort_write_msg_file(stderr, &cfg->mq);
 	ort_config_free(cfg);
diff --git a/sqldiff.c b/sqldiff.c
index adf4ffb..2740445 100644
--- a/sqldiff.c
+++ b/sqldiff.c
@@ -155,8 +155,15 @@ main(int argc, char *argv[])
 		goto out;
 	}
 
-	if (!(rc = ort_lang_diff_sql(NULL, q, destruct, stdout, &mq)))
+	if ((rc = ort_lang_diff_sql(NULL, q, destruct, stdout, &mq)) < 0)
 		warn(NULL);
+
+	/* Not all may have been written until now. */
+
+	if (rc > 0 && (fflush(stdout) == EOF || ferror(stdout))) {
+		warn("stdout");
+		rc = 0;
+	}
 out:
 	ort_write_msg_file(stderr, &cfg->mq);
 	ort_write_msg_file(stderr, &dcfg->mq);
@@ -174,7 +181,7 @@ out:
 
 	free(confs);
 	free(dconfs);
-	return rc ? EXIT_SUCCESS : EXIT_FAILURE;
+	return rc > 0 ? EXIT_SUCCESS : EXIT_FAILURE;
 
 usage:
 	fprintf(stderr, 
diff --git a/xliff.c b/xliff.c
index 93f4d91..8b4d37c 100644
--- a/xliff.c
+++ b/xliff.c
@@ -179,6 +179,13 @@ main(int argc, char *argv[])
 
 	if (rc <= 0)
 		warn(NULL);
+
+	/* Not all may have been written until now. */
+
+	if (rc > 0 && (fflush(stdout) == EOF || ferror(stdout))) {
+		warn("stdout");
+		rc = 0;
+	}
 out:
 	ort_write_msg_file(stderr, &cfg->mq);
 	ort_write_msg_file(stderr, &mq);
-- 
2.43.0


From b481e24a307c6c7b0cf52ad0d9b67c715ed08610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:41 +0000
Subject: [PATCH 087/110] fix: queries were accepted unresolved if memory ran
 out

---
 linker_resolve.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/linker_resolve.c b/linker_resolve.c
index 878c6a6..d4ae86e 100644
--- a/linker_resolve.c
+++ b/linker_resolve.c
@@ -1014,20 +1014,20 @@ linker_resolve(struct config *cfg)
 	TAILQ_FOREACH(r, &cfg->priv->rq, entries)
 		switch (r->type) {
 		case RESOLVE_AGGR:
-			fail += !resolve_struct_aggr
-				(cfg, &r->struct_aggr);
+			fail += resolve_struct_aggr
+				(cfg, &r->struct_aggr) <= 0;
 			break;
 		case RESOLVE_DISTINCT:
-			fail += !resolve_struct_distinct
-				(cfg, &r->struct_distinct);
+			fail += resolve_struct_distinct
+				(cfg, &r->struct_distinct) <= 0;
 			break;
 		case RESOLVE_GROUPROW:
-			fail += !resolve_struct_grouprow
-				(cfg, &r->struct_grouprow);
+			fail += resolve_struct_grouprow
+				(cfg, &r->struct_grouprow) <= 0;
 			break;
 		case RESOLVE_ORDER:
-			fail += !resolve_struct_order
-				(cfg, &r->struct_order);
+			fail += resolve_struct_order
+				(cfg, &r->struct_order) <= 0;
 			break;
 		case RESOLVE_ROLEMAP:
 			if (!resolve_struct_rolemap_post
-- 
2.43.0


From 97d046dbd397425a2f25ead0a58af5161e9c45e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:38 +0000
Subject: [PATCH 088/110] fix: qsort(3) was passed a null pointer for empty
 sets of labels

---
 lang-xliff.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lang-xliff.c b/lang-xliff.c
index 700ceb6..f9fe334 100644
--- a/lang-xliff.c
+++ b/lang-xliff.c
@@ -967,7 +967,8 @@ ort_lang_xliff_update(const struct ort_lang_xliff *args,
 	}
 
 	rc = -1;
-	qsort(x->u, x->usz, sizeof(struct xliffunit), xliffunit_sort);
+	if (x->usz > 0)
+		qsort(x->u, x->usz, sizeof(struct xliffunit), xliffunit_sort);
 
 	if (!xliff_escape(&x->trglang) || !xliff_escape(&x->srclang) ||
 	    !xliff_escape(&x->original))
@@ -1111,7 +1112,8 @@ ort_lang_xliff_extract(const struct ort_lang_xliff *args,
 			goto out;
 	}
 
-	qsort(s, ssz, sizeof(char *), xliff_sort);
+	if (ssz > 0)
+		qsort(s, ssz, sizeof(char *), xliff_sort);
 
 	/* 
 	 * Emit them all, sorted, in XLIFF format.
-- 
2.43.0


From 226d84a1d0b59554d48629b6a1db1af168628104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:39 +0000
Subject: [PATCH 089/110] fix: overflow assigning values to an enumeration
 already in error

---
 parser_enum.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/parser_enum.c b/parser_enum.c
index 6eb630a..e862dc8 100644
--- a/parser_enum.c
+++ b/parser_enum.c
@@ -197,6 +197,9 @@ parse_enum_data(struct parse *p, struct enm *e)
 			hasauto = 1;
 	}
 
+	if (PARSE_STOP(p))
+		return;
+
 	/*
 	 * If we have any values to assign automatically, do so here.
 	 * First we determine the greatest current value.
@@ -220,9 +223,6 @@ parse_enum_data(struct parse *p, struct enm *e)
 				ei->value = maxvalue++;
 	}
 
-	if (PARSE_STOP(p))
-		return;
-
 	if (parse_next(p) != TOK_SEMICOLON)
 		parse_errx(p, "expected semicolon");
 	else if (TAILQ_EMPTY(&e->eq))
@@ -271,6 +271,8 @@ parse_enum(struct parse *p)
 		*cp = (char)tolower((unsigned char)*cp);
 
 	parse_enum_data(p, e);
+	if (PARSE_STOP(p))
+		return;
 
 	/* Get the sup(max) bount below at zero. */
 
-- 
2.43.0


From 2508e3858cb442bb49fd662faf13f3ee91e519b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:39 +0000
Subject: [PATCH 090/110] fix: memory leak when a text field has several
 defaults

---
 parser_field.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser_field.c b/parser_field.c
index 7665f75..dff5eb8 100644
--- a/parser_field.c
+++ b/parser_field.c
@@ -389,6 +389,7 @@ parse_field_info(struct parse *p, struct field *fd)
 					break;
 				}
 				fd->flags |= FIELD_HASDEF;
+				free(fd->def.string);
 				fd->def.string = strdup(p->last.string);
 				if (fd->def.string == NULL) {
 					parse_err(p);
-- 
2.43.0


From 06c2869776dab3cdfecf8f7209b73a1269eb86de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:25 +0000
Subject: [PATCH 091/110] fix: types in manual pages differed from those of the
 header

---
 lang-c-manpage.c | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/lang-c-manpage.c b/lang-c-manpage.c
index 13a3f9a..8e36945 100644
--- a/lang-c-manpage.c
+++ b/lang-c-manpage.c
@@ -34,8 +34,13 @@
 #include "lang.h"
 #include "lang-c.h"
 
+/*
+ * Write the type a field is passed as.
+ * If "ptr" is set, null fields are passed as pointers.
+ * Return FALSE on failure, TRUE on success.
+ */
 static int
-gen_field_type(FILE *f, const struct field *fd)
+gen_field_type(FILE *f, const struct field *fd, int ptr)
 {
 	const struct field	*rfd;
 	int			 c;
@@ -60,7 +65,7 @@ gen_field_type(FILE *f, const struct field *fd)
 
 	if (c < 0)
 		return 0;
-	if ((fd->flags & FIELD_NULL) && fputc('*', f) == EOF)
+	if (ptr && (fd->flags & FIELD_NULL) && fputc('*', f) == EOF)
 		return 0;
 
 	return 1;
@@ -464,7 +469,7 @@ gen_query(FILE *f, const struct search *sr, int syn)
 					return 0;
 			if (fputs(".Fa \"", f) == EOF)
 				return 0;
-			if (!gen_field_type(f, sent->field))
+			if (!gen_field_type(f, sent->field, 0))
 				return 0;
 			if (fprintf(f, " %s\"\n",
 			    sent->field->name) < 0)
@@ -480,7 +485,7 @@ gen_query(FILE *f, const struct search *sr, int syn)
 			return 0;
 		if (fprintf(f, "%s\t", sent->field->name) < 0)
 			return 0;
-		if (!gen_field_type(f, sent->field))
+		if (!gen_field_type(f, sent->field, 0))
 			return 0;
 		if (fputc('\n', f) == EOF)
 			return 0;
@@ -749,7 +754,7 @@ gen_update(FILE *f, const struct update *up, int syn)
 					return 0;
 			if (fputs(".Fa \"", f) == EOF)
 				return 0;
-			if (!gen_field_type(f, ur->field))
+			if (!gen_field_type(f, ur->field, 1))
 				return 0;
 			if (fprintf(f, " %s\"\n", ur->field->name) < 0)
 				return 0;
@@ -764,7 +769,7 @@ gen_update(FILE *f, const struct update *up, int syn)
 		if (fprintf(f, "%s\t%s\t",
 		    get_modtype_str(ur->mod), ur->field->name) < 0)
 			return 0;
-		if (!gen_field_type(f, ur->field))
+		if (!gen_field_type(f, ur->field, 1))
 			return 0;
 		if (fputc('\n', f) == EOF)
 			return 0;
@@ -781,7 +786,7 @@ gen_update(FILE *f, const struct update *up, int syn)
 					return 0;
 			if (fputs(".Fa \"", f) == EOF)
 				return 0;
-			if (!gen_field_type(f, ur->field))
+			if (!gen_field_type(f, ur->field, 0))
 				return 0;
 			if (fprintf(f, " %s\"\n", ur->field->name) < 0)
 				return 0;
@@ -802,7 +807,7 @@ gen_update(FILE *f, const struct update *up, int syn)
 		if (fprintf(f, "%s\t%s\t",
 		    get_optype_str(ur->op), ur->field->name) < 0)
 			return 0;
-		if (!gen_field_type(f, ur->field))
+		if (!gen_field_type(f, ur->field, 0))
 			return 0;
 		if (fputc('\n', f) == EOF)
 			return 0;
@@ -865,7 +870,7 @@ gen_insert(FILE *f, const struct strct *s, int syn)
 					return 0;
 			if (fputs(".Fa \"", f) == EOF)
 				return 0;
-			if (!gen_field_type(f, fd))
+			if (!gen_field_type(f, fd, 1))
 				return 0;
 			if (fprintf(f, " %s\"\n", fd->name) < 0)
 				return 0;
@@ -877,7 +882,7 @@ gen_insert(FILE *f, const struct strct *s, int syn)
 				return 0;
 		if (fprintf(f, "%s\t", fd->name) < 0)
 			return 0;
-		if (!gen_field_type(f, fd))
+		if (!gen_field_type(f, fd, 1))
 			return 0;
 		if (fputc('\n', f) == EOF)
 			return 0;
@@ -1024,11 +1029,11 @@ gen_json_input(FILE *f, const struct strct *s, int syn)
 			".Fa \"const jsmntok_t *toks\"\n"
 			".Fa \"size_t toksz\"\n"
 			".Fc\n"
-			".Ft int\n"
+			".Ft void\n"
 			".Fo jsmn_%s_clear\n"
 			".Fa \"struct %s *p\"\n"
 			".Fc\n"
-			".Ft int\n"
+			".Ft void\n"
 			".Fo jsmn_%s_free_array\n"
 			".Fa \"struct %s *ps\"\n"
 			".Fa \"size_t psz\"\n"
@@ -1067,12 +1072,12 @@ gen_json_input(FILE *f, const struct strct *s, int syn)
 		"All fields must be specified.\n"
 		"On success, free with\n"
 		".Fn jsmn_%s_free_array .\n"
-		".It Ft int Fn jsmn_%s_clear\n"
+		".It Ft void Fn jsmn_%s_clear\n"
 		".TS\n"
 		"l l.\n"
 		"p\tstruct %s *\n"
 		".TE\n"
-		".It Ft int Fn jsmn_%s_free_array\n"
+		".It Ft void Fn jsmn_%s_free_array\n"
 		".TS\n"
 		"l l.\n"
 		"ps\tstruct %s *\n"
@@ -1257,7 +1262,7 @@ gen_json_inputs(FILE *f, const struct config *cfg, int syn)
 		    ".Fa \"const char *buf\"\n"
 		    ".Fa \"size_t sz\"\n"
 		    ".Fa \"jsmntok_t *toks\"\n"
-		    ".Fa \"junsigned int toksz\"\n"
+		    ".Fa \"unsigned int toksz\"\n"
 		    ".Fc\n"
 		    ".Ft int\n"
 		    ".Fo jsmn_eq\n"
-- 
2.43.0


From cff8859faf75c3608735e055abdaf3f3d3db53ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:25 +0000
Subject: [PATCH 092/110] fix: comments could become macros of manual pages

---
 lang-c-manpage.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lang-c-manpage.c b/lang-c-manpage.c
index 8e36945..fc867dd 100644
--- a/lang-c-manpage.c
+++ b/lang-c-manpage.c
@@ -84,7 +84,9 @@ gen_doc_block(FILE *f, const char *cp, int tail, int head)
 		return 1;
 
 	while (*cp != '\0') {
-		if (*cp == '.' || *cp == '"')
+		if (head && lines == 0 && fputs(".Pp\n", f) == EOF)
+			return 0;
+		if (*cp == '.' || *cp == '\'' || *cp == '"')
 			if (fputs("\\&", f) == EOF)
 				return 0;
 		for (sz = 0; *cp != '\0'; cp++) {
@@ -92,10 +94,10 @@ gen_doc_block(FILE *f, const char *cp, int tail, int head)
 				break;
 			if (*cp == '\\' && cp[1] == '"')
 				cp++;
-			if (head && sz == 0 && lines == 0)
-				if (fputs(".Pp\n", f) == EOF)
+			if (*cp == '\\') {
+				if (fputs("\\e", f) == EOF)
 					return 0;
-			if (fputc(*cp, f) == EOF)
+			} else if (fputc(*cp, f) == EOF)
 				return 0;
 			sz++;
 		}
-- 
2.43.0


From 9b89faf8f7aa072490cd5e4196e5a41aa049671a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:25 +0000
Subject: [PATCH 093/110] fix: manual pages listed a role "all" the header does
 not have

---
 lang-c-manpage.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lang-c-manpage.c b/lang-c-manpage.c
index fc867dd..ce353a0 100644
--- a/lang-c-manpage.c
+++ b/lang-c-manpage.c
@@ -250,6 +250,8 @@ gen_roles(FILE *f, const struct config *cfg)
 		return -1;
 
 	TAILQ_FOREACH(r, &cfg->arq, allentries) {
+		if (strcmp(r->name, "all") == 0)
+			continue;
 		if (fprintf(f, ".It Dv ROLE_%s\n", r->name) < 0)
 			return -1;
 		if (r->doc != NULL && !gen_doc_block(f, r->doc, 0, 0))
-- 
2.43.0


From 2d8c7a2040cf4033f0b1df33c094a84cdddfd47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:22 +0000
Subject: [PATCH 094/110] fix: ort-rust: descend into references of null and
 other references

---
 lang-rust.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/lang-rust.c b/lang-rust.c
index e306b86..120b048 100644
--- a/lang-rust.c
+++ b/lang-rust.c
@@ -942,7 +942,7 @@ gen_reffind(const struct strct *s, FILE *f)
 			continue;
 		if (fd->ref->source->flags & FIELD_NULL) {
 			if (fprintf(f,
-			    "%12sif let Some(nobj) = obj.%s {\n"
+			    "%12sif let Some(ref nobj) = obj.%s {\n"
 	    		    "%16slet sql = stmt::stmt_fmt(stmt::",
 			    "", fd->ref->source->name, "") < 0)
 				return 0;
@@ -975,9 +975,17 @@ gen_reffind(const struct strct *s, FILE *f)
 		if (!(fd->ref->target->parent->flags &
 		      STRCT_HAS_NULLREFS))
 			continue;
+		if (!(fd->ref->source->flags & FIELD_NULL)) {
+			if (fprintf(f,
+			    "%12sself.db_%s_reffind(&mut obj.%s)?;\n",
+			    "", fd->ref->target->parent->name,
+			    fd->name) < 0)
+				return 0;
+			continue;
+		}
 		if (fprintf(f,
-		    "%12sif let Some(mut nobj) = obj.%s.as_mut() {\n"
-		    "%16sself.db_%s_reffind(&mut nobj)?;\n"
+		    "%12sif let Some(nobj) = obj.%s.as_mut() {\n"
+		    "%16sself.db_%s_reffind(nobj)?;\n"
 		    "%12s}\n", "", fd->name, "",
 		    fd->ref->target->parent->name, "") < 0)
 			return 0;
-- 
2.43.0


From add7c971c4591df29a340d8bdd821c30d0a65aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:22 +0000
Subject: [PATCH 095/110] fix: ort-rust: don't ignore failure to fill in null
 references

---
 lang-rust.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lang-rust.c b/lang-rust.c
index 120b048..cc3ab0e 100644
--- a/lang-rust.c
+++ b/lang-rust.c
@@ -1339,7 +1339,7 @@ gen_query(const struct search *s, size_t num, FILE *f)
 			return 0;
 		if (rs->flags & STRCT_HAS_NULLREFS)
 		       if (fprintf(f,
-			   "%16sself.db_%s_reffind(&mut obj);\n",
+			   "%16sself.db_%s_reffind(&mut obj)?;\n",
 			   "", rs->name) < 0)
 			       return 0;
 		if (!gen_query_checkpass(f, s, 1))
@@ -1368,7 +1368,7 @@ gen_query(const struct search *s, size_t num, FILE *f)
 			return 0;
 		if (rs->flags & STRCT_HAS_NULLREFS)
 		       if (fprintf(f,
-			   "%16sself.db_%s_reffind(&mut obj);\n",
+			   "%16sself.db_%s_reffind(&mut obj)?;\n",
 			   "", rs->name) < 0)
 			       return 0;
 		if (!gen_query_checkpass(f, s, 0))
@@ -1398,7 +1398,7 @@ gen_query(const struct search *s, size_t num, FILE *f)
 			return 0;
 		if (rs->flags & STRCT_HAS_NULLREFS)
 		       if (fprintf(f,
-			   "%16sself.db_%s_reffind(&mut obj);\n",
+			   "%16sself.db_%s_reffind(&mut obj)?;\n",
 			   "", rs->name) < 0)
 			       return 0;
 		if (!gen_query_checkpass(f, s, 0))
-- 
2.43.0


From b9b0b13c50c65ae09730e45dc2ce6d4facc9b678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:23 +0000
Subject: [PATCH 096/110] fix: ort-rust: export nested structures with the role

---
 lang-rust.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lang-rust.c b/lang-rust.c
index cc3ab0e..1394a3f 100644
--- a/lang-rust.c
+++ b/lang-rust.c
@@ -205,8 +205,11 @@ static int
 gen_field_to_json(const struct field *fd, int first, FILE *f)
 {
 	const struct rref	*r;
+	const char		*role;
 	int	 		 tabs = 16, rc = 0;
 
+	role = TAILQ_EMPTY(&fd->parent->cfg->arq) ? "" : "role";
+
 	if (fd->flags & FIELD_NOEXPORT)
 		return 0;
 	if (fd->type == FTYPE_PASSWORD)
@@ -288,14 +291,14 @@ gen_field_to_json(const struct field *fd, int first, FILE *f)
 			if (fprintf(f,
 			    "%*sif let Some(ref x) = &self.%s {\n"
 			    "%*sret += \"{\";\n"
-			    "%*sret += &x.to_json();\n"
+			    "%*sret += &x.to_json(%s);\n"
 			    "%*sret += \"}\";\n"
 			    "%*s} else {\n"
 			    "%*sret += \"null\";\n"
 			    "%*s}\n",
 			    tabs, "", fd->name, 
 			    tabs + 4, "", 
-			    tabs + 4, "", 
+			    tabs + 4, "", role,
 			    tabs + 4, "", 
 			    tabs, "", 
 			    tabs + 4, "", 
@@ -304,10 +307,10 @@ gen_field_to_json(const struct field *fd, int first, FILE *f)
 		} else {
 			if (fprintf(f,
 			    "%*sret += \"{\";\n"
-			    "%*sret += &self.%s.to_json();\n"
+			    "%*sret += &self.%s.to_json(%s);\n"
 			    "%*sret += \"}\";\n",
 			    tabs, "", 
-			    tabs, "", fd->name, 
+			    tabs, "", fd->name, role,
 			    tabs, "") < 0)
 				return -1;
 		}
-- 
2.43.0


From 1f2fb79003297300c5ab03ed7aa8e78ebf6b8512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:15 +0000
Subject: [PATCH 097/110] fix: ort-rust: bind enumerations of updates, deletes,
 and null terms

---
 lang-rust.c | 59 +++++++++++++++++++++++++++--------------------------
 1 file changed, 30 insertions(+), 29 deletions(-)

diff --git a/lang-rust.c b/lang-rust.c
index 1394a3f..e799eb4 100644
--- a/lang-rust.c
+++ b/lang-rust.c
@@ -698,6 +698,32 @@ gen_aliases(const struct config *cfg, FILE *f)
 	return fprintf(f, "%12s}\n%12ss\n%8s}\n", "", "", "") >= 0;
 }
 
+/*
+ * Generate the parameter at "pos" as given to a statement.
+ * Return zero on failure, non-zero on success.
+ */
+static int
+gen_param(const struct field *fd, size_t pos, FILE *f)
+{
+
+	if (fd->type != FTYPE_ENUM)
+		return fprintf(f, "%16sv%zu,\n", "", pos) >= 0;
+	if (fd->flags & FIELD_NULL)
+		return fprintf(f,
+		    "%16smatch v%zu {\n"
+		    "%20sSome(x) => Some"
+		     "(ToPrimitive::to_i64"
+		      "(&x).unwrap()),\n"
+		    "%20sNone => None,\n"
+		    "%16s},\n",
+		    "", pos, "", "", "") >= 0;
+
+	return fprintf(f,
+	    "%16sToPrimitive::to_i64"
+	     "(&v%zu).unwrap(),\n",
+	    "", pos) >= 0;
+}
+
 /*
  * Generate db_xxx_delete or db_xxx_update method.
  * Return zero on failure, non-zero on success.
@@ -824,7 +850,7 @@ gen_update(const struct update *up, size_t num, FILE *f)
 				return 0;
 			hash++;
 		} else {
-			if (fprintf(f, "%16sv%zu,\n", "", pos) < 0)
+			if (!gen_param(ref->field, pos, f))
 				return 0;
 		}
 		pos++;
@@ -834,7 +860,7 @@ gen_update(const struct update *up, size_t num, FILE *f)
 		assert(ref->field->type != FTYPE_STRUCT);
 		if (OPTYPE_ISUNARY(ref->op))
 			continue;
-		if (fprintf(f, "%16sv%zu,\n", "", pos) < 0)
+		if (!gen_param(ref->field, pos, f))
 			return 0;
 		pos++;
 	}
@@ -1170,28 +1196,8 @@ gen_insert(const struct strct *s, FILE *f)
 			    "%16shash%zu,\n", "", hash) < 0)
 				return 0;
 			break;
-		case FTYPE_ENUM:
-			if (fd->flags & FIELD_NULL) {
-				if (fprintf(f,
-				    "%16smatch v%zu {\n"
-				    "%20sSome(x) => Some"
-				     "(ToPrimitive::to_i64"
-				      "(&x).unwrap()),\n"
-				    "%20sNone => None,\n"
-				    "%16s},\n",
-				    "", pos, "", "", "") < 0)
-					return 0;
-			} else {
-				if (fprintf(f,
-				    "%16sToPrimitive::to_i64"
-				     "(&v%zu).unwrap(),\n",
-				    "", pos) < 0)
-					return 0;
-			}
-			break;
 		default:
-			if (fprintf(f,
-			    "%16sv%zu,\n", "", pos) < 0)
+			if (!gen_param(fd, pos, f))
 				return 0;
 			break;
 		}
@@ -1310,18 +1316,13 @@ gen_query(const struct search *s, size_t num, FILE *f)
 		if (OPTYPE_ISUNARY(sent->op))
 			continue;
 		switch (sent->field->type) {
-		case FTYPE_ENUM:
-			if (fprintf(f, "%16sToPrimitive::to_i64"
-			    "(&v%zu).unwrap(),\n", "", pos) < 0)
-				return 0;
-			break;
 		case FTYPE_PASSWORD:
 			if (sent->op != OPTYPE_STREQ &&
 			    sent->op != OPTYPE_STRNEQ)
 				break;
 			/* FALLTHROUGH */
 		default:
-			if (fprintf(f, "%16sv%zu,\n", "", pos) < 0)
+			if (!gen_param(sent->field, pos, f))
 				return 0;
 		}
 		pos++;
-- 
2.43.0


From 6a1dfb096f89825575b536818a1f097ec30a7dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:09 +0000
Subject: [PATCH 098/110] fix: ort-rust: fields named as reserved words of Rust

---
 lang-rust.c | 159 +++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 120 insertions(+), 39 deletions(-)

diff --git a/lang-rust.c b/lang-rust.c
index e799eb4..398404c 100644
--- a/lang-rust.c
+++ b/lang-rust.c
@@ -85,19 +85,76 @@ static	const char *const optypes[OPTYPE__MAX] = {
 	"notnull", /* OPTYPE_NOTNULL */
 };
 
-static char *
-strdup_ident(const char *s)
+/*
+ * Reserved words of Rust and the identifiers we use instead, which are
+ * raw identifiers except for those words that can't be raw.
+ */
+static	const char *const reserved[][2] = {
+	{ "abstract", "r#abstract" },
+	{ "as", "r#as" },
+	{ "async", "r#async" },
+	{ "await", "r#await" },
+	{ "become", "r#become" },
+	{ "box", "r#box" },
+	{ "break", "r#break" },
+	{ "const", "r#const" },
+	{ "continue", "r#continue" },
+	{ "crate", "crate_" },
+	{ "do", "r#do" },
+	{ "dyn", "r#dyn" },
+	{ "else", "r#else" },
+	{ "enum", "r#enum" },
+	{ "extern", "r#extern" },
+	{ "false", "r#false" },
+	{ "final", "r#final" },
+	{ "fn", "r#fn" },
+	{ "for", "r#for" },
+	{ "if", "r#if" },
+	{ "impl", "r#impl" },
+	{ "in", "r#in" },
+	{ "let", "r#let" },
+	{ "loop", "r#loop" },
+	{ "macro", "r#macro" },
+	{ "match", "r#match" },
+	{ "mod", "r#mod" },
+	{ "move", "r#move" },
+	{ "mut", "r#mut" },
+	{ "override", "r#override" },
+	{ "priv", "r#priv" },
+	{ "pub", "r#pub" },
+	{ "ref", "r#ref" },
+	{ "return", "r#return" },
+	{ "self", "self_" },
+	{ "static", "r#static" },
+	{ "struct", "r#struct" },
+	{ "super", "super_" },
+	{ "trait", "r#trait" },
+	{ "true", "r#true" },
+	{ "try", "r#try" },
+	{ "type", "r#type" },
+	{ "typeof", "r#typeof" },
+	{ "unsafe", "r#unsafe" },
+	{ "unsized", "r#unsized" },
+	{ "use", "r#use" },
+	{ "virtual", "r#virtual" },
+	{ "where", "r#where" },
+	{ "while", "r#while" },
+	{ "yield", "r#yield" },
+};
+
+/*
+ * Return the identifier for a field name.
+ */
+static const char *
+get_ident(const char *s)
 {
-	char	*cp;
+	size_t	 i;
 
-	if (strcasecmp(s, "self") == 0 ||
-	    strcasecmp(s, "type") == 0) {
-		if (asprintf(&cp, "r#%s", s) == -1)
-			return NULL;
-	} else
-		cp = strdup(s);
+	for (i = 0; i < sizeof(reserved) / sizeof(reserved[0]); i++)
+		if (strcmp(s, reserved[i][0]) == 0)
+			return reserved[i][1];
 
-	return cp;
+	return s;
 }
 
 static char *
@@ -205,9 +262,10 @@ static int
 gen_field_to_json(const struct field *fd, int first, FILE *f)
 {
 	const struct rref	*r;
-	const char		*role;
+	const char		*role, *name;
 	int	 		 tabs = 16, rc = 0;
 
+	name = get_ident(fd->name);
 	role = TAILQ_EMPTY(&fd->parent->cfg->arq) ? "" : "role";
 
 	if (fd->flags & FIELD_NOEXPORT)
@@ -247,7 +305,7 @@ gen_field_to_json(const struct field *fd, int first, FILE *f)
 			    "%*s} else {\n"
 			    "%*sret += \"null\";\n"
 			    "%*s}\n",
-			    tabs, "", fd->name, 
+			    tabs, "", name, 
 			    tabs + 4, "", 
 			    tabs, "", 
 			    tabs + 4, "", 
@@ -257,7 +315,7 @@ gen_field_to_json(const struct field *fd, int first, FILE *f)
 			if (fprintf(f,
 			    "%*sret += &format!"
 			     "(\"\\\"{}\\\"\", self.%s);\n",
-			    tabs, "", fd->name) < 0)
+			    tabs, "", name) < 0)
 				return -1;
 		}
 		break;
@@ -271,7 +329,7 @@ gen_field_to_json(const struct field *fd, int first, FILE *f)
 			    "%*s} else {\n"
 			    "%*sret += \"null\";\n"
 			    "%*s}\n",
-			    tabs, "", fd->name, 
+			    tabs, "", name, 
 			    tabs + 4, "", 
 			    tabs, "", 
 			    tabs + 4, "", 
@@ -282,7 +340,7 @@ gen_field_to_json(const struct field *fd, int first, FILE *f)
 			    "%*sret += &format!(\"\\\"{}\\\"\", "
 			     "num_traits::ToPrimitive::to_i64"
 			     "(&self.%s).unwrap());\n",
-			    tabs, "", fd->name) < 0)
+			    tabs, "", name) < 0)
 				return -1;
 		}
 		break;
@@ -296,7 +354,7 @@ gen_field_to_json(const struct field *fd, int first, FILE *f)
 			    "%*s} else {\n"
 			    "%*sret += \"null\";\n"
 			    "%*s}\n",
-			    tabs, "", fd->name, 
+			    tabs, "", name, 
 			    tabs + 4, "", 
 			    tabs + 4, "", role,
 			    tabs + 4, "", 
@@ -310,7 +368,7 @@ gen_field_to_json(const struct field *fd, int first, FILE *f)
 			    "%*sret += &self.%s.to_json(%s);\n"
 			    "%*sret += \"}\";\n",
 			    tabs, "", 
-			    tabs, "", fd->name, role,
+			    tabs, "", name, role,
 			    tabs, "") < 0)
 				return -1;
 		}
@@ -325,7 +383,7 @@ gen_field_to_json(const struct field *fd, int first, FILE *f)
 			    "%*s} else {\n"
 			    "%*sret += \"null\";\n"
 			    "%*s}\n",
-			    tabs, "", fd->name, 
+			    tabs, "", name, 
 			    tabs + 4, "", 
 			    tabs + 4, "", 
 			    tabs + 4, "", 
@@ -339,7 +397,7 @@ gen_field_to_json(const struct field *fd, int first, FILE *f)
 			    "%*sret += &base64::encode(&self.%s);\n"
 			    "%*sret += \"\\\"\";\n",
 			    tabs, "", 
-			    tabs, "", fd->name, 
+			    tabs, "", name, 
 			    tabs, "") < 0)
 				return -1;
 		}
@@ -352,7 +410,7 @@ gen_field_to_json(const struct field *fd, int first, FILE *f)
 			    "%*s} else {\n"
 			    "%*sret += \"null\";\n"
 			    "%*s}\n",
-			    tabs, "", fd->name, 
+			    tabs, "", name, 
 			    tabs + 4, "", 
 			    tabs, "", 
 			    tabs + 4, "", 
@@ -361,7 +419,7 @@ gen_field_to_json(const struct field *fd, int first, FILE *f)
 		} else {
 			if (fprintf(f,
 			    "%*sret += &json_escape(&self.%s);\n",
-			    tabs, "", fd->name) < 0)
+			    tabs, "", name) < 0)
 				return -1;
 		}
 		break;
@@ -391,10 +449,8 @@ gen_data_strct(const struct strct *s, FILE *f)
 		goto out;
 
 	TAILQ_FOREACH(fd, &s->fq, entries) {
-		free(cp);
-		if ((cp = strdup_ident(fd->name)) == NULL)
-			goto out;
-		if (fprintf(f, "%12spub %s: ", "", cp) < 0)
+		if (fprintf(f, "%12spub %s: ", 
+		    "", get_ident(fd->name)) < 0)
 			goto out;
 
 		isnull = fd->flags & FIELD_NULL;
@@ -889,14 +945,37 @@ gen_update(const struct update *up, size_t num, FILE *f)
 	    "", "", "", "", "", "", "", "", "", "", "") >= 0;
 }
 
+/*
+ * Generate the path to a (possibly nested) field, starting with "obj".
+ * Return zero on failure, non-zero on success.
+ */
 static int
-gen_checkpass(FILE *f, size_t pos, const char *name,
-	enum optype type, const struct field *fd)
+gen_obj(FILE *f, const struct sent *sent)
 {
+	size_t	 i;
 
-	if ((fd->flags & FIELD_NULL) && fprintf(f,
-	    "v%zu.is_none() || obj.%s.is_none() ||", pos, name) < 0)
+	if (fputs("obj", f) == EOF)
 		return 0;
+	for (i = 0; i < sent->chainsz; i++)
+		if (fprintf(f, ".%s", 
+		    get_ident(sent->chain[i]->name)) < 0)
+			return 0;
+	return 1;
+}
+
+static int
+gen_checkpass(FILE *f, size_t pos, const struct sent *sent,
+	enum optype type, const struct field *fd)
+{
+
+	if (fd->flags & FIELD_NULL) {
+		if (fprintf(f, "v%zu.is_none() || ", pos) < 0)
+			return 0;
+		if (!gen_obj(f, sent))
+			return 0;
+		if (fputs(".is_none() ||", f) == EOF)
+			return 0;
+	}
 	if (type == OPTYPE_EQUAL && fputc('!', f) == EOF)
 		return 0;
 	if (fprintf(f, "verify(v%zu", pos) < 0)
@@ -906,7 +985,7 @@ gen_checkpass(FILE *f, size_t pos, const char *name,
 		return 0;
 	if (!(fd->flags & FIELD_NULL) && fputs(", &", f) == EOF)
 		return 0;
-	if (fprintf(f, "obj.%s", name) < 0)
+	if (!gen_obj(f, sent))
 		return 0;
 	if ((fd->flags & FIELD_NULL) &&
 	    fputs(".as_ref().unwrap()", f) == EOF)
@@ -934,7 +1013,7 @@ gen_query_checkpass(FILE *f, const struct search *s, int ret)
 		}
 		if (fprintf(f, "%16sif ", "") < 0)
 			return 0;
-		if (!gen_checkpass(f, pos, sent->fname,
+		if (!gen_checkpass(f, pos, sent,
 		    sent->op, sent->field))
 			return 0;
 		if (ret && fprintf(f,
@@ -973,7 +1052,7 @@ gen_reffind(const struct strct *s, FILE *f)
 			if (fprintf(f,
 			    "%12sif let Some(ref nobj) = obj.%s {\n"
 	    		    "%16slet sql = stmt::stmt_fmt(stmt::",
-			    "", fd->ref->source->name, "") < 0)
+			    "", get_ident(fd->ref->source->name), "") < 0)
 				return 0;
 			if (gen_enum_unique
 			    (f, 1, fd->ref->target, LANG_RUST) < 0)
@@ -996,7 +1075,8 @@ gen_reffind(const struct strct *s, FILE *f)
 			     "Error::QueryReturnedNoRows);\n"
 			    "%16s}\n"
 			    "%12s}\n",
-			    "", "", "", "", "", "", "", fd->name,
+			    "", "", "", "", "", "", "", 
+			    get_ident(fd->name),
 			    fd->ref->target->parent->name,
 			    "", "", "", "") < 0)
 				return 0;
@@ -1008,14 +1088,14 @@ gen_reffind(const struct strct *s, FILE *f)
 			if (fprintf(f,
 			    "%12sself.db_%s_reffind(&mut obj.%s)?;\n",
 			    "", fd->ref->target->parent->name,
-			    fd->name) < 0)
+			    get_ident(fd->name)) < 0)
 				return 0;
 			continue;
 		}
 		if (fprintf(f,
 		    "%12sif let Some(nobj) = obj.%s.as_mut() {\n"
 		    "%16sself.db_%s_reffind(nobj)?;\n"
-		    "%12s}\n", "", fd->name, "",
+		    "%12s}\n", "", get_ident(fd->name), "",
 		    fd->ref->target->parent->name, "") < 0)
 			return 0;
 	}
@@ -1068,16 +1148,17 @@ gen_fill(const struct strct *s, FILE *f)
 		case FTYPE_STRUCT:
 			if (fd->ref->source->flags & FIELD_NULL) {
 				if (fprintf(f, "%16s%s: "
-				    "None,\n", "", fd->name) < 0)
+				    "None,\n", "", get_ident(fd->name)) < 0)
 					return 0;
 			} else {
 				if (fprintf(f, "%16s%s: obj%zu,\n",
-				    "", fd->name, scol++) < 0)
+				    "", get_ident(fd->name), scol++) < 0)
 					return 0;
 			}
 			break;
 		case FTYPE_ENUM:
-			if (fprintf(f, "%16s%s: ", "", fd->name) < 0)
+			if (fprintf(f, "%16s%s: ", 
+			    "", get_ident(fd->name)) < 0)
 				return 0;
 			if (fd->flags & FIELD_NULL) {
 				if (fprintf(f,
@@ -1104,7 +1185,7 @@ gen_fill(const struct strct *s, FILE *f)
 			break;
 		default:
 			if (fprintf(f, "%16s%s: row.get(ncol + %zu)?,"
-			    "\n", "", fd->name, col++) < 0)
+			    "\n", "", get_ident(fd->name), col++) < 0)
 				return 0;
 			break;
 		}
-- 
2.43.0


From 80a10168d87790f8ea4871acb65edea9c8061b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:00 +0000
Subject: [PATCH 099/110] fix: ort-rust: escape back-slashes and control
 characters of JSON

---
 lang-rust.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lang-rust.c b/lang-rust.c
index 398404c..6e753f9 100644
--- a/lang-rust.c
+++ b/lang-rust.c
@@ -633,14 +633,16 @@ gen_data(const struct config *cfg, FILE *f)
 	    "%20s'\\r'   => escaped += \"\\\\r\",\n"
 	    "%20s'\\t'   => escaped += \"\\\\t\",\n"
 	    "%20s'\"'    => escaped += \"\\\\\\\"\",\n"
-	    "%20s'\\\\'   => escaped += \"\\\\\",\n"
+	    "%20s'\\\\'   => escaped += \"\\\\\\\\\",\n"
+	    "%20sc if (c as u32) < 0x20 => "
+	     "escaped += &format!(\"\\\\u{:04x}\", c as u32),\n"
 	    "%20sc      => escaped.push(c),\n"
 	    "%16s}\n"
 	    "%12s}\n"
 	    "%12sescaped.push('\"');\n"
 	    "%12sescaped\n"
 	    "%8s}\n",
-	    "", "", "", "", "", "", "", "", "",
+	    "", "", "", "", "", "", "", "", "", "",
 	    "", "", "", "", "", "", "", "", "") < 0)
 		return 0;
 
-- 
2.43.0


From 7db7dc40f156f054b518b83aacb2f50ba38a8bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:00 +0000
Subject: [PATCH 100/110] fix: ort-rust: indices of bits start at one

---
 lang-rust.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lang-rust.c b/lang-rust.c
index 6e753f9..15a4643 100644
--- a/lang-rust.c
+++ b/lang-rust.c
@@ -528,7 +528,7 @@ gen_types_bitf(const struct bitf *b, FILE *f)
 		if ((cp = strdup_title(bi->name)) == NULL)
 			goto out;
 		if (fprintf(f,
-		    "%12s%s = %" PRId64 ",\n", "", cp, bi->value) < 0)
+		    "%12s%s = %" PRId64 ",\n", "", cp, bi->value + 1) < 0)
 			goto out;
 	}
 
-- 
2.43.0


From b1c36d833f221a4e6ca456126e51464891ab99c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:01 +0000
Subject: [PATCH 101/110] fix: ort-rust: deny what is not assigned to any role

---
 lang-rust.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/lang-rust.c b/lang-rust.c
index 15a4643..cb4830f 100644
--- a/lang-rust.c
+++ b/lang-rust.c
@@ -210,13 +210,21 @@ gen_role(FILE *f, const struct role *r, size_t tabs,
  * Return FALSE on failure, TRUE on success.
  */
 static int
-gen_rolemap(FILE *f, const struct rolemap *rm)
+gen_rolemap(FILE *f, const struct config *cfg, const struct rolemap *rm)
 {
 	const struct rref	*rr;
 	int			 rc = 0;
 
-	if (rm == NULL || TAILQ_EMPTY(&rm->rq))
+	if (TAILQ_EMPTY(&cfg->arq))
 		return 1;
+
+	/* With roles, what's not assigned any is denied to all. */
+
+	if (rm == NULL || TAILQ_EMPTY(&rm->rq))
+		return fprintf(f, "%12sif true {\n"
+			"%16spanic!(\"role violation\");\n"
+			"%12s}\n", "", "", "") >= 0;
+
 	if (fprintf(f, "%12sif !(", "") < 0)
 		return 0;
 	TAILQ_FOREACH(rr, &rm->rq, entries) {
@@ -856,7 +864,7 @@ gen_update(const struct update *up, size_t num, FILE *f)
 	if (fprintf(f, ") -> Result<%s> {\n",
 	    up->type == UP_MODIFY ? "bool" : "()") < 0)
 		return 0;
-	if (!gen_rolemap(f, up->rolemap))
+	if (!gen_rolemap(f, up->parent->cfg, up->rolemap))
 		return 0;
 	if (fprintf(f, "%12slet sql = stmt::stmt_fmt(stmt::", "") < 0)
 		return 0;
@@ -1222,7 +1230,7 @@ gen_insert(const struct strct *s, FILE *f)
 
 	if (fputs(") -> Result<i64> {\n", f) == EOF)
 		return 0;
-	if (!gen_rolemap(f, s->ins->rolemap))
+	if (!gen_rolemap(f, s->cfg, s->ins->rolemap))
 		return 0;
 
 	if (fprintf(f,
@@ -1380,7 +1388,7 @@ gen_query(const struct search *s, size_t num, FILE *f)
 
 	if (fputs(" {\n", f) == EOF)
 		return 0;
-	if (!gen_rolemap(f, s->rolemap))
+	if (!gen_rolemap(f, s->parent->cfg, s->rolemap))
 		return 0;
 
 	if (fprintf(f, "%12slet sql = stmt::stmt_fmt(stmt::", "") < 0)
-- 
2.43.0


From 48455602da0286202666039588841eff9f90c08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:01 +0000
Subject: [PATCH 102/110] fix: ort-rust: only let roles be left for their
 ancestors

---
 lang-rust.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/lang-rust.c b/lang-rust.c
index cb4830f..1861b89 100644
--- a/lang-rust.c
+++ b/lang-rust.c
@@ -1528,8 +1528,8 @@ gen_query(const struct search *s, size_t num, FILE *f)
 }
 
 /*
- * Generate all of the possible transitions from the given role into all
- * possible roles, then all of the transitions from the roles "beneath"
+ * Generate all of the possible transitions from the given role into its
+ * ancestors or "none", then all of the transitions from the roles "beneath"
  * the current role.
  * Return zero on failure, non-zero on success.
  */
@@ -1540,12 +1540,15 @@ gen_ortctx_dbrole_role(FILE *f, const struct role *r)
 
 	if (fprintf(f,
 	    "%16sOrtrole::%c%s => {\n"
-	    "%20sif ",
+	    "%20sif newrole == Ortrole::None",
 	    "", toupper((unsigned char)r->name[0]),
 	    r->name + 1, "") < 0)
 		return 0;
-	if (gen_role(f, r, 3, "newrole", 0, 0) < 0)
-		return 0;
+	for (rr = r->parent; strcmp(rr->name, "all") != 0; rr = rr->parent)
+		if (fprintf(f, " || newrole == Ortrole::%c%s",
+		    toupper((unsigned char)rr->name[0]),
+		    rr->name + 1) < 0)
+			return 0;
 	if (fprintf(f, " {\n"
 	    "%24sself.role = newrole;\n"
 	    "%24sreturn;\n"
-- 
2.43.0


From 0874933446d6127c78e8cb4210923cb37629d1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:02 +0000
Subject: [PATCH 103/110] fix: ort-rust: roles could not be set from outside of
 the module

---
 lang-rust.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lang-rust.c b/lang-rust.c
index 1861b89..fb87acd 100644
--- a/lang-rust.c
+++ b/lang-rust.c
@@ -1576,13 +1576,13 @@ gen_ortctx_dbrole(const struct config *cfg, FILE *f)
 		return 1;
 
 	if (fprintf(f,
-	    "%8sfn db_role_current(&self) -> Ortrole {\n"
+	    "%8spub fn db_role_current(&self) -> Ortrole {\n"
 	    "%12sreturn self.role;\n"
 	    "%8s}\n", "", "", "") < 0)
 		return 0;
 
 	if (fprintf(f,
-	    "%8sfn db_role(&mut self, newrole: Ortrole) {\n"
+	    "%8spub fn db_role(&mut self, newrole: Ortrole) {\n"
 	    "%12sif self.role == newrole {\n"
 	    "%16sreturn;\n"
 	    "%12s}\n"
-- 
2.43.0


From c81127e940d7b251dd049729bb4e957879d4e20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:13 +0000
Subject: [PATCH 104/110] fix: ort-rust: commas of JSON after fields not
 exported to a role

---
 lang-rust.c | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/lang-rust.c b/lang-rust.c
index fb87acd..cf63086 100644
--- a/lang-rust.c
+++ b/lang-rust.c
@@ -266,6 +266,13 @@ gen_var(FILE *f, size_t pos, const struct field *fd, int comma)
 	return 1;
 }
 
+/*
+ * Print field to JSON.  If "first" is positive, no other field precedes
+ * this; if zero, some other field does; if negative, this depends upon
+ * the role.
+ * Return <0 on failure, 0 if nothing is printed, 1 if printed, 2 if
+ * printed dependent upon the role.
+ */
 static int
 gen_field_to_json(const struct field *fd, int first, FILE *f)
 {
@@ -295,6 +302,11 @@ gen_field_to_json(const struct field *fd, int first, FILE *f)
 		tabs += 4;
 	}
 
+	if (first < 0 && fprintf(f, 
+	    "%*sif !ret.is_empty() {\n"
+	    "%*sret += \",\";\n"
+	    "%*s}\n", tabs, "", tabs + 4, "", tabs, "") < 0)
+		return -1;
 	if (fprintf(f, "%*sret += \"%s\\\"%s\\\":\";\n",
 	    tabs, "", first ? "" : ",", fd->name) < 0)
 		return -1;
@@ -433,8 +445,8 @@ gen_field_to_json(const struct field *fd, int first, FILE *f)
 		break;
 	}
 
-	if (fd->rolemap != NULL && fprintf(f, "%16s}\n", "") < 0)
-		return -1;
+	if (tabs > 16)
+		return fprintf(f, "%16s}\n", "") < 0 ? -1 : 2;
 
 	return 1;
 }
@@ -509,8 +521,10 @@ gen_data_strct(const struct strct *s, FILE *f)
 	TAILQ_FOREACH(fd, &s->fq, entries)
 		if ((rc = gen_field_to_json(fd, first, f)) < 0)
 			goto out;
-		else if (rc > 0)
+		else if (rc == 1)
 			first = 0;
+		else if (rc == 2 && first)
+			first = -1;
 
 	ret = fprintf(f, "%16sret\n%12s}\n%8s}\n", "", "", "") >= 0;
 out:
-- 
2.43.0


From 5c473dc64ad171bcc39a94257ebd7bf37af9fa00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:27 +0000
Subject: [PATCH 105/110] fix: ort-rust: operations assigned to all roles where
 there are none

---
 lang-rust.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lang-rust.c b/lang-rust.c
index cf63086..8631d09 100644
--- a/lang-rust.c
+++ b/lang-rust.c
@@ -232,6 +232,8 @@ gen_rolemap(FILE *f, const struct config *cfg, const struct rolemap *rm)
 		if (rc < 0)
 			return 0;
 	}
+	if (rc == 0 && fputs("false", f) == EOF)
+		return 0;
 
 	return fprintf(f, ") {\n"
 		"%16spanic!(\"role violation\");\n"
@@ -297,6 +299,8 @@ gen_field_to_json(const struct field *fd, int first, FILE *f)
 			if (rc < 0)
 				return -1;
 		}
+		if (rc == 0 && fputs("false", f) == EOF)
+			return -1;
 		if (fputs(") {\n", f) == EOF)
 			return -1;
 		tabs += 4;
-- 
2.43.0


From 675a9534cc2ef2dba19d3e4219b616acd2f61789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:41 +0000
Subject: [PATCH 106/110] fix: ort-rust: bind enumerations of null references

---
 lang-rust.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lang-rust.c b/lang-rust.c
index 8631d09..88ecbce 100644
--- a/lang-rust.c
+++ b/lang-rust.c
@@ -1092,7 +1092,7 @@ gen_reffind(const struct strct *s, FILE *f)
 			     "self.conn.prepare(&sql)?;\n"
 			    "%16slet mut rows = "
 			     "stmt.query(params![\n"
-			    "%20snobj,\n"
+			    "%20s%s,\n"
 			    "%16s])?;\n"
 			    "%16sif let Some(row) = rows.next()? {\n"
 			    "%20slet mut i = 0;\n"
@@ -1103,7 +1103,11 @@ gen_reffind(const struct strct *s, FILE *f)
 			     "Error::QueryReturnedNoRows);\n"
 			    "%16s}\n"
 			    "%12s}\n",
-			    "", "", "", "", "", "", "", 
+			    "", "", "",
+			    fd->ref->source->type == FTYPE_ENUM ?
+			    "ToPrimitive::to_i64(nobj).unwrap()" :
+			    "nobj",
+			    "", "", "", "", 
 			    get_ident(fd->name),
 			    fd->ref->target->parent->name,
 			    "", "", "", "") < 0)
-- 
2.43.0


From a1db71ae34c09a9f005ffa503aae09c565bbc5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:53 +0000
Subject: [PATCH 107/110] fix: ort-rust: names whose title would be "Self"

---
 lang-rust.c | 59 ++++++++++++++++++++++++++++-------------------------
 1 file changed, 31 insertions(+), 28 deletions(-)

diff --git a/lang-rust.c b/lang-rust.c
index 88ecbce..192e8ff 100644
--- a/lang-rust.c
+++ b/lang-rust.c
@@ -157,23 +157,25 @@ get_ident(const char *s)
 	return s;
 }
 
+/*
+ * What to put after a title so that it's not "Self", which is reserved
+ * and can't be a raw identifier.
+ */
+static const char *
+get_sfx(const char *s)
+{
+
+	return strcasecmp(s, "self") == 0 ? "_" : "";
+}
+
 static char *
 strdup_title(const char *s)
 {
 	char	*cp;
-	size_t	 offs = 0;
-
-	if (strcasecmp(s, "self") == 0 ||
-	    strcasecmp(s, "type") == 0) {
-		if (asprintf(&cp, "r#%s", s) == -1)
-			return NULL;
-		offs = 2;
-	} else {
-		if ((cp = strdup(s)) == NULL)
-			return NULL;
-	}
 
-	cp[offs] = (char)toupper((unsigned char)cp[offs]);
+	if (asprintf(&cp, "%s%s", s, get_sfx(s)) == -1)
+		return NULL;
+	cp[0] = (char)toupper((unsigned char)cp[0]);
 	return cp;
 }
 
@@ -198,11 +200,11 @@ gen_role(FILE *f, const struct role *r, size_t tabs,
 	if (strcmp(r->name, "all") == 0)
 		return rc;
 
-	return fprintf(f, "%s%s == %sOrtrole::%c%s",
+	return fprintf(f, "%s%s == %sOrtrole::%c%s%s",
 	    rc > 0 ? " || ": "", cond,
 	    super ? "super::" : "",
 	    toupper((unsigned char)r->name[0]),
-	    r->name + 1) < 0 ? -1 : 1;
+	    r->name + 1, get_sfx(r->name)) < 0 ? -1 : 1;
 }
 
 /*
@@ -251,9 +253,9 @@ gen_var(FILE *f, size_t pos, const struct field *fd, int comma)
 	if ((fd->flags & FIELD_NULL) && fputs("Option<", f) == EOF)
 		return -1;
 	if (fd->type == FTYPE_ENUM) {
-		if (fprintf(f, "data::%c%s",
+		if (fprintf(f, "data::%c%s%s",
 		    toupper((unsigned char)fd->enm->name[0]),
-		    fd->enm->name + 1) < 0)
+		    fd->enm->name + 1, get_sfx(fd->enm->name)) < 0)
 			return -1;
 	} else {
 		if (strcmp(ftypes[fd->type], "i64") &&
@@ -1068,9 +1070,10 @@ gen_reffind(const struct strct *s, FILE *f)
 		return 1;
 
 	if (fprintf(f,
-	    "%8sfn db_%s_reffind(&self, obj: &mut data::%c%s) -> "
+	    "%8sfn db_%s_reffind(&self, obj: &mut data::%c%s%s) -> "
 	    "Result<()> {\n", "", s->name,
-	    toupper((unsigned char)s->name[0]), s->name + 1) < 0)
+	    toupper((unsigned char)s->name[0]), s->name + 1,
+	    get_sfx(s->name)) < 0)
 		return 0;
 
 	TAILQ_FOREACH(fd, &s->fq, entries) {
@@ -1146,11 +1149,11 @@ gen_fill(const struct strct *s, FILE *f)
 
 	if (fprintf(f,
 	    "%8sfn db_%s_fill(&self, row: &Row, i: &mut usize) -> "
-	     "Result<data::%c%s> {\n"
+	     "Result<data::%c%s%s> {\n"
 	    "%12slet ncol: usize = *i;\n"
 	    "%12s*i += %zu;\n",
 	    "", s->name, toupper((unsigned char)s->name[0]),
-	    s->name + 1, "", "", cols) < 0)
+	    s->name + 1, get_sfx(s->name), "", "", cols) < 0)
 		return 0;
 
 	col = scol = 0;
@@ -1170,8 +1173,9 @@ gen_fill(const struct strct *s, FILE *f)
 			col++;
 	}
 
-	if (fprintf(f, "%12sOk(data::%c%s {\n",
-	    "", toupper((unsigned char)s->name[0]), s->name + 1) < 0)
+	if (fprintf(f, "%12sOk(data::%c%s%s {\n",
+	    "", toupper((unsigned char)s->name[0]), s->name + 1,
+	    get_sfx(s->name)) < 0)
 		return 0;
 
 	col = scol = 0;
@@ -1351,9 +1355,8 @@ gen_query(const struct search *s, size_t num, FILE *f)
 	 */
 
 	rs = s->dst != NULL ? s->dst->strct : s->parent;
-	if ((ret = strdup(rs->name)) == NULL)
+	if ((ret = strdup_title(rs->name)) == NULL)
 		return 0;
-	ret[0] = toupper((unsigned char)ret[0]);
 
 	if (fprintf(f, "%8spub fn db_%s_%s",
 	    "", s->parent->name, stypes[s->type]) < 0)
@@ -1561,15 +1564,15 @@ gen_ortctx_dbrole_role(FILE *f, const struct role *r)
 	const struct role	*rr;
 
 	if (fprintf(f,
-	    "%16sOrtrole::%c%s => {\n"
+	    "%16sOrtrole::%c%s%s => {\n"
 	    "%20sif newrole == Ortrole::None",
 	    "", toupper((unsigned char)r->name[0]),
-	    r->name + 1, "") < 0)
+	    r->name + 1, get_sfx(r->name), "") < 0)
 		return 0;
 	for (rr = r->parent; strcmp(rr->name, "all") != 0; rr = rr->parent)
-		if (fprintf(f, " || newrole == Ortrole::%c%s",
+		if (fprintf(f, " || newrole == Ortrole::%c%s%s",
 		    toupper((unsigned char)rr->name[0]),
-		    rr->name + 1) < 0)
+		    rr->name + 1, get_sfx(rr->name)) < 0)
 			return 0;
 	if (fprintf(f, " {\n"
 	    "%24sself.role = newrole;\n"
-- 
2.43.0


From d0b065debb661f37a5d45ae05b247d3ee429f935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:53 +0000
Subject: [PATCH 108/110] fix: ort-rust: structures named "fmt"

---
 lang-rust.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lang-rust.c b/lang-rust.c
index 192e8ff..8d820ec 100644
--- a/lang-rust.c
+++ b/lang-rust.c
@@ -774,7 +774,7 @@ gen_aliases(const struct config *cfg, FILE *f)
 	}
 
 	if (fprintf(f, "\n"
-	    "%8spub fn stmt_fmt(v: Ortstmt) -> String {\n"
+	    "%8spub fn fmt_stmt(v: Ortstmt) -> String {\n"
 	    "%12slet s;\n"
 	    "%12smatch v {\n", "", "", "") < 0)
 		return 0;
@@ -886,7 +886,7 @@ gen_update(const struct update *up, size_t num, FILE *f)
 		return 0;
 	if (!gen_rolemap(f, up->parent->cfg, up->rolemap))
 		return 0;
-	if (fprintf(f, "%12slet sql = stmt::stmt_fmt(stmt::", "") < 0)
+	if (fprintf(f, "%12slet sql = stmt::fmt_stmt(stmt::", "") < 0)
 		return 0;
 	if (up->type == UP_MODIFY &&
 	    gen_enum_update(f, 1, up->parent, num, LANG_RUST) < 0)
@@ -1082,7 +1082,7 @@ gen_reffind(const struct strct *s, FILE *f)
 		if (fd->ref->source->flags & FIELD_NULL) {
 			if (fprintf(f,
 			    "%12sif let Some(ref nobj) = obj.%s {\n"
-	    		    "%16slet sql = stmt::stmt_fmt(stmt::",
+	    		    "%16slet sql = stmt::fmt_stmt(stmt::",
 			    "", get_ident(fd->ref->source->name), "") < 0)
 				return 0;
 			if (gen_enum_unique
@@ -1260,7 +1260,7 @@ gen_insert(const struct strct *s, FILE *f)
 		return 0;
 
 	if (fprintf(f,
-	    "%12slet sql = stmt::stmt_fmt(stmt::", "") < 0)
+	    "%12slet sql = stmt::fmt_stmt(stmt::", "") < 0)
 		return 0;
 	if (gen_enum_insert(f, 1, s, LANG_RUST) < 0)
 		return 0;
@@ -1416,7 +1416,7 @@ gen_query(const struct search *s, size_t num, FILE *f)
 	if (!gen_rolemap(f, s->parent->cfg, s->rolemap))
 		return 0;
 
-	if (fprintf(f, "%12slet sql = stmt::stmt_fmt(stmt::", "") < 0)
+	if (fprintf(f, "%12slet sql = stmt::fmt_stmt(stmt::", "") < 0)
 		return 0;
 	if (gen_enum_query(f, 1, s->parent, num, LANG_RUST) < 0)
 		return 0;
-- 
2.43.0


From fb6c37670af3878909d01e45591603fa820f8fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:35 +0000
Subject: [PATCH 109/110] fix: documentation of generated functions says what's
 checked

Node methods listed the fields that are arguments as those that are
checked to be null or not, instead of those that are.  The has_ members
of C structures were said to be non-zero if null.
---
 lang-c-header.c | 2 +-
 lang-nodejs.c   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/lang-c-header.c b/lang-c-header.c
index 13acf85..9f01fd6 100644
--- a/lang-c-header.c
+++ b/lang-c-header.c
@@ -420,7 +420,7 @@ gen_struct(FILE *f, const struct ort_lang_c *args,
 			continue;
 
 		if (!gen_commentv(f, 1, COMMENT_C,
-		    "Non-zero if \"%s\" field is null/unset.",
+		    "Non-zero if \"%s\" field is not null/unset.",
 		    fd->name))
 			return 0;
 		if (fprintf(f, "\tint has_%s;\n", fd->name) < 0)
diff --git a/lang-nodejs.c b/lang-nodejs.c
index d03240b..84dbf46 100644
--- a/lang-nodejs.c
+++ b/lang-nodejs.c
@@ -584,7 +584,7 @@ gen_update(FILE *f, const struct config *cfg,
 			return 0;
 		ct = COMMENT_JS_FRAG;
 		TAILQ_FOREACH(ref, &up->crq, entries) {
-			if (OPTYPE_ISUNARY(ref->op))
+			if (!OPTYPE_ISUNARY(ref->op))
 				continue;
 			if (!gen_commentv(f, 1, ct,
 			    "%s (checked %s null)", ref->field->name, 
@@ -1038,7 +1038,7 @@ gen_query(FILE *f, const struct config *cfg,
 			return 0;
 	} else if (s->type == STYPE_LIST) {
 		if (!gen_comment(f, 1, COMMENT_JS_FRAG,
-		    "@return Result of null if no results found."))
+		    "@return Results, none if no results found."))
 			return 0;
 	} else if (s->type == STYPE_COUNT)
 		if (!gen_comment(f, 1, COMMENT_JS_FRAG,
-- 
2.43.0


From 06bf490b97b91da949e781e1a0920643bbfa5844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:59 +0000
Subject: [PATCH 110/110] fix: joined translations have a position

---
 lang-xliff.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lang-xliff.c b/lang-xliff.c
index f9fe334..09d38c6 100644
--- a/lang-xliff.c
+++ b/lang-xliff.c
@@ -707,6 +707,7 @@ xliff_join_unit(struct config *cfg, struct labelq *q, int copy,
 	if ((l = calloc(1, sizeof(struct label))) == NULL)
 		return -1;
 	l->lang = lang;
+	l->pos = *pos;
 	if ((l->label = xliff_label(targ)) == NULL) {
 		free(l);
 		return -1;
-- 
2.43.0

