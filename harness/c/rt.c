/*
 * Runs what ort-c-source generates: sqlbox(3), kcgi(3) and kcgijson(3) as far
 * as generated code uses them, and a loop that loads database contents and
 * calls functions, reading from descriptor 3 and writing to descriptor 4.
 *
 *   X sql(hex)		schema
 *   R			forget contents and calls
 *   T table v...	row of the contents (values n, i5, r0x1p0, s6162, b00ff)
 *   K			forget calls
 *   C fn role v...	call, in a role (- for none); roles may be a,b,c: entered in turn
 *   G			run each call on the contents; a line of JSON each, then "."
 *   Z			forget contents
 *   J on		export results as JSON too
 *   V name hex		validate
 *   I struct array hex	import JSON
 *   F path		use a file, and a second connection that looks at it
 *   H step...	calls in one connection: o1,0 c1 r1 (transactions), f5 (call 5)
 *   A n		fail the n-th allocation from now on in each call (0: none)
 */
#include <assert.h>
#include <ctype.h>
#include <errno.h>
#include <inttypes.h>
#include <limits.h>
#include <math.h>
#include <setjmp.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>
#include <time.h>
#include <unistd.h>

#include <sqlite3.h>

#include "sqlbox.h"
#include "rt.h"

struct jbuf out, json;
struct kjsonreq kj;
int want_json, want_late;
static sqlite3 *db;
static jmp_buf jb;
static int jumps;		/* in a call: exit() and abort() end it */
static const char *ended;
static long live, allocs, failat;
static char lasterr[512];

/* --- memory, exit --- */

static int
failing(void)
{
	allocs++;
	return failat && allocs == failat;
}

/* neither counted nor failing, and no byte longer */
void *rt_alloc(size_t n) { char *p = malloc(n ? n : 1); memset(p, 0x5a, n); return p; }
void rt_free(void *p) { free(p); }
void *ort_malloc(size_t n) { void *p; if (failing()) { errno = ENOMEM; return NULL; } p = malloc(n ? n : 1); if (p) live++; return p; }
void *ort_calloc(size_t a, size_t b) { void *p; if (failing()) { errno = ENOMEM; return NULL; } p = calloc(a ? a : 1, b ? b : 1); if (p) live++; return p; }
void *ort_realloc(void *q, size_t n) { void *p; if (failing()) { errno = ENOMEM; return NULL; } p = realloc(q, n ? n : 1); if (p && !q) live++; return p; }
char *ort_strdup(const char *s) { char *p; if (failing()) { errno = ENOMEM; return NULL; } p = strdup(s); if (p) live++; return p; }
char *ort_strndup(const char *s, size_t n) { char *p; if (failing()) { errno = ENOMEM; return NULL; } p = strndup(s, n); if (p) live++; return p; }
void ort_free(void *p) { if (p) live--; free(p); }
void ort_perror(const char *s) { (void)s; }

static void
end(const char *how)
{
	if (!jumps)
		_exit(70);
	ended = how;
	longjmp(jb, 1);
}

void ort_exit(int c) { (void)c; end("exit"); abort(); }
void ort_abort(void) { end("abort"); abort(); }

/* --- output --- */

void
jput(struct jbuf *b, const char *s, size_t n)
{
	if (b->n + n + 1 > b->max) {
		b->max = (b->n + n + 1) * 2;
		b->p = realloc(b->p, b->max);
	}
	memcpy(b->p + b->n, s, n);
	b->n += n;
	b->p[b->n] = 0;
}

void
o(const char *fmt, ...)
{
	char buf[512];
	va_list ap;
	int n;

	va_start(ap, fmt);
	n = vsnprintf(buf, sizeof buf, fmt, ap);
	va_end(ap);
	assert(n >= 0 && n < (int)sizeof buf);
	jput(&out, buf, n);
}

void okey(const char *k, int first) { o("%s\"%s\":", first ? "" : ",", k); }
void oint(int64_t v) { o("%" PRId64, v); }
void oreal(double v) { o("{\"r\":\"%a\"}", v); }

static void
ohex(const void *p, size_t n)
{
	const unsigned char *c = p;
	static const char h[] = "0123456789abcdef";
	char b[2];

	while (n--) {
		b[0] = h[*c >> 4];
		b[1] = h[*c++ & 15];
		jput(&out, b, 2);
	}
}

void
otext(const char *s)
{
	if (s == NULL) {
		o("{\"bad\":\"NULL text\"}");
		return;
	}
	o("{\"s\":\"");
	ohex(s, strlen(s));
	o("\"}");
}

void
oblob(const void *p, size_t n)
{
	o("{\"b\":\"");
	ohex(p, n);
	o("\"}");
}

void
ojson(void)
{
	o(",\"_e\":\"");
	ohex(json.p, json.n);
	o("\"");
}

void
ojsonv(void)
{
	o("\"");
	ohex(json.p, json.n);
	o("\"");
}

/* --- crypt --- */

int
crypt_newhash(const char *pw, const char *pref, char *h, size_t sz)
{
	static unsigned salt;

	(void)pref;
	if (pw == NULL) {
		end("crash: crypt_newhash(NULL)");
		return -1;
	}
	salt = (salt + 1) % 10;
	if (snprintf(h, sz, "$2b$10$%u$%s", salt, pw) >= (int)sz) {
		errno = EINVAL;
		return -1;
	}
	return 0;
}

int
crypt_checkpass(const char *pw, const char *h)
{
	if (h == NULL || pw == NULL)
		return h == NULL && pw == NULL ? 0 : -1;
	if (strncmp(h, "$2b$10$", 7) || !isdigit((unsigned char)h[7]) || h[8] != '$' || strcmp(h + 9, pw)) {
		errno = EACCES;
		return -1;
	}
	return 0;
}

/* --- sqlbox --- */

struct stmt {
	sqlite3_stmt *s;
	struct sqlbox_parmset set;
	struct stmt *next;
	int done, multi;
};
struct sqlbox {
	char **stmts;
	size_t nstmts;
	struct sqlbox_role *roles;	/* copied */
	size_t nroles, role;
	int open;
	struct stmt *open_stmts;
	size_t trans;
};
struct sqlbox_role_hier {
	size_t n, sink, start;
	int has_sink, has_start;
	size_t *parent;
	unsigned char *src;
	unsigned char *stmts[64];
	size_t nst;
};
struct rolesout { struct sqlbox_role *roles; size_t rolesz, defrole; };
#define NST 4096

static struct sqlbox *boxes[4];

struct sqlbox_role_hier *
sqlbox_role_hier_alloc(size_t n)
{
	struct sqlbox_role_hier *h = calloc(1, sizeof *h);
	size_t i;

	if (n > 64)
		end("too many roles");
	h->n = n;
	h->parent = malloc(n * sizeof *h->parent);
	h->src = calloc(n, 1);
	for (i = 0; i < n; i++) {
		h->parent[i] = i;
		h->stmts[i] = calloc(NST, 1);
	}
	live++;
	return h;
}

void
sqlbox_role_hier_free(struct sqlbox_role_hier *h)
{
	size_t i;

	if (h == NULL)
		return;
	for (i = 0; i < h->n; i++)
		free(h->stmts[i]);
	free(h->parent);
	free(h->src);
	free(h);
	live--;
}

int sqlbox_role_hier_sink(struct sqlbox_role_hier *h, size_t r) { if (r >= h->n) return 0; h->sink = r; h->has_sink = 1; return 1; }
int sqlbox_role_hier_start(struct sqlbox_role_hier *h, size_t r) { if (r >= h->n) return 0; h->start = r; h->has_start = 1; return 1; }
int sqlbox_role_hier_src(struct sqlbox_role_hier *h, size_t r, size_t s) { (void)s; if (r >= h->n) return 0; h->src[r] = 1; return 1; }
int sqlbox_role_hier_stmt(struct sqlbox_role_hier *h, size_t r, size_t s) { if (r >= h->n || s >= NST) return 0; h->stmts[r][s] = 1; return 1; }
int sqlbox_role_hier_child(struct sqlbox_role_hier *h, size_t p, size_t c) { if (p >= h->n || c >= h->n || h->parent[c] != c) return 0; h->parent[c] = p; return 1; }

/* A role has the statements of its ancestors and itself, may enter its
 * ancestors and the sink; the start may enter any. */
int
sqlbox_role_hier_gen(const struct sqlbox_role_hier *h, void *arg, size_t def)
{
	struct rolesout *r = arg;
	size_t i, j, k;
	unsigned char st[NST], to[64];

	r->roles = calloc(h->n, sizeof *r->roles);
	r->rolesz = h->n;
	r->defrole = def;
	live++;
	for (i = 0; i < h->n; i++) {
		memset(st, 0, sizeof st);
		memset(to, 0, sizeof to);
		for (j = i;; j = h->parent[j]) {
			for (k = 0; k < NST; k++)
				st[k] |= h->stmts[j][k];
			to[j] = 1;
			r->roles[i].srcsz |= h->src[j];
			if (h->parent[j] == j)
				break;
		}
		if (h->has_sink)
			to[h->sink] = 1;
		if (h->has_start && h->start == i)
			memset(to, 1, h->n);
		r->roles[i].stmts = calloc(NST, sizeof(size_t));
		for (k = 0; k < NST; k++)
			if (st[k])
				r->roles[i].stmts[r->roles[i].stmtsz++] = k;
		r->roles[i].roles = calloc(64, sizeof(size_t));
		for (k = 0; k < h->n; k++)
			if (to[k])
				r->roles[i].roles[r->roles[i].rolesz++] = k;
	}
	return 1;
}

void
sqlbox_role_hier_gen_free(void *arg)
{
	struct rolesout *r = arg;
	size_t i;

	if (r->roles == NULL)
		return;
	for (i = 0; i < r->rolesz; i++) {
		free(r->roles[i].stmts);
		free(r->roles[i].roles);
	}
	free(r->roles);
	r->roles = NULL;
	r->rolesz = 0;
	live--;
}

struct sqlbox *
sqlbox_alloc(struct sqlbox_cfg *c)
{
	struct sqlbox *b = calloc(1, sizeof *b);
	size_t i;

	b->nstmts = c->stmts.stmtsz;
	b->stmts = calloc(b->nstmts + 1, sizeof *b->stmts);
	for (i = 0; i < b->nstmts; i++)
		b->stmts[i] = strdup(c->stmts.stmts[i].stmt);
	b->nroles = c->roles.rolesz;
	b->role = c->roles.defrole;
	if (b->nroles) {
		if (b->role >= b->nroles)
			end("default role");
		b->roles = calloc(b->nroles, sizeof *b->roles);
		for (i = 0; i < b->nroles; i++) {
			b->roles[i] = c->roles.roles[i];
			b->roles[i].stmts = calloc(b->roles[i].stmtsz + 1, sizeof(size_t));
			memcpy(b->roles[i].stmts, c->roles.roles[i].stmts, b->roles[i].stmtsz * sizeof(size_t));
			b->roles[i].roles = calloc(b->roles[i].rolesz + 1, sizeof(size_t));
			memcpy(b->roles[i].roles, c->roles.roles[i].roles, b->roles[i].rolesz * sizeof(size_t));
		}
	}
	for (i = 0; i < 4; i++)
		if (boxes[i] == NULL) {
			boxes[i] = b;
			break;
		}
	live++;
	return b;
}

static void
drop(struct sqlbox *b, struct stmt **p)
{
	struct stmt *s = *p;

	(void)b;
	*p = s->next;
	sqlite3_finalize(s->s);
	free(s->set.ps);
	free(s);
}

void
sqlbox_free(struct sqlbox *b)
{
	size_t i;

	if (b == NULL)
		return;
	for (i = 0; i < 4; i++)
		if (boxes[i] == b)
			boxes[i] = NULL;
	while (b->open_stmts)
		drop(b, &b->open_stmts);
	if (b->trans)
		sqlite3_exec(db, "ROLLBACK TRANSACTION", NULL, NULL, NULL);
	for (i = 0; i < b->nstmts; i++)
		free(b->stmts[i]);
	free(b->stmts);
	for (i = 0; i < b->nroles; i++) {
		free(b->roles[i].stmts);
		free(b->roles[i].roles);
	}
	free(b->roles);
	free(b);
	live--;
}

int
sqlbox_open_async(struct sqlbox *b, size_t src)
{
	if (src != 0 || b->open || (b->nroles && !b->roles[b->role].srcsz))
		return 0;
	b->open = 1;
	return 1;
}

int sqlbox_msg_set_dat(struct sqlbox *b, const void *p, size_t n) { (void)b; (void)p; (void)n; return 1; }

int
sqlbox_role(struct sqlbox *b, size_t r)
{
	size_t i;

	if (r >= b->nroles)
		return 0;
	if (r == b->role)
		return 1;
	for (i = 0; i < b->roles[b->role].rolesz; i++)
		if (b->roles[b->role].roles[i] == r) {
			b->role = r;
			return 1;
		}
	return 0;
}

static sqlite3_stmt *
prepare(struct sqlbox *b, size_t src, size_t st, size_t n, const struct sqlbox_parm *ps)
{
	sqlite3_stmt *s;
	size_t i;
	int c;

	if (src != 0 || !b->open || st >= b->nstmts) {
		snprintf(lasterr, sizeof lasterr, "no source or statement");
		return NULL;
	}
	if (b->nroles) {
		for (i = 0; i < b->roles[b->role].stmtsz; i++)
			if (b->roles[b->role].stmts[i] == st)
				break;
		if (i == b->roles[b->role].stmtsz) {
			snprintf(lasterr, sizeof lasterr, "statement not allowed");
			return NULL;
		}
	}
	if (sqlite3_prepare_v2(db, b->stmts[st], -1, &s, NULL) != SQLITE_OK || s == NULL) {
		snprintf(lasterr, sizeof lasterr, "%s: %s", sqlite3_errmsg(db), b->stmts[st]);
		return NULL;
	}
	for (i = 0; i < n; i++) {
		switch (ps[i].type) {
		case SQLBOX_PARM_INT: c = sqlite3_bind_int64(s, i + 1, ps[i].iparm); break;
		case SQLBOX_PARM_FLOAT: c = sqlite3_bind_double(s, i + 1, ps[i].fparm); break;
		case SQLBOX_PARM_NULL: c = sqlite3_bind_null(s, i + 1); break;
		case SQLBOX_PARM_STRING:
			if (ps[i].sparm == NULL)
				end("crash: NULL text parameter");
			c = sqlite3_bind_text(s, i + 1, ps[i].sparm, ps[i].sz ? (int)ps[i].sz - 1 : -1, SQLITE_TRANSIENT); break;
		case SQLBOX_PARM_BLOB:
			c = sqlite3_bind_blob(s, i + 1, ps[i].sz == 0 ? "" : ps[i].bparm, ps[i].sz, SQLITE_TRANSIENT); break;
		default: c = SQLITE_MISUSE;
		}
		if (c != SQLITE_OK) {
			snprintf(lasterr, sizeof lasterr, "parameter %zu: %s: %s", i, sqlite3_errmsg(db), b->stmts[st]);
			sqlite3_finalize(s);
			return NULL;
		}
	}
	if ((int)n != sqlite3_bind_parameter_count(s)) {
		/* sqlite3 would take those left as null */
		snprintf(lasterr, sizeof lasterr, "%zu parameters: %s", n, b->stmts[st]);
		sqlite3_finalize(s);
		return NULL;
	}
	return s;
}

int
sqlbox_prepare_bind_async(struct sqlbox *b, size_t src, size_t st, size_t n, const struct sqlbox_parm *ps, unsigned long fl)
{
	sqlite3_stmt *s = prepare(b, src, st, n, ps);
	struct stmt *p;

	if (s == NULL)
		return 0;
	p = calloc(1, sizeof *p);
	p->s = s;
	p->multi = (fl & SQLBOX_STMT_MULTI) != 0;
	p->next = b->open_stmts;
	b->open_stmts = p;
	return 1;
}

const struct sqlbox_parmset *
sqlbox_step(struct sqlbox *b, size_t id)
{
	struct stmt *p = b->open_stmts;
	int c, i;

	if (id != 0 || p == NULL)
		return NULL;
	if (p->done) {
		p->set.psz = 0;
		return &p->set;
	}
	c = sqlite3_step(p->s);
	if (c == SQLITE_DONE) {
		p->done = 1;
		p->set.psz = 0;
		return &p->set;
	}
	if (c != SQLITE_ROW) {
		snprintf(lasterr, sizeof lasterr, "%s", sqlite3_errmsg(db));
		return NULL;
	}
	p->set.psz = sqlite3_column_count(p->s);
	if (p->set.ps == NULL)
		p->set.ps = calloc(p->set.psz, sizeof *p->set.ps);
	for (i = 0; i < (int)p->set.psz; i++) {
		struct sqlbox_parm *q = &p->set.ps[i];

		switch (sqlite3_column_type(p->s, i)) {
		case SQLITE_INTEGER: q->type = SQLBOX_PARM_INT; q->iparm = sqlite3_column_int64(p->s, i); break;
		case SQLITE_FLOAT: q->type = SQLBOX_PARM_FLOAT; q->fparm = sqlite3_column_double(p->s, i); break;
		case SQLITE_TEXT: q->type = SQLBOX_PARM_STRING; q->sparm = (const char *)sqlite3_column_text(p->s, i); q->sz = sqlite3_column_bytes(p->s, i) + 1; break;
		case SQLITE_BLOB: q->type = SQLBOX_PARM_BLOB; q->bparm = sqlite3_column_blob(p->s, i); q->sz = sqlite3_column_bytes(p->s, i); break;
		default: q->type = SQLBOX_PARM_NULL;
		}
	}
	return &p->set;
}

int
sqlbox_finalise(struct sqlbox *b, size_t id)
{
	if (id != 0 || b->open_stmts == NULL)
		return 0;
	drop(b, &b->open_stmts);
	return 1;
}

enum sqlbox_code
sqlbox_exec(struct sqlbox *b, size_t src, size_t st, size_t n, const struct sqlbox_parm *ps, unsigned long fl)
{
	sqlite3_stmt *s = prepare(b, src, st, n, ps);
	int c;

	if (s == NULL)
		return SQLBOX_CODE_ERROR;
	while ((c = sqlite3_step(s)) == SQLITE_ROW)
		;
	if (c != SQLITE_DONE)
		snprintf(lasterr, sizeof lasterr, "%s", sqlite3_errmsg(db));
	sqlite3_finalize(s);
	if (c == SQLITE_DONE)
		return SQLBOX_CODE_OK;
	if (c == SQLITE_CONSTRAINT && (fl & SQLBOX_STMT_CONSTRAINT))
		return SQLBOX_CODE_CONSTRAINT;
	return SQLBOX_CODE_ERROR;
}

int
sqlbox_lastid(struct sqlbox *b, size_t src, int64_t *p)
{
	(void)b;
	if (src != 0)
		return 0;
	*p = sqlite3_last_insert_rowid(db);
	return 1;
}

static int
trans(struct sqlbox *b, size_t src, size_t id, const char *sql)
{
	if (src != 0 || !b->open || id == 0 || b->trans || sqlite3_exec(db, sql, NULL, NULL, NULL) != SQLITE_OK)
		return 0;
	b->trans = id;
	return 1;
}

int sqlbox_trans_immediate(struct sqlbox *b, size_t src, size_t id) { return trans(b, src, id, "BEGIN IMMEDIATE TRANSACTION"); }
int sqlbox_trans_deferred(struct sqlbox *b, size_t src, size_t id) { return trans(b, src, id, "BEGIN DEFERRED TRANSACTION"); }
int sqlbox_trans_exclusive(struct sqlbox *b, size_t src, size_t id) { return trans(b, src, id, "BEGIN EXCLUSIVE TRANSACTION"); }

static int
untrans(struct sqlbox *b, size_t src, size_t id, const char *sql)
{
	if (src != 0 || id == 0 || b->trans != id || sqlite3_exec(db, sql, NULL, NULL, NULL) != SQLITE_OK)
		return 0;
	b->trans = 0;
	return 1;
}

int sqlbox_trans_commit(struct sqlbox *b, size_t src, size_t id) { return untrans(b, src, id, "COMMIT TRANSACTION"); }
int sqlbox_trans_rollback(struct sqlbox *b, size_t src, size_t id) { return untrans(b, src, id, "ROLLBACK TRANSACTION"); }

int
sqlbox_parm_int(const struct sqlbox_parm *p, int64_t *v)
{
	switch (p->type) {
	case SQLBOX_PARM_INT: *v = p->iparm; return 0;
	case SQLBOX_PARM_FLOAT: *v = (int64_t)p->fparm; return 1;
	case SQLBOX_PARM_STRING: *v = strtoll(p->sparm, NULL, 10); return 1;
	default: return -1;
	}
}

int
sqlbox_parm_float(const struct sqlbox_parm *p, double *v)
{
	switch (p->type) {
	case SQLBOX_PARM_INT: *v = (double)p->iparm; return 1;
	case SQLBOX_PARM_FLOAT: *v = p->fparm; return 0;
	case SQLBOX_PARM_STRING: *v = strtod(p->sparm, NULL); return 1;
	default: return -1;
	}
}

int
sqlbox_parm_string_alloc(const struct sqlbox_parm *p, char **v, size_t *sz)
{
	char buf[64];
	const char *s = buf;

	switch (p->type) {
	case SQLBOX_PARM_INT: snprintf(buf, sizeof buf, "%" PRId64, p->iparm); break;
	case SQLBOX_PARM_FLOAT: snprintf(buf, sizeof buf, "%f", p->fparm); break;
	case SQLBOX_PARM_STRING: s = p->sparm; break;
	default: return -1;
	}
	if ((*v = ort_strdup(s)) == NULL)
		return -1;
	if (sz)
		*sz = strlen(s) + 1;
	return p->type != SQLBOX_PARM_STRING;
}

int
sqlbox_parm_blob_alloc(const struct sqlbox_parm *p, void **v, size_t *sz)
{
	const void *s = p->bparm;
	size_t n = p->sz;

	switch (p->type) {
	case SQLBOX_PARM_INT: s = &p->iparm; n = sizeof p->iparm; break;
	case SQLBOX_PARM_FLOAT: s = &p->fparm; n = sizeof p->fparm; break;
	case SQLBOX_PARM_STRING: s = p->sparm; break;
	case SQLBOX_PARM_BLOB: break;
	default: return -1;
	}
	if ((*v = ort_malloc(n)) == NULL)
		return -1;
	if (n)
		memcpy(*v, s, n);
	*sz = n;
	return p->type != SQLBOX_PARM_BLOB;
}

/* --- kcgi --- */

static int
parseint(const char *s, int64_t lo, int64_t hi, int64_t *v)
{
	char *e;
	long long l;

	errno = 0;
	l = strtoll(s, &e, 10);
	if (*s == 0 || *e != 0 || errno || l < lo || l > hi)
		return 0;
	*v = l;
	return 1;
}

int kvalid_string(struct kpair *p) { if (strlen(p->val) != p->valsz) return 0; p->parsed.s = p->val; return 1; }
int kvalid_int(struct kpair *p) { return kvalid_string(p) && parseint(p->val, INT64_MIN, INT64_MAX, &p->parsed.i); }
int kvalid_bit(struct kpair *p) { return kvalid_int(p) && p->parsed.i >= 0 && p->parsed.i <= 64; }

int
kvalid_double(struct kpair *p)
{
	char *e;
	double d;

	if (!kvalid_string(p))
		return 0;
	d = strtod(p->val, &e);
	if (e == p->val)
		return 0;
	while (isspace((unsigned char)*e))
		e++;
	if (*e != 0 || !isfinite(d))
		return 0;
	p->parsed.d = d;
	return 1;
}

int
kvalid_date(struct kpair *p)
{
	static const int md[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 };
	const char *s = p->val;
	int i, y, m, d, leap;
	struct tm tm;

	if (p->valsz != 10 || strlen(s) != 10 || s[4] != '-' || s[7] != '-')
		return 0;
	for (i = 0; i < 10; i++)
		if (i != 4 && i != 7 && !isdigit((unsigned char)s[i]))
			return 0;
	y = atoi(s);
	m = atoi(s + 5);
	d = atoi(s + 8);
	leap = y % 4 == 0 && (y % 100 != 0 || y % 400 == 0);
	if (m < 1 || m > 12 || d < 1 || d > md[m - 1] + (leap && m == 2))
		return 0;
	memset(&tm, 0, sizeof tm);
	tm.tm_year = y - 1900;
	tm.tm_mon = m - 1;
	tm.tm_mday = d;
	p->parsed.i = timegm(&tm);
	return 1;
}

int
kvalid_email(struct kpair *p)
{
	char *c, *at;

	if (!kvalid_string(p))
		return 0;
	at = strchr(p->val, '@');
	if (at == NULL || at == p->val || strchr(at, '.') == NULL || strchr(p->val, ' ') != NULL)
		return 0;
	for (c = p->val; *c; c++)
		*c = tolower((unsigned char)*c);
	p->parsed.s = p->val;
	return 1;
}

static void
jkey(struct kjsonreq *r, const char *k)
{
	if (r->depth && !r->first[r->depth])
		jput(&json, ",", 1);
	r->first[r->depth] = 0;
	if (k) {
		jput(&json, "\"", 1);
		jput(&json, k, strlen(k));
		jput(&json, "\":", 2);
	}
}

static int
jopen(struct kjsonreq *r, const char *k, const char *c)
{
	jkey(r, k);
	jput(&json, c, 1);
	if (++r->depth >= 64)
		end("json depth");
	r->first[r->depth] = 1;
	return 1;
}

static int
jclose(struct kjsonreq *r, const char *c)
{
	if (r->depth == 0)
		end("json depth");
	r->depth--;
	jput(&json, c, 1);
	return 1;
}

int kjson_obj_open(struct kjsonreq *r) { return jopen(r, NULL, "{"); }
int kjson_objp_open(struct kjsonreq *r, const char *k) { return jopen(r, k, "{"); }
int kjson_obj_close(struct kjsonreq *r) { return jclose(r, "}"); }
int kjson_array_open(struct kjsonreq *r) { return jopen(r, NULL, "["); }
int kjson_arrayp_open(struct kjsonreq *r, const char *k) { return jopen(r, k, "["); }
int kjson_array_close(struct kjsonreq *r) { return jclose(r, "]"); }

static int
jval(struct kjsonreq *r, const char *k, const char *fmt, ...)
{
	char buf[128];
	va_list ap;

	jkey(r, k);
	va_start(ap, fmt);
	vsnprintf(buf, sizeof buf, fmt, ap);
	va_end(ap);
	jput(&json, buf, strlen(buf));
	return 1;
}

int kjson_putintp(struct kjsonreq *r, const char *k, int64_t v) { return jval(r, k, "%" PRId64, v); }
int kjson_putintstrp(struct kjsonreq *r, const char *k, int64_t v) { return jval(r, k, "\"%" PRId64 "\"", v); }
int kjson_putnullp(struct kjsonreq *r, const char *k) { return jval(r, k, "null"); }
int kjson_putdoublep(struct kjsonreq *r, const char *k, double v) { return isfinite(v) ? jval(r, k, "%.17g", v) : jval(r, k, "null"); }

int
kjson_putstringp(struct kjsonreq *r, const char *k, const char *v)
{
	char buf[8];

	if (v == NULL)
		end("crash: NULL text exported");
	jkey(r, k);
	jput(&json, "\"", 1);
	for (; *v; v++) {
		switch (*v) {
		case '"': case '\\': case '/': buf[0] = '\\'; buf[1] = *v; jput(&json, buf, 2); break;
		case '\b': jput(&json, "\\b", 2); break;
		case '\f': jput(&json, "\\f", 2); break;
		case '\n': jput(&json, "\\n", 2); break;
		case '\r': jput(&json, "\\r", 2); break;
		case '\t': jput(&json, "\\t", 2); break;
		default:
			if ((unsigned char)*v < 32) {
				snprintf(buf, sizeof buf, "\\u%04x", *v);
				jput(&json, buf, 6);
			} else
				jput(&json, v, 1);
		}
	}
	jput(&json, "\"", 1);
	return 1;
}

/* --- the loop --- */

struct row { int table; size_t n; struct arg *v; };
struct call { size_t fn; int nroles, roles[8]; size_t n; struct arg *v; };
static struct row *rows;
static struct call *calls;
static size_t nrows, ncalls;

static unsigned char
nib(int c)
{
	return c <= '9' ? c - '0' : c - 'a' + 10;
}

static char *
unhex(const char *s, size_t *sz)
{
	size_t n = strlen(s) / 2, i;
	char *p = malloc(n + 1);

	for (i = 0; i < n; i++)
		p[i] = nib(s[2 * i]) << 4 | nib(s[2 * i + 1]);
	p[n] = 0;
	*sz = n;
	return p;
}

static struct arg *
args(char *s, size_t *n)
{
	struct arg *v = NULL;
	char *t;

	*n = 0;
	while ((t = strsep(&s, " ")) != NULL) {
		struct arg *a;

		if (*t == 0)
			continue;
		v = realloc(v, (*n + 1) * sizeof *v);
		a = &v[(*n)++];
		memset(a, 0, sizeof *a);
		a->t = *t;
		if (*t == 'i')
			a->i = strtoll(t + 1, NULL, 10);
		else if (*t == 'r')
			a->r = strtod(t + 1, NULL);
		else if (*t == 's' || *t == 'b')
			a->s = unhex(t + 1, &a->sz);
	}
	return v;
}

static void
freeargs(struct arg *v, size_t n)
{
	while (n--)
		free(v[n].s);
	free(v);
}

static void
must(int c)
{
	if (c != SQLITE_OK && c != SQLITE_DONE) {
		fprintf(stderr, "rt: %s\n", sqlite3_errmsg(db));
		_exit(71);
	}
}

static sqlite3_stmt **ins;

static void
load(void)
{
	size_t i, j;
	char buf[8192];

	must(sqlite3_exec(db, "PRAGMA foreign_keys=OFF; BEGIN", NULL, NULL, NULL));
	for (i = 0; i < ntables; i++) {
		snprintf(buf, sizeof buf, "DELETE FROM %s", tables[i]);
		must(sqlite3_exec(db, buf, NULL, NULL, NULL));
	}
	if (ins == NULL)
		ins = calloc(ntables, sizeof *ins);
	for (i = 0; i < nrows; i++) {
		struct row *r = &rows[i];

		if (ins[r->table] == NULL) {
			snprintf(buf, sizeof buf, "INSERT INTO %s VALUES (", tables[r->table]);
			for (j = 0; j < r->n; j++)
				strcat(buf, j ? ",?" : "?");
			strcat(buf, ")");
			must(sqlite3_prepare_v2(db, buf, -1, &ins[r->table], NULL));
		}
		for (j = 0; j < r->n; j++) {
			struct arg *a = &r->v[j];
			sqlite3_stmt *s = ins[r->table];

			switch (a->t) {
			case 'i': sqlite3_bind_int64(s, j + 1, a->i); break;
			case 'r': sqlite3_bind_double(s, j + 1, a->r); break;
			case 's': sqlite3_bind_text(s, j + 1, a->s, a->sz, SQLITE_STATIC); break;
			case 'b': sqlite3_bind_blob(s, j + 1, a->s, a->sz, SQLITE_STATIC); break;
			default: sqlite3_bind_null(s, j + 1);
			}
		}
		must(sqlite3_step(ins[r->table]));
		must(sqlite3_reset(ins[r->table]));
	}
	must(sqlite3_exec(db, "COMMIT; PRAGMA foreign_keys=ON", NULL, NULL, NULL));
}

static void
dump(void)
{
	static sqlite3_stmt **sel;
	size_t i;
	int j, c, first;
	char buf[512];

	if (sel == NULL)
		sel = calloc(ntables, sizeof *sel);
	o(",\"db\":{");
	for (i = 0; i < ntables; i++) {
		okey(tables[i], i == 0);
		o("[");
		if (sel[i] == NULL) {
			snprintf(buf, sizeof buf, "SELECT * FROM %s", tables[i]);
			must(sqlite3_prepare_v2(db, buf, -1, &sel[i], NULL));
		}
		for (first = 1; (c = sqlite3_step(sel[i])) == SQLITE_ROW; first = 0) {
			o(first ? "[" : ",[");
			for (j = 0; j < sqlite3_column_count(sel[i]); j++) {
				if (j)
					o(",");
				switch (sqlite3_column_type(sel[i], j)) {
				case SQLITE_INTEGER: oint(sqlite3_column_int64(sel[i], j)); break;
				case SQLITE_FLOAT: oreal(sqlite3_column_double(sel[i], j)); break;
				case SQLITE_TEXT: otext((const char *)sqlite3_column_text(sel[i], j)); break;
				case SQLITE_BLOB: oblob(sqlite3_column_blob(sel[i], j), sqlite3_column_bytes(sel[i], j)); break;
				default: o("null");
				}
			}
			o("]");
		}
		must(c);
		sqlite3_reset(sel[i]);
		o("]");
	}
	o("}");
}

static void
cleanup(void)
{
	size_t i;

	for (i = 0; i < 4; i++)
		if (boxes[i]) {
			sqlbox_free(boxes[i]);
		}
}

static int
run(struct call *c)
{
	struct ort *volatile ctx = NULL;
	volatile size_t at;
	volatile int i, roled = 0;
	long was = live;

	lasterr[0] = 0;
	ended = NULL;
	allocs = 0;
	json.n = 0;
	memset(&kj, 0, sizeof kj);
	o("{\"z\":0");
	at = out.n;
	jumps = 1;
	if (setjmp(jb) == 0) {
		ctx = drv_open();
		if (ctx == NULL)
			o(",\"noopen\":1");
		else {
			for (i = 0; i < c->nroles; i++)
				drv_role(ctx, c->roles[i]);
			roled = 1;
			if (c->fn != (size_t)-1)
				drv_call(ctx, c->fn, c->v);
			if (c->nroles)
				o(",\"role\":%d", drv_currole(ctx));
			drv_close(ctx);
		}
		jumps = 0;
		if (live != was)
			o(",\"leak\":%ld", live - was);
	} else {
		jumps = 0;
		out.n = at;
		if (strncmp(ended, "crash", 5) == 0)
			o(",\"crash\":\"%s\"", ended);
		else
			o(",\"%s\":1", roled || c->nroles == 0 ? "abort" : "inrole");
		if (*lasterr) {
			o(",\"why\":");
			otext(lasterr);
		}
		cleanup();
	}
	if (failat)
		o(",\"allocs\":%ld", allocs);
	live = was;
	if (c->fn != (size_t)-1 && drv_write(c->fn)) {
		dump();
		o("}\n");
		return 1;
	}
	o("}\n");
	return 0;
}

static void
flush(void)
{
	size_t i = 0;
	ssize_t n;

	while (i < out.n) {
		if ((n = write(4, out.p + i, out.n - i)) <= 0)
			_exit(0);
		i += n;
	}
	out.n = 0;
}

static sqlite3 *obs;

/* What another connection can do: read, write, have for itself. */
static void
probe(void)
{
	sqlite3_stmt *st;
	int c, n = -1;
	char buf[256];

	snprintf(buf, sizeof buf, "SELECT COUNT(*) FROM %s", tables[0]);
	if (sqlite3_prepare_v2(obs, buf, -1, &st, NULL) == SQLITE_OK && sqlite3_step(st) == SQLITE_ROW)
		n = sqlite3_column_int(st, 0);
	sqlite3_finalize(st);
	o(",\"rd\":%d", n);
	c = sqlite3_exec(obs, "BEGIN IMMEDIATE", NULL, NULL, NULL);
	o(",\"wr\":%d", c == SQLITE_OK);
	if (c == SQLITE_OK)
		sqlite3_exec(obs, "ROLLBACK", NULL, NULL, NULL);
	c = sqlite3_exec(obs, "BEGIN EXCLUSIVE", NULL, NULL, NULL);
	o(",\"ex\":%d", c == SQLITE_OK);
	if (c == SQLITE_OK)
		sqlite3_exec(obs, "ROLLBACK", NULL, NULL, NULL);
}

static void
history(char *s)
{
	struct ort *volatile ctx = NULL;
	char *volatile rest = s;
	char *t, *u;

	lasterr[0] = 0;
	ended = NULL;
	o("{\"h\":[");
	jumps = 1;
	if (setjmp(jb) == 0) {
		ctx = drv_open();
		for (;;) {
			t = rest;
			if ((u = strchr(t, ' ')) != NULL)
				*u++ = 0;
			rest = u;
			o("{\"z\":0");
			if (*t == 'f')
				drv_call(ctx, calls[atoi(t + 1)].fn, calls[atoi(t + 1)].v);
			else {
				u = strchr(t, ',');
				drv_trans(ctx, *t == 'o' ? 0 : *t == 'c' ? 1 : 2, atoi(t + 1), u ? atoi(u + 1) : 0);
			}
			probe();
			o("}");
			if (rest == NULL)
				break;
			o(",");
		}
		drv_close(ctx);
		jumps = 0;
	} else {
		jumps = 0;
		o(",\"exit\":1}");
		cleanup();
	}
	o("],\"end\":{\"z\":0");
	probe();
	o("}}\n");
}

int
main(void)
{
	FILE *f = fdopen(3, "r");
	char *line = NULL, *s, *t, *e = NULL;
	size_t max = 0, sz, i;
	ssize_t n;
	volatile int dirty = 1;

	if (sqlite3_open(":memory:", &db) != SQLITE_OK)
		return 1;
	sqlite3_extended_result_codes(db, 0);
	while ((n = getline(&line, &max, f)) > 0) {
		line[n - 1] = 0;
		s = line + 1;
		if (*s == ' ')
			s++;
		switch (line[0]) {
		case 'X':
			t = unhex(s, &sz);
			if (sqlite3_exec(db, t, NULL, NULL, &e) != SQLITE_OK)
				o("%.400s\n", e);
			else
				o("ok\n");
			free(t);
			flush();
			break;
		case 'F':
			sqlite3_close(db);
			if (sqlite3_open(s, &db) != SQLITE_OK || sqlite3_open(s, &obs) != SQLITE_OK)
				return 73;
			must(sqlite3_exec(db, "PRAGMA synchronous=OFF; PRAGMA journal_mode=MEMORY", NULL, NULL, NULL));
			break;
		case 'H':
			load();
			history(s);
			flush();
			break;
		case 'Z':
			while (nrows) {
				nrows--;
				freeargs(rows[nrows].v, rows[nrows].n);
			}
			dirty = 1;
			break;
		case 'K':
			while (ncalls) {
				ncalls--;
				freeargs(calls[ncalls].v, calls[ncalls].n);
			}
			break;
		case 'T':
			rows = realloc(rows, (nrows + 1) * sizeof *rows);
			rows[nrows].table = atoi(strsep(&s, " "));
			rows[nrows].v = args(s, &rows[nrows].n);
			nrows++;
			dirty = 1;
			break;
		case 'C': {
			struct call *c;

			calls = realloc(calls, (ncalls + 1) * sizeof *calls);
			c = &calls[ncalls++];
			memset(c, 0, sizeof *c);
			c->fn = strtoull(strsep(&s, " "), NULL, 10);
			t = strsep(&s, " ");
			if (*t != '-') {
				char *u;
				while ((u = strsep(&t, ",")) != NULL)
					c->roles[c->nroles++] = atoi(u);
			}
			c->v = args(s, &c->n);
			break;
		}
		case 'J':
			want_json = atoi(s);
			break;
		case 'L':
			want_late = *s == '1';
			break;
		case 'A':
			failat = atol(s);
			break;
		case 'G':
			for (i = 0; i < ncalls; i++) {
				if (dirty)
					load();
				dirty = run(&calls[i]);
				if (out.n > 1 << 16)
					flush();
			}
			o(".\n");
			flush();
			break;
		case 'V': {
			struct kpair p;
			int r, k = -1;

			memset(&p, 0, sizeof p);
			t = strsep(&s, " ");
			p.val = unhex(s ? s : "", &p.valsz);
			p.key = t;
			r = drv_valid(t, &p, &k);
			if (r < 0)
				o("{\"none\":%d}\n", r);
			else {
				o("{\"ok\":%d", r);
				if (r && k == 'i')
					o(",\"v\":%" PRId64, p.parsed.i);
				else if (r && k == 'r') {
					o(",\"v\":");
					oreal(p.parsed.d);
				} else if (r && k == 's') {
					o(",\"v\":");
					otext(p.parsed.s);
				}
				o("}\n");
			}
			free(p.val);
			flush();
			break;
		}
		case 'I': {
			size_t which = atol(strsep(&s, " "));
			int arr = atoi(strsep(&s, " "));
			long was = live;
			volatile size_t at;

			t = unhex(s ? s : "", &sz);
			o("{\"z\":0");
			at = out.n;
			jumps = 1;
			allocs = 0;
			ended = NULL;
			if (setjmp(jb) == 0) {
				char *exact = malloc(sz ? sz : 1);
				int r;

				/* the text's end is the end of the memory */
				memcpy(exact, t, sz);
				r = drv_import(which, exact, sz, arr);
				free(exact);
				o(",\"rc\":%d", r);
				if (live != was)
					o(",\"leak\":%ld", live - was);
			} else {
				out.n = at;
				o(",\"abort\":1");
			}
			jumps = 0;
			live = was;
			if (failat)
				o(",\"allocs\":%ld", allocs);
			o("}\n");
			free(t);
			flush();
			break;
		}
		default:
			return 72;
		}
	}
	return 0;
}
