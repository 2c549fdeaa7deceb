/*
 * Runs programs of calls of the library, several configurations at once, with
 * one call taking place while another one reads or writes.  See mc/a01.py.
 */
#define _GNU_SOURCE
#include "config.h"
#include <sys/queue.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <errno.h>
#include <malloc.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include "ort.h"
#include "ort-lang-c.h"
#include "ort-lang-javascript.h"
#include "ort-lang-json.h"
#include "ort-lang-nodejs.h"
#include "ort-lang-rust.h"
#include "ort-lang-sql.h"
#include "ort-lang-xliff.h"

#define NTEXT 64
#define NSLOT 4
#define NSTEP 64

static char *texts[NTEXT];
static size_t textsz[NTEXT];
static struct config *slots[NSLOT];

struct step {
	char	 op;
	int	 a, b, c, at;		/* at: nested at this event, or -1 */
	struct step *nested;
	/* results */
	long	 rc, events;
	char	*out;
	size_t	 outsz, done;
};
static struct step steps[NSTEP];
static size_t nsteps;
static struct step *running;

static void execute(struct step *);

static void
event(struct step *s)
{

	if (s->events++ == s->at && s->nested != NULL && !s->nested->done) {
		execute(s->nested);
		running = s;
	}
}

struct src { struct step *s; const char *buf; size_t sz, pos; };

static ssize_t
src_read(void *c, char *buf, size_t sz)
{
	struct src	*r = c;

	event(r->s);
	if (sz > r->sz - r->pos)
		sz = r->sz - r->pos;
	memcpy(buf, r->buf + r->pos, sz);
	r->pos += sz;
	return sz;
}

static ssize_t
dst_write(void *c, const char *buf, size_t sz)
{
	struct step	*s = c;

	event(s);
	s->out = realloc(s->out, s->outsz + sz + 1);
	memcpy(s->out + s->outsz, buf, sz);
	s->outsz += sz;
	return sz;
}

static FILE *
input(struct src *r, struct step *s, int text)
{
	cookie_io_functions_t io = { .read = src_read };
	FILE	*f;

	r->s = s;
	r->buf = texts[text];
	r->sz = textsz[text];
	r->pos = 0;
	f = fopencookie(r, "r", io);
	setvbuf(f, NULL, _IONBF, 0);
	return f;
}

static void
audit(FILE *f, const struct auditq *q)
{
	const struct audit	*a;
	size_t	 i;

	TAILQ_FOREACH(a, q, entries)
		switch (a->type) {
		case AUDIT_INSERT:
			fprintf(f, "insert %s\n", a->st->name);
			break;
		case AUDIT_UPDATE:
			fprintf(f, "update %s %d %s\n", a->up->parent->name, a->up->type, a->up->name == NULL ? "-" : a->up->name);
			break;
		case AUDIT_QUERY:
			fprintf(f, "query %s %d %s\n", a->sr->parent->name, a->sr->type, a->sr->name == NULL ? "-" : a->sr->name);
			break;
		case AUDIT_REACHABLE:
			fprintf(f, "reach %s %d:", a->ar.st->name, a->ar.exported);
			for (i = 0; i < a->ar.fdsz; i++)
				fprintf(f, " %s=%d", a->ar.fds[i].fd->name, a->ar.fds[i].exported);
			for (i = 0; i < a->ar.srsz; i++)
				fprintf(f, " %s@%s=%d", a->ar.srs[i].sr->name == NULL ? "-" : a->ar.srs[i].sr->name, a->ar.srs[i].path == NULL ? "-" : a->ar.srs[i].path, a->ar.srs[i].exported);
			fputc('\n', f);
			break;
		}
}

static long
generate(const struct config *cfg, int kind, FILE *f)
{
	struct ort_lang_c	 c;
	struct ort_lang_js	 js;
	struct ort_lang_json	 json;
	struct ort_lang_nodejs	 nd;
	struct ort_lang_rust	 rs;
	struct ort_lang_sql	 sql;
	struct ort_lang_xliff	 xl;
	struct msgq		 mq = TAILQ_HEAD_INITIALIZER(mq);
	long			 rc = 0;

	memset(&c, 0, sizeof(c));
	memset(&js, 0, sizeof(js));
	memset(&json, 0, sizeof(json));
	memset(&nd, 0, sizeof(nd));
	memset(&rs, 0, sizeof(rs));
	memset(&sql, 0, sizeof(sql));
	memset(&xl, 0, sizeof(xl));
	c.flags = ORT_LANG_C_JSON_KCGI | ORT_LANG_C_JSON_JSMN | ORT_LANG_C_VALID_KCGI | ORT_LANG_C_DB_SQLBOX | ORT_LANG_C_CORE | ORT_LANG_C_SAFE_TYPES;
	c.guard = "H";
	c.header = "h.h";
	c.ext_jsmn = "/* jsmn */\n";
	js.ext_privMethods = "/* priv */\n";
	js.ns = "ort";
	nd.flags = ORT_LANG_NODEJS_DB | ORT_LANG_NODEJS_CORE | ORT_LANG_NODEJS_VALID;
	switch (kind) {
	case 0:
		return ort_write_file(f, cfg);
	case 1:
		return ort_lang_json(&json, cfg, f);
	case 2:
		return ort_lang_c_header(&c, cfg, f);
	case 3:
		return ort_lang_c_source(&c, cfg, f);
	case 4:
		return ort_lang_c_manpage(&c, cfg, f);
	case 5:
		return ort_lang_nodejs(&nd, cfg, f);
	case 6:
		return ort_lang_javascript(cfg, &js, f);
	case 7:
		return ort_lang_sql(&sql, cfg, f);
	case 8:
		return ort_lang_rust(&rs, cfg, f);
	case 9:
		rc = ort_lang_xliff_extract(&xl, cfg, f, &mq);
		break;
	}
	fputs("--\n", f);
	ort_write_msg_file(f, &mq);
	ort_msgq_free(&mq);
	return rc;
}

static void
execute(struct step *s)
{
	static const char *const names[NSLOT] = { "zero", "one", "two", "three" };
	cookie_io_functions_t io = { .write = dst_write };
	struct msgq	 mq = TAILQ_HEAD_INITIALIZER(mq);
	struct src	 r;
	FILE		*f = NULL, *in;
	struct diffq	*dq;
	struct auditq	*aq;
	struct role	*role;
	struct ort_lang_xliff xl;
	struct ort_lang_sql sql;
	const char	*fn[1] = { "x.xlf" };
	int		 k;

	s->done = 1;
	running = s;
	if (strchr("GDAMXS", s->op) != NULL) {
		f = fopencookie(s, "w", io);
		setvbuf(f, NULL, _IONBF, 0);
	}
	switch (s->op) {
	case 'P':	/* parse: slot, text */
		if (slots[s->a] == NULL && (slots[s->a] = ort_config_alloc()) == NULL)
			break;
		in = input(&r, s, s->b);
		s->rc = ort_parse_file(slots[s->a], in, names[s->a]);
		fclose(in);
		break;
	case 'C':
		s->rc = ort_parse_close(slots[s->a]);
		break;
	case 'F':
		ort_config_free(slots[s->a]);
		slots[s->a] = NULL;
		break;
	case 'G':
		s->rc = generate(slots[s->a], s->b, f);
		break;
	case 'M':
		s->rc = ort_write_msg_file(f, &slots[s->a]->mq);
		break;
	case 'D':	/* differences: from, into */
	case 'S':
		if ((dq = ort_diff(slots[s->a], slots[s->b])) == NULL) {
			s->rc = -2;
			break;
		}
		memset(&sql, 0, sizeof(sql));
		if (s->op == 'D')
			s->rc = ort_write_diff_file(f, dq, names, 1, names + 1, 1);
		else {
			s->rc = ort_lang_diff_sql(&sql, dq, s->c, f, &mq);
			fputs("--\n", f);
			ort_write_msg_file(f, &mq);
			ort_msgq_free(&mq);
		}
		ort_diffq_free(dq);
		break;
	case 'A':	/* audit: slot, role */
		k = 0;
		TAILQ_FOREACH(role, &slots[s->a]->arq, allentries)
			if (k++ == s->b)
				break;
		if (role == NULL) {
			s->rc = -3;
			break;
		}
		if ((aq = ort_audit(role, slots[s->a])) == NULL) {
			s->rc = -2;
			break;
		}
		audit(f, aq);
		ort_auditq_free(aq);
		s->rc = 1;
		break;
	case 'X':	/* join (c=0), update (c=1): slot, text */
		memset(&xl, 0, sizeof(xl));
		in = input(&r, s, s->b);
		xl.in = &in;
		xl.fnames = fn;
		xl.insz = 1;
		xl.flags = ORT_LANG_XLIFF_COPY;
		s->rc = s->c ? ort_lang_xliff_update(&xl, slots[s->a], f, &mq) : ort_lang_xliff_join(&xl, slots[s->a], f, &mq);
		fclose(in);
		fputs("--\n", f);
		ort_write_msg_file(f, &mq);
		ort_msgq_free(&mq);
		break;
	}
	if (f != NULL)
		fclose(f);
}

static void
program(int fd)
{
	FILE	*o;
	size_t	 i, kept;
	int	 first = 1;

again:
	/* At first, what's allocated once and for all. */
	kept = mallinfo2().uordblks;
	for (i = 0; i < nsteps; i++)
		if (!steps[i].done)
			execute(&steps[i]);
	for (i = 0; i < NSLOT; i++) {
		ort_config_free(slots[i]);
		slots[i] = NULL;
	}
	for (i = 0; i < nsteps; i++)
		kept += steps[i].out == NULL ? 0 : malloc_usable_size(steps[i].out) + sizeof(size_t);
	kept = mallinfo2().uordblks - kept;
	if (first && kept != 0) {
		/* Unless it's what's allocated once and for all. */
		for (i = 0; i < nsteps; i++) {
			free(steps[i].out);
			steps[i].out = NULL;
			steps[i].outsz = steps[i].done = steps[i].rc = steps[i].events = 0;
		}
		first = 0;
		goto again;
	}
	o = fdopen(fd, "w");
	fprintf(o, "%zd\n", (ssize_t)kept);
	for (i = 0; i < nsteps; i++) {
		fprintf(o, "%ld %ld %zu\n", steps[i].rc, steps[i].events, steps[i].outsz);
		if (steps[i].outsz > 0)
			fwrite(steps[i].out, 1, steps[i].outsz, o);
		free(steps[i].out);
		steps[i].out = NULL;
	}
	fclose(o);
	_exit(0);
}

int
main(void)
{
	static char	*line;
	static size_t	 cap;
	char		*p, *buf;
	size_t		 len, bsz;
	int		 n, fds[2], st, at;
	pid_t		 pid;
	ssize_t		 r;

	while (getline(&line, &cap, stdin) > 0) {
		if (line[0] == 'T') {
			sscanf(line + 1, "%d %zu", &n, &len);
			free(texts[n]);
			texts[n] = malloc(len + 1);
			if (fread(texts[n], 1, len, stdin) != len)
				return 1;
			textsz[n] = len;
			continue;
		}
		memset(steps, 0, sizeof(steps));
		nsteps = 0;
		at = -1;
		for (p = strtok(line + 1, " \n"); p != NULL; p = strtok(NULL, " \n")) {
			if (*p == '@') {
				at = atoi(p + 1);
				continue;
			}
			steps[nsteps].op = *p;
			steps[nsteps].at = -1;
			sscanf(p + 1, "%d:%d:%d", &steps[nsteps].a, &steps[nsteps].b, &steps[nsteps].c);
			if (at >= 0) {
				steps[nsteps].at = at;
				steps[nsteps].nested = &steps[nsteps + 1];
				at = -1;
			}
			nsteps++;
		}
		if (pipe(fds) == -1 || (pid = fork()) == -1)
			return 1;
		if (pid == 0) {
			close(fds[0]);
			alarm(20);
			program(fds[1]);
		}
		close(fds[1]);
		buf = NULL;
		bsz = 0;
		for (;;) {
			buf = realloc(buf, bsz + 65536);
			if ((r = read(fds[0], buf + bsz, 65536)) <= 0)
				break;
			bsz += r;
		}
		close(fds[0]);
		waitpid(pid, &st, 0);
		printf("%d %zu %zu\n", st, nsteps, bsz);
		fwrite(buf, 1, bsz, stdout);
		fflush(stdout);
		free(buf);
	}
	return 0;
}
