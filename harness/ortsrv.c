/*
 * ortsrv: runs the openradtool command-line programs (their real main()
 * functions, renamed at compile time) on virtual files, one request at a
 * time, under a controlled environment: the Nth allocation and the Nth
 * output byte can be made to fail, allocations are counted.
 *
 * Protocol: requests on fd 3, responses on fd 4, little-endian u32's.
 */
#define _GNU_SOURCE
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <errno.h>
#include <fcntl.h>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <getopt.h>
#include <execinfo.h>

int main_ort(int, char **);
int main_audit(int, char **);
int main_auditjson(int, char **);
int main_cheader(int, char **);
int main_cmanpage(int, char **);
int main_csource(int, char **);
int main_diff(int, char **);
int main_javascript(int, char **);
int main_json(int, char **);
int main_nodejs(int, char **);
int main_rust(int, char **);
int main_sql(int, char **);
int main_sqldiff(int, char **);
int main_xliff(int, char **);

typedef int (*mainfn)(int, char **);
static const struct { const char *n; mainfn f; } tools[] = {
	{ "ort", main_ort }, { "ort-audit", main_audit },
	{ "ort-audit-json", main_auditjson }, { "ort-c-header", main_cheader },
	{ "ort-c-manpage", main_cmanpage }, { "ort-c-source", main_csource },
	{ "ort-diff", main_diff }, { "ort-javascript", main_javascript },
	{ "ort-json", main_json }, { "ort-nodejs", main_nodejs },
	{ "ort-rust", main_rust }, { "ort-sql", main_sql },
	{ "ort-sqldiff", main_sqldiff }, { "ort-xliff", main_xliff },
};

/* ---- allocation control ---- */

static int		 armed;
static uint32_t		 nalloc, failat;
static int64_t		 live;
static uint32_t		 injected;

void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void  __real_free(void *);
char *__real_strdup(const char *);
char *__real_strndup(const char *, size_t);
int   __real_vasprintf(char **, const char *, va_list);
FILE *__real_fopen(const char *, const char *);
void  __real_exit(int) __attribute__((noreturn));

#define TRACEMAX (1u << 18)
#define W_ATRACE 64u	/* give a hash of the calls each allocation is made by */
static uint32_t		*trace;
#define W_AFROM 128u	/* all allocations from the one to fail */
static int		 atrace, afrom;
extern char		 __executable_start;

static uint32_t
stack(void)
{
	void	*b[64];
	int	 i, n;
	uint64_t h = 1469598103934665603ULL;

	n = backtrace(b, 64);

	/* Leave out what's in the C library. */

	for (i = 1; i < n; i++) {
		uint64_t a = (uint64_t)((char *)b[i] - &__executable_start);
		if (a > (1u << 28))
			continue;
		h = (h ^ a) * 1099511628211ULL;
	}
	return (uint32_t)(h ^ (h >> 32));
}

static int
deny(void)
{
	if (!armed)
		return 0;
	nalloc++;
	if (atrace && nalloc <= TRACEMAX)
		trace[nalloc - 1] = stack();
	if (failat != 0 && (nalloc == failat || (afrom && nalloc > failat))) {
		injected = 1;
		errno = ENOMEM;
		return 1;
	}
	return 0;
}
#define ADD(p) do { if (armed && (p) != NULL) live++; } while (0)

#ifdef MEMFILL
/*
 * Memory has MEMFILL where it's not been written to, and addresses grow
 * (MEMUP 1) or shrink: nothing depends on either.  Nor does it on the time,
 * process, and so on.
 */
# define ARENA ((size_t)1 << 30)
static char	*arena;
static size_t	 arenaused;
#define INARENA(p) (arena != NULL && (char *)(p) >= arena && (char *)(p) < arena + ARENA)
static void
arenareset(void)
{
	if (arena == NULL) {
		arena = mmap(NULL, ARENA, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
		if (arena == MAP_FAILED)
			abort();
	}
	if (arenaused > ((size_t)1 << 24)) {
		madvise(arena, ARENA, MADV_DONTNEED);
	}
	arenaused = 0;
}
static void *
mem_malloc(size_t n)
{
	size_t t = ((n + 15) & ~(size_t)15) + 16;
	char *p;

	if (!armed)
		return __real_malloc(n);
	if (t < n || t > ARENA - arenaused) {
		errno = ENOMEM;
		return NULL;
	}
	p = MEMUP ? arena + arenaused : arena + ARENA - arenaused - t;
	arenaused += t;
	memset(p, MEMFILL, t);
	*(size_t *)p = n;
	return p + 16;
}
static void
mem_free(void *p)
{
	if (!INARENA(p))
		__real_free(p);
	else
		memset(p, MEMFILL, *(size_t *)((char *)p - 16));
}
static void *
mem_calloc(size_t a, size_t b)
{
	size_t t;
	void *p;

	if (__builtin_mul_overflow(a, b, &t)) {
		errno = ENOMEM;
		return NULL;
	}
	if ((p = mem_malloc(t)) != NULL)
		memset(p, 0, t);
	return p;
}
static void *
mem_realloc(void *o, size_t n)
{
	void *p;
	size_t k;

	if (o != NULL && !INARENA(o))
		return __real_realloc(o, n);
	if ((p = mem_malloc(n)) != NULL && o != NULL) {
		k = *(size_t *)((char *)o - 16);
		memcpy(p, o, k < n ? k : n);
		mem_free(o);
	}
	return p;
}
static char *
mem_strndup(const char *s, size_t n)
{
	size_t k = strnlen(s, n);
	char *p = mem_malloc(k + 1);

	if (p != NULL) {
		memcpy(p, s, k);
		p[k] = '\0';
	}
	return p;
}
static char *
mem_strdup(const char *s)
{ return mem_strndup(s, strlen(s)); }
static int
mem_vasprintf(char **r, const char *f, va_list ap)
{
	char *b;
	int c = __real_vasprintf(&b, f, ap);

	if (c >= 0) {
		if ((*r = mem_malloc(c + 1)) == NULL)
			abort();
		memcpy(*r, b, c + 1);
		__real_free(b);
	}
	return c;
}
# include <sys/time.h>
# include <time.h>
# define NOW (MEMUP ? 1000000007 : 2000000011)
time_t time(time_t *t) { if (t != NULL) *t = NOW; return NOW; }
int gettimeofday(struct timeval *t, void *z) { (void)z; t->tv_sec = NOW; t->tv_usec = MEMFILL; return 0; }
int clock_gettime(clockid_t c, struct timespec *t) { (void)c; t->tv_sec = NOW; t->tv_nsec = MEMFILL; return 0; }
pid_t getpid(void) { return MEMUP ? 1111 : 2222; }
int rand(void) { return MEMUP ? 5 : 7; }
long random(void) { return MEMUP ? 5 : 7; }
uint32_t arc4random(void) { return MEMUP ? 5 : 7; }
#else
# define arenareset()
# define mem_malloc __real_malloc
# define mem_calloc __real_calloc
# define mem_realloc __real_realloc
# define mem_free __real_free
# define mem_strdup __real_strdup
# define mem_strndup __real_strndup
# define mem_vasprintf __real_vasprintf
#endif

void *__wrap_malloc(size_t n)
{ void *p; if (deny()) return NULL; p = mem_malloc(n); ADD(p); return p; }
void *__wrap_calloc(size_t a, size_t b)
{ void *p; if (deny()) return NULL; p = mem_calloc(a, b); ADD(p); return p; }
void *__wrap_realloc(void *o, size_t n)
{ void *p; if (deny()) return NULL; p = mem_realloc(o, n);
  if (o == NULL) ADD(p); return p; }
void *__wrap_reallocarray(void *o, size_t a, size_t b)
{ void *p; size_t t; if (deny()) return NULL;
  if (__builtin_mul_overflow(a, b, &t)) { errno = ENOMEM; return NULL; }
  p = mem_realloc(o, t); if (o == NULL) ADD(p); return p; }
void __wrap_free(void *p) { if (armed && p != NULL) live--; mem_free(p); }
char *__wrap_strdup(const char *s)
{ char *p; if (deny()) return NULL; p = mem_strdup(s); ADD(p); return p; }
char *__wrap_strndup(const char *s, size_t n)
{ char *p; if (deny()) return NULL; p = mem_strndup(s, n); ADD(p); return p; }
int __wrap_vasprintf(char **r, const char *f, va_list ap)
{ int c; if (deny()) return -1; c = mem_vasprintf(r, f, ap);
  if (c >= 0) ADD(*r); return c; }
int __wrap_asprintf(char **r, const char *f, ...)
{ va_list ap; int c; if (deny()) return -1; va_start(ap, f);
  c = mem_vasprintf(r, f, ap); va_end(ap); if (c >= 0) ADD(*r); return c; }

/* ---- virtual files ---- */

struct vf { char *name; uint32_t len; char *buf; };
static struct vf	*vfs;
static uint32_t		 vfsz;

struct rd { const char *buf; size_t len, pos; };
static ssize_t
rdread(void *c, char *b, size_t n)
{
	struct rd *r = c;
	if (n > r->len - r->pos)
		n = r->len - r->pos;
	memcpy(b, r->buf + r->pos, n);
	r->pos += n;
	return n;
}
static int
rdclose(void *c) { __real_free(c); return 0; }
static FILE *
rdopen(const char *buf, size_t len)
{
	struct rd *r = __real_malloc(sizeof(*r));
	cookie_io_functions_t io = { .read = rdread, .close = rdclose };
	r->buf = buf; r->len = len; r->pos = 0;
	return fopencookie(r, "r", io);
}
FILE *
__wrap_fopen(const char *p, const char *m)
{
	uint32_t i;
	if (armed && m[0] == 'r') {
		for (i = 0; i < vfsz; i++)
			if (strcmp(vfs[i].name, p) == 0)
				return rdopen(vfs[i].buf, vfs[i].len);
	}
	return __real_fopen(p, m);
}

/* ---- output streams ---- */

struct wr { char *buf; size_t len, cap; size_t limit; int failed; int mode; size_t n; };
static struct wr	 wout, werr;

#define W_COUNT	 4u	/* the limit is of writes, not of bytes */
#define W_ONCE	 8u	/* only the write at the limit fails */
#define W_BUF	 16u	/* leave the stream buffered */
#define W_TRACE	 32u	/* give a hash of the calls each write is made by */

static ssize_t
wrwrite(void *c, const char *b, size_t n)
{
	struct wr *w = c;
	size_t at = (w->mode & W_COUNT) ? w->n + 1 : w->len + n;
	w->n++;
	if ((w->mode & W_TRACE) && w->n <= TRACEMAX)
		trace[w->n - 1] = stack();
	if ((w->failed && !(w->mode & W_ONCE)) ||
	    (at > w->limit && !(w->failed && (w->mode & W_ONCE)))) {
		w->failed = 1;
		errno = ENOSPC;
		return 0;
	}
	if (w->len + n > w->cap) {
		w->cap = (w->len + n) * 2 + 4096;
		w->buf = __real_realloc(w->buf, w->cap);
		if (w->buf == NULL)
			abort();
	}
	memcpy(w->buf + w->len, b, n);
	w->len += n;
	return n;
}
static FILE *
wropen(struct wr *w, size_t limit, int mode)
{
	cookie_io_functions_t io = { .write = wrwrite };
	w->len = 0; w->limit = limit; w->failed = 0; w->mode = mode; w->n = 0;
	return fopencookie(w, "w", io);
}

static jmp_buf	 exitjmp;
static int	 exitarm, exitcode_;

void
__wrap_exit(int c)
{
	if (exitarm) {
		exitcode_ = c;
		longjmp(exitjmp, 1);
	}
	__real_exit(c);
}

/* err(3) and friends call the libc's exit: redirect them too. */
static void
vreport(int useerr, int e, const char *f, va_list ap)
{
	fprintf(stderr, "ort: ");
	if (f != NULL) { vfprintf(stderr, f, ap); }
	if (useerr) fprintf(stderr, "%s%s", f ? ": " : "", strerror(e));
	fputc('\n', stderr);
}
void __wrap_err(int c, const char *f, ...)
{ int e = errno; va_list ap; va_start(ap, f); vreport(1, e, f, ap); va_end(ap); __wrap_exit(c); }
void __wrap_errx(int c, const char *f, ...)
{ int e = errno; va_list ap; va_start(ap, f); vreport(0, e, f, ap); va_end(ap); __wrap_exit(c); }
void __wrap_warn(const char *f, ...)
{ int e = errno; va_list ap; va_start(ap, f); vreport(1, e, f, ap); va_end(ap); }
void __wrap_warnx(const char *f, ...)
{ int e = errno; va_list ap; va_start(ap, f); vreport(0, e, f, ap); va_end(ap); }

/* ---- what library functions return ---- */

static uint32_t		 unrep;	/* success despite a failure in the call */
static const char	*unrepfn;

#define WRAP(fn, cond) \
long __real_##fn(long, long, long, long, long, long); \
long __wrap_##fn(long a, long b, long c, long d, long e, long f) \
{ \
	int wf = wout.failed, in = injected; \
	long r = __real_##fn(a, b, c, d, e, f); \
	if ((wout.failed != wf || (int)injected != in) && (cond)) { \
		unrep |= wout.failed != wf ? 1 : 2; \
		unrepfn = #fn; \
	} \
	return r; \
}
WRAP(ort_lang_c_header, (int)r > 0)
WRAP(ort_lang_c_source, (int)r > 0)
WRAP(ort_lang_c_manpage, (int)r > 0)
WRAP(ort_lang_javascript, (int)r > 0)
WRAP(ort_lang_json, (int)r > 0)
WRAP(ort_lang_nodejs, (int)r > 0)
WRAP(ort_lang_rust, (int)r > 0)
WRAP(ort_lang_sql, (int)r > 0)
WRAP(ort_lang_diff_sql, (int)r > 0)
WRAP(ort_lang_xliff_extract, (int)r > 0)
WRAP(ort_lang_xliff_join, (int)r > 0)
WRAP(ort_lang_xliff_update, (int)r > 0)
WRAP(ort_write_file, (int)r > 0)
WRAP(ort_write_diff_file, (int)r > 0)
WRAP(ort_parse_file, (int)r > 0)
WRAP(ort_parse_close, (int)r > 0)
WRAP(ort_diff, r != 0)
WRAP(ort_audit, r != 0)

/* ---- protocol ---- */

static void
rdall(void *b, size_t n)
{
	char *p = b; ssize_t r;
	while (n) {
		if ((r = read(3, p, n)) <= 0)
			_exit(0);
		p += r; n -= r;
	}
}
static void
wrall(int fd, const void *b, size_t n)
{
	const char *p = b; ssize_t r;
	while (n) {
		if ((r = write(fd, p, n)) <= 0)
			_exit(1);
		p += r; n -= r;
	}
}

#define FL_FORK	 1u	/* run in a forked child */
#define FL_FLUSHEXIT 2u

struct shared { uint32_t nalloc, injected, outfailed; int32_t live; uint32_t nwrites, unrep; };

static uint32_t
run(int tool, int argc, char **argv, const char *in, size_t inlen,
	size_t limit, int mode, struct shared *sh)
{
	FILE *so = stdout, *se = stderr, *si = stdin, *o, *e, *i;
	volatile int rc;
	int fe;

	o = wropen(&wout, limit, mode);
	e = wropen(&werr, SIZE_MAX, 0);
	i = rdopen(in, inlen);
	setvbuf(e, NULL, _IOFBF, 4096);
	if (limit != SIZE_MAX && !(mode & W_BUF))
		setvbuf(o, NULL, _IONBF, 0);
	stdout = o; stderr = e; stdin = i;
	optind = 0; opterr = 1; optarg = NULL;
	nalloc = 0; live = 0; injected = 0; unrep = 0; unrepfn = NULL;
	arenareset();
	errno = 0;
	exitarm = 1;
	if (setjmp(exitjmp) == 0) {
		armed = 1;
		rc = tools[tool].f(argc, argv);
	} else
		rc = exitcode_ & 0xff;
	armed = 0; exitarm = 0;
	fe = fflush(o);
	if (unrep)
		fprintf(e, "%s %s\n", "unreported in", unrepfn);
	fflush(e);
	(void)fe;
	stdout = so; stderr = se; stdin = si;
	fclose(o); fclose(e); fclose(i);
	sh->nalloc = nalloc; sh->live = (int32_t)live;
	sh->injected = injected; sh->outfailed = wout.failed;
	sh->nwrites = wout.n; sh->unrep = unrep;
	return (uint32_t)(rc & 0xff);
}

int
main(int argc0, char **argv0)
{
	struct shared *sh;
	uint32_t hdr[8], i, n, len, status, *lens, rsp[9];
	char *body = NULL, **argv, *p, *in;
	size_t bodycap = 0;
	int fo, fe, st;
	struct stat sb;
	pid_t pid;

	(void)argc0; (void)argv0;
	sh = mmap(NULL, 4096, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
	trace = mmap(NULL, TRACEMAX * 4, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
	if (sh == MAP_FAILED || trace == MAP_FAILED)
		abort();
	fo = memfd_create("o", 0);
	fe = memfd_create("e", 0);
	signal(SIGPIPE, SIG_IGN);
	for (;;) {
		/* hdr: tool flags failalloc wlimit argc nfiles stdinlen bodylen */
		rdall(hdr, sizeof(hdr));
		if (hdr[7] + 1 > bodycap) {
			bodycap = hdr[7] + 4096;
			body = __real_realloc(body, bodycap);
		}
		rdall(body, hdr[7]);
		n = hdr[4] + 2 * hdr[5] + 1;
		/* body: n lengths, then blobs each NUL-terminated */
		lens = (uint32_t *)body;
		p = body + n * 4;
		argv = __real_calloc(hdr[4] + 2, sizeof(char *));
		vfs = __real_calloc(hdr[5] + 1, sizeof(struct vf));
		argv[0] = (char *)tools[hdr[0]].n;
		for (i = 0; i < hdr[4]; i++) {
			argv[i + 1] = p; p += lens[i] + 1;
		}
		for (i = 0; i < hdr[5]; i++) {
			vfs[i].name = p; p += lens[hdr[4] + 2 * i] + 1;
			vfs[i].buf = p; len = lens[hdr[4] + 2 * i + 1];
			vfs[i].len = len; p += len + 1;
		}
		vfsz = hdr[5];
		in = p;
		failat = hdr[2];
		atrace = (hdr[1] & W_ATRACE) != 0;
		afrom = (hdr[1] & W_AFROM) != 0;
		memset(sh, 0, sizeof(*sh));
		if (hdr[1] & FL_FORK) {
			if (ftruncate(fo, 0) == -1 || ftruncate(fe, 0) == -1)
				abort();
			lseek(fo, 0, SEEK_SET); lseek(fe, 0, SEEK_SET);
			if ((pid = fork()) == -1)
				abort();
			if (pid == 0) {
				dup2(fe, 2);
				alarm(hdr[1] >> 8 ? hdr[1] >> 8 : 20);
				status = run(hdr[0], hdr[4] + 1, argv, in,
				    lens[n - 1], hdr[3] == UINT32_MAX ?
				    SIZE_MAX : hdr[3], (int)(hdr[1] & 0x3c), sh);
				wrall(fo, wout.buf, wout.len);
				wrall(fe, werr.buf, werr.len);
				_exit((int)status);
			}
			while (waitpid(pid, &st, 0) == -1 && errno == EINTR)
				;
			status = WIFEXITED(st) ? (uint32_t)WEXITSTATUS(st) :
			    256u + (uint32_t)WTERMSIG(st);
			fstat(fo, &sb); wout.len = sb.st_size;
			if (wout.len > wout.cap)
				wout.buf = __real_realloc(wout.buf, wout.cap = wout.len);
			if (pread(fo, wout.buf, wout.len, 0) < 0) abort();
			fstat(fe, &sb); werr.len = sb.st_size;
			if (werr.len > werr.cap)
				werr.buf = __real_realloc(werr.buf, werr.cap = werr.len);
			if (pread(fe, werr.buf, werr.len, 0) < 0) abort();
		} else {
			alarm(30);
			status = run(hdr[0], hdr[4] + 1, argv, in,
			    lens[n - 1], hdr[3] == UINT32_MAX ?
			    SIZE_MAX : hdr[3], (int)(hdr[1] & 0x3c), sh);
			alarm(0);
		}
		rsp[0] = status; rsp[1] = wout.len; rsp[2] = werr.len;
		rsp[3] = sh->nalloc; rsp[4] = (uint32_t)sh->live;
		rsp[5] = sh->injected; rsp[6] = sh->outfailed;
		rsp[7] = sh->nwrites; rsp[8] = sh->unrep;
		wrall(4, rsp, sizeof(rsp));
		wrall(4, wout.buf, wout.len);
		wrall(4, werr.buf, werr.len);
		if (hdr[1] & W_TRACE)
			wrall(4, trace, (rsp[7] < TRACEMAX ? rsp[7] : TRACEMAX) * 4);
		else if (hdr[1] & W_ATRACE)
			wrall(4, trace, (rsp[3] < TRACEMAX ? rsp[3] : TRACEMAX) * 4);
		__real_free(argv);
		__real_free(vfs);
	}
}
