"""The C of a configuration: what ort-c-header and ort-c-source write,
compiled with a driver generated from the documented interface and
harness/c's stand-ins, and the running program."""
import hashlib, json, os, re, select, shutil, signal, subprocess, tempfile, time
import build, dataref as dr, q

HERE = os.path.dirname(os.path.abspath(__file__))
HC = os.path.join(os.path.dirname(HERE), "harness", "c")
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"]
INTS = ("int", "bit", "bits", "date", "epoch")


class Died(Exception):
    pass


def own(cfg, f):
    """The field whose type f's is."""
    n = 0
    while f.ref is not None and n < 100:
        f = cfg.structs[f.ref[0]].fields[f.ref[1]]
        n += 1
    return f


def tname(cfg, f):
    g = own(cfg, f)
    return "%s_%s" % (g.parent.name, g.name)


def kind(f):
    t = f.type
    return "i" if t in INTS else "e" if t == "enum" else "r" if t == "real" else "b" if t == "blob" else "s"


def arg(cfg, f, i, n, ptr):
    """Declarations before and the actual argument for parameter n."""
    k = kind(f)
    a = "v[%d]" % i
    if k == "b":
        pre = "const void *x%d = %s.s;" % (n, a)
        return pre, "%s.sz, %s" % (a, "%s.t == 'n' ? NULL : &x%d" % (a, n) if ptr else "x%d" % n)
    if k == "i":
        ty, val = tname(cfg, f), "ORT_%s(%s.i)" % (tname(cfg, f), a)
        pre = "%s x%d = %s;" % (ty, n, val)
    elif k == "e":
        pre = "enum %s x%d = (enum %s)%s.i;" % (f.sub, n, f.sub, a)
    elif k == "r":
        pre = "double x%d = %s.r;" % (n, a)
    else:
        pre = "const char *x%d = %s.s;" % (n, a)
    return pre, "%s.t == 'n' ? NULL : &x%d" % (a, n) if ptr else "x%d" % n


def pointers(op):
    """Which parameters are passed as pointers, null if unset."""
    k = len(op.params) if op.kind == "insert" else len(op.o.mods) if op.kind == "update" else 0
    return [i < k and f.null for i, (f, how) in enumerate(op.params)]


def callable_(op, args):
    """Can the interface express the call?"""
    return all(v is not None or p for v, p in zip(args, pointers(op)))


def dumper(cfg, s, js):
    L = ["static void dump_%s(const struct %s *p)\n{" % (s.name, s.name), "\to(\"{\");"]
    first = 1
    for f in s.fields.values():
        L.append("\tokey(\"%s\", %d);" % (f.name, first))
        first = 0
        k = kind(f)
        null = f.null
        if f.type == "struct":
            null = s.fields[f.sub].null
            st = "dump_%s(&p->%s);" % (cfg.target(f).name, f.name)
        elif k == "i":
            st = "oint(ORT_GET_%s_%s(p));" % (s.name, f.name)
        elif k == "e":
            st = "oint(p->%s);" % f.name
        elif k == "r":
            st = "oreal(p->%s);" % f.name
        elif k == "b":
            st = "oblob(p->%s, p->%s_sz);" % (f.name, f.name)
        else:
            st = "otext(p->%s);" % f.name
        if null:
            st = "if (!p->has_%s) o(\"null\"); else %s" % (f.name, st)
        L.append("\t" + st)
    L.append("\to(\"}\");\n}")
    if js:
        L.append("""static void full_%s(const struct %s *p)
{
	dump_%s(p);
	if (want_json) {
		json.n = 0;
		kjson_obj_open(&kj);
		json_%s_data(&kj, p);
		kjson_obj_close(&kj);
		out.n--;
		ojson();
		if (want_json > 1) {
			json.n = 0;
			kjson_obj_open(&kj);
			json_%s_obj(&kj, p);
			kjson_obj_close(&kj);
			o(",\\"o\\":");
			ojsonv();
		}
		o("}");
	}
}""" % ((s.name,) * 5))
    else:
        L.append("#define full_%s dump_%s" % (s.name, s.name))
    return "\n".join(L)


def uses(cfg):
    out = {}
    for s in cfg.structs.values():
        if any(q_.kind == "iterate" for q_ in s.queries):
            out.setdefault(s.name, set())
    return out


def order(cfg):
    """Structures, those nested in others first."""
    out = []

    def visit(s):
        if s in out:
            return
        for f in s.fields.values():
            if f.type == "struct":
                visit(cfg.target(f))
        out.append(s)
    for s in cfg.structs.values():
        visit(s)
    return out


def driver(cfg, ops, fl="jJv"):
    L = ["#include <sys/queue.h>", "#include <stdarg.h>", "#include <inttypes.h>", "#include <stdlib.h>", "#include <string.h>",
         "#include \"rt.h\"", "#include \"db.h\"",
         "const char *const tables[] = { %s };" % ", ".join(["\"%s\"" % n for n in cfg.structs] + ["NULL"]),
         "const size_t ntables = %d;" % len(cfg.structs)]
    for s in order(cfg):
        L.append(dumper(cfg, s, "j" in fl))
    iters = [op.result() for op in ops if op.kind == "iterate"]
    L.append("#define JARR(NAME) " + ("if (want_json > 1) { json.n = 0; kjson_obj_open(&kj); json_##NAME##_array(&kj, q); kjson_obj_close(&kj); o(\",\\\"a\\\":\"); ojsonv(); }" if "j" in fl else ""))
    for s in cfg.structs.values():
        L.append("static void iter_%s(const struct %s *p, void *arg) { int *n = arg; if ((*n)++) o(\",\"); full_%s(p); %s}" % (s.name, s.name, s.name,
            "if (want_json > 1) { json.n = 0; kjson_array_open(&kj); json_%s_iterate(p, &kj); kjson_array_close(&kj); out.n--; o(\",\\\"i\\\":\"); ojsonv(); o(\"}\"); } " % s.name
            if "j" in fl and s in iters else ""))
    L.append("int drv_write(size_t fn)\n{\n\tstatic const char w[] = \"%s\";\n\treturn w[fn] == '1';\n}" % "".join(
        "1" if op.write else "0" for op in ops))
    # exported again once the role held has changed
    L.append("#define LATE(again) " + ("if (want_late) { size_t at = out.n, n0; o(\",\\\"now\\\":[\"); n0 = out.n; again; o(\"]\"); "
             "drv_role(ctx, 0); { size_t m = out.n, n1; o(\",\\\"late\\\":[\"); n1 = out.n; again; o(\"]\"); "
             "if (out.n - n1 == m - n0 && memcmp(out.p + n0, out.p + n1, m - n0) == 0) out.n = at; } }" if cfg.roles else ""))
    L.append("void drv_call(struct ort *ctx, size_t fn, const struct arg *v)\n{\n\tswitch (fn) {")
    for i, op in enumerate(ops):
        pre, act = [], []
        for n, ((f, how), ptr) in enumerate(zip(op.params, pointers(op))):
            a, b = arg(cfg, f, n, n, ptr)
            pre.append(a)
            act.append(b)
        call = lambda extra="": "%s(%s)" % (op.name, ", ".join(["ctx"] + ([extra] if extra else []) + act))
        L.append("\tcase %d: {" % i)
        L += ["\t\t" + p for p in pre]
        r = op.result().name
        if op.kind == "list":
            L.append("""		struct %s_q *q = %s;
		struct %s *p;
		int n = 0;
		o(",\\"l\\":[");
		TAILQ_FOREACH(p, q, _entries) { if (n++) o(","); full_%s(p); }
		o("]");
		JARR(%s)
		LATE(TAILQ_FOREACH(p, q, _entries) full_%s(p))
		db_%s_freeq(q);""" % (r, call(), r, r, r, r, r))
        elif op.kind == "iterate":
            L.append("\t\tint n = 0;\n\t\to(\",\\\"l\\\":[\");\n\t\t%s;\n\t\to(\"]\");" % call("iter_%s, &n" % r))
        elif op.kind == "search":
            L.append("\t\tstruct %s *p = %s;\n\t\to(\",\\\"v\\\":\");\n\t\tif (p) full_%s(p); else o(\"null\");\n\t\tLATE(if (p) full_%s(p))\n\t\tdb_%s_free(p);" % (r, call(), r, r, r))
        elif op.kind == "count":
            L.append("\t\tuint64_t n = %s;\n\t\to(\",\\\"v\\\":%%\" PRIu64, n);" % call())
        elif op.kind == "insert":
            L.append("\t\tint64_t n = %s;\n\t\to(\",\\\"v\\\":%%\" PRId64, n);" % call())
        elif op.kind == "update":
            L.append("\t\tint n = %s;\n\t\to(\",\\\"v\\\":%%s\", n ? \"true\" : \"false\");" % call())
        else:
            L.append("\t\t%s;" % call())
        L.append("\t\tbreak;\n\t}")
    L.append("\tdefault: abort();\n\t}\n}")
    L.append("struct ort *drv_open(void) { return db_open(\"db\"); }\nvoid drv_close(struct ort *p) { db_close(p); }")
    if cfg.roles:
        rs = ["none", "default"] + [r for r in cfg.roles if r not in ("none", "default", "all")]
        L.append("static const enum ort_role roles[] = { %s };" % ", ".join("ROLE_" + r for r in rs))
        L.append("void drv_role(struct ort *p, int r) { db_role(p, roles[r]); }")
        L.append("int drv_currole(struct ort *p) { int i; for (i = 0; i < %d; i++) if (roles[i] == db_role_current(p)) return i; return -1; }" % len(rs))
    else:
        L.append("void drv_role(struct ort *p, int r) { (void)p; (void)r; abort(); }\nint drv_currole(struct ort *p) { (void)p; return 0; }")
    L.append("""void drv_trans(struct ort *p, int what, size_t id, int mode)
{
	if (what == 0) db_trans_open(p, id, mode);
	else if (what == 1) db_trans_commit(p, id);
	else db_trans_rollback(p, id);
}""")
    if "v" in fl:
        L.append("static const char *const kinds[][2] = {%s { NULL, NULL } };" % " ".join(
            "{ \"%s-%s\", \"%s\" }," % (s.name, f.name, kind(f).replace("e", "i")) for s in cfg.structs.values() for f in s.fields.values() if f.type != "struct"))
        L.append("static int (*const direct[])(struct kpair *) = { %s NULL };" % "".join(
            "valid_%s_%s, " % (s.name, f.name) for s in cfg.structs.values() for f in s.fields.values() if f.type != "struct"))
        L.append("static size_t vorder(const char *n)\n{\n%s\treturn VALID__MAX;\n}" % "".join(
            "\tif (strcmp(n, \"%s-%s\") == 0) return VALID_%s_%s;\n" % (s.name, f.name, s.name.upper(), f.name.upper())
            for s in cfg.structs.values() for f in s.fields.values() if f.type != "struct"))
        L.append("""int drv_valid(const char *name, struct kpair *p, int *k)
{
	size_t i, j;
	for (i = 0; i < VALID__MAX; i++)
		if (strcmp(valid_keys[i].name, name) == 0) {
			for (j = 0; kinds[j][0]; j++)
				if (strcmp(kinds[j][0], name) == 0)
					*k = kinds[j][1][0];
			if (i != vorder(name)) return -2;
			if ((direct[i](p) != 0) != (valid_keys[i].valid == NULL || valid_keys[i].valid(p))) return -3;
			return direct[i](p) != 0;
		}
	return -1;
}""")
    else:
        L.append("int drv_valid(const char *n, struct kpair *p, int *k) { (void)n; (void)p; (void)k; return -1; }")
    if "J" in fl:
        L.append("int drv_import(size_t which, const char *buf, size_t sz, int arr)\n{\n\tjsmn_parser ps;\n\tjsmntok_t *t;\n\tint n, rc = -9;\n\tsize_t i, asz = 0;\n\t(void)i; (void)asz;\n"
                 "\tjsmn_init(&ps);\n\tn = jsmn_parse(&ps, buf, sz, NULL, 0);\n\to(\",\\\"n\\\":%d\", n);\n\tif (n < 0) return n;\n"
                 "\tt = rt_alloc(n * sizeof *t);\n\tjsmn_init(&ps);\n\tn = jsmn_parse(&ps, buf, sz, t, n);\n\tif (n < 0) { rt_free(t); return n; }\n\tswitch (which) {")
        for i, s in enumerate(cfg.structs.values()):
            L.append("""	case %d:
		if (arr) {
			struct %s *p = NULL;
			rc = jsmn_%s_array(&p, &asz, buf, t, n);
			o(",\\"l\\":[");
			for (i = 0; rc > 0 && i < asz; i++) { if (i) o(","); dump_%s(&p[i]); }
			o("]");
			jsmn_%s_free_array(p, asz);
		} else {
			struct %s x;
			memset(&x, 0, sizeof x);
			rc = jsmn_%s(&x, buf, t, n);
			if (rc > 0) { o(",\\"v\\":"); dump_%s(&x); }
			jsmn_%s_clear(&x);
		}
		break;""" % ((i,) + (s.name,) * 8))
        L.append("\t}\n\trt_free(t);\n\treturn rc;\n}")
    else:
        L.append("int drv_import(size_t w, const char *b, size_t s, int a) { (void)w; (void)b; (void)s; (void)a; return -9; }")
    return "\n".join(L) + "\n"


def rt(env, san):
    """The object of harness/c/rt.c, compiled once."""
    h = hashlib.sha256()
    for n in sorted(os.listdir(HC)):
        with open(os.path.join(HC, n), "rb") as f:
            h.update(f.read())
    d = build.BASE + "/crt"
    os.makedirs(d, exist_ok=True)
    o = "%s/%s%s.o" % (d, h.hexdigest()[:16], "-san" if san else "")
    if not os.path.exists(o):
        t = "%s.%d.tmp.o" % (o, os.getpid())
        r = subprocess.run(["gcc", "-g", "-O1", "-w", "-D_GNU_SOURCE", "-I" + HC] + (SAN if san else []) + ["-c", HC + "/rt.c", "-o", t], capture_output=True)
        if r.returncode:
            raise build.BuildError(r.stderr.decode()[-2000:])
        os.rename(t, o)
    return o


def share(env):
    return env.build.src


def generate(env, text, fl="jJv", safe=False, files=None):
    """The header and the source, or an error."""
    h = env.run("ort-c-header", (["-" + fl] if fl else []) + (["-s"] if safe else []), [], text.encode())
    if h.status:
        return None, None, "ort-c-header fails: %r" % h.err[-300:]
    inc = "".join({"j": "j", "J": "J", "v": "v"}[c] for c in fl)
    c = env.run("ort-c-source", (["-" + fl] if fl else []) + ["-I", "d" + inc.replace("J", ""), "-h", "db.h", "-S", share(env)], [], text.encode())
    if c.status:
        return None, None, "ort-c-source fails: %r" % c.err[-300:]
    return h.out, c.out, None


WARN = ["-Wall", "-Wextra", "-Wno-unused-parameter", "-Wno-unused-function"]


def compile_(env, h, c, d, san, std="gnu11"):
    """The directory of the program compiled of these, or an error."""
    o = rt(env, san)
    key = hashlib.sha256(repr((h, c, d, o, san, std)).encode()).hexdigest()[:24]
    root = build.BASE + "/cprog"
    os.makedirs(root, exist_ok=True)
    dst = root + "/" + key
    for _ in range(200):
        if os.path.exists(dst + "/prog"):
            os.utime(dst)
            return dst, None
        if os.path.exists(dst + "/failed"):
            with open(dst + "/failed") as f:
                return None, f.read()
        try:
            os.mkdir(dst + ".lock")
            break
        except FileExistsError:
            # another job compiles it
            try:
                if time.time() - os.stat(dst + ".lock").st_mtime > 60:
                    os.rmdir(dst + ".lock")
            except OSError:
                pass
            time.sleep(0.3)
    tmp = tempfile.mkdtemp(prefix="tmp-", dir=root)
    err = None
    try:
        for n, b in (("db.h", h), ("db.c", c), ("drv.c", d)):
            with open(tmp + "/" + n, "wb") as f:
                f.write(b)
        base = ["gcc", "-std=" + std, "-O0", "-g0", "-I" + HC, "-I.", "-Werror=implicit-function-declaration", "-Werror=incompatible-pointer-types",
                "-Werror=int-conversion"] + (SAN if san else [])
        ps = [(n, subprocess.Popen(base + ["-include", HC + "/pre.h", "-c", n], cwd=tmp, stdout=subprocess.PIPE, stderr=subprocess.STDOUT))
              for n in ("db.c", "drv.c")]
        for n, p in ps:
            t = p.communicate()[0].decode("utf-8", "replace")
            if p.returncode and not err:
                e = [l for l in t.splitlines() if "error" in l]
                err = "%s does not compile: %s" % ("the source" if n == "db.c" else "a caller", "; ".join(e[:3])[:700])
        if not err:
            r = subprocess.run(["gcc"] + (SAN if san else []) + ["-o", "prog", "db.o", "drv.o", o, "-lresolv", "-lsqlite3", "-lm"],
                               cwd=tmp, capture_output=True)
            if r.returncode:
                err = "does not link: %s" % r.stderr.decode("utf-8", "replace")[-500:]
        for n in ("db.o", "drv.o"):
            if os.path.exists(tmp + "/" + n):
                os.unlink(tmp + "/" + n)
        if err:
            with open(tmp + "/failed", "w") as f:
                f.write(err)
        try:
            os.rename(tmp, dst)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
        try:
            os.rmdir(dst + ".lock")
        except OSError:
            pass
    return (None, err) if err else (dst, None)


def evict(keep=400):
    root = build.BASE + "/cprog"
    if os.path.isdir(root):
        ds = []
        for n in os.listdir(root):
            try:
                ds.append((os.stat(root + "/" + n).st_mtime, root + "/" + n))
            except OSError:
                pass
        for _, d in sorted(ds)[:-keep]:
            shutil.rmtree(d, ignore_errors=True)


class Prog:
    """A compiled and running program of a configuration."""

    def __init__(self, env, cfg, text, san=True, fl="jJv", safe=False, ops=None):
        self.cfg, self.p, self.file = cfg, None, None
        self.ops = q.ops(cfg) if ops is None else ops
        self.err = None
        h, c, self.err = generate(env, text, fl, safe)
        if self.err:
            return
        sql = env.run("ort-sql", [], [], text.encode())
        if sql.status:
            self.err = "ort-sql fails: %r" % sql.err[-300:]
            return
        self.sql = sql.out
        self.dir, self.err = compile_(env, h, c, driver(cfg, self.ops, fl).encode(), san)
        if self.err:
            return
        self.tables = {n: i for i, n in enumerate(cfg.structs)}

    def start(self):
        r0, w0 = os.pipe()
        r1, w1 = os.pipe()

        def pre():
            import fcntl
            a = fcntl.fcntl(r0, fcntl.F_DUPFD, 20)
            b = fcntl.fcntl(w1, fcntl.F_DUPFD, 20)
            os.dup2(a, 3)
            os.dup2(b, 4)
            os.closerange(5, 64)
        self.errf = tempfile.TemporaryFile()
        e = self.errf
        env = dict(os.environ, TZ="UTC", ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1", UBSAN_OPTIONS="print_stacktrace=0")
        self.loaded = None
        self.p = subprocess.Popen([self.dir + "/prog"], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=e,
                                  preexec_fn=pre, close_fds=False, env=env)
        os.close(r0)
        os.close(w1)
        self.w, self.r, self.buf = w0, r1, b""
        if self.file:
            if os.path.exists(self.file):
                os.unlink(self.file)
            self.send("F " + self.file)
        self.send("X " + self.sql.hex())
        a = self.line()
        if a != "ok":
            raise Died("schema: %s" % a)

    def send(self, s):
        b = s.encode() + b"\n"
        mv = memoryview(b)
        while mv:
            try:
                mv = mv[os.write(self.w, mv[:65536]):]
            except BrokenPipeError:
                self.died()

    def died(self):
        self.stop()
        self.errf.seek(0)
        e = self.errf.read().decode("utf-8", "replace")
        m = re.search(r"(runtime error: .*|ERROR: AddressSanitizer: \S+|ERROR: .*)", e)
        raise Died(m.group(1)[:200] if m else e[-200:] or "died")

    def line(self, timeout=120):
        end = time.time() + timeout
        while b"\n" not in self.buf:
            t = end - time.time()
            if t <= 0 or not select.select([self.r], [], [], t)[0]:
                self.stop()
                raise Died("no answer in %d s" % timeout)
            c = os.read(self.r, 1 << 20)
            if not c:
                self.died()
            self.buf += c
        l, self.buf = self.buf.split(b"\n", 1)
        return l.decode("utf-8", "replace")

    def stop(self):
        if self.p is not None:
            os.close(self.w)
            os.close(self.r)
            self.p.kill()
            self.p.wait()
            self.p = None
            self.loaded = None

    def close(self):
        self.stop()
        if self.file:
            shutil.rmtree(os.path.dirname(self.file), ignore_errors=True)

    # --- imports and validation ---

    def ask(self, lines, n=100):
        """The answers to lines with one each; a crash is one, too."""
        out = []
        while len(out) < len(lines):
            if self.p is None:
                self.start()
            ls = lines[len(out):len(out) + n]
            self.send("\n".join(ls))
            try:
                for _ in ls:
                    out.append(json.loads(self.line()))
            except Died as e:
                out.append({"crash": str(e)})
        return out

    # --- states and calls ---

    @staticmethod
    def enc(v):
        if v is None:
            return "n"
        if isinstance(v, int):
            return "i%d" % v
        if isinstance(v, float):
            return "r" + v.hex()
        if isinstance(v, bytes):
            return "b" + v.hex()
        return "s" + v.encode("utf-8", "surrogateescape").hex()

    def encstate(self, db):
        return ["T %d %s" % (self.tables[n], " ".join(self.enc(r[f.name]) for f in dr.cols(self.cfg.structs[n]))) for n in db for r in db[n]]

    def enccall(self, oi, args, roles=None):
        return "C %d %s %s" % (oi, "-" if roles is None else ",".join(map(str, roles)), " ".join(self.enc(v) for v in args))

    def begin(self, calls, js=True, late=0):
        self.start()
        self.send("J %d" % int(js))
        self.send("L %d" % late)
        self.send("K")
        if calls:
            self.send("\n".join(calls))

    def explore(self, states, calls, js=True, fail=0, late=0):
        """Results for each state of each call."""
        out = []
        if self.p is None or self.loaded != (calls, js, late):
            self.stop()
            self.begin(calls, js, late)
            self.loaded = (calls, js, late)
        for st in states:
            self.send("\n".join(["Z"] + st + ["A %d" % fail, "G"]))
            rs = []
            i = 0
            try:
                while True:
                    l = self.line()
                    if l == ".":
                        break
                    rs.append(json.loads(l))
            except Died as e:
                # what is known, the crash, and the rest from new processes
                rs.append({"crash": str(e)})
                left = 20
                while len(rs) < len(calls) and left:
                    left -= 1
                    self.begin(calls[len(rs):], js, late)
                    self.send("\n".join(["Z"] + st + ["A %d" % fail, "G"]))
                    try:
                        while True:
                            l = self.line()
                            if l == ".":
                                break
                            rs.append(json.loads(l))
                    except Died as e:
                        rs.append({"crash": str(e)})
                rs += [{"unknown": 1}] * (len(calls) - len(rs))
                self.stop()
                self.begin(calls, js, late)
                self.loaded = (calls, js, late)
            out.append(rs)
        return out


# ---- results ---------------------------------------------------------------

class Bad(Exception):
    pass


def salt(s):
    return re.sub(r"^\$2b\$(\d+)\$\d\$", r"$2b$\1$0$", s)


def val(v):
    if isinstance(v, dict):
        if "bad" in v:
            raise Bad(v["bad"])
        if "r" in v:
            return float.fromhex(v["r"])
        if "b" in v:
            return bytes.fromhex(v["b"])
        return bytes.fromhex(v["s"]).decode("utf-8", "surrogateescape")
    return v


def obj(cfg, s, d):
    out = {}
    for f in s.fields.values():
        v = d[f.name]
        if f.type == "struct":
            if v is not None:
                v = obj(cfg, cfg.target(f), v)
        else:
            try:
                v = val(v)
            except Bad as e:
                raise Bad("%s is %s" % (f.name, e))
            if f.type == "password" and v is not None:
                v = salt(v)
        out[f.name] = v
    return out


def result(cfg, op, r, check=None):
    """As q.judge wants it; check(object, exported JSON) says what is wrong
    with an export."""
    out = {}
    if "crash" in r:
        return {"abort": 1, "crash": r["crash"]}
    for k in ("abort", "inrole", "unknown", "noopen"):
        if k in r:
            out[k] = r[k]
    if "noopen" in r:
        out["abort"] = 1
    if op.write and "abort" in out:
        # ort-c-header(1): what fails otherwise than by a constraint that has
        # a result exits
        del out["abort"]
        out["error"] = "exits"
    if "db" in r:
        out["db"] = {}
        for n, rows in r["db"].items():
            cs = dr.cols(cfg.structs[n])
            out["db"][n] = []
            for row in rows:
                vs = [val(v) for v in row]
                vs = [salt(v) if isinstance(v, str) and f.type == "password" else v for f, v in zip(cs, vs)]
                out["db"][n].append(dict(zip([f.name for f in cs], vs)))
    if set(out) - {"db"}:
        return out
    s = op.result()

    def one(d):
        o = obj(cfg, s, d)
        if check is not None and "_e" in d:
            check(o, bytes.fromhex(d["_e"]).decode("utf-8", "surrogateescape"))
        return o
    try:
        if op.kind in ("list", "iterate"):
            out["rows"] = [one(x) for x in r["l"]]
        elif op.kind == "search":
            out["row"] = None if r["v"] is None else one(r["v"])
        elif op.kind in ("count", "insert", "update"):
            out["value"] = r["v"]
        if "leak" in r:
            out["type"] = "%d allocations remain after freeing" % r["leak"]
    except Bad as e:
        out["type"] = str(e)
    return out


# ---- JSON ------------------------------------------------------------------

def same(a, b):
    if isinstance(b, dict):
        return isinstance(a, dict) and set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(b, float):
        return type(a) in (int, float) and float(a) == b
    if isinstance(b, tuple):
        # an integer: ort-c-header(1) has it as such, the implementation as text
        return a == b[0] and type(a) is int or a == str(b[0])
    return type(a) is type(b) and a == b


def tagged(cfg, s, o, role, hidden):
    import base64
    out = {}
    for f in s.fields.values():
        v = o[f.name]
        if hidden(cfg, s, f, role):
            continue
        if v is None:
            out[f.name] = None
        elif f.type == "struct":
            out[f.name] = tagged(cfg, cfg.target(f), v, role, hidden)
        elif f.type == "blob":
            out[f.name] = base64.b64encode(v).decode()
        elif isinstance(v, int):
            out[f.name] = (v,)
        else:
            out[f.name] = v
    return out


def pairs(l):
    d = dict(l)
    if len(d) != len(l):
        raise ValueError("a name twice")
    return d


def checker(cfg, s, role):
    """The check of exports for result()."""
    import nodeq

    def check(o, text):
        want = tagged(cfg, s, o, role, nodeq.hidden)
        try:
            got = json.loads(text, object_pairs_hook=pairs)
        except ValueError as e:
            raise Bad("exported as %r: %s" % (text, e))
        if not same(got, want):
            raise Bad("exported as %s, expected %s" % (text, want))
    return check
