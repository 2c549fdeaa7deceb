"""C01: ort-c-header and ort-c-source write C that compiles, in which what is
declared is defined."""
import itertools, os, re, shutil, subprocess, tempfile
import build, cgen, core, q, ref, space

STD = {"c99": ["-std=c99", "-D_XOPEN_SOURCE=700", "-D_DEFAULT_SOURCE"], "gnu11": ["-std=gnu11"]}
ERR = ["-Werror=implicit-function-declaration", "-Werror=incompatible-pointer-types", "-Werror=int-conversion", "-Werror=return-type",
       "-Werror=uninitialized", "-Werror=format", "-Werror=discarded-qualifiers", "-Werror=switch"]
COMPAT = {"jsmn_eq", "jsmn_init", "jsmn_parse"}
KEYWORDS = """auto break case char const continue default do double else enum extern float for goto if inline int long register restrict return short
 signed sizeof static struct switch typedef union unsigned void volatile while""".split()
NAMES = """ctx db p res i j rc parm parms q r t buf toksz sz arg cb role mode id ort stmt src hash tmpint tmpbuf pos main printf malloc free exit
 foo bar x y data array obj iterate insert all none name names entries has json valid jsmn int64 time abs index strlen stdin""".split()


def expected(cfg, fl):
    """Functions a configuration has."""
    out = set()
    for op in q.ops(cfg):
        out.add(op.name)
    for s in cfg.structs.values():
        out.add("db_%s_free" % s.name)
        if "j" in fl:
            out |= {"json_%s_data" % s.name, "json_%s_obj" % s.name}
        if "J" in fl:
            out |= {"jsmn_%s" % s.name, "jsmn_%s_clear" % s.name, "jsmn_%s_array" % s.name, "jsmn_%s_free_array" % s.name}
        if "v" in fl:
            out |= {"valid_%s_%s" % (s.name, f.name) for f in s.fields.values() if f.type != "struct"}
    out |= {"db_open", "db_close", "db_open_logging", "db_logging_data", "db_trans_open", "db_trans_commit", "db_trans_rollback"}
    if cfg.roles:
        out |= {"db_role", "db_role_current"}
    return out


class C01(core.Check):
    id = "C01"
    rule = ("state = (configuration, options); transition = one generation of header and source, both compiled (the header also by itself and twice over), and all functions "
            "declared compared with those defined and with those the configuration has; all statements of the menus and their products, all pairs of "
            "operations, all digraphs of structure references, all literals, all keywords and colliding names in each place a name has, and all options on rich configurations")
    assumptions = ["sqlbox(3), kcgi(3) and kcgijson(3) headers are stood in for by harness/c", "gcc, C99 and GNU C11; warnings that would be errors are listed in mc/c01.py"]

    spaces = {}

    def space(self, tier):
        if tier not in self.spaces:
            self.spaces[tier] = self._space(tier)
        return self.spaces[tier]

    def _space(self, tier):
        deep = tier == "thorough"
        out = []
        for g in space.GROUPS:
            out.append((g, [space.text(g, [s]) for s in space.GROUPS[g]]))
        ops = ["insert;", "insert;", "list;", "list: limit 1;", "list x;", "list y;", "list: name a;", "search id;", "search z;", "iterate x;", "iterate m.mv;", "count;", "count x;", "count x: name a;",
               "update x: id;", "update y: id;", "update x inc: id;", "update x: id: name a;", "update: id;", "update x, y: id;", "update x: y;", "update x: y ge;", "delete id;", "delete x;", "delete: name a;",
               "delete x gt;", "list: distinct m;", "iterate om.mv: distinct om;", "list ns isnull;", "update ns: id;", "update ns: ns isnull;", "count: distinct m;", "search pw, z;", "update pw: id;"]
        out.append(("pairs", [space.foo(a + " " + b) for i, a in enumerate(ops) for j, b in enumerate(ops) if deep or i <= j]))
        P = list(space.products("quick"))
        out.append(("products", P if deep else space.cover(P, ref)))
        V = list(space.values())
        out.append(("values", V if deep else space.cover(V, ref)))
        T = ["bit", "bits bi", "blob", "date", "enum en", "epoch", "email", "int", "password", "real", "text"]
        pre = "enum en { item a; item b; };\nbits bi { item a 0; item b 3; };\n"
        few = []
        for rowid in ("", "field id int rowid; "):
            for a in T:
                for na in ("", " null", " unique", " noexport"):
                    few.append(pre + "struct foo { %sfield a %s%s; list; insert; };\n" % (rowid, a, na))
                for b in T:
                    for na, nb in (("", ""), (" null", ""), ("", " null"), (" null", " null")):
                        if rowid and not deep and (na or nb):
                            continue
                        few.append(pre + "struct foo { %sfield a %s%s; field b %s%s; list; insert; };\n" % (rowid, a, na, b, nb))
        for a in T:
            few.append(pre + "struct foo { field id int rowid; field f:bar.id int; field g struct f; list; insert; };\nstruct bar { field id int rowid; field a %s; };\n" % a)
            few.append(pre + "struct foo { field f:bar.k int null; field g struct f; list; };\nstruct bar { field k int unique; field a %s null; };\n" % a)
            if a != "password":
                few.append(pre + "struct foo { field a %s; search a: limit 1; list a; count a; iterate a; update a: a; delete a; };\n" % a)
        out.append(("few types", few))
        G = []
        for n in (2, 3):
            E = [(a, b) for a in range(n) for b in range(n) if a != b]
            for k in range(0, 4):
                for es in itertools.combinations(E, k):
                    for null in ((), tuple(es[:1]), tuple(es)):
                        G.append(space.graphs(n, range(n), es, null))
                        if deep:
                            G.append(space.graphs(n, range(n)[::-1], es, null))
        qs = "list; search id; insert; iterate: name i;"
        G = list(dict.fromkeys(G))
        out.append(("graphs", [g for g in G] + [g.replace("};", qs + " };") for g in G]))
        N = []
        for w in KEYWORDS + NAMES:
            N.append("struct %s { field id int rowid; field v text null; field k int; list k: name a; insert; update k: id; };\nstruct other { field id int rowid; field r:%s.id; field rr struct r; list; };\n" % (w, w))
            N.append("struct foo { field id int rowid; field %s text null; field kk int limit gt 1; list %s: name a; insert; update %s: id; search id; iterate kk; delete %s isnull; };\n" % (w, w, w, w))
            N.append("struct tgt { field id int rowid; field %s int; };\nstruct foo { field id int rowid; field tid:tgt.id int null; field %s struct tid; list; search %s.%s; insert; };\n" % (w, w, w, w))
            N.append("enum %s { item a; item b 4; };\nstruct foo { field id int rowid; field v enum %s; field w enum %s null; insert; list v; };\n" % (w, w, w))
            N.append("enum en { item %s; item b 4; };\nbits bi { item %s 0; item b 1; };\nstruct foo { field id int rowid; field v enum en default %s; field w bits bi; insert; list v; };\n" % (w, w, w))
            N.append("bits %s { item a 0; item b 1; };\nstruct foo { field id int rowid; field v bits %s; insert; list v; };\n" % (w, w))
            N.append("roles { role %s; role rz; };\nstruct foo { field id int rowid; field v int; insert; list v: name %s; update v: id: name %s; delete: name %s; roles %s { all; noexport v; }; };\n" % (w, w, w, w, w))
        N.append("roles { role user; };\nenum role { item none; item user; };\nstruct foo { field id int rowid; field k enum role; insert; roles all { all; }; };\n")
        N.append("roles { role user; };\nbits role { item default 1; item user 3; };\nstruct foo { field id int rowid; field k bits role; insert; roles all { all; }; };\n")
        N.append("roles { role user; };\nenum role { item a; item ab; };\nbits roles { item user 1; };\nstruct foo { field id int rowid; field k enum role; insert; roles all { all; }; };\n")
        out.append(("names", N))
        return out

    OPTS = ["".join(c) for k in range(4) for c in itertools.combinations("jJv", k)]

    def jobs(self, tier):
        out = []
        for n, ts in self.space(tier):
            for i in range(0, len(ts), 25):
                out.append((n, i, i + 25))
        for i in range(len(self.rich())):
            for fl in self.OPTS:
                out.append(("options", i, fl))
        return out

    def rich(self):
        th = dict((n, t) for n, t, _ in q.themes("quick"))
        R = [th["wide"], [t for n, t in th.items() if n.startswith("nested")][0], [t for n, t in th.items() if n.startswith("type password")][0],
             "struct foo { field x int; };\n",
             "roles { role a { role b; }; };\n struct foo { field id int rowid; field x enum en null; field b blob limit gt 3; field f:bar.id int null; field s struct f; list; insert; roles a { list; insert; }; };\n"
             "struct bar { field id int rowid; field t text; roles b { noexport t; }; };\nenum en { item z; };\nbits bi { item q 1; };\n"]
        return R

    def job(self, env, acc, tier, j):
        if j[0] == "options":
            text = self.rich()[j[1]]
            for safe in (0, 1):
                for std in STD:
                    for split in (0, 1):
                        for key, what in self.one(env, acc, text, j[2], safe, std, split):
                            acc.find(key, what, {"config": text, "fl": j[2], "safe": safe, "std": std, "split": split})
            return
        ts = dict(self.space(tier))[j[0]][j[1]:j[2]]
        for i, text in enumerate(ts):
            for key, what in self.one(env, acc, text, "jJv", i % 2, "gnu11" if i % 3 else "c99", 0):
                acc.find(key, what, {"config": text, "fl": "jJv", "safe": i % 2, "std": "gnu11" if i % 3 else "c99", "split": 0})
        acc.sample("%s: %d configurations" % (j[0], len(ts)), 1)

    def one(self, env, acc, text, fl, safe, std, split):
        cfg, err = ref.accepts([("a.ort", text)])
        if cfg is None:
            acc.n["not accepted"] += 1
            return
        acc.n["evaluations"] += 1
        acc.n["transitions"] += 1
        acc.state(repr((text, fl, safe, std, split)))
        raw = text.encode("utf-8", "surrogateescape")
        sf = ["-s"] if safe else []
        d = tempfile.mkdtemp(prefix="c01-", dir=build.BASE)
        try:
            hs = []
            if split:
                # data, database and each of the others in headers of their own
                parts = [("data.h", ["-N", "d", "-g", "DATA_H"] + sf), ("dbin.h", ["-N", "b", "-g", "DBIN_H"] + sf)]
                parts += [("x%s.h" % c, ["-N", "bd", "-g", "X%s_H" % c, "-" + c] + sf) for c in fl]
            else:
                parts = [("db.h", (["-" + fl] if fl else []) + sf)]
            for n, a in parts:
                r = env.run("ort-c-header", a, [], raw)
                if r.status:
                    yield "tool", "ort-c-header %s fails: %r; in\n%s" % (" ".join(a), r.err[-200:], text)
                    return
                hs.append(n)
                with open(d + "/" + n, "wb") as f:
                    f.write(r.out)
            inc = "d" + fl.replace("J", "")
            srcs = [("db.c", (["-" + fl] if fl else []) + ["-I", inc, "-h", ",".join(hs), "-S", cgen.share(env)])]
            if split:
                srcs = [("db.c", ["-I", inc, "-h", ",".join(hs), "-S", cgen.share(env)])]
                srcs += [("x%s.c" % c, ["-N", "d", "-" + c, "-I", inc, "-h", ",".join(hs), "-S", cgen.share(env)]) for c in fl]
            decl, defd = set(), []
            for n, a in srcs:
                r = env.run("ort-c-source", a, [], raw)
                if r.status:
                    yield "tool", "ort-c-source %s fails: %r; in\n%s" % (" ".join(a), r.err[-200:], text)
                    return
                with open(d + "/" + n, "wb") as f:
                    f.write(r.out)
                e, aux = self.cc(d, n, std, ["-include", cgen.HC + "/pre.h"])
                if e and cfg.roles and clash(cfg) and "redeclaration of enumerator ‘ROLE_" in e:
                    yield "role item", "items of %s are named as roles are: %s; in\n%s" % (clash(cfg), e, text)
                    return
                if e:
                    yield "source:" + kind(e), "%s, of ort-c-source %s, does not compile: %s; in\n%s" % (n, " ".join(a[:-2]), e, text)
                    return
                for m in re.finditer(r"/\* (\S+?):\d+:(\w+) \*/ (.*)", aux):
                    nm = re.search(r"(\w+) \(", m.group(3))
                    if nm is None:
                        continue
                    nm = nm.group(1)
                    if os.path.basename(m.group(1)) in hs and m.group(2)[1] == "C" and " extern " in " " + m.group(3):
                        decl.add(nm)
                    elif os.path.basename(m.group(1)) == n and m.group(2)[1] == "F" and " extern " in " " + m.group(3):
                        defd.append(nm)
            for n in sorted(decl - set(defd)):
                yield "undefined", "%s is declared but not defined, with -%s; in\n%s" % (n, fl, text)
                return
            for n in sorted(set(n for n in defd if defd.count(n) > 1)):
                yield "twice", "%s is defined in several sources; in\n%s" % (n, text)
                return
            want = expected(cfg, fl)
            for n in sorted(want - decl):
                yield "missing", "%s is not declared, with -%s; in\n%s" % (n, fl, text)
                return
            for n in sorted(set(defd) - decl):
                yield "undeclared", "%s is defined but not declared, with -%s; in\n%s" % (n, fl, text)
                return
            with open(d + "/h.c", "w") as f:
                f.write("#include <sys/types.h>\n#include <sys/queue.h>\n#include <stdarg.h>\n#include <stdint.h>\n#include <stdio.h>\n")
                if "j" in fl or "v" in fl:
                    f.write("#include <kcgi.h>\n#include <kcgijson.h>\n")
                for n in hs + hs:
                    f.write("#include \"%s\"\n" % n)
            e, aux = self.cc(d, "h.c", std, [])
            if e:
                yield "header:" + kind(e), "the header, with -%s, by itself does not compile: %s; in\n%s" % (fl, e, text)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    @staticmethod
    def cc(d, n, std, more):
        r = subprocess.run(["gcc", "-fsyntax-only", "-Wall", "-Wno-error", "-aux-info", "aux", "-I" + cgen.HC, "-I."] + STD[std] + ERR + more + [n],
                           cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        if r.returncode:
            t = r.stderr.decode("utf-8", "replace")
            return "; ".join([l for l in t.splitlines() if "error" in l][:3])[:500] or t[-300:], ""
        with open(d + "/aux", encoding="utf-8", errors="replace") as f:
            return None, f.read()

    def judge(self, env, case):
        return list(self.one(env, core.Acc(), case["config"], case["fl"], case["safe"], case["std"], case["split"]))


def clash(cfg):
    """Enumerations or bitfields with items having the constant of a role."""
    R = set(cfg.roles) | {"none", "default"}
    return [n for n, o in list(cfg.enums.items()) + list(cfg.bits.items()) if n == "role" and R & set(i.name for i in o.items)]


def kind(e):
    """What an error is about, without names."""
    m = re.search(r"error: (.*)", e)
    return re.sub(r"‘[^’]*’|'[^']*'|\d+", "_", m.group(1) if m else e)[:60]


if __name__ == "__main__":
    core.main(C01())
