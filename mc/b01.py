"""B01: what's promised is so however many there are, and however long."""
import core, faults, nodeq, q, ref, x01
import c01, d01, g06, j01, k01, m01, n01, r01, s01, u01

TYPES = ("int", "text null", "enum en", "real", "bits bi null", "epoch", "blob null", "bit", "email null", "date")
EB = "enum en { item a 1; item b; };\nbits bi { item p 0; item q 3; };\n"


def lst(f, n, sep=" "):
    return sep.join(f(i) for i in range(n))


def fields(n):
    return EB + "struct foo { field id int rowid; %s insert; list; search id; iterate f0: name i; update: id; update %s: id: name u; delete f0; };\n" % (
        lst(lambda i: "field f%d %s;" % (i, TYPES[i % len(TYPES)]), n), lst(lambda i: "f%d" % i, n, ", "))


def structs(n):
    return EB + lst(lambda i: "struct s%d { field id int rowid; field a int; insert; list a; };\n" % i, n, "")


def chain(n):
    return "struct s0 { field id int rowid; field a int; };\n" + lst(lambda i: "struct s%d { field id int rowid; field r:s%d.id int%s; field x struct r; insert; list; list %sa: name l order %sid; };\n" % (
        i + 1, i, "", "x." * (i + 1), "x." * (i + 1)), n, "")


def refs(n):
    return "struct tgt { field id int rowid; field a int; };\nstruct foo { field id int rowid; %s insert; list: name all; list x%d.a, x0.a: order x%d.id name l; list: distinct x%d name d; };\n" % (
        lst(lambda i: "field r%d:tgt.id int%s; field x%d struct r%d;" % (i, " null" if i % 4 == 3 and i < n - 1 else "", i, i), n), n - 1, n - 1, n - 1)


def fan(n):
    return "struct z { field id int rowid; field a int; };\nstruct y { field id int rowid; %s };\nstruct x { field id int rowid; %s list w%d.x%d.a: name l; search w0.x%d.id, id: name s; insert; };\n" % (
        lst(lambda i: "field r%d:z.id int; field x%d struct r%d;" % (i, i, i), n), lst(lambda i: "field q%d:y.id int; field w%d struct q%d;" % (i, i, i), n), n - 1, n - 1, n - 1)


def aliases(n):
    return "struct z { field id int rowid; field a int; };\n" + lst(lambda i: "struct y%d { field id int rowid; %s list x9.a: name l; };\n" % (
        i, lst(lambda k: "field r%d:z.id int; field x%d struct r%d;" % (k, k, k), 10)), n, "")


def items(n):
    return "enum en { %s };\nstruct foo { field id int rowid; field e enum en default i%d; insert; list e; };\n" % (lst(lambda i: "item i%d%s jslabel \"l%d\";" % (i, " %d" % (-i * 1000) if i % 5 == 4 else "", i), n), n - 1)


def enums(n):
    return lst(lambda i: "enum e%d { item a %d; item b; };\n" % (i, i), n, "") + "struct foo { field id int rowid; %s insert; };\n" % lst(lambda i: "field f%d enum e%d;" % (i, i), n)


def bits(n):
    n = min(n, 64)
    return "bits bi { %s };\nstruct foo { field id int rowid; field e bits bi; insert; list e; };\n" % lst(lambda i: "item i%d %d jslabel \"l%d\";" % (i, i, i), n)


def bitfs(n):
    return lst(lambda i: "bits e%d { item a %d; };\n" % (i, i % 64), n, "") + "struct foo { field id int rowid; %s insert; };\n" % lst(lambda i: "field f%d bits e%d;" % (i, i), n)


def wide(n):
    return "roles { %s };\nstruct foo { field id int rowid; field t text; %s insert; roles all { insert; }; };\n" % (
        lst(lambda i: "role r%d;" % i, n), lst(lambda i: "list t: name l%d; roles r%d { list l%d; noexport t; };" % (i, i, i), n))


def deep(n):
    return "roles { %s %s };\nstruct foo { field id int rowid; field t text; list t: name l; search id: name s; insert; roles r0 { list l; }; roles r%d { search s; noexport t; }; roles r%d { insert; }; };\n" % (
        lst(lambda i: "role r%d {" % i, n), "};" * n, n - 1, n // 2)


def rolelist(n):
    return "roles { %s };\nstruct foo { field id int rowid; field t text; list t: name l; insert; roles %s { list l; insert; noexport t; }; };\n" % (lst(lambda i: "role r%d;" % i, n), lst(lambda i: "r%d" % i, n, ", "))


def lname(i):
    return "l" + chr(97 + i // 26) + chr(97 + i % 26)


def langs(n):
    return "enum en { item a jslabel \"A\" %s; item b jslabel \"B\" jslabel.%s \"last\"; isnull jslabel.%s \"n\" jslabel \"N\"; };\nstruct foo { field e enum en null; };\n" % (
        lst(lambda i: "jslabel.%s \"t%d\"" % (lname(i), i), n), lname(n - 1), lname(n // 2))


def queries(n):
    return "struct foo { field id int rowid; field a int; field b text; %s };\n" % lst(lambda i: ("list a, b: name q%d;", "search id: name q%d;", "iterate b: name q%d;", "count a: name q%d;")[i % 4].replace("%d", str(i)), n)


def updates(n):
    return "struct foo { field id int rowid; field a int; field b text; %s };\n" % lst(lambda i: ("update a: id: name q%d;", "delete id, a: name q%d;", "update b, a: b: name q%d;")[i % 3].replace("%d", str(i)), n)


def terms(n):
    return "struct foo { field id int rowid; %s insert; list %s: name l; search %s, id: name s; count %s: name c; delete %s: name d; update f0 inc: %s: name u; };\n" % (
        lst(lambda i: "field f%d %s;" % (i, ("int", "text null", "real")[i % 3]), n), lst(lambda i: "f%d%s" % (i, ("", " isnull", " ge")[i % 3]), n, ", "), lst(lambda i: "f%d" % i, n, ", "),
        lst(lambda i: "f%d%s" % (i, (" lt", " notnull", "")[i % 3]), n, ", "), lst(lambda i: "f%d%s" % (i, ("", " neq", "")[i % 3]), n, ", "), lst(lambda i: "f%d" % i, n, ", "))


def orders(n):
    return "struct foo { field id int rowid; %s list: name l order %s limit 3; };\n" % (lst(lambda i: "field f%d;" % i, n), lst(lambda i: "f%d%s" % (i, ("", " desc")[i % 2]), n, ", "))


def uniques(n):
    return "struct foo { field id int rowid; field z int; %s insert; %s };\n" % (lst(lambda i: "field f%d int;" % i, n), lst(lambda i: "unique z, f%d;" % i, n))


def unique(n):
    return "struct foo { field id int rowid; field z int; %s insert; unique z, %s; search z, %s: name s; };\n" % (lst(lambda i: "field f%d int;" % i, n), lst(lambda i: "f%d" % i, n, ", "), lst(lambda i: "f%d" % i, n, ", "))


def limits(n):
    return "struct foo { field id int rowid; field a int %s; field t text %s; insert; };\n" % (lst(lambda i: "limit ge %d" % -i, n), lst(lambda i: "limit le %d" % (i + 5), n))


def passwords(n):
    return "struct foo { field id int rowid; %s insert; search id, %s: name s; update %s: id; };\n" % (lst(lambda i: "field p%d password;" % i, n), lst(lambda i: "p%d" % i, n, ", "), lst(lambda i: "p%d%s" % (i, ("", " strset")[i % 2]), n, ", "))


COUNTS = dict((f.__name__, f) for f in (fields, structs, chain, refs, fan, aliases, items, enums, bits, bitfs, wide, deep, rolelist, langs, queries, updates, terms, orders, uniques, unique, limits, passwords))
MAX = {"chain": 12, "fan": 7, "bits": 64, "refs": 40, "passwords": 20, "aliases": 70}
ALL = "roles { role %(r)s comment \"%(c)s\"; };\nenum %(e)s { item %(i)s jslabel \"%(l)s\" comment \"%(c2)s\"; };\n" \
    "struct %(s)s { field id int rowid; field %(f)s text default \"%(d)s\"; field e enum %(e)s; list %(f)s: name %(q)s comment \"%(c3)s\"; search id:%(w)s name z; insert; roles %(r)s { list %(q)s; insert; }; };%(h)s\n"
SLOTS = {"r": "ra", "e": "en", "i": "it", "s": "foo", "f": "fd", "q": "qn", "l": "label", "d": "text", "c": "one", "c2": "two", "c3": "three", "w": " ", "h": ""}


def long(slot, n):
    d = dict(SLOTS)
    if slot == "w":
        d["w"] = (" \t\n" * n)[:n]
    elif slot == "h":
        d["h"] = "#" + "z" * (n - 1) + "\n"
    elif slot in ("c", "c2", "c3", "l", "d"):
        d[slot] = (("word " if slot != "c2" else "w\\\"") * n)[:n]
        if d[slot].endswith(("\\", " ")):
            d[slot] = d[slot][:-1] + "x"
    else:
        d[slot] = ("n" + "abcdefghij" * (n // 10 + 1))[:n]
    return ALL % d


EDGE = sorted(set(list(range(1, 70)) + [x + k for x in (128, 256, 512, 1024, 2048, 4096, 8192, 16384, 65536) for k in (-3, -2, -1, 0, 1, 2, 3)]))


class B01(core.Check):
    id = "B01"
    rule = ("state = (what there's a number of, or is long, and how many or how long); transition = one output read back, or call of a generated function, and judged as the other properties do. Every number up to 70 "
            "for what's printed and JSON, and those around powers of ten, two and 26 for all else; every length up to 70, and those around the powers of two up to 65536")
    assumptions = ["SQLite joins no more than 64 tables", "lengths around powers of two stand for those between them"]
    variants = ["fast", "asan"]

    def setup(self, bld, tier):
        self.sub = {}
        for c in (g06.G06, j01.J01, s01.S01, d01.D01, r01.R01, k01.K01, m01.M01, n01.N01, u01.U01, c01.C01, x01.X01):
            o = c()
            self.sub[c.id] = o
            if hasattr(c, "setup"):
                o.setup(bld, tier)

    def jobs(self, tier):
        T = tier == "thorough"
        pick = [1, 2, 3, 8, 9, 10, 11, 12, 16, 17, 25, 26, 27, 28, 31, 32, 33, 34, 63, 64, 65, 66] if T else [9, 10, 11, 26, 27, 33, 65]
        out = []
        for k in COUNTS:
            m = MAX.get(k, 66)
            out.append(("read", k, 1, m))
            for n in sorted(set(p for p in pick if p <= m) | {m}):
                out.append(("all", k, n))
        for s in SLOTS:
            out.append(("long", s))
            for n in ((32, 64, 65, 128, 256, 1024, 4096) if T else (65, 1025)):
                if s in "resfqi" and n > 1000:
                    continue
                out.append(("alllong", s, n))
        out += [("files", 0), ("xliff", 0), ("aliases", 0)]
        return sorted(out, key=lambda j: {"all": 0, "alllong": 1}.get(j[0], 2))

    def text(self, j):
        return COUNTS[j[0]](j[1]).replace("; ", ";\n").replace("{ role ", "{\nrole ") if j[0] in COUNTS else long(j[0], j[1])

    def job(self, env, acc, tier, j):
        if j[0] == "read":
            for n in range(j[2], j[3] + 1):
                self.go(env, acc, {"what": [j[1], n], "how": ["read", "diff"]})
        elif j[0] == "long":
            for n in EDGE if tier == "quick" else sorted(set(EDGE) | set(range(1, 1100))):
                self.go(env, acc, {"what": [j[1], n], "how": ["read"]})
        elif j[0] in ("all", "alllong"):
            self.go(env, acc, {"what": [j[1], j[2]], "how": ["read", "sql", "c", "node", "web", "rust", "man", "docs", "audit", "run", "tools"]})
        elif j[0] == "files":
            for n in range(1, 70):
                self.go(env, acc, {"files": n, "how": ["read"]})
        elif j[0] == "aliases":
            # past 26 * 26
            for n in (67, 68, 69, 135, 136):
                self.go(env, acc, {"what": ["aliases", n], "how": ["run"]})
        else:
            for n in range(1, 70):
                self.go(env, acc, {"xliff": n, "how": ["xliff"]})

    def go(self, env, acc, case):
        if not acc.state(repr(case)):
            return
        for h in case["how"]:
            acc.n[h] += 1
            acc.n["transitions"] += 1
            acc.n["evaluations"] += 1
            self.check(env, acc, dict(case, how=[h]))

    def files(self, case):
        if "files" in case:
            n = case["files"]
            return [["f%d.ort" % i, ("enum e%d { item a; };\nstruct s%d { field id int rowid; field e enum e%d; };\n" % (i, i, (i + 1) % n))] for i in range(n)]
        return [["a.ort", self.text(case["what"])]]

    def judge(self, env, case):
        show = "%s of %s" % (case["how"][0], case.get("what") or case)
        for k, w in self.one(env, case):
            yield "%s:%s:%s" % (case["how"][0], case["what"][0] if "what" in case else "", k), "%s: %s" % (show, w[:1200])

    def one(self, env, case):
        S, how = self.sub, case["how"][0]
        if "xliff" in case:
            n = case["xliff"]
            t = "enum en { %s };\nstruct foo { field e enum en; };\n" % lst(lambda i: "item i%d jslabel \"l%d\";" % (i, i), n)
            units = [[str(i + 1), "l%d" % i, "t%d" % i] for i in range(n)]
            for c in (0, 1):
                yield from S["X01"].judge(env, {"op": "x", "files": [["a.ort", t]], "copy": c})
                for us in (units, units[:-1], units[::-1], units[1:] + [["z", "other", "o"]]):
                    for op in "ju":
                        yield from S["X01"].judge(env, {"op": op, "files": [["a.ort", t]], "copy": c, "xl": [{"units": us, "style": 3}]})
            return
        fs = self.files(case)
        t = fs[0][1]
        cfg, err = ref.accepts([tuple(f) for f in fs])
        if cfg is None:
            raise Exception("%r is not accepted: %s" % (case, err))
        if how == "read":
            yield from S["G06"].judge(env, {"files": fs})
            yield from S["J01"].judge(env, {"files": fs})
        elif how == "diff":
            k, n = case["what"]
            if n > 1:
                o = self.text([k, n - 1])
                yield from S["D01"].judge(env, {"old": o, "new": t})
                yield from S["D01"].judge(env, {"old": t, "new": o})
                yield from S["D01"].judge(env, {"old": t, "new": t})
        elif how == "sql":
            yield from S["S01"].judge(env, {"text": t})
        elif how == "c":
            yield from S["C01"].judge(env, {"config": t, "fl": "jJv", "safe": 0, "std": "gnu11", "split": 0})
        elif how in ("node", "web"):
            yield from S["N01"].judge(env, {"config": t, "tool": how, "opt": "v" if how == "node" else ""})
        elif how == "rust":
            yield from S["U01"].judge(env, {"config": t})
        elif how == "man":
            yield from S["M01"].judge(env, {"config": t, "fl": "jJv"})
        elif how == "docs":
            yield from S["K01"].judge(env, {"config": t, "fl": "jJv"})
        elif how == "audit":
            rs = list(cfg.roles or [])
            for r in rs[:1] + rs[len(rs) // 2:len(rs) // 2 + 1] + rs[-1:]:
                yield from S["R01"].judge(env, {"text": t, "role": r})
        elif how == "run":
            yield from self.run(env, cfg, t)
        elif how == "tools":
            for name in faults.TOOLS:
                tool, args, files, inp = faults.inputs(env, name, [t], 0)
                r = env.run(tool, args, files, inp, variant="asan")
                if r.crashed:
                    yield "crash " + tool, "%s %s crashes: %r" % (tool, " ".join(args), r.err[-300:])
                elif r.live:
                    yield "leak " + tool, "%s %s keeps %d allocations" % (tool, " ".join(args), r.live)

    def run(self, env, cfg, t):
        """Every operation, with one row in each table and without."""
        if cfg.roles:
            return
        n, fns, err = nodeq.module(env, cfg, t)
        if err:
            yield "load", err
            return
        dom = {}
        for s in cfg.structs.values():
            for f in s.fields.values():
                if f.type != "struct" and not getattr(f, "rowid", False):
                    v = [1] if f.ref is not None else list(q.DOM[f.type])[:1]
                    dom["%s.%s" % (s.name, f.name)] = v
        dbs = list(q.states(cfg, {"rows": dict((s, (1, 1)) for s in cfg.structs), "dom": dom}))[:1] + list(q.states(cfg, {"rows": dict((s, (0, 0)) for s in cfg.structs), "dom": dom}))[:1]
        calls = []
        for oi, op in enumerate(q.ops(cfg)):
            d = op.domain({})
            base = [x[0] for x in d]
            calls.append((op, tuple(base)))
            for i, x in enumerate(d):
                if len(x) > 1:
                    calls.append((op, tuple(base[:i] + [x[1]] + base[i + 1:])))
        enc = [nodeq.enccall(op, a) for op, a in calls]
        for db, rs in zip(dbs, nodeq.explore(env, cfg, dbs, enc)):
            for (op, a), r in zip(calls, rs):
                w = q.judge(cfg, db, op, a, nodeq.result(cfg, op, r), fns)
                if w:
                    yield "%s:%s" % (w[0], op.kind), w[1][:900]
                    return


if __name__ == "__main__":
    core.main(B01())
