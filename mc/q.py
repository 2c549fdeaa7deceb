"""Spaces of configurations, database contents and operations, shared by the
checks of the generated data access; what an operation must give is decided
by dataref."""
import itertools, json, re
import dataref as dr, ref

DOM = {"int": [-2, 1, 3], "bit": [0, 1, 6], "enum": [1, -4], "bits": [0, 1, 9], "real": [-0.5, 1.0, 2.25],
       "text": ["", "aB", "b'%"], "email": ["a@b.cd", "A@b.cd"], "password": ["p", "Q"], "blob": [b"", b"a\x00\xff", b"b"],
       "date": [0, 86400 * 400, -86400], "epoch": [-1, 0, 1 << 33]}
LIKES = ["a_", "%b%", "AB", "", "%", "b'\\%"]


class Op:
    """An operation: what it is, the fields its parameters are of."""

    def __init__(self, cfg, s, kind, o):
        self.cfg, self.s, self.kind, self.o = cfg, s, kind, o
        self.write = kind in ("insert", "update", "delete")
        if kind == "insert":
            self.params = [(f, "insert") for f in dr.cols(s) if not f.rowid]
        elif self.write:
            self.params = [(s.fields[n], m) for n, m in o.mods] if kind == "update" else []
            self.params += dr.params(cfg, s, [([n], op) for n, op in o.cons])
        else:
            self.params = dr.params(cfg, s, o.terms)
            # the password to verify comes where its term is
        self.name = self.opname()

    def opname(self):
        o, k = self.o, self.kind
        b = "db_%s_%s" % (self.s.name, "get" if k == "search" else k)
        if k == "insert":
            return b
        if o.name is not None:
            return b + "_" + o.name
        if k in ("update", "delete"):
            if k == "update" and not o.all:
                b += "".join("_%s_%s" % (n, "cat" if m == "concat" else m) for n, m in o.mods)
            if o.cons:
                b += "_by" + "".join("_%s_%s" % (n, op) for n, op in o.cons)
            return b
        if o.terms:
            b += "_by" + "".join("_%s_%s" % ("_".join(p), op) for p, op in o.terms)
        return b

    def result(self):
        """The structure that results are of."""
        s = self.s
        if not self.write and self.o.distinct not in (None, ["."]):
            for n in self.o.distinct:
                s = self.cfg.target(s.fields[n])
        return s

    def domain(self, dom):
        out = []
        for f, how in self.params:
            k = "%s.%s" % (f.parent.name, f.name)
            if how == "like":
                v = list(dom.get("like", LIKES))
            elif how in ("inc", "dec"):
                v = [2, -1] if f.type != "real" else [0.5, -2.0]
            elif how == "concat":
                v = ["", "x'"] if f.type != "blob" else [b"z\x00"]
            elif f.type == "password" and how in ("streq", "strneq", "strset"):
                v = [dr.HASH + "p", "p"]
            elif how in ("insert", "set"):
                v = list(dom.get(k + "!", dom.get(k, DOM[f.type])))
            else:
                v = list(dom.get(k + "?", dom.get(k, DOM[f.type])))
            if f.ref is not None and k not in dom:
                v = [1, 2, 5] if f.type != "text" else ["", "aB", "zz"]
            if f.rowid:
                v = [1, 2, 4]
            if f.null and None not in v:
                v.append(None)
            out.append(v)
        return out

    def calls(self, dom, cap):
        d = self.domain(dom)
        n = 1
        for v in d:
            n *= len(v)
        if n <= cap:
            return list(itertools.product(*d)), True
        # every pair of parameters, the others at their first value
        out = []
        for i, j in itertools.combinations(range(len(d)), 2):
            for x in d[i]:
                for y in d[j]:
                    a = [v[0] for v in d]
                    a[i], a[j] = x, y
                    if tuple(a) not in out:
                        out.append(tuple(a))
        return out, False


def ops(cfg):
    out = []
    for s in cfg.structs.values():
        if s.insert:
            out.append(Op(cfg, s, "insert", None))
        for q in s.queries:
            out.append(Op(cfg, s, q.kind, q))
        for u in s.updates + s.deletes:
            out.append(Op(cfg, s, u.kind, u))
    return out


def states(cfg, th):
    """All contents of the tables within the bounds of a theme."""
    dom, rows = th.get("dom", {}), th.get("rows", {})
    per = []
    names = dr.tables(cfg)
    for n in names:
        s = cfg.structs[n]
        cols = dr.cols(s)
        vals = []
        for f in cols:
            k = "%s.%s" % (n, f.name)
            if f.rowid:
                v = [None]
            elif k in dom:
                v = list(dom[k])
            elif f.ref is not None:
                v = [1, 2] if f.type != "text" else ["", "aB"]
            else:
                v = list(DOM[f.type])
            if f.type == "password":
                v = [x if x is None else dr.HASH + x for x in v]
            if f.null and k not in dom:
                v.append(None)
            vals.append(v)
        lo, hi = rows.get(n, (0, 2))
        opts = []
        one = [dict(zip([f.name for f in cols], c)) for c in itertools.product(*vals)]
        for k in range(lo, hi + 1):
            for ids in th.get("ids", [list(range(1, hi + 1))]):
                for rs in itertools.product(one, repeat=k):
                    l = []
                    for i, r in zip(ids, rs):
                        r = dict(r)
                        for f in cols:
                            if f.rowid:
                                r[f.name] = i
                        l.append(r)
                    if l not in opts:
                        opts.append(l)
        per.append(opts)
    for c in itertools.product(*per):
        db = dict(zip(names, c))
        try:
            dr.check(cfg, db)
        except dr.Conflict:
            continue
        yield db


def judge(cfg, db, op, args, r, names=None):
    """What is wrong with the result r of an operation, as (key, text).

    r: {"missing"} | {"abort"} | {"error": text, "code"} | {"rows"} | {"row"} |
    {"value"}, with "db" after modifications."""
    what = "%s(%s) on %s" % (op.name, ", ".join(map(repr, args)), show(db))
    if "missing" in r:
        return "missing", "there is no %s; functions: %s" % (op.name, names)
    if "abort" in r:
        return "abort", "%s ends the process" % what
    if not op.write:
        if "error" in r:
            return "error", "%s fails: %s" % (what, r["error"])
        if "type" in r:
            return "type", "%s: %s" % (what, r["type"])
        if not {"value", "row", "rows"} & set(r):
            raise Exception("%s: %r" % (what, r))
        got = r["value"] if op.kind == "count" else r["row"] if op.kind == "search" else r["rows"]
        e = dr.judge_query(cfg, db, op.s.name, op.o, args, op.kind, got)
        if e:
            k = "result"
            if op.o.group is not None:
                k = "group"
            return k + ":" + op.kind, "%s %s" % (what, e)
        return None
    if "type" in r:
        return "type", "%s: %s" % (what, r["type"])
    row = None
    try:
        if op.kind == "insert":
            new, row = dr.insert(cfg, db, op.s.name, args)
        elif op.kind == "delete":
            new = dr.delete(cfg, db, op.s.name, op.o, args)
        else:
            new = dr.update(cfg, db, op.s.name, op.o, args)
        conflict = None
    except dr.Conflict as e:
        new, conflict = db, str(e)
    except dr.Undetermined:
        return None
    if conflict == "null":
        # not null is not among the constraints whose failure is a result
        if "error" not in r and not (op.kind == "update" and r.get("value") is False) and not (op.kind == "insert" and r.get("value") == -1):
            return "null", "%s: nothing said" % what
    elif op.kind == "insert":
        if "error" in r:
            return "error", "%s fails: %s" % (what, r["error"])
        if conflict:
            if r["value"] != -1:
                return "insert", "%s gives %r, expected -1 (%s)" % (what, r["value"], conflict)
        elif op.s.rowid and r["value"] != row[op.s.rowid.name if hasattr(op.s.rowid, "name") else op.s.rowid]:
            return "insert", "%s gives %r, expected the identifier %r" % (what, r["value"], row)
    elif op.kind == "update":
        if "error" in r:
            return "error", "%s fails: %s" % (what, r["error"])
        if r["value"] is not (conflict is None):
            return "update", "%s gives %r, expected %r (%s)" % (what, r["value"], conflict is None, conflict)
    else:
        if conflict and "error" not in r:
            return "delete", "%s does not fail, expected failure: %s" % (what, conflict)
        if not conflict and "error" in r:
            return "error", "%s fails: %s" % (what, r["error"])
    if "db" not in r:
        return None
    a, b = canon(cfg, r["db"]), canon(cfg, new)
    if a != b:
        return "contents:" + op.kind, "%s leaves %s, expected %s" % (what, show(r["db"]), show(new))
    return None


def canon(cfg, db):
    return {n: sorted(repr([dr.freeze(r[f.name]) for f in dr.cols(cfg.structs[n])]) for r in db[n]) for n in cfg.structs}


def show(db):
    return "{" + "; ".join("%s: %s" % (n, ", ".join("(" + ", ".join("%s=%r" % (k, v) for k, v in r.items()) + ")" for r in rs))
                           for n, rs in db.items()) + "}"


# ---- configurations ------------------------------------------------------

HEAD = "enum en { item a 1; item b -4; }; bits bi { item p 0; item q 3; };\n"
CMP = ["eq", "neq", "lt", "gt", "le", "ge", "streq", "strneq"]
TYPES = ["int", "bit", "enum en", "bits bi", "real", "text", "email", "password", "blob", "date", "epoch"]


def opsfor(t, null):
    t = t.split()[0]
    if t == "password":
        o = ["eq", "neq", "streq", "strneq"]
    else:
        o = list(CMP)
        if t in ("int", "bit", "bits"):
            o += ["and", "or"]
        if t in ("text", "email"):
            o += ["like"]
    return o + (["isnull", "notnull"])


def modsfor(t):
    t = t.split()[0]
    m = ["set"]
    if t in ("text", "email"):
        m += ["concat"]
    if t in ("int", "bit", "bits", "real", "date", "epoch"):
        m += ["inc", "dec"]
    if t == "password":
        m += ["strset"]
    return m


def themes(tier):
    """(name, configuration text, bounds)"""
    deep = tier == "thorough"
    out = []
    # every type with every operator, in every kind of operation
    for t in TYPES:
        for null in (False, True):
            L = []
            for i, o in enumerate(opsfor(t, null)):
                L.append("list x %s: name l%d;" % (o, i) if i % 2 else "list x %s;" % o)
                L.append("iterate x %s: name i%d;" % (o, i))
                L.append("search x %s: limit 1 name s%d;" % (o, i))
                if not (t == "password" and o in ("eq", "neq")):
                    L.append("count x %s;" % o if i % 2 else "count x %s: name c%d;" % (o, i))
                    L.append("update k: x %s: name u%d;" % (o, i))
                    L.append("delete x %s;" % o if i % 2 else "delete x %s: name d%d;" % (o, i))
            for m in modsfor(t):
                L.append("update x %s: id: name m%s;" % (m, m))
                L.append("update x %s;" % m)
            out.append(("type %s%s" % (t, " null" if null else ""), HEAD +
                        "struct foo { field id int rowid; field x %s%s; field k int; insert; list; count; iterate; delete: name all; update: id: name all;\n%s };\n" % (
                            t, " null" if null else "", "\n".join(L)),
                        {"rows": {"foo": (0, 2 if not deep else 3)}, "dom": {"foo.k": [7], "foo.k?": [7], "foo.k!": [7, 8]}}))
    # extreme values
    out.append(("wide", HEAD + "struct foo { field id int rowid; field x int; field y real; field t text; insert; list x; list y; list t; update x, y, t: id; list x lt; list: order x name o; };\n",
                {"rows": {"foo": (0, 2)}, "dom": {"foo.x": [-(1 << 63), (1 << 63) - 1, (1 << 53) + 1, 1 << 53],
                 "foo.y": [1e308, 0.1], "foo.t": ["\u00e9\U0001f600'\"\\\n", "$(x)"]}}))
    # structures within structures: order of declaration, unique keys, null, two levels, several of the same
    N = []
    for up in (True, False):
        tgt = "struct tgt { field id int rowid; field u text unique; field n int null; list; };\n"
        mid = "struct mid { field t:tgt.id int; field ts struct t; field m int; field id int rowid; list ts.n; search ts.u; };\n"
        for a, foo in enumerate((
                "struct foo { field r:tgt.id int; field rs struct r; field id int rowid; field k int; insert; list rs.u; search rs.u; list rs.n lt: order rs.n desc, k name o; list rs.n isnull; count rs.n; iterate k, rs.u neq: name it; update r: id; };\n",
                "struct foo { field id int rowid; field r:tgt.u text null; field rs struct r; field k int; insert; list k; search id; iterate: order r; update r: k; list r isnull; };\n",
                "struct foo { field rs struct r; field id int rowid; field k int; field r:tgt.id int null; field qs struct q; field q:tgt.id int; insert; list k; list qs.u; search qs.u, k: limit 1; list: order qs.u, qs.n name o; count qs.u; };\n",
                "struct foo { field id int rowid; field ps struct p; field p:mid.id int; field k int; insert; list ps.ts.u; list ps.m, ps.ts.n ge: name a; search ps.ts.u, ps.m, k: limit 1 name b; list: order ps.ts.n desc, ps.m name o; count ps.ts.n notnull; };\n",
                "struct foo { field id int rowid; field p:mid.id int null; field ps struct p; field q:mid.id int; field qs struct q; field k int; insert; list k; list qs.ts.u; iterate qs.ts.u, k; search id; };\n")):
            m = mid if "mid" in foo else ""
            dom = {"tgt.u": ["", "aB"], "tgt.n": [1, None], "foo.k": [7, 8], "mid.m": [3, 4], "foo.k?": [7]}
            rows = {"tgt": (1, 2), "mid": (1, 2), "foo": (0, 2)}
            if m:
                dom.update({"foo.k": [7], "mid.m": [3]} if not deep else {"foo.k": [7]})
                dom["tgt.n"] = [1, None]
                rows["foo"] = (0, 2) if "q:mid" not in foo or deep else (0, 1)
            N.append(("nested %d %d" % (up, a), (tgt + m + foo) if up else (foo + m + tgt), {"rows": rows, "dom": dom}))
    out += N
    # several terms; orders; limits and offsets
    out.append(("terms", HEAD + """struct foo { field id int rowid; field x int null; field y text null; field z enum en; insert;
 list x, y: name a; list y, x: name b; list x isnull, y; list y notnull, z, x lt; list x, x ge, y neq: name c; count x, y isnull, z neq; iterate z, y isnull;
 search x, y, z: limit 1 name d; update z: x, y; update x, y: z; update y, z, x: x isnull, z: name e; update x inc, y concat: y notnull, x gt, id: name f;
 delete x, y: name g; delete x notnull, z; list x ge, y like, z: name h; };
""", {"rows": {"foo": (0, 2)}, "dom": {"foo.x": [1, 3, None], "foo.y": ["", "aB", None], "like": ["a%", ""]}}))
    out.append(("order", HEAD + """struct foo { field id int rowid; field x int null; field y text; insert;
 list: order x, y desc name a; list: order y, x desc name b; list: order x desc limit 1 name c; list: order id desc limit 2 name d; list: order id limit 1, 1 name e;
 list: order id desc limit 2, 1 name f; iterate: order y desc, id limit 1, 2 name g; list x: order y limit 2 name h; list x ge: limit 1 name i; search x: limit 1 order id desc name j;
 search y: order id limit 1, 1 name k; search y: order id limit 1, 2 name k2; search id; iterate x notnull: order x limit 2 name l; list y: order id limit 9, 1 name m; list: limit 2, 1 order x, id name n; list: limit 0, 1 order id name n2; count: limit 2 name n3; count x: limit 1, 1 name n4; search y: order y, id desc limit 3 name o; count: name p; };
""", {"rows": {"foo": (0, 3)}, "dom": {"foo.x": [1, 3, None], "foo.y": ["", "aB"]}}))
    # distinct
    out.append(("distinct", HEAD + """struct tgt { field id int rowid; field n int; };
struct mid { field id int rowid; field t:tgt.id int; field ts struct t; };
struct foo { field k int; field x text null; field r:mid.id int; field rs struct r; field q:tgt.id int null; field qs struct q; insert;
 list: distinct . name a; count: distinct . name b; iterate k: distinct . name c; list: distinct rs name d; list: distinct rs.ts name e; count: distinct rs name f; count k: distinct rs.ts name g;
 list: distinct . order x, k desc name h; list k: distinct rs.ts order rs.ts.n desc name i; list: distinct . limit 1 order k, x, r, q name j; iterate rs.ts.n: distinct rs.ts name l; search k: distinct . limit 1 name m; list; count; search rs.ts.n: distinct rs.ts limit 1 name n; };
""", {"rows": {"foo": (0, 2), "mid": (1, 2), "tgt": (1, 2)}, "dom": {"foo.k": [7, 8], "foo.x": ["", None], "tgt.n": [3, 4] if deep else [3]}}))
    # groups
    for g, (body, rows, dom) in enumerate((
            ("struct foo { field id int rowid; field g int; field m int; insert; list: grouprow g maxrow m name a; list: grouprow g minrow m name b; count: grouprow g maxrow m name c; iterate: grouprow g maxrow id name d; list: grouprow g minrow id order m name e; search g: grouprow g maxrow m limit 1 name f; list: grouprow m minrow g name h; };\n",
             {"foo": (0, 3)}, {"foo.g": [1, 2], "foo.m": [-1, 5, 6]}),
            ("struct foo { field id int rowid; field g text; field m real; field k int null; insert; list k: grouprow g maxrow m name a; list k isnull: grouprow g minrow m name b; list: grouprow g maxrow m order k desc, g limit 1 name c; count k: grouprow g minrow id name d; iterate id neq: grouprow g maxrow id name e; };\n",
             {"foo": (0, 3)}, {"foo.g": ["", "aB"], "foo.m": [0.5, -1.5], "foo.k": [1, None]}),
            ("struct tgt { field id int rowid; field g int; field m int; };\nstruct foo { field id int rowid; field t:tgt.id int; field ts struct t; field k int; insert; list: grouprow ts.g maxrow ts.m name a; list k: grouprow ts.g minrow ts.m name b; list ts.g: grouprow t maxrow k name c; iterate: grouprow k maxrow t name d; };\n",
             {"foo": (0, 2), "tgt": (1, 2)}, {"tgt.g": [1, 2], "tgt.m": [3, 4], "foo.k": [7, 8]}))):
        out.append(("group %d" % g, HEAD + body, {"rows": rows, "dom": dom}))
    # passwords among other things
    for null in ("", " null"):
        out.append(("password" + null, HEAD + """struct usr { field id int rowid; field pw password%s; field nm text unique; };
struct foo { field id int rowid; field u:usr.id int; field us struct u; field k int; field own password%s; insert;
 list us.pw; search us.nm, us.pw: name a; search us.pw, us.nm: limit 1 name b; list own, us.pw, k; list k, own neq: name c; iterate own, k: name d; iterate us.pw neq, own eq: name e; list own streq, us.pw: name f;
 search id, own; search own, id: name g; search own, us.pw: limit 1 name p; search us.pw neq, k, own: limit 1 name p2; list us.pw strneq: name h; count us.pw streq, k; count own strneq; list own, k: order id limit 1 name i; search own: limit 1 order id name j; list own eq, own neq: name o;
 update own: id; update own strset, k: id: name l; update k, own: own streq, id: name m; update own: own strneq; delete own streq; };
""" % (null, null), {"rows": {"usr": (1, 1 if not deep else 2), "foo": (0, 2)}, "dom": {"foo.k": [7, 8] if deep else [7], "foo.k?": [7], "usr.nm": ["n", "m"] if deep else ["n"], "usr.pw": ["p", None] if null else ["p", "Q"]}}))
    # several passwords at once
    for null in ("", " null"):
        out.append(("two passwords" + null, HEAD + """struct foo { field id int rowid; field k int; field p password%s; field q password; field r password%s; insert;
 search id, p: name a; search id, q, r: name b; search q, id, k, p: limit 1 name c; list r, q: name d; iterate p, q: name e;
 update p strset, q: id: name s; update q, p strset: id: name t; update k, p strset, r, q: id: name u; update r strset, q strset, p, k: k: name v; update p, q: p streq, id: name w; };
""" % (null, null), {"rows": {"foo": (0, 1)}, "dom": {"foo.k": [7], "foo.k!": [8], "foo.k?": [7], "foo.p": ["p"] + ([None] if null else []), "foo.q": ["Q"], "foo.r": ["r"] + ([None] if null else []),
        "foo.p!": ["x"] + ([None] if null else []), "foo.q!": ["y"], "foo.r!": ["z"] + ([None] if null else []), "foo.p?": ["p", "Q"], "foo.q?": ["Q", "r"], "foo.r?": ["r", "p"]}}))
    # references: what happens to those that refer
    for i, act in enumerate(itertools.product(("", "restrict", "nullify", "cascade", "default"), repeat=2)):
        a = " ".join(x for x in (act[0] and "actdel " + act[0], act[1] and "actup " + act[1]) if x)
        out.append(("actions " + (a or "none"), """struct tgt { field id int rowid; field u text unique; insert; delete id; delete: name all; update u: id; update id: u; update id, u: id: name both; };
struct foo { field id int rowid; field r:tgt.id int null %s; field q:tgt.u text null %s; insert; update r: id; update q; update r, q: id; delete id; list r; };
struct sub { field f:foo.id int null %s; field s:sub.f int unique null; insert; };
""".replace("field s:sub.f int unique null;", "") % (a, a, a), {"rows": {"tgt": (0, 2), "foo": (0, 2), "sub": (0, 1)},
                  "dom": {"tgt.u": ["", "aB"], "foo.q": ["aB", None] if not deep else ["aB", "", None], "sub.f": [1] if not deep else [1, None],
                          "tgt.id": [1, 2], "tgt.u!": ["aB", "zz"], "sub.f!": [1, 4, None]}}))
    # uniqueness
    out.append(("unique", HEAD + """struct foo { field id int rowid; field a int unique; field b text null; field c int unique null; unique b, c; unique a, b; insert; update a: id; update b, c: id; update a inc: id; update c: b;
 search a; search c; search id, b: name s; delete a; list b: order a limit 2 name o; };
struct bar { field x int; field y enum en; field z int null; unique y, x; unique z, y; insert; update x: y; update y; update z: x; delete y; count; list; };
""", {"rows": {"foo": (0, 2), "bar": (0, 2)}, "dom": {"foo.a": [1, 2], "foo.b": ["", "aB", None][1:] if not deep else ["", "aB", None], "foo.c": [5, None] if not deep else [5, 6, None],
      "bar.x": [1, 2], "bar.z": [3, None]}}))
    # long statements, many structures
    long = ["aratherlongnameofsomefield%s" % c for c in "abcdefghijklmnop"]
    out.append(("long", HEAD + "struct foo { field id int rowid; %s insert; list: order %s name o; update: id; update %s: %s; search %s: limit 1 name s; };\n" % (
        " ".join("field %s %s;" % (n, t) for n, t in zip(long, ("int", "text", "enum en null", "real") * 4)), ", ".join(long[:6]), ", ".join(long[:5]), ", ".join(long[5:9]), ", ".join(long[9:14])),
        {"rows": {"foo": (0, 1)}, "dom": dict([("foo." + n + x, [v]) for n, v in zip(long, (5, "x", 1, 0.5) * 4) for x in ("",)] + [("foo." + n + x, [v, w]) for n, v, w in zip(long, (5, "x", 1, 0.5) * 4, (6, "y", -4, 1.5) * 4) for x in "!?"])}))
    many = "struct tgt { field id int rowid; field n int; };\nstruct mid { field id int rowid; field a:tgt.id; field ax struct a; field b:tgt.id; field bx struct b; };\n"
    ks = ["f%02d" % i for i in range(14)]
    out.append(("many", many + "struct foo { field id int rowid; %s insert; list %s.bx.n, %s.ax.n: name l; list %s.ax.n: order %s.bx.n desc, id name m; count %s.n; };\n".replace("%s.n;", "%s.ax.n;") % (
        " ".join("field %s:mid.id; field %ss struct %s;" % (k, k, k) for k in ks), ks[13] + "s", ks[0] + "s", ks[9] + "s", ks[10] + "s", ks[12] + "s"),
        {"rows": {"tgt": (2, 2), "mid": (2, 2), "foo": (0, 1)}, "dom": dict([("tgt.n", [3, 4])] + [("foo.%s%s" % (k, x), [1] if k not in (ks[0], ks[9], ks[13]) else [1, 2]) for k in ks for x in ("", "!")])}))
    # keys of every type; references to references
    kt = (("a", "email", "a@b.cd"), ("b", "real", 2.5), ("c", "date", 86400), ("d", "blob", b"a\x00"), ("e", "enum en", -4), ("g", "epoch", 1 << 33), ("h", "bits bi", 9), ("i", "bit", 1), ("j", "text", "b'%"))
    for n, part in enumerate((kt[:5], kt[5:])):
        out.append(("refs %d" % n, HEAD + "struct tgt { field id int rowid; %s };\nstruct foo { field id int rowid; %s insert; list; search id; %s update %s: id: name u; };\n" % (
            " ".join("field %s %s unique;" % (k, t) for k, t, v in part),
            " ".join("field %s:tgt.%s %s null; field %sx struct %s;" % (k, k, t, k, k) for k, t, v in part),
            " ".join("list %s; count %s neq;" % (k, k) for k, t, v in part), ", ".join(k for k, t, v in part)),
            {"rows": {"tgt": (1, 1), "foo": (0, 1)}, "dom": dict([("tgt.%s" % k, [v]) for k, t, v in part] + [("foo." + k, [v, None]) for k, t, v in part] +
             [("foo.%s?" % k, [v]) for k, t, v in part] + [("foo.%s!" % k, [v, None]) for k, t, v in part])}))
    out.append(("chain", HEAD + """struct top { field m:mid.t int null; field ms struct m; field k:top.id int null; field id int rowid; insert; list m; list: order id name o; iterate k: name it; search id; update m: id; count k lt; };
struct mid { field t:tgt.u int unique; field ts struct t; field d:tgt.d date; };
struct tgt { field u int unique; field d date unique; };
""", {"rows": {"tgt": (1, 2), "mid": (0, 2), "top": (0, 2)}, "dom": {"tgt.u": [5, 6], "tgt.d": [0, 86400], "mid.t": [5, 6], "mid.d": [0, 86400], "top.m": [5, None], "top.k": [1, None]}}))
    # a unique text key, no row identifier
    out.append(("keys", HEAD + """struct foo { field nm text unique; field e email unique null; field b blob null; insert; search nm; search e; update nm: nm; update: nm; update b: e; delete nm; delete: name all; list; iterate b: name i; list nm gt: order nm desc name o; count e; };
""", {"rows": {"foo": (0, 2)}, "dom": {"foo.nm": ["", "aB"], "foo.nm!": ["", "zz"]}}))
    return out
