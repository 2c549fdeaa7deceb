"""Statement-menu configuration spaces: a fixed base into which every
statement, ordered pair and (per group) triple of a menu is placed."""
import itertools, re

ROLES = "roles { role ra { role rb { role rd; }; }; role rc; };\n"
TYPES = ("enum en { item a 1; item b 2 comment \"bee\"; };\n"
         "bitfield bi { item p 0; item q 3; };\n")
TGT = ("struct tgt { field id int rowid; field u text unique; field v int; field w text; "
       "field pw passwd; field tn int null; };\n"
       "struct mid { field id int rowid; field tid:tgt.id; field t struct tid; "
       "field nid:tgt.id int null; field n struct nid; field mv int; field mw text; };\n"
       "struct oth { field id int rowid; field ov int; field ow text; field tid:tgt.id; field t struct tid; };\n")
FOO = ("struct foo { field id int rowid; field x int; field y int; field z int unique; "
       "field s text; field ns text null; field r real; field b blob; field pw passwd; "
       "field npw passwd null; field em email; field e enum en; field f bits bi; "
       "field bt bit; field d date; field ep epoch; field mid:mid.id; field m struct mid; "
       "field omid:mid.id int null; field om struct omid; "
       "field oid:oth.id; field o struct oid; ")

FIELDS = ["field X int;", "field k int;", "field K text;", "field k enum en;", "field k enum EN default A;",
          "field k enum en default c;", "field k enum zz;", "field k enum bi;", "field k bits bi;",
          "field k bits en;", "field k bits bi default 3;", "field k:tgt.id;", "field k:TGT.ID int null;",
          "field k:tgt.u;", "field k:tgt.u text;", "field k:tgt.v;", "field k:tgt.id real;", "field k:tgt.zz;",
          "field k:zz.id;", "field k:foo.id;", "field k:foo.k;", "field k struct mid;", "field k struct omid;",
          "field k struct zz;", "field k struct x;", "field k struct m;", "field k:tgt.id; field l struct k;",
          "field k:foo.id; field l struct k;", "field k:foo.id int null; field l struct k;", "field k:mid.id int unique;",
          "field rowid2 int rowid;"]

OPS = "eq neq ge gt le lt like and or streq strneq isnull notnull".split()
TF = "x s r b pw em e f bt d ep ns npw m om".split()
TERMS = ["list %s %s;" % (f, o) for f in TF for o in OPS]
CTERMS = ["count %s %s;" % (f, o) for f in ("pw", "s", "m.t.pw") for o in OPS]
PATHS = ["id", "zz", "m", "m.mv", "m.zz", "m.t", "m.t.v", "m.t.pw", "m.n.v", "m.n", "om.mv", "om", "x.id",
         "M.T.V", "m.t.id.x", "mid", "mid.id", "o", "o.ov", "o.t", "o.t.v", "o.t.u"]
QUERIES = (["search %s: name q;" % p for p in PATHS] + ["list: order %s;" % p for p in PATHS] +
           ["list: distinct %s;" % p for p in PATHS + ["."]] +
           ["list x: name Q;", "iterate x: name q2;", "list y: name q;", "count id; ",
            "search id, m.t.u eq: name q3;", "search z;", "search x;", "list id;", "search: limit 1;",
            "list x: order x, m.mv desc, x asc limit 3, 4;", "iterate m.t.pw, x ge: distinct m;",
            "iterate m.t.pw isnull, x ge: distinct m;", "iterate m.t.pw streq: distinct m.t;"] +
           ["list: grouprow %s maxrow %s;" % (a, b) for a in
            ("x", "m.mv", "m.t.v", "s", "pw", "m", "om.mv", "ns", "m.t.tn", "zz")
            for b in ("y", "x", "m.mw", "m.t.w", "id")] +
           ["list: grouprow x minrow y grouprow y;", "list: grouprow x;", "list: maxrow x;"])
UPDATES = (["update %s %s: id;" % (f, m) for f in TF + ["zz", "id", "m.mv"]
            for m in ("set", "inc", "dec", "concat", "strset")] +
           ["%s %s %s;" % (h, f, o) for h in ("update x:", "delete") for f in ("x", "pw", "npw", "s", "em", "m", "zz", "d", "b")
            for o in OPS] +
           ["update;", "update: id;", "update x: id: name u;", "update Y: id: name U;", "delete id: name u;",
            "delete: name d;", "delete id: name D;", "update x, x: id;", "update x: id, id;", "update x: id, m.mv;"])
UNIQUES = ["unique x, y;", "unique y, x;", "unique Y, X;", "unique x, s;", "unique s, y;", "unique x, y, s;",
           "unique s, x, y;", "unique x, x;", "unique x, zz;", "unique x, m;", "unique x, pw;", "unique x, z;",
           "unique mid, omid;", "unique id, x;"]
OPB = "insert; list x: name q; count x: name c; search z: name s1; iterate: name it; update x: id: name u; delete id: name d; "
ROLESTM = (["roles %s { %s };" % (r, o) for r in ("ra", "rb", "rd", "rc", "all", "default", "ra, rc", "rd, rc")
            for o in ("insert;", "list q;", "update u;", "noexport x;", "noexport;", "all;")] +
           ["roles ra { insert; insert; };", "roles ra, RA { insert; };", "roles zz { insert; };", "roles none { insert; };",
            "roles rb { delete d; count c; search s1; iterate it; };", "roles ra { list c; };", "roles ra { delete u; };",
            "roles ra { update zz; };", "roles ra { noexport zz; };", "roles ra { noexport m; };", "roles rb { insert; }; roles RB { insert; };",
            "roles ra { noexport s; noexport x; };", "roles ra { LIST Q; NOEXPORT S; };", "roles ra { search zz; };"])
TOPS = ["enum en { item z; };", "enum foo { item z; };", "bits en { item z 1; };", "enum e2 { item a; item A; };",
        "enum e2 { item a; item b; };", "bits b2 { item a 1; item b 1; };", "bits b2 { item a 1; item A 2; };",
        "struct en { field a int; };", "struct FOO { field a int; };", "struct tgt2 { field a:foo.id; field f struct a; };",
        "struct e2 { field a int; };", "bits e2 { item a 0; };", "roles { role ra; };", "roles { role x1; role X1; };",
        "roles { role x1 { role x2 { role x1; }; }; };", "struct lk { field a:tgt.u text null; field b struct a; list b.v; };",
        "struct lk { field a:tgt.u text; field b struct a; list b.v; };"]


def foo(stm, roles=False, ops=False):
    return ((ROLES if roles else "") + TYPES + TGT + FOO + (OPB if ops else "") + stm + " };\n")


GROUPS = {"fields": FIELDS, "terms": TERMS + CTERMS, "queries": QUERIES, "updates": UPDATES,
          "uniques": UNIQUES, "roles": ROLESTM, "tops": TOPS}


def text(group, stms):
    if group == "tops":
        return TYPES + TGT + FOO + " };\n" + "\n".join(stms) + "\n"
    if group == "fields":
        stms = [x if i == 0 or x in FIELDS[:3] else re.sub(r"\bk\b", "k%d" % i, x)
                for i, x in enumerate(stms)]
    return foo(" ".join(stms), group == "roles", group == "roles")


def tuples(group, k):
    """Sequences of k statements of a group (all of them, in order)."""
    return itertools.product(GROUPS[group], repeat=k)


def graphs(n, perm, edges, null):
    """A configuration whose struct references are the given digraph."""
    out = []
    for i in perm:
        s = "struct s%d { field id int rowid; " % i
        for a, b in edges:
            if a == i:
                s += "field r%d:s%d.id int%s; field f%d struct r%d; " % (b, b, " null" if (a, b) in null else "", b, b)
        out.append(s + "};")
    return "\n".join(out) + "\n"


# ---- values: every literal form in every place that takes one ----------

STRS = ["", "a", "a  b", "\t", "a\nb", "#x", "a;b", "{}", "'", "%s%d", "\\\\", "\\\"", "a\\\"b", "\\n", "</x>", "*/", "/*", "--", "//", "${x}", "`",
        "\xe9", "\x7f", "@", "$", "&amp;", "\\\\\\\"", ":", "]]>", "a\r\nb", "\x01"]
INTS = ["0", "1", "-1", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967296",
        "9223372036854775806", "9223372036854775807", "-9223372036854775807", "007", "-0"]
DECS = ["0.0", "1.5", "-2.25", "0.1", "1.0", "123456.789", "1234567.5", "0.000001", "0.0000001", "1.23456789012345678",
        "100000000000000000000.0", "-12345678901234567890.5", "0.30000000000000004", "3.", "5", "-7", "00.5",
        "9007199254740993", "1" + "0" * 300 + ".0", "0." + "0" * 300 + "1", "-0.0"]
DATES = ["1970-01-01", "2020-02-29", "2019-02-29", "1969-12-31", "1900-03-01", "0-01-01", "-5-1-1", "9999-12-31",
         "2020-13-45", "2038-01-19", "2024-10-27", "12345-06-07", "2020 -5 -6"]


def values():
    """(name, text) of configurations with one literal varied."""
    out = []
    for v in STRS:
        q = '"%s"' % v
        for i, t in enumerate(["field k text default %s;", "field k email default %s;", "field k int comment %s;",
                               "comment %s;", "list x: comment %s;", "update x: id: comment %s;",
                               "delete id: comment %s;"]):
            out.append(foo(t % q))
        for t in ["item a comment %s;", "item a; comment %s;", "item a jslabel %s;", "item a jslabel.en %s jslabel \"z\";",
                  "item a; isnull jslabel %s;"]:
            out.append("enum en2 { " + t % q + " };\n" + foo("field k enum en2;"))
        for t in ["item a 1 comment %s;", "item a 1; comment %s;", "item a 1 jslabel %s;", "item a 1; isunset jslabel.fr %s;",
                  "item a 1; isnull jslabel %s;"]:
            out.append("bits bi2 { " + t % q + " };\n" + foo("field k bits bi2;"))
        out.append("roles { role ra comment %s; role rb { role rc comment %s; }; };\n" % (q, q) + foo(""))
    for v in INTS:
        out.append("enum en2 { item a %s; item b; };\n" % v + foo("field k enum en2;"))
        out.append("bits bi2 { item a %s; };\n" % v + foo("field k bits bi2;"))
        for ty in ("int", "bit", "epoch", "bits bi", "real"):
            out.append(foo("field k %s default %s;" % (ty, v)))
        for ty in ("int", "bit", "epoch", "date", "bits bi", "real", "text", "blob", "passwd", "email", "enum en"):
            for op in ("ge", "eq"):
                out.append(foo("field k %s limit %s %s;" % (ty, op, v)))
        out.append(foo("list x: limit %s;" % v))
        out.append(foo("list x: limit 2, %s;" % v))
    for v in DECS:
        out.append(foo("field k real default %s;" % v))
        for op in ("ge", "gt", "le", "lt", "eq"):
            out.append(foo("field k real limit %s %s;" % (op, v)))
    for v in DATES:
        out.append(foo("field k date default %s;" % v))
        out.append(foo("field k date limit ge 5 default %s null;" % v))
    opts = ["unique", "null", "noexport", "limit ge 3", "limit lt 9", "default 4", "comment \"c\""]
    for k in range(len(opts) + 1):
        for c in itertools.combinations(opts, k):
            out.append(foo("field k int %s;" % " ".join(c)))
            out.append(foo("field k bits bi %s;" % " ".join(c)))
    for a in ("", "restrict", "cascade", "nullify", "none", "default"):
        for b in ("", "restrict", "cascade", "nullify", "none", "default"):
            out.append(foo("field k:tgt.id int null%s%s;" % (a and " actup " + a, b and " actdel " + b)))
    return out


# ---- products: every combination of the attributes of one statement ----

def _prod(fmt, *dims):
    for c in itertools.product(*dims):
        yield " ".join((fmt % c).split())


GP = ["x", "y", "s", "r", "z", "id", "ns", "pw", "e", "f", "b", "d", "m", "mid", "m.id", "m.mv", "m.mw", "om.mv", "om.mw",
      "o.ov", "o.ow", "m.t.v", "m.t.w", "m.n.v", "o.t.v", "o.t.w", "m.t.pw", "m.t.tn"]


def query_products(tier="quick"):
    for a in GP:
        for b in GP:
            yield "list: grouprow %s maxrow %s;" % (a, b)
    for a in GP:
        yield "list: minrow %s grouprow %s;" % ("y", a)
    lim = ["", "limit 0", "limit 1", "limit 2", "limit 1, 7", "limit 0, 5", "limit 2, 0", "limit 7, 1",
           "limit 9223372036854775807, 9223372036854775807"]
    for x in _prod("%s %s: name q %s %s %s %s %s;", ["list", "search", "iterate", "count"], ["", "x", "m.mv ge, z"],
                   ["", "order x desc", "order m.mv, o.t.w desc"], lim,
                   ["", "grouprow x minrow y", "grouprow m.mv maxrow m.id"],
                   ["", "distinct .", "distinct m", "distinct o.t"] , ["", 'comment "c"']):
        yield re.sub(": ;", ";", x)
    paths = ["x", "z", "s", "m.mv", "m.t.u", "o.t.v", "om.mv", "m.id"]
    for k in ("list", "search", "iterate", "count"):
        for a, b in itertools.product(paths, repeat=2):
            for o in ("", " ge", " isnull"):
                yield "%s %s%s, %s;" % (k, a, o, b)
    for a, b, c in itertools.product(paths, repeat=3):
        if a != b and b != c:
            yield "list: order %s, %s desc, %s;" % (a, b, c)


def update_products(tier="quick"):
    for x in _prod("update %s: %s%s;", ["", "x", "x inc", "x, y dec", "s concat, e", "b, d, r set", "npw strset", "em, bt, f"],
                   ["", "id", "x gt", "ns isnull, x", "s like, r lt, e"],
                   ["", ": name u", ': comment "c"', ': name u comment "c"', ': comment "c" name u']):
        yield x
    for x in _prod("delete %s%s;", ["", "id", "x gt", "ns isnull, x", "s like, r lt, e"],
                   ["", ": name u", ': comment "c"', ': name u comment "c"', ': comment "c" name u']):
        yield x


def field_products(tier="quick"):
    ty = {"int": ("4", "3"), "text": ('"dd"', "3"), "real": ("1.5", "0.5"), "blob": (None, "3"), "passwd": (None, "3"),
          "email": ('"a@b"', "3"), "date": ("2020-01-02", "3"), "epoch": ("7", "3"), "bit": ("1", "3"),
          "enum en": ("b", None), "bits bi": ("8", "3"), "enum": (None, None), "struct mid": (None, None)}
    for t, (d, l) in ty.items():
        opts = ["null", "unique", "noexport", 'comment "c"', "rowid"]
        if d:
            opts.append("default " + d)
        if l:
            opts += ["limit ge " + l, "limit lt " + l]
        for k in range(len(opts) + 1):
            for c in itertools.combinations(opts, k):
                yield "field k %s %s;" % (t, " ".join(c))
    for ref in ("tgt.id", "tgt.u", "foo.z"):
        for t in ("int", "text"):
            for x in _prod("field k:%s %s %s %s %s %s;", [ref], [t], ["", "null"], ["", "unique", "noexport"],
                           ["", "actup cascade", "actup nullify", "actup none", "actup restrict", "actup default"],
                           ["", "actdel cascade", "actdel nullify", "actdel restrict"]):
                yield x


def label_products():
    for n, (x, h) in enumerate(itertools.product(
            _prod("%s %s %s %s", ["", "0", "3"], ["", 'comment "c"'], ["", 'jslabel "d"'],
                  ["", 'jslabel.en "e"', 'jslabel.fr "f" jslabel.en "e"', 'jslabel.fr "f"']),
            ["", 'isnull jslabel "n";', 'isunset jslabel "u";', 'isnull jslabel.fr "n" jslabel "z"; comment "c";',
             'isunset jslabel.en "u"; isnull jslabel "n";'])):
        yield "enum e2 { item a %s; item b; %s };" % (x, h)
        yield "bits b2 { item a %s; item b 9; %s };" % (x, h)


def products(tier="quick"):
    """Texts of all the products, in foo."""
    for g in (query_products, update_products, field_products):
        for st in g(tier):
            yield foo(st)
    for t in label_products():
        yield TYPES + TGT + FOO + " };\n" + t + "\n"


def cover(texts, ref):
    """Those of the valid texts (of foo with something added) that together
    have each pair of words, in their order, that any of them has."""
    W = re.compile(r'"[^"]*"|[^\s;{}:,]+|[:,]')
    f = W.findall(foo(""))
    seen, out = set(), []
    for t in texts:
        w = W.findall(t)
        i = k = 0
        while i < len(w) and i < len(f) and w[i] == f[i]:
            i += 1
        while k < len(w) - i and k < len(f) - i and w[-1 - k] == f[-1 - k]:
            k += 1
        w = w[i:len(w) - k]
        ps = set(itertools.combinations(w, 2)) | {(a,) for a in w}
        if ps - seen and ref.accepts([("a.ort", t)])[0] is not None:
            seen |= ps
            out.append(t)
    return out
