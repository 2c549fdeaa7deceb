"""D01: ort-diff reports exactly the changes."""
import collections, itertools, re
import core, ref

BASE = """roles {
 role ra comment "x" {
  role rb;
  role rc { role rd; };
 };
 role re;
};
enum en {
 item a 1;
 item b 2 comment "bee";
 item c 3 jslabel "sea" jslabel.fr "mer";
 isnull jslabel "nil";
 comment "en";
};
enum en2 {
 item a 1;
 item q;
};
bits bi {
 item p 0;
 item q 3 jslabel "q" comment "cue";
 isunset jslabel "none";
 isnull jslabel "null";
};
bits bi2 {
 item p 0;
};
struct tgt {
 field id int rowid;
 field u text unique;
 field n int;
 comment "tgt";
};
struct foo {
 field id int rowid;
 field x int limit ge 1 default 4 comment "ex";
 field y int null;
 field s text limit le 9 default "dd";
 field r real limit gt 0.5 default 1.5;
 field e enum en default a;
 field f bits bi;
 field d date default 2020-01-02;
 field t:tgt.id int null actup cascade actdel nullify;
 field ts:tgt.id;
 field st struct ts;
 field z int;
 field pw passwd noexport;
 list x gt, y isnull: name q limit 3, 4 order x, y desc comment "q";
 list st.n, x: name q2;
 list: name gr grouprow x maxrow z;
 list x: name dd distinct st;
 count y;
 search id;
 iterate s like: name it;
 list y;
 update x, y inc: id: name u comment "u";
 update x: y gt;
 update: id: name ua;
 delete id: name d;
 delete x lt;
 insert;
 unique x, y;
 unique s, x;
 comment "foo";
 roles ra { list q; update u; noexport s; };
 roles rb { delete d; insert; };
 roles re { all; };
};
"""

# (text, replacement): each changes one thing; "" removes a line.
EDITS = """
 role ra comment "x" {| role ra {
 role ra comment "x" {| role ra comment "y" {
  role rb;|  role rb comment "n";
  role rb;|  role rb { role rz; };
  role rb;|~
  role rc { role rd; };|  role rc; role rd;
 role re;| role re; role rf;
 role re;| role re { role rf; };
 item a 1;| item a 7;
 item a 1;| item A 1 comment "new";
 item a 1;| item a 1 jslabel "A";
 item b 2 comment "bee";| item b 2;
 item b 2 comment "bee";| item b 2 comment "Bee";
 item b 2 comment "bee";| item b 9 comment "bees" jslabel.en "x";
 item b 2 comment "bee";|~
 item c 3 jslabel "sea" jslabel.fr "mer";| item c 3 jslabel.fr "sea" jslabel "mer";
 item c 3 jslabel "sea" jslabel.fr "mer";| item c 3 jslabel.fr "mer" jslabel "sea";
 item c 3 jslabel "sea" jslabel.fr "mer";| item c 3 jslabel "sea" jslabel.en "mer";
 item c 3 jslabel "sea" jslabel.fr "mer";| item c 3 jslabel "sea";
 item c 3 jslabel "sea" jslabel.fr "mer";| item c 3 jslabel "sea" jslabel.fr "mer"; item dd 4;
 isnull jslabel "nil";|~
 isnull jslabel "nil";| isnull jslabel.fr "nil";
 isnull jslabel "nil";| isnull jslabel "nul";
 comment "en";|~
 comment "en";| comment "EN";
enum en2 {|enum en3 { item z; };\\nenum en2 {
enum en2 {|enum en4 {
 item q;| item q 2;
 item q;| item q 5;
 item q;|~
 item p 0;| item p 1;
 item p 0;| item p 0; item z 9;
 item q 3 jslabel "q" comment "cue";| item q 4 jslabel "q" comment "cue";
 item q 3 jslabel "q" comment "cue";| item q 3 jslabel "qq" comment "cue";
 item q 3 jslabel "q" comment "cue";| item q 3 jslabel.fr "q" comment "cue";
 item q 3 jslabel "q" comment "cue";| item q 3 jslabel "q" comment "cua";
 item q 3 jslabel "q" comment "cue";|~
 isunset jslabel "none";| isunset jslabel "non";
 isunset jslabel "none";|~
 isnull jslabel "null";| isnull jslabel "nul";
 isnull jslabel "null";|~
bits bi2 {|bits bi3 {
bits bi2 {|bits bi3 { item a 1; };\\nbits bi2 { comment "b";
struct tgt {|struct tgu { field id int rowid; };\\nstruct tgt {
 comment "tgt";|~
 comment "tgt";| comment "tgu";
 field n int;| field n real;
 field n int;| field n enum en;
 field n int;| field N int;
 field n int;| field n int; field o text;
 field x int limit ge 1 default 4 comment "ex";| field x int limit ge 2 default 4 comment "ex";
 field x int limit ge 1 default 4 comment "ex";| field x int limit gt 1 default 4 comment "ex";
 field x int limit ge 1 default 4 comment "ex";| field x int limit ge 1 limit le 5 default 4 comment "ex";
 field x int limit ge 1 default 4 comment "ex";| field x int default 4 comment "ex";
 field x int limit ge 1 default 4 comment "ex";| field x int limit ge 1 default 5 comment "ex";
 field x int limit ge 1 default 4 comment "ex";| field x int limit ge 1 comment "ex";
 field x int limit ge 1 default 4 comment "ex";| field x int limit ge 1 default 4;
 field x int limit ge 1 default 4 comment "ex";| field x int limit ge 1 default 4 comment "eX";
 field x int limit ge 1 default 4 comment "ex";| field x epoch limit ge 1 default 4 comment "ex";
 field x int limit ge 1 default 4 comment "ex";| field x int limit ge 1 default 4 null comment "ex";
 field y int null;| field y int;
 field y int null;| field y int null default 1;
 field y int null;| field y int null unique;
 field y int null;| field y int null noexport;
 field y int null;| field y:tgt.n int null;
 field y int null;| field y:tgt.id int null;
 field y int null;| field y int null;\\n field y2 int;
 field s text limit le 9 default "dd";| field s text limit le 9 default "de";
 field s text limit le 9 default "dd";| field s text limit lt 9 default "dd";
 field s text limit le 9 default "dd";| field s email limit le 9 default "dd";
 field s text limit le 9 default "dd";| field s text default "dd" limit le 10;
 field r real limit gt 0.5 default 1.5;| field r real limit gt 0.25 default 1.5;
 field r real limit gt 0.5 default 1.5;| field r real limit gt 0.5 default 1.25;
 field r real limit gt 0.5 default 1.5;| field r real default 1.5 limit gt 0.50;
 field e enum en default a;| field e enum en default c;
 field e enum en default a;| field e enum en2 default a;
 field e enum en default a;| field e enum en;
 field e enum en default a;| field e int default 1;
 field f bits bi;| field f bits bi2;
 field f bits bi;| field f bits bi limit ge 2;
 field f bits bi;| field f bit;
 field d date default 2020-01-02;| field d date default 2020-01-03;
 field d date default 2020-01-02;| field d epoch default 5;
 field d date default 2020-01-02;|~
 field t:tgt.id int null actup cascade actdel nullify;| field t:tgt.id int null actup cascade;
 field t:tgt.id int null actup cascade actdel nullify;| field t:tgt.id int null actdel cascade actup nullify;
 field t:tgt.id int null actup cascade actdel nullify;| field t int null;
 field t:tgt.id int null actup cascade actdel nullify;| field t:foo.id int null actup cascade actdel nullify;
 field t:tgt.id int null actup cascade actdel nullify;| field t:tgt.u text null actup cascade actdel nullify;
 field st struct ts;| field st struct t;
 field st struct ts;| field st struct ts noexport;
 field pw passwd noexport;| field pw passwd;
 field pw passwd noexport;| field pw text noexport;
 field y int null;\\n field s text limit le 9 default "dd";| field s text limit le 9 default "dd";\\n field y int null;
 list x gt, y isnull: name q limit 3, 4 order x, y desc comment "q";| list x ge, y isnull: name q limit 3, 4 order x, y desc comment "q";
 list x gt, y isnull: name q limit 3, 4 order x, y desc comment "q";| list y isnull, x gt: name q limit 3, 4 order x, y desc comment "q";
 list x gt, y isnull: name q limit 3, 4 order x, y desc comment "q";| list x gt: name q limit 3, 4 order x, y desc comment "q";
 list x gt, y isnull: name q limit 3, 4 order x, y desc comment "q";| list x gt, y isnull: name q limit 2, 4 order x, y desc comment "q";
 list x gt, y isnull: name q limit 3, 4 order x, y desc comment "q";| list x gt, y isnull: name q limit 3 order x, y desc comment "q";
 list x gt, y isnull: name q limit 3, 4 order x, y desc comment "q";| list x gt, y isnull: name q limit 3, 4 order x, y comment "q";
 list x gt, y isnull: name q limit 3, 4 order x, y desc comment "q";| list x gt, y isnull: name q limit 3, 4 order y desc, x comment "q";
 list x gt, y isnull: name q limit 3, 4 order x, y desc comment "q";| list x gt, y isnull: name q order y desc limit 5, 6;
 list x gt, y isnull: name q limit 3, 4 order x, y desc comment "q";| list X gt, y isnull: comment "q" order x asc, Y desc limit 3, 4 name Q;
 list x gt, y isnull: name q limit 3, 4 order x, y desc comment "q";| iterate x gt, y isnull: name q limit 3, 4 order x, y desc comment "q";
 list x gt, y isnull: name q limit 3, 4 order x, y desc comment "q";| list x gt, y isnull: name qq limit 3, 4 order x, y desc comment "q";
 list st.n, x: name q2;| list ST.N, x: name q2;
 list st.n, x: name q2;| list st.id, x: name q2;
 list: name gr grouprow x maxrow z;| list: name gr grouprow x minrow z;
 list: name gr grouprow x maxrow z;| list: name gr grouprow x maxrow s;
 list: name gr grouprow x maxrow z;| list: name gr grouprow s maxrow z;
 list: name gr grouprow x maxrow z;| list: name gr;
 list x: name dd distinct st;| list x: name dd distinct .;
 list x: name dd distinct st;| list x: name dd;
 count y;| count y, x;
 count y;| count y: comment "c";
 count y;|~
 search id;| search id eq;
 search id;| search id: name si;
 iterate s like: name it;| iterate s streq: name it;
 list y;| iterate y;
 list y;| list y desc;
 list y;| list y: limit 9;
 list y;| list y;\\n list y, x;
 update x, y inc: id: name u comment "u";| update x, y dec: id: name u comment "u";
 update x, y inc: id: name u comment "u";| update y inc, x: id: name u comment "u";
 update x, y inc: id: name u comment "u";| update x, y inc: id gt: name u comment "u";
 update x, y inc: id: name u comment "u";| update x, y inc: id, y isnull: name u comment "u";
 update x, y inc: id: name u comment "u";| update x, y inc: id: name u comment "v";
 update x, y inc: id: name u comment "u";| update x, y inc set: id: name u comment "u";
 update x, y inc: id: name u comment "u";| update x, y inc: id: comment "u" name U;
 update x: y gt;| update x: y lt;
 update x: y gt;| update x: y gt: comment "c";
 update x: y gt;| update x inc: y gt;
 update x: y gt;|~
 update: id: name ua;| update: id: name ub;
 update: id: name ua;| update: id, x: name ua;
 delete id: name d;| delete id gt: name d;
 delete id: name d;| delete id, x: name d comment "d";
 delete x lt;| delete x lt: name dz;
 delete x lt;| delete x le;
 insert;|~
 unique x, y;| unique y, x;
 unique x, y;| unique x, f;
 unique x, y;|~
 unique s, x;| unique s, x, y;
 comment "foo";|~
 comment "foo";| comment "fo";
 roles ra { list q; update u; noexport s; };| roles ra { update u; noexport s; list q; };
 roles ra { list q; update u; noexport s; };| roles ra, rb { list q; update u; noexport s; };
 roles ra { list q; update u; noexport s; };| roles rb { list q; update u; noexport s; };
 roles ra { list q; update u; noexport s; };| roles ra { update u; noexport s; };
 roles ra { list q; update u; noexport s; };| roles ra { list q; update u; noexport; };
 roles ra { list q; update u; noexport s; };| roles ra { list q; update u; noexport s; noexport x; };
 roles ra { list q; update u; noexport s; };| roles ra { list q; noexport s; };
 roles rb { delete d; insert; };| roles rb { insert; };
 roles rb { delete d; insert; };| roles rb { delete d; };
 roles rb { delete d; insert; };| roles rd { delete d; insert; };
 roles re { all; };| roles rb { all; };
 roles re { all; };|~
 roles re { all; };| roles re { all; insert; };
"""


def edits():
    out = []
    for l in EDITS.strip("\n").split("\n"):
        a, b = l.split("|", 1) if "\\n" not in l or l.count("|") == 1 else l.split("|")
        a, b = a.replace("\\n", "\n"), b.replace("\\n", "\n")
        if a.strip() not in BASE:
            raise Exception("edit without a base: " + a)
        out.append((a + "\n", "" if b == "~" else b + "\n"))
    # whole-block removals
    noroles = re.sub(r"(?s)^roles \{.*?\n\};\n", "", re.sub(r" roles r.*\n", "", BASE))
    return out, [noroles]


ED, WHOLE = edits()


def apply(*es):
    t = BASE
    for e in es:
        if e is None:
            continue
        if e < 0:
            return WHOLE[-e - 1] if len([x for x in es if x is not None]) == 1 else None
        a, b = ED[e]
        if a not in t:
            return None
        t = t.replace(a, b, 1)
    return t


# ---- what should be reported, from the meanings -------------------------

def expected(A, B):
    out = []

    def add(k, l):
        out.append(("+", k, l))

    def rem(k, l):
        out.append(("-", k, l))

    def mods(kind, a, b, ch):
        la = a if isinstance(a, int) else a.line
        lb = b if isinstance(b, int) else b.line
        for c in ch:
            out.append(("!", kind, c, la, lb))

    def pair(kind, a, b, changed):
        if changed:
            la = a if isinstance(a, int) else a.line
            lb = b if isinstance(b, int) else b.line
            out.append(("@@", kind, la, lb))
        return changed

    def labels(x, y):
        return x != y

    def items(kind, xs, ys):
        xd, yd = {i.name: i for i in xs}, {i.name: i for i in ys}
        ch = False
        for n, y in yd.items():
            x = xd.get(n)
            if x is None:
                add(kind, y.line)
                ch = True
                continue
            c = [w for w, d in (("value", x.value != y.value), ("labels", x.labels != y.labels),
                                ("comment", x.doc != y.doc)) if d]
            mods(kind, x, y, c)
            ch |= pair(kind, x, y, bool(c))
        for n, x in xd.items():
            if n not in yd:
                rem(kind, x.line)
                ch = True
        return ch

    def tops(kind, xd, yd, cmp):
        for n, y in yd.items():
            if n not in xd:
                add(kind, y.line)
            else:
                pair(kind, xd[n], y, cmp(xd[n], y))
        for n, x in xd.items():
            if n not in yd:
                rem(kind, x.line)

    def enm(x, y):
        ch = items("eitem", x.items, y.items)
        c = [w for w, d in (("comment", x.doc != y.doc), ("labels", x.isnull != y.isnull)) if d]
        mods("enm", x, y, c)
        return ch or bool(c)

    def bitf(x, y):
        ch = items("bitidx", x.items, y.items)
        c = [w for w, d in (("comment", x.doc != y.doc),
                            ("labels", x.isnull != y.isnull or x.isunset != y.isunset)) if d]
        mods("bitf", x, y, c)
        return ch or bool(c)

    def ref_of(s, f):
        if f.type == "struct":
            g = s.fields[f.sub]
            return (s.name, g.name, g.ref[0], g.ref[1])
        return f.ref and (s.name, f.name, f.ref[0], f.ref[1])

    def field(sx, sy, x, y):
        c = []
        if A.noexport_roles(sx, x) != B.noexport_roles(sy, y):
            c.append("rolemap")
        if x.type != y.type:
            c.append("type")
        if (x.actup, x.actdel) != (y.actup, y.actdel):
            c.append("actions")
        fl = [(z.rowid, z.unique, z.null, z.noexport, z.default is not None) for z in (x, y)]
        if fl[0] != fl[1]:
            c.append("flags")
        if x.type == y.type == "bits" and x.sub != y.sub:
            c.append("bitf")
        if x.type == y.type == "enum" and x.sub != y.sub:
            c.append("enum")
        if x.type == y.type and x.default is not None and y.default is not None and \
           ((x.type == "enum" and x.sub != y.sub) or x.default != y.default):
            c.append("def")
        if ref_of(sx, x) != ref_of(sy, y):
            c.append("ref")
        if sorted(map(tuple, x.limits)) != sorted(map(tuple, y.limits)) or \
           (x.type != y.type and x.limits):
            c.append("valids")
        if x.doc != y.doc:
            c.append("comment")
        mods("field", x, y, c)
        return pair("field", x, y, bool(c))

    def qdiff(sx, sy, x, y):
        c = []
        for w, a, b in (("params", x.terms, y.terms), ("order", x.order, y.order),
                        ("aggr", x.aggr, y.aggr), ("group", x.group, y.group),
                        ("distinct", x.distinct, y.distinct), ("comment", x.doc, y.doc),
                        ("limit", x.limit, y.limit), ("offset", x.offset, y.offset),
                        ("rolemap", A.op_roles(sx, x.kind, x.name), B.op_roles(sy, y.kind, y.name))):
            if a != b:
                c.append(w)
        return c

    def udiff(sx, sy, x, y):
        c = []
        for w, a, b in (("params", x.mods, y.mods), ("params", x.cons, y.cons), ("comment", x.doc, y.doc),
                        ("rolemap", A.op_roles(sx, x.kind, x.name), B.op_roles(sy, y.kind, y.name)),
                        ("flags", x.all, y.all)):
            if a != b:
                c.append(w)
        return c

    def ops(kind, sx, sy, xs, ys, diff):
        ch = False
        for x in xs:
            if x.name is not None:
                m = [y for y in ys if y.name == x.name and y.kind == x.kind]
                if not m:
                    rem(kind, x.line)
                    ch = True
                else:
                    c = diff(sx, sy, x, m[0])
                    mods(kind, x, m[0], c)
                    ch |= pair(kind, x, m[0], bool(c))
            elif not any(y.name is None and y.kind == x.kind and not diff(sx, sy, x, y) for y in ys):
                rem(kind, x.line)
                ch = True
        for y in ys:
            if not any(x.name == y.name and x.kind == y.kind and (x.name is not None or not diff(sx, sy, x, y))
                       for x in xs):
                add(kind, y.line)
                ch = True
        return ch

    def strct(x, y):
        ch = ops("search", x, y, x.queries, y.queries, qdiff)
        ch |= ops("update", x, y, x.updates, y.updates, udiff)
        ch |= ops("update", x, y, x.deletes, y.deletes, udiff)
        if x.insert and not y.insert:
            rem("insert", x.insline)
            ch = True
        elif y.insert and not x.insert:
            add("insert", y.insline)
            ch = True
        elif x.insert:
            c = []
            if A.op_roles(x, "insert", None) != B.op_roles(y, "insert", None):
                c.append("rolemap")
            if list(x.fields) != list(y.fields):
                c.append("params")
            mods("insert", x.insline, y.insline, c)
            ch |= pair("insert", x.insline, y.insline, bool(c))
        for n, f in y.fields.items():
            if n not in x.fields:
                add("field", f.line)
                ch = True
            else:
                ch |= field(x, y, x.fields[n], f)
        for n, f in x.fields.items():
            if n not in y.fields:
                rem("field", f.line)
                ch = True
        ux, uy = [frozenset(u) for u in x.uniques], [frozenset(u) for u in y.uniques]
        for u, l in zip(uy, y.ulines):
            if u not in ux:
                add("unique", l)
                ch = True
        for u, l in zip(ux, x.ulines):
            if u not in uy:
                rem("unique", l)
                ch = True
        if x.doc != y.doc:
            mods("strct", x, y, ["comment"])
            ch = True
        return ch

    tops("enm", A.enums, B.enums, enm)
    tops("bitf", A.bits, B.bits, bitf)
    tops("strct", A.structs, B.structs, strct)
    if A.roles is None and B.roles is not None:
        add("roles", B.roles_line)
    elif B.roles is None and A.roles is not None:
        rem("roles", A.roles_line)
    elif A.roles is not None:
        ch = False
        ra = {n: r for n, r in A.roles.items() if r.parent}
        rb = {n: r for n, r in B.roles.items() if r.parent}
        for n, x in ra.items():
            if n not in rb:
                rem("role", x.line)
                ch = True
                continue
            y = rb[n]
            c = [w for w, d in (("parent", x.parent != y.parent), ("comment", x.doc != y.doc),
                                ("children", set(x.subs) != set(y.subs))) if d]
            mods("role", x, y, c)
            ch |= pair("role", x, y, bool(c))
        for n, y in rb.items():
            if n not in ra:
                add("role", y.line)
                ch = True
        pair("roles", A.roles_line, B.roles_line, ch)
    return out


# ---- small spaces: every pair of variants of one statement ---------------

def forests():
    """Role forests over three names."""
    out = ["", "role a;", "role a; role b;", "role b; role a;", "role a { role b; };", "role b { role a; };"]
    for p in itertools.permutations("abc"):
        x, y, z = p
        out += ["role %s; role %s; role %s;" % p, "role %s { role %s; }; role %s;" % p, "role %s; role %s { role %s; };" % p,
                "role %s { role %s; role %s; };" % p, "role %s { role %s { role %s; }; };" % p]
    out += ['role a comment "c";', 'role a comment "d"; role b;', "role A;"]
    return ["roles { %s };" % x for x in out]


def small(tier):
    S = {}
    for t, vs in {"int": "3 4 -3 9223372036854775807", "date": "3 4 0", "epoch": "3 4", "bit": "3 4", "bits bi": "3 4",
                  "real": "3 0.5 0.25 -1.5", "text": "3 4", "passwd": "3 4", "email": "3 4", "blob": "3 4"}.items():
        lim = ["limit %s %s" % (o, v) for o in ("ge", "gt", "lt", "le", "eq") for v in vs.split()]
        two = [a + " " + b for a, b in itertools.permutations(lim, 2) if a.split()[1] != b.split()[1]]
        df = {"int": "3 4 -3", "date": "2020-01-02 2020-01-03 1969-12-31", "epoch": "3 4", "bit": "3 4", "bits bi": "3 4",
              "real": "3.0 0.5 -1.5", "text": '"a" "b" "A"', "email": '"a" "b"'}.get(t, "").split()
        S["lim " + t] = ["field k %s %s;" % (t, x) for x in [""] + lim + two[::1 if tier == "thorough" else 5]]
        S["att " + t] = ["field k %s %s;" % (t, " ".join(x)) for x in itertools.product(
            ["", "null"], ["", "unique"], ["", "noexport"], ["", 'comment "c"', 'comment "C"'],
            [""] + ["default " + d for d in df])]
    S["enum"] = ["field k enum %s %s;" % (e, d) for e in ("en", "e2") for d in ("", "default a", "default b", "null", "null default a")]
    S["bits"] = ["field k bits %s %s;" % (e, d) for e in ("bi", "b2") for d in ("", "default 1", "limit ge 1", "null")]
    S["type"] = ["field k %s;" % t for t in ("int", "text", "real", "blob", "passwd", "email", "date", "epoch", "bit", "enum en", "enum e2",
                                             "bits bi", "bits b2", "enum", "struct ts", "struct ns", "int null", "text null")] + \
        ["field k:tgt.id;", "field k:tgt.u;", "field k:tgt.id int null;", "field k:foo.id;", "field k:tgt.w;"]
    S["act"] = ["field k:tgt.id int null%s%s;" % (a and " actup " + a, b and " actdel " + b)
                for a in ("", "restrict", "cascade", "nullify", "none", "default")
                for b in ("", "restrict", "cascade", "nullify", "none", "default")]
    ord_ = ["", "order x", "order x desc", "order y", "order x, y", "order y, x", "order x, y desc"]
    lim = ["", "limit 1", "limit 2", "limit 1, 7", "limit 1, 8", "limit 0, 7"]
    grp = ["", "grouprow x maxrow y", "grouprow x minrow y", "grouprow y maxrow x", "grouprow s maxrow y"]
    dis = ["", "distinct .", "distinct st", "distinct sn", 'comment "c"', 'comment "C"']
    allq = list(itertools.product(ord_, lim, grp, dis))
    for k, name in (("list", "name q"), ("search", "name q")):
        S["q " + k] = ["%s x: %s %s;" % (k, name, " ".join(q)) for q in allq[::1 if tier == "thorough" else 11]]
    S["unnamed"] = ["list x: %s;" % " ".join(q) for q in allq[1::9 if tier == "thorough" else 23]]
    terms = ["x", "x ge", "x gt", "y", "s", "s like", "s streq", "sn.n", "ts", "st.n", "st.n ge", "nn isnull", "nn notnull"]
    S["terms"] = ["%s %s%s;" % (k, ", ".join(t), n) for k in ("list", "count")
                  for t in [(a,) for a in terms] + [c for i, c in enumerate(itertools.product(terms, repeat=2)) if i % 5 == 0 or tier == "thorough"]
                  for n in ("", ": name q")]
    mods = ["x", "x inc", "x dec", "y", "x, y", "y, x", "s concat", "s", ""]
    cons = ["", "id", "x", "x gt", "x gt, y", "y, x gt", "nn isnull"]
    S["upd"] = ["update %s: %s%s;" % (m, c, n) for m in mods for c in cons for n in ("", ": name u", ': name u comment "c"', ': name v')]
    S["del"] = ["delete %s%s;" % (c, n) for c in cons for n in ("", ": name u", ': name u comment "c"', ': name v')] + \
        ["delete x; delete x gt;", "delete x: name u; delete x gt: name v;", "delete x gt: name u; delete x: name v;"]
    us = ["unique x, y;", "unique y, x;", "unique x, s;", "unique x, y, s;", "unique s, y;"]
    S["uniq"] = [" ".join(u) for k in range(4) for u in itertools.permutations(us, k)]
    rs = ["ra", "rb", "rd", "rc", "all", "default", "ra, rc", "rb, rd"]
    op = ["insert;", "list q;", "update u;", "delete d;", "noexport x;", "noexport;", "all;", "list q; noexport x;"]
    S["roles"] = [""] + ["roles %s { %s };" % (r, o) for r in rs for o in op] + \
        ["roles %s { %s }; roles %s { %s };" % c for c in itertools.islice(itertools.product(rs, op, rs, op), 0, None,
                                                                          7 if tier == "thorough" else 83)]
    S["enums"] = ["enum e3 { %s%s };" % (i, h) for i in
         ("item a;", "item a 1;", "item a 2;", "item a; item b;", "item b; item a;", "item A;", 'item a comment "c";',
          'item a comment "C";', 'item a jslabel "x";', 'item a jslabel "y";', 'item a jslabel.fr "x";',
          'item a jslabel.de "x" jslabel.fr "y";', 'item a jslabel.fr "y" jslabel.de "x";', 'item a jslabel.fr "x" jslabel.de "y";')
         for h in ("", 'comment "c";', 'isnull jslabel "n";', 'isnull jslabel.fr "n";', 'isnull jslabel.fr "n" jslabel "z";')]
    S["bitsd"] = [x.replace("enum", "bits") for x in S["enums"]] + \
        ["bits e3 { item a 1; %s };" % h for h in ('isunset jslabel "n";', 'isunset jslabel "u";', 'isnull jslabel "u";',
                                                   'isnull jslabel "n"; isunset jslabel "u";', 'isnull jslabel "u"; isunset jslabel "n";')]
    S["bitsd"] = [re.sub(r"item (\w)( [^0-9;][^;]*)?;", lambda m: "item %s %d%s;" % (m.group(1), "ab".index(m.group(1).lower()) * 5, m.group(2) or ""), x)
                  for x in S["bitsd"]]
    S["forest"] = forests()
    return S


def smalltext(k, x):
    b = ("roles { role ra { role rb { role rd; }; }; role rc; };\n" if k == "roles" else "") + \
        ("enum en { item a 1; item b 2; };\nenum e2 { item a 1; item b 2; };\nbits bi { item p 0; };\nbits b2 { item p 0; };\n"
         "struct tgt { field id int rowid; field u text unique; field n int; field w int unique; };\n")
    if k in ("enums", "bitsd", "forest", "roles", "uniq"):
        x = re.sub(r"(item|role|isnull|isunset|roles|unique) ", r"\n\1 ", x)
    if k in ("enums", "bitsd", "forest"):
        return b + "struct foo { field id int rowid; };\n" + x + "\n"
    return b + ("struct foo {\nfield id int rowid;\nfield x int;\nfield y int;\nfield s text;\nfield nn int null;\nfield ts:tgt.id;\n"
                "field st struct ts;\nfield ns:tgt.id;\nfield sn struct ns;\n%s%s\n};\n" % (
                    "list x: name q;\nupdate x: id: name u;\ndelete id: name d;\ninsert;\n" if k == "roles" else "", x))


PAT = re.compile(r"^([-+]) (\w+) (\w+)\.ort:(\d+):\d+$|^! (\w+) (\w+) a\.ort:(\d+):\d+ -> b\.ort:(\d+):\d+$|"
                 r"^(@@|  ?)\s*(\w+) a\.ort:(\d+):\d+ -> b\.ort:(\d+):\d+( @@)?$|^(@@ \w+ @@)$|^(---|\+\+\+) \w\.ort\t?.*$")


def reported(out):
    r = []
    for l in out.split("\n"):
        if not l:
            continue
        m = PAT.match(l)
        if not m:
            return None, "unreadable line %r" % l
        g = m.groups()
        if g[0]:
            if (g[2] == "b") != (g[0] == "+"):
                return None, "%r names the wrong file" % l
            r.append((g[0], g[1], int(g[3])))
        elif g[4]:
            r.append(("!", g[4], g[5], int(g[6]), int(g[7])))
        elif g[8] == "@@":
            r.append(("@@", g[9], int(g[10]), int(g[11])))
        elif g[8]:
            r.append(("=", g[9], int(g[10]), int(g[11])))
    return r, None


class D01(core.Check):
    id = "D01"
    rule = ("state = pair of configurations, each reached from a feature-complete base by single edits; "
            "transition = one more edit on either side; every pair (base+e1, base+e2) and (base, base+e1+e2), "
            "compared in both directions by the real ort-diff")
    assumptions = ["edit menu as listed in d01.py", "line numbers identify objects (columns are not compared)"]

    def jobs(self, tier):
        n = [None] + list(range(len(ED))) + [-i - 1 for i in range(len(WHOLE))]
        out = [("pair", a) for a in n] + [("seq", a) for a in range(len(ED))]
        for k, v in small(tier).items():
            out += [("small", k, i, 8) for i in range(8 if len(v) > 60 else 1)]
        if tier == "thorough":
            out += [("seq3", a) for a in range(len(ED))]
        return out

    def job(self, env, acc, tier, j):
        if j[0] == "small":
            v = [smalltext(j[1], x) for x in small(tier)[j[1]]]
            ok = [t for t in v if ref.accepts([("a.ort", t)])[0] is not None]
            acc.n["variants_" + j[1]] = len(ok)
            acc.n["invalid variants"] += len(v) - len(ok)
            for x in ok[j[2]::8] if len(v) > 60 else ok:
                for y in ok:
                    acc.n["transitions"] += 1
                    if acc.state(x + "\0" + y):
                        self.check(env, acc, {"old": x, "new": y})
            return
        kind, a = j

        def one(x, y):
            if x is None or y is None:
                return
            acc.n["transitions"] += 1
            if acc.state(x + "\0" + y):
                self.check(env, acc, {"old": x, "new": y})
        n = list(range(len(ED)))
        if kind == "pair":
            for b in [None] + n + [-i - 1 for i in range(len(WHOLE))]:
                one(apply(a), apply(b))
        elif kind == "seq":
            for b in n:
                if b > a:
                    t = apply(a, b)
                    one(BASE, t)
                    one(t, BASE)
        else:
            for b in n:
                for c in n[::3]:
                    if a < b < c:
                        one(BASE, apply(a, b, c))

    def judge(self, env, case):
        A, ea = ref.accepts([("a.ort", case["old"])])
        B, eb = ref.accepts([("b.ort", case["new"])])
        r = env.run("ort-diff", ["a.ort", "b.ort"], [("a.ort", case["old"]), ("b.ort", case["new"])])
        show = " | ".join(l for l in case["old"].split("\n") if l not in case["new"].split("\n")) + " => " + \
            " | ".join(l for l in case["new"].split("\n") if l not in case["old"].split("\n"))
        if r.crashed:
            return [("crash", "ort-diff ended abnormally (status %d): %r; %s" % (r.status, r.err[-300:], show))]
        if A is None or B is None:
            if r.status <= 1:
                return [("status-invalid", "status %d for an invalid configuration (%s %s); %s" % (r.status, ea, eb, show))]
            return []
        exp = expected(A, B)
        out = []
        if r.status != (1 if exp else 0):
            out.append(("status", "status %d, expected %d; %s; expected %s" % (r.status, 1 if exp else 0, show, exp[:5])))
        rep, e = reported(r.text)
        if rep is None:
            return out + [("format", "%s; %s" % (e, show))]
        c1, c2 = collections.Counter(exp), collections.Counter(x for x in rep if x[0] != "=")
        if c1 != c2:
            miss, extra = list((c1 - c2).elements()), list((c2 - c1).elements())
            k = (miss + extra)[0]
            out.append(("report:%s" % (" ".join(map(str, k[:3 if k[0] == "!" else 2]))),
                        "%s: not reported %s, wrongly reported %s" % (show, miss[:5], extra[:5])))
        # what is reported unchanged must not also be reported changed
        same = {x[1:] for x in rep if x[0] == "="}
        for x in rep:
            if x[0] == "@@" and x[1:] in same:
                out.append(("contradiction", "%s reported both changed and unchanged; %s" % (x, show)))
        return out


if __name__ == "__main__":
    core.main(D01())
