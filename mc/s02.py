"""S02: ort-sqldiff migrates a database from one configuration to the next
without losing or changing what it holds, or refuses."""
import collections, itertools, sqlite3
import core, ref, s01

# Slots of a configuration and what they may hold.
EN = ["item a 1; item b 2;", "item a 1; item b 2; item c 3;", "item b 2;", "item a 1; item b 5;", "item a; item b;", "item b; item a;",
      "item a 1; item b 2; comment \"c\";", "item a 2; item b 1;", "item a 1 jslabel \"x\"; item b;", "item aa 1; item b 2;"]
BI = ["item p 0; item q 3;", "item p 0; item q 3; item s 7;", "item q 3;", "item p 0; item q 4;", "item p 3; item q 0;", "item q 3; item p 0 comment \"c\";"]
X = ["", "int", "int null", "int unique", "int null unique", "int default 4", "int default -4", "int unique default 9", "int null default 0",
     "int noexport limit ge 3", "int comment \"c\" limit lt 9", "real", "real null default 0.1", "real default 123456789.125",
     "real default -100000000000000000000.5", "text", "text default \"dd\"", "text default \"it's \\\"q\\\"\" null", "text default \"a;b--\\c\\n\"",
     "email default \"a@b\"", "passwd null", "blob null", "blob", "bit default 1", "date default 1969-12-31", "date null", "epoch default 7", "epoch",
     "enum en default b", "enum en", "enum en2 default a", "enum en null", "bits bi default 8", "bits bi", "bits bi2 null", "int rowid",
     "text default \"\"", "int default 9223372036854775807"]
R = ["", ":tgt.id int null", ":tgt.id int", ":tgt.id int null actdel cascade", ":tgt.id int null actdel nullify actup cascade",
     ":tgt.id int null actup cascade", ":oth.id int null", ":tgt.u text null", " int null", " text null", ":tgt.id int default 1",
     ":tgt.id int null unique", ":tgt.id int null default 2 actup default", ":tgt.id int null actdel restrict actup restrict"]
S = ["", "field s struct r;", "field s struct fixed;", "field s int null;"]
U = ["", "unique x, y;", "unique y, x;", "unique y, z;", "unique x, y; unique y, z;", "unique z, y, x;", "unique fixed, y;", "unique x, r;"]
T = ["", "field n int null;", "field n int default 3 unique;", "field n text default \"x\"; unique n, u;"]
O = ["", "field on int null;", "field back:foo.y int null; field bs struct back;", None]
K = ["", "struct kid { field id int rowid; field f:foo.z int; field fs struct f; };",
     "struct kid { field id int rowid; field f:foo.z int actdel cascade; };",
     "struct kid { field id int rowid; field f:foo.z int; field g:kid.id int null; unique f, g; };",
     "struct kid { field id int rowid; field f int; };",
     "struct kid { field id int rowid; field f:foo.z int; }; struct grand { field k:kid.id; field ks struct k; };",
     "struct grand { field id int rowid; };"]
SLOTS = {"en": EN, "bi": BI, "x": X, "r": R, "s": S, "u": U, "t": T, "o": O, "k": K, "en2": ["item a 1; item z 3;", None, "item a 1;"]}
NAMES = list(SLOTS)
BASES = [dict(en=0, bi=0, x=1, r=1, s=2, u=0, t=0, o=0, k=0, en2=0), dict(en=0, bi=0, x=5, r=0, s=0, u=1, t=1, o=0, k=5, en2=0)]


def text(v):
    g = {n: SLOTS[n][v[n]] for n in NAMES}
    out = ["enum en { %s };" % g["en"]]
    if g["en2"] is not None:
        out.append("enum en2 { %s };" % g["en2"])
    out.append("bits bi { %s }; bits bi2 { item a 0; };" % g["bi"])
    out.append("struct tgt { field id int rowid; field u text unique; %s };" % g["t"])
    if g["o"] is not None:
        out.append("struct oth { field id int rowid; %s };" % g["o"])
    out.append("struct foo { field y int unique; field z int unique; field ex enum en; field bx bits bi; field fixed:tgt.id; %s %s %s %s };" % (
        g["x"] and "field x %s;" % g["x"], g["r"] and "field r%s;" % g["r"], g["s"], g["u"]))
    out.append(g["k"])
    return "\n".join(out) + "\n"


def refused(a, b, destruct):
    """Is migrating from a to b documented not to be possible?"""
    out = []
    for kind, A, B in (("enum", a.enums, b.enums), ("bits", a.bits, b.bits)):
        for n, e in A.items():
            if n not in B:
                if not destruct:
                    out.append("dropped " + kind)
                continue
            nv = {i.name: i.value for i in B[n].items}
            for i in e.items:
                if i.name not in nv:
                    if not destruct:
                        out.append("dropped %s item" % kind)
                elif nv[i.name] != i.value:
                    out.append("changed %s item value" % kind)
    for n, s in a.structs.items():
        t = b.structs.get(n)
        if t is None:
            if not destruct:
                out.append("dropped structure")
            continue
        for f in s.fields.values():
            g = t.fields.get(f.name)
            if g is None:
                if not destruct and f.type != "struct":
                    out.append("dropped field")
                continue
            if f.type != g.type or (f.type in ("enum", "bits") and f.sub != g.sub):
                out.append("changed type")
                continue
            if f.type == "struct":
                continue
            if f.ref != g.ref:
                out.append("changed reference")
            elif (f.actup, f.actdel) != (g.actup, g.actdel):
                out.append("changed action")
            if (f.rowid, f.null) != (g.rowid, g.null):
                out.append("changed rowid or null")
    return out


def mayfail(a, b, db):
    """Why SQLite may refuse the statements (documented or its own limits)."""
    out = []
    for n, t in b.structs.items():
        s = a.structs.get(n)
        if s is None:
            continue
        have = set(s01.defaults(db, n))
        for g in t.fields.values():
            if g.type == "struct" or (g.name in s.fields and s.fields[g.name].type != "struct"):
                f = s.fields.get(g.name)
                if f is not None and g.unique and not f.unique:
                    out.append("new unique")
                continue
            if g.name in have:
                out.append("column still there")
            if g.rowid:
                out.append("primary key")
            elif g.default is None and not g.null:
                out.append("not null without default")
            elif g.default is not None and g.ref:
                out.append("reference with default")
            if g.unique and g.default is not None:
                out.append("unique with default")
        if {frozenset(u) for u in t.uniques} - {frozenset(u) for u in s.uniques}:
            cols = {c for u in t.uniques for c in u}
            if any(c not in s.fields and t.fields[c].default is not None for c in cols):
                out.append("unique with default")
    # a structure is dropped that one which stays still refers to in SQL
    gone = set(a.structs) - set(b.structs)
    for n, s in a.structs.items():
        if n not in gone:
            for r in db.execute('PRAGMA foreign_key_list("%s")' % n).fetchall():
                if r[2] in gone:
                    out.append("dropped table still referred to")
    return out


def value(f, c):
    d = f.default
    if d is None:
        return None
    if f.type == "enum":
        return [i.value for i in c.enums[f.sub].items if i.name == d][0]
    if f.type in ("text", "email"):
        return d.replace('\\"', '"')
    return d


def dump(db):
    out = {}
    for (n,) in db.execute("SELECT name FROM sqlite_master WHERE type='table'").fetchall():
        cur = db.execute('SELECT * FROM "%s" ORDER BY rowid' % n)
        cols = [x[0] for x in cur.description]
        out[n] = [dict(zip(cols, r)) for r in cur]
    return out


def fill(db, c):
    """Two rows in every table; False if the constraints do not let us."""
    db.execute("PRAGMA foreign_keys=ON")
    db.execute("BEGIN")
    db.execute("PRAGMA defer_foreign_keys=ON")
    for s in c.structs.values():
        for k in (1, 2):
            v = s01.row(c, s, k, null=(k == 2))
            for f in s.fields.values():
                if f.ref and v.get(f.name) is not None:
                    v[f.name] = s01.row(c, c.structs[f.ref[0]], k)[f.ref[1]]
            db.execute('INSERT INTO "%s" (%s) VALUES (%s)' % (s.name, ",".join('"%s"' % x for x in v), ",".join("?" * len(v))), list(v.values()))
    db.execute("COMMIT")


class S02(core.Check):
    id = "S02"
    rule = ("state = (database with rows, configuration it was made or migrated to); transition = one ort-sqldiff migration, refused or "
            "executed in SQLite; all pairs of configurations that differ in up to two of ten slots, all histories of two migrations "
            "over the slots of fields, with and without -d; distinct_nontrivial = distinct (history, flag)")
    assumptions = ["SQLite's own limits on ALTER TABLE (primary keys, references with a default) are not held against ort-sqldiff",
                   "tables whose columns were dropped keep them, as documented"]

    def jobs(self, tier):
        out = []
        for i, n in enumerate(NAMES):
            for b in range(len(BASES)):
                out.append(("pair", b, n, None))
                for m in NAMES[i + 1:]:
                    out.append(("pair", b, n, m))
        for b in range(len(BASES)):
            for k in range(len(X)):
                out.append(("hist", b, "x", k))
            for k in range(len(R)):
                out.append(("hist", b, "r", k))
            for k in range(len(K)):
                out.append(("hist", b, "k", k))
            for k in range(len(U)):
                out.append(("hist", b, "u", k))
        out.sort(key=lambda j: -(len(SLOTS[j[2]]) * (len(SLOTS[j[3]]) if j[0] == "pair" and j[3] else len(SLOTS[j[2]]))))
        return out

    def job(self, env, acc, tier, j):
        def one(vs, d):
            if acc.state(repr((vs, d))):
                acc.n["transitions"] += len(vs) - 1
                self.check(env, acc, {"configs": [text(v) for v in vs], "destruct": d})
                for k in self.why:
                    acc.n[k] += 1
        b = BASES[j[1]]
        if j[0] == "pair":
            n, m = j[2], j[3]
            for x, y in itertools.permutations(range(len(SLOTS[n])), 2):
                if m is None:
                    prs = [(b[n], b[n])] if False else [(None, None)]
                else:
                    L = len(SLOTS[m])
                    prs = list(itertools.permutations(range(L), 2))
                    if tier != "thorough" and len(prs) * len(SLOTS[n]) ** 2 > 2500:
                        # one side starts or ends at its base value
                        prs = [p for p in prs if b[m] in p]
                        if len(prs) * len(SLOTS[n]) ** 2 > 2500 and b[n] not in (x, y):
                            continue
                for p, q in prs:
                    u, w = dict(b), dict(b)
                    u[n], w[n] = x, y
                    if m is not None:
                        u[m], w[m] = p, q
                    for d in (False, True):
                        one([u, w], d)
        else:
            n, k = j[2], j[3]
            L = len(SLOTS[n])
            for y in range(L):
                for z in range(L):
                    if tier != "thorough" and n == "x" and b[n] not in (k, y, z) and 0 not in (k, y, z):
                        continue
                    vs = []
                    for i in (k, y, z):
                        v = dict(b)
                        v[n] = i
                        vs.append(v)
                    one(vs, True)
        acc.sample(str(j), 1)

    def schema(self, env, t):
        r = env.run("ort-sql", ["a.ort"], [("a.ort", t)])
        if r.status:
            raise Exception("ort-sql failed: %r" % r.err)
        return r.text

    def judge(self, env, case):
        self.why = []
        cfgs = [ref.accepts([("a.ort", t)])[0] for t in case["configs"]]
        if any(c is None for c in cfgs):
            self.why.append("not accepted")
            return []
        db = sqlite3.connect(":memory:", isolation_level=None)
        try:
            try:
                db.executescript(self.schema(env, case["configs"][0]))
                fill(db, cfgs[0])
            except sqlite3.IntegrityError:
                self.why.append("no rows")
                db.rollback() if db.in_transaction else None
            for i in range(1, len(cfgs)):
                r = self.step(env, case, db, cfgs[i - 1], cfgs[i], case["configs"][i - 1], case["configs"][i], case["destruct"])
                if r is not None:
                    return r
            return []
        finally:
            db.close()

    def step(self, env, case, db, a, b, ta, tb, destruct):
        show = "%s-- old:\n%s-- new:\n%s" % ("(-d) " if destruct else "", ta, tb)
        files = [("o.ort", ta), ("n.ort", tb)]
        d = ["-d"] if destruct else []
        r = env.run("ort-sqldiff", d + ["o.ort", "n.ort"], files)
        if r.crashed:
            return [("crash", "ort-sqldiff ended abnormally: %r; %s" % (r.err[-200:], show))]
        no = refused(a, b, destruct)
        if no:
            self.why.append("refused: " + no[0])
            if r.status == 0:
                return [("accepted:" + no[0], "ort-sqldiff does not refuse (%s); it prints %r; %s" % (", ".join(no), r.text[:300], show))]
            if r.out:
                return [("output", "ort-sqldiff refuses but prints SQL: %r; %s" % (r.out[:300], show))]
            if not r.err:
                return [("silent", "ort-sqldiff refuses without saying why; %s" % show)]
            return []
        if r.status:
            return [("refused", "ort-sqldiff refuses: %r; %s" % (r.err[-300:], show))]
        sql = r.text
        before, sch0 = dump(db), s01.introspect(db)
        may = mayfail(a, b, db)
        if sql and not sql.startswith("PRAGMA foreign_keys=ON;"):
            return [("prologue", "statements do not start by enforcing foreign keys: %r; %s" % (sql[:100], show))]
        try:
            db.executescript(sql)
        except sqlite3.Error as e:
            if may:
                self.why.append("SQLite refuses: " + may[0])
                return []
            return [("sql", "SQLite rejects the migration: %s; SQL: %s; %s" % (e, sql, show))]
        if not sql:
            self.why.append("no change")
        else:
            self.why.append("migrated")
        after, got, exp = dump(db), s01.introspect(db), s01.expect(b)
        if db.execute("PRAGMA foreign_keys").fetchone()[0] != 1:
            return [("pragma", "foreign keys are not enforced afterwards; %s" % show)]
        if db.execute("PRAGMA foreign_key_check").fetchall():
            return [("fk", "rows violate foreign keys afterwards; SQL: %s; %s" % (sql, show))]
        for n in sorted(set(got) | set(exp)):
            if n not in got:
                return [("table", "no table %s afterwards; SQL: %s; %s" % (n, sql, show))]
            if n not in exp:
                return [("table", "%s is still there; SQL: %s; %s" % (n, sql, show))]
            gc, ec = got[n][1], dict(exp[n][1])
            gf, ef = got[n][2], dict(exp[n][2])
            for k in sch0.get(n, (0, {}))[1]:
                if k not in ec:     # dropped, kept as documented
                    ec[k] = sch0[n][1][k]
                    for fk, cnt in sch0[n][2].items():
                        if fk[0] == k:
                            ef[fk] = cnt
            for what, x, y in (("columns", gc, ec), ("foreign keys", gf, ef)):
                if x != y:
                    return [(what, "%s of %s are %s afterwards, expected %s; SQL: %s; %s" % (what, n, x, y, sql, show))]
            gi = {x: (u, p, tuple(sorted(w))) for x, (u, p, w) in got[n][3].items()}
            if gi != exp[n][3]:
                return [("indexes", "indexes of %s are %s afterwards, expected %s; SQL: %s; %s" % (n, gi, exp[n][3], sql, show))]
            if n not in before:
                if after[n]:
                    return [("rows", "new table %s has rows; %s" % (n, show))]
                continue
            added = {k for k in gc if k not in sch0[n][1]}
            want = []
            for row in before[n]:
                w = dict(row)
                for k in added:
                    f = b.structs[n].fields[k]
                    w[k] = value(f, b)
                want.append(w)
            if after[n] != want:
                return [("rows", "rows of %s are %s afterwards, expected %s; SQL: %s; %s" % (n, after[n], want, sql, show))]
            for k in added:
                f = b.structs[n].fields[k]
                dv = s01.defaults(db, n)[k]
                dv = db.execute("SELECT " + dv).fetchone()[0] if dv is not None else None
                if dv != value(f, b):
                    return [("default", "default of %s.%s is %r, expected %r; SQL: %s; %s" % (n, k, dv, value(f, b), sql, show))]
        # the other ways to name the files
        for args, fl, inp in ((d + ["o.ort", "-f", "n.ort"], files, b""), (d + ["-f", "n.ort"], files[1:], ta.encode()),
                              (d + ["o.ort", "-f"], files[:1], tb.encode()), (d + ["o.ort"], files[:1], tb.encode())):
            r2 = env.run("ort-sqldiff", args, fl, inp)
            if (r2.status, r2.out) != (r.status, r.out):
                return [("arguments", "ort-sqldiff %s gives another result than with two names: %r instead of %r; %s" % (" ".join(args), r2, r, show))]
        return None


if __name__ == "__main__":
    core.main(S02())
