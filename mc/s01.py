"""S01: the SQL schema that ort-sql prints creates exactly the tables the
configuration describes."""
import collections, itertools, json, sqlite3
import core, corpus, ref, space

STYPE = {"bit": "INTEGER", "date": "INTEGER", "epoch": "INTEGER", "int": "INTEGER", "real": "REAL", "blob": "BLOB",
         "text": "TEXT", "password": "TEXT", "email": "TEXT", "enum": "INTEGER", "bits": "INTEGER"}
ACT = {"none": "NO ACTION", "restrict": "RESTRICT", "nullify": "SET NULL", "cascade": "CASCADE", "default": "SET DEFAULT"}


def expect(c):
    out = {}
    for s in c.structs.values():
        cols, fks, idx = {}, collections.Counter(), {}
        for f in s.fields.values():
            if f.type == "struct":
                continue
            cols[f.name] = (STYPE[f.type], not f.rowid and not f.null, f.rowid)
            if f.ref:
                fks[(f.name, f.ref[0], f.ref[1], ACT[f.actup], ACT[f.actdel])] += 1
            if f.unique:
                idx["unique_%s__%s" % (s.name, f.name)] = (True, False, (f.name,))
        for u in s.uniques:
            us = sorted(u)
            idx["unique_%s__%s" % (s.name, "_".join(us))] = (True, False, tuple(us))
        out[s.name] = (list(cols), cols, dict(fks), idx)
    return out


def introspect(db):
    out = {}
    for (n, sql) in db.execute("SELECT name,sql FROM sqlite_master WHERE type='table' AND name NOT LIKE 'sqlite\\_%' ESCAPE '\\'"):
        cols, order = {}, []
        for r in db.execute('PRAGMA table_xinfo("%s")' % n):
            cols[r[1]] = (r[2], bool(r[3]), bool(r[5]))
            order.append(r[1])
        fks = collections.Counter()
        for r in db.execute('PRAGMA foreign_key_list("%s")' % n):
            fks[(r[3], r[2], r[4], r[5], r[6])] += 1
        idx = {}
        for r in db.execute('PRAGMA index_list("%s")' % n).fetchall():
            k = [x[2] for x in db.execute('PRAGMA index_info("%s")' % r[1])]
            idx[r[1]] = (bool(r[2]), bool(r[4]), tuple(k))
        out[n] = (order, cols, dict(fks), idx)
    for (t, n) in db.execute("SELECT type,name FROM sqlite_master WHERE type NOT IN ('table','index')"):
        out[t + " " + n] = None
    return out


def defaults(db, n):
    return {r[1]: r[4] for r in db.execute('PRAGMA table_xinfo("%s")' % n)}


def row(c, s, k, null=False):
    """A row for structure s; k tells rows apart."""
    out = {}
    for f in s.fields.values():
        if f.type == "struct":
            continue
        if f.ref and f.type == "int" or f.rowid:
            v = k
        elif f.type in ("text", "email", "password"):
            v = "t%d" % k
        elif f.type == "blob":
            v = b"b%d" % k
        elif f.type == "real":
            v = k + 0.5
        else:
            v = k
        out[f.name] = None if null and f.null else v
    return out


HOST = ["a", "'", '"', "\n", "-", "--", "/*", "*/", ";", "\\", "\t", "\r\n", ") ", ");", "\n;"]


class S01(core.Check):
    id = "S01"
    rule = ("state = accepted configuration (field, unique, reference-action and name spaces, every SQLite keyword as a name, hostile "
            "comments); transition = executing the printed schema in SQLite and reading the catalogue back, then inserting "
            "rows that must and must not be allowed; distinct_nontrivial = distinct accepted configurations")
    assumptions = ["SQLite is the SQL dialect (ort-sql.1)", "DEFAULT clauses may be there or not: ort(5) and ort-sql(1) disagree"]

    def jobs(self, tier):
        out = [("field", i) for i in range(8)] + [("values", i) for i in range(4)] + [("act", i) for i in range(4)]
        out += [("corpus", i) for i in range(4)] + [("kw", i) for i in range(8)] + [("com", i) for i in range(5)]
        for g, d in {"fields": 2, "uniques": 3, "tops": 2}.items():
            d += tier == "thorough"
            for i in range(len(space.GROUPS[g])):
                out.append(("menu", g, d, [i]))
        n = 3
        out += [("perm", i) for i in range(8)]
        out += [("graph", p, 0) for p in itertools.permutations(range(n))]
        return out

    def job(self, env, acc, tier, j):
        def one(t):
            if not acc.state(t):
                return
            c = ref.accepts([("a.ort", t)])[0]
            if c is None:
                acc.n["rejected"] += 1
                return
            acc.n["accepted"] += 1
            acc.n["transitions"] += 1
            self.check(env, acc, {"text": t})
        if j[0] == "field":
            for t in itertools.islice(space.field_products(tier), j[1], None, 8):
                one(space.foo(t))
        elif j[0] == "values":
            for t in space.values()[j[1]::4]:
                one(t)
        elif j[0] == "corpus":
            for n, t in corpus.files()[j[1]::4]:
                one(t)
        elif j[0] == "act":
            acts = ["", "none", "restrict", "cascade", "nullify", "default"]
            for x in list(itertools.product(["tgt.id", "tgt.u", "foo.z", "foo.id"], ["", "null", "unique null", "default 3", "null default 3"], acts, acts))[j[1]::4]:
                one(space.foo("field k:%s %s%s%s;" % (x[0], x[1], x[2] and " actup " + x[2], x[3] and " actdel " + x[3])))
                one(space.foo("field k:%s text %s%s%s;" % (x[0], x[1], x[2] and " actup " + x[2], x[3] and " actdel " + x[3])))
        elif j[0] == "kw":
            for k in KEYWORDS[j[1]::8]:
                one("struct %s { field id int rowid; field a int unique; };\nstruct zz { field r:%s.id; field s struct r; };\n" % (k, k))
                one("struct zz { field %s int unique; field b text; unique %s, b; };\nstruct yy { field r:zz.%s; field s struct r; list s.%s; };\n" % (k, k, k, k))
                one("struct zz { field id int rowid; field %s:zz.id int actdel cascade; };\n" % k)
        elif j[0] == "com":
            for n in (1, 2, 3 if tier == "thorough" else 2):
                for v in itertools.product(HOST, repeat=n):
                    q = "".join(v)
                    if j[1] == 0:
                        one('struct zz { comment "%s"; field id int rowid; field b text; };\n' % q.replace('"', '\\"'))
                    elif j[1] == 1:
                        one('struct zz { field id int rowid comment "%s"; field b text; };\n' % q.replace('"', '\\"'))
                    elif j[1] == 2:
                        one('struct zz { field id int rowid; field b date comment "%s" unique; field c:zz.id comment "%s"; };\n' % ((q.replace('"', '\\"'),) * 2))
                    elif j[1] == 3:
                        one('struct zz { field id int rowid; field b text default "%s"; };\n' % q.replace('"', '\\"'))
                    else:
                        one('struct zz { comment "%s"; field id int rowid comment "%s"; };\nstruct yy { comment "%s"; field q int; };\n' % (
                            "x" * 79 + q.replace('"', '\\"'), "y " * 36 + q.replace('"', '\\"'), q.replace('"', '\\"')))
        elif j[0] == "perm":
            fs = ["field id int rowid;", "field r:tgt.id int actdel cascade;", "field s struct r;", "field d date;",
                  "field u text unique null;", "field q:tgt.u text; field t struct q;"]
            us = ["", "unique d, u;", "unique u, r, d; unique q, d;"]
            n = 0
            for k in range(1, len(fs) + 1):
                for c in itertools.permutations(fs, k):
                    n += 1
                    if n % 8 != j[1]:
                        continue
                    for u in us:
                        one("struct tgt { field id int rowid; field u text unique; };\nstruct foo { %s %s };\n" % (" ".join(c), u))
                        one("struct foo { %s %s };\nstruct tgt { field u text unique; field id int rowid; };\n" % (u, " ".join(c)))
        elif j[0] == "graph":
            pairs = [(a, b) for a in range(3) for b in range(3) if a != b]
            for m in range(1 << len(pairs)):
                one(space.graphs(3, j[1], [p for i, p in enumerate(pairs) if m >> i & 1], ()))
        else:
            menu = space.GROUPS[j[1]]

            def go(idx):
                one(space.text(j[1], [menu[i] for i in idx]))
                if len(idx) < j[2]:
                    for i in range(len(menu)):
                        go(idx + [i])
            go(j[3])
        acc.sample(str(j), 1)

    def judge(self, env, case):
        t = case["text"]
        c = ref.accepts([("a.ort", t)])[0]
        if c is None:
            return []
        r = env.run("ort-sql", ["a.ort"], [("a.ort", t.encode("latin1"))])
        show = t[-500:]
        if r.crashed or r.status:
            return [("failed", "ort-sql failed (status %d): %r; %s" % (r.status, r.err[-200:], show))]
        sql = r.out.decode("latin1")
        db = sqlite3.connect(":memory:")
        try:
            try:
                db.executescript(sql)
            except sqlite3.Error as e:
                return [("sql", "SQLite rejects the schema: %s; schema: %s; config: %s" % (e, sql[-400:], show))]
            got, exp = introspect(db), expect(c)
            for n in sorted(set(got) | set(exp)):
                if n not in got:
                    return [("table", "no table %s; config: %s" % (n, show))]
                if n not in exp:
                    return [("table", "unexpected %s; config: %s" % (n, show))]
                for k, a, b in zip(("columns", "columns", "foreign keys", "indexes"), got[n], exp[n]):
                    if k == "indexes":
                        # the names of indexes are documented; the order of columns is not
                        a = {x: (u, p, tuple(sorted(w))) for x, (u, p, w) in a.items()}
                    if a != b:
                        return [(k, "%s of %s are %s, expected %s; config: %s" % (k, n, a, b, show))]
                for f, d in defaults(db, n).items():
                    if d is not None and c.structs[n].fields[f].default is None:
                        return [("default", "%s.%s has default %s; config: %s" % (n, f, d, show))]
            if db.execute("PRAGMA foreign_keys").fetchone()[0] != 1:
                return [("pragma", "foreign keys are not enforced; config: %s" % show)]
            # the schema works: rows that satisfy it go in, foreign keys resolve
            try:
                db.execute("BEGIN")
                db.execute("PRAGMA defer_foreign_keys=ON")
                for s in c.structs.values():
                    v = row(c, s, 1)
                    db.execute('INSERT INTO "%s" (%s) VALUES (%s)' % (s.name, ",".join('"%s"' % k for k in v), ",".join("?" * len(v))), list(v.values()))
                db.execute("COMMIT")
            except sqlite3.OperationalError as e:
                return [("use", "the tables cannot be used: %s; schema: %s; config: %s" % (e, sql[-300:], show))]
            except sqlite3.IntegrityError:
                pass
        finally:
            db.close()
        return []


KEYWORDS = """abort action add after all alter always analyze and as asc attach autoincrement before begin between by cascade case
cast check collate column commit conflict constraint create cross current current_date database default deferrable deferred
delete desc detach distinct do drop each else end escape except exclude exclusive exists explain fail filter first following for
foreign from full generated glob group groups having if ignore immediate in index indexed initially inner insert instead
intersect into is isnull join key last left like limit match materialized natural no not nothing notnull null nulls of offset on
or order others outer over partition plan pragma preceding primary query raise range recursive references regexp reindex release
rename replace restrict returning right rollback row rows savepoint select set table temp temporary then ties to transaction
trigger unbounded union unique update using vacuum values view virtual when where window with without rowid oid sqlite main
integer text blob real true false stored strict within percent like min max abs count sum""".split()
KEYWORDS = [k for k in KEYWORDS if "_" not in k]

if __name__ == "__main__":
    core.main(S01())
