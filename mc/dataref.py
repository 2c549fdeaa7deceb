"""What the operations of a configuration mean on the contents of a database:
a reference model that knows nothing about the code that is generated.

A database is {structure: [row, ...]}, a row a dict of the fields that are not
structures.  Passwords are stored as HASH + clear text, or raw."""
import functools, itertools, re

HASH = "$2b$10$0$"
INTS = ("bit", "date", "epoch", "int", "enum", "bits")
TEXTS = ("text", "email", "password")


def cols(s):
    return [f for f in s.fields.values() if f.type != "struct"]


def tables(cfg):
    """Structures so that those referred to come first."""
    out, seen = [], set()

    def go(n):
        if n in seen:
            return
        seen.add(n)
        for f in cfg.structs[n].fields.values():
            if f.ref and f.ref[0] != n:
                go(f.ref[0])
        out.append(n)
    for n in cfg.structs:
        go(n)
    return out


def keyof(v):
    """SQLite's order of values of one column."""
    if v is None:
        return (0, 0)
    if isinstance(v, (int, float)):
        return (1, v)
    if isinstance(v, str):
        return (2, v.encode())
    return (3, v)


def like(s, pat):
    r = "".join("[^]" if False else "." if c == "_" else ".*" if c == "%" else re.escape(c) for c in pat)
    up = lambda x: re.sub("[a-z]", lambda m: m.group().upper(), x)
    rr = "".join("." if c == "_" else ".*" if c == "%" else re.escape(c) for c in up(pat))
    del r
    return re.fullmatch(rr, up(s), re.S) is not None


def compare(op, have, val):
    """have <op> val, false if either is null."""
    if op == "isnull":
        return have is None
    if op == "notnull":
        return have is not None
    if have is None or val is None:
        return False
    a, b = keyof(have), keyof(val)
    if op in ("eq", "streq"):
        return a == b
    if op in ("neq", "strneq"):
        return a != b
    if op == "lt":
        return a < b
    if op == "gt":
        return a > b
    if op == "le":
        return a <= b
    if op == "ge":
        return a >= b
    if op == "and":
        return have & val != 0
    if op == "or":
        return have | val != 0
    if op == "like":
        return like(have, val)
    raise ValueError(op)


def obj(cfg, db, s, row):
    """A row with its structures filled in."""
    out = {}
    for f in s.fields.values():
        if f.type != "struct":
            out[f.name] = row[f.name]
            continue
        src = s.fields[f.sub]
        t = cfg.structs[src.ref[0]]
        v = row[src.name]
        out[f.name] = None
        if v is not None:
            for r in db[t.name]:
                if r[src.ref[1]] is not None and keyof(r[src.ref[1]]) == keyof(v):
                    out[f.name] = obj(cfg, db, t, r)
                    break
    return out


def follow(cfg, s, o, path):
    """(structure, field, value) at the end of a path."""
    for i, n in enumerate(path):
        f = s.fields[n]
        if i == len(path) - 1:
            return s, f, o[n]
        o = o[n]
        s = cfg.target(f)


def freeze(o):
    if isinstance(o, dict):
        return tuple((k, freeze(v)) for k, v in o.items())
    return (type(o) is float and o == int(o) and "r" or "", keyof(o)) if not isinstance(o, (list, tuple)) else o


def passterm(f, op):
    return f.type == "password" and op in ("eq", "neq")


def params(cfg, s, terms):
    """Fields of the terms that take a parameter."""
    out = []
    for p, op in terms:
        st = s
        for n in p[:-1]:
            st = cfg.target(st.fields[n])
        f = st.fields[p[-1]]
        if op not in ("isnull", "notnull"):
            out.append((f, op))
    return out


class Spec:
    """The results that a query may give."""
    pass


def query(cfg, db, sname, q, args):
    """What a query gives: Spec with rows (candidates in order of no
    consequence), keys (sort keys), lo, hi (slice), pw (predicate)."""
    s = cfg.structs[sname]
    cand = []
    pws = []
    it = iter(args)
    vals = []
    for p, op in q.terms:
        vals.append(None if op in ("isnull", "notnull") else next(it))
    for row in db[sname]:
        o = obj(cfg, db, s, row)
        ok = True
        pw = True
        for (p, op), v in zip(q.terms, vals):
            _, f, have = follow(cfg, s, o, p)
            if passterm(f, op):
                same = have is not None and v is not None and have == HASH + v
                if op == "neq":
                    same = have is not None and v is not None and not same
                pw = pw and same
            elif not compare(op, have, v):
                ok = False
                break
        if not ok:
            continue
        key = tuple((keyof(follow(cfg, s, o, p)[2]), d) for p, d in q.order)
        cand.append((o, key, pw))
    sp = Spec()
    sp.group = None
    if q.group is not None:
        groups = {}
        for c in cand:
            groups.setdefault(keyof(follow(cfg, s, c[0], q.group)[2]), []).append(c)
        sp.group = []
        for g in groups.values():
            a = [keyof(follow(cfg, s, c[0], q.aggr[1])[2]) for c in g]
            best = (max if q.aggr[0] == "maxrow" else min)(a)
            sp.group.append([c for c, k in zip(g, a) if k == best])
        cand = [c for g in sp.group for c in g]
    sp.freeorder = False
    if q.distinct is not None:
        seen, out = set(), []
        for o, key, pw in cand:
            t = o
            if q.distinct != ["."]:
                t = follow(cfg, s, o, q.distinct)[2]
                # the order may be by what is not in the result
                if any(p[:len(q.distinct)] != q.distinct for p, d in q.order):
                    sp.freeorder = True
            fr = freeze(t)
            if fr not in seen:
                seen.add(fr)
                out.append((t, key, pw))
        cand = out
    sp.cand = cand
    sp.lo = q.offset
    sp.hi = q.offset + q.limit if q.limit else None
    sp.order = bool(q.order)
    return sp


def cmpkeys(a, b):
    for (x, d), (y, _) in zip(a, b):
        if x != y:
            r = -1 if x < y else 1
            return -r if d == "desc" else r
    return 0


def judge_query(cfg, db, sname, q, args, kind, got):
    """None if `got` (list of objects, object or None, or number) is what the
    query may give, else what is wrong."""
    sp = query(cfg, db, sname, q, args)
    cand = sp.cand
    if kind == "count":
        n = len(sp.group) if sp.group is not None else len(cand)
        if q.distinct is not None and sp.group is not None:
            return None
        n = max(0, n - sp.lo)
        if q.limit:
            n = min(n, q.limit)
        return None if got == n else "counted %r, expected %d" % (got, n)
    if kind == "search":
        rows = [] if got is None else [got]
    else:
        rows = got
    srt = sorted(cand, key=functools.cmp_to_key(lambda a, b: cmpkeys(a[1], b[1])))
    hi = sp.hi
    lo = sp.lo
    if kind == "search":
        hi = lo + 1 if hi is None else min(hi, lo + 1)
    groupties = sp.group is not None and any(len(g) > 1 for g in sp.group)
    sliced = lo > 0 or (hi is not None and hi < len(srt))
    total = all(cmpkeys(a[1], b[1]) != 0 for a, b in zip(srt, srt[1:])) and sp.order and not sp.freeorder
    fz = [freeze(r) for r in rows]
    if not groupties and (not sliced or total):
        exp = [c for c in (srt[lo:hi]) if c[2]]
        if sorted(map(repr, fz)) != sorted(repr(freeze(c[0])) for c in exp):
            return "gave %r, expected %r" % (rows, [c[0] for c in exp])
        if sp.order and not sp.freeorder:
            # the keys of the results, in the order they came
            pool = [(repr(freeze(c[0])), c[1]) for c in exp]
            ks = []
            for f in fz:
                for i, (r, k) in enumerate(pool):
                    if r == repr(f):
                        ks.append(k)
                        del pool[i]
                        break
            if any(cmpkeys(a, b) > 0 for a, b in zip(ks, ks[1:])):
                return "gave %r, which is out of order" % (rows,)
        return None
    # any choice that is consistent
    pool = [repr(freeze(c[0])) for c in cand if c[2]]
    for f in fz:
        if repr(f) not in pool:
            return "gave %r, out of which %r does not match; candidates %r" % (rows, f, [c[0] for c in cand if c[2]])
        pool.remove(repr(f))
    n = len(sp.group) if groupties else len(srt)
    top = max(0, min(n, hi if hi is not None else n) - lo)
    if all(c[2] for c in cand):
        if len(rows) != top:
            return "gave %d rows %r, expected %d" % (len(rows), rows, top)
        if sp.order and not sp.freeorder and not groupties:
            m = {}
            for c in cand:
                m.setdefault(repr(freeze(c[0])), c[1])
            ks = [m[repr(f)] for f in fz]
            if any(cmpkeys(a, c[1]) != 0 for a, c in zip(ks, srt[lo:hi])):
                return "gave %r, which is not the right part of the order" % (rows,)
    elif len(rows) > top:
        return "gave %d rows %r, expected at most %d" % (len(rows), rows, top)
    if groupties:
        for g in sp.group:
            k = [repr(freeze(c[0])) for c in g]
            if len(g) > 1 and sum(fz_ in k for fz_ in map(repr, fz)) > 1:
                return "gave %r: more than one row of a group" % (rows,)
    return None


# ---- modification --------------------------------------------------------

class Conflict(Exception):
    """A constraint does not hold."""


class Undetermined(Exception):
    """Depends on the order in which the rows are visited."""


def uniques(s):
    out = [[f.name] for f in cols(s) if f.unique or f.rowid]
    out += [list(u) for u in s.uniques]
    return out


def check(cfg, db):
    for n, s in cfg.structs.items():
        for u in uniques(s):
            seen = set()
            for r in db[n]:
                k = tuple(keyof(r[c]) for c in u)
                if any(r[c] is None for c in u):
                    continue
                if k in seen:
                    raise Conflict("unique")
                seen.add(k)
        for f in cols(s):
            if f.ref:
                have = {keyof(r[f.ref[1]]) for r in db[f.ref[0]]}
                for r in db[n]:
                    if r[f.name] is not None and keyof(r[f.name]) not in have:
                        raise Conflict("reference")
            if not f.null and not f.rowid:
                for r in db[n]:
                    if r[f.name] is None:
                        raise Conflict("null")


def copy(db):
    return {n: [dict(r) for r in rs] for n, rs in db.items()}


def stored(f, v, hashed=True):
    if f.type == "password" and v is not None and hashed:
        return HASH + v
    return v


def insert(cfg, db, sname, args):
    """The new database and the new row."""
    s = cfg.structs[sname]
    db = copy(db)
    row = {}
    it = iter(args)
    for f in cols(s):
        if f.rowid:
            row[f.name] = max([r[f.name] for r in db[sname]], default=0) + 1
        else:
            row[f.name] = stored(f, next(it))
    db[sname].append(row)
    check(cfg, db)
    return db, row


def matching(s, rows, cons, args):
    out = []
    for r in rows:
        it = iter(args)
        ok = True
        for n, op in cons:
            v = None if op in ("isnull", "notnull") else next(it)
            if not compare(op, r[n], v):
                ok = False
        if ok:
            out.append(r)
    return out


def refs(cfg, sname):
    for n, s in cfg.structs.items():
        for f in cols(s):
            if f.ref and f.ref[0] == sname:
                yield n, f


def remove(cfg, db, sname, row):
    """Remove a row, with what that does to those that refer to it."""
    db[sname] = [r for r in db[sname] if r is not row]
    for n, f in refs(cfg, sname):
        v = row[f.ref[1]]
        if v is None:
            continue
        for r in list(db[n]):
            if r is row or r[f.name] is None or keyof(r[f.name]) != keyof(v):
                continue
            act = f.actdel
            if act == "cascade":
                if any(x is r for x in db[n]):
                    remove(cfg, db, n, r)
            elif act in ("nullify", "default"):
                nv = None if act == "nullify" else SQLDEF(f)
                setval(cfg, db, n, r, f.name, nv)
            elif act == "restrict":
                raise Conflict("reference")


def SQLDEF(f):
    # ort-sql declares no defaults
    return None


def setval(cfg, db, sname, row, name, v):
    old = row[name]
    row[name] = v
    if old is None or (v is not None and keyof(old) == keyof(v)):
        return
    for n, f in refs(cfg, sname):
        if f.ref[1] != name:
            continue
        for r in list(db[n]):
            if r[f.name] is None or keyof(r[f.name]) != keyof(old) or (r is row and f.name == name):
                continue
            if f.actup == "cascade":
                setval(cfg, db, n, r, f.name, v)
            elif f.actup in ("nullify", "default"):
                setval(cfg, db, n, r, f.name, None)
            elif f.actup == "restrict":
                raise Conflict("reference")


def delete(cfg, db, sname, u, args):
    s = cfg.structs[sname]
    db = copy(db)
    for r in matching(s, db[sname], u.cons, args):
        if any(x is r for x in db[sname]):
            remove(cfg, db, sname, r)
    check(cfg, db)
    return db


def modified(f, op, old, v):
    if op in ("set", "strset"):
        return stored(f, v, op == "set")
    if op == "concat" and old is None:
        # what is not there is taken for empty
        old = b"" if isinstance(v, bytes) else ""
    if old is None or v is None:
        return None
    if op == "inc":
        return old + v
    if op == "dec":
        return old - v
    if op == "concat":
        return old + v
    raise ValueError(op)


def update(cfg, db, sname, u, args):
    s = cfg.structs[sname]
    db0 = db
    db = copy(db)
    n = len(u.mods)
    rows = matching(s, db[sname], u.cons, args[n:])
    # all new values first: they are of the old row
    new = [{f: modified(s.fields[f], op, r[f], v) for (f, op), v in zip(u.mods, args)} for r in rows]
    err = None
    try:
        for r, w in zip(rows, new):
            for k, v in w.items():
                setval(cfg, db, sname, r, k, v)
        check(cfg, db)
    except Conflict as e:
        err = e
    if len(rows) > 1:
        keyed = set(itertools.chain(*uniques(s))) | {f.ref[1] for _, f in refs(cfg, sname)}
        if keyed & {k for k, _ in u.mods}:
            # row by row: does any order give another answer?
            if err is None:
                for a in rows:
                    pass
                old = [dict(r) for r in matching(s, db0[sname], u.cons, args[n:])]
                for uq in uniques(s):
                    os_ = {tuple(keyof(r[c]) for c in uq) for r in old}
                    ns = {tuple(keyof(w.get(c, r[c])) for c in uq) for r, w in zip(old, new)}
                    moved = any(tuple(keyof(r[c]) for c in uq) != tuple(keyof(w.get(c, r[c])) for c in uq) for r, w in zip(old, new))
                    if moved and os_ & ns:
                        raise Undetermined()
    if err is not None:
        raise err
    return db
