"""R01: the audits list exactly what a role may do and reach."""
import collections, itertools, json
import core, ref

FORESTS = ["role ra { role rb { role rd; }; }; role rc;",
           "role ra comment \"A role\\n\\\"q\\\" of \\\\ work\"; role rb; role rc; role rd;",
           "role rd { role rc { role rb { role ra; }; }; };",
           "role rb { role ra; role rd; }; role rc { role re; };"]
WHO = ["ra", "rb", "rc", "rd", "re", "default", "all", "none", "RB"]
FOO = ("struct foo {\ncomment \"a foo\";\nfield id int rowid;\nfield x int noexport comment \"x \\\\ it\\n\";\nfield pw passwd;\n"
       "field mid:mid.id;\nfield m struct mid%s;\nfield omid:mid.id int null;\nfield om struct omid;\n"
       "field tid:tgt.id;\nfield t struct tid;\n"
       "insert;\nlist x: name q;\nsearch id: name s comment \"find\";\niterate: name dm distinct m;\n"
       "list x gt: name dt distinct m.t;\ncount x: name c;\nlist x;\nlist m.t.v ge, x isnull;\ncount: name ds distinct .;\n"
       "update x: id: name u comment \"up\\t1\";\nupdate;\nupdate x inc: id, x gt;\ndelete id: name d;\ndelete x like;\n")
FOO = FOO.replace("delete x like", "delete x le")
MID = ("struct mid {\nfield id int rowid;\nfield tid:tgt.id;\nfield t struct tid%s;\nfield mv int;\n"
       "list: name ml;\niterate mv: name mi;\n")
TGT = "struct tgt {\nfield id int rowid;\nfield v int;\ninsert;\nsearch id: name ts;\nfield w text noexport;\n"

A = ["", "roles ra { all; };", "roles rb { insert; list q; };", "roles rb, rc { search s; update u; };",
     "roles ra { iterate dm; list dt; };", "roles rd { count c; count ds; delete d; };", "roles rb { noexport x; };",
     "roles rb { noexport; };", "roles ra { noexport m; };", "roles all { list q; noexport t; };",
     "roles default { iterate dm; insert; };", "roles rd { all; noexport id; };", "roles rc { noexport om; list q; };",
     "roles all { noexport; };", "roles rb { insert; list q; iterate dm; list dt; search s; count c; };"]
BM = ["", "roles ra { noexport; };", "roles rb { noexport t; };", "roles rb { list ml; };", "roles rc, rd { all; };",
      "roles all { iterate mi; noexport mv; };"]
CT = ["", "roles rb { noexport; };", "roles rd { insert; search ts; };", "roles all { noexport v; };"]
FLAGS = list(itertools.product(["", " noexport"], repeat=2))


def cfg(forest, a, b, c, fl):
    return ("roles { %s };\n" % forest + FOO % fl[0] + "\n".join(a) + "\n};\n" + MID % fl[1] + b + "\n};\n" + TGT + c + "\n};\n")


def opname(o):
    return {"search": "get"}.get(o, o)


def fn(s, q):
    if q.kind in ref.STYPES:
        base = "db_%s_%s" % (s.name, opname(q.kind))
        if q.name:
            return base + "_" + q.name
        if q.terms:
            return base + "_by" + "".join("_%s_%s" % ("_".join(p), o) for p, o in q.terms)
        return base
    base = "db_%s_%s" % (s.name, q.kind)
    if q.name:
        return base + "_" + q.name
    if q.kind == "update" and not q.all:
        base += "".join("_%s_%s" % (n, {"concat": "cat"}.get(m, m)) for n, m in q.mods)
    if q.cons:
        base += "_by" + "".join("_%s_%s" % (n, o) for n, o in q.cons)
    return base


def audit(c, role):
    """What `role` may do: operations, and structures reached by path."""
    ops, reach = [], []
    for n in c.order:
        s = c.structs[n]
        if s.insert and c.holds(role, c.op_roles(s, "insert", None)):
            ops.append(("insert", s, None, s.insline))
        for u in s.updates + s.deletes:
            if c.holds(role, c.op_roles(s, u.kind, u.name)):
                ops.append((u.kind, s, u, u.line))
        for q in s.queries:
            if not c.holds(role, c.op_roles(s, q.kind, q.name)):
                continue
            ops.append((q.kind, s, q, q.line))
            st = s
            if q.distinct and q.distinct != ["."]:
                for p in q.distinct:
                    st = c.target(st.fields[p])

            def go(st, exp, path):
                if c.holds(role, frozenset(st.rolemaps.get(("noexport", None), ()))):
                    exp = False
                reach.append((st, q, s, path, exp))
                for f in st.fields.values():
                    if f.type == "struct":
                        e = exp and not f.noexport and not c.holds(role, c.noexport_roles(st, f))
                        go(c.target(f), e, path + [f.name])
            go(st, True, [])
    return ops, reach


def plain(c, role, verb):
    ops, reach = audit(c, role)
    out = collections.Counter()
    for k, s, o, line in ops:
        comp = s.name if o is None else "%s:%s" % (s.name, o.name or "-")
        out[(k, comp, line)] += 1
    if verb:
        for st, q, s, path, exp in reach:
            out[("readwrite" if exp else "read",
                 "%s:%s:%s:%s" % (st.name, q.kind, q.name or "-", ".".join(path) or "-"), q.line)] += 1
    else:
        best = {}
        for st, q, s, path, exp in reach:
            best[st.name] = best.get(st.name, False) or exp
        for n, e in best.items():
            out[("readwrite" if e else "read", n, c.structs[n].line)] += 1
    return out


def unesc(s):
    return None if s is None else s.replace('\\"', '"')


def jexpect(c, role):
    ops, reach = audit(c, role)
    acc, fns, fields = [], {}, {}
    for n in c.order:
        s = c.structs[n]
        a = {"insert": None, "update": [], "delete": [], "count": [], "get": [], "list": [], "iterate": []}
        for k, st, o, line in ops:
            if st is not s:
                continue
            if o is None:
                a["insert"] = "db_%s_insert" % n
                fns["db_%s_insert" % n] = {"doc": None, "type": "insert"}
            else:
                f = fn(s, o)
                a[opname(k)].append(f)
                fns[f] = {"doc": unesc(o.doc), "type": opname(k)}
        for k in a:
            if k != "insert":
                a[k].sort()
        rs = [r for r in reach if r[0] is s]
        if rs:
            a["exportable"] = any(r[4] for r in rs)
            a["data"] = list(s.fields)
            a["accessfrom"] = sorted([fn(r[2], r[1]), r[4], ".".join(r[3])] for r in rs)
            for f in s.fields.values():
                fields["%s.%s" % (n, f.name)] = {
                    "export": not f.noexport and not c.holds(role, c.noexport_roles(s, f)) and f.type != "password",
                    "doc": unesc(f.doc)}
                if f.type == "password":
                    fields["%s.%s" % (n, f.name)]["export"] = None
        acc.append({"name": n, "access": a})
    return {"role": role, "doc": unesc(c.roles[role].doc), "access": acc, "functions": fns, "fields": fields}


def jnorm(d):
    d["access"].sort(key=lambda s: s["name"])
    for s in d["access"]:
        a = s["access"]
        for k in ("update", "delete", "count", "get", "list", "iterate"):
            a[k] = sorted(a[k])
        if "accessfrom" in a:
            a["accessfrom"] = sorted([x["function"], x["exporting"], x["path"]] for x in a["accessfrom"])
    return d


class R01(core.Check):
    id = "R01"
    rule = ("state = (configuration, audited role, report): role forest x role statements on a structure (up to two) x on the "
            "structures nested in it x noexport marks; transition = one run of ort-audit, ort-audit -v, ort-audit-json or "
            "ort-audit-json -s; distinct_nontrivial = distinct (configuration, role)")
    assumptions = ["the role is always named: the manual's and the program's default role differ and are not judged",
                   "the export mark of password fields in ort-audit-json is not judged", "columns of positions are not judged"]

    def jobs(self, tier):
        return [(f, i) for f in range(len(FORESTS)) for i in range(len(A))]

    def job(self, env, acc, tier, j):
        fo, i = j
        al = [(A[i],)] + [(A[i], A[k]) for k in range(1, len(A)) if i]

        def one(al, b, c, fl):
            t = cfg(FORESTS[fo], al, b, c, fl)
            r = ref.accepts([("a.ort", t)])
            if r[0] is None:
                acc.n["rejected: " + r[1].msg] += 1
            for w in WHO:
                if acc.state(t + w):
                    acc.n["transitions"] += 4
                    self.check(env, acc, {"text": t, "role": w})
        for b, c, fl in itertools.product(BM, CT, FLAGS):
            one(al[0], b, c, fl)
        for x in al[1:]:
            for b, c in (itertools.product(BM, CT) if tier == "thorough" else [("", ""), (BM[1], ""), (BM[2], CT[1]), (BM[4], CT[2])]):
                one(x, b, c, ("", ""))
        acc.sample({"roles": FORESTS[fo], "foo": A[i]}, 1)

    def judge(self, env, case):
        t, role = case["text"], case["role"]
        c, e = ref.accepts([("a.ort", t)])
        out = []
        want = role.lower() if c is not None and role.lower() in c.roles else None
        show = "role %s; %s" % (role, t)
        for verb in (False, True):
            r = env.run("ort-audit", (["-v"] if verb else []) + ["-r", role, "a.ort"], [("a.ort", t)])
            k = "verbose" if verb else "plain"
            if r.crashed:
                out.append((k + ":crash", "ort-audit ended abnormally: %r; %s" % (r.err[-200:], show)))
                continue
            if want is None:
                if r.status == 0 or r.out:
                    out.append((k + ":accepted", "audited a role or configuration that does not exist: %r; %s" % (r.out[:200], show)))
                continue
            if r.status:
                out.append((k + ":failed", "ort-audit failed: %r; %s" % (r.err[-200:], show)))
                continue
            got = collections.Counter()
            for l in r.text.splitlines():
                p = l.split()
                got[(p[0], p[1], int(p[2].split(":")[1]))] += 1
            exp = plain(c, want, verb)
            if got != exp:
                out.append((k, "ort-audit lists %s and omits %s; %s" % (sorted((got - exp).items()), sorted((exp - got).items()), show)))
        for sa in (False, True):
            r = env.run("ort-audit-json", (["-s"] if sa else []) + ["-r", role, "a.ort"], [("a.ort", t)])
            k = "js" if sa else "json"
            if r.crashed:
                out.append((k + ":crash", "ort-audit-json ended abnormally: %r; %s" % (r.err[-200:], show)))
                continue
            if want is None:
                if r.status == 0 or r.out:
                    out.append((k + ":accepted", "audited a role or configuration that does not exist: %r; %s" % (r.out[:200], show)))
                continue
            if r.status:
                out.append((k + ":failed", "ort-audit-json failed: %r; %s" % (r.err[-200:], show)))
                continue
            x = r.text
            if sa:
                a, b = "(function(root) {\n 'use strict';\n var audit = ", ";\n root.audit = audit;\n})(this);\n"
                if not x.startswith(a) or not x.endswith(b):
                    out.append((k + ":wrap", "not the documented wrapper: %r ... %r; %s" % (x[:60], x[-60:], show)))
                    continue
                x = x[len(a):-len(b)]
            try:
                got = jnorm(json.loads(x, object_pairs_hook=nodup))
            except Exception as ex:
                out.append((k + ":invalid", "ort-audit-json prints no valid JSON of the documented form: %r; %s" % (ex, show)))
                continue
            exp = jexpect(c, want)
            for f, v in exp["fields"].items():
                if v["export"] is None and f in got["fields"]:
                    v["export"] = got["fields"][f]["export"]
            if got != jnorm2(exp):
                d = [(kk, got.get(kk), exp.get(kk)) for kk in exp if got.get(kk) != exp.get(kk)]
                if d and d[0][0] in ("fields", "functions"):
                    g, e2 = d[0][1], d[0][2]
                    d = [(n, g.get(n), e2.get(n)) for n in sorted(set(g) | set(e2)) if g.get(n) != e2.get(n)]
                elif d and d[0][0] == "access":
                    d = [z for z in zip(d[0][1], d[0][2]) if z[0] != z[1]]
                out.append((k, "ort-audit-json differs (printed, expected): %s; %s" % (str(d[:3])[:700], show)))
        return out


def jnorm2(d):
    d["access"].sort(key=lambda s: s["name"])
    return d


def nodup(pairs):
    d = dict(pairs)
    if len(d) != len(pairs):
        raise ValueError("duplicate key")
    return d


if __name__ == "__main__":
    core.main(R01())
