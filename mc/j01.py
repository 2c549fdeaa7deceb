"""J01: ort-json describes exactly the configuration, and ort-json.ts writes
it back with the same meaning."""
import itertools, json, os
import build, core, corpus, frames, node, ref, space


def unesc(s):
    return None if s is None else s.replace('\\"', '"')


def pos(o):
    return {"fname": o.fname if hasattr(o, "fname") else "a.ort", "line": o.line}


def labels(d):
    return {(k or "_default"): {"lang": k or "_default", "value": ref.norm_ws(unesc(v))} for k, v in d.items()}


def expect(c):
    """What the interfaces of ort-json.ts say about a configuration."""
    J = {"eq": {}, "bq": {}, "rq": None, "sq": {}}
    for e in c.enums.values():
        J["eq"][e.name] = {"name": e.name, "pos": pos(e), "doc": unesc(e.doc), "labelsNull": labels(e.isnull), "eq": {
            i.name: {"parent": e.name, "name": i.name, "pos": {"fname": e.fname, "line": i.line}, "doc": unesc(i.doc),
                     "value": None if i.auto else str(i.value), "labels": labels(i.labels)} for i in e.items}}
    for b in c.bits.values():
        J["bq"][b.name] = {"name": b.name, "pos": pos(b), "doc": unesc(b.doc), "labelsNull": labels(b.isnull),
                           "labelsUnset": labels(b.isunset), "bq": {
            i.name: {"parent": b.name, "name": i.name, "pos": {"fname": b.fname, "line": i.line}, "doc": unesc(i.doc),
                     "value": str(i.value), "mask": str(1 << i.value), "labels": labels(i.labels)} for i in b.items}}
    if c.roles is not None:
        J["rq"] = {r.name: {"name": r.name, "doc": unesc(r.doc), "parent": r.parent, "subrq": sorted(r.subs)}
                   for r in c.roles.values()}
    for s in c.structs.values():
        fq = {}
        for f in s.fields.values():
            fl = sorted(n for n in ("rowid", "unique", "noexport", "null") if getattr(f, n))
            d = {"parent": s.name, "name": f.name, "pos": pos(f), "doc": unesc(f.doc),
                 "type": {"bits": "bitfield"}.get(f.type, f.type), "actup": f.actup, "actdel": f.actdel, "flags": fl,
                 "rolemap": sorted(c.noexport_roles(s, f)), "def": None,
                 "fvq": [{"type": o, "limit": v} for o, v in f.limits]}
            if f.type == "enum":
                d["enm"] = f.sub
            if f.type == "bits":
                d["bitf"] = f.sub
            rf = f.ref and (f.name, f.ref)
            if f.type == "struct":
                rf = (f.sub, s.fields[f.sub].ref)
            if rf:
                d["ref"] = {"source": {"strct": s.name, "field": rf[0]}, "target": {"strct": rf[1][0], "field": rf[1][1]}}
            if f.default is not None:
                d["def"] = unesc(f.default) if isinstance(f.default, str) else f.default
            fq[f.name] = d

        def chain(path):
            out, st = [], s
            for n in path:
                f = st.fields[n]
                out.append("%s.%s" % (st.name, n))
                if f.type == "struct":
                    st = c.target(f)
            return out, st

        def named(l):
            return {"named": {o["name"]: o for o in l if o["name"] is not None},
                    "anon": sorted((o for o in l if o["name"] is None), key=lambda o: json.dumps(o, sort_keys=True))}

        def search(q):
            aggr = group = dst = None
            if q.aggr:
                aggr = {"fname": ".".join(q.aggr[1]), "op": q.aggr[0], "chain": chain(q.aggr[1])[0]}
                group = {"fname": ".".join(q.group), "chain": chain(q.group)[0]}
            if q.distinct is not None:
                if q.distinct == ["."]:
                    dst = {"fname": ".", "strct": s.name, "chain": []}
                else:
                    ch, st = chain(q.distinct)
                    dst = {"fname": ".".join(q.distinct), "strct": st.name, "chain": ch}
            t = []
            for p, o in q.terms:
                ch = chain(p)[0]
                a, b = ch[-1].split(".")
                t.append({"fname": ".".join(p), "uname": "_".join(p), "field": {"strct": a, "field": b}, "chain": ch, "op": o})
            return {"parent": s.name, "name": q.name, "pos": pos(q), "doc": unesc(q.doc),
                    "rolemap": sorted(c.op_roles(s, q.kind, q.name)), "limit": str(q.limit), "offset": str(q.offset),
                    "type": q.kind, "sntq": t,
                    "ordq": [{"fname": ".".join(p), "chain": chain(p)[0], "op": d} for p, d in q.order],
                    "aggr": aggr, "group": group, "dst": dst}

        def update(u):
            return {"name": u.name, "parent": s.name, "pos": pos(u), "doc": unesc(u.doc), "type": u.kind,
                    "rolemap": sorted(c.op_roles(s, u.kind, u.name)), "flags": ["all"] if u.all else [],
                    "mrq": [{"field": n, "mod": m} for n, m in u.mods], "crq": [{"field": n, "op": o} for n, o in u.cons]}
        J["sq"][s.name] = {
            "name": s.name, "pos": pos(s), "doc": unesc(s.doc), "fq": fq,
            "insert": {"pos": {"fname": None, "line": s.insline}, "rolemap": sorted(c.op_roles(s, "insert", None))} if s.insert else None,
            "sq": named([search(q) for q in s.queries]), "uq": named([update(u) for u in s.updates]),
            "dq": named([update(u) for u in s.deletes]),
            "nq": sorted(sorted(u) for u in s.uniques)}
    return J


class Bad(Exception):
    pass


def keys(o, req, opt=()):
    if not isinstance(o, dict):
        raise Bad("not an object: %r" % (o,))
    for k in req:
        if k not in o:
            raise Bad("no %s in %r" % (k, o))
    for k in o:
        if k not in req and k not in opt:
            raise Bad("unknown %s in %r" % (k, o))
    return o


def strip(o, c, where=()):
    """Normalise the printed object; check positions' form."""
    if isinstance(o, dict):
        if "pos" in o:
            p = keys(o["pos"], ("fname", "line", "column"))
            if not isinstance(p["line"], int) or not isinstance(p["column"], int) or not isinstance(p["fname"], str):
                raise Bad("position %r" % p)
            o["pos"] = {"fname": p["fname"], "line": p["line"]}
        return {k: strip(v, c, where + (k,)) for k, v in o.items()}
    if isinstance(o, list):
        return [strip(v, c, where) for v in o]
    return o


def norm(j, c):
    j = strip(j, c)
    keys(j, ("eq", "bq", "rq", "sq"))
    for top in ("eq", "bq"):
        for e in j[top].values():
            for l in [e.get("labelsNull"), e.get("labelsUnset")] + [i["labels"] for i in e[top].values()]:
                for x in (l or {}).values():
                    x.pop("pos")
                    x["value"] = ref.norm_ws(x["value"])
    for r in (j["rq"] or {}).values():
        r.pop("pos")
        r["subrq"] = sorted(r["subrq"])
    for n, s in j["sq"].items():
        rq = s.pop("rq")
        got = {}
        for m in rq:
            keys(m, ("type", "rq", "name"))
            k = (m["type"], m["name"])
            if k in got:
                raise Bad("role map %s twice" % (k,))
            got[k] = frozenset(m["rq"])
        st = c.structs[n]
        for k, v in st.rolemaps.items():
            g = got.get(k, frozenset())
            if not set(v) <= g:
                raise Bad("role map %s of %s is %s, not %s" % (k, n, sorted(g), v))
        s["nq"] = sorted(sorted(u["nq"]) for u in s["nq"])
        for f in s["fq"].values():
            f["flags"] = sorted(f["flags"])
            f["rolemap"] = sorted(f["rolemap"])
            if f["def"] is not None and not isinstance(f["def"], str):
                raise Bad("default of %s is no string" % f["name"])
            fs = st.fields.get(f["name"])
            real = fs is not None and fs.type == "real"
            if f["def"] is not None and f["type"] not in ("text", "email", "enum"):
                f["def"] = float(f["def"]) if real else int(f["def"])
            for v in f["fvq"]:
                v["limit"] = float(v["limit"]) if real else int(v["limit"])
        if s["insert"]:
            s["insert"]["rolemap"] = sorted(s["insert"]["rolemap"])
            s["insert"]["pos"]["fname"] = None
        for q in ("sq", "uq", "dq"):
            keys(s[q], ("named", "anon"))
            for o in list(s[q]["named"].values()) + s[q]["anon"]:
                o["rolemap"] = sorted(o["rolemap"])
                for l in ("sntq", "ordq"):
                    for x in o.get(l, ()):
                        x.pop("pos")
                for l in ("aggr", "group", "dst"):
                    if o.get(l):
                        o[l].pop("pos")
                for x in o.get("mrq", ()):
                    x.pop("pos")
                    x.pop("op")
                for x in o.get("crq", ()):
                    x.pop("pos")
                    x.pop("mod")
            s[q]["anon"].sort(key=lambda o: json.dumps(o, sort_keys=True))
    return j


def diff(a, b, path=""):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b), key=str):
            if k not in a:
                return "%s/%s is missing" % (path, k)
            if k not in b:
                return "%s/%s should not be there" % (path, k)
            d = diff(a[k], b[k], "%s/%s" % (path, k))
            if d:
                return d
        return None
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, "%s[%d]" % (path, i))
            if d:
                return d
        return None
    if type(a) is not type(b) or a != b:
        return "%s is %r, not %r" % (path, a, b)


def nodup(pairs):
    d = dict(pairs)
    if len(d) != len(pairs):
        raise ValueError("duplicate key")
    return d


HOST = ['a', '\\', '\\"', 'n', 'u', '\n', "'", '\t', '/', '<', '\x01', '\x1f', '\x7f', '\xc3\xa9', '$', '{', '`', '*', ' ']
SLOTS = ["field k text default %s;", "field k int comment %s;", "comment %s;", "list x: comment %s;", "delete id: comment %s;"]
ESLOTS = ["item a comment %s;", "item a; comment %s;", "item a jslabel %s;", "item a; isnull jslabel.en %s;"]


def strings(n):
    for k in range(n + 1):
        for t in itertools.product(HOST, repeat=k):
            yield "".join(t)


class J01(core.Check):
    id = "J01"
    rule = ("state = accepted configuration (attribute products, statement menus, literal menus, strings over a hostile alphabet in "
            "every slot, the repository's own configurations); transition = printing it as JSON, and writing that back with "
            "ort-json.ts; distinct_nontrivial = distinct accepted configurations")
    assumptions = ["columns of positions are not judged", "the order of keys, of role lists and of unnamed operations does not count"]

    def setup(self, bld, tier):
        self.ts = open(bld.src + "/ort-json.ts").read()

    def jobs(self, tier):
        out = [("prod", i) for i in range(32)] + [("values", i) for i in range(8)] + [("str", i) for i in range(len(SLOTS) + len(ESLOTS) + 1)]
        out += [("corpus", i) for i in range(8)]
        for g, d in {"fields": 1, "terms": 1, "queries": 1, "updates": 1, "uniques": 2, "roles": 2, "tops": 2}.items():
            d += tier == "thorough"
            for i in range(len(space.GROUPS[g])):
                out.append(("menu", g, d, [i]))
        return out

    def job(self, env, acc, tier, j):
        batch = []

        def one(t, name="a.ort"):
            if not acc.state(t):
                return
            c = ref.accepts([(name, t)])[0]
            if c is None:
                acc.n["rejected"] += 1
                return
            acc.n["accepted"] += 1
            acc.n["transitions"] += 2
            batch.append((c, {"files": [[name, t]]}))
            if len(batch) >= 64:
                flush()

        def flush():
            cs = [b[1] for b in batch]
            acc.n["evaluations"] += len(cs)
            for k, what, case in self.many(env, batch):
                acc.find(k, what, case)
            batch.clear()
        if j[0] == "prod":
            for t in itertools.islice(space.products(tier), j[1], None, 32):
                one(t)
        elif j[0] == "values":
            for t in space.values()[j[1]::8]:
                one(t)
        elif j[0] == "corpus":
            for n, t in corpus.files()[j[1]::8]:
                one(t)
        elif j[0] == "str":
            n = 3 if tier == "thorough" else 2
            for v in strings(n):
                q = '"%s"' % v
                if j[1] < len(SLOTS):
                    one("struct foo { field id int rowid; field x int; " + SLOTS[j[1]] % q + " };\n")
                elif j[1] < len(SLOTS) + len(ESLOTS):
                    one("enum en2 { " + ESLOTS[j[1] - len(SLOTS)] % q + " };\nstruct foo { field k enum en2; };\n")
                else:
                    one("roles { role ra comment %s; role rb { role rc comment %s; }; };\nstruct foo { field id int; };\n" % (q, q))
        else:
            menu = space.GROUPS[j[1]]

            def go(idx):
                one(space.text(j[1], [menu[i] for i in idx]))
                if len(idx) < j[2]:
                    for i in range(len(menu)):
                        go(idx + [i])
            go(j[3])
        flush()
        acc.sample(str(j), 1)

    def ts_node(self, env):
        nd = node.get(env, "ortjson.js")
        if not env.cache.get("ts_loaded") or nd.p is None:
            nd.call("ortjson_load", src=self.ts)
            env.cache["ts_loaded"] = True
        return nd

    def many(self, env, batch):
        finds, back = [], []
        for c, case in batch:
            files = [(n, t.encode("latin1")) for n, t in case["files"]]
            show = case["files"][-1][1][-400:]
            r = env.run("ort-json", [n for n, _ in files], files)
            if r.crashed:
                finds.append(("crash", "ort-json ended abnormally: %r; %s" % (r.err[-200:], show), case))
                continue
            if r.status:
                finds.append(("failed", "ort-json failed: %r; %s" % (r.err[-200:], show), case))
                continue
            text = r.out.decode("latin1")
            try:
                j = json.loads(text, object_pairs_hook=nodup)
                keys(j, ("config",))
                e = diff(norm(j["config"], c), expect(c))
            except (ValueError, KeyError, TypeError, AttributeError, Bad) as ex:
                finds.append(("invalid", "not the documented JSON: %s: %s; config: %s" % (type(ex).__name__, ex, show), case))
                continue
            if e:
                finds.append(("differs", "the JSON says that config%s; config: %s" % (e, show), case))
                continue
            back.append((c, case, text))
        if back:
            nd = self.ts_node(env)
            res = nd.call("ortjson", cfgs=[b[2] for b in back])
            if "error" in res:
                raise Exception(res["error"])
            for (c, case, text), o in zip(back, res["out"]):
                show = case["files"][-1][1][-400:]
                if "error" in o:
                    finds.append(("tostring", "ort-json.ts failed: %s; config: %s" % (o["error"], show), case))
                    continue
                s = o["s"]
                c2, e2 = ref.accepts([("a.ort", s)])
                if c2 is None:
                    finds.append(("tostring:unreadable", "ort-json.ts wrote a configuration that is not valid (%s): %r; from: %s" % (e2, s[-300:], show), case))
                elif c2.canon() != c.canon():
                    a, b = c2.canon(), c.canon()
                    finds.append(("tostring:differs", "ort-json.ts wrote a configuration that means something else: %s; from: %s" % (
                        [(x, y) for x, y in zip(a, b) if x != y][:1].__repr__()[:600], show), case))
        return finds

    def judge(self, env, case):
        c = ref.accepts([tuple(x) for x in case["files"]])[0]
        return [(k, w) for k, w, _ in self.many(env, [(c, case)])] if c is not None else []


if __name__ == "__main__":
    core.main(J01())
