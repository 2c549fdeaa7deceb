"""N01: the TypeScript of ort-nodejs and ort-javascript type-checks, and its
methods, classes, and interfaces have the types their manuals give."""
import itertools, os, re
import build, c01, cgen, core, dataref as dr, node, q, ref, space

NODET = {"bit": "bigint", "bits": "bigint", "blob": "Buffer", "date": "bigint", "email": "string", "epoch": "bigint", "int": "bigint",
         "password": "string", "real": "number", "text": "string"}
WEBT = {"bit": "number | string", "bits": "number | string", "blob": "string", "date": "number | string", "email": "string", "enum": "number | string",
        "epoch": "number | string", "int": "number | string", "real": "number", "text": "string"}
# words of JavaScript and of TypeScript, of the generated code, and of objects
# each class has, that ort(5) lets be names
WORDS = """abstract any as asserts async await bigint boolean class constructor debugger declare delete eval arguments export extends false finally
 from function get global implements import infer in instanceof interface is keyof let module namespace never new null number object of out override package private
 protected prototype public readonly require satisfies set string super symbol this throw true try type typeof undefined unique unknown var
 with yield name length caller apply call bind tostring valueof hasownproperty date map buffer promise
 ortns ortctx ortdb ortargs ortvalid ortvalids ortstmt stmtbuilder db obj res role cb parms stmt cols info er args v v1 database bcrypt validator data
 o i e c rows objs key val self long item items db_role index version vstamp connect none default all foo bar json console process error exports""".split()
NAMEFN = {
    "struct": lambda w: "struct bar { field id int rowid; };\nstruct %s { field id int rowid; field v text null; field k int limit gt 3; field bid:bar.id int null; "
              "field b struct bid; list k: name a; insert; update k: id; search id: name s; };\nstruct other { field id int rowid; field rid:%s.id int; field r struct rid; list r.v; };\n" % (w, w),
    "field": lambda w: "struct foo { field id int rowid; field %s text null limit gt 1; field kk int; list %s: name a; insert; update %s: id; search id; iterate kk; };\n"
             "struct bar { field fid:foo.id int; field %s struct fid; list %s.kk; };\n" % (w, w, w, w, w),
    "enum": lambda w: "enum %s { item a jslabel \"x\"; item b 4; };\nstruct foo { field id int rowid; field v enum %s; field w enum %s null; insert; list v; };\n" % (w, w, w),
    "item": lambda w: "enum en { item %s; item b 4; };\nstruct foo { field id int rowid; field v enum en default %s; insert; list v; };\n" % (w, w),
    "bits": lambda w: "bits %s { item a 0; item b 1; };\nstruct foo { field id int rowid; field v bits %s; insert; list v; };\n" % (w, w),
    "bit": lambda w: "bits bi { item %s 0; item b 1; };\nstruct foo { field id int rowid; field w bits bi; insert; list; };\n" % w,
    "role": lambda w: "roles { role %s { role ry; }; role rz; };\nstruct foo { field id int rowid; field v int; insert; list v: name a; roles %s { list a; noexport v; }; };\n" % (w, w),
    "operation": lambda w: "struct foo { field id int rowid; field v int; insert; list v: name %s; update v: id: name %s; delete: name %s; count: name %s; };\n" % (w, w, w, w),
}
IMPORTS = "import bcrypt from 'bcrypt';\nimport Database from 'better-sqlite3';\nimport validator from 'validator';\n"


def union(t):
    """A type with its alternatives in order, without what's in its namespace."""
    return " | ".join(sorted(re.sub(r"\bort(ns)?\.", "", t).split(" | ")))


def nodetype(cfg, f, null=True):
    if f.type == "struct":
        t = cfg.target(f).name + "Data"
        n = f.parent.fields[f.sub].null
    else:
        t = f.sub if f.type == "enum" else NODET[f.type]
        n = f.null
    return union(t + (" | null" if null and n else ""))


def wantnode(cfg):
    """Methods, by name: parameters and result."""
    out = {}
    for op in q.ops(cfg):
        ps = []
        for f, how in op.params:
            ps.append(nodetype(cfg, f, how in ("insert", "set", "strset")))
        r = {"insert": "bigint", "update": "boolean", "delete": "void", "count": "bigint", "iterate": "void",
             "search": op.result().name + " | null", "list": op.result().name + "[]"}[op.kind]
        if op.kind == "iterate":
            ps.append("(res: %s) => void" % op.result().name)
        out[op.name] = (ps, union(r))
    return out


class N01(core.Check):
    id = "N01"
    rule = ("state = (configuration, generator, options); transition = one generation, type-checked by the TypeScript compiler under its strict rules, and "
            "the methods, classes, and interfaces it exports compared with those the configuration has and the types the manuals give them: the configurations of C01, "
            "and all words JavaScript, TypeScript, or the generated code uses as each kind of name")
    assumptions = ["the declarations of better-sqlite3, bcrypt, validator and Node are stood in for by harness/tscheck.js, modelled on those published",
                   "TypeScript as installed, with the settings of tsc --init and, for ort-javascript, the DOM's declarations",
                   "whether interfaces of ort-javascript say null of null fields isn't judged: its manual doesn't say"]
    variants = ["fast"]

    def space(self, tier):
        deep = tier == "thorough"
        out = []
        for g, ts in c01.C01().space(tier):
            if g == "names":
                continue
            k = 1 if deep else {"pairs": 3, "few types": 3, "graphs": 3, "values": 4, "products": 2}.get(g, 1)
            out.append((g, ts[::k]))
        for k in NAMEFN:
            out.append(("name " + k, [NAMEFN[k](w) for w in WORDS]))
        return out

    def jobs(self, tier):
        out = []
        for n, ts in self.space(tier):
            for i in range(0, len(ts), 20):
                out.append((n, i, i + 20))
        for i in range(len(c01.C01().rich())):
            out.append(("options", i, 0))
        return out

    def job(self, env, acc, tier, j):
        if j[0] == "options":
            t = c01.C01().rich()[j[1]]
            for o in ("", "v", "e", "ev", "Nb", "Nd", "Nbd", "eNd", "veNbd"):
                self.go(env, acc, {"config": t, "tool": "node", "opt": o})
            return
        ts = dict(self.space(tier))[j[0]][j[1]:j[2]]
        for i, t in enumerate(ts):
            w = WORDS[j[1] + i] if j[0].startswith("name ") else None
            for tool in ("node", "web"):
                c = {"config": t, "tool": tool, "opt": "v" if tool == "node" else ""}
                if w is not None:
                    c["name"] = [j[0][5:], w]
                self.go(env, acc, c)
        acc.sample("%s: %d configurations" % (j[0], len(ts)), 1)

    def go(self, env, acc, c):
        cfg, err = ref.accepts([("a.ort", c["config"])])
        if cfg is None:
            acc.n["not accepted"] += 1
            return
        acc.n["evaluations"] += 1
        acc.n["transitions"] += 1
        acc.state(repr(c))
        for key, what in self.one(env, cfg, c):
            acc.find(key, what, c)

    def one(self, env, cfg, c):
        """Yields at most one problem."""
        for key, what in self.raw(env, cfg, c):
            if "name" in c:
                k = c["name"][0]
                key = "%s:%s" % ("name" if k in ("struct", "enum", "bits") else k, c["name"][1])
            yield key, what + "; in\n" + c["config"]
            return

    def raw(self, env, cfg, c):
        raw = c["config"].encode("utf-8", "surrogateescape")
        if c["tool"] == "node":
            o = c["opt"]
            a = (["-v"] if "v" in o else []) + (["-e"] if "e" in o else [])
            if "N" in o:
                a += ["-N", o[o.index("N") + 1:]]
            r = env.run("ort-nodejs", a, [], raw)
        else:
            a = []
            r = env.run("ort-javascript", ["-S", cgen.share(env)], [], raw)
        if r.status:
            yield "tool", "%s %s fails: %r" % (c["tool"], " ".join(a), r.err[-200:])
            return
        src = r.out.decode("utf-8", "surrogateescape").encode("utf-8", "replace").decode()
        o = c["opt"]
        if "e" in o:
            src = IMPORTS + src
        nob, nod = "N" in o and "b" in o[o.index("N"):], "N" in o and "d" in o[o.index("N"):]
        if nob and not nod:
            # the data structures come from another file
            r = env.run("ort-nodejs", ["-N", "d", "-e"], [], raw)
            src += r.out.decode("utf-8", "replace")
        t = node.get(env, "tscheck.js").call("ts_check", src=src, dom=c["tool"] == "web", want=True, timeout=120)
        if t.get("diags") is None:
            yield "checker", "the TypeScript checker fails: %s" % str(t)[:300]
            return
        if t["diags"]:
            d = t["diags"][0]
            yield "type error %d" % d[1], "%s %s: line %d, %s, in %r" % (c["tool"], " ".join(a), d[0], d[2], d[3])
            return
        sig = t["sig"]
        for n, s in sig.items():
            s["m"] = {}
            for m in s.get("members", []):
                if m.get("name") is not None:
                    s["m"][m["name"].strip("'\"")] = m
        if c["tool"] == "node":
            if "e" not in o and not nod:
                yield from self.ctx(cfg, sig)
            if not nob and "e" not in o:
                yield from self.nodedata(cfg, sig)
            if "v" in o and "e" not in o and not nob:
                yield from self.valids(cfg, sig)
        else:
            yield from self.web(cfg, sig)

    def ctx(self, cfg, sig):
        for n in ("ort", "ortdb", "ortctx", "ortargs"):
            if n not in sig:
                yield "missing", "nothing is exported as %s" % n
                return
        want = wantnode(cfg)
        for n in ("immediate", "deferred", "exclusive"):
            want["db_trans_open_" + n] = (["number"], "void")
        want["db_trans_commit"] = want["db_trans_rollback"] = (["number"], "void")
        if cfg.roles:
            want["db_role"] = (["string"], "void")
            want["db_role_current"] = ([], "string")
        have = sig["ortctx"]["m"]
        for n, (ps, r) in want.items():
            m = have.get(n)
            if m is None:
                yield "method missing", "ortctx has no %s" % n
            elif m.get("params") is None or len(m["params"]) != len(ps) or any(p[1] for p in m["params"]) or \
                    not all(self.takes(p[0], w) for p, w in zip(m["params"], ps)):
                yield "parameters", "%s has parameters %s, not %s" % (n, [p[0] for p in m.get("params") or []], ps)
            elif union(m["ret"]) != r:
                yield "result", "%s gives %s, not %s" % (n, m["ret"], r)
        for n in have:
            if n not in want and not n.startswith("#"):
                yield "method", "ortctx has %s, which nothing gives" % n
        m = sig["ortdb"]["m"]
        for n, t in (("version", "string"), ("vstamp", "number"), ("args", "ortargs")):
            if m.get(n, {}).get("type") != t:
                yield "ortdb", "ortdb.%s is %s, not %s" % (n, m.get(n, {}).get("type"), t)
        if m.get("connect", {}).get("ret") != "ortctx" or m["connect"]["params"]:
            yield "ortdb", "ortdb.connect is %s" % m.get("connect")
        f = sig["ort"]
        if f["kind"] != "function" or f["ret"] != "ortdb" or [p[1] for p in f["params"]] != [False, True] or f["params"][0][0] != "string":
            yield "ort", "the function ort is %s" % f

    @staticmethod
    def takes(t, w):
        """Whether a parameter's type is as wanted; null can be taken where there's no null."""
        if "=>" in w:
            return re.sub(r"\bortns\.", "", t) == w
        return union(t) in (w, union(w + " | null"))

    def nodedata(self, cfg, sig):
        for s in cfg.structs.values():
            c = sig.get("ortns." + s.name)
            if c is None or c["kind"] != "ClassDeclaration":
                yield "class", "no class ortns.%s" % s.name
                continue
            if "obj" not in c["m"] or union(c["m"]["obj"]["type"]) != s.name + "Data":
                yield "class", "ortns.%s.obj is %s" % (s.name, c["m"].get("obj"))
            if "export" not in c["m"] or c["m"]["export"]["params"] or c["m"]["export"]["ret"] != "any":
                yield "class", "ortns.%s.export is %s" % (s.name, c["m"].get("export"))
            d = sig.get("ortns.%sData" % s.name)
            if d is None or d["kind"] != "InterfaceDeclaration":
                yield "interface", "no interface ortns.%sData" % s.name
                continue
            want = {f.name: nodetype(cfg, f) for f in s.fields.values()}
            for n, t in want.items():
                if n not in d["m"]:
                    yield "property missing", "%sData has no %s" % (s.name, n)
                elif union(d["m"][n]["type"]) != t or d["m"][n]["opt"]:
                    yield "property", "%sData.%s is %s%s, not %s" % (s.name, n, d["m"][n]["type"], ", optional" if d["m"][n]["opt"] else "", t)
            for n in d["m"]:
                if n not in want:
                    yield "property", "%sData has %s, which isn't a field" % (s.name, n)
        for n, e in cfg.enums.items():
            d = sig.get("ortns." + n)
            if d is None or d["kind"] != "EnumDeclaration":
                yield "enumeration", "no enumeration ortns.%s" % n
            elif list(d["m"]) != [i.name for i in e.items]:
                yield "enumeration", "ortns.%s has %s, not %s" % (n, list(d["m"]), [i.name for i in e.items])
        for n, b in cfg.bits.items():
            d = sig.get("ortns." + n)
            if d is None or d["kind"] != "EnumDeclaration":
                yield "bitfield", "no enumeration ortns.%s" % n
            elif set(d["m"]) != set(p + i.name for i in b.items for p in ("BITI_", "BITF_")):
                yield "bitfield", "ortns.%s has %s" % (n, list(d["m"]))

    def valids(self, cfg, sig):
        d = sig.get("ortvalid.ortValidType")
        want = {"%s-%s" % (s.name, f.name): union(nodetype(cfg, f, False) + " | null")
                for s in cfg.structs.values() for f in s.fields.values() if f.type != "struct"}
        if "ortvalid.ortValids" not in sig:
            yield "validators", "nothing is exported as ortvalid.ortValids"
        if d is None:
            return
        for n, t in want.items():
            m = d["m"].get(n)
            if m is None:
                yield "validator missing", "no validator %s" % n
                continue
            x = m.get("type") or ""
            a, _, r = x.partition(" => ")
            if union(r) != t or not re.match(r"\(\w+\?: any\)$", a):
                yield "validator", "the validator %s is %s, not (value?: any) => %s" % (n, x, t)
        for n in d["m"]:
            if n not in want:
                yield "validator", "there's a validator %s, which no field has" % n

    def web(self, cfg, sig):
        cb = sig.get("ort.DataCallbacks")
        if cb is None:
            yield "callbacks", "no ort.DataCallbacks"
            return
        keys = set()
        for s in cfg.structs.values():
            keys.add(s.name)
            d = sig.get("ort.%sData" % s.name)
            if d is None or d["kind"] != "InterfaceDeclaration":
                yield "interface", "no interface ort.%sData" % s.name
                continue
            want = {}
            for f in s.fields.values():
                if f.noexport or f.type == "password":
                    continue
                if f.type == "struct":
                    t = cfg.target(f).name + "Data"
                else:
                    t = WEBT[f.type]
                want[f.name] = (t, hidden(cfg, s, f))
                keys.add("%s-%s" % (s.name, f.name))
            for n, (t, o) in want.items():
                m = d["m"].get(n)
                if m is None:
                    yield "property missing", "%sData has no %s" % (s.name, n)
                    continue
                x = [y for y in union(m["type"]).split(" | ") if y not in ("null", "undefined")]
                if " | ".join(x) != union(t):
                    yield "property", "%sData.%s is %s, not %s" % (s.name, n, m["type"], t)
                elif m["opt"] != o:
                    yield "optional", "%sData.%s is %soptional, though it's%s exported to all roles" % (s.name, n, "" if m["opt"] else "not ", "n't" if o else "")
            for n in d["m"]:
                if n not in want:
                    yield "property", "%sData has %s, which isn't an exported field" % (s.name, n)
            c = sig.get("ort." + s.name)
            if c is None or c["kind"] != "ClassDeclaration":
                yield "class", "no class ort.%s" % s.name
                continue
            E, C, W = "HTMLElement | null", "DataCallbacks | null | undefined", union(s.name + "Data | " + s.name + "Data[]")
            ws = {"fill": [E, C], "fillInner": [E, C], "fillArray": [E, C], "fillByClass": [E, "string", C], "fillInnerByClass": [E, "string", C],
                  "fillArrayByClass": [E, "string", C], "fillArrayOrShow": [E, E, C], "fillArrayOrHide": [E, E, C]}
            for n, ps in ws.items():
                m = c["m"].get(n)
                if m is None:
                    yield "method missing", "ort.%s has no %s" % (s.name, n)
                elif [union(p[0]) for p in m["params"]] != [union(p) for p in ps] or m["ret"] != "void" or \
                        [p[1] for p in m["params"]] != [False] * (len(ps) - 1) + [True]:
                    yield "method", "ort.%s.%s is %s" % (s.name, n, m)
            k = [m for m in c["members"] if m.get("name") is None and m.get("params") is not None]
            if not k or [union(p[0]) for p in k[0]["params"]] != [W]:
                yield "constructor", "ort.%s is constructed by %s, not %s" % (s.name, k and k[0]["params"], W)
        have = set(n for n in cb["m"])
        if keys - have:
            yield "callback missing", "DataCallbacks has no %s" % sorted(keys - have)
        if have - keys:
            yield "callback", "DataCallbacks has %s, which no exported field has" % sorted(have - keys)
        for n, e in list(cfg.enums.items()) + list(cfg.bits.items()):
            d = sig.get("ort." + n)
            if d is None or d["kind"] != "ClassDeclaration":
                yield "enumeration", "no class ort.%s" % n
                continue
            want = set(i.name for i in e.items) if n in cfg.enums else set(p + i.name for i in e.items for p in ("BITI_", "BITF_"))
            if want - set(d["m"]):
                yield "enumeration", "ort.%s has no %s" % (n, sorted(want - set(d["m"])))
            if "format" not in d["m"] or not d["m"]["format"]["static"]:
                yield "enumeration", "ort.%s has no format" % n

    def judge(self, env, case):
        cfg, err = ref.accepts([("a.ort", case["config"])])
        return list(self.one(env, cfg, case)) if cfg is not None else []


def hidden(cfg, s, f):
    """Whether some role may not see a field."""
    return bool(cfg.noexport_roles(s, f))


if __name__ == "__main__":
    core.main(N01())
