"""U01: what ort-rust writes compiles, and its methods take and give what the
manual says."""
import c01, core, q, ref, rgen

# words of Rust, of its prelude, and of the generated code, that ort(5) lets
# be names
WORDS = """abstract async await box crate do dyn final fn impl let loop macro match mod move mut override priv pub self super trait
 type typeof unsafe unsized use virtual where yield as true false gen union raw auto macrorules option some none ok err vec string result
 box i64 f64 u8 str usize bool char clone copy debug display default drop eq partialeq send sync sized iterator toprimitive fromprimitive connection
 params row base64 bcrypt hash verify rusqlite libsqlite3sys numtraits numderive data objs stmt ort ortctx ortdb ortargs ortstmt ortrole args conn role
 dbname jsonescape tojson ret obj res rows sql vec1 ncol cb v1 hash1 obj0 x s i e c nobj escaped src version vstamp new connect fmt foo bar std
 core alloc export fill reffind insert format println panic""".split()
NAMEFN = {
    "struct": lambda w: "struct bar { field id int rowid; };\nstruct %s { field id int rowid; field v text null; field pw password null; field x blob; field k int; field bid:bar.id int null; "
              "field b struct bid; list k: name a; insert; update k: id; search id: name s; iterate; };\nstruct other { field id int rowid; field rid:%s.id int; field r struct rid; "
              "list r.k: name l; };\n" % (w, w),
    "field": lambda w: "struct foo { field id int rowid; field %s text null; field kk int; list %s: name a; insert; update %s: id; search id; iterate; };\n"
             "struct bar { field fid:foo.id int; field %s struct fid; list %s.kk; };\n"
             "struct baz { field id int rowid; field %s:foo.id int null; field ft struct %s; list; };\n"
             "struct pp { field id int rowid; field %s password; search id, %s: name s; };\n"
             "struct qq { field id int rowid; field pid:pp.id int; field p struct pid; search id, p.%s: name s; };\n" % (w, w, w, w, w, w, w, w, w, w),
    "enum": lambda w: "enum %s { item a; item b 4; };\nstruct foo { field id int rowid; field v enum %s; field w enum %s null; insert; list v; update w: v; };\n" % (w, w, w),
    "item": lambda w: "enum en { item %s; item b 4; };\nstruct foo { field id int rowid; field v enum en default %s; insert; list v; };\n" % (w, w),
    "bits": lambda w: "bits %s { item a 0; item b 1; };\nstruct foo { field id int rowid; field v bits %s; insert; list v; };\n" % (w, w),
    "bit": lambda w: "bits bi { item %s 0; item b 1; };\nstruct foo { field id int rowid; field w bits bi; insert; list; };\n" % w,
    "role": lambda w: "roles { role %s { role ry; }; role rz; };\nstruct foo { field id int rowid; field v int; insert; list v: name a; roles %s { list a; noexport v; }; };\n" % (w, w),
    "operation": lambda w: "struct foo { field id int rowid; field v int; insert; list v: name %s; update v: id: name %s; delete: name %s; count: name %s; };\n" % (w, w, w, w),
}
TY = {"enum": None, "real": "f64", "blob": "Vec<u8>", "text": "String", "email": "String", "password": "String"}


def consts(cfg):
    """Rust that says of what it follows what the manual says."""
    T, I = rgen.title, rgen.ident
    L = []
    ty = lambda f, own: ("data::" + T(f.sub) if f.type == "enum" else
                         "data::" + T(cfg.target(f).name) if f.type == "struct" else
                         ("" if own or f.type in ("real",) or TY.get(f.type, "i64") == "i64" else "&") + TY.get(f.type, "i64"))
    for s in cfg.structs.values():
        # every field, and no other
        ps = []
        for f in s.fields.values():
            null = s.fields[f.sub].null if f.type == "struct" else f.null
            t = ty(f, True)
            ps.append((I(f.name), "Option<%s>" % t if null else t))
        L.append("fn d_%s(x: data::%s) { let data::%s { %s } = x; %s }" % (
            s.name, T(s.name), T(s.name), ", ".join("%s: z%d" % (n, i) for i, (n, _) in enumerate(ps)),
            " ".join("let _: %s = z%d;" % (t, i) for i, (_, t) in enumerate(ps))))
        L.append("fn o_%s(x: objs::%s) -> (String, data::%s) { (x.export(), x.data) }" % (s.name, T(s.name), T(s.name)))
    for n, e in cfg.enums.items():
        L.append("fn e_%s(x: data::%s) -> i64 { match x { %s } }" % (n, T(n), ", ".join("data::%s::%s => %d" % (T(n), T(i.name), 0) for i in e.items)))
        for i in e.items:
            L.append("const E_%s_%s: [u8; (data::%s::%s as i64 == %s) as usize] = [0];" % (n, i.name, T(n), T(i.name), lit(i.value)))
    for n, b in cfg.bits.items():
        for i in b.items:
            L.append("const B_%s_%s: [u8; (data::%s::%s as i64 == %d) as usize] = [0];" % (n, i.name, T(n), T(i.name), i.value + 1))
    for i, op in enumerate(q.ops(cfg)):
        ps = ["%s" % ("Option<%s>" % ty(f, False) if f.null else ty(f, False)) for f, how in op.params]
        r = "objs::" + T(op.result().name)
        res = {"insert": "i64", "update": "bool", "delete": "()", "count": "i64", "iterate": "()", "search": "Option<%s>" % r, "list": "Vec<%s>" % r}[op.kind]
        if op.kind == "iterate":
            ps.insert(0, "fn(%s)" % r)
        L.append("fn f_%d(c: &Ortctx%s) -> rusqlite::Result<%s> { c.%s(%s) }" % (
            i, "".join(", p%d: %s" % x for x in enumerate(ps)), res, op.name, ", ".join("p%d" % k for k in range(len(ps)))))
    if cfg.roles:
        rs = ["none", "default"] + [r for r in cfg.roles if r not in ("none", "default", "all")]
        L.append("fn rr(c: &mut Ortctx) -> i32 { c.db_role(Ortrole::None); match c.db_role_current() { %s } }" % " ".join("Ortrole::%s => 0," % T(r) for r in rs))
    L.append("fn new() -> (Ortdb, Ortdb) { (Ortdb::new(\"a\"), Ortdb::new_with_args(\"b\", Ortargs { bcrypt_cost: 4 })) }")
    L.append("fn con(d: &Ortdb) -> rusqlite::Result<Ortctx> { d.connect() }")
    u = ["data", "objs", "Ortctx", "Ortdb", "Ortargs"] + (["Ortrole"] if cfg.roles else [])
    return "mod user {\nuse super::ort::{%s};\n%s\n}\n" % (", ".join(u), "\n".join(L))


def lit(n):
    return "%d" % n if n >= 0 else "(%d)" % n


class U01(core.Check):
    id = "U01"
    rule = ("state = (configuration); transition = one generation, type-checked by the Rust compiler together with code that uses each structure, enumeration, "
            "bit-field, role, and method with the types and constants that the manual gives it: the configurations of C01 and all words that Rust, its prelude, "
            "or the generated code uses as each kind of name")
    assumptions = ["the crates rusqlite, libsqlite3-sys, num-traits, num-derive, bcrypt, and base64 are stood in for by harness/rs, modelled on the "
                   "versions ort-rust(1) names", "the 2018 edition of Rust"]

    def space(self, tier):
        deep = tier == "thorough"
        out = []
        for g, ts in c01.C01().space(tier):
            if g == "names":
                continue
            k = 1 if deep else {"pairs": 2, "few types": 2, "graphs": 2, "values": 2, "products": 2}.get(g, 1)
            out.append((g, ts[::k]))
        for k in NAMEFN:
            out.append(("name " + k, [NAMEFN[k](w) for w in WORDS]))
        return out

    def jobs(self, tier):
        rgen.crates()
        out = []
        for n, ts in self.space(tier):
            for i in range(0, len(ts), 40):
                out.append((n, i, i + 40))
        return out

    def job(self, env, acc, tier, j):
        ts = dict(self.space(tier))[j[0]][j[1]:j[2]]
        cases = []
        for i, t in enumerate(ts):
            cases.append({"config": t})
            if j[0].startswith("name "):
                cases[-1]["name"] = [j[0][5:], WORDS[j[1] + i]]
        for i, f in self.many(env, acc, cases):
            acc.find(f[0], f[1], cases[i])
        acc.sample("%s: %d configurations" % (j[0], len(ts)), 1)

    def many(self, env, acc, cases):
        mods, own = [], {}
        for i, c in enumerate(cases):
            cfg, err = ref.accepts([("a.ort", c["config"])])
            if cfg is None:
                if acc:
                    acc.n["not accepted"] += 1
                continue
            if acc:
                acc.n["evaluations"] += 1
                acc.n["transitions"] += 1
                acc.state(c["config"])
            r = env.run("ort-rust", [], [], c["config"].encode("utf-8", "surrogateescape"))
            if r.status:
                yield i, ("tool", "ort-rust fails: %r; in\n%s" % (r.err[-300:], c["config"]))
                continue
            src = r.out.decode("utf-8", "replace")
            own[i] = src.count("\n")
            mods.append((i, src + consts(cfg)))
        for i, es in sorted(rgen.typecheck(mods).items()):
            e = es[0]
            mine = e[3] > own[i]
            key = ("use " if mine else "") + e[0]
            if "name" in cases[i]:
                k = cases[i]["name"][0]
                key = "%s:%s" % ("name" if k in ("struct", "enum", "bits") else k, cases[i]["name"][1])
            yield i, (key, "%s%s, in %r; in\n%s" % ("used as documented: " if mine else "", e[1], e[2][:200], cases[i]["config"]))

    def judge(self, env, case):
        return [f for _, f in self.many(env, None, [case])]


if __name__ == "__main__":
    core.main(U01())
