"""J03: export() of generated Rust gives the JSON of what the object holds."""
import itertools
import cgen, core, dataref as dr, q, ref, rgen
from j02 import BLOBS, HEAD, I64, TEXTS, TYPES
from q01 import jdec, jenc

INTS = [0, 1, -1, 5, 1 << 32, I64 - 1, -I64, 1234567890123]
REALS = [0.0, 1.5, -1.5, 0.1, 1 / 3, 1e300, 1e-300, 5e-324, 1.7976931348623157e308, 123456789.125, 1e21, 1e16, 2.0 ** 53, 100.0]
VALUES = {"int": INTS, "date": INTS, "epoch": INTS, "bit": [0, 1, 63], "bits bi": [0, 1, 9, 1 << 62, -I64], "enum en": [1, -4], "real": REALS,
          "text": TEXTS, "email": TEXTS, "password": ["p"], "blob": BLOBS}


def configs():
    """Configurations, each with its contents."""
    out = []
    v = lambda t, x: dr.HASH + x if t == "password" and x is not None else x
    for t in TYPES:
        text = HEAD + "struct foo { field id int rowid; field x %s; field n %s null; list; iterate; search id: name s; };\n" % (t, t)
        vs = [v(t, x) for x in VALUES[t]]
        out.append((text, [{"foo": [dict(id=1, x=x, n=None)]} for x in vs] + [{"foo": [dict(id=2, x=vs[0], n=x)]} for x in vs]))
    # what precedes and follows, is null, or isn't exported
    for order in itertools.permutations(["a text null", "b int null", "c password", "d int noexport", "e blob null"]):
        text = "struct foo { %s list; field id int rowid; };\n" % " ".join("field %s;" % x for x in order[:4])
        names = [x.split()[0] for x in order[:4]]
        dbs = []
        for m in range(1 << sum(x.endswith("null") for x in order[:4])):
            row, k = {}, m
            for n in names:
                if n in "abe":
                    row[n] = None if k & 1 else {"a": "x\\\"", "b": -7, "e": b"\xfb\x00"}[n]
                    k >>= 1
                else:
                    row[n] = dr.HASH + "p" if n == "c" else 3
            dbs.append({"foo": [dict(row, id=4)]})
        out.append((text, dbs))
    # nested: by null and other references, to two levels
    for n1, n2 in itertools.product(("", " null"), repeat=2):
        text = ("struct bar { field id int rowid; field t text null; };\nstruct mid { field id int rowid; field bid:bar.id int%s; field b struct bid; field s text; };\n"
                "struct foo { field a struct mid1; field mid1:mid.id int%s; field c int; field d struct mid2; field mid2:mid.id int; list; iterate; search c: limit 1 name s; };\n" % (n2, n1))
        dbs = []
        for x, y, t in itertools.product([1, 2] + ([None] if n1 else []), [1, 2], [None, "q\\\n"]):
            for b in [1] + ([None] if n2 else []):
                dbs.append({"bar": [dict(id=1, t=t)], "mid": [dict(id=1, bid=1, s="one"), dict(id=2, bid=b, s="\u00e9\x01")],
                            "foo": [dict(mid1=x, c=9, mid2=y)]})
        out.append((text, dbs))
    # several objects
    text = "struct foo { field id int rowid; field t text; list; iterate; };\n"
    out.append((text, [{"foo": [dict(id=i, t=t) for i in range(k)]} for k in range(4) for t in ("", "\\")]))
    return out


class J03(core.Check):
    id = "J03"
    rule = ("state = (configuration, contents); transition = one export of each object a generated Rust method gives, parsed as JSON and compared with what the "
            "tables hold: every stated value of every type, null or not, all orders of four of five fields with all combinations of nulls, nested structures")
    assumptions = ["the crates ort-rust(1) names are stood in for by harness/rs", "an integer or decimal may be a string, as from ort-nodejs", "decimals are finite"]

    def jobs(self, tier):
        rgen.crates()
        return list(range(len(configs())))

    def prog(self, env, text):
        k = ("rust", text)
        if k not in env.cache:
            cfg, err = ref.accepts([("a.ort", text)])
            if cfg is None:
                raise Exception("%s: %s" % (text, err))
            for o in [o for o in env.cache if o[0] == "rust"]:
                env.cache.pop(o).close()
            env.cache[k] = rgen.Prog(env, cfg, text)
        return env.cache[k]

    def job(self, env, acc, tier, j):
        text, dbs = configs()[j]
        for db in dbs:
            if acc.state(repr((text, db))):
                acc.n["transitions"] += 1
                self.check(env, acc, {"config": text, "db": {t: [{c: jenc(v) for c, v in r.items()} for r in rows] for t, rows in db.items()}})

    def judge(self, env, case):
        text = case["config"]
        pr = self.prog(env, text)
        if pr.err:
            yield "compile", "%s; in\n%s" % (pr.err, text)
            return
        db = {t: [{c: jdec(v) for c, v in r.items()} for r in rows] for t, rows in case["db"].items()}
        calls = []
        for oi, op in enumerate(pr.ops):
            calls.append((oi, op, tuple(db["foo"][0][f.name] if db["foo"] else 1 for f, _ in op.params)))
        out = pr.explore([pr.encstate(db)], [pr.enccall(oi, a) for oi, _, a in calls], True)[0]
        for (oi, op, a), r in zip(calls, out):
            if "crash" in r:
                w = "crash", r["crash"]
            else:
                w = q.judge(pr.cfg, db, op, a, rgen.result(pr.cfg, op, r, rgen.checker(pr.cfg, op.result(), None)))
            if w:
                yield w[0] + ":" + op.kind, "%s on %s: %s; in\n%s" % (op.name, q.show(db)[:300], w[1][:700], text)

    def finish(self, env, acc, tier):
        rgen.evict()


if __name__ == "__main__":
    core.main(J03())
