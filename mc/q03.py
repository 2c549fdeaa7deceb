"""Q03: the functions of ort-rust do to a database what the configuration
says they do."""
import cgen, core, dataref as dr, q, ref, rgen
from q01 import jdec, jenc
from q02 import spread


class Q03(core.Check):
    id = "Q03"
    rule = ("state = (configuration, contents of its tables); transition = one call of a generated Rust function with given arguments, compiled and run in "
            "SQLite, judged against the reference's result and contents, what's exported as JSON judged too; all contents up to two or three rows per table "
            "over the stated values, all arguments; distinct_nontrivial = distinct (configuration, contents)")
    assumptions = ["the crates rusqlite, libsqlite3-sys, num-traits, num-derive, bcrypt, and base64 are stood in for by harness/rs, modelled on the versions "
                   "ort-rust(1) names, over the system's SQLite; hashes in clear",
                   "constraints are those ort-sql(1) declares"]

    CAP = {"quick": 24, "thorough": 300}
    LIM = {"quick": 160, "thorough": 1 << 30}

    def jobs(self, tier):
        out = []
        rgen.crates()
        for i, (name, _, _) in enumerate(q.themes(tier)):
            k = 8 if tier != "quick" else 2 if name in ("distinct", "unique", "terms") else 1
            for p in range(k):
                out.append((i, p, k))
        out.sort(key=lambda j: -j[2])
        return out

    def prog(self, env, text):
        k = ("rust", text)
        if k not in env.cache:
            cfg, err = ref.accepts([("a.ort", text)])
            if cfg is None:
                raise Exception("%s: %s" % (text, err))
            for o in [o for o in env.cache if o[0] == "rust"]:
                env.cache.pop(o).close()
            env.cache[k] = rgen.Prog(env, cfg, text)
        return env.cache[k]

    def job(self, env, acc, tier, j):
        i, p, k = j
        name, text, th = q.themes(tier)[i]
        pr = self.prog(env, text)
        cfg = pr.cfg
        if pr.err:
            acc.find("compile", "%s: %s; in\n%s" % (name, pr.err, text[:700]), {"config": text})
            return
        calls = []
        for oi, op in enumerate(pr.ops):
            cs, full = op.calls(th.get("dom", {}), self.CAP[tier])
            if not full:
                acc.caps.append("%s of %s: arguments pairwise" % (op.name, name))
            calls += [(oi, op, a) for a in cs if all(v is not None or f.null for v, (f, _) in zip(a, op.params))]
        enc = [pr.enccall(oi, a) for oi, _, a in calls]
        acc.n["calls"] += len(calls)
        batch = []
        left = self.LIM[tier] // k

        def flush():
            for db, rs in zip(batch, pr.explore([pr.encstate(db) for db in batch], enc, True)):
                acc.n["transitions"] += len(rs)
                for (oi, op, a), r in zip(calls, rs):
                    w = self.one(cfg, db, op, a, r)
                    if w:
                        acc.find("%s:%s" % (w[0], op.kind), "%s; in\n%s" % (w[1][:900], text[:700]),
                                 {"config": text, "db": {t: [{c: jenc(v) for c, v in r.items()} for r in rows] for t, rows in db.items()},
                                  "op": oi, "args": [jenc(v) for v in a]})
            batch.clear()
        for s, db in enumerate(spread(list(q.states(cfg, th)), self.LIM[tier], acc, name)):
            if s % k != p:
                continue
            if acc.state(repr((text, db))):
                acc.n["evaluations"] += 1
                batch.append(db)
                if len(batch) >= 32:
                    flush()
        flush()
        acc.sample("%s: %d calls" % (name, len(calls)), 1)

    @staticmethod
    def one(cfg, db, op, a, r):
        if "unknown" in r:
            return None
        if "crash" in r:
            return "crash", "%s(%s) on %s: %s" % (op.name, ", ".join(map(repr, a)), q.show(db), r["crash"])
        r = rgen.result(cfg, op, r, rgen.checker(cfg, op.result(), None))
        w = q.judge(cfg, db, op, a, r)
        if w and "why" in r:
            w = w[0], "%s (%s)" % (w[1], r["why"])
        return w

    def judge(self, env, case):
        text = case["config"]
        pr = self.prog(env, text)
        if pr.err:
            return [("compile", "%s; in\n%s" % (pr.err, text))]
        if "db" not in case:
            return []
        db = {t: [{c: jdec(v) for c, v in r.items()} for r in rows] for t, rows in case["db"].items()}
        op = pr.ops[case["op"]]
        a = [jdec(v) for v in case["args"]]
        r = pr.explore([pr.encstate(db)], [pr.enccall(case["op"], a)], True)[0][0]
        w = self.one(pr.cfg, db, op, a, r)
        if w:
            return [("%s:%s" % (w[0], op.kind), "%s; in\n%s" % (w[1][:900], text[:700]))]
        return []

    def finish(self, env, acc, tier):
        rgen.evict()


if __name__ == "__main__":
    core.main(Q03())
