"""Q02: the functions of ort-c-source do to a database what the
configuration says they do."""
import json
import cgen, core, dataref as dr, q, ref
from q01 import jdec, jenc


class Q02(core.Check):
    id = "Q02"
    rule = ("state = (configuration, contents of its tables); transition = one call of a generated C function with given arguments, compiled "
            "with the address and undefined-behaviour sanitizers and run in SQLite, judged against the reference's result and contents and for "
            "memory that remains; all contents up to two or three rows per table over the stated values, all arguments; distinct_nontrivial = "
            "distinct (configuration, contents)")
    assumptions = ["sqlbox(3) and crypt_newhash(3) are stood in for (harness/c): statements run by SQLite in the same process, salted hashes in clear",
                   "constraints are those ort-sql(1) declares"]

    CAP = {"quick": 24, "thorough": 300}
    LIM = {"quick": 220, "thorough": 1 << 30}

    def jobs(self, tier):
        out = []
        self.th = q.themes(tier)
        for i in range(len(self.th)):
            name = self.th[i][0]
            k = 8 if tier != "quick" else 2 if name in ("distinct", "unique", "terms") else 1
            for p in range(k):
                out.append((i, p, k))
        out.sort(key=lambda j: -j[2])
        return out

    def prog(self, env, text, safe):
        k = ("c", text, safe)
        if k not in env.cache:
            cfg, err = ref.accepts([("a.ort", text)])
            if cfg is None:
                raise Exception("%s: %s" % (text, err))
            for o in [o for o in env.cache if o[0] == "c"]:
                env.cache.pop(o).close()
            env.cache[k] = cgen.Prog(env, cfg, text, safe=safe)
        return env.cache[k]

    def job(self, env, acc, tier, j):
        i, p, k = j
        name, text, th = q.themes(tier)[i]
        safe = bool(i % 2)
        pr = self.prog(env, text, safe)
        cfg = pr.cfg
        if pr.err:
            acc.find("compile", "%s: %s; in\n%s" % (name, pr.err, text[:700]), {"config": text, "safe": safe})
            return
        calls = []
        for oi, op in enumerate(pr.ops):
            cs, full = op.calls(th.get("dom", {}), self.CAP[tier])
            if not full:
                acc.caps.append("%s of %s: arguments pairwise" % (op.name, name))
            calls += [(oi, op, a) for a in cs if cgen.callable_(op, a)]
        enc = [pr.enccall(oi, a) for oi, _, a in calls]
        acc.n["calls"] += len(calls)
        batch = []
        left = self.LIM[tier] // k

        def flush():
            for db, rs in zip(batch, pr.explore([pr.encstate(db) for db in batch], enc, False)):
                acc.n["transitions"] += len(rs)
                for (oi, op, a), r in zip(calls, rs):
                    w = self.one(cfg, db, op, a, r)
                    if w:
                        acc.find("%s:%s" % (w[0], op.kind), "%s; in\n%s" % (w[1][:900], text[:700]),
                                 {"config": text, "safe": safe, "db": {t: [{c: jenc(v) for c, v in r.items()} for r in rows] for t, rows in db.items()},
                                  "op": oi, "args": [jenc(v) for v in a]})
            batch.clear()
        for s, db in enumerate(spread(list(q.states(cfg, th)), self.LIM[tier], acc, name)):
            if s % k != p:
                continue
            if acc.state(repr((text, db))):
                acc.n["evaluations"] += 1
                batch.append(db)
                if len(batch) >= 32:
                    flush()
        flush()
        acc.sample("%s: %d calls" % (name, len(calls)), 1)

    @staticmethod
    def one(cfg, db, op, a, r):
        if "unknown" in r:
            return None
        if "crash" in r:
            return "crash", "%s(%s) on %s: %s" % (op.name, ", ".join(map(repr, a)), q.show(db), r["crash"])
        w = q.judge(cfg, db, op, a, cgen.result(cfg, op, r))
        if w and "why" in r:
            w = w[0], w[1] + " (%s)" % bytes.fromhex(r["why"]["s"]).decode("utf-8", "replace")
        return w

    def judge(self, env, case):
        text = case["config"]
        pr = self.prog(env, text, case["safe"])
        if pr.err:
            return [("compile", "%s; in\n%s" % (pr.err, text))]
        if "db" not in case:
            return []
        db = {t: [{c: jdec(v) for c, v in r.items()} for r in rows] for t, rows in case["db"].items()}
        op = pr.ops[case["op"]]
        a = [jdec(v) for v in case["args"]]
        r = pr.explore([pr.encstate(db)], [pr.enccall(case["op"], a)], False)[0][0]
        w = self.one(pr.cfg, db, op, a, r)
        if w:
            return [("%s:%s" % (w[0], op.kind), "%s; in\n%s" % (w[1][:900], text[:700]))]
        return []

    def finish(self, env, acc, tier):
        cgen.evict()


def spread(l, lim, acc, name):
    """At most lim of them, evenly taken; recorded as a cap."""
    if len(l) <= lim:
        return l
    acc.caps.append("%s: %d of %d contents" % (name, lim, len(l)))
    return [l[i * len(l) // lim] for i in range(lim)]


if __name__ == "__main__":
    core.main(Q02())
