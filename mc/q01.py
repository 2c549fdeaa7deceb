"""Q01: the functions of ort-nodejs's module do to a database what the
configuration says they do."""
import json
import core, dataref as dr, nodeq, q, ref


def jenc(v):
    return {"b": v.hex()} if isinstance(v, bytes) else v


def jdec(v):
    return bytes.fromhex(v["b"]) if isinstance(v, dict) else v


class Q01(core.Check):
    id = "Q01"
    rule = ("state = (configuration, contents of its tables); transition = one call of a generated function with given arguments, run "
            "in SQLite and judged against the reference's result and contents; all contents up to two or three rows per table over the stated "
            "values, all arguments; distinct_nontrivial = distinct (configuration, contents)")
    assumptions = ["better-sqlite3 is stood in for by node:sqlite, bcrypt by a salted stand-in that rejects what bcrypt rejects",
                   "constraints are those ort-sql(1) declares"]

    CAP = {"quick": 40, "thorough": 400}

    def jobs(self, tier):
        out = []
        self.th = q.themes(tier)
        for i in range(len(self.th)):
            name = self.th[i][0]
            k = 8 if tier != "quick" else 6 if name in ("distinct", "unique", "terms") else 3 if name.split()[0] in (
                "nested", "many", "actions") else 1
            for p in range(k):
                out.append((i, p, k))
        out.sort(key=lambda j: -j[2])
        return out

    def job(self, env, acc, tier, j):
        i, p, k = j
        name, text, th = q.themes(tier)[i]
        cfg, err = ref.accepts([("a.ort", text)])
        if cfg is None:
            raise Exception("%s: %s" % (name, err))
        n, fns, err = nodeq.module(env, cfg, text)
        if err:
            acc.find("load", "%s: %s" % (name, err), {"config": text})
            return
        calls = []
        for oi, op in enumerate(q.ops(cfg)):
            cs, full = op.calls(th.get("dom", {}), self.CAP[tier])
            if not full:
                acc.caps.append("%s of %s: arguments pairwise" % (op.name, name))
            calls += [(oi, op, a) for a in cs]
        enc = [nodeq.enccall(op, a) for _, op, a in calls]
        acc.n["calls"] += len(calls)
        batch = []

        def flush():
            if not batch:
                return
            for db, rs in zip(batch, nodeq.explore(env, cfg, batch, enc)):
                acc.n["transitions"] += len(rs)
                for (oi, op, a), r in zip(calls, rs):
                    w = q.judge(cfg, db, op, a, nodeq.result(cfg, op, r), fns)
                    if w:
                        acc.find("%s:%s" % (w[0], op.name if w[0] == "missing" else op.kind), "%s; in\n%s" % (w[1][:900], text[:700]),
                                 {"config": text, "db": {t: [{c: jenc(v) for c, v in r.items()} for r in rows] for t, rows in db.items()},
                                  "op": oi, "args": [jenc(v) for v in a]})
            batch.clear()
        for s, db in enumerate(q.states(cfg, th)):
            if s % k != p:
                continue
            if acc.state(repr((text, db))):
                acc.n["evaluations"] += 1
                batch.append(db)
                if len(batch) >= 64:
                    flush()
        flush()
        acc.sample("%s: %d calls" % (name, len(calls)), 1)

    def judge(self, env, case):
        text = case["config"]
        cfg, err = ref.accepts([("a.ort", text)])
        n, fns, err = nodeq.module(env, cfg, text)
        if err:
            return [("load", "%s; in\n%s" % (err, text))]
        if "db" not in case:
            return []
        db = {t: [{c: jdec(v) for c, v in r.items()} for r in rows] for t, rows in case["db"].items()}
        op = q.ops(cfg)[case["op"]]
        a = [jdec(v) for v in case["args"]]
        r = nodeq.explore(env, cfg, [db], [nodeq.enccall(op, a)])[0][0]
        w = q.judge(cfg, db, op, a, nodeq.result(cfg, op, r), fns)
        if w:
            return [("%s:%s" % (w[0], op.name if w[0] == "missing" else op.kind), "%s; in\n%s" % (w[1][:900], text[:700]))]
        return []


if __name__ == "__main__":
    core.main(Q01())
