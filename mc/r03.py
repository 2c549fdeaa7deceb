"""R03: the C that ort-c-source writes lets roles do, enter and see what the
configuration says, and nothing else."""
import core, cgen, q, ref
from r02 import R02, base, calls, move


class R03(R02):
    id = "R03"
    rule = ("state = (configuration, role held, how it was reached); transition = one request for a role or one call of a generated C function in it; all "
            "sequences of requests to the stated depth over all roles and the built-in ones; distinct_nontrivial = distinct (configuration, "
            "sequence of requests that was granted)")
    assumptions = ["sqlbox(3) is stood in for by harness/c, roles as sqlbox_role(3) has them: statements of ancestors, entering ancestors and the sink",
                   "whether the default role has what is assigned to all is not judged"]

    def spaces(self, tier):
        out = []
        for n, ts, d in R02.spaces(self, tier):
            if tier == "quick" and n == "two":
                ts = ts[::2]
            out.append((n, ts, d))
        return out

    def seqs(self, cfg, depth):
        if not cfg.roles:
            return [[]]
        names = [n for n in cfg.roles if n not in ("all",)]
        out = [[]]
        last = [([], "default")]
        for d in range(depth):
            nxt = []
            for s, cur in last:
                for n in names:
                    m = move(cfg, cur, n)
                    out.append(s + [n])
                    if m is not None:
                        nxt.append((s + [n], m))
            last = nxt
        return out

    def prog(self, env, cfg, text):
        return cgen.Prog(env, cfg, text, san=False, safe=len(text) % 2)

    def why(self, x):
        return bytes.fromhex(x["why"]["s"]) if "why" in x else ""

    def value(self, cfg, db, op, a, x, role):
        return q.judge(cfg, db, op, a, cgen.result(cfg, op, x, cgen.checker(cfg, op.result(), role)))

    def explore(self, env, acc, cfg, text, seqs):
        pr = self.prog(env, cfg, text)
        if pr.err:
            yield "compile", (pr.err + "; in\n" + text, [])
            return
        names = ["none", "default"] + [r for r in cfg.roles or [] if r not in ("none", "default", "all")]
        db = base(cfg)
        cs = calls(cfg)
        enc = []
        for seq in seqs:
            rs = [names.index(x) for x in seq] or None
            enc.append(pr.enccall(-1, [], rs).replace("C -1", "C %d" % ((1 << 64) - 1)))
            enc += [pr.enccall(oi, a, rs) for oi, (op, a) in enumerate(cs)]
        try:
            out = pr.explore([pr.encstate(db)], enc, True, late=1 if cfg.roles else 0)[0]
        finally:
            pr.close()
        k = 1 + len(cs)
        for i, seq in enumerate(seqs):
            mv, xs = out[i * k], out[i * k + 1:i * k + k]
            cur = "default"
            for x in seq:
                cur = move(cfg, cur, x)
            acc.n["evaluations"] += 1
            acc.n["transitions"] += k
            got = "ABORT" if "inrole" in mv or "abort" in mv or "crash" in mv else names[mv["role"]] if "role" in mv else cur
            if got != (cur or "ABORT"):
                yield "move", ("roles %s in turn: %s (%r), expected %s; in\n%s" % (seq, got, mv, cur, text), seq)
                continue
            if cur is None:
                continue
            acc.state(repr((text, seq)))
            role = cur if cfg.roles else None
            for (op, a), x in zip(cs, xs):
                what = "in role %s (%s), %s" % (cur, "/".join(seq), op.name)
                if "crash" in x:
                    yield "crash", ("%s: %s; in\n%s" % (what, x["crash"], text), seq)
                    continue
                if "unknown" in x:
                    continue
                end = "abort" in x or "noopen" in x
                if role is not None:
                    name = op.o.name if op.o is not None else None
                    roles = cfg.op_roles(op.s, op.kind, name)
                    if role == "default" and "all" in roles and "default" not in roles:
                        if end:
                            continue
                    elif not cfg.holds(role, roles):
                        if not end:
                            yield "allowed", ("%s is allowed, roles are %s; in\n%s" % (what, sorted(roles), text), seq)
                        continue
                    elif end:
                        yield "denied", ("%s is denied, roles are %s: %s; in\n%s" % (
                            what, sorted(roles), self.why(x), text), seq)
                        continue
                if "late" in x:
                    yield "late", ("%s: what is exported changes when the role does; in\n%s" % (what, text), seq)
                    continue
                w = self.value(cfg, db, op, a, x, role)
                if w:
                    yield w[0] + ":" + op.kind, ("%s: %s; in\n%s" % (what, w[1][:700], text), seq)

    def finish(self, env, acc, tier):
        cgen.evict()


if __name__ == "__main__":
    core.main(R03())
