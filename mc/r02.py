"""R02: the Node module lets roles do, enter and see what the configuration
says, and nothing else."""
import itertools
import core, dataref as dr, node, nodeq, q, r01, ref

STRANGE = ["default", "all", "none", "zz", "RA", ""]


WHICH = ("roles { role ra; role rb; };\nstruct bar { field id int rowid; field t text; search id: name b; list: name l; update t: id: name u; delete id: name d; insert; roles rb { update u; }; };\n"
         "struct foo { field id int rowid; field x int; field t text null; insert;\n"
         "search id: name s1; list: name l1; count: name c1; iterate x: name i1; search id, x: name s2; list x: name l2; count x: name c2; iterate: name i2;\n"
         "update x: id: name u1; update t: id: name u2; update x inc: id: name u3; delete id: name d1; delete x gt: name d2;\n%s };\n")


def move(cfg, cur, new):
    """The role after asking for another: a name, None if refused, "?" if not
    said."""
    if new == cur:
        return cur
    if cur == "none":
        return None
    if new == "none":
        return new
    if cur == "default":
        if new == "all" or new not in cfg.roles:
            return "?"
        return new
    return new if new != "all" and new in cfg.ancestors(cur) else None


def base(cfg):
    """Two rows of each that can have alike ones but for their identifiers,
    one of the others."""
    db = {}
    for s in cfg.structs.values():
        row = {}
        for f in dr.cols(s):
            row[f.name] = (1 if f.rowid or f.ref is not None else dr.HASH + "p" if f.type == "password" else
                           f.type == "int" and 5 or q.DOM[f.type][1])
        db[s.name] = [row]
        if not any(f.unique for f in s.fields.values()) and not s.uniques:
            r = [f.name for f in s.fields.values() if f.rowid]
            db[s.name].append(dict(row, **{n: 2 for n in r}))
    return db


def calls(cfg):
    out = []
    for oi, op in enumerate(q.ops(cfg)):
        a = []
        for f, how in op.params:
            a.append(1 if f.rowid or f.ref is not None else 5 if f.type == "int" else "p" if f.type == "password" else q.DOM[f.type][1])
        out.append((op, tuple(a)))
    return out


class R02(core.Check):
    id = "R02"
    rule = ("state = (configuration, role held, how it was reached); transition = one request for a role or one call of a generated function in it; all "
            "sequences of requests to the stated depth over all roles, built-in roles and strange names; distinct_nontrivial = distinct (configuration, "
            "sequence of requests that was granted)")
    assumptions = ["process.abort is replaced by an exception the harness recognises", "better-sqlite3 is stood in for by node:sqlite",
                   "whether the default role has what is assigned to all, and which names it may enter that are no roles, is not judged"]

    def spaces(self, tier):
        """(name, texts, depth)"""
        one, two = [], []
        A, BM, CT, FL = r01.A, r01.BM, r01.CT, r01.FLAGS
        quick = tier == "quick"
        for f in r01.FORESTS:
            for a in A:
                one.append(r01.cfg(f, [a], "", "", FL[0]))
        for i, f in enumerate(r01.FORESTS):
            for a, b in itertools.combinations(A[1:], 2):
                two.append(r01.cfg(f, [a, b], "", "", FL[0]))
            for a in A[1:]:
                for b in BM:
                    for c in CT:
                        if b or c:
                            two.append(r01.cfg(f, [a], b, c, FL[0]))
            for fl in FL[1:]:
                for b in BM:
                    two.append(r01.cfg(f, [A[13]], b, CT[1], fl))
        deep = [r01.cfg(f, [a], BM[3], CT[2], FL[0]) for f in r01.FORESTS for a in (A[14], A[9])]
        # no roles at all, and roles without any
        plain = [r01.FOO % "" + "};\n" + r01.MID % "" + "};\n" + r01.TGT + "};\n",
                 "roles {};\n" + r01.FOO % "" + "};\n" + r01.MID % "" + "};\n" + r01.TGT + "};\n",
                 "roles { role ra; };\n" + r01.FOO % "" + "roles none { list q; };\n};\n" + r01.MID % "" + "};\n" + r01.TGT + "};\n",
                 r01.FOO % "" + "roles default { list q; };\n};\n" + r01.MID % "" + "};\n" + r01.TGT + "};\n"]
        # which of several operations of a kind have roles
        which = []
        N = ["list l1", "list l2", "update u1", "update u2", "update u3", "delete d1", "delete d2"]
        R = ["search s1", "search s2", "count c1", "count c2", "iterate i1", "iterate i2", "insert"]
        for ns, rest in ((N, R), (R, N)):
            for m in range(1 << len(ns)):
                if quick and m & 1 and m & 16:
                    continue
                a = [x for i, x in enumerate(ns) if m >> i & 1]
                b = [x for i, x in enumerate(rest) if (m * 5 >> i) & 1]
                t = (" roles ra { %s; };" % "; ".join(a) if a else "") + (" roles rb { %s; };" % "; ".join(b) if b else "")
                which.append(WHICH % t)
        return [("one", one, 2 if quick else 3), ("two", two, 1), ("deep", deep, 4 if quick else 5), ("plain", plain, 1),
                ("which", which, 1)]

    def jobs(self, tier):
        out = []
        for si, (n, ts, d) in enumerate(self.spaces(tier)):
            step = 1 if n == "deep" else 8
            out += [(si, i, step) for i in range(0, len(ts), step)]
        out.sort(key=lambda j: j[2])
        return out

    def job(self, env, acc, tier, j):
        si, i, step = j
        name, texts, depth = self.spaces(tier)[si]
        for text in texts[i:i + step]:
            cfg, err = ref.accepts([("a.ort", text)])
            if cfg is None:
                acc.n["not accepted"] += 1
                continue
            for key, what in self.explore(env, acc, cfg, text, self.seqs(cfg, depth)):
                acc.find(key, what[0], {"config": text, "seqs": [what[1]]})
        acc.sample("%s: depth %d, %d configurations" % (name, depth, len(texts)), 1)

    def seqs(self, cfg, depth):
        if not cfg.roles:
            return [[]]
        names = [n for n in cfg.roles if n not in ("default", "all", "none")] + STRANGE
        out = [[]]
        last = [([], "default")]
        for d in range(depth):
            nxt = []
            for s, cur in last:
                for n in names:
                    m = move(cfg, cur, n)
                    if m == "?":
                        continue
                    out.append(s + [n])
                    if m is not None:
                        nxt.append((s + [n], m))
            last = nxt
        return out

    def explore(self, env, acc, cfg, text, seqs):
        n, fns, err = nodeq.module(env, cfg, text)
        if err:
            yield "load", (err + "; in\n" + text, [])
            return
        db = base(cfg)
        cs = calls(cfg)
        r = n.call("roleops", timeout=300, state=nodeq.encstate(cfg, db), seqs=seqs, late=1, calls=[nodeq.enccall(op, a) for op, a in cs])
        if "error" in r:
            raise Exception(r["error"])
        for seq, o in zip(seqs, r["out"]):
            cur, want = "default", []
            for x in seq:
                cur = move(cfg, cur, x)
                want.append(cur if cur is not None else "ABORT")
            acc.n["evaluations"] += 1
            acc.n["transitions"] += len(o["x"]) + 1
            if o["cur"] != want:
                yield "move", ("roles %s in turn: %s, expected %s; in\n%s" % (seq, o["cur"], want, text), seq)
                continue
            if want and want[-1] == "ABORT":
                continue
            acc.state(repr((text, seq)))
            role = cur if cfg.roles else None
            for (op, a), x in zip(cs, o["x"]):
                rr = nodeq.result(cfg, op, x, role)
                what = "in role %s (%s), %s" % (cur, "/".join(seq), op.name)
                if role is not None:
                    name = op.o.name if op.o is not None else None
                    roles = cfg.op_roles(op.s, op.kind, name)
                    if role == "default" and "all" in roles and "default" not in roles:
                        if "abort" in rr:
                            continue
                    elif not cfg.holds(role, roles):
                        if "abort" not in rr:
                            yield "allowed", ("%s is allowed, roles are %s; in\n%s" % (what, sorted(roles), text), seq)
                        continue
                    elif "abort" in rr:
                        yield "denied", ("%s is denied, roles are %s; in\n%s" % (what, sorted(roles), text), seq)
                        continue
                if "late" in x:
                    yield "late", ("%s: what is exported changes to %s when the role does; in\n%s" % (what, x["late"], text), seq)
                    continue
                w = q.judge(cfg, db, op, a, rr, fns)
                if w:
                    yield w[0] + ":" + op.kind, ("%s: %s; in\n%s" % (what, w[1][:700], text), seq)

    def judge(self, env, case):
        cfg, err = ref.accepts([("a.ort", case["config"])])
        return [(k, w[0]) for k, w in self.explore(env, core.Acc(), cfg, case["config"], case["seqs"])]


if __name__ == "__main__":
    core.main(R02())
