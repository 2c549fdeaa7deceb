"""T02: the transaction functions of generated C are transactions, locked as
documented."""
import glob, itertools, shutil, tempfile
import build, cgen, core, q, ref

TEXT = "struct foo { field id int rowid; field x int unique; insert; count: name c; update x: id; delete: name all; };\n"
OPS = ["o1,0", "o1,1", "o1,-1", "o2,0", "o2,7", "o2,-9", "c1", "c2", "r1", "r2", "ins", "count", "clear", "again"]
DATA = ("ins", "count", "clear", "again")


class Model:
    def __init__(self):
        self.tx, self.lock, self.done, self.own = None, 0, [5], None

    def step(self, op):
        """The result, or "error"."""
        if op in DATA:
            rows = list(self.own if self.own is not None else self.done)
            if op == "count":
                if self.tx:
                    self.lock = max(self.lock, 1)
                return len(rows)
            r = None
            if op == "clear":
                rows = []
            else:
                x = 7 if op == "ins" else 5
                r = x in rows
                if not r:
                    rows.append(x)
            if self.tx:
                self.lock = max(self.lock, 2)
                self.own = rows
            else:
                self.done = rows
            return r
        if op[0] == "o":
            if self.tx:
                return "error"
            n, m = op[1:].split(",")
            self.tx, self.lock = n, 4 if int(m) < 0 else 2 if int(m) > 0 else 0
            return None
        if self.tx != op[1]:
            return "error"
        if op[0] == "c" and self.own is not None:
            self.done = self.own
        self.tx, self.lock, self.own = None, 0, None
        return None

    def seen(self):
        return {"rd": -1 if self.lock >= 3 else len(self.done), "wr": int(self.lock < 2), "ex": int(self.lock < 1)}


class T02(core.Check):
    id = "T02"
    rule = ("state = what a connection of generated C holds and another sees after a history; transition = one call of a transaction or data function, after which "
            "another connection tries to read, to write and to lock; all histories to the stated length over ten transaction calls with two "
            "identifiers and five modes, and four data functions; distinct_nontrivial = distinct histories")
    assumptions = ["sqlbox(3) is stood in for by harness/c, on SQLite with a rollback journal, without waiting for locks"]

    def depth(self, tier):
        return 4 if tier == "quick" else 5

    def jobs(self, tier):
        return list(itertools.product(OPS, OPS)) if tier != "quick" else [(a,) for a in OPS]

    def job(self, env, acc, tier, j):
        d = self.depth(tier)
        seqs = [list(j) + list(k) for k in itertools.product(OPS, repeat=d - len(j))]
        for i in range(0, len(seqs), 500):
            for key, what, s in self.run(env, acc, seqs[i:i + 500]):
                acc.find(key, what, {"seq": s})
        acc.sample("depth %d" % d, 1)

    def run(self, env, acc, seqs):
        if "t02" not in env.cache:
            cfg, err = ref.accepts([("a.ort", TEXT)])
            pr = env.cache["t02"] = cgen.Prog(env, cfg, TEXT, fl="", san=False)
            if not pr.err:
                pr.file = tempfile.mkdtemp(prefix="t02-", dir=build.BASE) + "/db"
        pr = env.cache["t02"]
        if pr.err:
            yield "compile", pr.err, seqs[0]
            return
        n = {op.name: i for i, op in enumerate(pr.ops)}
        names = {"ins": ("db_foo_insert", [7]), "again": ("db_foo_insert", [5]), "count": ("db_foo_count_c", []), "clear": ("db_foo_delete_all", [])}
        fn = {k: "f%d" % i for i, k in enumerate(names)}
        if pr.p is None:
            pr.start()
            pr.send("T 0 i1 i5")
            for k, (f, a) in names.items():
                pr.send(pr.enccall(n[f], a))
        rs = pr.ask(["H " + " ".join(fn.get(op, op) for op in s) for s in seqs])
        for s, r in zip(seqs, rs):
            acc.n["evaluations"] += 1
            acc.n["transitions"] += len(s)
            acc.state(repr(s))
            w = self.one(s, r)
            if w:
                yield w[0], "%s: %s" % (" ".join(s), w[1]), s

    @staticmethod
    def one(s, r):
        if "crash" in r:
            return "crash", r["crash"]
        m = Model()
        for i, op in enumerate(s):
            x = r["h"][i]
            e = m.step(op)
            where = "step %d, %s, " % (i + 1, op)
            if e == "error":
                # may end the process only when next the database is used
                y = r["h"][i + 1] if i + 1 < len(r["h"]) else None
                if "exit" not in x and (y is None and i + 1 < len(s) or y is not None and "exit" not in y):
                    return "misuse:" + op[0], where + "goes on"
                return None
            if "exit" in x:
                return "exit:" + op, where + "ends the process"
            if op in DATA and op != "clear":
                v = x.get("v")
                if op == "count":
                    if v != e:
                        return "count", where + "gives %r, expected %r" % (v, e)
                elif (v == -1) != e:
                    return "insert", where + "gives %r" % v
            see = {k: x[k] for k in ("rd", "wr", "ex")}
            if see != m.seen():
                return "lock:" + op, where + "lets another connection (rows read, may write, may lock) %r, expected %r" % (see, m.seen())
        m.tx, m.lock, m.own = None, 0, None
        see = {k: r["end"][k] for k in ("rd", "wr", "ex")}
        if see != m.seen():
            return "end", "once closed, another connection finds %r, expected %r" % (see, m.seen())
        return None

    def finish(self, env, acc, tier):
        for d in glob.glob(build.BASE + "/t02-*"):
            shutil.rmtree(d, ignore_errors=True)

    def judge(self, env, case):
        return [(k, w) for k, w, _ in self.run(env, core.Acc(), [case["seq"]])]


if __name__ == "__main__":
    core.main(T02())
