"""T01: the transaction functions of the Node module are transactions."""
import itertools
import core, node, nodeq, ref

TEXT = "struct foo { field id int rowid; field x int unique; insert; count: name c; update x: id; delete: name all; list: name l; };\n"
OPS = ["immediate", "deferred", "exclusive", "commit", "rollback", "ins", "count", "clear"]
MODES = ("immediate", "deferred", "exclusive")


class Model:
    """Two connections to a database in rollback journal mode.

    lock: 0 none, 1 shared, 2 reserved, 3 pending, 4 exclusive."""

    def __init__(self):
        self.lock = [0, 0]
        self.tx = [False, False]
        self.done = [(1, 5)]            # what is committed: rows (id, x)
        self.own = [None, None]         # what an open writer sees
        self.undef = False

    def view(self, h):
        return self.own[h] if self.own[h] is not None else self.done

    def step(self, h, op):
        """Result: ("ok", value) or ("busy",) or ("error",)"""
        o = 1 - h
        if op in MODES:
            if self.tx[h]:
                return ("error",)
            if op == "immediate":
                # a writer must be able to read first
                if self.lock[o] >= 2:
                    return ("busy",)
                self.lock[h] = 2
            elif op == "exclusive":
                if self.lock[o] >= 1:
                    return ("busy",)
                self.lock[h] = 4
            self.tx[h] = True
            return ("ok", None)
        if op == "commit":
            if not self.tx[h]:
                return ("error",)
            if self.lock[h] >= 2:
                if self.lock[o] >= 1:
                    self.lock[h] = max(self.lock[h], 3)
                    return ("busy",)
                self.done = self.view(h)
            self.end(h)
            return ("ok", None)
        if op == "rollback":
            if not self.tx[h]:
                return ("error",)
            self.end(h)
            return ("ok", None)
        if op in ("count", "list"):
            if self.lock[h] == 0:
                if self.lock[o] >= 3:
                    return ("busy",)
                if self.tx[h]:
                    self.lock[h] = 1
            return ("ok", len(self.view(h)))
        # modifications
        if self.lock[h] < 2:
            if self.lock[o] >= 2:
                return ("busy",)
        rows = list(self.view(h))
        if op == "ins":
            n = max([i for i, x in rows] or [0]) + 1
            r = -1
            if not any(x == 7 for i, x in rows):
                rows.append((n, 7))
                r = n
            else:
                # a failed statement writes nothing, but locks
                if self.tx[h]:
                    self.lock[h] = max(self.lock[h], 2)
                return ("ok", -1)
        else:
            rows, r = [], None
        if self.tx[h]:
            self.lock[h] = max(self.lock[h], 2)
            self.own[h] = rows
        else:
            if self.lock[o] >= 1:
                return ("busy",)
            self.done = rows
        return ("ok", r)

    def end(self, h):
        self.tx[h], self.lock[h], self.own[h] = False, 0, None


def call(h, op):
    c = {"h": h, "args": []}
    if op in MODES:
        c.update(fn="db_trans_open_" + op, args=[{"r": 1}])
    elif op in ("commit", "rollback"):
        c.update(fn="db_trans_" + op, args=[{"r": 1}])
    elif op == "ins":
        c.update(fn="db_foo_insert", args=[{"i": "7"}])
    elif op == "clear":
        c.update(fn="db_foo_delete_all")
    else:
        c.update(fn="db_foo_count_c")
    return c


class T01(core.Check):
    id = "T01"
    rule = ("state = what two connections hold and see after a history; transition = one call of a transaction or data function by one of them; all histories of "
            "the stated length over eight functions and two connections, up to exchanging the connections; distinct_nontrivial = distinct histories")
    assumptions = ["node:sqlite in place of better-sqlite3, without waiting for locks", "rollback journal, SQLite's default"]

    def depth(self, tier):
        return 4 if tier == "quick" else 5

    def jobs(self, tier):
        # the first step is the first connection's
        return [(a, b) for a in OPS for b in itertools.product((0, 1), OPS)]

    def job(self, env, acc, tier, j):
        a, (h2, b) = j
        seqs = []
        d = self.depth(tier)
        for k in itertools.product(itertools.product((0, 1), OPS), repeat=d - 2):
            seqs.append([(0, a), (h2, b)] + list(k))
        for i in range(0, len(seqs), 200):
            for key, what, s in self.run(env, acc, seqs[i:i + 200]):
                acc.find(key, what, {"seq": s})
        acc.sample("depth %d" % d, 1)

    def run(self, env, acc, seqs):
        cfg, err = ref.accepts([("a.ort", TEXT)])
        if "t01" not in env.cache or True:
            n, fns, err = nodeq.module(env, cfg, TEXT)
        if err:
            yield "load", err, seqs[0]
            return
        r = n.call("trans", timeout=600, seqs=[[call(h, op) for h, op in s] for s in seqs], init="INSERT INTO foo VALUES (1,5);")
        if "error" in r:
            raise Exception(r["error"])
        for s, o in zip(seqs, r["out"]):
            acc.n["evaluations"] += 1
            acc.n["transitions"] += len(s)
            acc.state(repr(s))
            m = Model()
            bad = None
            nested = False
            for i, ((h, op), x) in enumerate(zip(s, o["r"])):
                # to begin within a transaction fails, with what locks is
                # SQLite's business: nothing is judged from there on
                nested = op in MODES and m.tx[h]
                e = m.step(h, op)
                if "error" in x:
                    got = ("busy",) if "SQLITE_BUSY" in str(x.get("code")) or "locked" in x["error"] else ("error",)
                elif "missing" in x:
                    got = ("missing",)
                else:
                    v = x.get("v")
                    got = ("ok", int(v["i"]) if isinstance(v, dict) and "i" in v else None)
                if nested and got[0] != "ok":
                    break
                if got != e:
                    bad = "step %d (%s by %d): %r, expected %r" % (i + 1, op, h + 1, x if got[0] != "ok" else got, e)
                    break
            if bad is None and not nested:
                rows = sorted(tuple(int(v["i"]) for v in row) for row in o["db"]["foo"])
                if rows != sorted(m.done):
                    bad = "the database holds %r in the end, expected %r" % (rows, m.done)
                elif o["open"] != m.tx:
                    bad = "transactions open in the end: %r, expected %r" % (o["open"], m.tx)
            if bad:
                key = bad.split(":")[0].split("(")[-1].split(" by")[0]
                yield key, "%s: %s" % (", ".join("%d:%s" % (h + 1, op) for h, op in s), bad), s

    def judge(self, env, case):
        s = [tuple(x) for x in case["seq"]]
        return [(k, w) for k, w, _ in self.run(env, core.Acc(), [s])]


if __name__ == "__main__":
    core.main(T01())
