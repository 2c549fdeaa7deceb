"""G03: semantic (link-time) rules decide acceptance."""
import itertools
import core, ref, space

DEPTH = {"quick": {"fields": 3, "terms": 2, "queries": 2, "updates": 2, "uniques": 4, "roles": 2, "tops": 3},
         "thorough": {"fields": 4, "terms": 2, "queries": 3, "updates": 2, "uniques": 5, "roles": 3, "tops": 4}}


class G03(core.Check):
    id = "G03"
    rule = ("state = a base configuration extended by a sequence of statements from a menu; transition = "
            "appending one statement; every sequence up to the group's depth, and every digraph of "
            "structure references on 3 (thorough: 4) structures in every declaration order")
    assumptions = ["statement menus as listed in space.py", "reference reading of ort(5) in ref.py"]

    def jobs(self, tier):
        out = []
        for g, d in DEPTH[tier].items():
            out.append(("seq", g, 0, []))
            for i in range(len(space.GROUPS[g])):
                out.append(("seq", g, d, [i]))
        n = 3 if tier == "quick" else 4
        out += [("prod", "", 8, i) for i in range(32)]
        perms = list(itertools.permutations(range(3)))
        out += [("graph", 3, p, 0) for p in perms]
        if tier == "thorough":
            out += [("graph", 4, p, k) for p in [(0, 1, 2, 3), (3, 2, 1, 0), (1, 3, 0, 2)] for k in range(16)]
        out.sort(key=lambda j: -j[2] if j[0] != "graph" else -9)
        return out

    def job(self, env, acc, tier, j):
        if j[0] == "graph":
            return self.graph(env, acc, j[1], j[2], j[3])
        if j[0] == "prod":
            for t in itertools.islice(space.products(tier), j[3], None, 32):
                acc.n["transitions"] += 1
                if acc.state(t):
                    self.check(env, acc, {"files": [["a.ort", t]]})
                    acc.n["ok_prod" if self.last is None else "rej: " + self.last] += 1
            return
        _, g, d, idx = j
        menu = space.GROUPS[g]

        def go(idx):
            acc.n["transitions"] += 1
            t = space.text(g, [menu[i] for i in idx])
            if acc.state(t):
                self.check(env, acc, {"files": [["a.ort", t]]})
                acc.n["ok_" + g if self.last is None else "rej: " + self.last] += 1
            if len(idx) < d:
                for i in range(len(menu)):
                    go(idx + [i])
        go(idx)
        acc.sample(space.text(g, [menu[i] for i in idx])[-100:], 1)

    def graph(self, env, acc, n, perm, k):
        pairs = [(a, b) for a in range(n) for b in range(n)]
        if n == 4:
            fixed, pairs = [p for i, p in enumerate(pairs[:4]) if k >> i & 1], pairs[4:]
        else:
            fixed = []
        for m in range(1 << len(pairs)):
            e = fixed + [p for i, p in enumerate(pairs) if m >> i & 1]
            acc.n["transitions"] += 1
            t = space.graphs(n, perm, e, ())
            if acc.state(t):
                self.check(env, acc, {"files": [["a.ort", t]]})

    def judge(self, env, case):
        files = [tuple(x) for x in case["files"]]
        c, e = ref.accepts(files)
        self.last = e and e.msg
        r = env.run("ort", [n for n, _ in files], files)
        out = []
        if r.crashed:
            out.append(("crash", "ort ended abnormally (status %d): %r; config: %s" % (r.status, r.err[-300:], files[-1][1])))
        elif c is None and r.status == 0:
            out.append(("accepted:" + e.msg, "accepted although %s; config: %s" % (e, files[-1][1])))
        elif c is not None and r.status != 0:
            out.append(("rejected", "rejected although valid: %r; config: %s" % (r.err, files[-1][1])))
        elif c is None and r.out:
            out.append(("output", "printed output for a rejected configuration: %r" % r.out[:200]))
        return out


if __name__ == "__main__":
    core.main(G03())
