"""G06: the printed configuration means the same as the one read, and prints
as itself."""
import itertools
import core, frames, ref, space

FR = {"quick": -1, "thorough": 0}


class G06(core.Check):
    id = "G06"
    rule = ("state = accepted configuration (token frames, statement menus, literal menus); transition = "
            "print and read back, through the real parser and writer; distinct_nontrivial = distinct "
            "accepted configurations")
    assumptions = ["equality of meaning as in ref.Cfg.canon (declaration order of operations and white-space runs in labels do not count)"]

    def jobs(self, tier):
        out = [("values", i) for i in range(8)] + [("prod", i) for i in range(32)]
        for i, f in enumerate(frames.FRAMES):
            d = max(2, f.depth["quick"] + FR[tier])
            for t in f.alpha:
                out.append(("frame", i, d, [t]))
        for g, d in {"fields": 2, "terms": 1, "queries": 2, "updates": 1, "uniques": 3, "roles": 2, "tops": 2}.items():
            d += tier == "thorough" and g not in ("queries",)
            for i in range(len(space.GROUPS[g])):
                out.append(("menu", g, d, [i]))
        return out

    def job(self, env, acc, tier, j):
        def one(t):
            acc.n["transitions"] += 1
            if acc.state(t):
                if ref.accepts([("a.ort", t)])[0] is None:
                    acc.n["rejected"] += 1
                    acc.states.discard(None)
                    return
                acc.n["accepted"] += 1
                self.check(env, acc, {"files": [["a.ort", t]]})
                acc.sample(t[-150:], 1)
        if j[0] == "values":
            for t in space.values()[j[1]::8]:
                one(t)
        elif j[0] == "prod":
            for t in itertools.islice(space.products(tier), j[1], None, 32):
                one(t)
        elif j[0] == "frame":
            f = frames.FRAMES[j[1]]

            def visit(toks, v):
                for tail in f.tails:
                    if tail:
                        one(f.text(toks, tail))
            v = frames.viable(f, j[3])
            visit(j[3], v)
            if v != "dead":
                frames.walk(f, j[2], j[3], visit)
        else:
            menu = space.GROUPS[j[1]]

            def go(idx):
                one(space.text(j[1], [menu[i] for i in idx]))
                if len(idx) < j[2]:
                    for i in range(len(menu)):
                        go(idx + [i])
            go(j[3])

    def judge(self, env, case):
        files = [(n, t.encode("latin1")) for n, t in case["files"]]
        show = case["files"][-1][1][-400:]
        c, e = ref.accepts([tuple(x) for x in case["files"]])
        if c is None:
            return []
        r = env.run("ort", [n for n, _ in files], files)
        if r.crashed:
            return [("crash", "ort ended abnormally (status %d): %r; config: %s" % (r.status, r.err[-300:], show))]
        if r.status:
            return [("rejected", "rejected although valid: %r; config: %s" % (r.err, show))]
        o = r.out
        c2, e2 = ref.accepts([("a.ort", o.decode("latin1"))])
        if c2 is None:
            return [("unreadable", "printed form is not a valid configuration (%s): %r; config: %s" % (e2, o[-300:], show))]
        a, b = c.canon(), c2.canon()
        if a != b:
            return [("meaning", "printed form means something else: %s; config: %s" % (delta(a, b), show))]
        r2 = env.run("ort", ["a.ort"], [("a.ort", o)])
        if r2.status:
            return [("reread", "printed form rejected when read back: %r; config: %s" % (r2.err, show))]
        if r2.out != o:
            return [("unstable", "printing the printed form changes it; config: %s" % show)]
        return []


def delta(a, b, path=""):
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return delta(x, y, path + ".%d" % i)
    return ("%s: %r -> %r" % (path, a, b))[:400]


if __name__ == "__main__":
    core.main(G06())
