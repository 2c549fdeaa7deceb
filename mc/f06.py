"""F06: what a tool prints depends on what it's given, and on nothing else."""
import core, corpus, faults, space
from f03 import PUT, mutants

VARIANTS = ["mem0", "mem1", "mem2"]


class F06(core.Check):
    id = "F06"
    rule = ("state = configuration: of the menus, the corpus, and all that differ from some of them by tokens; transition = one run of a tool, with options, built in three ways: "
            "not optimised, where memory and variables are zero unless written to and allocations are at growing addresses; optimised, with other bytes, at shrinking addresses, and with another "
            "time, process, locale, time zone and random numbers; and with bytes that are characters. Status, output and messages are the same")
    assumptions = ["memory that's not written to has the same byte throughout a run"]
    variants = ["fast"] + VARIANTS
    exhaustive = True
    FEW = ("ort", "ort-diff", "ort-xliff -j")

    def space(self, tier):
        deep = tier == "thorough"
        out = [("menus", t, ()) for t in faults.texts(1)]
        n = 0
        for g in space.GROUPS:
            for s in space.GROUPS[g]:
                n += 1
                if deep or n % 12 == 0:
                    out.append(("mutants of statements", space.text(g, [s]), PUT if deep else PUT[:3]))
            pairs = list(space.tuples(g, 2))
            out += [("pairs", space.text(g, list(s)), ()) for s in (pairs if deep else pairs[::20])]
        for t in faults.OWN:
            out.append(("mutants of texts", t, PUT if deep else PUT[:3]))
        if deep:
            out += [("mutants of files", t, PUT[:4]) for _, t in corpus.files(700)]
        return out

    def jobs(self, tier):
        k = 64 if tier == "thorough" else 40
        return [(o, k) for o in range(k)]

    def job(self, env, acc, tier, j):
        off, k = j
        for what, text, put in self.space(tier)[off::k]:
            for t in [text] if not what.startswith("mutants") else mutants(text, put):
                self.one(env, acc, what, t, tier)

    def one(self, env, acc, what, t, tier):
        if not acc.state(t):
            return
        acc.n[what] += 1
        ok = env.run("ort", [], [], t.encode("utf-8", "surrogateescape"), variant="mem0").status == 0
        acc.n["accepted" if ok else "not accepted"] += 1
        if not ok:
            names = self.FEW
        elif what.startswith("mutants") and tier != "thorough":
            names = ("ort", "ort-json", "ort-c-source", "ort-sqldiff")
        else:
            names = faults.TOOLS
        for name in names:
            tool, args, files, inp = faults.inputs(env, name, [t], 0)
            c = {"tool": tool, "args": args, "files": files, "stdin": inp}
            acc.n["evaluations"] += 1
            acc.n["transitions"] += len(VARIANTS)
            for key, w in self.judge(env, c):
                acc.find(key, w, c)

    def judge(self, env, c):
        rs = [env.run(c["tool"], c["args"], [tuple(f) for f in c["files"]], c["stdin"].encode("utf-8", "surrogateescape"), variant=v) for v in VARIANTS]
        say = "%s %s" % (c["tool"], " ".join(c["args"]))
        for v, r in zip(VARIANTS, rs):
            if r.crashed:
                return [("crash " + c["tool"], "%s: ends with status %d where memory is that of %s" % (say, r.status, v))]
        for v, r in zip(VARIANTS[1:], rs[1:]):
            for what, a, b in (("status", b"%d" % rs[0].status, b"%d" % r.status), ("output", rs[0].out, r.out), ("messages", rs[0].err, r.err)):
                if a != b:
                    k = next((k for k in range(min(len(a), len(b))) if a[k] != b[k]), min(len(a), len(b)))
                    return [("%s %s" % (what, c["tool"]), "%s: %s %r with memory of %s, and %r with that of %s" % (say, what, a[max(0, k - 40):k + 40], VARIANTS[0], b[max(0, k - 40):k + 40], v))]
        return []


if __name__ == "__main__":
    core.main(F06())
