"""F01: allocations that fail end in failure, or in what had been the result
anyway, and in no case in a crash."""
import core, faults, srv


class F01(core.Check):
    id = "F01"
    rule = ("state = (tool, options, configuration, allocation that fails); transition = one run of the tool, built with address and undefined behaviour "
            "sanitizers, with that allocation failing, alone or with all after it: all allocations made by calls of a stack not yet seen for the tool; in the thorough tier, also "
            "all allocations at all for the first ten configurations")
    assumptions = ["calls are the same if the return addresses from main are"]
    variants = ["fast", "asan"]
    exhaustive = True
    SPLIT = 4

    def texts(self, tier):
        return faults.texts(1 if tier == "thorough" else 3)

    def jobs(self, tier):
        n = len(self.texts(tier))
        return [(t, o, n) for t in faults.TOOLS for o in range(self.SPLIT)]

    def job(self, env, acc, tier, j):
        ts = self.texts(tier)
        name, off, n = j
        seen = set()
        for i in range(off, n, self.SPLIT):
            tool, args, files, inp = faults.inputs(env, name, ts, i)
            inp = inp.encode("utf-8", "surrogateescape")
            r = env.run(tool, args, files, inp, variant="asan", wmode=srv.ATRACE)
            if r.crashed:
                acc.n["crashes without failure (F03)"] += 1
                continue
            acc.n["configurations"] += 1
            c = {"tool": tool, "args": args, "files": files, "stdin": inp.decode("utf-8", "surrogateescape")}
            for k, h in enumerate(r.trace):
                if h in seen and not (tier == "thorough" and i < 10):
                    continue
                seen.add(h)
                for mode in (0, srv.AFROM):
                    self.go(env, acc, dict(c, fail=k + 1, mode=mode), r)
        acc.n["calling contexts"] += len(seen)
        acc.sample("%s: %d calling contexts of allocations" % (name, len(seen)), 1)

    def go(self, env, acc, c, full):
        acc.n["evaluations"] += 1
        acc.n["transitions"] += 1
        acc.state(repr(c))
        for key, what in self.judge(env, c, full):
            acc.find(key, what, c)

    def judge(self, env, c, full=None):
        a = (c["tool"], c["args"], [tuple(f) for f in c["files"]], c["stdin"].encode("utf-8", "surrogateescape"))
        full = full or env.run(*a, variant="asan")
        r = env.run(*a, variant="asan", failalloc=c["fail"], wmode=c["mode"])
        say = "%s %s, allocation %d failing%s" % (c["tool"], " ".join(c["args"]), c["fail"], " and all after it" if c["mode"] else "")
        if r.crashed:
            return [("crash " + c["tool"], "%s: crashes with status %d: %r" % (say, r.status, r.err[-300:]))]
        if not r.injected or not faults.good(c["tool"], r):
            return []
        if r.status != full.status and not faults.good(c["tool"], full):
            return [("accepts " + c["tool"], "%s: exits with %d, not %d" % (say, r.status, full.status))]
        if r.out != full.out or r.status != full.status:
            k = next((i for i in range(min(len(r.out), len(full.out))) if r.out[i] != full.out[i]), min(len(r.out), len(full.out)))
            return [("output " + c["tool"], "%s: exits with %d, but its output differs from that without failure: at byte %d %r, not %r" % (
                say, r.status, k, r.out[k:k + 40], full.out[k:k + 40]))]
        return []


if __name__ == "__main__":
    core.main(F01())
