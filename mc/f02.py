"""F02: output that fails is reported: by what library functions return, and by
the exit status of the programs."""
import core, faults, srv


class F02(core.Check):
    id = "F02"
    rule = ("state = (tool, options, configuration, write that fails); transition = one run of the tool with that write failing, once or with all "
            "after it: all writes made by calls of a stack not yet seen for the tool, of an unbuffered stream; and buffered streams failing from the first, middle "
            "and last byte on")
    assumptions = ["writes fail as those of a full disk do: with an error and nothing written", "calls are the same if the return addresses from main are"]
    variants = ["fast"]
    exhaustive = True

    def texts(self, tier):
        return faults.texts(1 if tier == "thorough" else 3)

    def jobs(self, tier):
        n = len(self.texts(tier))
        return [(t, o, n) for t in faults.TOOLS for o in range(4)]

    def job(self, env, acc, tier, j):
        ts = self.texts(tier)
        name, off, n = j
        seen = set()
        for i in range(off, n, 4):
            tool, args, files, inp = faults.inputs(env, name, ts, i)
            inp = inp.encode("utf-8", "surrogateescape")
            r = env.run(tool, args, files, inp, wlimit=1 << 30, wmode=srv.COUNT | srv.TRACE)
            if not faults.good(tool, r):
                acc.n["not accepted"] += 1
                continue
            acc.n["configurations"] += 1
            c = {"tool": tool, "args": args, "files": files, "stdin": inp.decode("utf-8", "surrogateescape")}
            for k, h in enumerate(r.trace):
                if h in seen:
                    continue
                seen.add(h)
                for mode in (srv.COUNT, srv.COUNT | srv.ONCE):
                    self.go(env, acc, dict(c, limit=k, mode=mode))
            if len(r.out):
                for k in sorted({0, len(r.out) // 2, len(r.out) - 1}):
                    self.go(env, acc, dict(c, limit=k, mode=srv.BUF))
        acc.n["calling contexts"] += len(seen)
        acc.sample("%s: %d calling contexts of writes" % (name, len(seen)), 1)

    def go(self, env, acc, c):
        acc.n["evaluations"] += 1
        acc.n["transitions"] += 1
        acc.state(repr(c))
        for key, what in self.judge(env, c):
            acc.find(key, what, c)

    def judge(self, env, c):
        r = env.run(c["tool"], c["args"], [tuple(f) for f in c["files"]], c["stdin"].encode("utf-8", "surrogateescape"), wlimit=c["limit"], wmode=c["mode"])
        say = "%s %s, %s %d failing%s, %s" % (c["tool"], " ".join(c["args"]), "byte" if c["mode"] & srv.BUF else "write", c["limit"],
                                                "" if c["mode"] & srv.ONCE else " and all after it",
                                                "after ...%r" % r.out[-60:].decode("utf-8", "replace"))
        if r.crashed:
            return [("crash " + c["tool"], "%s: crashes with status %d: %r" % (say, r.status, r.err[-300:]))]
        if not r.outfailed:
            return []
        if faults.good(c["tool"], r):
            return [("status " + c["tool"], "%s: exits with %d" % (say, r.status))]
        if r.unrep & 1 and not c["mode"] & srv.BUF:
            return [("library " + c["tool"], "%s: the library function reports success: %s" % (say, r.err.decode("utf-8", "replace").strip().splitlines()[-1]))]
        return []


if __name__ == "__main__":
    core.main(F02())
