"""G01: a configuration is accepted exactly when ort(5) allows it."""
import core, frames, ref


class G01(core.Check):
    id = "G01"
    rule = ("state = viable token prefix inside a frame (a fixed surrounding configuration); "
            "transition = appending one token of the frame's alphabet, run through the real parser "
            "with every closing tail; distinct_nontrivial = distinct configuration texts judged")
    assumptions = ["token alphabets and depths as listed in frames.py",
                   "reference reading of ort(5) in ref.py"]

    def jobs(self, tier):
        out = []
        for i, f in enumerate(frames.FRAMES):
            d = f.depth[tier]
            for t in f.alpha:
                if frames.viable(f, [t]) == "dead":
                    out.append((i, [t], 1))
                else:
                    out.append((i, [t], 1))
                    for u in f.alpha:
                        out.append((i, [t, u], d))
        out.sort(key=lambda j: -j[2])
        return out

    def job(self, env, acc, tier, j):
        i, toks, d = j
        f = frames.FRAMES[i]

        def visit(toks, v):
            acc.n["transitions"] += 1
            acc.n[v] += 1
            for tail in f.tails:
                text = f.text(toks, tail)
                if acc.state(text):
                    self.check(env, acc, {"files": [["a.ort", text]]})
        v = frames.viable(f, toks)
        visit(toks, v)
        if v != "dead" and len(toks) < d:
            frames.walk(f, d, toks, visit)
        if acc.n["ok"]:
            acc.sample(f.text(toks, f.tails[-1])[-120:], 1)

    def judge(self, env, case):
        files = [tuple(x) for x in case["files"]]
        c, e = ref.accepts(files)
        r = env.run("ort", [n for n, _ in files], files)
        out = []
        if r.crashed:
            out.append(("crash", "ort ended abnormally (status %d): %r" % (r.status, r.err[-300:])))
        elif c is None and r.status == 0:
            out.append(("accepted:" + e.msg.split(" (")[0], "accepted although %s; config: %s" % (e, files[-1][1])))
        elif c is not None and r.status != 0:
            out.append(("rejected", "rejected although valid: %r; config: %s" % (r.err, files[-1][1])))
        elif c is None and r.out:
            out.append(("output", "printed output for a rejected configuration: %r" % r.out[:200]))
        return out


if __name__ == "__main__":
    core.main(G01())
