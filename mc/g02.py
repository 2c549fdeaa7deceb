"""G02: a configuration cut short or torn is never taken for a whole one."""
import core, corpus, ref, space


def base():
    out = [("full.ort", space.foo(space.OPB + " ".join(
        ["unique x, y;", 'comment "a\\"b";', "roles ra, rc { all; noexport s; };",
         'list m.t.u streq: order x desc limit 1, 2 comment "c d";',
         "list: grouprow x maxrow y;"]), True))]
    out.append(("labels.ort", 'struct s { field a int; };\nenum e { item x 1 jslabel "one" jslabel.fr "un" comment "c"; '
                'isnull jslabel "nil"; comment "d"; };\nbits b { item x 1 jslabel "one"; isunset jslabel "no"; '
                'isnull jslabel "nil"; };\nroles { role a { role b comment "q"; }; };\n# end\n'))
    return out


class G02(core.Check):
    id = "G02"
    rule = ("state = what is left of a configuration file by a crash while it was written: every byte prefix, "
            "and every single lost, zeroed or duplicated block (quick: 1 and 16 bytes, thorough: 1, 4, 16 and 64); "
            "also the second of two files cut at every byte; transition = reading it with the real program")
    assumptions = ["reference reading of ort(5) in ref.py"]

    def corpus(self, tier):
        return base() + corpus.files(3000 if tier == "quick" else 6000)

    def jobs(self, tier):
        c = self.corpus(tier)
        return sorted(((i, k) for i in range(len(c)) for k in ("cut", "two", "torn")),
                      key=lambda j: -len(c[j[0]][1]))

    def job(self, env, acc, tier, j):
        if "c" not in env.cache:
            self.c = self.corpus(tier)
            env.cache["c"] = None
        i, kind = j
        name, t = self.c[i]

        def one(files):
            acc.n["transitions"] += 1
            if acc.state(repr(files)):
                self.check(env, acc, {"files": files})
                acc.n["ok" if self.last is None else self.last] += 1
        if kind == "cut":
            for n in range(len(t) + 1):
                one([["a.ort", t[:n]]])
            acc.sample("%s cut at every of %d bytes" % (name, len(t) + 1), 1)
        elif kind == "two":
            if len(t) > 400 and tier == "quick":
                return
            for n in range(len(t) + 1):
                one([["a.ort", "struct zz9 { field id int; };\n"], ["b.ort", t[:n]]])
                one([["a.ort", t[:n]], ["b.ort", t[n:]]])
        else:
            for bs in ((1, 16) if tier == "quick" else (1, 4, 16, 64)):
                for o in range(0, len(t), bs):
                    a, b, c = t[:o], t[o:o + bs], t[o + bs:]
                    for x in (a + c, a + "\0" * len(b) + c, a + b + b + c):
                        one([["a.ort", x]])

    def judge(self, env, case):
        files = [(n, t.encode("latin1")) for n, t in case["files"]]
        c, e = ref.accepts([tuple(x) for x in case["files"]])
        self.last = e and (e.phase + (" eof" if getattr(e, "eof", False) else ""))
        r = env.run("ort", [n for n, _ in files], files)
        show = repr(case["files"])[-500:]
        if r.crashed:
            return [("crash", "ort ended abnormally (status %d): %r; files: %s" % (r.status, r.err[-300:], show))]
        if c is None and r.status == 0:
            return [("accepted:" + e.msg, "accepted although %s; files: %s" % (e, show))]
        if c is not None and r.status != 0:
            return [("rejected", "rejected although valid: %r; files: %s" % (r.err, show))]
        if c is None and r.out:
            return [("output", "printed output for a rejected configuration: %r" % r.out[:200])]
        return []


if __name__ == "__main__":
    core.main(G02())
