"""F03: no tool crashes, runs into undefined behaviour, hangs, or keeps memory,
whatever configuration it is given."""
import re
import core, corpus, faults, space

TOK = re.compile(r'"(?:[^"\\]|\\.)*"|#[^\n]*\n|[A-Za-z_0-9.+-]+|\S|\s+', re.S)
# What a token is replaced with: something of each kind of token.
PUT = [";", "{", "}", ",", "\"s\"", "id", "zz", "-1", "9223372036854775807", "1.5", "a.b", "."]


def mutants(text, put):
    """All texts that differ by one token missing, exchanged with the next, or replaced, or up to three being there twice."""
    t = TOK.findall(text)
    real = [i for i, x in enumerate(t) if x.strip()]
    for n, i in enumerate(real):
        yield "".join(t[:i] + t[i + 1:])
        yield "".join(t[:i] + [t[i], " ", t[i]] + t[i + 1:])
        for w in (2, 3):
            if n + w <= len(real):
                x = "".join(t[i:real[n + w - 1] + 1])
                yield "".join(t[:i]) + x + " " + x + "".join(t[real[n + w - 1] + 1:])
        if n + 1 < len(real):
            k = real[n + 1]
            yield "".join(t[:i] + [t[k], " "] + t[i + 1:k] + [t[i], " "] + t[k + 1:])
        for p in put:
            yield "".join(t[:i] + [" ", p, " "] + t[i + 1:])


class F03(core.Check):
    id = "F03"
    rule = ("state = configuration: of the menus, the corpus, and all that differ from some of them by one token missing, exchanged, or replaced, or one to three doubled; "
            "transition = one run of a tool, with options, built with address and undefined behaviour sanitizers and counting allocations; those "
            "not accepted by ort are given to three tools only")
    assumptions = ["memory is kept if allocations made by the code are not freed when main returns or calls exit"]
    variants = ["fast", "asan"]
    exhaustive = True
    FEW = ("ort", "ort-audit", "ort-diff", "ort-xliff -j")

    def space(self, tier):
        deep = tier == "thorough"
        out = [("menus", t, ()) for t in faults.texts(1)]
        n = 0
        for g in space.GROUPS:
            for s in space.GROUPS[g]:
                n += 1
                if deep or n % 8 == 0:
                    out.append(("mutants of statements", space.text(g, [s]), PUT if deep else PUT[:5]))
        for t in faults.OWN:
            out.append(("mutants of texts", t, PUT))
        if deep:
            out += [("pairs", space.text(g, list(s)), ()) for g in space.GROUPS for s in space.tuples(g, 2)]
            out += [("mutants of files", t, PUT[:4]) for _, t in corpus.files(700)]
        return out

    def jobs(self, tier):
        n = len(self.space(tier))
        k = 64 if tier == "thorough" else 40
        return [(o, k) for o in range(k)]

    def job(self, env, acc, tier, j):
        off, k = j
        for what, text, put in self.space(tier)[off::k]:
            texts = [text] if not what.startswith("mutants") else mutants(text, put)
            for t in texts:
                self.one(env, acc, what, t, tier)

    def one(self, env, acc, what, t, tier):
        if not acc.state(t):
            return
        acc.n[what] += 1
        ok = env.run("ort", [], [], t.encode("utf-8", "surrogateescape")).status == 0
        if what == "mutants of statements" and ok and tier != "thorough":
            names = self.FEW + ("ort-c-source", "ort-nodejs", "ort-sql")
        else:
            names = faults.TOOLS if ok else self.FEW
        acc.n["accepted" if ok else "not accepted"] += 1
        for name in names:
            tool, args, files, inp = faults.inputs(env, name, [t], 0)
            c = {"tool": tool, "args": args, "files": files, "stdin": inp}
            acc.n["evaluations"] += 1
            acc.n["transitions"] += 1
            for key, w in self.judge(env, c):
                acc.find(key, w, c)

    def judge(self, env, c):
        r = env.run(c["tool"], c["args"], [tuple(f) for f in c["files"]], c["stdin"].encode("utf-8", "surrogateescape"), variant="asan")
        say = "%s %s" % (c["tool"], " ".join(c["args"]))
        if r.crashed:
            m = re.findall(rb"#\d+ \S+ in (\w+) \S*?/([\w-]+\.c):", r.err)
            at = next((f.decode() for f, s in m if s != b"ortsrv.c"), "")
            e = re.search(rb"(runtime error|ERROR): ([^\n]*)", r.err)
            return [("crash %s %s" % (c["tool"], at), "%s: crashes with status %d in %s: %s" % (say, r.status, at, e.group(2).decode()[:200] if e else r.err[-200:]))]
        if r.live:
            return [("leak " + c["tool"], "%s: ends with status %d and %d allocations not freed" % (say, r.status, r.live))]
        return []


if __name__ == "__main__":
    core.main(F03())
