"""L01: tools read the files and options of their command lines as their
manuals' synopses have them."""
import itertools, os, re, shutil
import core, ref, x01

# Pieces of configurations: each may be put with others, in any order.
PIECES = {
    "a.ort": "struct foo {\n\tfield id int rowid;\n\tfield bar struct barid;\n\tfield barid:bar.id int;\n\tfield e enum en;\n\titerate: name all;\n\tinsert;\n};\n",
    "b.ort": "enum en {\n\titem x jslabel \"one\";\n\titem y jslabel \"two\" comment \"c\";\n};\n\n\nstruct bar {\n\tfield id int rowid;\n\tfield t text unique;\n};\n",
    "c.ort": "struct baz {\n\tfield id int rowid;\n\tfield p password null;\n\tdelete id;\n};\nroles { role user; };\n",
    "d.ort": "struct foo {\n\tfield id int rowid;\n\tfield x int;\n};\n",
    "bad.ort": "\n  struct bad {\n\tfield id int rowid nosuch;\n};\n",
    "un.ort": "struct un {\n\tfield z:nosuch.id int;\n};\n",
    "empty.ort": "# nothing\n",
}
X = {
    "x.xlf": x01.xliff([("1", "one", "un"), ("2", "two", "deux")]),
    "y.xlf": x01.xliff([("1", "one", "eins")], "de"),
    "bad.xlf": "<xliff",
}
MISSING = "missing.ort"
# flags, options with sets of letters, options with one argument
OPTS = {
    "ort": ("", {}, {}), "ort-json": ("", {}, {}), "ort-sql": ("", {}, {}), "ort-rust": ("", {}, {}),
    "ort-c-manpage": ("jJv", {}, {}),
    "ort-c-header": ("jJsv", {"N": "bd"}, {"g": ["X_H"]}),
    "ort-c-source": ("jJv", {"N": "d", "I": "djv"}, {"h": ["x.h", "x.h,y.h"], "S": ["dir"]}),
    "ort-nodejs": ("ev", {"N": "bd"}, {}),
    "ort-javascript": ("", {}, {"S": ["dir"]}),
    "ort-audit": ("v", {}, {"r": ["user"]}),
    "ort-audit-json": ("s", {}, {"r": ["user"]}),
    "ort-xliff": ("c", {}, {}),
}
MARK = "/* this one's */\n"
POS = re.compile(r'(?<![\w.<])((?:\w+\.(?:ort|xlf))|<stdin>|OLD|NEW)(:|", "line": )(\d+)')


def shape(args):
    return ["FILE" if a.endswith((".ort", ".xlf")) else a for a in args]


class L01(core.Check):
    id = "L01"
    rule = ("for each of the tools, every sequence of its options up to a length, in every way of writing them as arguments (joined, apart, arguments attached and not), and every sequence of operands up to a length "
            "over files that complete one another, are empty, are refused, or are missing, with -f or -x at every place where there's one: the output, the status and the messages are those of the same configuration in one file, "
            "with positions that are those in the files; command lines that the synopses don't have and files that can't be read are refused without output")
    assumptions = ["options after operands, -- with -f or -x, more than one -f or -x, and repeated options with arguments that aren't sets aren't judged: the synopses don't have them"]

    def setup(self, bld, tier):
        self.dir = bld.dir + "/l01-share"
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir + "/empty")
        for f in ("jsmn.c", "ortPrivate.ts"):
            with open(bld.src + "/" + f) as a, open(self.dir + "/" + f, "w") as b:
                b.write(a.read() + MARK)

    def jobs(self, tier):
        out = []
        for t in OPTS:
            out += [("opt", t, i) for i in range(6 if t in ("ort-c-source", "ort-c-header") else 1)] + [("op", t, i) for i in range(3)]
        for t in ("ort-diff", "ort-sqldiff", "ort-sqldiff -d"):
            out += [("diff", t, i) for i in range(6)]
        for t in itertools.product("ju", ("", "c")):
            out += [("xliff", t, i) for i in range(3)]
        return out

    def job(self, env, acc, tier, j):
        T = tier != "quick"

        def go(case):
            case["tool"] = j[1].split()[0] if j[0] != "xliff" else "ort-xliff"
            acc.n["command lines"] += 1
            acc.n["evaluations"] += 1
            acc.state(repr(case))
            for k, w in self.judge(env, case):
                acc.find(k, w, case)

        if j[0] == "opt":
            flags, sets, args = OPTS[j[1]]
            toks = [(f, None) for f in flags] + [(o, c) for o in sets for c in sets[o]] + [(o, a) for o in args for a in args[o]]
            if j[1] in ("ort-c-source",):
                toks += [("h", "")]
            if j[1] == "ort-c-header":
                toks += [("g", "")]
            n = -1
            for k in range(0, (6 if T else 5) if len(toks) < 10 else (5 if T else 4)):
                for seq in itertools.product(toks, repeat=k):
                    n += 1
                    if n % (6 if j[1] in ("ort-c-source", "ort-c-header") else 1) != j[2]:
                        continue
                    if any(sum(o == x for x, _ in seq) > 1 for o in args):
                        continue
                    for w in self.spell(seq, sets):
                        go({"kind": "opt", "seq": seq, "args": w})
            if j[2] == 0:
                for bad in ["-Q", "--nosuch", "-?", "-:"]:
                    for pre in [[]] + [["-" + f] for f in flags]:
                        for post in ([], ["b.ort"]):
                            go({"kind": "usage", "args": pre + [bad] + post})
                if "S" in args:
                    go({"kind": "usage", "args": ["-S", "nosuch/dir"]})
                    go({"kind": "usage", "args": ["-Snosuch/dir", "b.ort"]})
                for o in list(sets) + list(args):
                    go({"kind": "usage", "args": ["-" + o]})
        elif j[0] == "op":
            flags, sets, args = OPTS[j[1]]
            names = list(PIECES) + [MISSING]
            n = 0
            for k in range(0, 6 if T else 4):
                for ops in itertools.product(names, repeat=k):
                    n += 1
                    if n % 3 != j[2]:
                        continue
                    for dash in ([], ["--"]):
                        for st in ("b.ort", "c.ort", "un.ort") if not k else ("d.ort",):
                            go({"kind": "op", "opts": [], "dash": dash, "ops": list(ops), "stdin": st})
                            if flags and not dash:
                                go({"kind": "op", "opts": ["-" + flags], "dash": dash, "ops": list(ops), "stdin": st})
        elif j[0] == "diff":
            names = ["-f", "a.ort", "b.ort", "c.ort", "d.ort", "empty.ort", "bad.ort", MISSING] + (["un.ort"] if T else [])
            n = 0
            for k in range(0, 7 if T else 5):
                for ops in itertools.product(names, repeat=k):
                    if ops.count("-f") > 1:
                        continue
                    n += 1
                    if n % 6 != j[2]:
                        continue
                    for st in ("b.ort", "d.ort"):
                        go({"kind": "diff", "opts": j[1].split()[1:], "ops": list(ops), "stdin": st})
        else:
            flags = "".join(j[1])
            names = ["-x", "a.ort", "b.ort", "x.xlf", "y.xlf", "bad.xlf", "bad.ort", MISSING]
            n = 0
            for k in range(0, 7 if T else 5):
                for ops in itertools.product(names, repeat=k):
                    if ops.count("-x") > 1:
                        continue
                    n += 1
                    if n % 3 != j[2]:
                        continue
                    # files of the other kind are refused wherever they're put
                    for st in ("b.ort", "x.xlf"):
                        go({"kind": "xliff", "flags": flags, "ops": list(ops), "stdin": st})
            if j[2] == 0:
                fs = ["-c", "-" + j[1][0]] if j[1][1] else ["-" + j[1][0]]
                for p in itertools.permutations(fs):
                    for q in itertools.product([0, 1], repeat=len(p)):
                        w = [x for x, y in zip(p, q) for x in [x] * (1 + y)]
                        go({"kind": "xopt", "flags": flags, "args": w})
                        go({"kind": "xopt", "flags": flags, "args": ["-" + "".join(x[1] for x in w)]})
                for pre in ([], ["-" + flags]):
                    for bad in ("-Q", "--nosuch"):
                        go({"kind": "usage", "args": pre + [bad] + ["b.ort", "-x", "x.xlf"]})
        acc.n["command lines that succeed"] += self.ok
        self.ok = 0
        acc.sample(repr(j), 1)

    def spell(self, seq, sets):
        """All the ways of writing options as arguments."""
        if not seq:
            yield []
            return
        (o, a), rest = seq[0], seq[1:]
        if a is None:
            for r in self.spell(rest, sets):
                yield ["-" + o] + r
                if rest:
                    yield ["-" + o + r[0][1:]] + r[1:]
        else:
            # letters of one option, in one argument
            k = 1
            while o in sets and k < len(seq) and seq[k][0] == o:
                k += 1
            for n in {1, k}:
                v = "".join(x[1] for x in seq[:n])
                for r in self.spell(seq[n:], sets):
                    yield ["-" + o, v] + r
                    if v:
                        yield ["-" + o + v] + r

    def get(self, env, tool, args, stdin=""):
        args = [self.dir if a == "dir" else "-S" + self.dir if a == "-Sdir" else a[:-3] + self.dir if re.fullmatch(r"-\w+Sdir", a) else a for a in args]
        if tool in ("ort-c-source", "ort-javascript"):
            args = ["-S", env.build.src] + args
        return env.run(tool, args, list(PIECES.items()) + list(X.items()) + self.extra, stdin.encode())

    extra = []
    ok = 0

    def base(self, env, tool, args, files):
        """The output for files [(name, contents)] that args have."""
        key = ("l01", tool, tuple(args), tuple(files))
        if key not in env.cache:
            if tool in ("ort-c-source", "ort-javascript"):
                args = ["-S", env.build.src] + list(args)
            env.cache[key] = env.run(tool, args, files)
        return env.cache[key]

    def norm(self, text, where):
        """Positions in several files as those in the whole one."""
        def f(m):
            w = where.get(m.group(1))
            return m.group(0) if w is None else "%s%s%d" % (w[0], m.group(2), int(m.group(3)) + w[1])
        return POS.sub(f, text)

    def whole(self, ops, name):
        """Concatenation of files, and where they are in it."""
        where, n, t = {}, 0, ""
        for o, c in ops:
            if o not in where:
                where[o] = (name, n)
            t += c
            n += c.count("\n")
        return t, where

    def fine(self, env, case, b, *texts):
        """What there's nothing wrong with must be accepted."""
        tool = case["tool"]
        ok = b.status == 0 or tool == "ort-diff" and b.status == 1
        for t in texts:
            k = ("l01-ok", t)
            if k not in env.cache:
                env.cache[k] = ref.accepts([("w.ort", t)])[0] is not None
            if not env.cache[k]:
                if ok:
                    yield "accepts:" + tool, "%s exits with %d although the configuration is refused: %r" % (tool, b.status, case)
                return
        if ok or tool.startswith("ort-audit") and "roles {" not in texts[0] or tool == "ort-sqldiff" and texts[0] != texts[1]:
            return
        yield "refuses:" + tool, "%s exits with %d although there's nothing wrong: %r %r" % (tool, b.status, case, b.err[-200:])

    def same(self, a, b, case, where, orig=None):
        tool = case["tool"]
        if a.crashed:
            yield "crash:" + tool, "%s crashes: %r" % (tool, case)
            return
        sa, sb = a.status, b.status
        if (sa if "diff" in tool else bool(sa)) != (sb if "diff" in tool else bool(sb)):
            yield "status:" + tool, "%s exits with %d instead of %d as for one file: %r %r" % (tool, sa, sb, case, a.err[-200:])
            return
        x, y = self.norm(a.text, where), b.text
        if orig:
            x = x.replace('original="%s"' % orig[0].replace("<", "&lt;").replace(">", "&gt;"), 'original="%s"' % orig[1])
        if x != y:
            k = next((k for k, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
            yield "output:" + tool, "%s: %r: output isn't that of one file: %r instead of %r" % (tool, case, x[max(0, k - 40):k + 60], y[max(0, k - 40):k + 60])
        if sa == 0:
            self.ok += 1
        e, f = self.norm(a.err.decode("utf-8", "replace"), where), b.err.decode("utf-8", "replace")
        if e != f:
            yield "message:" + tool, "%s: %r: messages aren't those of one file: %r instead of %r" % (tool, case, e[-200:], f[-200:])

    def refused(self, a, case, why):
        tool = case["tool"]
        if a.crashed:
            yield "crash:" + tool, "%s crashes: %r" % (tool, case)
        elif a.status == 0 or tool == "ort-diff" and a.status == 1:
            yield "accepts:" + tool, "%s exits with %d although %s: %r" % (tool, a.status, why, case)
        elif a.out:
            yield "partial:" + tool, "%s has output although %s: %r" % (tool, why, case)
        elif not a.err:
            yield "silent:" + tool, "%s says nothing although %s: %r" % (tool, why, case)

    def judge(self, env, case):
        tool, kind = case["tool"], case["kind"]
        C = dict(PIECES)
        C.update(X)
        if kind == "usage":
            yield from self.refused(self.get(env, tool, case["args"], PIECES["b.ort"]), case, "there's no such option")
        elif kind == "opt":
            flags, sets, args = OPTS[tool]
            seq = [tuple(x) for x in case["seq"]]
            canon = ["-" + f for f in flags if (f, None) in seq]
            for o in sets:
                v = "".join(c for c in sets[o] if (o, c) in seq)
                if v:
                    canon += ["-" + o, v]
            for o, v in seq:
                if o in args and o != "S":
                    canon += ["-" + o, v]
            text = PIECES["a.ort"] + PIECES["b.ort"] + PIECES["c.ort"]
            a = self.get(env, tool, case["args"], text)
            b = self.base(env, tool, canon + ["w.ort"], (("w.ort", text),))
            yield from self.fine(env, case, b, text)
            if ("S", "dir") in seq:
                # what's from the directory that was given
                if MARK.strip() in a.text:
                    a.out = a.out.replace(MARK.encode(), b"")
                elif tool == "ort-javascript" or ("J", None) in seq:
                    yield "share:" + tool, "%s doesn't use the files of -S: %r" % (tool, case)
            yield from self.same(a, b, case, {"<stdin>": ("w.ort", 0)}, ("<stdin>", "w.ort"))
        elif kind == "op":
            ops = case["ops"]
            a = self.get(env, tool, case["opts"] + case["dash"] + ops, PIECES[case["stdin"]])
            if MISSING in ops:
                yield from self.refused(a, case, "a file is missing")
                return
            fs = [(o, PIECES[o]) for o in ops] if ops else [("<stdin>", PIECES[case["stdin"]])]
            t, where = self.whole(fs, "w.ort")
            b = self.base(env, tool, case["opts"] + ["w.ort"], (("w.ort", t),))
            yield from self.fine(env, case, b, t)
            if len(set(ops)) != len(ops):
                # where what's there twice is depends on which is meant
                if bool(a.status) != bool(b.status):
                    yield "status:" + tool, "%s exits with %d instead of %d: %r" % (tool, a.status, b.status, case)
                return
            yield from self.same(a, b, case, where, (fs[0][0], "w.ort"))
        elif kind == "diff":
            ops = case["ops"]
            a = self.get(env, tool, case["opts"] + ops, PIECES[case["stdin"]])
            if "-f" in ops:
                k = ops.index("-f")
                old, new = ops[:k], ops[k + 1:]
            else:
                old, new = ops[:1], ops[1:]
                if len(ops) > 2:
                    yield from self.refused(a, case, "which are old isn't said")
                    return
            if not old and not new:
                yield from self.refused(a, case, "there are no files")
                return
            if MISSING in ops:
                yield from self.refused(a, case, "a file is missing")
                return
            w = []
            for side, name in ((old, "OLD"), (new, "NEW")):
                w.append(self.whole([(o, PIECES[o]) for o in side] if side else [("<stdin>", PIECES[case["stdin"]])], name))
            b = self.base(env, tool, case["opts"] + ["OLD", "-f", "NEW"], (("OLD", w[0][0]), ("NEW", w[1][0])))
            yield from self.fine(env, case, b, w[0][0], w[1][0])
            if len(set(ops)) != len(ops) or set(w[0][1]) & set(w[1][1]):
                if (a.status if "diff" in tool else bool(a.status)) != b.status:
                    yield "status:" + tool, "%s exits with %d instead of %d: %r" % (tool, a.status, b.status, case)
                return
            where = dict(w[0][1])
            where.update(w[1][1])
            if tool == "ort-diff" and a.text:
                # whose it is
                h = ["--- " + o for o in old or ["<stdin>"]] + ["+++ " + o for o in new or ["<stdin>"]]
                got = a.text.split("\n", len(h))
                if got[:len(h)] != h:
                    yield "names:" + tool, "%s: %r: names aren't those given: %r instead of %r" % (tool, case, got[:len(h)], h)
                a.out = ("--- OLD\n+++ NEW\n" + got[-1]).encode()
            yield from self.same(a, b, case, where)
        elif kind == "xliff":
            ops = case["ops"]
            a = self.get(env, tool, ["-" + f for f in case["flags"]] + ops, C[case["stdin"]])
            if "-x" in ops:
                k = ops.index("-x")
                conf, xl = ops[:k], ops[k + 1:]
            else:
                conf, xl = ops[:1], ops[1:]
                if len(ops) > 2:
                    yield from self.refused(a, case, "which are translations isn't said")
                    return
            if not conf and not xl:
                yield from self.refused(a, case, "there are no files")
                return
            if "u" in case["flags"] and len(xl) > 1:
                yield from self.refused(a, case, "more than one is updated")
                return
            if MISSING in ops:
                yield from self.refused(a, case, "a file is missing")
                return
            kinds = [(o if o else "<stdin>") for o in (conf or [None])], [(o if o else "<stdin>") for o in (xl or [None])]
            bad = [o for o in conf if not o.endswith(".ort")] + [o for o in xl if not o.endswith(".xlf")]
            if not conf and not case["stdin"].endswith(".ort") or not xl and not case["stdin"].endswith(".xlf"):
                bad.append("-")
            if bad or "bad.ort" in ops or "bad.xlf" in ops:
                yield from self.refused(a, case, "files are of the other kind or bad")
                return
            t, where = self.whole([(o, PIECES[o]) for o in conf] if conf else [("<stdin>", PIECES[case["stdin"]])], "w.ort")
            fl = ["-" + f for f in case["flags"]]
            xs = [(o, X[o]) for o in xl] or [("z.xlf", X[case["stdin"]])]
            b = self.base(env, tool, fl + ["w.ort", "-x"] + [x[0] for x in xs], (("w.ort", t),) + tuple(xs))
            if len(set(ops)) != len(ops):
                if bool(a.status) != bool(b.status):
                    yield "status:" + tool, "%s exits with %d instead of %d: %r" % (tool, a.status, b.status, case)
                return
            if not xl:
                where["<stdin>"] = ("z.xlf", 0)
            yield from self.same(a, b, case, where)
            if "j" in case["flags"] and len(xl) == 2 and a.status == 0:
                # one after the other
                t = self.base(env, tool, ["-j", "w.ort", "-x", xl[0]], (("w.ort", t), (xl[0], X[xl[0]])))
                t = t.status == 0 and self.base(env, tool, ["-j", "w.ort", "-x", xl[1]], (("w.ort", t.text), (xl[1], X[xl[1]])))
                if "c" not in case["flags"] and (not t or t.text != a.text):
                    yield "order:" + tool, "%s -j with two files isn't -j with one and then the other: %r: %r" % (tool, case, t and t.text[:200])
        else:
            w = (("w.ort", PIECES["b.ort"]), ("y.xlf", X["y.xlf"]))
            b = self.base(env, tool, ["-" + f for f in case["flags"]] + ["w.ort", "-x", "y.xlf"], w)
            a = self.get(env, tool, case["args"] + ["b.ort", "-x", "y.xlf"], "")
            yield from self.same(a, b, case, {"b.ort": ("w.ort", 0)})


if __name__ == "__main__":
    core.main(L01())
