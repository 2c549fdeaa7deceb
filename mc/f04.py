"""F04: refusals are explained, at the place where they're due."""
import re
import c01, core, corpus, g04, ref, space, x01

REP = ["x", ";", "{", "}", ":", ",", "7", "-7", "\"s\"", "1.5", "field", "all", ".", "int", "null", "name", "id", "or", "é"]
SEPS = ["\n", "\r\n", " # c\n\n", "\n#\n\t"]
MSG = re.compile(r"^(.*?):(\d+):(\d+): (error|warning): (.+)$")
BARE = re.compile(r"^(?:error|warning): .+$")
# the other tools say the same
TOOLS = [("ort-c-source", []), ("ort-c-header", []), ("ort-c-manpage", []), ("ort-json", []), ("ort-nodejs", []), ("ort-javascript", []), ("ort-sql", []), ("ort-rust", []), ("ort-xliff", []),
         ("ort-audit", ["-r", "all"]), ("ort-audit-json", ["-r", "all"]), ("ort-diff", ["o.ort"]), ("ort-sqldiff", ["o.ort"])]
OTHER = "struct o { field id int; };\n"
WARNS = "struct o { field id int rowid; list id: limit 1; };\n"
XLIFF = x01.xliff([("1", "one", "un")])
TWO = [("ort-diff", ["X", "O"]), ("ort-diff", ["O", "X"]), ("ort-sqldiff", ["X", "O"]), ("ort-sqldiff", ["O", "X"]), ("ort-sqldiff", ["-d", "X", "-f", "O"]),
       ("ort-sqldiff", ["X", "-f", "O"]), ("ort-diff", ["X", "-f", "O"]), ("ort-sqldiff", ["O", "-f", "O", "X"]), ("ort-sqldiff", ["O", "X", "-f", "O"]),
       ("ort-diff", ["O", "-f", "O", "X"]), ("ort-xliff", ["-j", "X", "-x", "l.xlf"]), ("ort-xliff", ["-u", "X", "-x", "l.xlf"])]


class F04(core.Check):
    id = "F04"
    rule = ("state = a refused configuration with its words on lines of their own (in four layouts): every configuration of the bases with any one word lost, doubled, or replaced by each of a menu, or cut at any word; every statement of the "
            "menus that's refused. What standard error has is compared with where the reference stops: the same line of the same file for syntax, a line of the statement (or of an object it involves) otherwise")
    assumptions = ["texts of messages and columns aren't judged", "of what the linker refuses, the line may be that of any word of the statement, or the declaration of what has the names that the statement has, or of the structure it's in"]

    def bases(self, tier):
        b = c01.C01().rich() + [space.TYPES + space.TGT + space.FOO + " };\n"]
        # lines within strings
        b.append("enum en { comment \"x\n\ny\"; item a jslabel \"\n\"; item b comment \"\\\"\n\r\n\\\\\n\"; };\nstruct foo { comment \"\n#\n\"; field id int rowid; field t text default \"\n;\n\"; "
                 "list t: comment \"a\nb\" name x; update t: id: name u comment \"\n\"; };\n")
        if tier != "quick":
            b += [t.decode("utf-8", "surrogateescape") if isinstance(t, bytes) else t for _, t in corpus.files(1500)]
        return [t for t in b if ref.accepts([("a.ort", t)])[0] is not None]

    def jobs(self, tier):
        self.B = self.bases(tier)
        out = [("words", i, s, k) for i in range(len(self.B)) for s in range(len(SEPS) if tier != "quick" or i < 6 else 1) for k in range(2 if i < 6 else 1)]
        return out + [("menu", g, s) for g in space.GROUPS for s in range(len(SEPS))]

    def job(self, env, acc, tier, j):
        kinds = set()

        def go(text):
            if not acc.state(text):
                return
            acc.n["transitions"] += 1
            case = {"text": text, "all": False}
            e = ref.accepts([("a.ort", text)])[1]
            if e is not None and (e.phase, e.msg) not in kinds:
                # each kind with all of the tools
                kinds.add((e.phase, e.msg))
                case["all"] = True
            self.check(env, acc, case)
        if j[0] == "words":
            ws = [w for k, w in g04.words(self.B[j[1]])]
            for i in range(j[3], len(ws), 2 if j[1] < 6 else 1):
                vs = [ws[:i] + ws[i + 1:], ws[:i] + [ws[i]] + ws[i:], ws[:i]]
                if tier != "quick" or SEPS[j[2]] == "\n":
                    vs += [ws[:i] + [x] + ws[i + 1:] for x in (REP if j[1] < 6 or tier != "quick" else REP[:6])]
                else:
                    vs += [ws[:i] + [REP[(i + j[2]) % len(REP)]] + ws[i + 1:]]
                for v in vs:
                    go(SEPS[j[2]].join(v) + "\n")
        else:
            bad = {s for s in space.GROUPS[j[1]] if ref.accepts([("a.ort", space.text(j[1], [s]))])[0] is None}
            for s in space.GROUPS[j[1]]:
                t = space.text(j[1], [s])
                go(SEPS[j[2]].join(w for k, w in self.words(t)) + "\n")
                go(space.text(j[1], ["\n" + s + "\n"]))
                if tier != "quick":
                    for s2 in space.GROUPS[j[1]]:
                        # of two that are wrong any may be told
                        if s not in bad or s2 not in bad:
                            go(space.text(j[1], ["\n" + s + "\n", "\n" + s2 + "\n"]))
        acc.sample(repr(j), 1)

    def words(self, t):
        try:
            return g04.words(t)
        except ref.Rej:
            return [(None, t)]

    def involved(self, text, line):
        """Lines of the statement that's at the line, of what it names, and of
        what it's in."""
        x, ws = ref.Lex("a.ort", text), []
        while x.next() != "eof":
            ws.append((x.k, x.v, x.line))
        # statements: words up to a semicolon or brace
        d, st, tops, cur, top = 0, [], [], [], []
        for w in ws:
            cur.append(w)
            top.append(w)
            d += (w[0] == "{") - (w[0] == "}")
            if w[0] in (";", "{"):
                st.append(cur)
                cur = []
            if w[0] == ";" and d == 0:
                tops.append(top)
                top = []
        out = set()
        mine = [s for s in st + [cur] if s and any(w[2] == line for w in s)]
        names = {w[1] for s in mine for w in s if w[0] == "id"}
        for s in mine:
            out |= set(range(s[0][2], s[-1][2] + 1))
        for t in tops:
            if any(w[2] == line for w in t):
                # the structure that it's in
                out |= set(w[2] for w in t[:3])
                names |= {t[1][1]} if len(t) > 1 else set()
                if any(w[2] == line for w in t[:3]):
                    # all that the reference knows is that it's in there
                    out |= set(range(t[0][2], t[-1][2] + 1))
                    names |= {w[1] for w in t if w[0] == "id"}
        for s in st:
            if any(w[0] == "id" and w[1] in names for w in s):
                out |= set(range(s[0][2], s[-1][2] + 1))
        return out

    def judge(self, env, case):
        t = case["text"]
        c, e = ref.accepts([("a.ort", t)])
        r = env.run("ort", ["a.ort"], [("a.ort", t)])
        err = r.err.decode("utf-8", "replace")
        if r.crashed or (r.status == 0) != (c is not None):
            return      # that's judged elsewhere
        lines = err.split("\n")
        if lines.pop() != "":
            yield "format", "the last message has no end: %r; %r" % (err[-200:], t)
        es = []
        for l in lines:
            m = MSG.match(l)
            if m and m.group(1) == "a.ort":
                if m.group(4) == "error":
                    es.append((int(m.group(2)), m.group(5)))
                if not 1 <= int(m.group(2)) <= t.count("\n") + 1:
                    yield "nowhere", "a message is for a line that there isn't: %r; %r" % (l, t)
            elif not BARE.match(l):
                yield "format", "not a message: %r; %r" % (l, t)
            elif l.startswith("error"):
                es.append((None, l))
        if c is not None:
            if es:
                yield "accepted", "accepted in spite of %r; %r" % (es, t)
            return
        if not es:
            yield "silent", "refused without a word (%s: %s): %r" % (e.phase, e.msg, t)
            return
        acc = [n for n, _ in es]
        if e.line is None:
            pass
        elif e.phase in ("syntax", "lex"):
            if acc[-1] != e.line:
                yield "line:" + e.phase, "line %s instead of %d (%s) is said to be wrong: %r; %r" % (acc[-1], e.line, e.msg, es[-1][1], t)
        else:
            ok = self.involved(t, e.line)
            if not any(n in ok for n in acc):
                yield "line:" + e.msg, "line %s is said to be wrong, which isn't of the statement at %d (%s) or of what it names: %r; %r" % (acc, e.line, e.msg, es, t)
        if case["all"]:
            for tool, a in TOOLS:
                q = env.run(tool, a + ["a.ort"], [("a.ort", t), ("o.ort", "struct o { field id int; };\n")])
                if q.err != r.err or q.status == 0 or tool == "ort-diff" and q.status == 1 or q.out:
                    yield "tool:" + tool, "%s says %r (status %d, output %r) where ort says %r; %r" % (tool, q.err[-200:], q.status, q.out[:50], r.err[-200:], t)
            # whichever it is of two, and whatever there's to say about the other
            for o in (OTHER, WARNS):
                w = env.run("ort", ["o.ort"], [("o.ort", o)])
                for tool, a in TWO:
                    if a.count("O") > 1 and e.phase == "link":
                        continue    # it may be right with the other
                    q = env.run(tool, [{"X": "a.ort", "O": "o.ort"}.get(x, x) for x in a], [("a.ort", t), ("o.ort", o), ("l.xlf", XLIFF)])
                    said, mine, other = (set(x.err.decode("utf-8", "replace").splitlines()) for x in (q, r, w))
                    if not mine <= said or said - mine - other or q.status == 0 or tool == "ort-diff" and q.status == 1 or q.out:
                        yield "two:" + tool, "%s %r says %r (status %d, output %r) where ort says %r; %r" % (tool, a, q.err[-200:], q.status, q.out[:50], r.err[-200:], t)


if __name__ == "__main__":
    core.main(F04())
