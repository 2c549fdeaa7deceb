"""K01: the documentation in what's generated says what's documented, and what
the functions do."""
import itertools, re
import core, c01, m01, node, q, ref, space

HOPS = {"eq": "equals", "ge": "greater-than equals", "gt": "greater-than", "le": "less-than equals", "lt": "less-than", "neq": "does not equal", "like": '"like"',
        "and": "logical and", "or": "logical or", "streq": "string equals", "strneq": "string does not equal", "isnull": "is null", "notnull": "is not null"}
UNARY = ("isnull", "notnull")
# Comments: short, of words that are to be broken into lines, of several lines and paragraphs.
TEXTS = ["%s", "%s one two", "%s " + "word " * 30 + "end%s", "%s first\nsecond", "%s first\n\n  second paragraph\n", "\n%s\n", "%s \\\"quoted\\\" it's", "%s " + "long" * 30 + " word", "  %s,  spaced", "é %s ü"]
CONF = """roles { role ra#0; role rb { role rc#1; }; };
enum en {#2 item a 1#3; item b#4; };
enum em { item a;#5 item b; };
bits bi {#6 item p 0#7; item q 1; item rr 63#8; };
bits bj { item p 0;#9 };
struct bar { field id int rowid#10; field n text; list:#11 name l; insert; };
struct foo {#12 field id int rowid#13; field a int null#14; field e enum en#15; field b bits bi#16; field pw password#17; field bar struct barid#18; field barid:bar.id int#19;
 field t text unique#20; field bl blob#21; field d date#22; field r real#23; field em email#24;
 search id, a isnull: name s1#25; search id, t: name s2; search id, a: #26name s3; list a: name l1#27; iterate: name i1#28; count:#29 name c1;
 list:#30 distinct bar; iterate:#31 limit 2; count a notnull:#32 name c2;
 update b inc, t concat: id: name u1#33; update a: id:#34 name u2; update: id:#35 name u3; update t: id; delete id:#36 name d1; delete t: name d2#37; insert; unique a, b; };
"""
N = 38
SEMI = (2, 5, 6, 9, 12)
# what each is, by tool: the one that's documented
WHERE = {
    "header": {2: "enum en", 3: "enum en.EN_a", 4: "enum en.EN_b", 5: "enum em", 6: "enum bi", 7: "enum bi.BITI_BI_p", 8: "enum bi.BITI_BI_rr", 9: "enum bj", 10: "struct bar.id", 11: "db_bar_list_l",
               12: "struct foo", 13: "struct foo.id", 14: "struct foo.a", 15: "struct foo.e", 16: "struct foo.b", 17: "struct foo.pw", 18: "struct foo.bar", 19: "struct foo.barid", 20: "struct foo.t",
               21: "struct foo.bl", 22: "struct foo.d", 23: "struct foo.r", 24: "struct foo.em", 25: "db_foo_get_s1", 26: "db_foo_get_s3", 27: "db_foo_list_l1", 28: "db_foo_iterate_i1",
               29: "db_foo_count_c1", 30: "db_foo_list", 31: "db_foo_iterate", 32: "db_foo_count_c2", 33: "db_foo_update_u1", 34: "db_foo_update_u2", 35: "db_foo_update_u3", 36: "db_foo_delete_d1", 37: "db_foo_delete_d2"},
}
WHERE["node"] = {k: re.sub(r"^db_", "ortctx.db_", re.sub(r"^enum (\w+)", r"ortns.\1", re.sub(r"^struct (\w+)", r"ortns.\1Data", re.sub(r"\.(?:E[NM]|BITI_B[IJ])_", ".BITI_" if 6 <= k <= 9 else ".", w))))
                 for k, w in WHERE["header"].items()}
WHERE["js"] = {k: re.sub(r"\.BITI_", ".BITF_", w).replace("ortns.", "ort.") for k, w in WHERE["node"].items() if not w.startswith("ortctx.") and k != 17}
FLAGS = ["", "v", "j", "J", "vjJ"]


def words(t):
    return " ".join(t.split())


def cdoc(c):
    """The text of a comment of C or TypeScript."""
    c = re.sub(r"^/\*+|\*+/$", "", c.strip())
    return "\n".join(re.sub(r"^\s*\* ?", "", l) for l in c.split("\n"))


def header(text):
    """What's documented in a header: comment of each thing that has one."""
    out, ctx, last = {}, None, None
    i = text.index("DO NOT EDIT")
    i = text.index("*/", i) + 2
    for m in re.finditer(r"/\*.*?\*/|[^/;{},]+|[/;{},]", text[i:], re.S):
        w = m.group(0)
        if w.startswith("/*"):
            last = cdoc(w)
            continue
        if not w.strip():
            continue
        if last is not None and w not in "/;{},":
            k = None
            d = "\n".join(l for l in w.split("\n") if not l.startswith("#"))
            n = re.match(r"\s*(enum|struct)\s+(\w+)\s*$", d)
            f = re.match(r"[^(]*?(\w+)\s*\(", d)
            v = re.search(r"(\w+)(?:\s*=[^,]*)?\s*$", d)
            if ctx is None and n:
                k = "%s %s" % n.groups()
            elif ctx is None and f:
                k = f.group(1)
            elif ctx and v:
                k = ctx + "." + v.group(1)
            if k:
                out.setdefault(k, []).append(last)
        if w not in "/;{},":
            last = None
            n = re.search(r"\b(enum|struct)\s+(\w+)\s*$", w)
            cand = "%s %s" % n.groups() if n else None
        elif w == "{":
            ctx, last = cand, None
        elif w == "}":
            ctx = last = None
    return out


class K01(core.Check):
    id = "K01"
    rule = ("state = a configuration with the outputs of ort-c-header, ort-c-manpage, ort-nodejs, and ort-javascript for it; transition = one comment or one function looked up in one of them. All statements of the menus, "
            "products, and pairs of operations for what's said about functions; each place that takes a comment, alone, in pairs, and all together, with each of the texts, for what's said by comments")
    assumptions = ["the wording of what's generated is as it is now: number of each argument, its field, how it's compared, and that it's a password; fields that take no argument, and how they're compared",
                   "comments of roles are only in the manual page; comments in manual pages are judged by M01, texts that aren't words by F05"]

    def jobs(self, tier):
        out = []
        for n, ts in c01.C01().space(tier):
            for i in range(0, len(ts), 60):
                out.append(("c", n, i, i + 60))
        return out + [("s", i) for i in range(8)] + [("t", i) for i in range(len(TEXTS))] + [("o", i) for i in range(8)]

    def more(self):
        """Operations on several fields."""
        F = ["x", "ns isnull", "y gt", "ns notnull", "pw", "t like", "m.mv neq", "nt", "z", "ns"]
        for k in (1, 2, 3):
            for fs in itertools.permutations(F, k):
                if sum("isnull" in f or "notnull" in f for f in fs) and k == 3 and fs[0] > fs[2]:
                    continue
                n = ", ".join(fs)
                u = ", ".join(f for f in fs if "." not in f).replace("pw", "pw streq")
                yield "search %s: limit 1 name s; list %s: name l; count %s; iterate %s: name i distinct m; " % (n, n, n, n) + (
                    "update x, pw: %s; update y inc: %s: name u; delete %s; update: %s: name v;" % (u, u, u, u) if u else "")

    def shapes(self, tier):
        """Of up to three words, with all that may be between and around them, and of words of all lengths."""
        S = [" ", "  ", "\t", "\n", "\n\n", "\n\n\n", "\n \n", "\r\n", "\n\t", " \n", "*", " * ", "/ ", "\\\\ ", " \\\" ", "\n* ", "\n#", ";\n"]
        for a, b in itertools.product(S, repeat=2):
            yield "%s" + a + "two" + b + "three"
            if tier != "quick":
                for c in S:
                    yield "%s" + a + "two" + b + "three" + c + "four"
        for a, b in itertools.product(["", " ", "\n", "\n\n", "\n \n", "\t", "\r\n"], repeat=2):
            yield a + "%s x" + b
        for n in range(1, 100):
            yield "%s " + "x" * n + " word"
            if n < 40 or tier != "quick":
                yield "%s " + "x" * n + "\n" + "word " * 20
                yield "%s" + " w" * n + "\n" + " ww" * n

    def comment(self, t, tag, i):
        c = t % (("C%d" % i,) * t.count("%s"))
        return c

    def conf(self, cs):
        def f(m):
            k = int(m.group(1))
            return "" if k not in cs else " comment \"%s\"" % cs[k] + (";" if k in SEMI else " ")
        return re.sub(r"#(\d+)", f, CONF)

    def job(self, env, acc, tier, j):
        T = tier == "thorough"
        if j[0] == "c":
            for i, t in enumerate(dict(c01.C01().space(tier))[j[1]][j[2]:j[3]]):
                self.go(env, acc, {"config": t, "fl": FLAGS[i % 5] if not T else "vjJ"})
        elif j[0] == "s":
            for i, t in enumerate(self.shapes(tier)):
                if i % 8 == j[1]:
                    for k in ((0, 1, 2) if not T else (0, 1, 2, 3, 4, 5)):
                        # to what's documented with more, and with nothing else
                        self.go(env, acc, {"cs": {str(n): self.comment(t, "", n) for n in range(N) if k == 0 or n % (5 if T else 2) == k - 1}, "fl": FLAGS[i % 5]})
        elif j[0] == "o":
            for i, s in enumerate(self.more()):
                if i % 8 == j[1]:
                    self.go(env, acc, {"config": space.foo(s), "fl": FLAGS[i // 8 % 5]})
        else:
            t = TEXTS[j[1]]
            sets = [range(N), range(0, N, 2), range(1, N, 2)] + [[k] for k in range(N)]
            if T or j[1] == 0:
                sets += list(itertools.combinations(range(N), 2))
            for n, s in enumerate(sets):
                self.go(env, acc, {"cs": {str(k): self.comment(t, "", k) for k in s}, "fl": FLAGS[n % 5]})
            if T:
                for a in range(len(TEXTS)):
                    self.go(env, acc, {"cs": {str(k): self.comment(TEXTS[(a + k * j[1]) % len(TEXTS)], "", k) for k in range(N)}, "fl": FLAGS[a % 5]})
        acc.sample(repr(j), 1)

    def go(self, env, acc, case):
        if not acc.state(repr(case)):
            return
        acc.n["evaluations"] += 1
        self.n = 0
        self.check(env, acc, case)
        acc.n["transitions"] += self.n

    n = 0

    def judge(self, env, case):
        cs = {int(k): v for k, v in case["cs"].items()} if "cs" in case else {}
        text = self.conf(cs) if "cs" in case else case["config"]
        cfg, e = ref.accepts([("a.ort", text)])
        if cfg is None:
            if cs:
                yield "config", "not accepted: %s at %s; %r" % (e.msg, e.line, text)
            return
        fl = ["-" + case["fl"]] if case["fl"] else []
        t = text.encode("utf-8", "surrogateescape")
        h = env.run("ort-c-header", ["-s"] + fl, [], t)
        m = env.run("ort-c-manpage", fl, [], t)
        n = env.run("ort-nodejs", ["-v"] if "v" in case["fl"] else [], [], t)
        jv = env.run("ort-javascript", [], [], t)
        if any(r.status for r in (h, m, n, jv)):
            if cs:
                yield "fails", "the tools exit with %r; %r" % ([r.status for r in (h, m, n, jv)], text)
            return      # without comments, that's judged elsewhere
        nd = node.get(env, "docs.js")
        hd = header(h.text)
        ns = nd.call(op="docs", src=n.text)["docs"]
        js = nd.call(op="docs", src=jv.text)["docs"] if cs else []
        docs = {"header": {k: v[-1] for k, v in hd.items()},
                "node": {p: cdoc(d[-1]) for p, k, d, a in ns if d}, "js": {p: cdoc(d[-1]) for p, k, d, a in js if d}}
        for tool, r in (("header", h), ("node", n), ("js", jv)):
            for k, c in cs.items():
                if k not in WHERE[tool]:
                    continue
                w = WHERE[tool][k]
                self.n += 1
                want = words(c.replace('\\"', '"'))
                got = docs[tool].get(w)
                if got is None:
                    yield "missing:" + tool, "%s: %s has no documentation, its comment is %r; %r" % (tool, w, c, text)
                elif (" " + words(got) + " ").count(" " + want + " ") != 1:
                    yield "comment:" + tool, "%s: %s is documented as %r, its comment is %r; %r" % (tool, w, got, c, text)
                elif not words(got).startswith(want):
                    yield "order:" + tool, "%s: %s is documented as %r, its comment isn't what begins; %r" % (tool, w, got, text)
                elif len(re.findall(r"(?<!\w)C%d(?!\w)" % k, docs[tool][w])) != len(re.findall(r"(?<!\w)C%d(?!\w)" % k, r.text)):
                    yield "twice:" + tool, "%s: the comment %r is also elsewhere; %r" % (tool, c, text)
            for w, d in docs[tool].items():
                # only where there's one
                x = re.findall(r"(?<!\w)C(\d+)(?!\w)", d) if cs else []
                bad = [k for k in x if WHERE[tool].get(int(k)) != w]
                if bad:
                    yield "of:" + tool, "%s: %s has the comments %s of %s; %r" % (tool, w, bad, [WHERE[tool].get(int(k)) for k in bad], text)
        ops = q.ops(cfg)
        nodes = {p: (d, a) for p, k, d, a in ns}
        rows = self.man(m.text)
        for op in ops:
            self.n += 3
            yield from self.chead(op, hd, text)
            yield from self.cman(op, rows, text)
            yield from self.cnode(op, nodes, text)
        for s in cfg.structs.values():
            for f in s.fields.values():
                d = hd.get("struct %s.has_%s" % (s.name, f.name))
                if d is None:
                    continue
                self.n += 1
                d = words(d[-1])
                if f.type == "struct":
                    ok = '"%s" has been set' % f.name in d and "from" in d
                else:
                    ok = '"%s" field is not null' % f.name in d
                if not ok:
                    yield "has", "has_%s of %s is documented as %r; %r" % (f.name, s.name, d, text)

    def terms(self, op):
        """[(argument number or None, field, how, what kind)]"""
        out, k, o = [], 1, op.o
        if op.kind == "insert":
            for f, _ in op.params:
                out.append((k, f.name, None, f))
                k += 1
            return out, []
        if op.kind == "update":
            for n, mod in o.mods:
                out.append((k, n, mod, op.s.fields[n]))
                k += 1
        cons = []
        for p, how in ([([n], w) for n, w in o.cons] if op.write else o.terms):
            f = q.dr.resolve(op.cfg, op.s, p) if hasattr(q.dr, "resolve") else self.resolve(op, p)
            cons.append((None if how in UNARY else k, ".".join(p), how, f))
            k += how not in UNARY
        return out, cons

    def resolve(self, op, path):
        s = op.s
        for n in path[:-1]:
            s = op.cfg.target(s.fields[n])
        return s.fields[path[-1]]

    def chead(self, op, hd, text):
        d = hd.get(op.name)
        if d is None:
            yield "undocumented", "%s isn't documented in the header; %r" % (op.name, text)
            return
        got = re.findall(r"^[ \t]+(\S.*)$", d[-1], re.M)
        mods, cons = self.terms(op)
        pw = lambda f: f.type == "password"
        want = []
        for k, n, how, f in mods:
            want.append("v%d: %s%s" % (k, n, "" if not pw(f) else " (pre-hashed password)" if op.kind == "insert" else " (password)"))
        for k, n, how, f in cons:
            if k is None:
                a = "not null" if how == "notnull" else "null" if op.write else "is null"
                want.append("%s (not an argument: checked %s)" % (n, a))
            else:
                want.append("v%d: %s (%s%s)" % (k, n, "pre-hashed password, " if pw(f) and not op.write else "", HOPS[how]))
        got = [words(x) for x in got if not op.o or not op.o.doc or re.match(r"v\d+:|\w+.*\(not an", x)]
        w, all = words(" ".join(want)), words(d[-1])
        i = (" " + all + " ").find(" " + w + " ")
        # Long ones are continued on the next line.
        wrapped = i >= 0 and not all[i + len(w):].startswith(" (") and len(re.findall(r"\bv\d+:", all)) == len(re.findall(r"\bv\d+:", w)) and all.count("(not an arg") == w.count("(not an arg")
        if got != [words(x) for x in want] and not wrapped:
            yield "header", "%s of the header is said to have %r instead of %r; %r" % (op.name, got, want, text)
        d = words(d[-1])
        if not op.write:
            r = op.result().name
            end = {"search": "Free the pointer with db_%s_free()." % r, "list": "Free this with db_%s_freeq()." % r, "count": "count of results.", "iterate": "Invokes the given callback with retrieved data."}[op.kind]
            if not d.endswith(end):
                yield "header result", "%s of the header is said to return %r instead of %r; %r" % (op.name, d[-80:], end, text)
            dis = op.o.distinct
            x = re.search(r'limited to the nested structure of "([^"]*)" within (\w+)\.', d)
            x = x and x.groups()
            if ("distinct query results" in d) != (dis is not None) or x != ((".".join(dis), op.s.name) if dis not in (None, ["."]) else None):
                yield "header distinct", "%s of the header is said to be distinct as in %r instead of %r; %r" % (op.name, d, dis, text)
            s = re.search(r"Queries on the following fields in struct (\w+):", d)
            if not s or s.group(1) != op.s.name:
                yield "header of", "%s of the header is said to query %r; %r" % (op.name, s and s.group(1), text)

    def man(self, text):
        """{function: [row]} of a manual page."""
        return {n: rows for n, (t, k, rows) in m01.Man(text).desc.items()}

    def cman(self, op, rows, text):
        r = rows.get(op.name)
        if r is None:
            yield "no manual", "%s isn't in the manual page; %r" % (op.name, text)
            return
        got = [x[:-1] for x in r if not re.search(r"\bsize\)$", x[-2]) and x[-1] != "struct ort *"]
        mods, cons = self.terms(op)
        want = []
        for k, n, how, f in mods:
            want.append([n] if op.kind == "insert" else ["\\(<-", {"concat": "cat"}.get(how, how), n])
        for k, n, how, f in cons:
            want.append((["\\(->"] if op.kind == "update" else []) + [how, n.split(".")[-1]])
        if op.kind == "iterate":
            got = [x for x in got if x[0] != "-"]
        if got != want:
            yield "manual", "%s of the manual page is said to have %r instead of %r; %r" % (op.name, got, want, text)

    def cnode(self, op, nodes, text):
        d = nodes.get("ortctx." + op.name)
        if d is None or not d[0]:
            yield "node undocumented", "%s isn't documented for Node; %r" % (op.name, text)
            return
        doc, params = cdoc(d[0][-1]), d[1]
        mods, cons = self.terms(op)
        pw = lambda f: f.type == "password"
        want, un = [], []
        for k, n, how, f in mods:
            want.append(("v%d" % k, n if op.kind == "insert" else "update %s%s" % (n, " (hashed)" if pw(f) else "")))
        for k, n, how, f in cons:
            if k is None:
                un.append((n, "not" if how == "notnull" else "is"))
            elif op.write:
                want.append(("v%d" % k, "constraint %s (%s)" % (n, how)))
            else:
                want.append(("v%d" % k, n + (" (hashed password)" if pw(f) else "")))
        if op.kind == "iterate":
            want.append(("cb", "Callback with retrieved data."))
        got = [(a, words(b)) for a, b in re.findall(r"^@param (\w+) ((?:.|\n(?!@))*)", doc, re.M)]
        if got != want:
            yield "node", "%s for Node is said to have %r instead of %r; %r" % (op.name, got, want, text)
        if sorted(params) != sorted(k for k, _ in want):
            yield "node arguments", "%s for Node has arguments %r, and documentation for %r; %r" % (op.name, params, want, text)
        i = doc.find("constrained by unary operations:")
        g = re.findall(r"([\w.]+) \(checked (is|not) null\)", words(doc[i:])) if i >= 0 else []
        if g != un or (i >= 0) != bool(un):
            yield "node unary", "%s for Node is said to check %r instead of %r; %r" % (op.name, g, un, text)
        if not op.write:
            dis = op.o.distinct
            x = re.search(r"limited to \{@link ortns\.(\w+)Data\.([\w.]+)\}, which is a \{@link ortns\.(\w+)Data\}", words(doc))
            x = x and x.groups()
            if ("distinct query results" in words(doc)) != (dis is not None) or x != ((op.s.name, ".".join(dis), op.result().name) if dis not in (None, ["."]) else None):
                yield "node distinct", "%s for Node is said to be distinct as in %r instead of %r; %r" % (op.name, doc, dis, text)
            if op.o.doc is None:
                a = {"search": "specific", "list": "set of", "count": "count of", "iterate": "Iterate results in"}[op.kind] + " {@link ortns.%s}." % op.result().name
                if a not in words(doc):
                    yield "node what", "%s for Node is said to be %r, without %r; %r" % (op.name, doc, a, text)
        if "@throws" not in doc:
            yield "node throws", "%s for Node isn't said to throw: %r; %r" % (op.name, doc, text)


if __name__ == "__main__":
    core.main(K01())
