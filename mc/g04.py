"""G04: what a configuration means doesn't depend on how it's laid out."""
import itertools, json, re
import c01, core, corpus, q, ref

ORDERED = ("sntq", "ordq", "fvq", "chain")
POS = re.compile(r'"pos": \{ "fname": +"(?:[^"\\]|\\.)*", "line": -?\d+, "column": -?\d+ \}')
# White-space and comments that may be between any two words
FILL = [" ", "\t", "\n", "\r\n", "\n\n\t", " \r \t", "# c\n", "#\n", "# \" ; } { \\ ' #\n", " # c\r\n\t", "#\n#\n", "#struct x { field y int; };\n"]
TOOLS = [("source", "ort-c-source", ["-jJv"]), ("header", "ort-c-header", ["-jJsv"]), ("manpage", "ort-c-manpage", []), ("node", "ort-nodejs", ["-v"]),
         ("sql", "ort-sql", []), ("rust", "ort-rust", []), ("javascript", "ort-javascript", []), ("ort", "ort", [])]


def words(text):
    """[(kind, text as written)], without what's between them."""
    x, out = ref.Lex("a.ort", text), []
    while True:
        q0 = x.p
        if x.next() == "eof":
            return out
        m = ref.TOK.match
        # find where the word starts: skip what the lexer skipped
        p = q0
        while True:
            g = m(text, p)
            if g.lastindex != 1:
                break
            p = g.end()
        out.append((x.k, text[p:x.p]))


def glue(a, b):
    """Words that can't do without something between them."""
    k = ("id", "int", "dec")
    if a[0] in k and b[0] in k:
        return True
    # "1" and "." would be another number, as would "-" and "1"
    return a[0] in ("int", "dec") and b[0] == "." or a[0] == "." and b[0] in ("int", "dec")


def layout(ws, sep):
    return "".join(w + (sep(i, a, b) if b else "\n") for i, (a, b, w) in enumerate(
        (ws[i], ws[i + 1] if i + 1 < len(ws) else None, ws[i][1]) for i in range(len(ws))))


def statements(ws, depth):
    """Split into statements, which end with a semicolon outside of braces."""
    out, cur, d = [], [], 0
    for w in ws:
        cur.append(w)
        d += w[0] == "{"
        d -= w[0] == "}"
        if w[0] == ";" and d == 0:
            out.append(cur)
            cur = []
    return out + ([cur] if cur else [])


def inner(ws):
    """A structure as (words before its statements, statements, words after)."""
    i = next(i for i, w in enumerate(ws) if w[0] == "{")
    return ws[:i + 1], statements(ws[i + 1:-2], 0), ws[-2:]


def canon(x, key=None):
    if isinstance(x, dict):
        d = {k: canon(v, k) for k, v in x.items() if k != "pos"}
        # the order of fields and of items is part of what they mean
        if key in ("fq", "eq", "bq") and all(isinstance(v, dict) and "parent" in v for v in x.values()):
            d["*"] = list(x)
        return d
    if isinstance(x, list):
        l = [canon(v, key) for v in x]
        return l if key in ORDERED else sorted(l, key=lambda v: json.dumps(v, sort_keys=True))
    return x


def perms(n, full):
    """Orders of n things: all of them, or each moved anywhere, and reversed."""
    if n <= full:
        return list(itertools.permutations(range(n)))
    out = {tuple(range(n)), tuple(reversed(range(n)))}
    for i in range(n):
        for j in range(n):
            l = list(range(n))
            l.insert(j, l.pop(i))
            out.add(tuple(l))
    for i in range(n):
        for j in range(i):
            l = list(range(n))
            l[i], l[j] = l[j], l[i]
            out.add(tuple(l))
    return sorted(out)


def cuts(n, full):
    """Ways of cutting n statements into files."""
    if n <= full:
        return [c for k in range(n) for c in itertools.combinations(range(1, n), k)]
    return [()] + [(i,) for i in range(1, n)] + [tuple(range(1, n))]


def mini():
    """Small configurations in which each statement refers to another."""
    yield "refs", ("struct a { field id int rowid; field b:b.id int actdel cascade; field bb struct b; field e enum e default x; field z bits z limit ge 0; list bb.c: name l; search id; insert; };\n"
                   "struct b { field id int rowid; field c text unique limit lt 10 limit gt 2; update; delete id; search c: name c; unique id, c; };\n"
                   "enum e { item x 3; item y; comment \"c\"; isnull jslabel \"n\"; };\nbits z { item p 0; item q 1; isunset jslabel \"u\"; };\n")
    yield "roles", ("roles { role r { role s; }; role t; comment \"c\"; };\nstruct a { field id int rowid; field x int; roles t { insert; list m; noexport x; }; list: name m; insert; "
                    "update x: id: name u; roles r { update u; }; roles all { delete d; }; delete id: name d; roles s { noexport; }; };\n"
                    "struct b { field id int; field a:a.id int; field aa struct a; roles s { list k; }; list aa.x: name k; };\n").replace(" comment \"c\"; };\nstruct a", " };\nstruct a")
    yield "queries", ("struct a { field id int rowid; field k int; field t text null; list k: order k desc, id limit 3, 4 name l; search id, t isnull: name s; iterate k ge; count k: name c; "
                      "update k inc, t: id, k gt: name u; update: id; delete id: name d; update t: k; list: grouprow k maxrow id name g; insert; };\n")
    yield "order", ("struct c { field id int rowid; field b:b.id int; field bb struct b; search bb.aa.t: name x; };\n"
                    "struct b { field id int rowid; field a:a.id int; field aa struct a; list aa.id: name y; };\n"
                    "struct a { field id int rowid; field t text; field p password; search id, p: name z; };\n")


class G04(core.Check):
    id = "G04"
    rule = ("state = one text of a configuration; transition = one change of layout: something else at one gap, at all gaps, case, order of statements, "
            "cuts into files, read through the real parser")
    assumptions = ["what a configuration means is what ort-json says of it but positions, which J01 judges"]

    def space(self, tier):
        out = list(mini())
        for t in q.themes(tier):
            out.append((t[0], t[1]))
        out += [(n, t) for n, t in corpus.files(20000 if tier == "quick" else 60000) if ref.accepts([("a.ort", t)])[0] is not None
                and "\0" not in t]
        return out

    def jobs(self, tier):
        sp = self.space(tier)
        return [("mini" if i < 4 else "gaps", n, t, k) for i, (n, t) in enumerate(sp) for k in (("gaps", "struct", "top") if i < 4 else ("gaps", "top"))]

    def job(self, env, acc, tier, j):
        how, name, text, kind = j
        ws = words(text)
        deep = tier != "quick"

        def go(files, exact, tools=False):
            if acc.state(repr(files)):
                acc.n["transitions"] += 1
                acc.n[kind] += 1
                self.check(env, acc, {"base": text, "files": files, "exact": exact, "tools": tools})
        if kind == "gaps":
            for c in FILL:
                go([["a.ort", layout(ws, lambda i, a, b: c)]], True, True)
            go([["a.ort", layout(ws, lambda i, a, b: " " if glue(a, b) else "")]], True, True)
            go([["a.ort", "".join(s.upper() + e for s, e in zip([w if k == "id" else "" for k, w in ws], [("" if k == "id" else w) + " " for k, w in ws]))]], True, True)
            go([["-", text]], True, True)
            if how == "mini" or deep or len(ws) < 600:
                for i in range(len(ws)):
                    for c in FILL:
                        go([["a.ort", layout(ws, lambda n, a, b: c if n == i else " ")]], True)
                    if i + 1 < len(ws) and not glue(ws[i], ws[i + 1]):
                        go([["a.ort", layout(ws, lambda n, a, b: "" if n == i else " ")]], True)
                    if ws[i][0] == "id":
                        go([["a.ort", " ".join(w.title() if n == i else w for n, (k, w) in enumerate(ws))]], True)
                    go([["a.ort", " ".join(w for k, w in ws[:i]) + " # c"], ["b.ort", "# c"]] if False else [["a.ort", "#" * i + "\n" + text]], True)
        elif kind == "top":
            st = [" ".join(w for k, w in s) + "\n" for s in statements(ws, 0)]
            if len(st) > 60:
                return
            for p in perms(len(st), 6 if deep else 5):
                l = [st[i] for i in p]
                for c in cuts(len(l), 6 if deep else 5) if p == tuple(sorted(p)) or how == "mini" or deep else [()]:
                    b = [0] + list(c) + [len(l)]
                    go([["%s%d.ort" % ("zyx"[i % 3], i), "".join(l[b[i]:b[i + 1]])] for i in range(len(b) - 1)], False)
            # files with nothing in them
            go([["a.ort", ""], ["b.ort", "".join(st)], ["c.ort", "# c\n"]], False)
        else:
            # each structure's statements in another order, but its fields
            tops = statements(ws, 0)
            for n, s in enumerate(tops):
                if s[0][1].lower() != "struct":
                    continue
                a, ss, z = inner(s)
                fs = [i for i, x in enumerate(ss) if x[0][1].lower() == "field"]
                for p in perms(len(ss), 7 if deep else 6):
                    if [i for i in p if i in fs] != fs:
                        continue
                    # a statement a line, lest there be anything about lines
                    w = [t if m != n else a + [x for i in p for x in ss[i] + [("", "\n")]] + z for m, t in enumerate(tops)]
                    go([["a.ort", "\n".join(" ".join(x for k, x in t) for t in w)]], False)
        acc.sample({"how": kind, "of": name, "words": len(ws)}, 1)

    def base(self, env, text):
        if env.cache.get("g04t") != text:
            env.cache["g04t"], env.cache["g04"] = text, {}
        return env.cache["g04"]

    def judge(self, env, case):
        B = self.base(env, case["base"])
        files = [tuple(f) for f in case["files"]]
        std = [c for n, c in files if n == "-"]

        def run(tool, args, fs):
            s = [c for n, c in fs if n == "-"]
            if s:
                return env.run(tool, args, [], s[0].encode("utf-8", "surrogateescape"))
            return env.run(tool, list(args) + [n for n, _ in fs], fs)
        out = []
        if "json" not in B:
            r = run("ort-json", [], [("a.ort", case["base"])])
            B["json"] = None if r.status else POS.sub("", r.text)
            B["canon"] = canon(json.loads(B["json"].replace('"name": "none", "parent": null, , ', '"name": "none", "parent": null, ') and r.text, strict=False)) if not r.status else None
        if B["json"] is None:
            return [("base", "rejected: %r" % case["base"])]
        r = run("ort-json", [], files)
        if r.status:
            return [("rejected", "%r: rejected, unlike %r: %s" % (files, case["base"], r.err[:300]))]
        if case["exact"]:
            if POS.sub("", r.text) != B["json"]:
                out.append(("meaning", "%r: another meaning than %r" % (files, case["base"])))
        elif canon(json.loads(r.text, strict=False)) != B["canon"]:
            out.append(("meaning", "%r: another meaning than %r" % (files, case["base"])))
        if case["tools"]:
            for key, tool, args in TOOLS:
                if key not in B:
                    x = run(tool, args, [("a.ort", case["base"])])
                    B[key] = (x.status, x.out)
                x = run(tool, args, files)
                if (x.status, x.out) != B[key]:
                    out.append(("output:" + key, "%r: other output of ort-%s than of %r" % (files, key, case["base"])))
        return out


if __name__ == "__main__":
    core.main(G04())
