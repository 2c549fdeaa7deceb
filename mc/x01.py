"""X01: ort-xliff extracts, updates and joins translations, none lost or made
up."""
import itertools, xml.etree.ElementTree as ET
import core, ref

NS = "{urn:oasis:names:tc:xliff:document:1.2}"
HOSTILE = ["a", "&", "<", ">", "'", '\\"', ";", "#", " ", "\n", "é", "]", "\\", "%s", "amp", "}", "&lt;"]
S = "struct foo { field id int rowid; };\n"


def q(s):
    """What a string of the configuration is when written as text."""
    return s.replace('\\"', '"')


def things(cfg):
    for e in cfg.enums.values():
        for i in e.items:
            yield i.labels
        if e.isnull:
            yield e.isnull
    for b in cfg.bits.values():
        for i in b.items:
            yield i.labels
        yield b.isunset
        yield b.isnull


def esc(s, style):
    s = s.replace("&", "&amp;").replace("<", "&lt;")
    if style & 1:
        s = s.replace(">", "&gt;")
    if style & 2:
        s = s.replace('"', "&quot;").replace("'", "&apos;")
    return s


def attr(s):
    return s.replace("&", "&amp;").replace("<", "&lt;").replace('"', "&quot;")


def xliff(units, lang="fr", src="en", orig="a.ort", style=3):
    """units: (id, source, target or None)"""
    out = ['<?xml version="1.0"?>\n' if style & 4 else "", '<xliff version="1.2" xmlns="urn:oasis:names:tc:xliff:document:1.2">',
           '<file target-language="%s" source-language="%s" original="%s" datatype="plaintext"><body>\n' % (attr(lang), attr(src), attr(orig))]
    for i, s, t in units:
        s = "<source>%s</source>" % esc(s, style)
        t = "" if t is None else "<target/>" if t == "" and style & 4 else "<target>%s</target>" % esc(t, style)
        out.append('<trans-unit id="%s">%s</trans-unit>\n' % (attr(i), t + s if style & 8 else s + t))
    out.append("</body></file></xliff>\n")
    return "".join(out)


def read(b):
    """(attributes, [(id, source, target)]) of a file, or None, why"""
    try:
        r = ET.fromstring(b)
    except (ET.ParseError, ValueError) as e:
        return None, "no XML: %s" % e
    if r.tag != NS + "xliff" or r.get("version") != "1.2":
        return None, "no XLIFF 1.2"
    fs = r.findall(NS + "file")
    if len(fs) != 1 or any(fs[0].get(a) is None for a in ("target-language", "source-language", "original", "datatype")):
        return None, "not one complete file"
    us = []
    bs = fs[0].findall(NS + "body")
    if len(bs) != 1 or any(u.tag != NS + "trans-unit" for u in bs[0]):
        return None, "not one body of units"
    for u in bs[0]:
        ss, ts = u.findall(NS + "source"), u.findall(NS + "target")
        if len(ss) != 1 or len(ts) > 1 or u.get("id") is None:
            return None, "unit without identifier or source"
        us.append((u.get("id"), ss[0].text or "", (ts[0].text or "") if ts else None))
    if len(set(u[0] for u in us)) != len(us):
        return None, "identifiers used twice"
    if len(set(u[1] for u in us)) != len(us):
        return None, "sources used twice"
    f = fs[0]
    return ({a: f.get(a) for a in ("target-language", "source-language", "original")}, us), None


def same(source, label):
    return source == label or source == q(label)


def text(items, enull=None, bits=None, more=""):
    """items: [(name, {lang: label})]; bits: (items, isunset, isnull)"""
    def ls(d):
        return "".join(" jslabel%s \"%s\"" % ("." + l if l else "", t) for l, t in d.items())
    out = "enum en {\n" + "".join("item %s%s;\n" % (n, ls(d)) for n, d in items)
    if enull is not None:
        out += "isnull%s;\n" % ls(enull)
    out += "};\n"
    if bits:
        out += "bits bi {\n" + "".join("item %s %d%s;\n" % (n, i, ls(d)) for i, (n, d) in enumerate(bits[0]))
        if bits[1]:
            out += "isunset%s;\n" % ls(bits[1])
        if bits[2]:
            out += "isnull%s;\n" % ls(bits[2])
        out += "};\n"
    return out + S + more


class X01(core.Check):
    id = "X01"
    rule = ("state = (configuration, translations); transition = one extraction, join, or update by ort-xliff; all strings over a hostile alphabet as labels, "
            "translations and attributes; all labellings of a base with all sets of units; all histories extract, edit, update, translate, join; all "
            "element trees to the stated size, all single edits and all truncations of a file")
    assumptions = ["numeric references and repeated elements are not judged", "whether units without translation are missing ones is not judged where -c is not given to -u"]
    variants = ("fast", "asan")

    # ---- spaces

    def strings(self, n):
        for k in range(1, n + 1):
            for c in itertools.product(HOSTILE, repeat=k):
                s = "".join(c)
                if not s.endswith("\\") and '\\\\"' not in s:
                    yield s

    def jobs(self, tier):
        out = [("text", i, 16) for i in range(16)] + [("target", i, 8) for i in range(8)] + [("attr", 0, 1)]
        out += [("shape", i, 48) for i in range(48)]
        out += [("hist", i, 8) for i in range(8)]
        out += [("tree", i, 16) for i in range(16)] + [("edit", i, 8) for i in range(8)]
        out += [("form", 0, 1)]
        return out

    def job(self, env, acc, tier, j):
        kind, i, m = j
        n = 0
        for case in itertools.islice(getattr(self, "s_" + kind)(tier), i, None, m):
            if acc.state(repr(case)):
                acc.n["transitions"] += 1
                acc.n[kind] += 1
                self.check(env, acc, case)
            n += 1
        acc.sample("%s: %d" % (kind, n), 1)

    def s_text(self, tier):
        for s in self.strings(3 if tier == "thorough" else 2):
            d = {"": s}
            for t in (text([("a", d), ("b", {"": "zz"})]), text([("a", {"": "zz"})], d, ([("c", {"": "yy"})], {"": "xx"}, {"": "zz"})),
                      text([("a", {"": "zz"})], None, ([("c", d)], {"": "xx"}, d)), text([("a", d)], d, ([("c", d)], d, d))):
                for copy in (0, 1):
                    yield {"op": "x", "files": [["a.ort", t]], "copy": copy}
                    for st in (0, 3):
                        us = [["1", s, "T1"], ["2", "zz", "T2"], ["9", "xx", "T3"], ["4", "yy", None]]
                        yield {"op": "j", "files": [["a.ort", t]], "copy": copy, "xl": [{"units": us[:3], "style": st}]}
                        yield {"op": "u", "files": [["a.ort", t]], "copy": copy, "xl": [{"units": us[:3], "style": st}]}
                        yield {"op": "u", "files": [["a.ort", t]], "copy": copy, "xl": [{"units": us[1:], "style": st}]}

        # labels alike
        C = ["A", "a", "A B", "A  B", "AB", "A ", " A", "A.", "Aa", "\u00c1", "\u00e1", "A\\\"", "0", "1"]
        for a, b in itertools.permutations(C, 2):
            t = text([("a", {"": a}), ("b", {"": b})], {"": a}, ([("c", {"": b})], {"": a}, {"": b}))
            for copy in (0, 1):
                yield {"op": "x", "files": [["a.ort", t]], "copy": copy}
                for us in ([["1", a, "T1"], ["2", b, "T2"]], [["2", b, "T2"], ["1", a, "T1"]], [["1", a, "T1"]], [["b", b, None]]):
                    for op in "ju":
                        yield {"op": op, "files": [["a.ort", t]], "copy": copy, "xl": [{"units": us}]}

    def s_target(self, tier):
        t = text([("a", {"": "A"}), ("b", {"": "B"})])
        T = list(self.strings(3 if tier == "thorough" else 2)) + ["\\", 'x"', '""', '"a\\"b"', 'a\\\\"', "a\\", "\\\\"]
        for s in T:
            for st in (0, 3, 7):
                for x in (s, q(s)):
                    yield {"op": "j", "files": [["a.ort", t]], "copy": 0, "xl": [{"units": [["1", "A", x], ["2", "B", "y"]], "style": st}]}
                    yield {"op": "u", "files": [["a.ort", t]], "copy": 0, "xl": [{"units": [["1", "A", x], ["3", x, "z"]], "style": st}]}

    def s_attr(self, tier):
        t = text([("a", {"": "A"}), ("b", {"": "B"})])
        A = ["fr", "FR", "Fr2", "f", "fr-CA", "2fr", "", "f r", "é", 'f"', "f&amp;", "<fr>", "TODO", "fr_x", "f'", "ortjslabel", "int", "default", "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"]
        for l in A:
            for c in (0, 1):
                for tt in (t, text([("a", {"": "A", "fr": "old"}), ("b", {"": "B"})])):
                    yield {"op": "j", "files": [["a.ort", tt]], "copy": c, "xl": [{"units": [["1", "A", "x"], ["2", "B", "y"]], "lang": l}]}
                    yield {"op": "u", "files": [["a.ort", tt]], "copy": c, "xl": [{"units": [["1", "A", "x"]], "lang": l}]}
        for a in A + ["a.ort", "/tmp/x y.ort", "a>b", "a&b", "a;b", "%s"]:
            for c in (0, 1):
                yield {"op": "u", "files": [["a.ort", t]], "copy": c, "xl": [{"units": [["1", "A", "x"]], "src": a}]}
                yield {"op": "u", "files": [["a.ort", t]], "copy": c, "xl": [{"units": [["1", "A", "x"]], "orig": a}]}
                yield {"op": "u", "files": [["a.ort", t]], "copy": c, "xl": [{"units": [[a or "i", "A", "x"]]}]}
                if a:
                    yield {"op": "x", "files": [[a, t]], "copy": c}
                    yield {"op": "x", "files": [[a, S], ["b.ort", t.replace(S, "")]], "copy": c}
        for ids in itertools.product(["1", "2", "3", "4", "x", "01"], repeat=3):
            if len(set(ids)) == 3:
                for k in range(4):
                    yield {"op": "u", "files": [["a.ort", t]], "copy": 0, "xl": [{"units": [[ids[n], "ABC"[n] if n != k else "Z", "t"] for n in range(3)]}]}
                    yield {"op": "u", "files": [["a.ort", t]], "copy": 0, "xl": [{"units": [[ids[n], "XYC"[n], "t"] for n in range(3)]}]}

    def s_shape(self, tier):
        O = [{}, {"": "A"}, {"": "B"}, {"": "A", "fr": "Y"}, {"": "B", "fr": "Y", "de": "D"}, {"fr": "Y"}]
        E2 = [{"": "A"}, {"": "C"}, {}]
        EN = [None, {"": "A"}, {"": "C", "fr": "N"}, {"fr": "N"}]
        BI = [None] + [([("c", {"": x}), ("d", {"": "A", "de": "D"})], u, n) for x in "AC" for u in ({"": "A"}, {"": "B", "fr": "U"}, {}) for n in ({"": "A"}, {"": "C"}, {})]
        if tier != "thorough":
            BI = BI[:3] + BI[5:12:2] + BI[15:16]
        U = list(itertools.product([(), (None,), ("",), ("x",)], repeat=2))
        for a, b, en, bi in itertools.product(O, E2, EN, BI):
            t = text([("a", a), ("b", b)], en, bi)
            for c in (0, 1):
                yield {"op": "x", "files": [["a.ort", t]], "copy": c}
                for ua, ub in U:
                    for uc in ((), ("z",)):
                        us = [[str(i + 1), s, x[0]] for i, (s, x) in enumerate((("A", ua), ("B", ub), ("C", uc))) if x]
                        for op in "ju":
                            yield {"op": op, "files": [["a.ort", t]], "copy": c, "xl": [{"units": us}]}

    def s_hist(self, tier):
        L = ["A", "b & <c>", 'q\\"q', "é x"]
        tgt = ["t", "d'é <&>", 'z "z"']
        edits = ["none", "add", "rename", "remove", "bits"]
        deep = tier == "thorough"
        for a, b in itertools.product(L, repeat=2):
            for e1 in edits:
                for e2 in edits if deep or a == "A" else ["none"]:
                    for cx, cu, cj in itertools.product((0, 1), repeat=3):
                        for part in range(4):
                            for t1 in tgt:
                                yield {"op": "h", "a": a, "b": b, "edits": [e1, e2], "copy": [cx, cu, cj], "part": part, "t": t1}

    NODES = ["x", "x0", "f", "f-", "t", "t-", "s", "g", "o", "T"]

    def trees(self, n, alpha):
        """All forests of n nodes over alpha, as nested tuples."""
        if n == 0:
            yield ()
            return
        for k in range(n):
            for ch in self.trees(k, alpha):
                for a in alpha:
                    if a == "T" and ch:
                        continue
                    for rest in self.trees(n - 1 - k, alpha):
                        yield ((a, ch),) + rest

    def s_tree(self, tier):
        t = text([("a", {"": "A"})])
        for n in range(1, 4 if tier != "thorough" else 5):
            for f in self.trees(n, self.NODES):
                if len(f) != 1 and n > 2:
                    continue
                for op in "ju":
                    yield {"op": op, "files": [["a.ort", t]], "copy": 1, "tree": f}
        # below a good beginning
        for n in range(0, 4 if tier != "thorough" else 5):
            for f in self.trees(n, ["f", "t", "s", "g", "o", "T"] if n > 2 else self.NODES):
                yield {"op": "j", "files": [["a.ort", t]], "copy": 1, "tree": (("x", (("f", f),)),)}
                if n < 3:
                    yield {"op": "u", "files": [["a.ort", t]], "copy": 0, "tree": (("x", (("f", f),)),)}
                    yield {"op": "u", "files": [["a.ort", t]], "copy": 1, "tree": (("x", (("f", (("t", (("s", ()),) + f),)),)),)}
                    yield {"op": "j", "files": [["a.ort", t]], "copy": 1, "tree": (("x", (("f", (("t", f + (("s", ()),)),)),)),)}

    def s_edit(self, tier):
        t = text([("a", {"": "A & <b>"}), ("b", {"": "B"})])
        for st in (0, 3, 7, 15):
            x = xliff([("1", "A & <b>", "x > y"), ("2", "B", "é'\"")], style=st).encode()
            for i in range(len(x.rstrip())):
                for op in "ju":
                    yield {"op": op, "files": [["a.ort", t]], "copy": 0, "raw": x[:i].hex(), "bad": 1}
            for i in range(len(x)):
                for b in (b"", b"<", b">", b"&", b"\"", b"\0", b"\xff", b"/", b" "):
                    for op in "ju":
                        yield {"op": op, "files": [["a.ort", t]], "copy": 0, "raw": (x[:i] + b + x[i + 1:]).hex()}
            for i in range(0, len(x), 1 if tier == "thorough" else 7):
                for j in range(i + 1, len(x), 1 if tier == "thorough" else 3):
                    yield {"op": "j", "files": [["a.ort", t]], "copy": 0, "raw": (x[:i] + x[j:]).hex()}

    def s_form(self, tier):
        E = text([("a", {"": "A"}), ("b", {"": "B"})]).replace(S, "")
        fr = {"units": [["1", "A", "fa"], ["2", "B", "fb"]], "lang": "fr"}
        de = {"units": [["1", "A", "da"], ["2", "B", "db"]], "lang": "de"}
        f2 = {"units": [["1", "A", "ga"], ["2", "B", "gb"]], "lang": "FR"}
        for files in ([["a.ort", E + S]], [["a.ort", E], ["b.ort", S]], [["b.ort", S], ["a.ort", E]]):
            for c in (0, 1):
                for op in "ju":
                    for xl in ([fr], [fr, de], [fr, f2], [de, fr, f2], [f2, fr]):
                        if op == "u" and len(xl) > 1:
                            continue
                        for form in ("plain", "dashx", "stdinx", "stdinc"):
                            yield {"op": op, "files": files, "copy": c, "xl": xl, "form": form}

    # ---- judging

    def args(self, case, op, files, xfiles):
        a = (["-c"] if case.get("copy") else []) + ["-" + op]
        form = case.get("form")
        if form is None:
            form = "plain" if len(files) == 1 and len(xfiles) == 1 else "dashx"
        if form == "plain" and (len(files) > 1 or len(xfiles) > 1):
            form = "dashx"
        if form == "stdinc" and len(files) > 1:
            form = "dashx"
        if form == "stdinx" and len(xfiles) > 1:
            form = "dashx"
        cn, xn = [n for n, _ in files], [n for n, _ in xfiles]
        if form == "plain":
            return a + cn + xn, files + xfiles, b""
        if form == "stdinx":
            return a + cn + ["-x"], files, xfiles[0][1]
        if form == "stdinc":
            return a + ["--", "-x"] + xn, xfiles, files[0][1]
        return a + cn + ["-x"] + xn, files + xfiles, b""

    def judge(self, env, case):
        if case["op"] == "h":
            yield from self.history(env, case)
            return
        files = [tuple(f) for f in case["files"]]
        cfg, err = ref.accepts(files)
        if cfg is None:
            return
        if case["op"] == "x":
            yield from self.extract(env, files, cfg, case["copy"])[0]
            return
        if "xl" in case:
            xls = [self.xl(x) for x in case["xl"]]
            xf = [("x%d.xlf" % i, xliff(x["units"], x["lang"], x["src"], x["orig"], x["style"])) for i, x in enumerate(xls)]
        else:
            xls = None
            xf = [("x0.xlf", bytes.fromhex(case["raw"]) if "raw" in case else render(case["tree"]))]
        args, fs, stdin = self.args(case, case["op"], files, xf)
        r = env.run("ort-xliff", args, fs, stdin if isinstance(stdin, bytes) else stdin.encode(), variant="fast" if xls else "asan")
        what = "ort-xliff %s of %s and %s" % (" ".join(args), files[-1][1], xf[0][1])
        if r.crashed:
            yield "crash:" + case["op"], "%s crashes: %r" % (what, r.err[-400:])
            return
        if r.status and r.out:
            yield "output", "%s fails but prints" % what
            return
        if r.status and not r.err:
            yield "silent", "%s fails without saying why" % what
        if xls is None:
            ok = self.good(case, xf[0][1])
            if ok is False and r.status == 0:
                yield "accepted:" + case["op"], "%s is accepted" % what
            elif ok and (r.status != 0 and case["op"] == "u"):
                yield "refused:" + case["op"], "%s is refused: %r" % (what, r.err[-300:])
            elif r.status == 0 and case["op"] == "j" and ref.accepts([("o.ort", r.text)])[0] is None:
                yield "invalid", "%s: what is joined does not parse: %s" % (what, r.text)
            elif r.status == 0 and case["op"] == "u" and ok and read(r.out)[0] is None:
                yield "invalid", "%s: what is updated: %s: %s" % (what, read(r.out)[1], r.text)
            return
        if case["op"] == "u":
            yield from self.update(case, cfg, xls[0], r, what)
        else:
            yield from self.join(case, files, xls, r, what)

    @staticmethod
    def xl(x):
        d = {"lang": "fr", "src": "en", "orig": "a.ort", "style": 3}
        d.update(x)
        return d

    def good(self, case, raw):
        """Must it be accepted (True), refused (False), or isn't it said."""
        if case.get("bad"):
            return False
        if isinstance(raw, str):
            raw = raw.encode()
        try:
            root = ET.fromstring(raw)
        except (ET.ParseError, ValueError, LookupError):
            return False
        loc = lambda t: t.split("}")[-1]
        xs = [e for e in root.iter() if loc(e.tag) == "xliff"]
        fs = [e for e in root.iter() if loc(e.tag) == "file"]
        if len(xs) != 1 or xs[0].get("version") != "1.2" or not fs or any(f.get(a) is None for f in fs for a in ("target-language", "source-language", "original")):
            return False
        us = [e for e in root.iter() if loc(e.tag) == "trans-unit"]
        if any(u.get("id") is None or not any(loc(e.tag) == "source" for e in u.iter()) for u in us):
            return False
        # plainly good: xliff, file, units of one source and up to one target
        f = fs[0]
        if xs[0] is not root or len(fs) > 1 or list(root) != [f] or len(us) != len(list(f)):
            return None
        for u in f:
            k = [loc(e.tag) for e in u]
            if loc(u.tag) != "trans-unit" or sorted(k) not in (["source"], ["source", "target"]) or any(len(e) for e in u):
                return None
            if b"<!" in raw:
                return None
        if len(set(u.get("id") for u in us)) != len(us) or len(set(u.find(".//{*}source").text for u in us)) != len(us):
            return None
        return True

    def extract(self, env, files, cfg, copy):
        out = []
        r = env.run("ort-xliff", (["-c"] if copy else []) + [n for n, _ in files], files)
        what = "extraction%s of %s" % (" with -c" if copy else "", files[-1][1])
        want, miss = [], False
        for d in things(cfg):
            if "" not in d:
                miss = True
            elif d[""] not in want:
                want.append(d[""])
        if r.crashed or r.status:
            return [("extract fails", "%s: status %d, %r" % (what, r.status, r.err[-300:]))], None
        x, e = read(r.out)
        if x is None:
            return [("extract form", "%s: %s: %s" % (what, e, r.text))], None
        at, us = x
        if at["original"] != files[0][0]:
            out.append(("original", "%s has original %r" % (what, at["original"])))
        left = list(want)
        for i, s, t in us:
            m = [w for w in left if same(s, w)]
            if not m:
                out.append(("extra unit", "%s has %r, which is no label" % (what, s)))
                continue
            left.remove(m[0])
            if (t or None) != (s if copy else None):
                out.append(("target", "%s has target %r for %r" % (what, t, s)))
        for l in left:
            out.append(("missing unit", "%s has no %r" % (what, l)))
        if miss and not r.err:
            out.append(("unsaid", "%s does not say that labels are missing" % what))
        return out, us

    def update(self, case, cfg, x, r, what):
        D = list(things(cfg))
        if any("" not in d for d in D):
            if r.status == 0 and not r.err:
                yield "unsaid", "%s does not say that labels are missing" % what
            if r.status:
                return
        if r.status:
            yield "update fails", "%s: %r" % (what, r.err[-300:])
            return
        y, e = read(r.out)
        if y is None:
            yield "update form", "%s: %s: %s" % (what, e, r.text)
            return
        at, us = y
        for a, k in (("target-language", "lang"), ("source-language", "src"), ("original", "orig")):
            if at[a] != x[k]:
                yield "attribute", "%s: %s is %r" % (what, a, at[a])
        got = {s: (i, t) for i, s, t in us}
        for i, s, t in x["units"]:
            g = got.pop(s, None)
            if g is None:
                yield "lost", "%s loses %r: %s" % (what, s, r.text)
            elif g[0] != i:
                yield "identifier", "%s changes that of %r: %s" % (what, s, r.text)
            elif (g[1] or None) != (t or None) and not (case["copy"] and not t and g[1] == s):
                yield "translation", "%s changes that of %r to %r: %s" % (what, s, g[1], r.text)
        want = []
        for d in D:
            l = d.get("")
            if l is not None and l not in want and not any(same(u[1], l) for u in x["units"]):
                want.append(l)
        for s, (i, t) in got.items():
            m = [w for w in want if same(s, w)]
            if not m:
                yield "extra unit", "%s has %r, which is no label: %s" % (what, s, r.text)
                continue
            want.remove(m[0])
            if (t or None) != (s if case["copy"] else None):
                yield "target", "%s has target %r for %r" % (what, t, s)
        for l in want:
            yield "missing unit", "%s has no %r: %s" % (what, l, r.text)

    def join(self, case, files, xls, r, what):
        cfg, _ = ref.accepts(files)
        maybe = False
        for x in xls:
            lang = x["lang"].lower()
            if not (lang.isalnum() and lang.isascii() and lang[0].isalpha()):
                if r.status == 0:
                    yield "language", "%s is accepted: %s" % (what, r.text)
                return
            for d in things(cfg):
                if "" not in d:
                    if r.status == 0:
                        yield "no label", "%s is accepted: %s" % (what, r.text)
                    return
                t = [u[2] for u in x["units"] if same(u[1], d[""])]
                t = t[0] if t else None
                if not t:
                    if lang in d:
                        maybe = maybe or not case["copy"]
                        continue
                    if not case["copy"]:
                        if r.status == 0:
                            yield "missing accepted", "%s is accepted, without a translation of %r: %s" % (what, d[""], r.text)
                        return
                    t = d[""]
                if lang in d:
                    continue
                if t.endswith("\\"):
                    if r.status == 0:
                        yield "backslash", "%s is accepted: %s" % (what, r.text)
                    return
                d[lang] = t
        if r.status:
            if not maybe:
                yield "join fails", "%s: %r" % (what, r.err[-300:])
            return
        got, e = ref.accepts([("o.ort", r.text)])
        if got is None:
            yield "invalid", "%s: what is joined does not parse, %s: %s" % (what, e, r.text)
            return
        if norm(got.canon()) != norm(cfg.canon()):
            yield "meaning", "%s gives %s" % (what, r.text)

    def history(self, env, h):
        cx, cu, cj = h["copy"]
        items = [["a", {"": h["a"]}], ["b", {"": h["b"]}]]
        bits = None
        t = text(items, None, bits)
        out, us = self.extract(env, [("a.ort", t)], ref.accepts([("a.ort", t)])[0], cx)
        yield from out
        if us is None:
            return
        # some are translated
        us = [[i, s, h["t"] + str(n) if h["part"] >> n & 1 else x] for n, (i, s, x) in enumerate(us)]
        for k, e in enumerate(h["edits"]):
            if e == "add":
                items.append(["n%d" % k, {"": "new%d <" % k}])
            elif e == "rename":
                items[0][1] = {"": "renamed%d" % k}
            elif e == "remove" and len(items) > 1:
                items.pop(0)
            elif e == "bits":
                bits = ([("c", {"": "A"})], {"": "un%d" % k}, {"": h["b"]})
            t = text(items, None, bits)
            cfg, _ = ref.accepts([("a.ort", t)])
            case = {"copy": cu}
            x = {"units": us, "lang": "fr", "src": "en", "orig": "a.ort", "style": 3}
            xt = xliff(us)
            r = env.run("ort-xliff", (["-c"] if cu else []) + ["-u", "a.ort", "x.xlf"], [("a.ort", t), ("x.xlf", xt)])
            what = "ort-xliff -u of %s and %s" % (t, xt)
            bad = False
            for f in self.update(case, cfg, x, r, what):
                bad = True
                yield f
            if bad or r.status:
                return
            us = [list(u) for u in read(r.out)[0][1]]
        # what was written is joined as it is, then all translated
        for full in (0, 1):
            if full:
                us = [[i, s, x or "full" + i] for i, s, x in us]
            xs = r.text if not full else xliff(us)
            r2 = env.run("ort-xliff", (["-c"] if cj else []) + ["-j", "a.ort", "x.xlf"], [("a.ort", t), ("x.xlf", xs)])
            what = "ort-xliff -j of %s and %s" % (t, xs)
            yield from self.join({"copy": cj}, [("a.ort", t)], [{"units": us, "lang": "fr"}], r2, what)
        if r2.status:
            return
        # again, and in another language
        r3 = env.run("ort-xliff", ["-j", "o.ort", "x.xlf"], [("o.ort", r2.out), ("x.xlf", xs)])
        if r3.status or r3.out != r2.out:
            yield "again", "%s, joined again, gives %s" % (what, r3.text)
        xd = xliff([(i, s, "d" + x) for i, s, x in us], lang="de")
        r4 = env.run("ort-xliff", ["-j", "o.ort", "x.xlf"], [("o.ort", r2.out), ("x.xlf", xd)])
        yield from self.join({"copy": 0}, [("o.ort", r2.text)], [{"units": [(i, s, "d" + x) for i, s, x in us], "lang": "de"}], r4, "ort-xliff -j of %s and %s" % (r2.text, xd))


def norm(c):
    """Of labels: quotes with or without backslash."""
    def go(x):
        return tuple(map(go, x)) if isinstance(x, tuple) else x.replace('\\"', '"') if isinstance(x, str) else x
    return (c[0], go(c[1]), go(c[2]), c[3])


EL = {"x": ("xliff", ' version="1.2"'), "x0": ("xliff", ""), "f": ("file", ' target-language="fr" source-language="en" original="o"'),
      "f-": ("file", ' source-language="en" original="o"'), "t": ("trans-unit", None), "t-": ("trans-unit", ""), "s": ("source", ""), "g": ("target", ""), "o": ("note", "")}


def render(f):
    n = [0]

    def go(f):
        out = ""
        for a, ch in f:
            if a == "T":
                out += "A"
                continue
            e, at = EL[a]
            if at is None:
                n[0] += 1
                at = ' id="%d"' % n[0]
            c = go(ch)
            out += "<%s%s/>" % (e, at) if not c else "<%s%s>%s</%s>" % (e, at, c, e)
        return out
    return go(f)


if __name__ == "__main__":
    core.main(X01())
