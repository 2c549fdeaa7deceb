"""F05: what's written in comments and labels stays text in what the tools print."""
import bisect, itertools, re
import cgen, core, ref

CONF = '''roles { role a comment "%(0)s"; };
enum e { item x 1 comment "%(1)s" jslabel "%(L)s"; item w; comment "%(2)s"; isnull jslabel "%(L)s"; };
bits b { item x 1 comment "%(3)s" jslabel "%(L)s"; comment "%(4)s"; isnull jslabel "%(L)s"; isunset jslabel.fr "%(L)s"; };
struct bar { field k int unique comment "%(5)s"; };
struct foo { field id int rowid comment "%(6)s"; field t text unique comment "%(7)s"; field e enum e null comment "%(8)s"; field z bits b comment "%(9)s"; field p password limit gt 3 comment "%(10)s";
field f:bar.k int null comment "%(11)s"; field g struct f comment "%(12)s"; field bl blob null comment "%(13)s";
search id: name q comment "%(14)s"; list: comment "%(15)s"; iterate t: comment "%(16)s"; count: comment "%(17)s"; insert; update t: id: comment "%(18)s"; delete id: comment "%(19)s"; roles a { search q; }; comment "%(20)s"; };
'''
N = 21
TOOLS = {"c-header": ["-jJsv"], "c-source": ["-jJv", "-S", None], "nodejs": ["-v"], "javascript": [], "sql": [], "rust": [], "c-manpage": []}
A = ["*", "/", "\\", '\\"', "'", "`", "$", "{", "\n", "\r", "-", "x", " ", "."]
B, E = "zqx", "xqz"
LEX = {
    "c": re.compile(r'/\*(?P<c>.*?)\*/|//(?P<l>[^\n]*)|(?P<s>"(?:[^"\\]|\\.)*")|(?P<q>\'(?:[^\'\\]|\\.)*\')|(?P<t>[A-Za-z_0-9]+|[^\sA-Za-z_0-9])|(?P<w>\s+)', re.S),
    "js": re.compile(r'/\*(?P<c>.*?)\*/|//(?P<l>[^\n]*)|(?P<s>"(?:[^"\\\n]|\\.)*")|(?P<q>\'(?:[^\'\\\n]|\\.)*\')|(?P<b>`(?:[^`\\]|\\.)*`)|(?P<t>[A-Za-z_0-9]+|[^\sA-Za-z_0-9])|(?P<w>\s+)', re.S),
    "sql": re.compile(r'/\*(?P<c>.*?)\*/|--(?P<l>[^\n]*)|(?P<s>"(?:[^"]|"")*")|(?P<q>\'(?:[^\']|\'\')*\')|(?P<t>[A-Za-z_0-9]+|[^\sA-Za-z_0-9])|(?P<w>\s+)', re.S),
}
KIND = {"c-header": "c", "c-source": "c", "nodejs": "js", "javascript": "js", "sql": "sql", "rust": "c"}
LEAD = re.compile(r"^[\t ]*\*(?: |$)", re.M)


def lex(text, kind, base=None, marks=None):
    """(words of the code, comments as text); base is (text, words, comments,
    marks) of what begins alike, whose words until there are taken over."""
    words, notes, p, run = [], [], 0, []
    rx = LEX[kind]
    if base is not None:
        n = common(text, base[0])
        i = bisect.bisect_right(base[3], (n - 1, 0, 0)) - 1
        if i > 0 and base[3][i][0] < n:
            p, a, b = base[3][i]
            words, notes = base[1][:a], base[2][:b]
    while p < len(text):
        if marks is not None and not run:
            marks.append((p, len(words), len(notes)))
        m = rx.match(text, p)
        if m is None:       # an open string or comment
            return words + ["?" + text[p:p + 20]], notes
        p = m.end()
        k = m.lastgroup
        if k == "c":
            notes.append(LEAD.sub("", m.group("c")))
        elif k == "l":
            run.append(m.group("l"))
            continue
        elif k == "w":
            continue
        else:
            words.append(m.group())
        if run:
            notes.append("\n".join(run))
            run = []
    if run:
        notes.append("\n".join(run))
    return words, notes


def common(a, b):
    """How long the two are alike from their beginning."""
    lo, hi = 0, min(len(a), len(b))
    while lo < hi:
        m = (lo + hi + 1) // 2
        if a[lo:m] == b[lo:m]:
            lo = m
        else:
            hi = m - 1
    return lo


def flat(s):
    return re.sub(r"\s+", "", s)


def config(t, lab, bare=False):
    d = {str(i): t if bare else B + str(i) + "b" + t + E for i in range(N)}
    d["L"] = lab
    return CONF % d


class F05(core.Check):
    id = "F05"
    rule = ("state = (text, in all places a configuration has text); transition = one generation by each tool, whose output, comments and the contents of strings apart, "
            "is compared word for word with that of a harmless text, and whose comments with the text")
    assumptions = ["lexical rules of C, ECMAScript, SQL and roff in mc/f05.py"]

    def jobs(self, tier):
        n = 3 if tier == "quick" else 4
        out = [("seq", n, a, b) for a in A for b in A]
        out += [("wrap", i) for i in range(8)]
        return out

    def job(self, env, acc, tier, j):
        def go(t):
            if acc.state(t):
                acc.n["transitions"] += len(TOOLS)
                for bare in (False, True):
                    self.check(env, acc, {"text": t, "bare": bare})
        if j[0] == "seq":
            if j[3] == A[0]:
                go(j[2])
                if j[2] == A[0]:
                    go("")
            for k in range(0, j[1] - 1):
                for c in itertools.product(A, repeat=k):
                    go(j[2] + j[3] + "".join(c))
        else:
            # whatever it is, at each column about where lines are filled
            for x in ["*/", "*/ x", "* /", '\\"', "\n/", "*\n/", " */", " * /", "*\\\"/", "\\\n/", ".x", " .x", " 'x", " -- x", "xxxxxxxxxxxxxxxx", " xxxxxxxxxxxxxxxx */", "\t*/", "\\\\\n", "\n\n", "\n \n", "//", "/*", "/**/", "${x}", "</script>",
                      "\xe9", "\u2028*/", "??/\n/", "%s%n", "\\e", "\\n", "\\u002a/", "\\&", "\n.Sh X", "\n'br", "\n.\\\" x", "@x", "*/*/", "***/", "**/", "/*/"][j[1]::8]:
                for n in list(range(0, 12)) + list(range(40, 84)) if tier == "quick" else range(170):
                    for w in ("y", "y y y y y y "):
                        go((w * 170)[:n] + x)
        acc.sample(repr(j), 1)

    def out(self, env, text, tool):
        r = env.run("ort-" + tool, [a or cgen.share(env) for a in TOOLS[tool]], [], text.encode("utf-8", "surrogateescape"))
        return (r.text if r.status == 0 and not r.crashed else None), r

    def base(self, env, tool):
        b = env.cache.setdefault("f05", {})
        if tool not in b:
            t, r = self.out(env, config(" ", "x"), tool)
            if t is None:
                b[tool] = None
            elif tool == "c-manpage":
                b[tool] = self.man(t, " ")
            else:
                marks = []
                w, c = lex(t, KIND[tool], None, marks)
                n = [sum(flat(x).count(B + str(i) + "b" + E) for x in c) for i in range(N)]
                b[tool] = (self.strings(w), n, (t, w, c, marks))
        return b[tool]

    def strings(self, ws):
        return [w[0] + w[0] if w[0] in "\"'`" else w for w in ws]

    def man(self, t, text):
        """(requests, number of times that each text is there)"""
        req = [l for l in t.split("\n") if l[:1] in (".", "'")]
        s = flat(re.sub(r"\\(e|\(rs|&|-|\(aq|\(dq|\(ha|\(ti)", lambda m: {"e": "\\", "(rs": "\\", "&": "", "-": "-", "(aq": "'", "(dq": '"', "(ha": "^", "(ti": "~"}[m.group(1)],
                        "\n".join(l for l in t.split("\n") if l[:1] not in (".", "'"))))
        return req, [s.count(flat(B + str(i) + "b" + text.replace('\\"', '"') + E)) for i in range(N)]

    def judge(self, env, case):
        t = case["text"]
        lab = t if t.strip() else "x" + t
        conf = config(t, lab, case["bare"])
        if ref.accepts([("a.ort", conf)])[0] is None:
            return []
        for tool in TOOLS:
            b = self.base(env, tool)
            o, r = self.out(env, conf, tool)
            if b is None or o is None:
                yield "fail:" + tool, "ort-%s fails (%r) with comments %r" % (tool, r.err[-200:], t)
                continue
            want = flat(t.replace('\\"', '"'))
            if tool == "c-manpage":
                m = self.man(o, t)
                if m[0] != b[0] and (t.strip() or not case["bare"]):
                    yield "escape:" + tool, "ort-%s: comments %r make requests of roff: %r" % (tool, t, [x for x in m[0] if x not in b[0]][:3])
                elif not case["bare"] and m[1] != b[1]:
                    i = next(i for i in range(N) if m[1][i] != b[1][i])
                    yield "text:" + tool, "ort-%s: comment %d of %r isn't there as written: %r" % (tool, i, t, o[o.find(B + str(i) + "b"):][:200])
                continue
            if o == b[2][0]:
                continue
            w, c = lex(o, KIND[tool], b[2])
            if self.strings(w) != b[0]:
                s = self.strings(w)
                k = next((k for k, (x, y) in enumerate(zip(s, b[0])) if x != y), min(len(s), len(b[0])))
                yield "escape:" + tool, "ort-%s: %s %r gets out of comments: %r instead of %r" % (tool, "comments or labels", t, " ".join(w[k:k + 8]), " ".join(b[0][k:k + 8]))
            elif not case["bare"]:
                cc = [flat(x) for x in c]
                got = [sum(x.count(B + str(i) + "b" + want + E) for x in cc) for i in range(N)]
                if got != b[1] and "*/" not in flat(t):
                    i = next(i for i in range(N) if got[i] != b[1][i])
                    yield "text:" + tool, "ort-%s: comment %d of %r isn't there as written: %r" % (tool, i, t, o[o.find(B + str(i) + "b"):][:200])


if __name__ == "__main__":
    core.main(F05())
