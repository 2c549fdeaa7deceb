"""W03: the page of audits shows what the role may do and reach."""
import collections, html.parser, itertools, os
import core, node, r01, ref

VOID = {"meta", "link", "input", "br"}
KINDS = [("searches", "get", "search"), ("counts", "count", "count"), ("iterates", "iterate", "iterate"), ("lists", "list", "list"), ("updates", "update", "update"), ("deletes", "delete", "delete")]
DOCS = ["x", "<b>&amp;</b>", "\\\\ x", "a\nb", "\\\"q\\\"", "</script>", "\xe9\u2028"]


class Tree(html.parser.HTMLParser):
    def __init__(self, text):
        super().__init__(convert_charrefs=True)
        self.root = ["html", "", {}, []]
        self.st = [self.root]
        self.feed(text)

    def handle_starttag(self, tag, attrs):
        a = {k: v or "" for k, v in attrs}
        n = [tag, " ".join(a.pop("class", "").split()), a, []]
        self.st[-1][3].append(n)
        if tag not in VOID:
            self.st.append(n)

    def handle_startendtag(self, tag, attrs):
        a = {k: v or "" for k, v in attrs}
        self.st[-1][3].append([tag, " ".join(a.pop("class", "").split()), a, []])

    def handle_endtag(self, tag):
        for i in range(len(self.st) - 1, 0, -1):
            if self.st[i][0] == tag:
                del self.st[i:]
                break

    def handle_data(self, d):
        if len(self.st) > 1:
            self.st[-1][3].append(d)


def has(n, c):
    return c in n[1].split()


def visible(n):
    """All that's shown: elements none of whose own or parents' classes hide."""
    if isinstance(n, str) or has(n, "hide"):
        return
    yield n
    for k in n[3]:
        yield from visible(k)


def everything(n):
    if not isinstance(n, str):
        yield n
        for k in n[3]:
            yield from everything(k)


def text(n):
    return n if isinstance(n, str) else "" if has(n, "hide") else "".join(text(k) for k in n[3])


def kids(n):
    return [k for k in n[3] if not isinstance(k, str)]


def byid(n, i):
    return next((x for x in everything(n) if x[2].get("id") == i), None)


def cls(n, c):
    return [x for x in visible(n) if has(x, c)]


def texts(n, c):
    return [text(x) for x in cls(n, c)]


class W03(core.Check):
    id = "W03"
    rule = ("state = a page: audit.html with audit.js and what ort-audit-json -s prints for a role of a configuration, over R01's configurations (role forests, statements of roles on a structure and on those in it, noexport) and every "
            "role, and documentation of special characters; each link of each page is followed, in order and in reverse")
    assumptions = ["the page is judged by the class that hides elements, not by the rest of its style sheet", "the order in which things are listed isn't judged", "whether password fields are shown as exported isn't judged"]

    def setup(self, bld, tier):
        with open(os.path.join(bld.src, "audit.html")) as f:
            t = Tree(f.read()).root
        self.tree = next(k for k in everything(t) if k[0] == "body")
        with open(os.path.join(bld.src, "audit.js")) as f:
            self.js = f.read()
        env, seen, self.pages = core.Env(bld), set(), []
        for t, w in self.cases(tier):
            r = env.run("ort-audit-json", ["-s", "-r", w, "a.ort"], [("a.ort", t)])
            if r.status == 0 and r.out not in seen:
                seen.add(r.out)
                self.pages.append((t, w))
        env.close()

    def jobs(self, tier):
        return [("page", i) for i in range(32)]

    def cases(self, tier):
        T = tier != "quick"
        for d in DOCS:
            for k in ("a role", "find", "up", "x it", "A role"):
                for w in ("ra", "rb"):
                    yield r01.cfg(r01.FORESTS[1], [r01.A[1]], "", "", ("", "")).replace(k, d), w
        # documentation of some
        ops = ["list x: name a%d", "search id, x: name b%d", "count x: name c%d", "iterate x: name d%d", "update x: id: name e%d", "delete id: name f%d"]
        for m in range(1 << 3):
            o = "".join(x % i + (" comment \"about %s%d\"" % (x[:3], i) if m >> i & 1 else "") + ";\n" for x in ops for i in range(3))
            for f in range(1 << 2):
                yield ("roles { role r%s; };\nstruct s {\nfield id int rowid;\nfield x int%s;\nfield y int%s;\ninsert;\n%sroles r { all; };\n};\n"
                       % (" comment \"role\"" if f == 3 else "", " comment \"an x\"" * (f & 1), " comment \"a y\"" * (f >> 1), o)), "r"
        # names that objects have
        for n in ("constructor", "toString", "hasOwnProperty", "proto", "length", "valueOf"):
            t = "roles { role %s; role r; };\nstruct %s { field %s int rowid; list: name %s; insert; delete %s: name %s; roles %s { all; }; };\n" % ((n,) * 7)
            for w in (n, "r"):
                yield t, w
        # nothing at all
        yield "roles { role r; };\nstruct s { field id int rowid; };\n", "r"
        A, BM, CT, FL = r01.A, r01.BM, r01.CT, r01.FLAGS
        for fo in r01.FORESTS:
            for i in range(len(A)):
                al = [(A[i],)] + [(A[i], A[k]) for k in range(1, len(A)) if i]
                for b, c, fl in itertools.product(BM, CT if T else CT[:2] + CT[2:][i % 2:][:1], FL if T else FL[i % 2::2]):
                    for w in r01.WHO:
                        yield r01.cfg(fo, al[0], b, c, fl), w
                for x in al[1:]:
                    for b, c in (itertools.product(BM, CT) if T else [("", "")]):
                        for w in r01.WHO:
                            yield r01.cfg(fo, x, b, c, ("", "")), w

    def job(self, env, acc, tier, j):
        # the pages that there are: all of them are found first
        for n, (t, w) in enumerate(self.pages):
            if n % 32 == j[1]:
                acc.state(t + w)
                acc.n["transitions"] += 2
                self.check(env, acc, {"text": t, "role": w})
                acc.sample({"role": w, "text": t[:300]}, 1)

    def judge(self, env, case):
        t, role = case["text"], case["role"]
        show = "role %s; %s" % (role, t)
        nd = node.get(env, "audit.js")
        if not env.cache.get("w03") is nd:
            nd.call(op="audit_load", tree=self.tree, js=self.js)
            env.cache["w03"] = nd
        c, e = ref.accepts([("a.ort", t)])
        r = env.run("ort-audit-json", ["-s", "-r", role, "a.ort"], [("a.ort", t)])
        if c is None or role.lower() not in c.roles:
            return
        want = r01.jexpect(c, role.lower())
        # as a browser reads the script
        o = nd.call(op="audit_run", scripts=[r.text], reverse=True)
        if "error" in o:
            yield "fails", "the page fails: %s; %s" % (o["error"], show)
            return
        if o["logs"]:
            yield "logs", "the page misses something: %s; %s" % (o["logs"][:3], show)
        P = o["page"]
        fns, fields = want["functions"], want["fields"]

        def doc(root, d, what):
            a, b = texts(root, what + "-doc"), cls(root, what + "-nodoc")
            if d is None and (a or not b) or d is not None and (b or a != [d]):
                return "documentation is %r, %s, instead of %r" % (a, "with its absence" if b else "", d)

        # the page
        if [i for i in ("kwbp-parsed", "kwbp-parsing", "kwbp-parseerr") if byid(P, i) in list(visible(P))] != ["kwbp-parsed"]:
            yield "shown", "the results aren't shown; " + show
            return
        if text(byid(P, "kwbp-audit-role")) != want["role"]:
            yield "role", "role is %r; %s" % (text(byid(P, "kwbp-audit-role")), show)
        V = {x[2].get("id") for x in visible(P)}
        if ("kwbp-audit-role-doc" in V) != (want["doc"] is not None) or ("kwbp-audit-role-nodoc" in V) == (want["doc"] is not None) or want["doc"] is not None and text(byid(P, "kwbp-audit-role-doc")) != want["doc"]:
            yield "roledoc", "the role's documentation is %r; %s" % (text(byid(P, "kwbp-audit-role-doc")), show)
        if "kwbp-aside" in V:
            yield "aside", "something is already shown aside; " + show
        # structures
        sec = kids(byid(P, "kwbp-audit-access-list"))
        got = {}
        for x in sec:
            n = set(texts(x, "audit-name"))
            if len(n) != 1 or min(n) in got:
                yield "name", "a structure is called %r; %s" % (n, show)
                return
            got[min(n)] = x
        exp = {a["name"]: a["access"] for a in want["access"]}
        if set(got) != set(exp):
            yield "structures", "structures are %s instead of %s; %s" % (sorted(got), sorted(exp), show)
            return
        names = [min(set(texts(x, "audit-name"))) for x in sec]
        for n, x in got.items():
            a = exp[n]
            w = "%s of role %s" % (n, role)

            def bad(k, g, e):
                return "structure:" + k, "%s of %s are %r instead of %r; %s" % (k, w, g, e, show)
            for k, g, e in [("queries", texts(x, "audit-queries-count"), len(a["get"]) + len(a["list"]) + len(a["count"]) + len(a["iterate"])),
                            ("updates", texts(x, "audit-updates-count"), len(a["update"])), ("deletes", texts(x, "audit-deletes-count"), len(a["delete"]))]:
                if not g or set(g) != {str(e)}:
                    yield bad("numbers of " + k, g, e)
            ins = texts(x, "audit-insert-function")
            if ins != ([a["insert"]] if a["insert"] else []) or bool(cls(x, "audit-insert")) != bool(a["insert"]) or bool(cls(x, "audit-noinsert")) == bool(a["insert"]):
                yield bad("inserts", ins, a["insert"])
            for name, key, fn in KINDS:
                g = sorted(texts(x, "audit-%s-function" % fn))
                if g != sorted(a[key]):
                    yield bad(name, g, a[key])
                if bool(cls(x, "audit-no" + name)) != (not a[key]):
                    yield bad("absence of " + name, not a[key], not not a[key])
            if bool(cls(x, "audit-nodata")) == ("data" in a) or bool(cls(x, "audit-data")) != ("data" in a) or bool(cls(x, "audit-accessfrom")) != ("data" in a):
                yield bad("reach", bool(cls(x, "audit-data")), "data" in a)
            pct = ["0%"]
            if "data" in a:
                g = {}
                for l in cls(x, "audit-data-list"):
                    for k in kids(l):
                        v = texts(k, "audit-data-field-name")
                        g[v[0] if v else None] = (len(v), bool(cls(k, "audit-data-field-export")), bool(cls(k, "audit-data-field-noexport")))
                e = {}
                for f in a["data"]:
                    p = fields["%s.%s" % (n, f)]["export"]
                    if p is None and f in g:
                        p = g[f][1]
                        if not a["exportable"]:
                            p = False
                    p = bool(p and a["exportable"])
                    e[f] = (1, p, not p)
                if g != e:
                    yield bad("fields", sorted(g.items()), sorted(e.items()))
                if a["exportable"] and all(fields["%s.%s" % (n, f)]["export"] is not None for f in a["data"]):
                    y = sum(1 for f in a["data"] if fields["%s.%s" % (n, f)]["export"])
                    q = 100.0 * y / len(a["data"])
                    pct = ["%d%%" % z for z in {int(q), int(q + 0.5), round(q)}]
                elif a["exportable"]:
                    pct = None
                by = collections.defaultdict(list)
                for fn, ex, path in a["accessfrom"]:
                    by[fn].append((path, ex))
                g = sorted((v, p, bool(cls(k, "audit-data-accessfrom-exporting"))) for l in cls(x, "audit-accessfrom-list") for k in kids(l)
                           for v, p in zip(texts(k, "audit-data-accessfrom-function"), texts(k, "audit-data-accessfrom-path")))
                e = sorted((fn, str(len(v)), any(z[1] for z in v)) for fn, v in by.items())
                if g != e:
                    yield bad("origins", g, e)
            g = set(texts(x, "audit-data-count"))
            if pct is not None and (len(g) != 1 or min(g) not in pct):
                yield bad("share of exported fields", sorted(g), pct)
            none = not ("data" in a or a["insert"] or any(a[k[1]] for k in KINDS))
            if has(x, "noop") != none:
                yield bad("greyness", has(x, "noop"), none)
        # operations
        for name, key, fn in KINDS + [("inserts", "insert", "insert")]:
            e = sorted(f for f, v in fns.items() if v["type"] == key)
            s = byid(P, "kwbp-audit-byoperation-" + name)
            g = sorted(texts(byid(P, "kwbp-audit-%s-list" % name), "audit-%s-function" % fn))
            if g != e:
                yield "operations:" + name, "%s are %s instead of %s; %s" % (name, g, e, show)
            if set(texts(P, "audit-function-%s-count" % name)) != {str(len(e))}:
                yield "operations:%s:number" % name, "there are said to be %r instead of %d %s; %s" % (texts(P, "audit-function-%s-count" % name), len(e), name, show)
            if s is not None and has(s, "noop") != (not e) or ("kwbp-audit-no%s" % name in V) != (not e):
                yield "operations:%s:none" % name, "the absence of %s is shown wrongly; %s" % (name, show)
        # links
        if not o["closed"]:
            yield "close", "what's shown aside can't be closed; " + show
        seen = collections.Counter()
        for k in o["clicks"]:
            s = [x for x in cls(k["aside"], "aside-types")]
            kind = next((x[6:-5] for x in k["cls"].split() if x.endswith("-more") and x.startswith("audit-")), None)
            w = "following %r %r%s" % (kind, k["text"].strip(), " in reverse" if k["via"] else "")
            if len(s) != 1:
                yield "link:" + str(kind), "%s: %d things are shown aside; %s" % (w, len(s), show)
                continue
            s = s[0]
            i = s[2].get("id")
            if kind == "data-field":
                n = names[k["owner"]]
                f = n + "." + k["text"].strip()
                if i != "kwbp-aside-data-field-data" or texts(s, "audit-data-field-fullname") != [f]:
                    yield "link:field", "%s of %s: %r is shown; %s" % (w, n, text(s), show)
                    continue
                d = doc(s, fields[f]["doc"], "audit-data-field")
                if d:
                    yield "link:field:doc", "%s of %s: %s; %s" % (w, n, d, show)
                p = fields[f]["export"] and exp[n]["exportable"]
                if fields[f]["export"] is not None and (bool(cls(s, "audit-data-field-export")), bool(cls(s, "audit-data-field-noexport"))) != (bool(p), not p):
                    yield "link:field:export", "%s of %s: shown as %sexported; %s" % (w, n, "not " if p else "", show)
            elif kind == "accessfrom":
                n = names[k["owner"]]
                f = k["text"].strip()
                if i != "kwbp-aside-function-accessfrom" or texts(s, "audit-accessfrom-function") != [f]:
                    yield "link:accessfrom", "%s of %s: %r is shown; %s" % (w, n, text(s), show)
                    continue
                d = doc(s, fns[f]["doc"], "audit-accessfrom")
                if d:
                    yield "link:accessfrom:doc", "%s of %s: %s; %s" % (w, n, d, show)
                g = sorted(text(l) for u in cls(s, "audit-accessfrom-paths") for l in kids(u))
                e = sorted((p + (" (exporting)" if ex else "")) if p else "(self)" for fn, ex, p in exp[n]["accessfrom"] if fn == f)
                if g != e:
                    yield "link:accessfrom:paths", "%s of %s: paths are %r instead of %r; %s" % (w, n, g, e, show)
            else:
                f = k["text"].strip()
                if f not in fns or {"get": "search"}.get(fns[f]["type"], fns[f]["type"]) != kind or i != "kwbp-aside-function-" + kind or texts(s, "audit-%s-function" % kind) != [f]:
                    yield "link:function", "%s: %r is shown; %s" % (w, text(s), show)
                    continue
                if kind != "insert":
                    d = doc(s, fns[f]["doc"], "audit-" + kind)
                    if d:
                        yield "link:function:doc", "%s: %s; %s" % (w, d, show)
            if not k["via"]:
                seen[kind] += 1
        nf = sum(1 for v in fns.values())
        e = {"data-field": 2 * sum(len(a.get("data", ())) for a in exp.values()), "accessfrom": sum(len({z[0] for z in a.get("accessfrom", ())}) for a in exp.values())}
        for kind, n in e.items():
            if seen[kind] < n // (2 if kind == "data-field" else 1):
                yield "links", "%d of %d links for %s; %s" % (seen[kind], n, kind, show)


if __name__ == "__main__":
    core.main(W03())
