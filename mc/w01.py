"""W01: the classes that ort-javascript generates fill documents as their
manual says."""
import copy, itertools, json
import build, core, node, ref

ROLES = "roles { role ra; role rb; };\n"
ENS = ("enum en { item a 1 jslabel \"A\" jslabel.fr \"Afr\"; item b 2 jslabel.fr \"Bfr\"; item c -3; item d 9 jslabel \"D\"; "
       "isnull jslabel \"nil\" jslabel.fr \"rien\"; };\n"
       "bits bi { item a 0 jslabel \"A\" jslabel.fr \"Afr\"; item b 5 jslabel.fr \"Bfr\"; item c 31; item d 63 jslabel \"D\"; "
       "item g 32 jslabel \"G\"; isnull jslabel \"nil\"; isunset jslabel \"none\" jslabel.fr \"aucun\"; };\n")
UNDEF = ("undef",)

# type: values, each with the text that shows it
VALUES = {
    "int": [(0, "0"), (-1, "-1"), ("9007199254740993", "9007199254740993"), (5, "5"), ("5", "5")],
    "bit": [(0, "0"), (1, "1"), ("1", "1"), (3, "3"), ("-9223372036854775808", "-9223372036854775808"), (-1, "-1"),
            ("-9223372036854775807", "-9223372036854775807"), ("4294967296", "4294967296"), (2147483648, "2147483648"), ("0", "0")],
    "date": [(0, "0"), (86400, "86400"), ("1577836800", "1577836800"), (-86400, "-86400"), ("-62135596800", "-62135596800"),
             (253402214400, "253402214400"), (951782400, "951782400")],
    "epoch": [(0, "0"), (86399, "86399"), ("1609459199", "1609459199"), (-1, "-1"), ("-61851600000", "-61851600000"), (253402300799, "253402300799")],
    "real": [(1.5, "1.5"), (0.1, "0.1"), (-2.25, "-2.25"), (0, "0"), (3, "3")],
    "text": [("", ""), ("a b", "a b"), ("<b>&'\"", "<b>&'\""), ("1", "1"), ("\u00e9", "\u00e9")],
    "email": [("a@b.c", "a@b.c")],
    "enum en": [(1, "1"), ("2", "2"), ("-3", "-3"), (7, "7")],
    "blob": [("AAE=", "AAE=")],
    "password": [("secret", "secret")],
}
VALUES["bits bi"] = VALUES["bit"]
SCALAR = ["text", "value", "value-checked", "enum-select"]
DATES = ["date-text", "date-value"]
KINDS = SCALAR + DATES + ["bits-checked"]


# ---- documents: [tag, classes, attributes, children]

def El(tag, cls="", attrs=None, kids=()):
    return [tag, cls, dict(attrs or {}), list(kids)]


def number(t):
    """Give every element an id."""
    n = [0]

    def go(e):
        if isinstance(e, list):
            if "id" not in e[2]:
                e[2]["id"] = "n%d" % n[0]
                n[0] += 1
            for k in e[3]:
                go(k)
    go(t)
    return t


def desc(e):
    for k in e[3]:
        if isinstance(k, list):
            yield k
            yield from desc(k)


def has(e, c):
    return c in e[1].split()


def having(e, c, inc):
    out = [d for d in desc(e) if has(d, c)]
    return out + [e] if inc and has(e, c) else out


def add(e, c):
    if not has(e, c):
        e[1] = (e[1] + " " + c).strip()


def rem(e, c):
    e[1] = " ".join(x for x in e[1].split() if x != c)


def settext(e, s):
    e[3] = [s] if s != "" else []


def dump(t):
    if isinstance(t, str):
        return t
    kids = []
    for k in map(dump, t[3]):
        if isinstance(k, str) and kids and isinstance(kids[-1], str):
            kids[-1] += k
        elif k != "":
            kids.append(k)
    return [t[0], " ".join(sorted(set(t[1].split()))), dict(t[2]), kids]


def find(t, i):
    for e in itertools.chain([t], desc(t)):
        if e[2].get("id") == i:
            return e


def i64(v):
    n = int(v) & (2 ** 64 - 1)
    return n


def civil(day):
    z = day + 719468
    era, doe = divmod(z, 146097)
    yoe = (doe - doe // 1460 + doe // 36524 - doe // 146096) // 365
    doy = doe - (365 * yoe + yoe // 4 - yoe // 100)
    mp = (5 * doy + 2) // 153
    m = mp + 3 if mp < 10 else mp - 9
    return yoe + era * 400 + (m <= 2), m, doy - (153 * mp + 2) // 5 + 1


class Ref:
    """What the manual says should happen."""

    def __init__(self, cfg, lang=""):
        self.c, self.lang, self.calls = cfg, lang, []

    def label(self, labels):
        """The label for the document's language; labels may lack."""
        for k in (self.lang, None, "_default", ""):
            if k in labels and (k or k is None or k == ""):
                return labels[k].replace('\\"', '"')
        return ""

    def text(self, f, v):
        for a, t in VALUES.get(f.type if f.type not in ("enum", "bits") else f.type + " " + f.sub, []):
            if a == v and type(a) == type(v):
                return t
        return str(v)

    def call(self, custom, key, e, v):
        if custom is None:
            return
        for k, tags in custom:
            if k == key:
                for t in tags:
                    if isinstance(t, str):
                        self.calls.append([t, e[2].get("id"), key, {"undef": 1} if v is UNDEF else v])
                    else:
                        self.fmt(t[0], e, key, v)

    def fill(self, s, e, o, inc, custom):
        st = self.c.structs[s]
        for f in st.fields.values():
            if f.type == "password" or f.noexport or f.name not in o:
                continue
            v = o[f.name]
            n = s + "-" + f.name
            null = f.null or f.type == "struct" and st.fields[f.sub].null
            if null:
                for e2 in having(e, "%s-has-%s" % (s, f.name), inc):
                    (add if v is None else rem)(e2, "hide")
                for e2 in having(e, "%s-no-%s" % (s, f.name), inc):
                    (rem if v is None else add)(e2, "hide")
            if f.type in ("bit", "bits"):
                for e2 in having(e, n + "-bits-checked", inc):
                    e2[2].pop("checked", None)
                    a = e2[2].get("value", "")
                    if v is None or not a.isdigit() or not 0 <= int(a) <= 64:
                        continue
                    if (i64(v) >> (int(a) - 1) & 1) if int(a) else not i64(v):
                        e2[2]["checked"] = "checked"
            if v is not None:
                if f.type == "struct":
                    for e2 in having(e, n + "-obj", inc):
                        self.fill(st.fields[f.sub].ref[0], e2, v, False, custom)
                else:
                    t = self.text(f, v)
                    if f.type in ("date", "epoch"):
                        d = "%04d-%02d-%02d" % civil(int(v) // 86400)
                        for e2 in having(e, n + "-date-value", inc):
                            e2[2]["value"] = d
                        for e2 in having(e, n + "-date-text", inc):
                            settext(e2, d)
                    for e2 in having(e, n + "-enum-select", inc):
                        for op in desc(e2):
                            if op[0] == "option":
                                op[2].pop("selected", None)
                                if op[2].get("value", "".join(x for x in op[3])) == t:
                                    op[2]["selected"] = "selected"
                    for e2 in having(e, n + "-text", inc):
                        settext(e2, t)
                    for e2 in having(e, n + "-value", inc):
                        e2[2]["value"] = t
                    for e2 in having(e, n + "-value-checked", inc):
                        e2[2].pop("checked", None)
                        if e2[2].get("value") == t:
                            e2[2]["checked"] = "checked"
            self.call(custom, n, e, v)
        self.call(custom, s, e, o)

    def fmt(self, cls, e, name, v):
        es = [e] if name is None else having(e, name + "-label", False)
        en = self.c.enums.get(cls)
        x = en or self.c.bits[cls]
        if v is None or v is UNDEF:
            t, mark = self.label(x.isnull), "ort-null"
        elif en:
            mark = None
            t = "".join(self.label(i.labels) for i in x.items if str(i.value) == str(v))
        elif i64(v) == 0:
            t, mark = self.label(x.isunset), "ort-unset"
        else:
            mark = None
            t = ", ".join(l for l in (self.label(i.labels) for i in x.items if i64(v) >> i.value & 1) if l)
        for e2 in es:
            if mark:
                add(e2, mark)
            settext(e2, t)

    def step(self, root, st):
        args = [find(root, a["el"]) if isinstance(a, dict) else a for a in st["args"]]
        if st.get("stat"):
            return self.fmt(st["cls"], *args)
        s, fn, o, custom = st["cls"], st["fn"], st["obj"], st.get("custom")
        e = args[0]
        if fn in ("fill", "fillInner"):
            if isinstance(o, list):
                o = o[0] if o else None
            if e is not None and o is not None:
                self.fill(s, e, o, fn == "fill", custom)
        elif fn in ("fillByClass", "fillInnerByClass"):
            if isinstance(o, list):
                o = o[0] if o else None
            if e is not None and o is not None:
                for e2 in having(e, args[1], fn == "fillByClass"):
                    self.fill(s, e2, o, fn == "fillByClass", custom)
        elif fn == "fillArrayByClass":
            for e2 in having(e, args[1], True) if e is not None else []:
                self.array(s, e2, o, custom)
        else:
            l = [] if o is None else o if isinstance(o, list) else [o]
            self.array(s, e, o, custom)
            if fn == "fillArrayOrHide" and args[1] is not None:
                (rem if l else add)(args[1], "hide")
            if fn == "fillArrayOrShow" and args[1] is not None:
                (add if l else rem)(args[1], "hide")

    def array(self, s, e, o, custom):
        if e is None:
            return
        l = [] if o is None else o if isinstance(o, list) else [o]
        kids = [k for k in e[3] if isinstance(k, list)]
        if not kids or not l:
            return add(e, "hide")
        rem(e, "hide")
        e[3] = []
        for x in l:
            k = copy.deepcopy(kids[0])
            e[3].append(k)
            self.fill(s, k, x, True, custom)


def grouped(calls):
    g = {}
    for c in calls:
        g.setdefault(json.dumps(c[1:4], sort_keys=True), []).append(c[0])
    return g


def own(key, e):
    """What a callback of that key may count on."""
    if "-" not in key:
        return e
    a, b = key.split("-")
    return [d[:3] + [d[3] if not any(isinstance(k, list) for k in d[3]) else 0] for d in [e] + list(desc(e))
            if any(c.startswith(key + "-") or c in (a + "-has-" + b, a + "-no-" + b) for c in d[1].split())]


# ---- documents to fill

def marker(kind, field, show, pre):
    """Elements having the class of a kind, some with a state already."""
    c = "foo-%s-%s" % (field, kind)
    if kind in ("text", "date-text"):
        return [El("p", c, {}, ["old" if pre else ""]), El("b", "x %s y" % c, {}, ["o", El("i", "in", {}, ["n"])])]
    if kind in ("value", "date-value"):
        return [El("input", c, {"value": "old"} if pre else {})]
    if kind == "value-checked":
        return [El("input", c, dict({"type": "radio", "value": v}, **({"checked": "checked"} if pre ^ (i & 1) else {})))
                for i, v in enumerate([show, "zz", show + "0", "01", show])]
    if kind == "bits-checked":
        return [El("input", c, dict({"type": "checkbox", "value": v}, **({"checked": "checked"} if pre ^ (i & 1) else {})))
                for i, v in enumerate("0 1 2 6 32 33 63 64 65 -1 x 1.5".split())]
    if kind == "enum-select":
        op = [El("option", "", dict({"value": v}, **({"selected": "selected"} if pre ^ (i & 1) else {})), ["t"])
              for i, v in enumerate([show, "zz", show + "0"])]
        return [El("select", c, {}, op[:1] + [El("optgroup", "", {}, op[1:]), El("option", "", {}, ["1"])])]
    if kind in ("has", "no"):
        return [El("div", "foo-%s-%s %s" % (kind, field, "hide" if p else "z"), {}, ["t"]) for p in (pre, not pre)]
    raise KeyError(kind)


def decoys(field):
    return El("span", "foo-%s-texts" % field, {}, ["d", El("i", "foo-text %s-text bar-%s-text foo-%sk-text FOO-%s-TEXT" % ((field,) * 4), {}, ["d"]),
              El("input", "xfoo-%s-value foo-%s-value-checkedx foo-has-%sx" % (field, field, field), {"value": "old"})])


def trees(kinds, field, show, pre):
    m = [x for k in kinds for x in marker(k, field, show, pre)]
    cp = lambda: copy.deepcopy(m)
    yield El("div", "", {}, cp() + [decoys(field), El("section", "c2", {}, ["t"] + cp())])
    yield El("div", "c1", {}, [El("div", "c2", {}, cp()), El("div", "c1", {}, [El("div", "c1 c2", {}, cp())] + cp()), decoys(field)])
    if len(kinds) == 1:
        for x in m[:2]:
            x = copy.deepcopy(x)
            if kinds[0] not in ("text", "date-text"):
                x[3] = x[3] + cp()
            x[1] += " c1"
            yield x


METHODS = [("fill",), ("fillInner",), ("fillByClass", "c1"), ("fillInnerByClass", "c1"), ("fillByClass", "c2"), ("fillInnerByClass", "c2")]
EXPS = ["", "noexport", "ra", "all"]


def fieldcfg(t, null, exp):
    n = " null" if null else ""
    if t == "struct":
        f = "field kid:bar.id int%s; field k struct kid%s; field kk int;" % (n, " noexport" if exp == "noexport" else "")
    else:
        f = "field k %s%s%s; field kk int;" % (t, n, " noexport" if exp == "noexport" else "")
    r = "roles %s { noexport k; };" % exp if exp in ("ra", "all") else ""
    return (ROLES if r else "") + ENS + "struct bar { field id int rowid; field u text; };\nstruct foo { field id int rowid; " + f + " " + r + " };\n"


LOCALS = ("e s v o i obj custom inc name res elem len row cln fn document vlong list opt inp attrval d year mo day full val vals lang a cls "
          "text attr sub strct fname cannull cb key window el node data item items label labels value values index result args array element "
          "self that event format fill hide").split()
# reserved by ECMAScript or TypeScript, not by C or SQLite
RESERVED = ("abstract any arguments async await bigint boolean class constructor debugger declare eval export extends finally function implements "
            "import infinity instanceof interface let module nan namespace never new number object package private protected prototype "
            "public readonly require require super string symbol this throw try type typeof undefined unknown var with yield of get set").split()
ITEMS = "length name prototype caller arguments constructor format bind call apply tostring".split()


class W01(core.Check):
    id = "W01"
    rule = ("state = generated classes, a document and the calls made on it: every field type x null x noexport x "
            "boundary value x class acted on x placement of elements x method, in one and two calls one after another; "
            "every subset of callbacks; arrays of up to three objects on lists of up to two elements; labels of "
            "every item in every language; nested objects; in two time zones; transition = one call of the generated "
            "code, run in node on a document object model written here, compared with the manual's rules in js01.py")
    assumptions = ["harness/dom.js stands for a browser's document", "run with the TypeScript compiler installed here"]

    def jobs(self, tier):
        j = [("field", t, n, e) for t in list(VALUES) for n in (0, 1) for e in EXPS]
        j += [("struct", n, e) for n in (0, 1) for e in EXPS]
        j += [("array",), ("calls", 0), ("calls", 1), ("enum",), ("bits",), ("nest",), ("statics",), ("names",)]
        j += [("kw", k, i) for k in ("struct", "enum", "bits", "field", "item") for i in range(3)]
        j += [("field", t, 0, "", tz) for t in ("date", "epoch") for tz in ("America/New_York", "Pacific/Kiritimati")]
        return sorted(j, key=lambda x: x[0] in ("field", "struct"))

    def job(self, env, acc, tier, j):
        runs = []
        tz = j[4] if len(j) == 5 else "UTC"
        acc.sample(str(j), 1)
        if j[0] == "field":
            _, t, null, exp = j[:4]
            cfg = fieldcfg(t, null, exp)
            vals = [(UNDEF, "u")] if exp in ("ra", "all") else []
            vals += ([(None, "n")] if null else []) + VALUES[t]
            kinds = [k for k in KINDS if not (t == "blob" and k in SCALAR)]
            sets = [[k] for k in kinds] + ([["has"], ["no"]] if null else []) + [kinds[i:i + 2] for i in range(0, len(kinds) - 1, 2)]
            seqs = [(a,) for a in vals] + ([(a, b) for a in vals for b in vals if a != b] if len(vals) < 8 or tier != "quick" else [])
            for ks in sets:
                for pre in (0, 1):
                    for seq in seqs:
                        if any(v is None for v, _ in seq) and any(k in ("value-checked", "enum-select") for k in ks):
                            continue
                        if len(ks) == 2 and ("text" in ks[1] and "text" in ks[0]):
                            continue
                        for ti, tr in enumerate(trees(ks, "k", seq[-1][1], pre)):
                            tr = number(copy.deepcopy(tr))
                            for m in METHODS if len(seq) == 1 else METHODS[:2]:
                                if len(m) == 2 and ti == 0 and m[1] == "c1":
                                    continue
                                runs.append({"tree": tr, "steps": [
                                    {"cls": "foo", "fn": m[0], "args": [{"el": tr[2]["id"]}] + list(m[1:]),
                                     "obj": dict({"id": 1, "kk": 4}, **({} if v is UNDEF else {"k": v})),
                                     "custom": None} for v, _ in seq]})
        elif j[0] == "struct":
            _, null, exp = j
            cfg = fieldcfg("struct", null, exp)
            vals = ([UNDEF] if exp in ("ra", "all") else []) + ([None] if null else []) + [{"id": 7, "u": "uu"}, {"id": 8, "u": ""}]
            inner = lambda: [El("p", "bar-u-text foo-k-text", {}, ["o"]), El("input", "bar-id-value foo-k-value", {"value": "o"})]
            trs = [El("div", "", {}, [El("div", "foo-k-obj", {}, inner()), El("div", "foo-kk-obj bar-k-obj", {}, inner())] +
                      ([El("p", "foo-has-k", {}), El("p", "foo-no-k hide", {})] if null else [])),
                   El("div", "foo-k-obj bar-u-value c1", {"value": "o"}, inner() + [El("i", "foo-kk-text", {}, ["o"])]),
                   El("div", "c1", {}, [El("div", "foo-k-obj bar-u-text", {}, inner()), El("div", "foo-k-obj", {}, [El("div", "foo-k-obj", {}, inner())])])]
            for tr in trs:
                tr = number(tr)
                for seq in [(a,) for a in vals] + list(itertools.permutations(vals, 2)):
                    for m in METHODS[:4]:
                        runs.append({"tree": tr, "steps": [
                            {"cls": "foo", "fn": m[0], "args": [{"el": tr[2]["id"]}] + list(m[1:]),
                             "obj": dict({"id": 1, "kk": 4, "kid": None if v is None else 7}, **({} if v is UNDEF else {"k": v}))}
                            for v in seq]})
        elif j[0] == "array":
            cfg = fieldcfg("int", 1, "")
            o = [{"id": i, "kk": i + 3, "k": None if i == 1 else i} for i in range(3)]
            objs = [None, [], o[:1], o[:2], o, o[2], [o[1], o[0]]]
            li = lambda i: El("li", "foo-k-text%d foo-id-value" % i if i else "foo-kk-text foo-id-value", {},
                              ["t", El("i", "foo-has-k"), El("i", "foo-no-k hide"), El("b", "foo-k-text", {}, ["o"])] if i else ["o"])
            fns = [("fillArray",), ("fillArrayOrHide", {"el": "sh"}), ("fillArrayOrShow", {"el": "sh"}), ("fillArrayOrHide", None),
                   ("fillArrayOrShow", None), ("fillArrayByClass", "lst"), ("fill",), ("fillInner",), ("fillByClass", "lst"), ("fillInnerByClass", "lst")]
            for n, hid, hid2, ws in itertools.product(range(3), ("", " hide"), ("", "hide"), (0, 1)):
                for first in (0, 1):
                    kids = [li(first), li(1 - first)][:n]
                    if ws:
                        kids = [" "] + [x for k in kids for x in (k, " ")]
                    tr = El("div", "", {"id": "top"}, [El("ul", "lst" + hid, {"id": "ul"}, kids), El("p", "sh " + hid2, {"id": "sh"}, ["none"]),
                                                       El("p", "", {}, ["foo"])])
                    if n and not hid and not hid2:
                        tr[3].append(El("ul", "lst", {"id": "ul2"}, [li(1), li(0)]))
                    tr = number(tr)
                    for fn in fns:
                        byc = fn[0].endswith("ByClass")
                        ex = [{"el": "top" if byc else "ul"}]
                        if fn[1:] in ((), ("lst",)):
                            ex.append(None)
                        for e in ex:
                            if byc and e is None and fn[0] == "fillArrayByClass":
                                pass
                            for seq in [(a,) for a in objs] + (list(itertools.product(objs, repeat=2)) if fn[0].startswith("fillArray") else []):
                                if fn[0] in ("fillArrayOrHide", "fillArrayOrShow"):
                                    # only what both descriptions say
                                    l = seq[-1]
                                    if fn[0] == "fillArrayOrShow" and l and fn[1]:
                                        continue
                                    if fn[0] == "fillArrayOrHide" and l and fn[1] and (hid2 or len(seq) > 1 and not seq[0]):
                                        continue
                                if not fn[0].startswith("fillArray") and seq[0] is None:
                                    continue
                                runs.append({"tree": tr, "steps": [{"cls": "foo", "fn": fn[0], "args": [e] + list(fn[1:]), "obj": a} for a in seq]})
        elif j[0] == "calls":
            null = j[1]
            n = " null" if null else ""
            cfg = (ROLES + ENS + "struct bar { field id int rowid; field u text; };\nstruct foo { field k date%s; field bid:bar.id int%s; "
                   "field b struct bid; field e bits bi%s; field pw password; field z int noexport; roles ra { noexport k; }; };\n" % (n, n, n))
            bar = {"id": 7, "u": "uu"}
            objs = [{"k": 86400, "bid": 7, "b": bar, "e": 1}, {"bid": 7, "b": bar, "e": 0, "pw": "x", "z": 3}]
            if null:
                objs += [{"k": None, "bid": None, "b": None, "e": None}]
            keys = ["foo", "foo-k", "foo-b", "bar", "bar-u", "foo-e", "foo-pw", "foo-z", "foo-zz", "b", "k"]
            tr = number(El("div", "c1", {}, [El("p", "foo-k-date-text", {}, ["o"]), El("p", "foo-k-text", {}, ["o"]), El("div", "foo-b-obj", {}, [
                El("b", "bar-u-text", {}, ["o"])]), El("input", "foo-e-bits-checked", {"value": "1"}), El("i", "foo-has-k"), El("i", "foo-no-k")][:None if null else 4]))
            lst = number(El("ul", "c1", {}, [El("li", "foo-k-date-text", {}, ["o"])]))
            for arrays in (0, 1):
                for r in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
                    for ks in itertools.combinations(keys, r):
                        for nf in (1, 2, 3) if arrays and r == 1 else (1 + arrays,):
                            cu = [[k, ["%s/%d" % (k, i) for i in range(nf)]] for k in ks]
                            for o in objs:
                                for m in METHODS[:4]:
                                    runs.append({"tree": tr, "steps": [{"cls": "foo", "fn": m[0], "args": [{"el": tr[2]["id"]}] + list(m[1:]),
                                                                        "obj": o, "custom": cu, "arrays": arrays}]})
                                runs.append({"tree": lst, "steps": [{"cls": "foo", "fn": "fillArray", "args": [{"el": lst[2]["id"]}],
                                                                     "obj": [o, objs[0]], "custom": cu, "arrays": arrays}]})
        elif j[0] in ("enum", "bits"):
            cls = "en" if j[0] == "enum" else "bi"
            cfg = ENS + ("enum eo { item q jslabel \"it's \\\"x\\\" \\\\n <b>\"; item w; item v jslabel.fr \"only\"; };\n"
                         "bits bo { item q 1 jslabel.fr \"F, 'q'\"; item w 2 jslabel.de \"W\"; item v 3; isunset jslabel.fr \"U\"; };\n"
                         "struct foo { field k %s null; };\n" % (j[0] + " " + cls))
            if j[0] == "enum":
                vals = [("en", [1, "1", 2, "-3", -3, 9, "7", 0, None, ""]), ("eo", [0, "1", 2, 3, None])]
            else:
                masks = [sum(1 << b for b in c) for r in range(6) for c in itertools.combinations((0, 5, 31, 32, 63), r)] + [2, 6, 1 << 62, (1 << 64) - 1]
                sg = lambda m: m - 2 ** 64 if m >> 63 else m
                vals = [("bi", [x for m in masks for x in ([str(sg(m))] + ([sg(m)] if abs(sg(m)) < 2 ** 53 else []))] + [None]),
                        ("bo", [str(x) for x in range(17)] + [None, 0])]
            for cl, vs in vals:
                for v in vs:
                    for lang in ("", "fr", "de", "en"):
                        tr = number(El("div", "foo-k-label", {}, [El("p", "foo-k-label", {}, ["o"]), El("p", "foo-k-labels k-label", {}, ["o", El(
                            "b", "foo-k-label", {}, ["o"])]), El("p", "foo-k", {}, ["o"])]))
                        for name in (None, "foo-k", "nope"):
                            runs.append({"tree": tr, "lang": lang, "steps": [{"cls": cl, "fn": "format", "stat": 1, "args": [{"el": tr[2]["id"]}, name, v]}]})
                        if cl == cls and v != "":
                            for m in METHODS[:2]:
                                for cu in ([["foo-k", [[cl]]]], [["foo-k", ["t", [cl]]]]):
                                    runs.append({"tree": tr, "lang": lang, "steps": [{"cls": "foo", "fn": m[0], "args": [{"el": tr[2]["id"]}], "obj": {"k": v}, "custom": cu}]})
        elif j[0] == "nest":
            cfg = ("struct baz { field id int rowid; field u text; };\nstruct bar { field id int rowid; field u text; field zid:baz.id int null; field z struct zid; };\n"
                   "struct foo { field u text; field b1:bar.id int null; field x struct b1; field b2:bar.id int; field y struct b2; };\n")
            z = {"id": 1, "u": "z"}
            bars = [{"id": 2, "u": "p", "zid": None, "z": None}, {"id": 3, "u": "q", "zid": 1, "z": z}]
            us = lambda: [El("p", "foo-u-text", {}, ["o"]), El("p", "bar-u-text", {}, ["o"]), El("p", "baz-u-text", {}, ["o"])]
            hs = lambda: [El("i", "foo-has-x"), El("i", "foo-no-x"), El("i", "bar-has-z"), El("i", "bar-no-z hide")]
            trs = []
            for a, b in itertools.product(("foo-x-obj", "foo-y-obj", "foo-x-obj foo-y-obj"), ("bar-z-obj", "baz-z-obj", "bar-z-obj bar-u-value", "")):
                trs.append(El("div", "", {}, us() + [El("div", a, {}, us() + [El("div", b, {}, us())])] + hs()))
                trs.append(El("div", a, {}, [El("div", b, {}, us())] + hs()))
                if "x-obj foo-y" not in a:
                    trs.append(El("div", "", {}, [El("div", a, {}, hs()), El("div", b, {}, us())]))
            for tr in trs:
                tr = number(tr)
                for x, y in itertools.product([None] + bars, bars):
                    for m in METHODS[:2]:
                        for cu in (None, [["baz-u", ["t"]], ["bar", ["s"]], ["bar-z", ["r"]]]):
                            if cu and any("x-obj foo-y" in e[1] for e in itertools.chain([tr], desc(tr))):
                                continue
                            runs.append({"tree": tr, "steps": [{"cls": "foo", "fn": m[0], "args": [{"el": tr[2]["id"]}], "custom": cu,
                                                                "obj": {"u": "f", "b1": x and x["id"], "x": x, "b2": y["id"], "y": y}}]})
        elif j[0] == "names":
            # names of which one begins another, and many fields
            cfg = ("struct a { field b int; field bb int; field has text; field no int null; field text text; field value int; field obj text; };\n"
                   "struct aa { field b int; field a text; };\n" +
                   "struct " + "l" * 70 + " { field " + "m" * 60 + " int null; field " + "n" * 35 + " date; field xid:a.b int; };\n").replace(
                       "field xid:a.b int; ", "")
            L, M, N = "l" * 70, "m" * 60, "n" * 35
            cl = ["a-b-text", "a-bb-text", "aa-b-text", "aa-a-text", "a-has-text", "a-has-no", "a-no-no", "a-no-text", "a-text-text", "a-value-text",
                  "a-obj-text", "a-text-value", "a-value-value", "a-obj", "a-text", "%s-%s-text" % (L, M), "%s-has-%s" % (L, M), "%s-no-%s" % (L, M), "%s-%s-date-text" % (L, N)]
            tr = number(El("div", "", {}, [El("p", c, {}, ["o"]) for c in cl]))
            for s, objs in (("a", [{"b": 1, "bb": 2, "has": "h", "no": n, "text": "t", "value": 3, "obj": "o"} for n in (None, 4)]),
                            ("aa", [{"b": 5, "a": "x"}]), (L, [{M: None, N: 86400}, {M: 3, N: 0}])):
                for o in objs:
                    for c in [None] + cl:
                        t2 = copy.deepcopy(tr)
                        if c:
                            t2[1] = c
                        for m in METHODS[:2]:
                            if c and m[0] == "fill" and (c.endswith("-text") and c not in ("a-text",)):
                                t2[3] = []
                            runs.append({"tree": t2, "steps": [{"cls": s, "fn": m[0], "args": [{"el": t2[2]["id"]}], "obj": o}]})
        elif j[0] == "kw":
            _, kind, part = j
            for name in sorted(set(LOCALS + RESERVED + (ITEMS if kind in ("item", "field") else [])))[part::3]:
                b = ENS.replace(" en ", " en9 ").replace(" bi ", " bi9 ")
                tr = number(El("div", "", {}, [El("p", "foo-k-text"), El("div", "foo-b-obj", {}, [El("p", "bar-u-text", {}, ["o"])]), El(
                    "p", "foo-k-label foo-f-label", {}, ["o"]), El("p", "foo-%s-text %s-u-text" % (name, name), {}, ["o"])]))
                top = {"el": tr[2]["id"]}
                if kind == "struct":
                    cfg = ("struct zz { field k int rowid; };\nstruct %s { field id int rowid; field u text; field oid:zz.k int null; field o struct oid; };\n"
                           "struct foo { field k int rowid; field bid:%s.id int null; field b struct bid; };\n" % (name, name))
                    tr[3][1][3][0][1] = name + "-u-text"
                    runs = [{"tree": tr, "steps": [{"cls": "foo", "fn": "fill", "args": [top], "obj": {"k": 1, "bid": 2, "b": {"id": 2, "u": "uu", "oid": None, "o": None}}}]},
                            {"tree": tr, "steps": [{"cls": name, "fn": "fillInner", "args": [top], "obj": {"id": 2, "u": "uu", "oid": 3, "o": {"k": 3}}}]}]
                elif kind == "field":
                    cfg = "struct bar { field id int rowid; field u text; };\nstruct foo { field k int; field bid:bar.id int; field %s struct bid; field n%s int null; };\n" % (name, name)
                    tr[3][1][1] = "foo-%s-obj" % name
                    runs = [{"tree": tr, "steps": [{"cls": "foo", "fn": "fill", "args": [top], "custom": [["foo-" + name, ["t"]]],
                                                    "obj": {"k": 1, "bid": 2, name: {"id": 2, "u": "uu"}, "n" + name: None}}]}]
                else:
                    d = ENS
                    if kind == "item":
                        d = d.replace("item b ", "item %s " % name)
                    cl = {"enum": "en", "bits": "bi"}.get(kind)
                    if cl:
                        d = d.replace(" %s " % cl, " %s " % name)
                    cfg = d + "struct foo { field k enum %s; field f bits %s; };\n" % (name if kind == "enum" else "en", name if kind == "bits" else "bi")
                    runs = []
                    for c2 in ([name] if cl else ["en", "bi"]):
                        runs += [{"tree": tr, "lang": "fr", "steps": [{"cls": c2, "fn": "format", "stat": 1, "args": [top, nm, v]}]}
                                 for nm in (None, "foo-k") for v in (1, 2, "32", None)]
                if ref.accepts([("a.ort", cfg)])[0] is None:
                    acc.n["refused"] += 1
                    continue
                key = "%s:%s" % (kind if kind in ("item", "field") else "name", name)
                for k, w, r in self.many(env, cfg, tz, runs):
                    acc.find(key, w, {"cfg": cfg, "tz": tz, "runs": [r], "key": key})
                for r in runs:
                    acc.state(json.dumps([name, j, r], sort_keys=True))
                acc.n["evaluations"] += len(runs)
                acc.n["transitions"] += len(runs)
            return
        elif j[0] == "statics":
            cfg = ENS + ("enum ez { item a; item b; item n -2147483647; item q 2147483646; item z 0x; };\n".replace("0x", "17") +
                         "bits b1 { item a 0; };\nbits bz { " + " ".join("item i%d %d;" % (i, i) for i in range(64)) + " };\nstruct foo { field k int; };\n")
            self.check(env, acc, {"cfg": cfg, "tz": tz, "statics": 1})
            return
        n = 0
        for i in range(0, len(runs), 400):
            part = runs[i:i + 400]
            for k, w, r in self.many(env, cfg, tz, part):
                acc.find(k, w, {"cfg": cfg, "tz": tz, "runs": [r]})
                n += 1
            if n > 40:
                break
        for r in runs:
            acc.state(json.dumps([j, r], sort_keys=True))
            acc.n["transitions"] += len(r["steps"])
        acc.n["evaluations"] += len(runs)

    def load(self, env, cfg, tz):
        c, e = ref.accepts([("a.ort", cfg)])
        if c is None:
            raise Exception("%s: %s" % (e, cfg))
        r = env.run("ort-javascript", ["a.ort"], [("a.ort", cfg.encode())])
        if r.crashed or r.status:
            return c, None, [("generate", "ort-javascript failed: %r; config: %s" % (r.err[-300:], cfg))]
        nd = node.get(env, "dom.js", tz=tz)
        if env.cache.get("dom" + tz) != (cfg, nd.p):
            o = nd.call("js_load", src=r.out.decode("utf-8"))
            if "error" in o:
                env.cache.pop("dom" + tz, None)
                return c, None, [("load", "the generated code doesn't run: %s; config: %s" % (o["error"], cfg))]
            env.cache["dom" + tz] = (cfg, nd.p)
        return c, nd, []

    def many(self, env, cfg, tz, runs):
        c, nd, bad = self.load(env, cfg, tz)
        if bad:
            return [(k, w, runs[0]) for k, w in bad]
        o = nd.call("js_run", runs=runs)
        if "error" in o:
            raise Exception(o["error"])
        out = []
        for r, g in zip(runs, o["out"]):
            m = Ref(c, r.get("lang", ""))
            t = copy.deepcopy(r["tree"])
            for st in r["steps"]:
                m.step(t, st)
            last = r["steps"][-1]
            show = "%s; document %s%s; config: %s" % (json.dumps(r["steps"]), json.dumps(r["tree"]), " lang=" + r["lang"] if r.get("lang") else "", cfg)
            if "error" in g:
                out.append(("exception", "threw %s; %s" % (g["error"], show), r))
            elif g["tree"] != dump(t):
                out.append(("document:" + last["fn"], "the document is %s, should be %s; %s" % (json.dumps(g["tree"]), json.dumps(dump(t)), show), r))
            elif grouped(g["calls"]) != grouped(m.calls):
                out.append(("callbacks", "callbacks were %s, should be %s; %s" % (json.dumps([x[:4] for x in g["calls"]]), json.dumps(m.calls), show), r))
            elif len(r["steps"]) == 1 and g["calls"]:
                fin = {}
                for e in itertools.chain([t], desc(t)):
                    fin.setdefault(e[2].get("id"), []).append(dump(e))
                for x in g["calls"]:
                    if not any(isinstance(y, list) for k, tags in r["steps"][0]["custom"] for y in tags) and \
                            own(x[2], x[4]) not in [own(x[2], y) for y in fin.get(x[1], [])]:
                        out.append(("early", "callback %s was called before the generic classes were filled: the element was %s; %s" % (
                            x[0], json.dumps(x[4]), show), r))
                        break
        return out

    def statics(self, env, cfg, tz):
        c, nd, bad = self.load(env, cfg, tz)
        if bad:
            return bad
        q, want = [], []
        for e in c.enums.values():
            for i in e.items:
                q.append((e.name, i.name))
                want.append([["string", str(i.value)]])
        for b in c.bits.values():
            for i in b.items:
                m = 1 << i.value
                q.append((b.name, "BITI_" + i.name))
                want.append([["number", i.value]])
                q.append((b.name, "BITF_" + i.name))
                want.append([["Long", m >> 32, m & 0xffffffff], ["string", str(m)]])
            q.append((b.name, "BITI__MAX"))
            want.append([["number", max(i.value for i in b.items) + 1]])
        o = nd.call("js_statics", q=q)["out"]
        return [("static", "%s.%s is %s, should be %s; config: %s" % (a[0], a[1], g, w[0], cfg)) for a, g, w in zip(q, o, want) if g not in w][:3]

    def judge(self, env, case):
        if "statics" in case:
            return self.statics(env, case["cfg"], case["tz"])
        return [(case.get("key", k), w) for k, w, _ in self.many(env, case["cfg"], case["tz"], case["runs"])]


if __name__ == "__main__":
    core.main(W01())
