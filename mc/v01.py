"""V01: the validators of the Node module accept exactly what the type and the
limits of the field allow."""
import datetime, itertools, json, math, re
import core, node, nodeq, q, ref

I64 = 1 << 63
SKIP = object()
HEAD = "enum en { item a 1; item b -4; item c 10; };\nbits bi { item p 0; item q 3; };\n"
INTS = sorted({s * (1 << k) + d for k in (0, 2, 5, 6, 31, 32, 53, 63, 64) for s in (1, -1) for d in (-2, -1, 0, 1, 2)} |
              {100, 126, 127, 128, 129, 1000, 18446744073709551616 * 3})
WS = [("", ""), (" ", ""), ("", " "), ("\t\n", " "), ("\u00a0", "")]
TEXTS = ["", "a", "ab", "abc", "abcd", "abcde", "\u00e9", "a\u00e9", "\u00e9\u00e9", "\u20ac", "\U0001f600", "a\U0001f600", " ab ", "ab\n", "'", "\"\\", "$x", "0", "null", "undefined", "\u00e9\u00e9\u00e9", "a" * 127, "a" * 128, "a" * 129,
         "\u00e9" * 64, "\u20ac" * 43]
EMAILS = ["a@b.cd", " a@b.cd ", "A@B.CD", "a@b", "@b.cd", "a b@c.de", "", " ", "a@b.cd,c@d.ef", "ab@c.de", "abc@d.ef", "a@b.cde\n", "a.b+c@d-e.fgh", "a@@b.cd", "a@b.c", "<a@b.cd>", "a" * 60 + "@b.cd"]
DATES = ["%04d-%02d-%02d" % d for d in itertools.product((0, 1, 1900, 1969, 1970, 2000, 2023, 2024, 2038, 9999), range(14), (0, 1, 2, 28, 29, 30, 31, 32, 99))]
DATES += ["1970/01/01", "1970-1-1", "70-01-01", "01-01-1970", "1970-01-01 ", " 1970-01-02", "19700101", "", " ", "a", "1970-0a-01", "0", "1970", "1970-01", "-1970-01-01", "+1970-01-01", "1970-01-01-01", "1970--01-01"]


def strings(alpha, n):
    for k in range(n + 1):
        for c in itertools.product(alpha, repeat=k):
            yield "".join(c)


def inputs(t, tier):
    """Encoded values: ["u"] | ["n"] | ["s", text] | ["i", int] | ["r", float] | ["b", hex]"""
    out = [["u"], ["n"]]
    n = 3 if tier == "quick" else 4
    if t in ("int", "bit", "epoch", "bits"):
        out += [["s", a + str(i) + b] for i in INTS for a, b in WS] + [["i", i] for i in INTS]
        out += [["s", s] for s in strings("019-+. a", n)]
        out += [["s", s % i] for i in (0, 5, 63, I64 - 1) for s in ("+%d", "00%d", "%d.0", "%de0", "%dn", "%d x", "- %d", "%d,%d" [:2] + ",1", "--%d")]
        out += [["r", x] for x in (0.0, 1.0, 1.5, -1.0, 63.0, 65.0, 2.0 ** 53, 2.0 ** 63, 2.0 ** 70, 1e300)]
    elif t == "real":
        out += [["s", a + s + b] for s in ("0", "1", "0.5", "-0.5", "1.25", "0.1", "0.0000001", "0.0000002", "123456789012345678", "1.0000000000000002", "-1", "99999.99", "0.30000000000000004", "2.5000001", "2.5000002")
                for a, b in WS]
        out += [["s", s] for s in strings("01-+. a", n)]
        out += [["r", x] for x in (0.0, 0.5, -0.5, 1.25, 0.1, 2.5, 2.5000001, 1e15)] + [["i", 3], ["i", -1]]
    elif t in ("text", "password"):
        out += [["s", s] for s in TEXTS] + [["s", s] for s in strings("a \u00e9'\n\u20ac", n)] + [["i", 5], ["i", -100], ["r", 1.5]]
    elif t == "email":
        out += [["s", s] for s in EMAILS] + [["s", s] for s in strings("a@. ", n)] + [["i", 5], ["r", 1.5]]
    elif t == "blob":
        out += [["s", s] for s in TEXTS] + [["b", s.encode().hex()] for s in TEXTS] + [["b", "00ff80"], ["b", "ff"]]
    elif t == "date":
        out += [["s", s] for s in DATES] + [["s", s] for s in strings("01-/ ", n)] + [["i", 5], ["r", 1.5], ["i", 0]]
    elif t == "enum":
        out += [["s", s] for s in strings("014-a+ ", n)] + [["i", i] for i in (1, -4, 4, 10, 0)] + [["r", 1.0], ["r", 1.5]]
    return out


def limits(t, tier):
    """Limit statements of a field of the type."""
    if t in ("bits", "enum"):
        return [()]
    V = {"int": ["0", "63", "-5", "9223372036854775807", "-9223372036854775807", "128"], "bit": ["0", "5", "63"], "epoch": ["0", "-1", "2147483648", "9223372036854775807"],
         "real": ["0", "0.5", "0.0000001", "-0.5", "2.5000001", "123456789012345678.0"], "date": ["0", "86400", "951782400", "-86400"],
         "text": ["0", "1", "2", "3", "128"], "password": ["1", "4"], "email": ["6", "7", "8"], "blob": ["0", "2", "3", "4"]}[t]
    one = [(o, v) for o in ("ge", "le", "gt", "lt", "eq") for v in V]
    out = [()] + [(x,) for x in one]
    two = list(itertools.combinations(one, 2)) if tier != "quick" else [(a, b) for a, b in itertools.combinations(one, 2) if a[0] in ("ge", "gt") and b[0] in ("le", "lt")]
    return out + two


def value(t, x):
    """The value of an input by type, before limits: None if not valid, SKIP if
    not said."""
    k = x[0]
    if k in "un":
        return None
    v = x[1]
    s = str(v) if k != "r" else jsnum(v)
    if k == "b" and t != "blob":
        return SKIP
    if t in ("int", "bit", "epoch", "bits"):
        m = re.fullmatch(r"\s*([+-]?[0-9]+)\s*", s)
        if k == "r":
            if v != math.floor(v):
                return None
            n = int(v)
        elif m:
            n = int(m.group(1))
        elif re.fullmatch(r"\s*[+-]?0[xob][0-9a-f]*\s*", s, re.I):
            return SKIP
        else:
            return None
        if t == "bits":
            if n < -I64 or n >= 2 * I64:
                return None
            return n - 2 * I64 if n >= I64 else n
        if t == "bit":
            return SKIP if n == 64 else n if 0 <= n <= 63 else None
        return n if -I64 <= n < I64 else None
    if t == "real":
        if re.fullmatch(r"\s*[+-]?([0-9]+(\.[0-9]+)?|\.[0-9]+)\s*", s):
            return float(s)
        if re.fullmatch(r"\s*[+-]?[0-9]*\.?[0-9]*(e[+-]?[0-9]*)?\s*", s) and re.search("[0-9]", s):
            return SKIP
        return None
    if t in ("text", "password"):
        return s
    if t == "email":
        s = s.strip()
        return s.lower() if re.fullmatch(r"[A-Za-z0-9.!#$%&'*+\/=?^_`{|}~-]+@([A-Za-z0-9]([A-Za-z0-9-]*[A-Za-z0-9])?\.)+[A-Za-z]{2,}", s) else None
    if t == "blob":
        return bytes.fromhex(v) if k == "b" else s.encode() if k == "s" else SKIP
    if t == "enum":
        if s in ("1", "-4", "10"):
            return int(s)
        return SKIP if s.strip() in ("1", "-4", "10") else None
    if t == "date":
        s = s.strip()
        m = re.fullmatch(r"([0-9]{4})-([0-9]{2})-([0-9]{2})", s)
        if not m:
            return SKIP if re.match(r"[0-9]{4}-?[0-9]{2}-?[0-9]{2}[T ]", s) else None
        y, mo, d = map(int, m.groups())
        try:
            return days(y, mo, d) * 86400
        except ValueError:
            return None


def days(y, m, d):
    # years before 1 by the 400 year cycle
    if y == 0:
        return (datetime.date(400, m, d) - datetime.date(1970, 1, 1)).days - 146097
    return (datetime.date(y, m, d) - datetime.date(1970, 1, 1)).days


def jsnum(v):
    if v == math.floor(v) and abs(v) < 1e21:
        return str(int(v))
    return repr(v)


CMP = {"ge": lambda a, b: a >= b, "le": lambda a, b: a <= b, "gt": lambda a, b: a > b, "lt": lambda a, b: a < b, "eq": lambda a, b: a == b}


def expect(t, f, x):
    v = value(t, x)
    if v is None or v is SKIP:
        return v
    if t == "email":
        raw = x[1].strip() if x[0] == "s" else ""
    for o, l in f.limits:
        a = v
        if t in ("text", "password", "email"):
            a = len(v.encode())
        elif t == "blob":
            a = len(v)
        if not CMP[o](a, l):
            return None
    return v


def encx(x):
    k = x[0]
    return {"u": 1} if k == "u" else None if k == "n" else {k: str(x[1]) if k == "i" else x[1]}


class V01(core.Check):
    id = "V01"
    rule = ("state = (declaration of a field, input); transition = one call of its validator on the input; all types, all limits of the menus alone and in pairs, "
            "all strings to the stated length over an alphabet per type plus the boundaries of the types; distinct_nontrivial = distinct (declaration, input)")
    assumptions = ["validator.js is stood in for by a transcription of the functions used", "bit index 64, exponents, and notations with a radix are not judged (the manuals differ or are silent)"]

    TYPES = ["int", "bit", "epoch", "bits bi", "real", "text", "password", "email", "blob", "date", "enum en"]

    def configs(self, tier):
        for t in self.TYPES:
            k = t.split()[0]
            ls = limits(k, tier)
            for i in range(0, len(ls), 12):
                F = []
                for j, l in enumerate(ls[i:i + 12]):
                    F.append("field f%d %s%s %s;" % (j, t, " null" if j % 3 == 2 else "", " ".join("limit %s %s" % x for x in l)))
                yield k, HEAD + "struct foo { field id int rowid; %s };\nstruct bar { field f0 int limit ge 7; };\n" % "\n".join(F)

    def jobs(self, tier):
        return list(range(len(list(self.configs(tier)))))

    def job(self, env, acc, tier, j):
        t, text = list(self.configs(tier))[j]
        xs = inputs(t, tier)
        n = 0
        for key, what, x, name in self.run(env, acc, text, t, xs):
            acc.find(key, what, {"config": text, "t": t, "xs": [x]})
        acc.sample("%s: %d inputs" % (t, len(xs)), 1)

    def run(self, env, acc, text, t, xs):
        cfg, err = ref.accepts([("a.ort", text)])
        if cfg is None:
            raise Exception(err)
        r = env.run("ort-nodejs", ["-v"], [], text.encode())
        sql = env.run("ort-sql", [], [], text.encode())
        n = node.get(env, "ortnode.js")
        m = n.call("mod", src=r.text, sql=sql.text, tables=[])
        if "error" in m or m["diags"]:
            yield "load", "the module does not load: %r; in\n%s" % (str(m)[:500], text), xs[0], ""
            return
        for s in cfg.structs.values():
            for f in s.fields.values():
                ft = f.type
                ys = xs if ft == t or s.name == "foo" and not f.rowid else inputs("int", "quick")[:60]
                name = "%s-%s" % (s.name, f.name)
                o = n.call("valid", calls=[{"name": name, "v": encx(x)} for x in ys])
                if "error" in o:
                    raise Exception(o["error"])
                for x, y in zip(ys, o["out"]):
                    acc.n["evaluations"] += 1
                    acc.state(repr((ft, f.limits, f.null, x)))
                    e = expect(ft, f, x)
                    if e is SKIP:
                        continue
                    got = "?"
                    bad = None
                    if "missing" in y:
                        bad = "is missing"
                    elif "error" in y:
                        bad = "throws %s" % y["error"]
                    else:
                        try:
                            got = None if y["v"] is None or "u" in y["v"] else nodeq.dec(f, y["v"])
                        except nodeq.Bad as b:
                            bad = str(b)
                    if bad is None and (got != e or (got is None) != (e is None) or type(got) is not type(e)):
                        bad = "gives %r" % (got,)
                    if bad is not None:
                        yield ("%s:%s" % (ft, "accepts" if e is None else "refuses" if got is None else "value"),
                               "the validator of %s (%s %s) on %r %s, expected %r; in\n%s" % (name, ft, f.limits, x, bad, e, text), x, name)

    def judge(self, env, case):
        return [(k, w) for k, w, x, name in self.run(env, core.Acc(), case["config"], case["t"], case["xs"])]


if __name__ == "__main__":
    core.main(V01())
