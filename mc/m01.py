"""M01: the manual page of the generated C describes the generated C."""
import re, shlex
import core, c01, q, ref, space

FLAGS = ["", "v", "j", "J", "vjJ"]
BLOCKS = {"Bl": "El", "Fo": "Fc", "TS": "TE", "Bd": "Ed"}
# What comments consist of: lines that would be requests, macros, escapes, comments.
LINES = [".Sh X", "'Sh X", ".", "'", ".\\\" x", "\\\"q", "a \\\\ b", "\\n(ab", "\\fBx", "\\&.Sh", "a b", "\\\"", ".El", ".TS", "x\\", "\"", " .Sh X", "\t.Sh X", "\\", "Sh", "a\\\"b"]


def norm(t):
    return re.sub(r"\s*(\*+)\s*", lambda m: " " + m.group(1) + " ", re.sub(r"\s+", " ", t)).strip()


def split(decl):
    """The type of a parameter or member, and its name."""
    m = re.match(r"(.*?)(\w+)$", decl.strip(), re.S)
    return norm(m.group(1)), m.group(2)


def protos(header):
    """What a header declares: functions, members of structures, constants."""
    h = re.sub(r"/\*.*?\*/", " ", header, flags=re.S)
    h = "\n".join(x for x in h.replace("\\\n", " ").splitlines() if not x.startswith("#"))
    fns, structs, enums = {}, {}, {}
    for m in re.finditer(r"\benum\s+(\w+)\s*\{(.*?)\}", h, re.S):
        enums[m.group(1)] = [re.match(r"\s*(\w+)", x).group(1) for x in m.group(2).split(",") if x.strip()]
    for m in re.finditer(r"\bstruct\s+(\w+)\s*\{(.*?)\}", h, re.S):
        structs[m.group(1)] = [split(x) for x in m.group(2).split(";") if x.strip() and "TAILQ" not in x]
    i = h.index("__BEGIN_DECLS")
    for x in h[i + 13:h.index("__END_DECLS")].split(";"):
        m = re.match(r"\s*((?:const )?(?:struct \w+|enum \w+|\w+)\s*\**)\s*(\w+)\s*\((.*)\)\s*$", x, re.S)
        if m is None:
            continue
        if "(*" in m.group(3):
            fns[m.group(2)] = (norm(m.group(1)), None)
        else:
            fns[m.group(2)] = (norm(m.group(1)), [split(p)[0] for p in m.group(3).split(",") if p.strip() != "void"])
    return fns, structs, enums


class Man:
    """A manual page: functions of its synopsis and description, structures, enumerations, text, and errors of form."""

    def __init__(self, out):
        self.syn, self.desc, self.structs, self.enums, self.roles = {}, {}, {}, {}, None
        self.errors, self.macros, self.text = [], [], []
        stack, cur, names, table = [], None, [], None
        ft = None
        for n, l in enumerate(out.split("\n")[:-1]):
            if table is not None and not l.startswith(".TE"):
                table.append(l)
                continue
            if l[:1] not in (".", "'"):
                if l == "":
                    self.errors.append("line %d is empty" % (n + 1))
                self.text.append(l)
                continue
            if l.startswith(".\\\""):
                continue
            m = re.match(r"\.([A-Z][A-Za-z]|TS|TE)(?: (.*))?$", l)
            if m is None:
                self.errors.append("line %d is a request: %r" % (n + 1, l))
                continue
            mac, arg = m.group(1), m.group(2) or ""
            if mac != "Pp":
                self.macros.append(l)
            if mac in BLOCKS:
                stack.append(mac)
            elif mac in BLOCKS.values():
                if not stack or BLOCKS[stack.pop()] != mac:
                    self.errors.append("line %d closes what isn't open: %r" % (n + 1, l))
            elif mac in ("Sh", "Ss") and stack:
                self.errors.append("line %d: section within %s" % (n + 1, stack))
            if mac in ("Sh", "Ss"):
                cur = None
            if mac == "Ft":
                ft = norm(arg.strip('"'))
            elif mac == "Fo":
                cur = (ft, [], [])
                if arg in self.syn:
                    self.errors.append("%s is there twice" % arg)
                self.syn[arg] = cur
            elif mac == "Fa" and stack and stack[-1] == "Fo":
                a = arg.strip('"')
                t, name = split(a) if "(" not in a else (a, a)
                cur[1].append(t)
                cur[2].append(name)
            elif mac == "TS":
                table = []
            elif mac == "TE":
                rows = [r.split("\t") for r in table[1:]]
                k = len(table[0].rstrip(".").split())
                for name, t in names:
                    self.desc[name] = (t, k, rows)
                table = None
            elif mac == "Vt" and arg == "enum ort_role":
                cur = self.roles = []
            elif mac == "It":
                w = re.match(r'Ft ("[^"]*"|\S+) Fn (.*)$', arg)
                if w:
                    names = [(x.replace("Fn ", "").strip(), norm(w.group(1).strip('"'))) for x in w.group(2).split(" , ")]
                elif arg.startswith("Vt struct "):
                    cur = self.structs[arg.split()[-1]] = []
                elif arg.startswith("Vt enum "):
                    cur = self.enums[arg.split()[-1]] = []
                elif arg.startswith("Va ") and isinstance(cur, list):
                    cur.append(split(arg[3:]))
                elif arg.startswith("Dv ") and isinstance(cur, list):
                    cur += arg[3:].split(", ")
        if stack:
            self.errors.append("not closed: %s" % stack)
        if table is not None:
            self.errors.append("table not closed")


def texts(c):
    """How a comment reads: its lines without surrounding white-space, and without empty ones."""
    return [x for x in (l.strip() for l in c.replace("\\\"", '"').split("\n")) if x]


def roff(l):
    """How a line of text is printed."""
    out, i = "", 0
    while i < len(l):
        if l[i] == "\\":
            if l[i + 1:i + 2] == "&":
                i += 2
            elif l[i + 1:i + 2] == "e":
                out += "\\"
                i += 2
            else:
                return None
        else:
            out += l[i]
            i += 1
    return out


class M01(core.Check):
    id = "M01"
    rule = ("state = (configuration, options); transition = one page read back, for its form and against what the header of the same configuration declares; with comments, "
            "also against the page without them, and for the text of each: all statements of the menus and their products, pairs of operations, and "
            "comments of up to three of the lines that mean something to mdoc(7), at each place of a configuration that has one")
    assumptions = ["parameters that are functions are not judged; types are those of ort-c-header -s"]
    exhaustive = True

    PLACES = ("roles { role ra%s; };\nenum en { item a%s;%s };\nbits bi { item p 1%s;%s };\nstruct foo { field id int rowid; field x int%s; field y int; list x: name l%s; "
              "update x: id: name u%s; delete x: name d%s; iterate: name it%s; count: name c%s; search id: name s%s; insert;%s };\n")

    def comments(self, tier):
        deep = tier == "thorough"
        nl = ["\n", "\n\n", "\n  "] if deep else ["\n"]
        cs = [a for a in LINES] + [a + n + b for a in LINES for b in LINES for n in nl]
        if deep:
            cs += [a + "\n" + b + "\n" + c for a in LINES for b in LINES[:8] for c in LINES[:8]]
        for c in cs + ["", "\n", " \n "]:
            c = re.sub(r'(?<!\\)"', '\\"', c)
            # not to end the literal
            if (len(c) - len(c.rstrip("\\"))) % 2 or c.endswith("\\"):
                c += " "
            yield c

    def page(self, i, c):
        w = {2: " comment \"%s\";", 4: " comment \"%s\";", 12: " comment \"%s\";"}
        return self.PLACES % tuple((w.get(k, " comment \"%s\"") % c) if i in (k, -1) else "" for k in range(13))

    def jobs(self, tier):
        out = []
        for n, ts in c01.C01().space(tier):
            for i in range(0, len(ts), 100):
                out.append(("c", n, i, i + 100))
        cs = list(self.comments(tier))
        for i in range(0, len(cs), 40):
            out.append(("m", "comments", i, i + 40))
        return out

    def job(self, env, acc, tier, j):
        if j[0] == "c":
            for i, t in enumerate(dict(c01.C01().space(tier))[j[1]][j[2]:j[3]]):
                for fl in ("vjJ", FLAGS[i % 4]):
                    self.go(env, acc, {"config": t, "fl": fl})
        else:
            for i, c in enumerate(list(self.comments(tier))[j[2]:j[3]]):
                for k in [-1] + (list(range(13)) if tier == "thorough" or c in LINES or i % 7 == 0 else []):
                    self.go(env, acc, {"config": self.page(k, c), "fl": "vjJ", "plain": self.page(-2, ""), "comment": c, "times": 13 if k == -1 else 1})
        acc.sample("%s: %d" % (j[1], j[3] - j[2]), 1)

    def go(self, env, acc, c):
        acc.n["evaluations"] += 1
        acc.n["transitions"] += 1
        acc.state(c["config"] + c["fl"])
        for key, what in self.judge(env, c):
            acc.find(key, what, c)

    def judge(self, env, c):
        a = ["-" + c["fl"]] if c["fl"] else []
        t = c["config"].encode("utf-8", "surrogateescape")
        r = env.run("ort-c-manpage", a, [], t)
        h = env.run("ort-c-header", ["-s"] + a, [], t)
        out = []
        if r.status != h.status:
            return [("status", "ort-c-manpage exits with %d, ort-c-header with %d: %r" % (r.status, h.status, r.err[-200:]))]
        if r.status:
            return []
        m = Man(r.text)
        out += [("form", "ort-c-manpage %s: %s" % (c["fl"], e)) for e in m.errors]
        fns, structs, enums = protos(h.text)
        want = {n: v for n, v in fns.items() if not re.search(r"^db_\w+_freeq?$|^db_(trans_\w+|role\w*)$|^valid_|^json_\w+_iterate$", n)}
        for n in sorted(set(want) - set(m.syn)):
            out.append(("synopsis lacks", "ort-c-manpage %s: %s is not in the synopsis" % (c["fl"], n)))
        for n in sorted(set(m.syn) - set(fns)):
            out.append(("synopsis has", "ort-c-manpage %s: the header doesn't declare %s of the synopsis" % (c["fl"], n)))
        for n in sorted(set(m.syn) ^ set(m.desc)):
            out.append(("sections", "ort-c-manpage %s: %s is only in one of synopsis and description" % (c["fl"], n)))
        for n, (ft, types, names) in m.syn.items():
            if n not in fns:
                continue
            if (ft, types) != fns[n] and fns[n][1] is not None:
                out.append(("prototype", "ort-c-manpage: %s of the synopsis is %s(%s), that of the header %s(%s)" % (n, ft, ", ".join(types), fns[n][0], ", ".join(fns[n][1]))))
            if n in m.desc:
                dt, k, rows = m.desc[n]
                if fns[n][1] is None or n.startswith("db_") and n in ("db_logging_data", "db_open", "db_close", "db_open_logging") or n in ("jsmn_init", "jsmn_parse", "jsmn_eq"):
                    continue
                if any(len(x) != k for x in rows if "size" not in " ".join(x)):
                    out.append(("table", "ort-c-manpage: table of %s isn't of %d columns: %r" % (n, k, rows)))
                    continue
                got = [norm(re.sub(r"\(.*", "", x[-1])) for x in rows if not any(y in ("isnull", "notnull") for y in x[:-2])]
                if dt != fns[n][0] or got != [norm(x) for x in fns[n][1]]:
                    out.append(("description", "ort-c-manpage: %s of the description is %s(%s), that of the header %s(%s)" % (n, dt, ", ".join(got), fns[n][0], ", ".join(fns[n][1]))))
        for s, ms in m.structs.items():
            hs = [x for x in structs.get(s, []) if not re.match(r"has_|priv_store$", x[1]) and not x[1].startswith("_")]
            if ms != hs and not ({x[1] for x in structs.get(s, [])} - {x[1] for x in hs}) & {x[1] for x in ms}:
                out.append(("members", "ort-c-manpage: struct %s has members %s, in the header %s" % (s, ms, hs)))
        for s in structs:
            if s not in m.structs and s not in ("ort", "ort_store") and not re.match(r"\w+_\w+$", s):
                out.append(("structures", "ort-c-manpage: struct %s is missing" % s))
        for e, items in m.enums.items():
            if sorted(items) != sorted(x for x in enums.get(e, []) if not x.endswith("__MAX")):
                out.append(("items", "ort-c-manpage: enum %s has items %s, in the header %s" % (e, items, enums.get(e))))
        hr = enums.get("ort_role")
        if (sorted(m.roles) if m.roles else None) != (sorted(hr) if hr else None):
            out.append(("roles", "ort-c-manpage: roles are %s, in the header %s" % (m.roles, hr)))
        if "plain" in c:
            p = Man(env.run("ort-c-manpage", a, [], c["plain"].encode()).text)
            if p.macros != m.macros:
                out.append(("comments are macros", "ort-c-manpage: with the comment %r, the page's macros differ from those without: %r" % (
                    c["comment"], [x for x in m.macros if x not in p.macros][:5])))
            else:
                plain = list(p.text)
                more = []
                for l in m.text:
                    if plain and l == plain[0]:
                        plain.pop(0)
                    else:
                        more.append(roff(l))
                exp = texts(c["comment"]) * c["times"]
                if [x.rstrip() if x is not None else x for x in more] != exp:
                    out.append(("comment", "ort-c-manpage: the comment %r reads %r" % (c["comment"], more[:4])))
        return list(dict(out).items())


if __name__ == "__main__":
    core.main(M01())
