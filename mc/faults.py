"""What F01, F02, and F03 run: tools, with options, over configurations."""
import re
import c01, corpus, q, space

TOOLS = {
    "ort": ("ort", []), "ort-audit": ("ort-audit", ["-r", "ROLE"]), "ort-audit -v": ("ort-audit", ["-v", "-r", "ROLE"]),
    "ort-audit-json": ("ort-audit-json", ["-r", "ROLE"]), "ort-audit-json -s": ("ort-audit-json", ["-s", "-r", "ROLE"]),
    "ort-c-header": ("ort-c-header", ["-vjJ"]), "ort-c-header -s": ("ort-c-header", ["-s", "-N", "b", "-j"]), "ort-c-manpage": ("ort-c-manpage", ["-vjJ"]),
    "ort-c-manpage b": ("ort-c-manpage", []), "ort-c-source": ("ort-c-source", ["-vjJ"]),
    "ort-c-source b": ("ort-c-source", ["-I", "jv", "-h", "a.h,b.h"]), "ort-javascript": ("ort-javascript", []), "ort-json": ("ort-json", []),
    "ort-nodejs": ("ort-nodejs", ["-v"]), "ort-nodejs -e": ("ort-nodejs", ["-e"]),
    "ort-rust": ("ort-rust", []), "ort-sql": ("ort-sql", []), "ort-xliff": ("ort-xliff", []), "ort-xliff -j": ("ort-xliff", ["-j", "a.ort", "-x", "a.xliff"]),
    "ort-xliff -u": ("ort-xliff", ["-u", "a.ort", "-x", "a.xliff"]), "ort-xliff -c": ("ort-xliff", ["-c", "-j", "a.ort", "-x", "a.xliff"]),
    "ort-diff": ("ort-diff", ["b.ort", "a.ort"]), "ort-sqldiff": ("ort-sqldiff", ["b.ort", "a.ort"]), "ort-sqldiff -d": ("ort-sqldiff", ["-d", "b.ort", "a.ort"]),
}
LABELS = "jslabel \"L\" jslabel.fr \"F\" jslabel.de \"D\""
OWN = [
    # everything at once
    "roles { role ra comment \"r\" { role rb; role rc; }; role rd; };\n"
    "enum en { item a 1 %s comment \"i\"; item b; item c -4; isnull %s; comment \"e\"; };\n"
    "bits bi { item a 0 %s; item b 63 comment \"i\"; isnull %s; isunset %s; comment \"b\"; };\n"
    "struct bar { field id int rowid; field u text unique comment \"u\"; field w int null; field pw password; search u, pw: name n; list: name l; unique w, u; insert; "
    "roles rb { insert; noexport w; list l; search n; }; comment \"bar\"; };\n"
    "struct baz { field id int rowid; field bid:bar.id int actdel cascade actup restrict; field b struct bid; field nid:bar.u text null; field n struct nid; list b.w; };\n"
    "struct foo { comment \"foo \\\"x\\\"\"; field id int rowid; field x int limit gt 1 limit lt 9 default 5; field t text null limit ge 1 default \"x\"; "
    "field e enum en default a; field b bits bi default 3; "
    "field bb bit limit eq 3; field r real default 1.5 limit le 2.5; field bl blob null limit lt 10; field ep epoch null default 33; field d date default 2020-01-02; "
    "field em email unique; field pw password null; field zid:baz.id int; field z struct zid; field ozid:baz.id int null; field oz struct ozid noexport; "
    "insert; list x, z.b.w ge: name l order x asc, t desc limit 3, 4 comment \"l\"; list x, t isnull; iterate z.b.u like: name i grouprow x maxrow d; search id: name s; search em, pw; "
    "count x gt, b and, e: name c; list: distinct z.b name dz; count: distinct .; update x, t concat, r dec: id, x gt, d notnull: name up; update pw strset: id; "
    "update: id: name ua; delete id: name d; delete x ge, t isnull; unique x, t; unique e, b; "
    "roles ra { insert; list l; noexport t; update up; }; roles rb, rd { iterate i; noexport x; }; roles all { noexport ep; count c; }; };\n"
    % ((LABELS,) * 5),
    "struct foo { field x int; };\n",
    "struct foo { field id int rowid; field a text; field b blob; search id; delete; list; iterate; count; };\n",
]


def texts(k):
    """Configurations: those above, themes, and every k-th of the menus."""
    out = list(OWN) + c01.C01().rich() + [t for _, t, _ in q.themes("quick")]
    n = 0
    for g in space.GROUPS:
        for s in space.GROUPS[g]:
            n += 1
            if n % k == 0:
                out.append(space.text(g, [s]))
    out += [t for _, t in corpus.files(1500)][::max(1, k // 2)]
    return list(dict.fromkeys(out))


def role(text):
    m = re.search(r"\brole (\w+)", text)
    return m.group(1) if m else "default"


def inputs(env, name, texts, i):
    """Arguments, files and standard input of a tool for a configuration."""
    tool, args = TOOLS[name]
    t = texts[i]
    if "ROLE" in args:
        if not re.search(r"\broles? ", t):
            t = "roles { role ra; };\n" + t
        args = [role(t) if a == "ROLE" else a for a in args]
    if not any(a.endswith(".ort") for a in args):
        return tool, args, [], t
    files = [("a.ort", t)]
    if "b.ort" in args:
        files.append(("b.ort", texts[(i + 1) % len(texts)] if i % 3 == 0 else t))
        if i % 3 == 1:
            files[0] = ("a.ort", t + "struct zextra { field id int rowid; field y text unique; field f date null; field fid:zother.id int; unique y, f; comment \"x\"; };\n"
                        "struct zother { field id int rowid; field k text default \"k\"; };\n")
        elif i % 3 == 2:
            files[0] = ("a.ort", t.replace("field id int rowid;", "field id int rowid; field zadded int default 3 unique;"))
    if "a.xliff" in args:
        x = env.run("ort-xliff", [], [], t.encode("utf-8", "surrogateescape")).text
        n = [0]

        def one(m):
            n[0] += 1
            # every third isn't translated by update's input
            return m.group(0) + ("" if "-u" in args and n[0] % 3 == 0 else "<target>T%d</target>" % n[0])
        x = re.sub(r"</source>", one, re.sub(r"<target */>|<target>.*?</target>", "", x, flags=re.S))
        x = x.replace('target-language="TODO"', 'target-language="it"')
        files.append(("a.xliff", x))
    return tool, args, files, ""


def good(tool, r):
    return r.status in (0, 1) if tool == "ort-diff" else r.status == 0
