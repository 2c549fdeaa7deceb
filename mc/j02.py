"""J02: the JSON functions of generated C export what objects hold, import
what they export, refuse what is malformed, and do neither harm nor leak."""
import base64, binascii, itertools, json, re
import cgen, core, dataref as dr, q, ref

BAD, SKIP = "bad", "skip"
I64 = 1 << 63
HEAD = "enum en { item a 1; item b -4; }; bits bi { item p 0; item q 3; };\n"
TYPES = ["int", "bit", "enum en", "bits bi", "real", "text", "email", "password", "blob", "date", "epoch"]
TEXTS = [chr(i) for i in range(1, 128)] + ["", "\u00e9", "\u0080", "\u07ff\u0800", "\ud7ff\ue000\uffff", "\U00010000\U0010ffff", "a\"b\\c/d\ne", "\\u0041", "\\", "\\\\n"]
BLOBS = [bytes([i]) for i in range(256)] + [b"", b"\xff\xff\xff", b"\xfb\xf0", b"\x00\x00", bytes(range(256)), b"ab", b"abc", b"abcd"]
INTS = ["0", "1", "-1", "5", "-4", str(I64 - 1), str(-I64), str(I64), str(-I64 - 1), "1" * 40]
MENU = {
    "i": INTS + ['"%s"' % s for s in INTS + ["1x", "", "-", "--1", "a", "1.5", "5 5", "0x10", "1e2", "-a", "é"]] + ["1.5", "-0.5", "1e400", "1e2", "true", "null", "{}", "[]", "[1]", '{"x":1}'],
    "r": ["0", "1.5", "-1.5", "1e3", "1E-3", "-0", "0.1", "123456789.125", "null", "false", "{}", "[]", "[1.5]"] +
         ['"%s"' % s for s in ["1.5", "-2", "1e3", "1e+3", "", "-", "a", "1.5x", "1.5.5", "1 1", "-a", "1e", "0.1"]],
    "s": ['""', '"a"', '"é"', '"a\\"b"', '"\\\\"', '"\\/"', '"\\b\\f\\n\\r\\t"', '"\\u0041"', '"\\u00e9\\u20ac"', '"\\ud83d\\ude00"', '"\\u001f"', '"\\uD83D"', '"x\\u0000y"', '"\\\\u0041"',
          '"null"', '"a\\\\"', '"\U0001f600"', '"\\u07ff\\u0800"', "1", "-1.5", "null", "true", "{}", "[]", '["a"]'],
    "b": ['""', '"YQ=="', '"YWI="', '"YWJj"', '"AP+A"', '"AP\\/A"', '"Y"', '"YQ"', '"YQ="', '"!!!!"', '"YQ==="', '"Y=Q="', '"YWJjZA=="', '"Y\\u0051=="', "1", "null", "true", "{}", "[]", '["YQ=="]'],
}


def tokens(v):
    if isinstance(v, list):
        return 1 + sum(1 + tokens(b) for a, b in v)
    if isinstance(v, tuple):
        return 1 + sum(tokens(b) for b in v[1])
    return 1


class Num(str):
    pass


def parse(text):
    """JSON as lists of pairs (objects), ("array", values), strings, Num,
    True, False, None; or ValueError."""
    def const(c):
        raise ValueError(c)

    def arr(v):
        return ("array", [arr(x) for x in v]) if isinstance(v, list) and not isinstance(v, Obj) else Obj((a, arr(b)) for a, b in v) if isinstance(v, Obj) else v
    return arr(json.loads(text, object_pairs_hook=Obj, parse_int=Num, parse_float=Num, parse_constant=const))


class Obj(list):
    pass


def value(cfg, s, f, v):
    """What field f of s becomes: a value, BAD or SKIP as (status, value)."""
    null = s.fields[f.sub].null if f.type == "struct" else f.null
    if v is None:
        return ("ok", None) if null else (BAD, None)
    k = "o" if f.type == "struct" else cgen.kind(f)
    if k == "o":
        return imported(cfg, cfg.target(f), v) if isinstance(v, Obj) else (BAD, None)
    if isinstance(v, (list, tuple, bool)):
        return BAD, None
    if k in "ie":
        if not re.fullmatch("-?(0|[1-9][0-9]*)", v):
            if re.fullmatch(r"\s*[+-]?[0-9]+\s*", v) or not isinstance(v, Num) and re.fullmatch("0[xX][0-9a-fA-F]+", v):
                return SKIP, None
            m = re.fullmatch(r"[+-]?[0-9]+(\.([0-9]+))?([eE][+-]?[0-9]+)?", v)
            if m and (m.group(3) or not m.group(2).strip("0")):
                return SKIP, None
            return BAD, None
        n = int(v)
        if not -I64 <= n < I64:
            return BAD, None
        if f.type == "bit" and not 0 <= n < 64 or k == "e" and n not in (1, -4):
            return SKIP, None
        return "ok", n
    if k == "r":
        if not re.fullmatch(r"-?(0|[1-9][0-9]*)(\.[0-9]+)?([eE][+-]?[0-9]+)?", v):
            try:
                float(v)
                return SKIP, None
            except ValueError:
                return (BAD, None) if re.match("-?[0-9.]", v) is None or re.fullmatch("[-0-9.xa ]+", v) else (SKIP, None)
        n = float(v)
        return (SKIP, None) if n in (float("inf"), -float("inf")) or len(v) > 127 else ("ok", n)
    if isinstance(v, Num):
        return BAD, None
    if "\0" in v or re.search("[\ud800-\udfff]", v):
        return SKIP, None
    if k == "b":
        if re.search(r"\s", v):
            return SKIP, None
        try:
            b = base64.b64decode(v.encode("ascii"), validate=True)
        except (ValueError, binascii.Error):
            return BAD, None
        return ("ok", b) if base64.b64encode(b).decode() == v else (SKIP, None)
    return "ok", v


def imported(cfg, s, v):
    out, st = {}, "ok"
    for a, b in v:
        f = s.fields.get(a)
        if f is None or f.noexport:
            r = BAD, None
        else:
            r = value(cfg, s, f, b)
        if a in out:
            st = SKIP
        out[a] = r[1]
        if r[0] != "ok":
            st = BAD if r[0] == BAD and st != SKIP else SKIP
    for f in s.fields.values():
        if f.type == "struct" and f.name in out and f.sub in out and (out[f.name] is None) != (out[f.sub] is None):
            st = SKIP if st == "ok" else st
    return st, out


def has(want, got):
    """Do the objects agree in what is wanted?"""
    if isinstance(want, dict):
        return isinstance(got, dict) and all(k in got and has(v, got[k]) for k, v in want.items())
    return type(want) is type(got) and want == got


class J02(core.Check):
    id = "J02"
    rule = ("state = (configuration, object or document); transition = one export of an object from the database in each of the forms the header "
            "offers, or one import of a document, by the compiled C under the sanitizers; all objects over the stated values; all documents of "
            "up to two (nested: three) pairs over a menu of values per type, all single-token edits of documents, all token strings to the stated length, "
            "and each allocation failing in turn; distinct_nontrivial = distinct (configuration, document or contents)")
    assumptions = ["kcgijson(3) is stood in for by harness/c, escaping as it does", "what is not JSON is judged for safety and leaks only",
                   "missing and repeated keys, NUL in text, and numbers written otherwise than exported are not judged"]

    def configs(self):
        """(text, [structs], per struct: [(key, [values])])"""
        out = []
        for t in TYPES:
            if t == "password":
                T = HEAD + "struct foo { field id int rowid; field x password; field n password null; };\n"
            else:
                T = HEAD + "struct foo { field x %s; field n %s null; field id int rowid; field h %s noexport; };\n" % (t, t, t)
            k = t.split()[0]
            k = {"real": "r", "blob": "b", "text": "s", "email": "s", "password": "s"}.get(k, "i")
            out.append((t, T, {"x": MENU[k], "n": MENU[k], "z": ["1", '"a"', "null"], "h": MENU[k][:2], "id": ["1", '"1"', "null"]}, 2))
        O = ["{}", '{"u":"a"}', '{"u":"b","id":1}', '{"u":1}', '{"z":1}', "null", "[]", '[{"u":"a"}]', "1"]
        out.append(("nested", "struct tgt { field u text; field id int rowid; };\n"
                    "struct foo { field rid:tgt.id int; field r struct rid; field q struct qid; field qid:tgt.id int null; field id int rowid; };\n",
                    {"rid": ["1", "null"], "r": O, "q": O, "qid": ["1", "null"]}, 3))
        out.append(("deep", "struct tgt { field u blob; field t text null; field id int rowid; };\n struct mid { field tid:tgt.id int; field t struct tid; field m text; field id int rowid; };\n"
                    "struct foo { field mid:mid.id int null; field m struct mid; field k int; field id int rowid; };\n",
                    {"mid": ["1", "null"], "k": ["1"], "m": ['{"t":{"u":"YQ==","t":"x"},"m":"y","tid":1}', '{"m":"y","t":{"t":null}}', '{"t":null}', '{"m":"y","t":{"u":"!"}}', '{"t":{"u":"YQ==","u":"YQ=="}}',
                                                             '{"m":"a","m":"b"}', '{"t":{"u":"YQ=="},"t":{"u":"YWI="}}', "null", "[]"]}, 3))
        return out

    RAW = ["{", "}", "[", "]", ",", ":", '"x"', '"n"', "1", "null", '"a"']
    RAW2 = ["{", "}", ",", ":", '"r"', '"q"', '"rid"', "1", "null"]

    def jobs(self, tier):
        out = []
        for i, (name, th) in enumerate(self.trips(tier)):
            out.append(("trip", i))
        for i, c in enumerate(self.configs()):
            for p in range(2 if tier == "quick" else 8):
                out.append(("docs", i, p, 2 if tier == "quick" else 8))
            out.append(("edits", i))
            out.append(("alloc", i))
        for i in (0, 5, 8, 11):
            for t in range(len(self.RAW)):
                out.append(("raw", i, t))
        return out

    def trips(self, tier):
        out = []
        for t in TYPES:
            k = t.split()[0]
            for null in ("", " null"):
                T = HEAD + "struct foo { field x %s%s; field y int; field id int rowid; list; iterate; search id; };\n" % (t, null)
                dom = {"foo.y": [1]}
                if k in ("text", "email", "password"):
                    dom["foo.x"] = TEXTS + ([None] if null else [])
                elif k == "blob":
                    dom["foo.x"] = BLOBS + ([None] if null else [])
                elif k == "real":
                    dom["foo.x"] = [0.0, 0.5, -0.5, 1.0, 0.1, 1e300, 1e-300, 1 / 3, 123456789.123, 2.0 ** 53 + 2, 5e-324] + ([None] if null else [])
                elif k in ("int", "bits", "date", "epoch"):
                    dom["foo.x"] = [0, 1, -1, I64 - 1, -I64, 1 << 53, (1 << 53) + 1, -(1 << 31), 1 << 32] + ([None] if null else [])
                rows = (0, 1) if len(dom.get("foo.x", [])) > 40 and tier == "quick" else (0, 2)
                out.append((t + null, (T, {"rows": {"foo": rows}, "dom": dom})))
        for n, text, th in q.themes(tier):
            if n.startswith(("nested", "wide", "chain")):
                out.append((n, (text, th)))
        return out

    def prog(self, env, text, san=True):
        k = ("c", text)
        if k not in env.cache:
            cfg, err = ref.accepts([("a.ort", text)])
            if cfg is None:
                raise Exception("%s: %s" % (text, err))
            for o in [o for o in env.cache if o[0] == "c"]:
                env.cache.pop(o).close()
            env.cache[k] = cgen.Prog(env, cfg, text)
        return env.cache[k]

    # --- imports ---

    def line(self, pr, s, doc, arr):
        return "I %d %d %s" % (list(pr.cfg.structs).index(s), arr, doc.encode("utf-8", "surrogatepass").hex())

    def docs(self, env, acc, text, items, fail=0):
        """Judge imports of (struct, document, array?)."""
        pr = self.prog(env, text)
        if pr.err:
            yield "compile", pr.err, items[0]
            return
        lines = [self.line(pr, *x) for x in items]
        if fail:
            if pr.p is None:
                pr.start()
            pr.send("A %d" % fail)
        rs = pr.ask(lines)
        if fail and pr.p is not None:
            pr.send("A 0")
        for x, r in zip(items, rs):
            acc.n["transitions"] += 1
            w = self.one(pr.cfg, x, r, fail)
            if w:
                yield w[0], w[1], x

    def one(self, cfg, x, r, fail):
        s, doc, arr = x
        s = cfg.structs[s]
        where = "%s of %s%s" % ("jsmn_%s_array" % s.name if arr else "jsmn_" + s.name, doc if len(doc) < 300 else doc[:300] + "...", ", allocation %d failing," % fail if fail else "")
        if "crash" in r:
            return "crash", "%s: %s" % (where, r["crash"])
        if "abort" in r:
            return "abort", "%s ends the process" % where
        if "leak" in r:
            return "leak", "%s: %d allocations remain after clearing" % (where, r["leak"])
        rc = r["rc"]
        if fail and r.get("allocs", 0) >= fail:
            return None if rc < 0 else ("nomem", "%s gives %d" % (where, rc))
        try:
            v = parse(doc)
        except (ValueError, RecursionError):
            return None
        if arr:
            if not isinstance(v, tuple):
                st, want = BAD, None
            else:
                xs = [imported(cfg, s, y) if isinstance(y, Obj) else (BAD, None) for y in v[1]]
                st = SKIP if any(y[0] == SKIP for y in xs) else BAD if any(y[0] == BAD for y in xs) else "ok"
                want = [y[1] for y in xs]
        else:
            st, want = imported(cfg, s, v) if isinstance(v, Obj) else (BAD, None)
        if st == SKIP:
            return None
        if st == BAD:
            return None if rc == 0 else ("malformed", "%s gives %d, not 0" % (where, rc))
        if rc != tokens(v):
            return "refused" if rc <= 0 else "count", "%s gives %d, not the %d tokens parsed" % (where, rc, tokens(v))
        try:
            if arr:
                got = [lax(cfg, s, y) for y in r["l"]]
                ok = len(got) == len(want) and all(has(a, b) for a, b in zip(want, got))
            else:
                got = lax(cfg, s, r["v"])
                ok = has(want, got)
        except cgen.Bad as e:
            return "value", "%s: %s" % (where, e)
        if not ok:
            return "value", "%s fills %r" % (where, got)

    @staticmethod
    def pairs(menu, n):
        items = [(k, v) for k in menu for v in menu[k]]
        for k in range(n + 1):
            for c in itertools.product(items, repeat=k):
                yield "{" + ",".join('"%s":%s' % p for p in c) + "}"

    def job(self, env, acc, tier, j):
        if j[0] == "trip":
            return self.trip(env, acc, tier, j[1])
        name, text, menu, depth = self.configs()[j[1]]
        items = []
        fails = [0]
        if j[0] == "docs":
            for i, d in enumerate(self.pairs(menu, depth)):
                if i % j[3] == j[2]:
                    items.append(("foo", d, 0))
                    if i % 5 == 0 or len(d) < 20:
                        items += [("foo", "[%s]" % d, 1), ("foo", "[%s,%s]" % (d, d), 1), ("foo", " [ {} , %s ] " % d.replace(":", " : ").replace(",", "\n,\t"), 1)]
        elif j[0] == "edits":
            base = ["{%s}" % ",".join('"%s":%s' % (k, v[0]) for k, v in menu.items() if k not in "zh"), '{"id":1,"id":2}']
            base += [d for d in list(self.pairs(menu, 1))[:60]]
            base += ["[%s,%s]" % (base[0], base[2])]
            for d in base:
                ts = re.findall(r'"(?:[^"\\]|\\.)*"|[][{}:,]|[^][{}:,"\s]+', d)
                arr = d[0] == "["
                for i in range(len(ts) + 1):
                    items.append(("foo", "".join(ts[:i]), arr))
                    for t in ["{", "}", "[", "]", ",", ":", '"x"', "1", "null", '"', "\0", "\\", " ", "\x7f", "'"]:
                        items.append(("foo", "".join(ts[:i] + [t] + ts[i:]), arr))
                        items.append(("foo", "".join(ts[:i] + [t] + ts[i + 1:]), arr))
                for i in range(len(ts)):
                    items.append(("foo", "".join(ts[:i] + ts[i + 1:]), arr))
                    items.append(("foo", "".join(ts[:i] + ts[i:i + 1] + ts[i:]), arr))
                    for k in range(i + 1, len(ts)):
                        items.append(("foo", "".join(ts[:i] + [ts[k]] + ts[i + 1:k] + [ts[i]] + ts[k + 1:]), arr))
                for i in range(len(d)):
                    items.append(("foo", d[:i], arr))
        elif j[0] == "alloc":
            one = list(self.pairs(menu, 1))
            for d in one + ["{%s}" % ",".join('"%s":%s' % (k, v[i % len(v)]) for k, v in menu.items() if k not in "zh") for i in range(30)]:
                items += [("foo", d, 0), ("foo", "[%s]" % d, 1), ("foo", "[%s,{},%s]" % (d, d), 1)]
            fails = range(1, 9)
        else:
            al = self.RAW2 if name == "nested" else self.RAW
            if j[2] >= len(al):
                return
            n = 5 if tier == "quick" else 6
            for k in range(n):
                for c in itertools.product(al, repeat=k):
                    items.append(("foo", al[j[2]] + "".join(c), 0))
                    if j[2] == 2 or k < 3:
                        items.append(("foo", al[j[2]] + "".join(c), 1))
        seen = set()
        items = [x for x in items if not (x in seen or seen.add(x))]
        for fail in fails:
            for i in range(0, len(items), 5000):
                part = items[i:i + 5000]
                if not fail or fail == 1:
                    for x in part:
                        if acc.state(repr((text, x))):
                            acc.n["evaluations"] += 1
                for key, what, x in self.docs(env, acc, text, part, fail):
                    acc.find("import:" + key + ":" + name.split()[0], what + "; in\n" + text, {"config": text, "doc": list(x), "fail": fail})
                    if len(acc.finds) >= 40:
                        return
        acc.sample("%s of %s: %d documents" % (j[0], name, len(items)), 1)

    # --- round trips ---

    def trip(self, env, acc, tier, i):
        name, (text, th) = self.trips(tier)[i]
        pr = self.prog(env, text)
        if pr.err:
            acc.find("compile", "%s; in\n%s" % (pr.err, text), {"config": text})
            return
        sts = list(q.states(pr.cfg, th))
        if tier == "quick":
            from q02 import spread
            sts = spread(sts, 400, acc, name)
        for b in range(0, len(sts), 50):
            for key, what, db in self.rounds(env, acc, text, sts[b:b + 50]):
                from q01 import jenc
                acc.find("export:" + key, what + "; in\n" + text, {"config": text, "db": {t: [{c: jenc(v) for c, v in r.items()} for r in rows] for t, rows in db.items()}})
                if len(acc.finds) >= 40:
                    return
        acc.sample("objects of %s: %d contents" % (name, len(sts)), 1)

    def rounds(self, env, acc, text, sts):
        pr = self.prog(env, text)
        cfg = pr.cfg
        calls, enc = [], []
        for oi, op in enumerate(pr.ops):
            if op.kind in ("list", "iterate", "search"):
                if op.kind == "search" and not (len(op.params) == 1 and op.params[0][0].rowid):
                    continue
                cs = op.calls({}, 6)[0]
                for a in cs[:6]:
                    if cgen.callable_(op, a):
                        calls.append((op, a))
                        enc.append(pr.enccall(oi, a))
        todo = {}
        for db, rs in zip(sts, pr.explore([pr.encstate(db) for db in sts], enc, 2)):
            if acc.state(repr((text, db))):
                acc.n["evaluations"] += 1
            for (op, a), r in zip(calls, rs):
                acc.n["transitions"] += 1
                if "unknown" in r:
                    continue
                if "crash" in r or "abort" in r:
                    yield "crash", "%s(%s) and exporting its result on %s: %s" % (op.name, a, q.show(db), r.get("crash", "ends the process")), db
                    continue
                s = op.result()
                chk = cgen.checker(cfg, s, "default" if cfg.roles else None)
                where = "%s(%s) on %s" % (op.name, ", ".join(map(repr, a)), q.show(db))
                try:
                    ds = r["l"] if op.kind != "search" else [r["v"]] if r["v"] else []
                    es = []
                    for d in ds:
                        o_ = cgen.obj(cfg, s, d)
                        e = bytes.fromhex(d["_e"]).decode()
                        chk(o_, e)
                        es.append((o_, e))
                        w = json.loads(bytes.fromhex(d["o"]), object_pairs_hook=cgen.pairs)
                        if w != {s.name: json.loads(e)}:
                            raise cgen.Bad("json_%s_obj writes %s" % (s.name, w))
                        if "i" in d and json.loads(bytes.fromhex(d["i"])) != [json.loads(e)]:
                            raise cgen.Bad("json_%s_iterate writes %s" % (s.name, bytes.fromhex(d["i"])))
                        todo.setdefault((s.name, e), (o_, db))
                    # ort-c-header(1) has the structure's name as key, the generated header foo_q
                    if "a" in r and json.loads(bytes.fromhex(r["a"]), object_pairs_hook=cgen.pairs) not in [{k: [json.loads(e) for _, e in es]} for k in (s.name, s.name + "_q")]:
                        raise cgen.Bad("json_%s_array writes %s" % (s.name, bytes.fromhex(r["a"])))
                    if len(es) > 1:
                        todo.setdefault((s.name, "[%s]" % ",".join(e for _, e in es)), ([x for x, _ in es], db))
                    if "leak" in r:
                        yield "leak", "%s: %d allocations remain" % (where, r["leak"]), db
                except (cgen.Bad, ValueError) as e:
                    yield "export", "%s: %s" % (where, e), db
        if not todo:
            return
        rs = pr.ask([self.line(pr, s, e, int(e[0] == "[")) for s, e in todo])
        for ((s, e), (o_, db)), r in zip(todo.items(), rs):
            acc.n["transitions"] += 1
            s = cfg.structs[s]
            where = "importing what was exported, %s," % e
            if "crash" in r or "abort" in r:
                yield "back:crash", "%s: %s" % (where, r.get("crash", "ends the process")), db
            elif "leak" in r:
                yield "back:leak", "%s leaves %d allocations" % (where, r["leak"]), db
            elif r["rc"] <= 0:
                yield "back:refused", "%s gives %d" % (where, r["rc"]), db
            else:
                try:
                    got = [lax(cfg, s, y) for y in (r["l"] if e[0] == "[" else [r["v"]])]
                except cgen.Bad as x:
                    got = str(x)
                want = [strip(cfg, s, y) for y in (o_ if e[0] == "[" else [o_])]
                if isinstance(got, str) or len(got) != len(want) or not all(has(a, b) for a, b in zip(want, got)):
                    yield "back:value", "%s gives %r, not %r" % (where, got, want), db

    def judge(self, env, case):
        text = case["config"]
        acc = core.Acc()
        if "doc" in case:
            name = [c[0] for c in self.configs() if c[1] == text]
            return [("import:" + k + ":" + (name[0].split()[0] if name else "?"), w + "; in\n" + text) for k, w, x in self.docs(env, acc, text, [tuple(case["doc"])], case["fail"])]
        from q01 import jdec
        pr = self.prog(env, text)
        if pr.err:
            return [("compile", "%s; in\n%s" % (pr.err, text))]
        if "db" not in case:
            return []
        db = {t: [{c: jdec(v) for c, v in r.items()} for r in rows] for t, rows in case["db"].items()}
        return [("export:" + k, w + "; in\n" + text) for k, w, x in self.rounds(env, acc, text, [db])]

    def finish(self, env, acc, tier):
        cgen.evict()


def lax(cfg, s, d):
    """An imported object; fields not in the document may have no value."""
    out = {}
    for f in s.fields.values():
        v = d[f.name]
        if f.type == "struct":
            v = v if v is None else lax(cfg, cfg.target(f), v)
        else:
            try:
                v = cgen.val(v)
            except cgen.Bad as e:
                v = e
        out[f.name] = v
    return out


def strip(cfg, s, o):
    """Of an object, what is exported."""
    out = {}
    for f in s.fields.values():
        if f.noexport or f.type == "password":
            continue
        v = o[f.name]
        out[f.name] = strip(cfg, cfg.target(f), v) if f.type == "struct" and v is not None else v
    return out


if __name__ == "__main__":
    core.main(J02())
