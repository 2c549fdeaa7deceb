"""Reference reading of ort(5) configurations, written from the manual.

`load([(name, text), ...])` returns a Cfg or raises Rej(phase, msg, line).
The reference is deliberately independent of the C sources' structure: a
tokenizer, a recursive-descent parser and a linker over plain objects.
"""
import re

I64 = (1 << 63) - 1

BAD = frozenset("""auto break case char const continue default do double enum
extern float goto inline int long register return short signed sizeof static struct switch typedef union
unsigned void volatile while abort action add after all alter analyze and as asc
attach autoincrement before begin between by cascade cast check collate
column commit conflict constraint create cross current_date current_time
current_timestamp database deferrable deferred delete desc detach distinct
drop each else end escape except exclusive exists explain fail for foreign
from full glob group having if ignore immediate in index indexed initially
inner insert instead intersect into is isnull join key left like limit match
natural not nothing notnull null of offset on or order outer plan pragma primary
query raise recursive references regexp reindex release rename replace
restrict returning right rollback row savepoint select set table temp temporary then
to transaction trigger union unique update using vacuum values view virtual
when where with without""".split())

FTYPES = {"bit": "bit", "bitfield": "bits", "bits": "bits", "blob": "blob",
          "date": "date", "double": "real", "email": "email", "enum": "enum",
          "epoch": "epoch", "int": "int", "integer": "int",
          "passwd": "password", "password": "password", "real": "real",
          "struct": "struct", "text": "text", "txt": "text"}
OPS = ["eq", "ge", "gt", "le", "lt", "neq", "like", "and", "or", "streq",
       "strneq", "isnull", "notnull"]
UNARY = ("isnull", "notnull")
MODS = ["concat", "dec", "inc", "set", "strset"]
ROLEMAPS = ["all", "count", "delete", "insert", "iterate", "list", "search",
            "update", "noexport"]
VTYPES = ["ge", "le", "gt", "lt", "eq"]
ACTS = ["none", "restrict", "nullify", "cascade", "default"]
STYPES = ["search", "count", "list", "iterate"]


class Rej(Exception):
    def __init__(self, phase, msg, fname=None, line=None):
        Exception.__init__(self, "%s: %s (%s:%s)" % (phase, msg, fname, line))
        self.phase, self.msg, self.fname, self.line = phase, msg, fname, line
        self.eof = False


class Obj:
    def __init__(self, **kw):
        self.__dict__.update(kw)

    def __repr__(self):
        return "Obj(%s)" % ", ".join("%s=%r" % kv for kv in self.__dict__.items() if kv[0] not in ("parent", "cfg"))


TOK = re.compile(
    r'([ \t\n\v\f\r]+|\#[^\n]*)'
    r'|([{};,.:])'
    r'|"((?:[^"]|(?<=\\)")*+)"'
    r'|(-?[0-9]+(?:\.[0-9]*)?)'
    r'|([A-Za-z][A-Za-z0-9]*)', re.A)


class Lex:
    def __init__(self, name, text):
        self.name, self.t, self.p, self.line = name, text, 0, 1
        self.k = self.v = None

    def rej(self, msg):
        e = Rej("syntax", msg, self.name, self.line)
        e.eof = self.k == "eof"     # the input ended, nothing was wrong yet
        raise e

    def next(self):
        t = self.t
        while True:
            if self.p >= len(t):
                self.k = "eof"
                return self.k
            m = TOK.match(t, self.p)
            if m is None:
                if t[self.p] == '"':
                    self.line += t.count("\n", self.p)
                    raise Rej("lex", "unterminated string", self.name, self.line)
                raise Rej("lex", "bad character", self.name, self.line)
            i = m.lastindex
            self.p = m.end()
            if i == 1:
                self.line += t.count("\n", m.start(), m.end())
                continue
            s = m.group(i)
            if i == 2:
                self.k = s
            elif i == 3:
                if "\0" in s:
                    raise Rej("lex", "nul byte in string", self.name, self.line)
                self.line += s.count("\n")
                self.k, self.v = "lit", s.replace("\r\n", "\n")
            elif i == 4:
                if "." in s:
                    d = float(s)
                    if d in (float("inf"), float("-inf")) or \
                       (abs(d) < 2.2250738585072014e-308 and re.search("[1-9]", s)):
                        raise Rej("lex", "malformed decimal", self.name, self.line)
                    self.k, self.v = "dec", d
                else:
                    n = int(s)
                    if not -I64 <= n <= I64:
                        raise Rej("lex", "malformed integer", self.name, self.line)
                    self.k, self.v = "int", n
            else:
                self.k, self.v = "id", s.lower()
            return self.k

    def expect(self, k, msg=None):
        if self.next() != k:
            self.rej(msg or "expected %s" % k)
        return self.v


class Cfg:
    def __init__(self):
        self.enums, self.bits, self.structs = {}, {}, {}
        self.roles = None       # name -> Obj(name, parent, doc, subs)
        self.order = []         # struct declaration order
        self.langs = [""]

    # ---- parsing -------------------------------------------------------

    def parse(self, name, text):
        x = Lex(name, text)
        while x.next() != "eof":
            if x.k != "id":
                x.rej("expected top-level type")
            if x.v == "roles":
                self.p_roles(x)
            elif x.v == "struct":
                self.p_struct(x)
            elif x.v == "enum":
                self.p_enum(x)
            elif x.v in ("bits", "bitfield"):
                self.p_bits(x)
            else:
                x.rej("unknown top-level type")

    def toplevel(self, x):
        n = x.expect("id")
        if n in BAD or n in ("ort", "stmt"):
            x.rej("reserved")
        if n in self.enums or n in self.bits or n in self.structs:
            x.rej("duplicate")
        return n

    def comment(self, x, o):
        v = x.expect("lit")
        if o.doc is not None:
            x.rej("duplicate comment")
        o.doc = v

    def label(self, x, labels):
        lang = ""
        if x.next() == ".":
            lang = x.expect("id")
            if lang not in self.langs:
                self.langs.append(lang)
            x.next()
        if x.k != "lit":
            x.rej("expected label")
        if x.v == "":
            x.rej("empty label")
        if lang in labels:
            x.rej("duplicate label")
        labels[lang] = x.v

    def item_tail(self, x, it):
        while x.k == "id":
            if x.v == "comment":
                self.comment(x, it)
            elif x.v == "jslabel":
                self.label(x, it.labels)
            else:
                x.rej("unknown item attribute")
            x.next()
        if x.k != ";":
            x.rej("expected semicolon")

    def label_tail(self, x, labels):
        while x.next() != ";":
            if x.k != "id" or x.v != "jslabel":
                x.rej("expected jslabel")
            self.label(x, labels)

    def p_enum(self, x):
        e = Obj(name=self.toplevel(x), doc=None, items=[], isnull={}, fname=x.name, line=x.line)
        self.enums[e.name] = e
        x.expect("{")
        while x.next() != "}":
            if x.k != "id":
                x.rej("expected enum attribute")
            if x.v == "comment":
                self.comment(x, e)
                x.expect(";")
            elif x.v == "isnull":
                self.label_tail(x, e.isnull)
            elif x.v == "item":
                n = x.expect("id")
                if n in BAD or n == "format":
                    x.rej("reserved")
                if any(i.name == n for i in e.items):
                    x.rej("duplicate item")
                it = Obj(name=n, value=None, auto=True, doc=None, labels={}, line=x.line)
                e.items.append(it)
                if x.next() == "int":
                    if abs(x.v) >= I64 and x.v == I64:
                        x.rej("value out of range")
                    if any(i.value == x.v for i in e.items if not i.auto):
                        x.rej("duplicate value")
                    it.value, it.auto = x.v, False
                    x.next()
                self.item_tail(x, it)
            else:
                x.rej("unknown enum attribute")
        if any(i.auto for i in e.items):
            mx = max([i.value for i in e.items if not i.auto], default=-1)
            mx = max(mx + 1, 0)
            for i in e.items:
                # the manual: assigned values may not be the maximum either
                if mx >= I64:
                    x.rej("overflow")
                if i.auto:
                    i.value = mx
                    mx += 1
        x.expect(";")
        if not e.items:
            x.rej("no items")

    def p_bits(self, x):
        b = Obj(name=self.toplevel(x), doc=None, items=[], isnull={}, isunset={}, fname=x.name, line=x.line)
        self.bits[b.name] = b
        x.expect("{")
        while x.next() != "}":
            if x.k != "id":
                x.rej("expected bits attribute")
            if x.v == "comment":
                self.comment(x, b)
                x.expect(";")
            elif x.v == "isnull":
                self.label_tail(x, b.isnull)
            elif x.v in ("isunset", "unset"):
                self.label_tail(x, b.isunset)
            elif x.v == "item":
                n = x.expect("id")
                if n in BAD:
                    x.rej("reserved")
                if any(i.name == n for i in b.items):
                    x.rej("duplicate item")
                v = x.expect("int")
                if not 0 <= v <= 63:
                    x.rej("bit index out of range")
                if any(i.value == v for i in b.items):
                    x.rej("duplicate value")
                it = Obj(name=n, value=v, doc=None, labels={}, line=x.line)
                b.items.append(it)
                x.next()
                self.item_tail(x, it)
            else:
                x.rej("unknown bits attribute")
        x.expect(";")
        if not b.items:
            x.rej("no items")

    def p_roles(self, x):
        if self.roles is not None:
            x.rej("roles already specified")
        self.roles = {}
        self.roles_line = x.line
        for n in ("none", "default", "all"):
            self.roles[n] = Obj(name=n, parent=None, doc=None, subs=[])
        x.expect("{")
        while x.next() != "}":
            self.p_role(x, self.roles["all"])
        x.expect(";")

    def p_role(self, x, parent):
        if x.k != "id" or x.v != "role":
            x.rej("expected role")
        n = x.expect("id")
        if n in BAD or n in self.roles:
            x.rej("reserved or duplicate role")
        if n in ("none", "default", "all"):
            x.rej("reserved role")
        r = Obj(name=n, parent=parent.name, doc=None, subs=[], line=x.line)
        self.roles[n] = r
        parent.subs.append(n)
        if x.next() == "id":
            if x.v != "comment":
                x.rej("expected comment")
            self.comment(x, r)
            x.next()
        if x.k == "{":
            while x.next() != "}":
                self.p_role(x, r)
            x.next()
        if x.k != ";":
            x.rej("expected semicolon")

    def p_struct(self, x):
        n = self.toplevel(x)
        s = Obj(name=n, doc=None, fields={}, queries=[], updates=[], deletes=[],
                insert=False, uniques=[], ulines=[], rolemaps={}, rowid=None,
                fname=x.name, line=x.line)
        self.structs[n] = s
        self.order.append(n)
        x.expect("{")
        while x.next() != "}":
            if x.k != "id":
                x.rej("expected statement type")
            k = x.v
            if k == "comment":
                self.comment(x, s)
                x.expect(";")
            elif k in STYPES:
                self.p_query(x, s, k)
            elif k in ("update", "delete"):
                self.p_update(x, s, k)
            elif k == "insert":
                if s.insert:
                    x.rej("insert already defined")
                s.insert = True
                s.insline = x.line
                x.expect(";")
            elif k == "unique":
                u = [x.expect("id")]
                ln = x.line
                while x.next() == ",":
                    u.append(x.expect("id"))
                if x.k != ";":
                    x.rej("expected semicolon or comma")
                if len(u) < 2:
                    x.rej("at least two fields")
                s.uniques.append(u)
                s.ulines.append(ln)
            elif k == "roles":
                self.p_srole(x, s)
            elif k == "field":
                self.p_field(x, s)
            else:
                x.rej("unknown statement")
        x.expect(";")
        if not s.fields:
            x.rej("no fields")
        for u in s.updates:
            if not u.mods:
                u.all = True
                u.mods = [[f.name, "set"] for f in s.fields.values()
                          if not f.rowid and f.type != "struct"]

    def p_path(self, x, stop):
        """Dotted path: current token is its first identifier."""
        if x.k != "id":
            x.rej("expected field identifier")
        path = [x.v]
        while x.next() == ".":
            path.append(x.expect("id"))
        if x.k not in stop:
            x.rej("expected field separator")
        return path

    def p_query(self, x, s, kind):
        q = Obj(kind=kind, name=None, terms=[], doc=None, limit=0, offset=0,
                order=[], aggr=None, group=None, distinct=None,
                fname=x.name, line=x.line)
        s.queries.append(q)
        x.next()
        if x.k == "id":
            while True:
                p = self.p_path(x, (",", ";", ":", "id"))
                op = "eq"
                if x.k == "id":
                    op = x.v
                    if op not in OPS:
                        x.rej("unknown operator")
                    if x.next() not in (",", ";", ":"):
                        x.rej("expected field separator")
                q.terms.append([p, op])
                if x.k != ",":
                    break
                x.next()
        if x.k == ";":
            return
        if x.k != ":":
            x.rej("expected field identifier")
        x.next()
        while x.k != ";":
            if x.k != "id":
                x.rej("expected query parameter name")
            k = x.v
            if k == "name":
                n = x.expect("id")
                if any(o.name == n for o in s.queries):
                    x.rej("duplicate query name")
                q.name = n
                x.next()
            elif k == "comment":
                self.comment(x, q)
                x.next()
            elif k == "limit":
                q.limit = x.expect("int")
                if q.limit < 0:
                    x.rej("negative limit")
                if x.next() == ",":
                    q.offset = x.expect("int")
                    if q.offset < 0:
                        x.rej("negative offset")
                    x.next()
            elif k in ("minrow", "maxrow"):
                x.next()
                if q.aggr is not None:
                    x.rej("redeclaring aggregate")
                q.aggr = (k, self.p_path(x, (";", "id")))
            elif k == "grouprow":
                x.next()
                if q.group is not None:
                    x.rej("redeclaring group")
                q.group = self.p_path(x, (";", "id"))
            elif k == "order":
                while True:
                    x.next()
                    p = self.p_path(x, (",", ";", "id"))
                    d = "asc"
                    if x.k == "id" and x.v in ("asc", "desc"):
                        d = x.v
                        x.next()
                    q.order.append([p, d])
                    if x.k != ",":
                        break
            elif k == "distinct":
                x.next()
                if q.distinct is not None:
                    x.rej("redeclaring distinct")
                if x.k == ".":
                    q.distinct = ["."]
                    x.next()
                else:
                    q.distinct = self.p_path(x, (";", "id"))
            else:
                x.rej("unknown search parameter")
        if (q.group is None) != (q.aggr is None):
            x.rej("group and constraint go together")

    def p_update(self, x, s, kind):
        u = Obj(kind=kind, name=None, mods=[], cons=[], doc=None, all=False,
                fname=x.name, line=x.line)
        (s.updates if kind == "update" else s.deletes).append(u)

        def lst(out, words, dflt):
            while True:
                if x.k != "id":
                    x.rej("expected field")
                e = [x.v, dflt]
                out.append(e)
                if x.next() == "id":
                    if x.v not in words:
                        x.rej("bad operator")
                    e[1] = x.v
                    x.next()
                if x.k != ",":
                    break
                x.next()
            if x.k not in (":", ";"):
                x.rej("expected separator")

        x.next()
        if kind == "update":
            if x.k not in (":", ";"):
                lst(u.mods, MODS, "set")
            if x.k == ";":
                return
            x.next()
        if x.k not in (":", ";"):
            lst(u.cons, OPS, "eq")
        if x.k == ";":
            return
        x.next()
        while x.k != ";":
            if x.k != "id":
                x.rej("expected terms")
            if x.v == "name":
                u.name = x.expect("id")
            elif x.v == "comment":
                self.comment(x, u)
            else:
                x.rej("unknown term")
            x.next()

    def p_srole(self, x, s):
        roles = []
        while True:
            n = x.expect("id")
            if n == "none":
                x.rej("cannot assign none")
            roles.append(n)
            if x.next() != ",":
                break
        if x.k != "{":
            x.rej("expected comma")
        while x.next() != "}":
            if x.k != "id" or x.v not in ROLEMAPS:
                x.rej("unknown role constraint type")
            t, n = x.v, None
            if x.next() == "id":
                if t in ("insert", "all"):
                    x.rej("unexpected name")
                n = x.v
                x.next()
            elif x.k == ";":
                if t not in ("insert", "noexport", "all"):
                    x.rej("expected name")
            if x.k != ";":
                x.rej("expected semicolon")
            s.rolemaps.setdefault((t, n), []).extend(roles)
        x.expect(";")

    def p_field(self, x, s):
        n = x.expect("id")
        if n in BAD:
            x.rej("reserved")
        if n in s.fields:
            x.rej("duplicate field")
        f = Obj(name=n, type="int", sub=None, ref=None, rowid=False, unique=False,
                null=False, noexport=False, limits=[], default=None, defitems=[], doc=None,
                actup="none", actdel="none", parent=s, fname=x.name, line=x.line)
        s.fields[n] = f
        if x.next() == ";":
            return
        if x.k == ":":
            t = x.expect("id")
            x.expect(".")
            f.ref = (t, x.expect("id"))
            if x.next() == ";":
                return
        if x.k != "id" or x.v not in FTYPES:
            x.rej("unknown field type")
        f.type = FTYPES[x.v]
        if f.type == "struct" and f.ref is not None:
            x.rej("reference cannot be a struct")
        if f.type in ("bits", "enum", "struct"):
            f.sub = x.expect("id")
        while x.next() != ";":
            if x.k != "id":
                x.rej("unknown field info token")
            k = x.v
            if k == "rowid":
                if s.rowid is not None or f.type != "int" or f.ref is not None or f.null:
                    x.rej("bad rowid")
                f.unique = False
                f.rowid = True
                s.rowid = n
            elif k == "noexport":
                f.noexport = True
            elif k == "unique":
                if f.type == "struct":
                    x.rej("unique on struct")
                if not f.rowid:
                    f.unique = True
            elif k == "null":
                if f.rowid or f.type == "struct":
                    x.rej("bad null")
                f.null = True
            elif k == "comment":
                self.comment(x, f)
            elif k in ("actup", "actdel"):
                if f.ref is None:
                    x.rej("action on non-reference")
                a = x.expect("id")
                if a not in ACTS:
                    x.rej("unknown action")
                setattr(f, k, a)
            elif k == "limit":
                self.p_limit(x, f)
            elif k == "default":
                self.p_default(x, f)
            else:
                x.rej("unknown field info token")
        if "default" in (f.actup, f.actdel) and not f.null and f.default is None:
            x.rej("default action without default or null")
        if "nullify" in (f.actup, f.actdel) and not f.null:
            x.rej("nullify without null")

    def p_limit(self, x, f):
        if f.type in ("struct", "enum"):
            x.rej("no validation on type")
        op = x.expect("id")
        if op not in VTYPES:
            x.rej("unknown constraint")
        x.next()
        if f.type == "real":
            if x.k not in ("dec", "int"):
                x.rej("expected number")
            v = float(x.v)
        else:
            if x.k != "int":
                x.rej("expected integer")
            v = x.v
            if f.type in ("blob", "email", "text", "password") and v < 0:
                x.rej("expected length")
        if [op, v] in f.limits:
            x.rej("duplicate validation")
        f.limits.append([op, v])

    def p_default(self, x, f):
        if f.type == "date":
            y = x.expect("int")
            m = x.expect("int")
            if m >= 0:
                x.rej("invalid month")
            d = x.expect("int")
            if d >= 0:
                x.rej("invalid day")
            if not (1900 - (1 << 31) <= y < (1 << 31)) or m <= -(1 << 31) or d <= -(1 << 31):
                x.rej("invalid date")
            f.default = civil(y, -m, -d)
        elif f.type in ("bit", "bits", "epoch", "int"):
            f.default = x.expect("int")
        elif f.type == "real":
            if x.next() not in ("dec", "int"):
                x.rej("expected number")
            f.default = float(x.v)
        elif f.type in ("email", "text"):
            f.default = x.expect("lit")
        elif f.type == "enum":
            f.default = x.expect("id")
            f.defitems.append(f.default)
        else:
            x.rej("defaults not available")

    # ---- linking -------------------------------------------------------

    def link(self):
        if not self.structs:
            raise Rej("link", "no structures")

        def rej(o, msg):
            raise Rej("link", msg, getattr(o, "fname", None), getattr(o, "line", None))
        for s in self.structs.values():
            for f in s.fields.values():
                if f.ref is not None:
                    t = self.structs.get(f.ref[0])
                    t = t and t.fields.get(f.ref[1])
                    if t is None:
                        rej(f, "unknown reference target")
                    if t.type != f.type:
                        rej(f, "reference type mismatch")
                    if not (t.rowid or t.unique):
                        rej(f, "reference target not unique")
                if f.type == "bits" and f.sub not in self.bits:
                    rej(f, "unknown bitfield")
                if f.type == "enum":
                    if f.sub not in self.enums:
                        rej(f, "unknown enum")
                    items = [i.name for i in self.enums[f.sub].items]
                    if any(d not in items for d in f.defitems):
                        rej(f, "unknown enum item")
                if f.type == "struct":
                    src = s.fields.get(f.sub)
                    if src is None or src.type == "struct" or src.ref is None:
                        rej(f, "bad struct source")
            for u in s.uniques:
                for n in u:
                    if n not in s.fields or s.fields[n].type == "struct":
                        rej(s, "bad unique field")
                if len(set(u)) != len(u):
                    rej(s, "duplicate unique field")
            for u in s.updates + s.deletes:
                for n, m in u.mods:
                    f = s.fields.get(n)
                    if f is None or f.type == "struct":
                        rej(u, "bad modifier field")
                    if m == "concat" and f.type not in ("blob", "text", "email"):
                        rej(u, "concat on non-text")
                    if m in ("inc", "dec") and f.type not in (
                            "bit", "bits", "date", "enum", "epoch", "int", "real"):
                        rej(u, "inc/dec on non-numeric")
                for n, o in u.cons:
                    f = s.fields.get(n)
                    if f is None or f.type == "struct":
                        rej(u, "bad constraint field")
                    if f.type == "password" and o not in ("streq", "strneq") + UNARY:
                        rej(u, "password constraint")
                    if o == "like" and f.type not in ("text", "email"):
                        rej(u, "like on non-text")
            for (t, n), rs in s.rolemaps.items():
                for r in rs:
                    if self.roles is None or r not in self.roles:
                        rej(s, "unknown role")
                if len(set(rs)) != len(rs):
                    rej(s, "duplicate role")
                if t == "insert" and not s.insert:
                    rej(s, "no insert")
                if t in ("update", "delete"):
                    if n not in [u.name for u in
                                 (s.updates if t == "update" else s.deletes)]:
                        rej(s, "no such operation")
                if t in STYPES and n not in [q.name for q in s.queries if q.kind == t]:
                    rej(s, "no such query")
                if t == "noexport" and n is not None and n not in s.fields:
                    rej(s, "no such field")
            seen = set()
            for u in s.uniques:
                k = frozenset(u)
                if k in seen:
                    rej(s, "duplicate unique")
                seen.add(k)
        for s in self.structs.values():
            self.norecurse(s, [s.name], rej)
        for s in self.structs.values():
            for q in s.queries:
                self.link_query(s, q, rej)
            # no two operations can have the same function
            F = [(q.kind, q.name, q.name is None and [(t[0], t[1]) for t in q.terms]) for q in s.queries]
            F += [(u.kind, u.name, u.name is None and (u.all, not u.all and u.mods, u.cons)) for u in s.updates + s.deletes]
            for i, f in enumerate(F):
                if f in F[:i]:
                    rej(s, "duplicate function")
        return self

    def target(self, f):
        """The structure a struct-typed field refers to."""
        return self.structs[f.parent.fields[f.sub].ref[0]]

    def norecurse(self, s, path, rej):
        for f in s.fields.values():
            if f.type == "struct":
                t = self.target(f)
                if t.name in path:
                    rej(s, "recursive references")
                self.norecurse(t, path + [t.name], rej)

    def chain(self, s, path, rej, o):
        c = []
        for i, n in enumerate(path):
            f = s.fields.get(n)
            if f is None:
                rej(o, "field not found")
            c.append(f)
            if i < len(path) - 1:
                if f.type != "struct":
                    rej(o, "non-terminal not a struct")
                if f.parent.fields[f.sub].null:
                    rej(o, "non-terminal null")
                s = self.target(f)
        return c

    def link_query(self, s, q, rej):
        for p, op in q.terms:
            f = self.chain(s, p, rej, q)[-1]
            if f.type == "struct":
                rej(q, "terminal is a struct")
            if op in ("and", "or") and f.type not in ("bit", "bits", "int"):
                rej(q, "bit operator on non-bit")
            if op == "like" and f.type not in ("text", "email"):
                rej(q, "like on non-text")
            if f.type == "password":
                if op not in ("eq", "neq", "streq", "strneq") + UNARY:
                    rej(q, "password operator")
                if op in ("eq", "neq") and (q.kind == "count" or q.distinct is not None):
                    rej(q, "password in count or distinct")
        for p, d in q.order:
            if self.chain(s, p, rej, q)[-1].type == "struct":
                rej(q, "order by struct")
        if q.distinct is not None and q.distinct != ["."]:
            f = self.chain(s, q.distinct, rej, q)[-1]
            if f.type != "struct" or f.parent.fields[f.sub].null:
                rej(q, "distinct of non-struct or null")
        ag = []
        for p in ([q.aggr[1], q.group] if q.aggr else []):
            f = self.chain(s, p, rej, q)[-1]
            if f.type in ("struct", "password") or f.null:
                rej(q, "bad aggregate or group field")
            ag.append(f)
        if ag:
            if ag[0] is ag[1]:
                rej(q, "same column for group and constraint")
            if ag[0].parent is not ag[1].parent:
                rej(q, "group and constraint in different structs")

    # ---- meaning -------------------------------------------------------

    def op_roles(self, s, kind, name):
        """Roles assigned to an operation (not their descendants)."""
        r = set(s.rolemaps.get(("all", None), ()))
        if kind == "insert":
            r |= set(s.rolemaps.get(("insert", None), ()))
        elif name is not None:
            r |= set(s.rolemaps.get((kind, name), ()))
        return frozenset(r)

    def noexport_roles(self, s, f):
        return frozenset(s.rolemaps.get(("noexport", None), ())) | \
            frozenset(s.rolemaps.get(("noexport", f.name), ()))

    def ancestors(self, r):
        """r and its ancestors, nearest first."""
        out = []
        while r is not None:
            out.append(r)
            r = self.roles[r].parent
        return out

    def holds(self, cur, roles):
        """Does the current role satisfy an assignment to `roles`?"""
        return any(a in roles for a in self.ancestors(cur))

    def canon(self):
        """Order-insensitive meaning of the configuration."""
        R = None
        if self.roles is not None:
            R = tuple(sorted((r.name, r.parent, r.doc) for r in self.roles.values()
                             if r.parent))

        def labels(d):
            return tuple(sorted((k, norm_ws(v)) for k, v in d.items()))
        E = tuple(sorted((e.name, e.doc, labels(e.isnull), tuple(
            (i.name, i.value, i.auto, i.doc, labels(i.labels)) for i in e.items))
            for e in self.enums.values()))
        B = tuple(sorted((b.name, b.doc, labels(b.isnull), labels(b.isunset), tuple(
            (i.name, i.value, i.doc, labels(i.labels)) for i in b.items))
            for b in self.bits.values()))
        S = []
        for s in self.structs.values():
            F = tuple((f.name, f.type, f.sub, f.ref, f.rowid, f.unique, f.null,
                       f.noexport, tuple(sorted((o, v) for o, v in f.limits)),
                       f.default, f.doc, f.actup, f.actdel, self.noexport_roles(s, f))
                      for f in s.fields.values())
            Q = tuple(sorted((q.kind, q.name or "", q.doc is not None, q.doc or "",
                              tuple((tuple(p), o) for p, o in q.terms),
                              q.limit, q.offset,
                              tuple((tuple(p), d) for p, d in q.order),
                              (q.aggr[0], tuple(q.aggr[1])) if q.aggr else (),
                              tuple(q.group or ()), tuple(q.distinct or ()),
                              tuple(sorted(self.op_roles(s, q.kind, q.name))))
                             for q in s.queries))
            U = tuple(sorted((u.kind, u.name or "", u.doc is not None, u.doc or "", u.all,
                              tuple(map(tuple, u.mods)), tuple(map(tuple, u.cons)),
                              tuple(sorted(self.op_roles(s, u.kind, u.name))))
                             for u in s.updates + s.deletes))
            S.append((s.name, s.doc, F, Q, U,
                      tuple(sorted(self.op_roles(s, "insert", None))) if s.insert else None,
                      frozenset(frozenset(u) for u in s.uniques)))
        S.sort(key=lambda t: t[0])
        return (R, E, B, tuple(S))


def norm_ws(s):
    return re.sub(r"[ \t\n\v\f\r]+", " ", s)


def civil(y, m, d):
    """Seconds since the epoch of midnight, UTC, normalising like timegm."""
    y += (m - 1) // 12
    m = (m - 1) % 12 + 1
    y2 = y - (m <= 2)
    era = y2 // 400
    yoe = y2 - era * 400
    doy = (153 * (m + (-3 if m > 2 else 9)) + 2) // 5
    doe = yoe * 365 + yoe // 4 - yoe // 100 + doy
    return (era * 146097 + doe - 719468 + d - 1) * 86400


def load(files):
    c = Cfg()
    for n, t in files:
        c.parse(n, t)
    return c.link()


def accepts(files):
    try:
        return load(files), None
    except Rej as e:
        return None, e
