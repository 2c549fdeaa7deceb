"""Token-level exploration of ort(5): frames and the viable-prefix walk."""
import ref

TYPES = "enum en { item ea 1; item eb; }; bits bi { item ba 0; item bb 1; };\n"
ROLES = "roles { role ra { role rb; }; role rc; };\n"
TGT = "struct tgt { field id int rowid; field u text unique; field n int null unique; field v int; };\n"
FOO = ("struct foo { field id int rowid; field t text; field p password; "
       "field e enum en; field b bits bi; field r:tgt.id int; "
       "field rn:tgt.id int null; field s struct r; field sn struct rn; field x int null;\n")


class Frame:
    def __init__(self, name, head, alpha, tails, quick, thorough):
        self.name, self.head, self.alpha, self.tails = name, head, alpha.split(), tails
        self.depth = {"quick": quick, "thorough": thorough}

    def text(self, toks, tail):
        return self.head + " " + " ".join(toks) + " " + tail


FRAMES = [
    Frame("top", "struct zz { field zid int rowid; };\n",
          'struct enum bits bitfield roles foo zz if { } ; item field role 1 "s"',
          ["", "; };", "};", ";", "} ; ;"], 7, 10),
    Frame("enum", "struct zz { field zid int; }; enum foo {",
          'item comment isnull isunset jslabel a B null format 1 -1 1.5 "s" "" en . ; , }',
          ["", "};", "; };", "1 ; };", "item a; };", "item b 7; }; }"], 7, 9),
    Frame("enumvals", "struct zz { field zid int; }; enum foo { item",
          'item a b c 0 1 -1 -5 9223372036854775806 9223372036854775807 -9223372036854775807 9223372036854775808 ;',
          ["};", "; };", ""], 10, 13),
    Frame("bits", "struct zz { field zid int; }; bits foo {",
          'item comment isnull isunset unset jslabel a B null 0 63 64 -1 1.5 "s" "" en . ; , }',
          ["", "};", "; };", "item a 0; };", "item b 7; };"], 7, 9),
    Frame("roles", "struct zz { field zid int; }; roles {",
          'role comment a B default none all null "s" 1 { } ; .',
          ["", "};", "; };", "} ; };", "; } ; };"], 11, 15),
    Frame("struct", TYPES + "struct foo {",
          'comment field insert list update delete unique roles search count iterate id null a "s" 1 { } ; : , .',
          ["", "};", "; };", "field z; };", "; field z; };"], 4, 5),
    Frame("field", TYPES + TGT + "struct foo { field",
          'f null : tgt . id u v int text real enum struct date rowid unique null noexport comment limit '
          'ge eq -1 1 2.5 "s" default actup actdel cascade nullify none ea en r ; ,',
          ["", "};", "; };", "; field g; };", "1; };"], 4, 5),
    Frame("fieldref", TYPES + TGT + "struct foo { field f:tgt.id int",
          'rowid unique null noexport comment limit actup actdel cascade nullify restrict none default '
          'le 3 "s" tgt ;',
          ["", "};", "; };"], 5, 6),
    Frame("fieldtypes", TYPES + TGT + "struct foo { field r:tgt.id; field f",
          'bit bits blob date double real email enum epoch int integer passwd password struct text txt '
          'bi en r ea default limit gt -7 5 0.25 2020 -2 -30 "x" null rowid ; 0',
          ["", "};", "; };"], 5, 6),
    Frame("query", TYPES + TGT + FOO,
          'search list t p s . id u eq like isnull , : name q limit 1 -1 order asc desc ; bogus "s"',
          ["", "};", "; };", ": ; };", "t; };"], 5, 6),
    Frame("queryparm", TYPES + TGT + FOO + "list t:",
          'name q limit 1 2 order t id s . , asc desc distinct grouprow minrow maxrow comment "s" ; : 1.5',
          ["", "};", "; };", "order x; };"], 4, 5),
    Frame("update", TYPES + TGT + FOO + "update",
          't id x s p set inc concat strset bogus , : eq streq isnull like name q comment "s" ; . 1',
          ["", "};", "; };", ": ; };"], 4, 5),
    Frame("delete", TYPES + TGT + FOO + "delete",
          't id x s p bogus set , : eq streq isnull notnull like name q comment "s" ; . 1',
          ["", "};", "; };", ": ; };"], 4, 6),
    Frame("unique", TYPES + TGT + FOO + "unique",
          't id x s zz , ; . unique "s"', ["", "};", "; };", ", e ; };"], 8, 10),
    Frame("sroles", ROLES + TYPES + TGT + FOO + "insert; list t: name q; update: id: name w; roles",
          'ra rb none all zz , { } ; insert list q w update noexport t count 1 "s" roles',
          ["", "};", "; };", "; }; };", "} ; };"], 5, 7),
]


def viable(frame, toks):
    """'ok' | 'eof' (incomplete but viable) | 'dead'."""
    c = ref.Cfg()
    try:
        c.parse("a", frame.head + " " + " ".join(toks))
        return "ok"
    except ref.Rej as e:
        return "eof" if e.eof else "dead"


def walk(frame, depth, prefix, visit):
    """All viable prefixes extending `prefix` to `depth`, and every viable
    prefix followed by one token that kills it.  visit(toks, viability)."""
    for t in frame.alpha:
        toks = prefix + [t]
        v = viable(frame, toks)
        visit(toks, v)
        if v != "dead" and len(toks) < depth:
            walk(frame, depth, toks, visit)
