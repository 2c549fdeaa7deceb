"""The properties, and the manifest entries of their checks.  Running this
rewrites properties.jsonl and MANIFEST.json."""
import json, os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, quant, why, files, mech, observe, technique, note, level="model_checking", na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                  mech=mech, observe=observe, technique=technique, note=note, level=level, na=na))


prop("G01", "A configuration is accepted exactly when its grammar is that of ort(5)",
     "Every sequence of tokens that ort(5) allows as a configuration is accepted, and every other sequence is rejected with a non-zero exit status and nothing on standard output. "
     "This holds for every statement the format has: enumerations, bitfields, roles, structures, fields and their attributes, queries and their parameters, updates, deletes, unique clauses and role assignments.",
     ["inputs"], "every token sequence over the vocabulary of each statement, up to a depth, in every surrounding context",
     "The suite holds about 220 fixed rejected and 130 fixed accepted files and takes any failure as the right failure; which of the millions of short token sequences are accepted is not something samples settle.",
     ["parser.c", "parser_enum.c", "parser_bitfield.c", "parser_roles.c", "parser_struct.c", "parser_field.c"],
     [("recursive-descent parser over one token of look-ahead", "parser*.c")], ["exit status and output of ort(1)"],
     "explicit enumeration of token sequences on the real parser, against an independent executable reading of ort(5)",
     "Every viable token prefix and every one-token deviation from it up to the stated depth in 15 frames; the oracle is a separately written reference (mc/ref.py). Longer sequences are not explored.")
prop("G02", "A truncated or torn configuration is never taken for a whole one",
     "A configuration file cut at any byte, or with any block lost, zeroed or duplicated, is accepted only if what is left is itself a valid configuration; a cut inside a statement, block or string is always an error. "
     "Splitting one configuration into two files at any byte is likewise accepted only if each file ends between top-level objects.",
     ["crash_points"], "every byte prefix and every torn block of each file of a corpus, alone and as one of two files",
     "No test truncates a file; the suite's rejected files are hand-made whole files.",
     ["parser.c", "parser_struct.c", "parser_enum.c", "parser_bitfield.c", "parser_roles.c"],
     [("end-of-file handling of the tokeniser and of every statement parser", "parser.c parse_next, parse_root")],
     ["exit status of ort(1)"],
     "exhaustive crash-point and torn-block enumeration on the real parser, against the reference",
     "All byte cuts, and all single-block losses of the stated sizes, of the corpus files and of feature-complete bases; the oracle is mc/ref.py.")
prop("G03", "Names, types and references of an accepted configuration all make sense",
     "A configuration is accepted only if every name it uses refers to exactly one object of the right kind: references point at unique fields of the same type, structures do not contain themselves, operators and modifiers fit the types they are applied to, roles and operations named in assignments exist, and nothing is declared twice (names compare without regard to case). "
     "Every configuration that satisfies these rules is accepted.",
     ["inputs", "configurations"], "every sequence of statements from menus covering each rule, and every reference graph on a few structures in every declaration order",
     "Each rule has one or two rejected examples in the suite, and a rejection for any other reason passes; combinations and orders are not tried.",
     ["linker.c", "linker_resolve.c", "linker_aliases.c", "parser.c", "parser_struct.c", "parser_field.c"],
     [("name resolution in passes", "linker_resolve.c"), ("recursion check and aliases", "linker_aliases.c"), ("post-link checks", "linker.c")],
     ["exit status of ort(1)"],
     "explicit enumeration of statement sequences and reference graphs on the real linker, against the reference",
     "All statement sequences from the menus to the stated depth, all reference digraphs on 3 structures (thorough: also on 4) in all orders; the oracle is mc/ref.py.")
prop("G06", "A printed configuration reads back with the same meaning",
     "Printing an accepted configuration with ort(1) yields a configuration that is itself accepted, means the same (same objects, types, attributes, values, operations, constraints, roles assigned to each operation, and documentation), and prints as itself. "
     "This includes every literal: text with escapes, extreme integers, decimals of any magnitude, dates.",
     ["inputs", "configurations"], "every accepted configuration reached by the token frames, statement menus and literal menus",
     "The suite compares the output for fixed inputs with fixed files, ignoring white-space, and never reads the output back.",
     ["writer.c", "parser.c", "parser_field.c", "linker_resolve.c"],
     [("configuration writer", "writer.c"), ("literal parsing", "parser.c parse_next")], ["standard output of ort(1)"],
     "explicit enumeration of accepted configurations, each printed and read back by the real code, meanings compared by the reference",
     "All accepted configurations of the explored spaces; equality of meaning is that of ref.Cfg.canon, which ignores the order of operations and runs of white-space in labels.")

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props2.py")).read()) if os.path.exists(
    os.path.join(os.path.dirname(os.path.abspath(__file__)), "props2.py")) else None


def main():
    P.sort(key=lambda p: p["id"])
    with open(V + "/properties.jsonl", "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                            "observe_at": p["observe"], "hook_needed": None}}) + "\n")
    m = {"version": 1, "setup_cmd": "python3 mc/build.py",
         "hooks": {"guard": "none", "enable": "no hooks: the checks compile /repo's sources unchanged, with their own entry points", "source_commits": []},
         "checks": [], "not_applicable": [],
         "notes": "Each check is one Python program in mc/; mc/build.py compiles /repo's current sources into a scratch directory keyed by their content. Replays: python3 mc/<id>.py --replay <file>."}
    for p in P:
        s = "mc/%s.py" % p["id"].lower()
        if p["na"] is not None:
            m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
            continue
        if not os.path.exists(V + "/" + s):
            m["not_applicable"].append({"property": p["id"], "reason": "check not built yet"})
            continue
        m["checks"].append({"property": p["id"], "quick_cmd": "python3 %s quick" % s, "thorough_cmd": "python3 %s thorough" % s,
                            "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"],
                            "level": p["level"], "level_note": p["note"]})
    with open(V + "/MANIFEST.json", "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    try:
        import jsonschema
        jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
        sc = json.load(open("/root/.vp/PROPERTIES.schema.json"))
        for l in open(V + "/properties.jsonl"):
            jsonschema.validate(json.loads(l), sc)
        print("valid", len(P), "properties", len(m["checks"]), "checks")
    except ImportError:
        pass


if __name__ == "__main__":
    main()
