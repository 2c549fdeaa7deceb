# More properties; executed by props.py.
prop("D01", "ort-diff reports exactly what changed between two configurations",
     "For any two accepted configurations, ort-diff exits 0 if and only if they have the same meaning in every respect it documents (1 if they differ, more on error), and lists every added, removed and modified enumeration, item, bitfield, index, structure, field, query, update, delete, insert, unique clause and role, with what about it was modified, at its position in each file, and nothing else.",
     ["configurations", "histories"], "every pair of configurations reached from a feature-complete base by up to two edits on either side (thorough: three), out of a menu of 160 edits",
     "The suite compares about 140 fixed pairs with fixed output, each with one or two changes; which combinations hide each other is not sampled.",
     ["diff.c", "writer-diff.c", "maindiff.c"], [("structural comparison", "diff.c ort_diff"), ("report", "writer-diff.c ort_write_diff_file")],
     ["exit status and standard output of ort-diff(1)"],
     "explicit enumeration of edit histories, each pair of reached configurations compared by the real ort-diff and by the reference's own comparison of meanings",
     "All pairs within the stated number of edits; columns are not compared.")
prop("R01", "An audit lists exactly what a role may do and reach",
     "For every configuration with roles and every role of it, ort-audit and ort-audit-json list exactly the operations whose assigned roles include the role or one of its ancestors (the roles assigned to all operations of a structure included), every structure reachable from an allowed query through nested structures by every path, and whether what is reached may be exported by that role; nothing that is allowed is left out and nothing that is not is listed. "
     "ort-audit-json output is valid JSON of the documented form with the documentation of each object intact; a role that does not exist is an error.",
     ["configurations", "inputs"], "every role of every configuration out of role forests x role statements on three nested structures x noexport marks, in all four report forms",
     "The suite audits seven small configurations and never runs ort-audit-json; what an audit must not omit depends on role inheritance, nested paths, distinct queries and export rules together.",
     ["audit.c", "mainaudit.c", "audit-json.c"], [("audit walk", "audit.c ort_audit, follow"), ("reports", "mainaudit.c, audit-json.c")],
     ["standard output of ort-audit(1) and ort-audit-json(1)"],
     "explicit enumeration of role configurations on the real programs, each report compared with the closure computed by the reference",
     "Up to two role statements on one structure and one on each of two nested ones; columns and the export mark of passwords are not compared; the role is always named.")
prop("J01", "ort-json says exactly what the configuration says, and reads back",
     "For every accepted configuration, ort-json prints valid JSON that conforms to the interfaces of ort-json.ts and holds every object, attribute, value, text, position (file and line) and effective role of the configuration, and nothing else; text survives whatever characters it has, numbers keep their value. "
     "Converting that JSON back with ort-json.ts's toString yields an accepted configuration with the same meaning.",
     ["inputs", "configurations"], "every combination of the attributes of one statement, statement menus, literal menus, and every string up to a length over a hostile alphabet in every slot that takes text",
     "No test in the suite's reliable part looks at JSON output or runs ort-json.ts.",
     ["lang-json.c", "json.c", "ort-json.ts"], [("JSON writer", "lang-json.c"), ("JSON reader and configuration writer", "ort-json.ts toString")],
     ["standard output of ort-json(1)", "return value of ortJsonConfigFormat.toString"],
     "explicit enumeration of accepted configurations on the real writer and on the transpiled ort-json.ts, compared with the reference's description and meaning",
     "All configurations of the stated products and menus, strings up to length 2 (thorough: 3) over 19 symbols; the order of keys and columns are not compared.")
prop("S01", "ort-sql prints a schema that SQLite accepts and that is the configuration",
     "For every accepted configuration, ort-sql prints statements that SQLite executes, and the database then has exactly one table per structure with exactly one column per field that is not a structure, of the documented type, with the primary keys, not-null and uniqueness constraints, foreign keys and their actions of the configuration, and nothing else; the constraints act as the configuration says, whatever text the comments hold.",
     ["inputs", "configurations"], "every combination of the attributes of one field, reference graphs of up to three structures, unique statements, menus of statements, and strings over a hostile alphabet in comments",
     "The suite compares a few schemas as text and never executes them in SQLite.",
     ["lang-sql.c", "sql.c"], [("schema writer", "lang-sql.c ort_lang_sql"), ("table writer", "lang-sql.c gen_struct")],
     ["standard output of ort-sql(1)", "the schema SQLite has after executing it"],
     "explicit enumeration of accepted configurations, each schema executed in SQLite and introspected against the reference's meaning",
     "All configurations of the stated products; default values are not part of the schema (they are of S02).")
prop("S02", "ort-sqldiff migrates a database without losing what it holds, or refuses",
     "For every two accepted configurations, ort-sqldiff either refuses, printing no statements and saying why, exactly when the change is documented not to be possible (changed types, references, actions, row identifiers or null; dropped objects without -d; changed or dropped items), or prints statements that bring a database of the old configuration to the schema of the new one: every row that was there is there and unchanged, columns that are new hold their default, referential integrity holds, and structures that are gone are dropped only with -d. "
     "This holds for every history of migrations, and however the files are named on the command line.",
     ["configurations", "histories"], "all pairs of configurations that differ in up to two of ten slots of a base with rows in all tables, and all histories of two migrations over the slots of fields, references, indexes and structures, with and without -d",
     "The suite compares thirty outputs as text; it never executes a migration on a database, much less two in a row.",
     ["lang-sql.c", "sqldiff.c", "diff.c"], [("refusals", "lang-sql.c gen_check_*"), ("statements", "lang-sql.c ort_lang_diff_sql"), ("arguments", "sqldiff.c main")],
     ["exit status and standard output of ort-sqldiff(1)", "the database after executing it"],
     "explicit-state exploration of migration histories on databases with rows, each step by the real ort-sqldiff and SQLite, against the reference",
     "All pairs and histories of the stated slots (quick: products above 2500 pairs are cut to those touching the base). Limits of SQLite's ALTER TABLE are not held against ort-sqldiff.")
prop("Q01", "Generated Node functions do to a database what the configuration says",
     "For every accepted configuration, the module of ort-nodejs has one function per operation, with the documented name and parameters, and each call does what the operation says: insertions add the row and give its identifier or -1 on a violated constraint; queries give exactly the matching rows (terms, nulls, passwords by hash), in order, limited, offset, distinct or grouped as asked, with nested structures filled in, and counts agree; updates and deletions change exactly the matching rows and report violations; nothing else changes. "
     "Values come back in the documented types without loss, and exports hold exactly what may be exported.",
     ["inputs", "histories", "configurations"], "all contents of the tables up to two or three rows over small domains, and all arguments over theirs (pairs of arguments where there are too many), for configurations that cover every type with every operator and modifier, nesting, orders, limits, offsets, distinct, grouping, uniqueness, passwords and all reference actions",
     "The suite's reliable part never runs a generated Node module.",
     ["lang.c", "lang-nodejs.c", "sql.c", "lang-sql.c"], [("statements", "lang.c gen_sql_stmts"), ("functions", "lang-nodejs.c gen_query, gen_insert, gen_update"), ("objects", "lang-nodejs.c gen_strct, gen_fill")],
     ["results of the functions of the generated module", "contents of the database afterwards"],
     "explicit-state exploration: every call on every content of the database, run by the generated module in SQLite and judged against reference semantics",
     "All contents and arguments within the stated bounds; where the documentation leaves the outcome open, nothing is judged. better-sqlite3 and bcrypt are stood in for.")
prop("R02", "Generated Node code enforces roles: what they may do, enter and see",
     "For every configuration with roles, each function of the module runs if and only if the current role is, or descends from, a role the operation is assigned to, and ends the process otherwise; operations without roles run in none; roles are entered only from the default role, by moving to an ancestor, or by entering none; and objects export exactly the fields that the role in which they were made may see, whatever the role becomes. Without roles nothing is restricted.",
     ["histories", "configurations"], "all sequences of requests for roles up to four long over all roles, built-in roles and strange names, followed by each operation, over role forests and all pairs of role statements on a structure and combinations with nested structures",
     "The suite's reliable part never runs a generated module; roles are security relevant.",
     ["lang-nodejs.c", "linker.c", "parser_roles.c"], [("enforcement", "lang-nodejs.c gen_rolemap"), ("transitions", "lang-nodejs.c gen_ortctx_dbrole"), ("export", "lang-nodejs.c gen_strct")],
     ["whether the generated functions run or abort", "exported objects"],
     "explicit-state exploration of role histories on the generated module, each step and each operation in it judged against the reference",
     "All sequences and configurations of the stated spaces; what the default role may do where roles are assigned to all is not judged (the manuals differ).")
prop("V01", "Generated Node validators accept exactly what type and limits allow",
     "For every field of every accepted configuration, the validator that ort-nodejs -v generates returns null when the input is undefined, null, not of the field's type (bits outside 0-63, dates not ISO-8601, integers not signed 64-bit, decimals, e-mails, bits not in 64 bits, enumerations) or fails any of the field's limits (lengths in bytes), and otherwise returns the input as a value of the documented type, unchanged but for the documented normalisation; it does not throw.",
     ["inputs", "configurations"], "all types, all limits of a menu alone and in pairs, all strings up to length 3 (thorough: 4) over an alphabet per type, and the boundaries of all types, as strings, numbers, bigints and buffers",
     "The suite's reliable part never runs a generated module.",
     ["lang-nodejs.c", "parser_field.c"], [("validators", "lang-nodejs.c gen_ortns_express_valid")],
     ["results of the functions in ortvalid.ortValids"],
     "explicit enumeration of declarations and inputs on the generated validators, against an executable reading of the manuals",
     "All declarations and inputs of the stated spaces; bit index 64, exponents and radix prefixes are not judged (the manuals differ or are silent). validator.js is stood in for.")
prop("T01", "Generated Node transactions are atomic, isolated and locked as documented",
     "For every history of two connections of a generated Node module on one database, the transaction functions do what the manual says: immediate transactions exclude other writers at once but not readers, deferred ones lock on first access, exclusive ones exclude all others; what is committed stays, what is rolled back leaves nothing, and neither connection sees what the other has not committed; misuse (to begin twice, to end without having begun) throws.",
     ["histories", "schedules"], "all interleavings of two connections up to four (thorough: five) calls over the five transaction functions, an insertion, a count and a deletion",
     "The suite's reliable part never runs a generated module; locking depends on the interleaving.",
     ["lang-nodejs.c"], [("transactions", "lang-nodejs.c gen_ortctx")],
     ["results and exceptions of the functions", "contents of the database in the end"],
     "explicit-state exploration of all interleavings of two connections on the real module and SQLite, against a model of the documented locking",
     "All histories up to the stated length; after a transaction is begun within another, nothing more is judged.")
prop("Q02", "Generated C functions do to a database what the configuration says",
     "For every accepted configuration, the header and source that ort-c-header and ort-c-source write compile together, and each insert, update, delete, search, list, iterate and count function, called with any arguments on any contents that the schema of ort-sql allows, gives the rows, order, limit, count, nested objects and null flags that the configuration denotes, changes exactly the rows it denotes, reports constraint failures as documented, makes no invalid access and leaves no memory behind once the results are freed.",
     ["inputs", "histories", "configurations"], "all contents of the tables up to two or three rows over small domains and all arguments over theirs (pairs of arguments where there are too many), for the configurations of Q01, in safe and unsafe typing",
     "The suite's reliable part never runs generated C.",
     ["lang.c", "lang-c-header.c", "lang-c-source.c", "sql.c", "lang-sql.c"], [("statements", "lang.c gen_sql_stmts"), ("functions", "lang-c-source.c gen_func_fill_r, gen_func_search, gen_func_iter, gen_func_update, gen_func_insert"), ("interface", "lang-c-header.c")],
     ["results of the generated functions", "contents of the database afterwards", "sanitizer reports and remaining allocations"],
     "explicit-state exploration: every call on every content of the database, run by the compiled C in SQLite and judged against reference semantics",
     "All contents and arguments within the stated bounds; sqlbox(3) and crypt_newhash(3) are stood in for.")
prop("R03", "Generated C code enforces roles: what they may do, enter and see",
     "For every configuration with roles, each generated C function runs if and only if the current role is, or descends from, a role the operation is assigned to, and ends the process otherwise; roles are entered only from the default role, by moving to an ancestor, or by entering none; db_role_current gives the role held; and objects export exactly the fields that the role in which they were made may see, whatever the role becomes.",
     ["histories", "configurations"], "all sequences of requests for roles up to four long over all roles and built-in roles, followed by each operation and the export of its result before and after a further change of role, over the configurations of R02",
     "The suite's reliable part never runs generated C; roles are security relevant.",
     ["lang-c-source.c", "linker.c", "parser_roles.c"], [("enforcement", "lang-c-source.c gen_func_open, gen_func_role_transitions"), ("export", "lang-c-source.c gen_func_json_data"), ("effective roles", "linker.c")],
     ["whether the generated functions run or abort", "exported JSON"],
     "explicit-state exploration of role histories on the compiled C, each step and each operation in it judged against the reference",
     "All sequences and configurations of the stated spaces; what the default role may do where roles are assigned to all is not judged. sqlbox(3) is stood in for.")
prop("J02", "Generated C exports and imports JSON faithfully, safely and without leaks",
     "For every configuration with JSON export and import (ort-c-header -j -J), exporting an object writes exactly the fields that are not marked noexport, with their values (null for nulls, base64 for blobs, nested structures as objects), in each of the forms offered; importing what was exported gives the object back; a document that is malformed, of the wrong type, out of range or incomplete is refused; no document or failing allocation makes import read or write out of bounds, leak, or leave a count of elements that aren't there.",
     ["inputs", "configurations", "fault_sequences"], "all objects over a menu of values per type, all documents of up to two (nested: three) pairs over menus of values, all single-token edits, all short token strings, and each allocation failing in turn",
     "The suite's reliable part never runs generated C; JSON comes from users.",
     ["lang-c-source.c", "lang-c-header.c", "jsmn.c"], [("export", "lang-c-source.c gen_func_json_data, gen_json_out"), ("import", "lang-c-source.c gen_func_json_parse, gen_json_parse"), ("tokens", "jsmn.c")],
     ["exported JSON", "results of the import functions and the objects", "sanitizer reports and remaining allocations"],
     "explicit enumeration of objects and documents, run by the compiled C under sanitizers, with each allocation failing in turn, against a reference importer",
     "All objects, documents and faults of the stated spaces. kcgijson(3) is stood in for.")
prop("V02", "Generated C validators accept exactly what type and limits allow",
     "For every field of every accepted configuration, the validator that ort-c-source -v generates is declared, defined, listed in the table of validators, and accepts an input if and only if it has the field's type (as the Node validators do) and satisfies every limit given (values for numbers and dates, lengths for text, e-mail and blobs, with decimals compared at full precision).",
     ["inputs", "configurations"], "all types, all limits of a menu alone and in pairs, all strings up to length 3 (thorough: 4) over an alphabet per type, and the boundaries of all types",
     "The suite's reliable part never runs generated C; validators guard what users send.",
     ["lang-c-source.c", "lang-c-header.c", "parser_field.c"], [("validators", "lang-c-source.c gen_func_valid_types, gen_func_valid_struct"), ("table", "lang-c-header.c, lang-c-source.c gen_valid_enums")],
     ["results of the valid_ functions, called directly and by the table"],
     "explicit enumeration of declarations and inputs on the compiled validators, against an executable reading of the manuals",
     "All declarations and inputs of the stated spaces; bit index 64, exponents, radix prefixes, padding and unusual e-mail addresses are not judged. kcgi(3) is stood in for.")
prop("T02", "Generated C transactions are atomic, isolated and locked as documented",
     "For every history of a connection of generated C on a database, db_trans_open, commit and rollback with any identifiers and modes do what the manual says: immediate transactions exclude other writers at once, deferred ones on first access, exclusive ones all others; what is committed stays and is seen by others only then; what is rolled back or not committed when closed leaves no trace.",
     ["histories", "schedules"], "all histories up to four (thorough: five) calls of ten transaction calls and four data functions, with another connection trying to read, write and lock after each",
     "The suite's reliable part never runs generated C; locking depends on the history.",
     ["lang-c-source.c"], [("transactions", "lang-c-source.c gen_transactions")],
     ["results of the functions", "what another connection can do and see", "contents of the database in the end"],
     "explicit-state exploration of all histories on the compiled C and SQLite, against a model of the documented locking",
     "All histories up to the stated length. sqlbox(3) is stood in for.")
prop("C01", "Generated C compiles and defines exactly the documented functions",
     "For every accepted configuration and every combination of -j, -J, -v, -s and -N, the header ort-c-header writes compiles by itself, alone and included twice, as C99 and GNU C11; the source ort-c-source writes compiles with it; each function declared is defined exactly once, and the functions are exactly those the manual has for the configuration, whatever its names, texts and values.",
     ["configurations"], "all statements of the menus and pairs and products of them, all pairs of operations, all digraphs of structure references, all literals, all keywords and colliding names in each place where names are, and all combinations of options",
     "The suite's reliable part never compiles generated C.",
     ["lang-c-header.c", "lang-c-source.c", "lang-c.c", "lang.c", "parser.c", "linker.c"], [("header", "lang-c-header.c ort_lang_c_header"), ("source", "lang-c-source.c ort_lang_c_source"), ("names", "lang-c.c, parser.c badidents"), ("comments", "lang.c print_comment")],
     ["the compiler's verdict", "functions declared and defined"],
     "explicit enumeration of configurations and options, compiling what is generated and comparing the functions with those the configuration has",
     "All configurations and options of the stated spaces; names of the C library and of the libraries used are not judged. A known finding: an enumeration named role with items named as roles.")
prop("X01", "Translations are extracted, updated and joined without loss or invention",
     "For every configuration and every XLIFF 1.2 file: extracting lists each distinct default label (jslabel, isnull, isunset) exactly once, as well-formed XLIFF with unique identifiers; updating keeps the translations there are for labels still used, drops the others and adds those missing; joining gives exactly those labels whose default is a source the translation of it, in the target language, leaving everything else of the configuration as it was, and what it writes reads back; a missing translation is an error, or with -c the default is kept; extract, translate and join together are lossless for all text. Files that are malformed or lack what they must have are refused with a message and a nonzero exit, never a crash, a leak, or output.",
     ["inputs", "configurations", "histories", "fault_sequences"], "all strings to a length over a hostile alphabet in each role, all sets of units for all labellings of a base, all histories of extraction, edit, update, translation and join, all element trees to a size, all truncations and single-byte edits",
     "The suite has a few pairs of files; translators' tools write any XLIFF and any text.",
     ["xliff.c", "lang-xliff.c", "writer.c"], [("extract", "lang-xliff.c ort_lang_xliff_extract"), ("update", "lang-xliff.c ort_lang_xliff_update"), ("join", "lang-xliff.c ort_lang_xliff_join"), ("parser", "lang-xliff.c xstart, xend")],
     ["the XLIFF or configuration printed", "exit status and diagnostics", "sanitizer reports and remaining allocations"],
     "explicit-state exploration of translation histories and enumeration of files on the real ort-xliff, against a reference model of XLIFF reading and joining",
     "All configurations, files and histories of the stated spaces; numeric references and repeated elements are not judged.")
prop("W01", "Generated front-end classes fill documents exactly as documented",
     "For every accepted configuration, the classes ort-javascript generates run, and for every object exported, every document and every method (fill, fillInner, fillByClass, fillInnerByClass, fillArray, fillArrayByClass, fillArrayOrHide, fillArrayOrShow), exactly the elements having the documented classes are changed in exactly the documented way: text, value, checked and selected states, ISO 8601 dates in UTC whatever the time zone, bits by index, hiding and showing for null, nested objects, arrays by cloning the first element; passwords and fields not exported are never shown; text is never taken for markup; callbacks, alone or in arrays, are called once per element and field with the value (null when null, not at all when absent), in order, after the generic classes are filled; enumerations and bit-fields format to the labels of the document's language, falling back to the default; their constants have the values configured.",
     ["inputs", "configurations", "histories"], "all field types x null x export x boundary values x classes x placements x methods, one call and two in succession, all subsets of callbacks, arrays to three objects, all labels and languages, all sets of five bits, in three time zones",
     "The suite doesn't run generated JavaScript except by hand in a browser.",
     ["lang-javascript.c", "ortPrivate.ts"], [("fields", "lang-javascript.c gen_js_field, ortPrivate.ts _fillField"), ("methods", "lang-javascript.c ort_lang_javascript"), ("labels", "lang-javascript.c gen_labels, ortPrivate.ts _strlang"), ("dates and bits", "ortPrivate.ts _fillDateValue, _fillBitsChecked")],
     ["the document after each call", "callbacks with their arguments", "values of constants"],
     "explicit enumeration of documents, objects and calls, running the generated code in node on a model of the document, against a reference filler",
     "All documents, objects and call sequences of the stated spaces. What the manual and the generated documentation say differently (a null value with value-checked or enum-select, showing what was hidden before, blobs as text) is not judged. The browser's document is stood in for.")
prop("W02", "64-bit numbers of the front end keep their exact value",
     "For all 64-bit operands, signed or unsigned, as objects or numbers, the operations of the generated class Long (add, sub, mul, neg, not, and, or, shl, compare, eq, isZero, isNegative, isOdd, toNumber, toInt) give the exact result wherever it is specified; conversion from a string gives the exact value of an optional minus and decimal digits, and null for everything else; conversion from a number is exact or clamped to the range.",
     ["inputs"], "all operations on all pairs of boundary values around powers of two, both signs, signed and unsigned, all conversions of boundary and malformed strings and numbers",
     "JavaScript numbers lose precision beyond 53 bits and bit operations 32, so errors show only at boundaries no test uses.",
     ["ortPrivate.ts"], [("Long", "ortPrivate.ts class Long")],
     ["results of the operations"],
     "explicit enumeration of operand pairs on the generated class run in node, against exact integer arithmetic",
     "All operations on the stated operands; wrapping of add, sub and mul is not specified.")

prop("N01", "Generated TypeScript type-checks and has the documented interface",
     "For every configuration, the output of ort-nodejs, with or without -e and -v, and the TypeScript of ort-javascript type-check under strict mode against the "
     "declarations of the packages they import; and the classes, methods and enumerations the manuals promise for the configuration exist with the "
     "promised parameter and return types.",
     ["configurations"], "every configuration of the feature menus, pairs of features, and names: reserved words of JavaScript and TypeScript as structures, fields, enumerations, items, roles, and functions",
     "Each feature contributes fragments that only break in combination with others (null, foreign, role, password); the suite compiles none of the output.",
     ["lang-nodejs.c", "lang-javascript.c", "nodejs.c", "javascript.c"], [("ort_lang_nodejs", "lang-nodejs.c"), ("ort_lang_javascript", "lang-javascript.c")],
     ["the diagnostics of the TypeScript compiler", "declared signatures of exported classes and functions"],
     "explicit enumeration of configurations; the TypeScript compiler's checker as transition oracle; signatures against a reference written from ort-nodejs(1) and ort-javascript(1)",
     "Packages (better-sqlite3, bcrypt, validator, express) are represented by declarations written from their documentation.")

prop("F02", "Failed output is reported by library functions and exit status",
     "For every tool, option set and configuration: whichever single write to the output fails, alone or with all later ones, buffered or not, "
     "the tool exits with a failure status and without crashing, and the library function that was writing returns failure.",
     ["fault_sequences", "configurations"], "every write operation of every distinct call stack of every tool, failing once or for good, over the configurations of the menus",
     "Output errors do not occur in tests; each of some thousand writes has its own propagation path up to main.",
     ["lang-c-source.c", "lang-c-header.c", "lang-c-manpage.c", "lang-c.c", "lang-nodejs.c", "lang-javascript.c", "lang-rust.c", "lang-sql.c", "lang-json.c", "lang-xliff.c", "writer.c", "writer-diff.c", "main.c"],
     [("ort_write_file", "writer.c"), ("ort_write_diff_file", "writer-diff.c"), ("ort_lang_c_source", "lang-c-source.c"), ("main", "main.c")],
     ["exit status", "return value of the library function", "signals"],
     "exhaustive fault injection on the real code: every write of every distinct call stack is failed in its own run, against the unfailed run",
     "Write failures are simulated at the stdio calls of the code; partial writes are not modelled in the unbuffered mode.")

prop("F01", "Failed allocations never crash a tool nor change what it prints",
     "For every tool, option set and configuration: whichever single allocation fails, alone or with all later ones, the tool "
     "does not crash or run into undefined behaviour, and either exits with a failure status or prints exactly what it would have without the failure; "
     "in particular, an invalid configuration is not taken for valid.",
     ["fault_sequences", "configurations"], "every allocation of every distinct call stack of every tool, failing once or for good, over the configurations of the menus",
     "Allocations do not fail in tests; each of some thousand has its own error path, many shared with values still unresolved.",
     ["parser.c", "linker.c", "linker_resolve.c", "config.c", "diff.c", "log.c", "lang.c", "lang-c.c", "lang-nodejs.c", "lang-xliff.c", "audit.c"],
     [("ort_parse_file", "parser.c"), ("linker_resolve", "linker_resolve.c"), ("ort_config_alloc", "config.c"), ("ort_diff", "diff.c")],
     ["exit status", "standard output", "signals and sanitizer reports"],
     "exhaustive fault injection on the real code under sanitizers: every allocation of every distinct call stack is failed in its own run, against the unfailed run",
     "Leaks after failed allocations are not judged; warnings lost while the output is the same are not either.")

prop("F03", "No tool crashes, hangs or keeps memory, whatever it is given",
     "For every tool and option set, and every configuration, accepted or not: the tool ends with an exit status, without a crash, "
     "undefined behaviour (out-of-bounds access, use after free, overflow, null dereference) or hanging, and with all memory it allocated released.",
     ["inputs", "configurations"], "every configuration of the menus, the corpus, and every one-token deletion, exchange and replacement and doubling of up to three tokens of a set of texts",
     "Error paths leave structures half built in as many ways as there are tokens; the tests reach a few hundred of them, without sanitizers.",
     ["parser.c", "parser_field.c", "parser_enum.c", "parser_struct.c", "parser_roles.c", "linker.c", "linker_resolve.c", "config.c", "writer.c", "diff.c", "lang-xliff.c", "lang-c.c"],
     [("ort_parse_file", "parser.c"), ("ort_parse_close", "linker.c"), ("ort_config_free", "config.c")],
     ["exit status", "signals and sanitizer reports", "allocations not freed"],
     "exhaustive enumeration of configurations and their one-step mutants, run on the real tools under sanitizers with allocations counted",
     "Memory of the C library is not counted.")

prop("M01", "Manual pages of the generated C describe the generated C",
     "For every configuration and option set, ort-c-manpage prints a well-formed mdoc(7) page that documents, in synopsis and description, exactly the "
     "functions for queries, updates, deletions, insertions, JSON import and export of the C header of the same options, with their types, and its structures with their "
     "members, its enumerations, bit-fields and roles; comments of the configuration appear as their text, and nothing in them acts as a macro or escape.",
     ["configurations", "inputs"], "every configuration of the menus, pairs of operations, and every comment of up to three lines that mean something to mdoc(7) in every place a comment has",
     "The page is generated independently of the header, field by field; no test looks at either.",
     ["lang-c-manpage.c", "cmanpage.c", "lang-c-header.c", "lang-c.c"], [("ort_lang_c_manpage", "lang-c-manpage.c"), ("ort_lang_c_header", "lang-c-header.c")],
     ["functions, types and members read back from page and header", "text lines and macros of the page"],
     "explicit enumeration of configurations; the page, parsed, against the parsed header and, for comments, against the page without them",
     "Parameters that are functions, db_role and transactions, and the explanatory texts are not judged.")

RS = ["lang-rust.c", "lang.c", "lang-sql.c"]
prop("U01", "Generated Rust compiles and has the interface its manual gives",
     "For every valid configuration, what ort-rust prints compiles, given the crates its manual names, and has exactly: a method for every insertion, query, update, "
     "and deletion, with parameters and result of the types ort-rust(1) gives; structures with a member for every field of the type given, optional where null; "
     "enumerations and bits whose discriminators are the item's value and one more than the bit's index; roles and the methods that change and give them.",
     ["configurations", "programs"], "every configuration of the menus and every word that Rust or the generated code uses as every kind of name",
     "The tests of generated Rust aren't run by default and have twenty configurations; whether output compiles depends on combinations of field, type, null and reference.",
     ["lang-rust.c", "lang.c"], [("ort_lang_rust", "lang-rust.c")],
     ["errors of the Rust compiler on the output and on code that uses it as documented"],
     "explicit enumeration of configurations; the compiler decides each together with a program that states the documented interface",
     "The crates are stood in for, offline, by the parts of their interface that generated code uses.")

prop("Q03", "Generated Rust methods do to a database what the configuration says",
     "For every valid configuration, contents of its tables, and arguments, each method of ort-rust's output gives the result and leaves the contents that the "
     "configuration defines: queries give the matching rows in the given order, distinct, grouped and limited, with nested structures filled in; insertions give the identifier "
     "or -1 on a failed constraint; updates whether a constraint failed; deletions an error.",
     ["histories", "configurations", "inputs"], "every database of up to two or three rows per table over the menus of values, every method, and every tuple of arguments",
     "Results depend on the contents, nulls and the operators together; the tests insert a row or two and read them back.",
     RS, [("gen_query", "lang-rust.c"), ("gen_update", "lang-rust.c"), ("gen_insert", "lang-rust.c"), ("gen_reffind", "lang-rust.c"), ("gen_fill", "lang-rust.c")],
     ["results of methods", "contents of tables after"],
     "explicit-state exploration: the compiled output is run on every state and call, against a reference written from the manuals",
     "Crates are stood in for over the system's SQLite; hashing isn't bcrypt's.")

prop("J03", "Generated Rust exports objects as the JSON of what they hold",
     "For every object a method of ort-rust's output gives, export() is well-formed JSON, of exactly the fields that are exported, each once, with the value held: "
     "texts escaped so that they read back the same, blobs in base64, null where null, structures nested.",
     ["inputs", "configurations"], "every stated value of every type, orders of fields with all combinations of nulls and fields that aren't exported, and nesting to two levels",
     "Escaping and commas depend on each character and each field before; the one test exports one object.",
     ["lang-rust.c"], [("gen_field_to_json", "lang-rust.c"), ("gen_data_strct", "lang-rust.c"), ("gen_objs_strct", "lang-rust.c")],
     ["text returned by export()"],
     "explicit enumeration of contents; each export is parsed and compared with the contents",
     "Decimals may be strings, as ort-nodejs has them.")

prop("R04", "Generated Rust lets roles do, enter and see what the configuration says",
     "For every configuration with roles: a method of ort-rust's output runs in a role exactly if it's assigned to that role or one it descends from, and panics "
     "otherwise, before touching the database; a role is left only for an ancestor or none (the default role for any, none never); objects export exactly the fields "
     "not hidden from the role they were fetched in.",
     ["histories", "configurations"], "every sequence of up to four requests for roles over all trees of up to four roles and assignments, and every method in each role reached",
     "The privilege held depends on the path taken; no test of Rust has roles that change.",
     ["lang-rust.c"], [("gen_rolemap", "lang-rust.c"), ("gen_ortctx_dbrole", "lang-rust.c"), ("gen_field_to_json", "lang-rust.c")],
     ["panics", "results and exports", "db_role_current()"],
     "explicit-state exploration of the compiled output over all sequences of role requests, against the documented lattice",
     "Whether the default role has what's assigned to all isn't judged.")

prop("G04", "What a configuration means depends on neither layout, order, nor files",
     "For every valid configuration, changing white-space (none where none is needed), comments, line endings, or the case of names and keywords changes nothing of what any tool "
     "prints but positions; and ordering its top-level statements otherwise, the statements of a structure other than its fields, or cutting it into several files "
     "in any order (or reading it from standard input) gives a configuration of the same meaning.",
     ["configurations", "inputs"], "each of twelve fillers at every gap of every configuration and at all gaps at once, case of every word, every permutation of up to five statements (each moved and each pair swapped beyond), and every cut into files",
     "References forward, between files, and state kept between statements only matter in orders that no test has.",
     ["parser.c", "parser_struct.c", "parser_field.c", "parser_roles.c", "parser_enum.c", "parser_bitfield.c", "linker.c", "linker_resolve.c", "linker_aliases.c"],
     [("parse_next", "parser.c"), ("ort_parse_close", "linker.c"), ("linker_resolve", "linker_resolve.c"), ("parse_struct_data", "parser_struct.c")],
     ["acceptance", "ort-json's output without positions", "all tools' output"],
     "explicit enumeration of layouts and orders through the real tools, compared with the configuration as first laid out",
     "The order of fields and of items is kept, being part of the meaning.")

prop("F05", "Comments and labels stay text in everything that's generated",
     "Whatever the text of the comments and labels of a configuration, what ort-c-header, ort-c-source, ort-nodejs, ort-javascript, ort-sql, ort-rust and ort-c-manpage print for it "
     "is the same code but for the contents of comments and strings, and each comment that is documentation has the text as it was written.",
     ["inputs", "configurations"], "every string of up to three (four) of the characters that end or escape something in any of the languages, in all places at once, and the same at each column about where comments are filled",
     "One character at one column can end a comment; the tests' comments are prose.",
     ["lang.c", "lang-c-header.c", "lang-c-manpage.c", "lang-nodejs.c", "lang-javascript.c", "lang-sql.c"],
     [("print_comment", "lang.c"), ("gen_comment", "lang.c"), ("gen_label_text", "lang-javascript.c"), ("gen_doc_block", "lang-c-manpage.c")],
     ["words of generated code", "contents of its comments"],
     "explicit enumeration of texts through the real tools; outputs are split into words by the rules of their language and compared",
     "A text's star-slash may be defused in any way.")

prop("L01", "Tools read the files and options that their command lines name",
     "Every tool takes the options of its manual however they're spelt and ordered, and the files its synopsis gives that meaning (old and new around -f, configurations and translations "
     "around -x, standard input where there are none), and does with them what it does with the same in one file: same output, exit status and messages, whose positions are those in the "
     "files. Options it hasn't, operands whose meaning isn't said, and files that can't be read are refused with a message, a failing status, and no output.",
     ["inputs", "configurations"], "every sequence of a tool's options to length four (or three) in every spelling, and every sequence of up to four operands over files that complete each other, are bad, empty, or missing",
     "A file taken for the other side, or an option that only works alone, prints something plausible; the tests run each tool one way.",
     ["main.c", "maindiff.c", "mainaudit.c", "audit-json.c", "cheader.c", "csource.c", "cmanpage.c", "nodejs.c", "javascript.c", "json.c", "rust.c", "sql.c", "sqldiff.c", "xliff.c"],
     [("main", "maindiff.c"), ("main", "sqldiff.c"), ("main", "xliff.c"), ("main", "csource.c")],
     ["output", "exit status", "messages and their positions"],
     "explicit enumeration of command lines against the real tools' main functions; a command line is judged by its normal form in a single file",
     "Options after operands and repeated single-valued options aren't judged.")

prop("W03", "The audit page shows what a role may do and reach",
     "audit.html with audit.js and what ort-audit-json -s prints shows, for every configuration and role: the role and its documentation; of each structure, its fields that the role "
     "reads and whether they're exported, the operations leading there with their paths, and the operations granted, with right numbers; the same by kind of operation; "
     "and whatever link is followed, in whatever order, the documentation, paths, and export of what was linked, and of nothing else.",
     ["configurations", "histories"], "all role forests, role statements and hidden fields of R01's menus for every role; each link of each page, followed in order and then in reverse",
     "An auditor trusts this page: one wrong flag hides an exposure. It has no test at all, and depends on what was shown before.",
     ["audit.js", "audit-json.c", "audit.c"],
     [("auditFill", "audit.js"), ("fillDataField", "audit.js"), ("fillAccessfrom", "audit.js"), ("gen_audit_json", "audit-json.c")],
     ["the page's visible text", "what's shown aside after each click"],
     "explicit enumeration of configurations through the real tool into the real page over a document model, against the reference's audit",
     "Style sheets but for the hiding class aren't modelled; order of listing isn't judged.")

prop("F04", "A refusal is explained at the place where it's due",
     "Whenever a configuration is refused, standard error has messages of the documented form, of which one is an error; for syntax, its file and line are those of the first word that can't be there, "
     "whatever precedes it (comments, strings of several lines, other line endings); for names and types, those of the statement, of what it names, or of the structure it's in. "
     "All tools say the same, no message is for a line that there isn't, and nothing is called an error in what's accepted.",
     ["inputs", "configurations"], "every loss, doubling, and replacement of each word of feature-complete configurations, cuts at each word, and every refused statement of the menus, in four layouts",
     "The tests only look at whether a file is refused. A refusal without a word, or blaming another line, leaves the user with nothing.",
     ["parser.c", "log.c", "parser_struct.c", "parser_field.c", "parser_roles.c", "parser_enum.c", "parser_bitfield.c", "linker.c", "linker_resolve.c"],
     [("parse_next", "parser.c"), ("parse_err", "parser.c"), ("gen_errx", "linker.c"), ("ort_write_msg_file", "log.c")],
     ["messages on standard error", "exit status"],
     "explicit enumeration of refused configurations on the real tools, compared with where the reference reading of ort(5) stops",
     "Texts of messages and columns aren't judged.")
prop("K01", "Generated documentation says what's commented, and what functions do",
     "Every comment of a configuration, whatever its length and layout, is the documentation of what it comments, and of nothing else, once and with all of its words, in generated C headers and TypeScript. "
     "What's generated to document a function names each of its arguments in order, with the field it's for, how it's compared or changed, and whether it's a password or its hash; the fields that take no argument and whether they're checked to be null or not; "
     "what it returns and whether that's distinct: in C headers, manual pages, and for Node alike.",
     ["configurations", "inputs"], "all operations of the menus, their products and pairs, operations on permutations of up to three fields, and comments of ten shapes at each of 38 places, in pairs, and all together",
     "No test reads what's generated. Arguments of generated functions are only numbered: documentation is all that tells a caller which is which, and types rarely catch one that's taken for another.",
     ["lang-c-header.c", "lang-c-manpage.c", "lang-nodejs.c", "lang-javascript.c", "lang.c"],
     [("gen_update", "lang-c-header.c"), ("gen_search", "lang-c-header.c"), ("gen_update", "lang-nodejs.c"), ("gen_query", "lang-nodejs.c"), ("gen_comment", "lang.c")],
     ["comments of headers and TypeScript, by the declaration they precede", "tables of the manual page", "parameters of methods"],
     "explicit enumeration of configurations and comments, reading the outputs of the real tools back and comparing them with the reference reading of the configuration",
     "The present wording of what's generated is taken as it is.")
prop("A01", "The library keeps configurations, and calls, apart",
     "What a call of the library returns and prints is a matter of the configurations it's given and of what these have been through: it's the same whatever else the process has parsed, refused, released, compared or generated before, "
     "in between the pieces of a configuration, or (from within the reads and writes of the call's files) during the call. Generating, writing, comparing and auditing leave configurations as they were, as does what's refused; "
     "configurations may be released in any order, what's been printed stays, nothing is kept once all are released, and configurations with joined translations are as good as others.",
     ["schedules", "histories"], "all interleavings of the lives of two configurations, all sequences of up to two (for one pair, three) of 45 calls on pairs of configurations, and each call within each other at each of its reads and writes",
     "Tools make few calls and exit; the tests only run tools. Programs linked with the library (and ort-diff, ort-sqldiff, which have two configurations) depend on there being no state in between.",
     ["config.c", "parser.c", "linker.c", "linker_aliases.c", "lang-xliff.c", "lang-json.c", "lang-c-source.c", "lang-sql.c", "writer.c", "diff.c", "audit.c"],
     [("ort_parse_file", "parser.c"), ("ort_config_free", "config.c"), ("linker_aliases", "linker_aliases.c"), ("xliff_join_unit", "lang-xliff.c"), ("ort_diff", "diff.c")],
     ["results of ort_parse_file, ort_parse_close, ort_write_file, ort_diff, ort_audit and ort_lang_*", "what they write", "memory kept"],
     "explicit enumeration of interleavings, sequences and nestings of library calls, run on the real library in one process and compared with the call where only what its own configurations went through precedes it",
     "Calls are not made from several threads. After a refused configuration only messages and release are called.")
prop("F06", "What a tool prints depends on what it's given, and nothing else",
     "For any configuration, accepted or refused, and any options, a tool's status, output and messages are the same however memory that's not been written to looks, wherever allocations lie and however they are ordered, "
     "however the tool is optimised, and whatever the time, process, time zone, locale and random numbers are.",
     ["inputs", "configurations"], "the menus, corpus, pairs of statements, and every loss, doubling, exchange and replacement of tokens of some of them, with all tools, in three environments of memory",
     "The tests compare output on one machine where fresh memory mostly is zero: a variable that's not set, or an order of addresses, doesn't show until it's elsewhere.",
     ["parser.c", "parser_struct.c", "parser_field.c", "linker.c", "linker_resolve.c", "lang-c-source.c", "lang-nodejs.c", "lang-rust.c", "lang-json.c", "lang-sql.c", "lang-xliff.c", "diff.c", "audit.c"],
     [("parse_field", "parser_field.c"), ("parse_struct", "parser_struct.c"), ("ort_parse_close", "linker.c"), ("gen_string", "lang-json.c"), ("ort_audit", "audit.c")],
     ["standard output", "messages", "exit status"],
     "explicit enumeration of inputs and environments of memory, on the real tools built for each environment",
     "Memory that's not been written to has the same byte throughout a run. What the C library allocates itself isn't filled.")
prop("B01", "What's promised is so however many there are, and however long",
     "What a configuration's outputs, generated functions, differences, audits and translations promise holds alike for one structure, field, item, role, query, term, order, unique clause, limit, reference, level, language, file or "
     "translation as for many of them, and for names, comments, labels, defaults and white-space however long: nothing's truncated, merged, dropped, wrapped around or numbered apart where a count or length goes past what's usual.",
     ["configurations", "inputs"], "22 families of configurations by count, 1 up to 66, 13 kinds of text by length, all up to 69 and those around the powers of two up to 65536, up to 69 files and translated labels",
     "The tests have a handful of everything, all of it short: buffers that grow, counters with two digits, aliases that need another letter and bits past the 32nd aren't reached.",
     ["parser.c", "parser_field.c", "parser_struct.c", "parser_roles.c", "linker.c", "linker_aliases.c", "linker_resolve.c", "writer.c", "lang.c", "lang-c-source.c", "lang-nodejs.c", "lang-rust.c", "lang-json.c", "lang-sql.c", "lang-xliff.c", "diff.c", "audit.c"],
     [("buf_push", "parser.c"), ("linker_aliases", "linker_aliases.c"), ("gen_sql_stmts", "lang.c"), ("ort_write_file", "writer.c"), ("ort_diff", "diff.c")],
     ["each tool's output", "rows and results of generated functions", "what compilers make of generated code"],
     "explicit enumeration of counts and lengths, with what's made for each judged by the models of the other properties and the generated code run on real databases",
     "Lengths around powers of two stand for those between them. SQLite joins no more than 64 tables.")
