"""Demonstrations that run generated code: cdemo() compiles what ort-c-header
and ort-c-source write with stand-ins for the libraries and compares its
answers with those of the unchanged tree; ndemo() runs a script on what
ort-nodejs writes."""
import json, os, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/mc")
import build, cgen, core, q, ref

NODE = r"""
'use strict';
const fs = require('fs'), vm = require('vm');
const ts = require('/opt/veriftools/node/node_modules/typescript');
const { DatabaseSync } = require('node:sqlite');
const conv = x => x instanceof Uint8Array ? Buffer.from(x) : x;
class Statement {
	constructor(d, sql) { this.s = d.db.prepare(sql); this.s.setReadBigInts(d.safe); this.raw_ = false; }
	raw(b) { this.raw_ = b === undefined || b; this.s.setReturnArrays(this.raw_); return this; }
	row(r) { return Array.isArray(r) ? r.map(conv) : r; }
	get(...a) { const r = this.s.get(...a.flat()); return r === undefined ? r : this.row(r); }
	all(...a) { return this.s.all(...a.flat()).map(r => this.row(r)); }
	*iterate(...a) { for (const r of this.s.all(...a.flat())) yield this.row(r); }
	run(...a) {
		try {
			const r = this.s.run(...a.flat());
			return { changes: Number(r.changes), lastInsertRowid: BigInt(r.lastInsertRowid) };
		} catch (e) {
			const x = new Error(e.message);
			x.code = (e.errcode & 255) === 19 ? 'SQLITE_CONSTRAINT' : 'SQLITE_ERROR';
			throw x;
		}
	}
}
class Database {
	constructor(n) { this.db = new DatabaseSync(n); this.safe = false; Database.all.push(this); }
	prepare(s) { return new Statement(this, s); }
	exec(s) { this.db.exec(s); return this; }
	defaultSafeIntegers(b) { this.safe = b === undefined || b; return this; }
}
Database.all = [];
const bcrypt = { hashSync: (s, n) => 'H' + s, compareSync: (s, h) => h === 'H' + s };
const validator = { isEmail: s => /^[^@ ]+@[^@ ]+\.[^@ ]+$/.test(s), normalizeEmail: s => s.toLowerCase(),
	isDecimal: s => /^[-+]?([0-9]+)?(\.[0-9]+)?$/.test(s) && s !== '', isInt: s => /^[-+]?[0-9]+$/.test(s),
	toFloat: s => parseFloat(s), toInt: s => parseInt(s, 10),
	isDate: s => /^\d{4}-\d\d-\d\d$/.test(s), toDate: s => new Date(Date.parse(s)), isLength: (s, o) => s.length >= (o.min || 0) && (o.max === undefined || s.length <= o.max) };
const wrap = x => ({ __esModule: true, default: x });
const shims = { 'better-sqlite3': wrap(Database), bcrypt: wrap(bcrypt), validator: wrap(validator) };
const proc = Object.create(process);
class Abort extends Error {}
proc.abort = () => { throw new Abort('abort'); };
const js = ts.transpileModule(fs.readFileSync(process.argv[2], 'utf8'), { compilerOptions: { target: 'ES2022', module: 'CommonJS', esModuleInterop: true } }).outputText;
const M = {};
vm.runInThisContext('(function(exports, require, process){' + js + '\n})')(M, n => shims[n] || require(n), proc);
const sql = fs.readFileSync(process.argv[3], 'utf8');
const file = process.argv[3] + '.db';
function eq(got, want, what) {
	const s = x => JSON.stringify(x, (k, v) => typeof v === 'bigint' ? String(v) + 'n' : v);
	if (s(got) !== s(want)) { console.log(what + ': ' + s(got) + ', not ' + s(want)); process.exit(1); }
}
function aborts(f) { try { f(); } catch (e) { if (e instanceof Abort) return true; throw e; } return false; }
function throws(f) { try { f(); } catch (e) { return true; } return false; }
function open() { { const d = new DatabaseSync(file); d.exec(sql); d.close(); } return M.ort(file); }
"""


def ndemo(text, script, flags="-v"):
    """The demonstration: script has M, open(), eq(), aborts()."""
    return ('''set -e
s=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
./ort-nodejs %s "$s/a.ort" > "$d/m.ts"
./ort-sql "$s/a.ort" > "$d/a.sql"
node --no-warnings "$s/run.js" "$d/m.ts" "$d/a.sql"
''' % flags), {"a.ort": text, "run.js": NODE + script}


def cdemo(text, states=(), calls=(), lines=(), fl="jJv", safe=False, js=2, checks=None):
    """calls: (operation, arguments, roles); roles are numbers, see cgen."""
    cfg, err = ref.accepts([("a.ort", text)])
    assert cfg, err
    ops = q.ops(cfg)
    drv = cgen.driver(cfg, ops, fl)
    bld = build.build(core.Check.variants)
    env = core.Env(bld)
    p = cgen.Prog(env, cfg, text, san=True, fl=fl, safe=safe, ops=ops)
    assert not p.err, p.err
    names = [o.name for o in ops]
    for n, a, r in calls:
        assert n in names, (n, names)
    cl = [p.enccall(names.index(n), a, r) for n, a, r in calls]
    L = ["J %d" % js] + cl
    for st in states:
        L += ["Z"] + p.encstate(st) + ["G"]
    L += list(lines)
    env.close()
    fs = {"a.ort": text, "drv.c": drv, "in": "\n".join(L) + "\n"}
    for n in ("pre.h", "sqlbox.h", "kcgi.h", "kcgijson.h", "rt.h", "rt.c"):
        fs[n] = open(V + "/harness/c/" + n).read()
    inc = "d" + fl.replace("J", "")
    demo = '''set -e
s=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
r=$PWD
./ort-c-header %s %s "$s/a.ort" > "$d/db.h"
./ort-c-source %s -I %s -h db.h -S "$r" "$s/a.ort" > "$d/db.c"
./ort-sql "$s/a.ort" > "$d/a.sql"
cd "$d"
gcc -std=gnu11 -w -O0 -fsanitize=address,undefined -fno-sanitize-recover=all -I"$s" -I. -include "$s/pre.h" -c db.c
gcc -std=gnu11 -w -O0 -fsanitize=address,undefined -fno-sanitize-recover=all -I"$s" -I. -include "$s/pre.h" -c "$s/drv.c"
gcc -std=gnu11 -w -O0 -fsanitize=address,undefined -fno-sanitize-recover=all -I"$s" -I. -c "$s/rt.c"
gcc -fsanitize=address,undefined -o prog db.o drv.o rt.o -lresolv -lsqlite3 -lm
{ echo "X $(od -An -v -tx1 a.sql | tr -d ' \\n')"; cat "$s/in"; } > in
TZ=UTC ASAN_OPTIONS=detect_leaks=0:allocator_may_return_null=1 ./prog 3<in 4>out </dev/null
cmp out "$s/expected"
''' % ("-" + fl if fl else "", "-s" if safe else "", "-" + fl if fl else "", inc)
    import tempfile, shutil
    t = tempfile.mkdtemp()
    for n, x in fs.items():
        open(t + "/" + n, "w").write(x)
    open(t + "/expected", "w").write("")
    open(t + "/demo.sh", "w").write(demo.replace('cmp out', 'cp out %s/got; cmp out' % t))
    r = subprocess.run(["bash", t + "/demo.sh"], cwd="/repo", capture_output=True)
    assert os.path.exists(t + "/got"), r.stderr[-600:]
    fs["expected"] = open(t + "/got").read()
    shutil.rmtree(t)
    return demo, fs


WRUN = r"""
'use strict';
const fs = require('fs');
const ts = require('/opt/veriftools/node/node_modules/typescript');
const h = require(__dirname + '/dom.js')({ ts: ts });
const r = h.js_load({ src: fs.readFileSync(process.argv[2], 'utf8') });
if (r.error) { console.error(r.error); process.exit(2); }
const c = JSON.parse(fs.readFileSync(__dirname + '/runs.json', 'utf8'));
const out = c.runs ? h.js_run({ runs: c.runs }) : h.long_run({ ops: c.ops });
fs.writeSync(1, JSON.stringify(out) + '\n');
"""


def wdemo(text, runs=None, ops=None):
    """Documents filled by the classes of ort-javascript."""
    import tempfile
    fs = {"a.ort": text, "run.js": WRUN, "dom.js": open(V + "/harness/dom.js").read(),
          "runs.json": json.dumps({"runs": runs} if runs else {"ops": ops})}
    with tempfile.TemporaryDirectory() as d:
        for n, t in fs.items():
            open(d + "/" + n, "w").write(t)
        open(d + "/m.ts", "w").write(subprocess.run(["./ort-javascript", "-S", ".", d + "/a.ort"], cwd="/repo", stdout=subprocess.PIPE, check=True, text=True).stdout)
        fs["want"] = subprocess.run(["node", d + "/run.js", d + "/m.ts"], stdout=subprocess.PIPE, check=True, text=True).stdout
    return '''set -e
s=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
./ort-javascript -S . "$s/a.ort" > "$d/m.ts"
node --no-warnings "$s/run.js" "$d/m.ts" > "$d/out"
cmp "$d/out" "$s/want"
''', fs

RS = r'''set -e
o=$PWD; h=$(cd "$(dirname "$0")" && pwd); d=$(mktemp -d); trap 'rm -rf "$d"' EXIT; cd "$d"
export RUSTFLAGS=
R="rustc --edition 2018 -C debuginfo=0 -A warnings -L ."
x=
for n in libsqlite3_sys rusqlite num_traits bcrypt base64 num_derive; do
	t=rlib; e=
	[ $n = num_derive ] && t=proc-macro
	[ $n = rusqlite ] && e="--extern libsqlite3_sys=liblibsqlite3_sys.rlib"
	$R --crate-type $t --crate-name $n $e "$h/$n.rs"
	[ $n = num_derive ] && x="$x --extern $n=libnum_derive.so" || x="$x --extern $n=lib$n.rlib"
done
cat "$h/conf.ort" | "$o/ort-rust" >main.rs
cat "$h/main.rs" >>main.rs
$R --crate-name prog $x -o prog main.rs
"$o/ort-sql" "$h/conf.ort" >s.sql
python3 - <<'EOP'
import sqlite3
c = sqlite3.connect('db')
c.executescript(open('s.sql').read())
c.close()
EOP
./prog db >out
cat out
cmp out "$h/expected"
'''


def rdemo(text, main, expected):
    """Compiles what ort-rust writes with a program that uses it."""
    fs = {n: open(V + "/harness/rs/" + n).read() for n in sorted(os.listdir(V + "/harness/rs")) if n != "rt.rs"}
    fs.update({"conf.ort": text, "main.rs": main, "expected": expected})
    return RS, fs
