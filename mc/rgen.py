"""Compiling and running what ort-rust generates, against the stand-ins of
harness/rs for the crates it uses."""
import hashlib, json, os, re, shutil, struct, subprocess, tempfile, time
import build, cgen, dataref as dr, nodeq, q

HR = build.VERIF + "/harness/rs" if hasattr(build, "VERIF") else os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness", "rs")
CRATES = [("libsqlite3_sys", []), ("rusqlite", ["libsqlite3_sys"]), ("num_traits", []), ("bcrypt", []), ("base64", []), ("num_derive", [])]
RUSTC = ["rustc", "--edition", "2018", "-C", "debuginfo=0", "-C", "opt-level=0"]
RAW = set("abstract as async await become box break const continue do dyn else enum extern false final fn for if impl in let loop macro match mod move mut "
          "override priv pub ref return static struct trait true try type typeof unsafe unsized use virtual where while yield".split())


def run(cmd, cwd):
    e = dict(os.environ)
    e.setdefault("HOME", "/root")
    return subprocess.run(cmd, cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE)


def crates():
    """The folder of the stand-ins, compiled once."""
    h = hashlib.sha256()
    for n in sorted(os.listdir(HR)):
        with open(os.path.join(HR, n), "rb") as f:
            h.update(f.read())
    d = "%s/rust-%s" % (build.BASE, h.hexdigest()[:16])
    if os.path.exists(d):
        return d
    os.makedirs(build.BASE, exist_ok=True)
    t = tempfile.mkdtemp(prefix="tmp-rust-", dir=build.BASE)
    try:
        for n, deps in CRATES:
            c = RUSTC + ["-A", "warnings", "--crate-type", "proc-macro" if n == "num_derive" else "rlib", "--crate-name", n]
            for x in deps:
                c += ["--extern", "%s=lib%s.rlib" % (x, x)]
            r = run(c + ["-L", ".", os.path.join(HR, n + ".rs")], t)
            if r.returncode:
                raise build.BuildError(r.stderr.decode("utf-8", "replace")[-2000:])
        os.rename(t, d)
    except OSError:
        # another made them
        if not os.path.exists(d):
            raise
    finally:
        shutil.rmtree(t, ignore_errors=True)
    return d


def externs(d):
    out = ["-L", d]
    for n, _ in CRATES:
        out += ["--extern", "%s=%s/lib%s.%s" % (n, d, n, "so" if n == "num_derive" else "rlib")]
    return out



ROOT = "#[macro_use]\nextern crate num_derive;\n"


def typecheck(mods):
    """Errors by identifier of these (identifier, source)s, compiled together
    as modules; again without those that fail until the others do not."""
    out = {}
    mods = list(mods)
    d = crates()
    t = tempfile.mkdtemp(prefix="tmp-rc-", dir=build.BASE)
    try:
        while mods:
            src, at, n = [ROOT], [], ROOT.count("\n")
            for i, m in mods:
                if ROOT not in m:
                    out[i] = [("root", "there's no use of the crate num_derive", "", 0)]
                    m = ""
                b = "pub mod c%d {\n%s\n}\n" % (len(at), m.replace(ROOT, "", 1))
                k = b.count("\n")
                at.append((n + 1, n + k, i))
                n += k
                src.append(b)
            with open(t + "/x.rs", "w", encoding="utf-8", errors="replace") as f:
                f.write("".join(src))
            r = run(RUSTC + ["--crate-type", "lib", "--crate-name", "x", "--emit=metadata", "-o", "x.rmeta", "-A", "warnings", "--error-format=json"] +
                    externs(d) + ["x.rs"], t)
            if r.returncode == 0:
                break
            bad = {}
            other = []
            for l in r.stderr.decode("utf-8", "replace").splitlines():
                try:
                    e = json.loads(l)
                except ValueError:
                    other.append(l)
                    continue
                if e["level"] != "error" or not e["spans"]:
                    if e["level"] == "error" and "aborting" not in e["message"]:
                        other.append(e["message"])
                    continue
                s = ([x for x in e["spans"] if x["is_primary"]] or e["spans"])[0]
                while s.get("expansion") and s["file_name"] != "x.rs":
                    s = s["expansion"]["span"]
                for a, b, i in at:
                    if a <= s["line_start"] <= b:
                        bad.setdefault(i, []).append(((e.get("code") or {}).get("code") or "syntax", e["message"],
                                                      s["text"][0]["text"].strip() if s["text"] else "", s["line_start"] - a))
            if not bad:
                # such as a brace too many: one by one
                if len(mods) == 1:
                    bad[mods[0][0]] = [("compiler", "; ".join(other)[:300], "", 0)]
                else:
                    h = len(mods) // 2
                    out.update(typecheck(mods[:h]))
                    out.update(typecheck(mods[h:]))
                    return out
            out.update(bad)
            mods = [(i, m) for i, m in mods if i not in bad]
    finally:
        shutil.rmtree(t, ignore_errors=True)
    return out


def title(n):
    return n[0].upper() + n[1:] + ("_" if n == "self" else "")


def ident(n):
    return n + "_" if n in ("self", "super", "crate") else "r#" + n if n in RAW else n


PAR = {"enum": "e", "real": "r", "blob": "b", "text": "s", "email": "s", "password": "s"}


LATE = "            if late { let f = || %s; let was = f(); role(c, 0); if f() != was { o.push_str(\",\\\"late\\\":1\"); } }"


def driver(cfg, ops):
    L = ["use orb::ort::{data, objs};"]
    L.append("pub const TABLES: &[&str] = &[%s];" % ", ".join('"%s"' % n for n in cfg.structs))
    L.append("pub const WRITE: &[bool] = &[%s];" % ", ".join(str(op.write).lower() for op in ops))
    for s in cfg.structs.values():
        L.append("fn d_%s(o: &mut String, p: &data::%s, x: Option<String>) {\n    o.push('{');" % (s.name, title(s.name)))
        first = True
        for f in s.fields.values():
            L.append("    o.push_str(\"%s\\\"%s\\\":\");" % ("" if first else ",", f.name))
            first = False
            a = "p." + ident(f.name)
            if f.type == "struct":
                one, null = "d_%s(o, x, None)" % cfg.target(f).name, s.fields[f.sub].null
            else:
                null = f.null
                one = {"e": "oi(o, num_traits::ToPrimitive::to_i64(x).unwrap())", "r": "or(o, *x)", "b": "ob(o, x)", "s": "os(o, x)"}.get(PAR.get(f.type), "oi(o, *x)")
            if null:
                L.append("    if let Some(x) = &%s { %s; } else { o.push_str(\"null\"); }" % (a, one))
            else:
                L.append("    { let x = &%s; %s; }" % (a, one))
        L.append("    if let Some(e) = x { o.push_str(&format!(\",\\\"_e\\\":\\\"{}\\\"\", hex(e.as_bytes()))); }\n    o.push('}');\n}")
        L.append("fn full_%s(o: &mut String, r: &objs::%s, js: bool) { d_%s(o, &r.data, if js { Some(r.export()) } else { None }); }" % (s.name, title(s.name), s.name))
        L.append("std::thread_local! { static IT_%s: std::cell::RefCell<Vec<objs::%s>> = std::cell::RefCell::new(Vec::new()); }" % (s.name, title(s.name)))
        L.append("fn it_%s(r: objs::%s) { IT_%s.with(|v| v.borrow_mut().push(r)); }" % (s.name, title(s.name), s.name))
    L.append("fn call(c: &mut orb::ort::Ortctx, f: usize, a: &[Arg], js: bool, late: bool, o: &mut String) -> rusqlite::Result<()> {\n    match f {")
    for i, op in enumerate(ops):
        ps = ["a[%d].%s%s()" % (n, "o" if f.null else "", PAR.get(f.type, "i")) for n, (f, how) in enumerate(op.params)]
        r = op.result().name
        call = lambda pre="": "c.%s(%s)?" % (op.name, ", ".join(([pre] if pre else []) + ps))
        L.append("        %d => {" % i)
        if op.kind in ("list", "iterate"):
            if op.kind == "list":
                L.append("            let l: Vec<objs::%s> = %s;" % (title(r), call()))
            else:
                L.append("            IT_%s.with(|v| v.borrow_mut().clear());" % r)
                L.append("            let _: () = %s;" % call("it_" + r))
                L.append("            let l = IT_%s.with(|v| v.borrow_mut().drain(..).collect::<Vec<_>>());" % r)
            L.append("            o.push_str(\",\\\"l\\\":[\");\n            for (i, r) in l.iter().enumerate() { if i > 0 { o.push(','); } full_%s(o, r, js); }\n"
                     "            o.push(']');" % r)
            L.append(LATE % "l.iter().map(|r| r.export()).collect::<String>()" if cfg.roles else "")
        elif op.kind == "search":
            L.append("            let r: Option<objs::%s> = %s;\n            o.push_str(\",\\\"v\\\":\");" % (title(r), call()))
            L.append("            if let Some(ref r) = r { full_%s(o, r, js); } else { o.push_str(\"null\"); }" % r)
            L.append(LATE % "r.iter().map(|r| r.export()).collect::<String>()" if cfg.roles else "")
        elif op.kind in ("count", "insert"):
            L.append("            let n: i64 = %s;\n            o.push_str(\",\\\"v\\\":\"); oi(o, n);" % call())
        elif op.kind == "update":
            L.append("            let n: bool = %s;\n            o.push_str(&format!(\",\\\"v\\\":{}\", n));" % call())
        else:
            L.append("            let _: () = %s;" % call())
        L.append("        }")
    L.append("        _ => panic!(\"function\"),\n    }\n    Ok(())\n}")
    if cfg.roles:
        rs = ["none", "default"] + [r for r in cfg.roles if r not in ("none", "default", "all")]
        L.append("fn role(c: &mut orb::ort::Ortctx, r: usize) { c.db_role(match r { %s _ => panic!(\"role\") }); }" % " ".join(
            "%d => orb::ort::Ortrole::%s," % (i, title(r)) for i, r in enumerate(rs)))
        L.append("fn currole(c: &orb::ort::Ortctx) -> i32 { match c.db_role_current() { %s } }" % " ".join(
            "orb::ort::Ortrole::%s => %d," % (title(r), i) for i, r in enumerate(rs)))
    else:
        L.append("fn role(_: &mut orb::ort::Ortctx, _: usize) { panic!(\"role\"); }\nfn currole(_: &orb::ort::Ortctx) -> i32 { 0 }")
    with open(os.path.join(HR, "rt.rs")) as f:
        return "\n".join(L) + "\n" + f.read()


def compile_(src, drv):
    """The directory of the program compiled of these, or an error."""
    d = crates()
    key = hashlib.sha256(repr((src, drv, d)).encode("utf-8", "surrogateescape")).hexdigest()[:24]
    root = build.BASE + "/rprog"
    os.makedirs(root, exist_ok=True)
    dst = root + "/" + key
    for _ in range(200):
        if os.path.exists(dst + "/prog"):
            os.utime(dst)
            return dst, None
        if os.path.exists(dst + "/failed"):
            with open(dst + "/failed") as f:
                return None, f.read()
        try:
            os.mkdir(dst + ".lock")
            break
        except FileExistsError:
            try:
                if time.time() - os.stat(dst + ".lock").st_mtime > 60:
                    os.rmdir(dst + ".lock")
            except OSError:
                pass
            time.sleep(0.3)
    tmp = tempfile.mkdtemp(prefix="tmp-", dir=root)
    err = None
    try:
        if ROOT not in src:
            err = "the module doesn't use the crate num_derive"
        else:
            one = ROOT + "pub mod orb {\n" + src.replace(ROOT, "", 1) + "\n}\n"
            k = one.count("\n")
            with open(tmp + "/main.rs", "w", encoding="utf-8", errors="surrogateescape") as f:
                f.write(one + drv)
            r = run(RUSTC + ["-A", "warnings", "--crate-name", "prog"] + externs(d) + ["-o", "prog", "main.rs"], tmp)
            if r.returncode:
                e = errors(r)
                m = re.search(r"main.rs:(\d+):", e)
                err = "%s does not compile: %s" % ("a caller" if m and int(m.group(1)) > k else "the module", e)
        if err:
            with open(tmp + "/failed", "w") as f:
                f.write(err)
        try:
            os.rename(tmp, dst)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
        try:
            os.rmdir(dst + ".lock")
        except OSError:
            pass
    return (None, err) if err else (dst, None)


def errors(r):
    l = r.stderr.decode("utf-8", "replace").splitlines()
    out = []
    for i, x in enumerate(l):
        if x.startswith("error"):
            out.append(x + " " + " ".join(y.strip() for y in l[i + 1:i + 5]))
    return "; ".join(out[:2])[:600]


def evict(keep=120):
    root = build.BASE + "/rprog"
    if os.path.isdir(root):
        ds = []
        for n in os.listdir(root):
            try:
                ds.append((os.stat(root + "/" + n).st_mtime, root + "/" + n))
            except OSError:
                pass
        for _, d in sorted(ds)[:-keep]:
            shutil.rmtree(d, ignore_errors=True)


class Prog(cgen.Prog):
    def __init__(self, env, cfg, text):
        self.cfg, self.p, self.file, self.err = cfg, None, None, None
        self.ops = q.ops(cfg)
        r = env.run("ort-rust", [], [], text.encode())
        if r.status:
            self.err = "ort-rust fails: %r" % r.err[-300:]
            return
        sql = env.run("ort-sql", [], [], text.encode())
        if sql.status:
            self.err = "ort-sql fails: %r" % sql.err[-300:]
            return
        self.sql = sql.out
        self.dir, self.err = compile_(r.out.decode("utf-8", "surrogateescape"), driver(cfg, self.ops))
        self.tables = {n: i for i, n in enumerate(cfg.structs)}

    def start(self):
        self.errf = tempfile.TemporaryFile()
        self.loaded = None
        self.p = subprocess.Popen([self.dir + "/prog"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.errf, bufsize=0)
        self.w, self.r, self.buf = os.dup(self.p.stdin.fileno()), os.dup(self.p.stdout.fileno()), b""
        self.p.stdin.close()
        self.p.stdout.close()
        self.send("X " + self.sql.hex())
        a = self.line()
        if a != "ok":
            raise cgen.Died("schema: %s" % a)

    @staticmethod
    def enc(v):
        if isinstance(v, float):
            return "r%d" % struct.unpack("<Q", struct.pack("<d", v))[0]
        return cgen.Prog.enc(v)


def text(h):
    return bytes.fromhex(h).decode("utf-8", "replace")


def result(cfg, op, r, check=None):
    """As q.judge wants it."""
    base = {}
    if "db" in r:
        base = {"db": cgen.result(cfg, op, {"db": r["db"], "abort": 1})["db"]}
    if "error" in r:
        return dict(base, error=text(r["error"]))
    if "abort" in r:
        return dict(base, abort=1, why=text(r["abort"]))
    if "inrole" in r:
        return dict(base, inrole=1, why=text(r["inrole"]))
    return cgen.result(cfg, op, r, check)


def same(a, b):
    """As cgen's, but a decimal may be a string of it, as in ort-nodejs."""
    if isinstance(b, dict):
        return isinstance(a, dict) and set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(b, float) and isinstance(a, str):
        try:
            return float(a) == b
        except ValueError:
            return False
    return cgen.same(a, b)


def checker(cfg, s, role):
    """The check of exports for result()."""
    def check(o, text):
        want = cgen.tagged(cfg, s, o, role, nodeq.hidden)
        try:
            got = json.loads(text, object_pairs_hook=cgen.pairs)
        except ValueError as e:
            raise cgen.Bad("exported as %r: %s" % (text, e))
        if not same(got, want):
            raise cgen.Bad("exported as %s, expected %s" % (text, want))
    return check
