"""Build everything a check needs from /repo's current working tree.

The tracked and untracked-but-not-ignored files of /repo are copied into a
scratch directory keyed by their content, configured there and compiled with
the repository's own Makefile rules.  Nothing is written in /repo.
"""
import fcntl, glob, hashlib, os, shutil, subprocess, sys, time

REPO = os.environ.get("ORT_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = os.environ.get("ORT_SCRATCH", "/tmp/ortmc")

MAINS = {
    "main.c": "ort", "mainaudit.c": "audit", "audit-json.c": "auditjson",
    "cheader.c": "cheader", "cmanpage.c": "cmanpage", "csource.c": "csource",
    "maindiff.c": "diff", "javascript.c": "javascript", "json.c": "json",
    "nodejs.c": "nodejs", "rust.c": "rust", "sql.c": "sql",
    "sqldiff.c": "sqldiff", "xliff.c": "xliff",
}
LIBS = ["libort-lang-c.a", "libort-lang-javascript.a", "libort-lang-json.a",
        "libort-lang-nodejs.a", "libort-lang-rust.a", "libort-lang-sql.a",
        "libort-lang-xliff.a", "libort.a"]
WRAPS = ["malloc", "calloc", "realloc", "reallocarray", "free", "strdup",
         "strndup", "vasprintf", "asprintf", "fopen", "exit", "err", "errx",
         "warn", "warnx"]
WRAPS += ["ort_lang_" + n for n in ("c_header", "c_source", "c_manpage", "javascript", "json", "nodejs", "rust", "sql", "diff_sql", "xliff_extract",
                                    "xliff_join", "xliff_update")] + \
    ["ort_write_file", "ort_write_diff_file", "ort_parse_file", "ort_parse_close", "ort_diff", "ort_audit"]


class BuildError(Exception):
    pass


def _files():
    out = subprocess.run(
        ["git", "-C", REPO, "ls-files", "-z", "-c", "-o", "--exclude-standard"],
        capture_output=True)
    names = [n for n in out.stdout.decode().split("\0") if n]
    if out.returncode != 0 or not names:
        names = []
        for d, ds, fs in os.walk(REPO):
            if ".git" in ds:
                ds.remove(".git")
            for f in fs:
                if f.endswith((".o", ".a")):
                    continue
                names.append(os.path.relpath(os.path.join(d, f), REPO))
    # Only what the build or a check reads: regression data is not needed
    # except for the example configurations.
    return sorted(n for n in names if os.path.isfile(os.path.join(REPO, n)))


def _run(cmd, cwd, env=None):
    e = dict(os.environ)
    for k in ("MAKEFLAGS", "CFLAGS", "CPPFLAGS", "LDFLAGS", "LDADD"):
        e.pop(k, None)
    e["CC"] = "gcc"
    e["LC_ALL"] = "C.UTF-8"
    e.update(env or {})
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise BuildError("%s: %s" % (" ".join(cmd), r.stdout.decode("utf-8", "replace")[-3000:]))


def tree_key():
    h = hashlib.sha256()
    for n in _files():
        h.update(n.encode() + b"\0")
        with open(os.path.join(REPO, n), "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    for n in sorted(glob.glob(VERIF + "/harness/ort[as]*.c")) + [os.path.abspath(__file__)]:
        with open(n, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:20]


class Build:
    """A built tree: .dir (sources and CLI programs), .srv(variant)."""

    def __init__(self, d):
        self.dir = d
        self.src = d + "/src"

    def srv(self, variant="fast"):
        return "%s/ortsrv-%s" % (self.dir, variant)

    def tool(self, name):
        return "%s/%s" % (self.src, name)


def _cp(src):
    os.makedirs(src)
    for n in _files():
        dst = os.path.join(src, n)
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        shutil.copy2(os.path.join(REPO, n), dst)


def _server(d, src, variant):
    flags = "-g -O1 -U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=0 -w"
    if variant == "asan":
        flags += (" -fsanitize=address,undefined -fno-sanitize-recover=undefined"
                  " -fno-omit-frame-pointer")
    mem = []
    if variant == "mem0":
        flags = flags.replace("-O1", "-O0") + " -ftrivial-auto-var-init=zero"
        mem = ["-DMEMFILL=0", "-DMEMUP=1"]
    elif variant == "mem1":
        flags = flags.replace("-O1", "-O2") + " -ftrivial-auto-var-init=pattern"
        mem = ["-DMEMFILL=0xfe", "-DMEMUP=0"]
    elif variant == "mem2":
        flags += " -ftrivial-auto-var-init=pattern"
        mem = ["-DMEMFILL=0x31", "-DMEMUP=1"]
    v = d + "/" + variant
    shutil.copytree(src, v)
    for f in glob.glob(v + "/*.[oa]"):
        os.unlink(f)
    jobs = "-j%d" % (os.cpu_count() or 4)
    _run(["bmake", jobs, "CFLAGS=" + flags] + LIBS, v)
    procs = []
    objs = []
    for m, n in MAINS.items():
        o = "main_%s.o" % n
        procs.append(subprocess.Popen(
            ["gcc"] + flags.split() + ["-Dmain=main_" + n, "-c", m, "-o", o],
            cwd=v, stdout=subprocess.PIPE, stderr=subprocess.STDOUT))
        objs.append(o)
    procs.append(subprocess.Popen(
        ["gcc"] + flags.split() + mem + ["-c", VERIF + "/harness/ortsrv.c", "-o", "ortsrv.o"],
        cwd=v, stdout=subprocess.PIPE, stderr=subprocess.STDOUT))
    for p in procs:
        out, _ = p.communicate()
        if p.returncode:
            raise BuildError(out.decode("utf-8", "replace")[-3000:])
    _run(["gcc"] + flags.split() + ["-o", d + "/ortsrv-" + variant, "ortsrv.o"] + objs +
         ["-Wl," + ",".join("--wrap=" + w for w in WRAPS)] + LIBS + ["-lexpat", "-lpthread"], v)
    if not mem:
        _run(["gcc"] + flags.split() + ["-o", d + "/ortapi-" + variant, "-I.", VERIF + "/harness/ortapi.c"] + LIBS + ["-lexpat", "-lpthread"], v)
    shutil.rmtree(v)


def build(variants=("fast",)):
    """Return a Build for the current tree, compiling what is missing."""
    os.makedirs(BASE, exist_ok=True)
    key = tree_key()
    d = "%s/build-%s" % (BASE, key)
    with open(BASE + "/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        try:
            # keep the three most recent builds
            olds = sorted((p for p in glob.glob(BASE + "/build-*") if p != d),
                          key=os.path.getmtime)
            for p in olds[:-4]:
                shutil.rmtree(p, ignore_errors=True)
            if not os.path.exists(d + "/.cli"):
                shutil.rmtree(d, ignore_errors=True)
                os.makedirs(d)
                _cp(d + "/src")
                for f in ("config.h", "Makefile.configure"):
                    if os.path.exists(d + "/src/" + f):
                        os.unlink(d + "/src/" + f)
                _run(["sh", "./configure"], d + "/src")
                _run(["bmake", "-j%d" % (os.cpu_count() or 4), "all"], d + "/src")
                open(d + "/.cli", "w").close()
            for v in variants:
                if not os.path.exists(d + "/ortsrv-" + v):
                    _server(d, d + "/src", v)
            os.utime(d)
        finally:
            fcntl.flock(lk, fcntl.LOCK_UN)
    return Build(d)


if __name__ == "__main__":
    t = time.time()
    b = build(tuple(sys.argv[1:]) or ("fast", "asan"))
    print(b.dir, "%.1fs" % (time.time() - t))
