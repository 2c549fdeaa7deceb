"""Plant a bug: plant(id, prop, edits, needs, breaks, demo, checks=None).
Works on a copy of /repo under /tmp/plant, removed afterwards; keeps the bug as
/verif/seeded/<id> when it compiles, passes the tests and its demonstration
tells the two trees apart."""
import json, os, shutil, subprocess, sys, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, cwd, t=900, env=None):
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, env=e)
        return r.returncode, r.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as x:
        return 124, "timeout"


def plant(id, prop, edits, needs, breaks, demo, checks=None, files=None):
    w = "/tmp/plant/" + id
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    try:
        return _plant(w, id, prop, edits, needs, breaks, demo, checks, files)
    finally:
        shutil.rmtree(w, ignore_errors=True)


def _plant(w, id, prop, edits, needs, breaks, demo, checks, files):
    r = w + "/repo"
    sh("cp -a /repo %s; cp -a /opt/vp %s/vp; git -C %s checkout -q -- ." % (r, w, r), "/")
    sh("grep -lIr /repo %s/vp | xargs -r sed -i 's#/repo#%s#g; s#/opt/vp#%s/vp#g'" % (w, r, w), "/")
    for f, old, new in edits:
        p = r + "/" + f
        s = open(p).read()
        if s.count(old) != 1:
            return id, "FAIL edit occurs %d times in %s: %r" % (s.count(old), f, old[:60])
        open(p, "w").write(s.replace(old, new))
    d = subprocess.run(["git", "-C", r, "diff"], stdout=subprocess.PIPE).stdout
    c, o = sh("bash %s/vp/test.sh %s/o.json" % (w, w), r)
    if "1231 passed, 0 failed" not in o:
        return id, "FAIL tests: " + o[-600:]
    sd = w + "/demo"
    os.makedirs(sd)
    open(sd + "/demo.sh", "w").write(demo if demo.startswith("#!") else "#!/bin/bash\n" + demo)
    for n, t in (files or {}).items():
        open(sd + "/" + n, "w").write(t)
    c1, o1 = sh("bash %s/demo.sh" % sd, r, 300)
    # unpatched tree
    sh("git -C %s apply -R -" % r + " <<'EOFX'\n" + d.decode() + "EOFX", "/")
    sh("bash %s/vp/build.sh" % w, r)
    c0, o0 = sh("bash %s/demo.sh" % sd, r, 300)
    if c0 != 0 or c1 == 0:
        return id, "FAIL demo: unchanged %d, patched %d\n%s\n%s" % (c0, c1, o0[-500:], o1[-500:])
    sh("git -C %s apply -" % r + " <<'EOFX'\n" + d.decode() + "EOFX", "/")
    k = "%s/seeded/%s" % (V, id)
    shutil.rmtree(k, ignore_errors=True)
    shutil.copytree(sd, k)
    open(k + "/patch.diff", "wb").write(d)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(k + "/meta.json", "w"), indent=1)
    out = []
    vv = w + "/verif"
    sh("mkdir %s; cp -a %s/mc %s/harness %s/known-findings.json %s/" % (vv, V, V, V, vv), "/")
    for ch in (checks or [prop]):
        c, o = sh("python3 mc/%s.py quick" % ch.lower(), vv, 900, {"ORT_REPO": r, "ORT_SCRATCH": w + "/scratch"})
        l = [x for x in o.split("\n") if x.strip()]
        out.append("%s exit %d: %s" % (ch, c, " / ".join(l[:2] + l[-1:])[:500]))
    import trial
    trial.record(id, out)
    return id, "kept; " + "\n   ".join(out)


def run(bugs, par=3):
    with cf.ThreadPoolExecutor(par) as ex:
        for r in ex.map(lambda b: plant(*b[0:6], **(b[6] if len(b) > 6 else {})), bugs):
            print("%s: %s" % r, flush=True)
