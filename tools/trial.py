"""Run checks against planted bugs, on copies: trial.py [id...] [--checks A,B]"""
import concurrent.futures as cf, json, os, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plant import sh, V


def record(id, out):
    """Note in tools/trials.txt which checks catch a bug."""
    f = V + "/tools/trials.txt"
    R = dict(l.rstrip("\n").split(" ", 1) for l in open(f)) if os.path.exists(f) else {}
    R[id] = "; ".join("%s %s" % (o.split(" ")[0], "catches it" if " exit 1:" in o and "VIOLATION" in o else "misses it") for o in out)
    with open(f, "w") as g:
        for k in sorted(R):
            g.write("%s %s\n" % (k, R[k]))


def trial(id, checks=None):
    w = "/tmp/trial/" + id
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    prop = json.load(open("%s/seeded/%s/meta.json" % (V, id)))["property"]
    try:
        sh("cp -a /repo %s/repo; cd %s/repo; git checkout -q -- .; git apply %s/seeded/%s/patch.diff" % (w, w, V, id), "/")
        sh("mkdir %s/verif; cp -a %s/mc %s/harness %s/known-findings.json %s/verif" % (w, V, V, V, w), "/")
        out = []
        for ch in checks or [prop]:
            c, o = sh("python3 mc/%s.py quick" % ch.lower(), w + "/verif", 900, {"ORT_REPO": w + "/repo", "ORT_SCRATCH": w + "/scratch"})
            l = [x for x in o.split("\n") if x.strip()]
            out.append("%s exit %d: %s" % (ch, c, " / ".join(l[:2] + l[-1:])[:400]))
        record(id, out)
        return "%s: %s" % (id, "\n   ".join(out))
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == "__main__":
    a = sys.argv[1:]
    ch = None
    if "--checks" in a:
        i = a.index("--checks")
        ch = a[i + 1].split(",")
        del a[i:i + 2]
    with cf.ThreadPoolExecutor(2) as ex:
        for r in ex.map(lambda i: trial(i, ch), a or sorted(os.listdir(V + "/seeded"))):
            print(r, flush=True)
