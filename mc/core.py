"""Common driver of the checks: worker pool, replay-before-report, known
findings, evidence."""
import argparse, collections, hashlib, json, multiprocessing, multiprocessing.connection, os, random, signal, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build as B
import srv as S

NPROC = int(os.environ.get("ORT_NPROC", os.cpu_count() or 4))


class Env:
    """What a judge may use: servers on the current build."""

    def __init__(self, bld, fresh=False):
        self.build = bld
        self.fresh = fresh
        self._s = {}
        self.cache = {}

    def srv(self, variant="fast"):
        if variant not in self._s:
            self._s[variant] = S.Srv(self.build, variant)
        return self._s[variant]

    def run(self, tool, args=(), files=(), stdin=b"", variant="fast", **kw):
        if self.fresh:
            kw["fork"] = True
        return self.srv(variant).run(tool, args, files, stdin, **kw)

    def close(self):
        for s in self._s.values():
            s.close()
        for c in self.cache.values():
            if hasattr(c, "close"):
                c.close()


class Acc:
    """Counters and findings of one job."""

    def __init__(self):
        self.n = collections.Counter()
        self.states = set()
        self.finds = []
        self.samples = []
        self.caps = []

    def state(self, x):
        if not isinstance(x, (bytes, str)):
            x = repr(x)
        if isinstance(x, str):
            x = x.encode("utf-8", "surrogateescape")
        h = hashlib.blake2b(x, digest_size=8).digest()
        if h in self.states:
            return False
        self.states.add(h)
        return True

    def find(self, key, what, case):
        if len(self.finds) < 40:
            self.finds.append((key, what, case))

    def sample(self, x, k=4):
        if len(self.samples) < k:
            self.samples.append(x)


def _worker(check, bld, tier, jobs, conn, others):
    """Does the jobs whose numbers it's sent."""
    try:
        for c in others:
            c.close()
        env = Env(bld)
        while True:
            n = conn.recv()
            if n is None:
                break
            acc = Acc()
            try:
                check.job(env, acc, tier, jobs[n])
                conn.send((acc, None))
            except Exception:
                conn.send((None, traceback.format_exc()))
        env.close()
    except EOFError:
        pass
    finally:
        sys.stdout.flush()
        os._exit(0)


class Pool:
    """Workers, whose results are taken as they come.  Ending them in the
    middle of their work can't get stuck."""

    def __init__(self, check, bld, tier, jobs):
        self.jobs, self.conns, self.pids = jobs, {}, []
        sys.stdout.flush()
        sys.stderr.flush()
        for _ in range(min(NPROC, max(1, len(jobs)))):
            a, b = multiprocessing.Pipe()
            pid = os.fork()
            if pid == 0:
                _worker(check, bld, tier, jobs, b, [a] + list(self.conns))
            b.close()
            self.conns[a] = pid

    def results(self):
        todo = iter(range(len(self.jobs)))
        busy = set()
        for c in self.conns:
            n = next(todo, None)
            if n is not None:
                c.send(n)
                busy.add(c)
        while busy:
            for c in multiprocessing.connection.wait(list(busy)):
                try:
                    r = c.recv()
                except EOFError:
                    yield None, "a worker died\n"
                    return
                busy.discard(c)
                n = next(todo, None)
                if n is not None:
                    c.send(n)
                    busy.add(c)
                yield r

    def end(self, kill):
        for c, pid in self.conns.items():
            try:
                if kill:
                    os.kill(pid, signal.SIGKILL)
                else:
                    c.send(None)
            except OSError:
                pass
        for c, pid in self.conns.items():
            os.waitpid(pid, 0)
            c.close()


class Check:
    """Subclass: id, level, rule; variants(); jobs(tier) -> list of picklable
    descriptors; job(env, acc, tier, descriptor) explores, calling
    self.judge(env, case) -> list of (key, what); cases are JSON-able."""

    id = None
    level = "model_checking"
    variants = ("fast",)
    rule = ""
    assumptions = []
    exhaustive = True
    stop_at = 60

    def setup(self, bld, tier):
        pass

    def finish(self, env, acc, tier):
        """Runs once after the jobs, in the parent."""

    def jobs(self, tier):
        raise NotImplementedError

    def job(self, env, acc, tier, j):
        raise NotImplementedError

    def judge(self, env, case):
        raise NotImplementedError

    def check(self, env, acc, case):
        """Judge a case, count it, keep what it finds."""
        acc.n["evaluations"] += 1
        for key, what in self.judge(env, case):
            acc.find(key, what, case)


def known():
    out = {}
    try:
        with open(VERIF + "/known-findings.json") as f:
            for e in json.load(f)["findings"]:
                out.setdefault(e["property"], {})[e["key"]] = e["what"]
    except FileNotFoundError:
        pass
    return out


def main(check):
    ap = argparse.ArgumentParser()
    ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    a = ap.parse_args()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    t0 = time.time()
    bld = B.build(check.variants)
    check.setup(bld, tier)
    if a.replay:
        with open(a.replay) as f:
            d = json.load(f)
        r = check.judge(Env(bld, fresh=True), d["case"])
        for key, what in r:
            print("%s: %s" % (key, what))
        sys.exit(1 if r else 0)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    check.stop_at = int(os.environ.get("ORT_STOP", check.stop_at))
    jobs = list(check.jobs(tier))
    # long jobs first is the check's business; shuffle only for balance
    tot = Acc()
    errs = []
    stopped = False
    pool = Pool(check, bld, tier, jobs)
    for acc, err in pool.results():
        if err:
            errs.append(err)
            break
        tot.n.update(acc.n)
        tot.states |= acc.states
        tot.finds += acc.finds
        tot.caps += acc.caps
        for s in acc.samples:
            if len(tot.samples) < 8:
                tot.samples.append(s)
        if len(tot.finds) >= check.stop_at:
            k = known().get(check.id, {})
            if sum(1 for f in tot.finds if f[0] not in k) >= check.stop_at:
                stopped = True
                break
    pool.end(bool(errs) or stopped)
    if errs:
        sys.stderr.write(errs[0])
        sys.exit(2)
    if not stopped:
        env = Env(bld)
        check.finish(env, tot, tier)
        env.close()
    if os.environ.get("ORT_DUMP"):
        with open(os.environ["ORT_DUMP"], "w") as f:
            json.dump([x[:2] for x in tot.finds], f)
    # replay before report, in fresh processes
    kn = known().get(check.id, {})
    viol, seenkeys, kfs = [], collections.Counter(), {}
    for key, what, case in sorted(tot.finds, key=lambda f: (f[0], len(json.dumps(f[2], default=repr)))):
        if key in kn:
            kfs[key] = what
            continue
        if seenkeys[key] >= 2:
            continue
        env = Env(bld, fresh=True)
        again = dict(check.judge(env, case)) if case is not None else {key: what}
        env.close()
        if key not in again:
            sys.stderr.write("not reproduced in a fresh process: %s: %s\n" % (key, what))
            tot.n["unreproduced"] += 1
            continue
        seenkeys[key] += 1
        viol.append((key, again[key], case))
    rdir = "%s/replays/%s" % (VERIF, check.id)
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        os.unlink(os.path.join(rdir, f))
    for key in sorted(kfs):
        print("KNOWN-FINDING: property=%s %s: %s" % (check.id, key, kn[key]))
    n = 0
    for key, what, case in viol[:20]:
        p = "%s/%d.json" % (rdir, n)
        n += 1
        with open(p, "w") as f:
            json.dump({"property": check.id, "key": key, "what": what, "case": case,
                       "rerun": "python3 %s --replay %s" % (sys.argv[0], p)}, f, indent=1, default=repr)
        print("VIOLATION property=%s replay=%s" % (check.id, p))
        print("  %s: %s" % (key, str(what)[:1500]))
    cov = {"states": len(tot.states), "transitions": tot.n["transitions"] or tot.n["evaluations"],
           "traces_validated_against_impl": tot.n["validated"] or tot.n["evaluations"],
           "evaluations": tot.n["evaluations"], "distinct_nontrivial": len(tot.states),
           "rule": check.rule, "samples": tot.samples or ["(none)"],
           "exhaustive": bool(check.exhaustive and not tot.caps and not stopped),
           "counters": {k: v for k, v in sorted(tot.n.items())}}
    if tot.caps:
        cov["caps"] = sorted(set(tot.caps))[:20]
    ev = {"property": check.id, "tier": tier, "seed": seed, "level": check.level,
          "coverage": cov, "assumptions": list(check.assumptions),
          "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    with open("%s/evidence/%s.json" % (VERIF, check.id), "w") as f:
        json.dump(ev, f, indent=1, default=repr)
        f.write("\n")
    print("%s %s: %d states, %d transitions, %d runs validated, %d violations, %d known, %.1fs" % (
        check.id, tier, cov["states"], cov["transitions"], cov["traces_validated_against_impl"],
        len(viol), len(kfs), ev["wall_s"]))
    sys.exit(1 if viol else 0)
