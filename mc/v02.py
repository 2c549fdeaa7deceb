"""V02: the validators of generated C accept exactly what the type and the
limits of the field allow."""
import re
import cgen, core, ref, v01
from v01 import SKIP


def expect(t, f, b):
    s = b.decode("utf-8", "surrogateescape")
    if t != "blob" and "\0" in s:
        return None
    if t not in ("blob", "text", "password") and (s != s.strip() or s.startswith("+") or re.match("-?0[0-9]", s) and t != "date"):
        # white-space, signs and zeros before: kcgi(3)'s affair
        v = v01.value(t, ["s", s])
        return None if v is None and not re.search("[0-9]", s) else SKIP
    if t == "email":
        if re.fullmatch(r"[A-Za-z0-9.]+@([A-Za-z0-9]+\.)+[A-Za-z]{2,}", s) is None:
            return SKIP if "@" in s else None
        v = s.lower()
    elif t == "blob":
        v = b
    elif t == "bits":
        # signed, as integers are stored
        v = v01.value("int", ["s", s])
    elif t in ("text", "password"):
        v = s
    else:
        v = v01.value(t, ["s", s])
    if v is None or v is SKIP:
        return v
    for o, l in f.limits:
        a = len(b) if t in ("text", "password", "email", "blob") else v
        if not v01.CMP[o](a, l):
            return None
    return v


class V02(core.Check):
    id = "V02"
    rule = v01.V01.rule.replace("its validator", "its C validator, compiled with the sanitizers,")
    assumptions = ["kcgi(3) is stood in for by harness/c", "white-space, signs, zeros before, bit index 64, exponents, radix prefixes and what e-mail addresses are beyond the plain ones are not judged"]

    def configs(self, tier):
        return list(v01.V01().configs(tier))

    def jobs(self, tier):
        return list(range(len(self.configs(tier))))

    def inputs(self, t, tier):
        out = []
        for x in v01.inputs(t, tier):
            if x[0] == "s":
                out.append(x[1].encode("utf-8", "surrogatepass"))
            elif x[0] == "b":
                out.append(bytes.fromhex(x[1]))
        k = {"date": b"1970-01-01", "email": b"a@b.cd", "text": b"a"}.get(t, b"1")
        out += [k + b"\0", b"\0", k + b"\0" + k, k + b"\xff", b"\x80"]
        return list(dict.fromkeys(out))

    def job(self, env, acc, tier, j):
        t, text = self.configs(tier)[j]
        xs = self.inputs(t, tier)
        for key, what, x in self.run(env, acc, text, t, xs):
            acc.find(key, what, {"config": text, "t": t, "xs": [x.hex()]})
        acc.sample("%s: %d inputs" % (t, len(xs)), 1)

    def run(self, env, acc, text, t, xs):
        cfg, err = ref.accepts([("a.ort", text)])
        if cfg is None:
            raise Exception(err)
        pr = cgen.Prog(env, cfg, text, fl="v", ops=[])
        if pr.err:
            yield "compile", pr.err + "; in\n" + text, xs[0]
            return
        try:
            for s in cfg.structs.values():
                for f in s.fields.values():
                    ft = f.type
                    ys = xs if ft == t or s.name == "foo" and not f.rowid else self.inputs("int", "quick")[:60]
                    rs = pr.ask(["V %s-%s %s" % (s.name, f.name, y.hex()) for y in ys])
                    for y, r in zip(ys, rs):
                        acc.n["evaluations"] += 1
                        acc.state(repr((ft, f.limits, f.null, y)))
                        e = expect(ft, f, y)
                        bad = None
                        if "crash" in r:
                            bad, key = r["crash"], "crash"
                        elif "none" in r:
                            bad, key = {-2: "is not at its place in valid_keys", -3: "is not what is in valid_keys"}.get(r["none"], "is missing"), "missing"
                        elif e is SKIP:
                            continue
                        else:
                            key = "refuses" if e is not None else "accepts"
                            if bool(r["ok"]) != (e is not None):
                                bad = "accepts it" if r["ok"] else "refuses it"
                            elif r["ok"] and ft != "blob":
                                key = "value"
                                try:
                                    got = cgen.val(r["v"])
                                except (cgen.Bad, KeyError) as x:
                                    got = x
                                if got != e or type(got) is not type(e):
                                    bad = "has it as %r" % (got,)
                        if bad:
                            yield "%s:%s" % (ft, key), "the validator of %s-%s (%s %s) on %r %s, expected %r; in\n%s" % (s.name, f.name, ft, f.limits, y, bad, e, text), y
        finally:
            pr.close()

    def judge(self, env, case):
        return [(k, w) for k, w, x in self.run(env, core.Acc(), case["config"], case["t"], [bytes.fromhex(x) for x in case["xs"]])]

    def finish(self, env, acc, tier):
        cgen.evict()


if __name__ == "__main__":
    core.main(V02())
