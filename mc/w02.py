"""W02: class Long of ort-javascript is 64-bit integer arithmetic."""
import itertools, json
import core, node

M64 = 2 ** 64


def val(n, u):
    n %= M64
    return n if u or n < 2 ** 63 else n - M64


def values(tier):
    s = {0, 1, 2, 3, 5, 7, 10, 99999999, 100000000, 100000001, 0x5555555555555555, 0x0123456789abcdef, 0xfedcba9876543210,
         0x00ff00ff00ff00ff, 9999999999999999, 10000000000000000}
    for b in (15, 16, 17, 31, 32, 33, 47, 48, 49, 53, 62, 63) if tier == "quick" else range(64):
        s |= {(1 << b) - 1, 1 << b, (1 << b) + 1}
    s |= {(-x) % M64 for x in s}
    return sorted(s)


OPS2 = ["add", "sub", "mul", "and", "or", "compare", "eq", "shl"]
OPS1 = ["neg", "not", "isZero", "isNegative", "isOdd", "toNumber", "toInt"]


def want(op, a, u, b=None, v=None):
    """The documented result, or None where nothing is said: ("l", bits,
    unsigned) or ("v", value)."""
    x = val(a, u)
    if op in OPS2:
        y = val(b, v)
        if op == "compare":
            return ("v", (x > y) - (x < y))
        if op == "eq":
            return ("v", x == y)
        if op in ("and", "or"):
            return ("l", (a & b if op == "and" else a | b) % M64, u)
        if op == "shl":
            n = y & 63
            return ("l", (a << n) % M64, u) if y >= 0 else None
        r = {"add": x + y, "sub": x - y, "mul": x * y}[op]
        lo, hi = (0, M64 - 1) if u else (-2 ** 63, 2 ** 63 - 1)
        if not lo <= r <= hi or u != v or (op == "mul" and not u and -2 ** 63 in (x, y)):
            return None
        return ("l", r % M64, None if op == "mul" and r == 0 else u)
    if op == "neg":
        return ("l", -x % M64, u) if (not u and x != -2 ** 63) or x == 0 else None
    if op == "not":
        return ("l", ~a % M64, u)
    if op == "toNumber":
        return ("v", float(x))
    if op == "toInt":
        r = a % 2 ** 32
        return ("v", r if u or r < 2 ** 31 else r - 2 ** 32)
    return ("v", {"isZero": x == 0, "isNegative": x < 0, "isOdd": bool(x & 1)}[op])


def strings(tier):
    out = {"", "-", "--5", "5-", "-5-", "- 5", " 5", "5 ", "+5", "0x10", "1e3", "1.0", "NaN", "Infinity", "-Infinity", "+Infinity", "\u0661", "1_000",
           "-0", "00", "007", "-007", "0" * 30 + "5", "5\n", "\n5", "1,000", "a", "-a", "---5", "12345678-", "123456789a", "null"}
    for n in values(tier):
        for x in (n, -n, val(n, False)):
            if -2 ** 63 <= x < M64:
                out.add(str(x))
    for k in range(1, 21):
        for d in "19":
            if int(d * k) < M64:
                out |= {d * k, "-" + d * k if int(d * k) <= 2 ** 63 else "0", d + "0" * (k - 1), "0" + d * k}
    return sorted(out)


class W02(core.Check):
    id = "W02"
    rule = ("state = an operation of class Long and its operands: every operation on every pair of boundary values "
            "(around powers of two, of both signs; quick: 12 powers, thorough: all 64), signed and unsigned, on both as "
            "objects and as numbers, and every conversion of boundary and malformed strings and numbers; transition = "
            "running it in node, compared with exact integer arithmetic")
    assumptions = ["wrapping of add, sub and mul, and shifts by negative numbers, are not specified"]

    def jobs(self, tier):
        return [("two", op, u, v) for op in OPS2 for u in (0, 1) for v in (0, 1, 2)] + [("one",), ("str",), ("num",)]

    def job(self, env, acc, tier, j):
        vs = values(tier)
        ops = []
        if j[0] == "two":
            _, op, u, v = j
            for a in vs:
                for b in vs if op != "shl" else range(0, 130):
                    if v == 2:
                        n = val(b, False)
                        if abs(n) > 2 ** 53:
                            continue
                        ops.append([op, a, u, n, 2])
                    else:
                        ops.append([op, a, u, b, v])
        elif j[0] == "one":
            ops = [[op, a, u] for op in OPS1 for a in vs for u in (0, 1)]
        elif j[0] == "str":
            ops = [[f, s, u] for f in ("fromString", "fromStringZero", "fromValue", "fromValueUndef") for s in strings(tier) for u in (0, 1)]
        else:
            ns = [val(x, False) for x in vs if abs(val(x, False)) <= 2 ** 53] + [float(x) for x in (2 ** 62, 2 ** 63, 2 ** 64, 2 ** 70, -2 ** 63, -2 ** 70, 2 ** 63 + 2048, 2 ** 64 - 2048, -2 ** 62)]
            ops = [[f, n, u] for f in ("fromNumber", "fromValue", "fromValueUndef") for n in ns + [None] for u in (0, 1) if n is not None or f != "fromNumber"]
        for i in range(0, len(ops), 5000):
            for k, w, c in self.many(env, ops[i:i + 5000]):
                acc.find(k, w, {"ops": [c]})
        for o in ops:
            acc.state(json.dumps(o))
        acc.n["evaluations"] += len(ops)
        acc.n["transitions"] += len(ops)
        acc.sample(str(ops[len(ops) // 2]), 1)

    def many(self, env, ops):
        nd = node.get(env, "dom.js")
        if env.cache.get("long") != nd.p or nd.p is None:
            r = env.run("ort-javascript", ["a.ort"], [("a.ort", b"struct foo { field k int; };\n")])
            if r.status:
                return [("generate", "ort-javascript failed: %r" % r.err[-200:], ops[0])]
            o = nd.call("js_load", src=r.out.decode("utf-8"))
            if "error" in o:
                return [("load", o["error"], ops[0])]
            env.cache["long"] = nd.p
        req, exp = [], []
        for o in ops:
            op = o[0]
            if op in OPS1:
                req.append(["." + op, [[str(o[1] if o[2] else val(o[1], False)), bool(o[2])]]])
                exp.append(want(op, o[1], bool(o[2])))
            elif op in OPS2:
                a = [str(o[1] if o[2] else val(o[1], False)), bool(o[2])]
                if o[4] == 2 or op == "shl" and o[4] == 0:
                    req.append(["." + op, [a, o[3]]])
                    exp.append(want(op, o[1], bool(o[2]), o[3] % M64, False))
                else:
                    req.append(["." + op, [a, [str(o[3] if o[4] else val(o[3], False)), bool(o[4])]]])
                    exp.append(want(op, o[1], bool(o[2]), o[3], bool(o[4])))
            elif isinstance(o[1], str):
                req.append([op, [o[1], bool(o[2])]])
                s = o[1]
                d = s[1:] if s[:1] == "-" else s
                if not (d.isascii() and d.isdigit()):
                    exp.append(("l", 0, None) if op == "fromStringZero" else ("v", None))
                elif o[2] and s[0] == "-" and int(d) or int(s) >= (M64 if o[2] else 2 ** 63) or int(s) < -2 ** 63:
                    exp.append(None)
                else:
                    exp.append(("l", int(s) % M64, bool(o[2])))
            else:
                req.append([op, [o[1], bool(o[2])]])
                if o[1] is None:
                    exp.append(("v", None))
                else:
                    n = min(max(int(o[1]), 0 if o[2] else -2 ** 63), M64 - 1 if o[2] else 2 ** 63 - 1)
                    exp.append(("l", n % M64, bool(o[2])))
        res = nd.call("long_run", ops=req)
        if "error" in res:
            raise Exception(res["error"])
        out = []
        for o, q, e, g in zip(ops, req, exp, res["out"]):
            if e is None:
                continue
            if e[0] == "l":
                ok = isinstance(g, list) and (g[1] << 32 | g[2]) == e[1] and (e[2] is None or g[3] == e[2])
            else:
                ok = not isinstance(g, (list, dict)) and (float(g) if isinstance(e[1], float) else g) == e[1] and isinstance(g, bool) == isinstance(e[1], bool)
            if not ok:
                out.append(("long:" + o[0], "Long: %s is %s, should be %s" % (json.dumps(q), json.dumps(g), e), o))
        return out

    def judge(self, env, case):
        return [(k, w) for k, w, _ in self.many(env, case["ops"])]


if __name__ == "__main__":
    core.main(W02())
