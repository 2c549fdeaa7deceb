"""A01: the library keeps configurations, and calls, apart."""
import itertools, os, subprocess
import core, x01

ROLES = "roles { role ra comment \"r\"; role rb { role rc; }; };\n"
V = [
    # one that has everything
    ROLES + """enum en { comment "en"; item a 1 jslabel "one"; item b jslabel "two" jslabel.fr "deux"; item c jslabel.fr "c"; isnull jslabel "none"; };
bits bi { item p 0 jslabel "three"; item q 2; isunset jslabel "unset"; };
struct bar { field id int rowid; field n text null; field m int; list n: name ln; roles ra { list ln; noexport n; }; };
struct foo { comment "foo"; field id int rowid; field bar struct barid; field barid:bar.id int actdel cascade; field e enum en default a; field b bits bi; field pw password null; field t text limit ge 2 unique; field bl blob null;
 search id, pw: name s; list t like, bar.n isnull: name l distinct bar order t desc limit 2, 1; iterate bar.m gt: name i; count: name c; insert; update t concat: id: name u comment "u"; delete t: name d; unique t, e;
 roles rb { insert; search s; noexport; }; roles rc { update u; list l; }; };
""",
    # another in which the same names are of other things
    "roles { role rc; role ra; };\nenum bar { item en 3 jslabel \"one\"; item eo 4 jslabel.de \"zwei\" jslabel.fr \"deux\"; };\nbits foo { item e 5; };\nstruct en { field id int rowid; field b bits foo null; field t enum bar; list: name s; search id: name l; "
    "update b: id: name u; roles all { search l; }; };\n",
    # the first, changed
    ROLES + """enum en { comment "em"; item a 1 jslabel "one"; item c jslabel "two"; isnull jslabel "none"; };
bits bi { item p 0 jslabel "three"; item r 4; };
struct bar { field id int rowid; field n text null; field m int; field k epoch null; list n: name ln; roles rb { list ln; }; };
struct foo { comment "fou"; field id int rowid; field bar struct barid; field barid:bar.id int actdel cascade; field e enum en; field b bits bi; field pw password null; field t text unique; field bl blob null;
 search id, pw: name s; list t like: name l; insert; delete t: name d; roles ra { insert; }; };
""",
    # plain, in two pieces
    "struct foo { field id int rowid; field e enum en; list e; insert; };\n",
    "enum en { item a jslabel \"one\"; item z; };\nstruct last { field k int; };\n",
    # not accepted: by the grammar, by names; and with warnings
    "roles { role ra; };\nstruct foo { field id int rowid; fild x; };\n",
    "struct foo { field id int rowid; field e enum nosuch; field b:none.x int; list z; };\n",
    "struct foo { field id int rowid; list id: limit 1; search id: limit 2; };\n",
    "",
    # short, for all that may take place within
    "enum en { item a; };\nstruct foo { field id int rowid; field e enum en; search id: name s; insert; };\n",
]
XL = [x01.xliff([("1", "one", "un"), ("2", "two", "deux"), ("3", "three", "trois")], "fr"), x01.xliff([("1", "one", "eins")], "de"), "<xliff><bad", ""]
TEXTS = V + XL
X0 = len(V)
KINDS = range(10)
LINKED = ["G%d"]


class Client:
    def __init__(self, path):
        e = dict(os.environ, GLIBC_TUNABLES="glibc.malloc.tcache_count=0", ASAN_OPTIONS="detect_leaks=0:abort_on_error=0", UBSAN_OPTIONS="print_stacktrace=0", LC_ALL="C")
        self.p = subprocess.Popen([path], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=e)
        for n, t in enumerate(TEXTS):
            b = t.encode()
            self.p.stdin.write(b"T %d %d\n" % (n, len(b)) + b)

    def run(self, prog):
        self.p.stdin.write(b"R " + prog.encode() + b"\n")
        self.p.stdin.flush()
        st, n, sz = map(int, self.p.stdout.readline().split())
        b = self.p.stdout.read(sz)
        if st != 0 or not b:
            return st or -1, None, None
        l, b = b.split(b"\n", 1)
        out = []
        for _ in range(n):
            h, b = b.split(b"\n", 1)
            rc, ev, k = map(int, h.split())
            out.append((rc, ev, b[:k]))
            b = b[k:]
        return 0, int(l), out


def slotsof(op):
    if op[0] in "DS":
        a = op[1:].split(":")
        return (a[0], a[1])
    return (op[1],)


class A01(core.Check):
    id = "A01"
    variants = ["fast", "asan"]
    rule = ("state = a program of calls of the library; transition = one call, whose result and output are compared with those of the same call where only what its own configurations have been through precedes it. "
            "All interleavings of what two configurations go through, all sequences of calls up to a length on configurations that are there, and each call within each other one, at each of its reads and writes")
    assumptions = ["what takes place within another call doesn't change the other's configuration", "calls on what has been refused are those of messages and release"]

    def jobs(self, tier):
        T = tier == "thorough"
        out = [("inter", a, b) for a in range(5) for b in range(5)]
        out += [("seq", a, i, v) for a in ((0, 1), (0, 2), (2, 0), (9, 7)) for i in range(8) for v in ("fast", "asan")]
        # what's within what
        for a in (9, 0) if T else (9,):
            for k in range(19):
                for i in range(2 if a == 9 else 12):
                    out.append(("in", a, k, i))
        out += [("in", 7, k, 0) for k in range(19)]
        return sorted(out, key=lambda j: j[0] == "seq")

    def client(self, env, variant="fast"):
        k = ("a01", variant)
        c = env.cache.get(k)
        if c is None or c.p.poll() is not None:
            c = env.cache[k] = Client(env.build.dir + "/ortapi-" + variant)
        return c

    def path(self, slot, text):
        """What a configuration goes through."""
        if isinstance(text, tuple):
            return ["P%d:%d" % (slot, t) for t in text] + ["C%d" % slot]
        return ["P%d:%d" % (slot, text), "C%d" % slot]

    def reads(self, slot, other=None):
        out = ["G%d:%d" % (slot, k) for k in KINDS] + ["A%d:%d" % (slot, r) for r in (0, 1, 2)] + ["M%d" % slot]
        if other is not None:
            out += ["D%d:%d" % (slot, other), "S%d:%d:0" % (slot, other), "S%d:%d:1" % (slot, other)]
        return out + ["X%d:%d:1" % (slot, X0)]

    def job(self, env, acc, tier, j):
        T = tier == "thorough"
        if j[0] == "inter":
            # whole lives of two configurations, in each other's
            lives = [["P0:0", "C0", "G0:0", "F0"], ["P0:3", "P0:4", "C0", "G0:1", "F0"], ["P0:5", "M0", "F0"], ["P0:6", "C0", "M0", "F0"], ["P0:7", "C0", "M0", "X0:%d:0" % X0, "G0:9"]]
            a = lives[j[1]]
            b = [x[0] + "1" + x[2:] for x in lives[j[2]]]
            more = [[], ["P2:2", "C2"]] if T else [[]]
            for m in more:
                for c in itertools.combinations(range(len(a) + len(b)), len(a)):
                    p, i, k = [], 0, 0
                    for n in range(len(a) + len(b)):
                        if n in c:
                            p.append(a[i])
                            i += 1
                        else:
                            p.append(b[k])
                            k += 1
                    self.go(env, acc, {"prog": m + p, "variant": "asan"})
        elif j[0] == "seq":
            s0, s1 = j[1]
            pre = self.path(0, s0) + self.path(1, s1)
            ops = self.reads(0, 1) + self.reads(1, 0) + ["X0:%d:0" % (X0 + 1), "X0:%d:0" % X0, "X1:%d:0" % (X0 + 2), "X0:%d:1" % (X0 + 1), "P2:9", "P2:5", "F1"]
            n = 0
            for d in ((1,) if j[3] == "asan" and not T else (1, 2, 3) if T and j[3] == "fast" and j[1] == (9, 7) else (1, 2)):
                for seq in itertools.product(ops, repeat=d):
                    if "F1" in seq[:-1]:
                        k = seq.index("F1")
                        if any("1" in slotsof(o) for o in seq[k + 1:]):
                            continue
                    if sum(o == "P2:5" for o in seq) and seq.index("P2:5") < len(seq) - 1 and any("2" in slotsof(o) for o in seq[seq.index("P2:5") + 1:]):
                        continue
                    if seq.count("P2:9") > 1 or ("P2:9" in seq and "P2:5" in seq):
                        continue
                    n += 1
                    if n % 8 == j[2]:
                        self.go(env, acc, {"prog": pre + list(seq) + ["G0:0"], "variant": j[3]})
            if j[2] == 0:
                for o in ops:
                    # whenever it's released
                    self.go(env, acc, {"prog": pre + [o], "variant": j[3]})
        else:
            t = j[1]
            outer = ["P3:%d" % t] + [o for o in self.reads(0, 1)]
            if j[2] >= len(outer):
                return
            o = outer[j[2]]
            inner = ["P2:0", "P2:5", "G1:0", "G1:1", "G1:2", "G1:3", "G1:4", "G1:5", "G1:6", "G1:7", "G1:8", "G1:9", "G0:0", "G0:2", "G0:5", "G0:9", "A1:1", "A0:1", "D1:0", "D0:1", "S1:0:1", "X1:%d:0" % X0, "X1:%d:1" % X0, "X0:%d:1" % X0, "M1"]
            if not T:
                inner = inner[::2] if t == 9 else inner[:2]
            pre = self.path(0, t) + self.path(1, 2 if t == 0 else 0)
            st, kept, res = self.client(env).run(" ".join(pre + [o]))
            if res is None:
                self.go(env, acc, {"prog": pre + [o], "variant": "fast"})
                return
            ev = res[-1][1]
            # the output of C sources is long: each place between lines, at least
            for n in range(ev):
                if n % (2 if t == 9 else 12) != j[3] and t != 7:
                    continue
                for i, b in enumerate(inner):
                    if b == o or ev > 400 and (n // 2 + i) % (8 if not T else 2 if t == 9 else 8):
                        continue
                    self.go(env, acc, {"prog": pre + ["@%d" % n, o, b, "G0:0"], "variant": "fast"})
        acc.sample(repr(j), 1)

    def go(self, env, acc, case):
        if not acc.state(repr(case)):
            return
        acc.n["transitions"] += len(case["prog"])
        self.check(env, acc, case)

    def alone(self, env, prog, i):
        """The result of a call where only what its configurations have been through precedes it."""
        need, keep = set(slotsof(prog[i])), []
        for o in reversed(prog[:i]):
            s = slotsof(o)
            if s[0] in need and (o[0] in "PC" or o[0] == "X" and o.endswith(":0")):
                keep.append(o)
            elif o[0] == "F" and s[0] in need:
                break
        key = tuple(keep[::-1] + [prog[i]])
        k = ("a01-alone", key)
        if k not in env.cache:
            st, kept, res = self.client(env).run(" ".join(key))
            env.cache[k] = None if res is None else (res[-1][0], res[-1][2])
        return env.cache[k], key

    def judge(self, env, case):
        prog = case["prog"]
        st, kept, res = self.client(env, case["variant"]).run(" ".join(prog))
        if res is None:
            yield "crash", "ends with status %d: %s" % (st, " ".join(prog))
            return
        ops = [o for o in prog if o[0] != "@"]
        for i, o in enumerate(ops):
            want, key = self.alone(env, ops, i)
            got = (res[i][0], res[i][2])
            if want is None:
                yield "crash", "ends where %s is all there is" % " ".join(key)
                return
            if o[0] in "GP" and want[0] <= 0 and o[0] == "G":
                yield "fails", "%s returns %d: %s" % (o, want[0], " ".join(key))
            if got[0] != want[0]:
                yield "result:" + o[0], "%s returns %d instead of %d: %s; alone: %s" % (o, got[0], want[0], " ".join(prog), " ".join(key))
            elif got[1] != want[1]:
                a, b = got[1], want[1]
                k = next((k for k in range(min(len(a), len(b))) if a[k] != b[k]), min(len(a), len(b)))
                yield "output:" + o[0], "%s has %r instead of %r: %s; alone: %s" % (o, a[max(0, k - 30):k + 40], b[max(0, k - 30):k + 40], " ".join(prog), " ".join(key))
        if kept and case["variant"] == "fast":
            yield "kept", "%d bytes are kept: %s" % (kept, " ".join(prog))


if __name__ == "__main__":
    core.main(A01())
