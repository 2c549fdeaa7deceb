"""Client for harness/ortsrv: run the ort programs on virtual files."""
import os, struct, subprocess

TOOLS = ["ort", "ort-audit", "ort-audit-json", "ort-c-header", "ort-c-manpage",
         "ort-c-source", "ort-diff", "ort-javascript", "ort-json", "ort-nodejs",
         "ort-rust", "ort-sql", "ort-sqldiff", "ort-xliff"]
IDX = {t: i for i, t in enumerate(TOOLS)}

COUNT, ONCE, BUF, TRACE, ATRACE, AFROM = 4, 8, 16, 32, 64, 128


class Res:
    __slots__ = ("status", "out", "err", "nalloc", "live", "injected", "outfailed", "nwrites", "unrep", "trace")

    def __repr__(self):
        return "Res(status=%d, out=%r, err=%r)" % (self.status, self.out, self.err)

    @property
    def text(self):
        return self.out.decode("utf-8", "surrogateescape")

    @property
    def crashed(self):
        return self.status >= 256 or self.status == 99


class Srv:
    def __init__(self, build, variant="fast"):
        self.path = build.srv(variant)
        self.share = build.src
        self.p = None
        self.restarts = 0

    def _start(self):
        r0, w0 = os.pipe()
        r1, w1 = os.pipe()
        env = dict(os.environ)
        env.update({
            "TZ": env.get("ORT_TZ", "UTC"), "LC_ALL": "C",
            "ASAN_OPTIONS": "exitcode=99:detect_leaks=0:allocator_may_return_null=1:abort_on_error=0",
            "UBSAN_OPTIONS": "exitcode=99:print_stacktrace=1:halt_on_error=1"})
        if self.path.endswith("-mem1"):
            env.update({"TZ": "XXX-13:30", "LC_ALL": "C.UTF-8", "LANG": "C.UTF-8", "HOME": "/", "TMPDIR": "/", "COLUMNS": "40", "USER": "x"})
        pid = os.fork()
        if pid == 0:
            try:
                a, b = os.dup(r0), os.dup(w1)
                # keep clear of 3 and 4 while duplicating
                import fcntl
                a = fcntl.fcntl(r0, fcntl.F_DUPFD, 10)
                b = fcntl.fcntl(w1, fcntl.F_DUPFD, 10)
                os.dup2(a, 3)
                os.dup2(b, 4)
                dn = os.open("/dev/null", os.O_RDWR)
                os.dup2(dn, 0)
                os.dup2(dn, 1)
                os.dup2(dn, 2)
                os.closerange(5, 64)
                os.execve(self.path, [self.path], env)
            finally:
                os._exit(127)
        os.close(r0)
        os.close(w1)
        self.w, self.r = w0, r1
        self.rbuf = b""
        self.p = pid

    def close(self):
        if self.p is not None:
            os.close(self.w)
            os.close(self.r)
            try:
                os.waitpid(self.p, 0)
            except ChildProcessError:
                pass
            self.p = None

    def _read(self, n):
        chunks = []
        while n:
            b = os.read(self.r, min(n, 1 << 20))
            if not b:
                raise EOFError
            chunks.append(b)
            n -= len(b)
        return b"".join(chunks)

    def _one(self, tool, args, files, stdin, flags, failalloc, wlimit):
        if self.p is None:
            self._start()
        lens, blobs = [], []

        def add(x):
            if isinstance(x, str):
                x = x.encode("utf-8", "surrogateescape")
            lens.append(len(x))
            blobs.append(x + b"\0")
        for a in args:
            add(a)
        for n, c in files:
            add(n)
            add(c)
        add(stdin)
        body = struct.pack("<%dI" % len(lens), *lens) + b"".join(blobs)
        hdr = struct.pack("<8I", IDX[tool], flags, failalloc,
                          0xffffffff if wlimit is None else wlimit,
                          len(args), len(files), len(lens), len(body))
        buf = hdr + body
        mv = memoryview(buf)
        while mv:
            k = os.write(self.w, mv)
            mv = mv[k:]
        h = struct.unpack("<IIIIiIIII", self._read(36))
        r = Res()
        r.status, r.nalloc, r.live, r.injected, r.outfailed = h[0], h[3], h[4], h[5], h[6]
        r.nwrites, r.unrep = h[7], h[8]
        r.out = self._read(h[1])
        r.err = self._read(h[2])
        if flags & (TRACE | ATRACE):
            k = min(r.nwrites if flags & TRACE else r.nalloc, 1 << 18)
            r.trace = struct.unpack("<%dI" % k, self._read(4 * k))
        return r

    def run(self, tool, args=(), files=(), stdin=b"", fork=False, failalloc=0,
            wlimit=None, timeout=20, wmode=0):
        """Run `tool args...`; files is a list of (name, content).  Output
        fails beyond wlimit bytes; or writes, with wmode & COUNT; only the
        first, with ONCE; the stream being buffered as usual, with BUF."""
        if tool in ("ort-javascript", "ort-c-source") and "-S" not in args:
            args = ["-S", self.share] + list(args)
        if not fork:
            try:
                return self._one(tool, args, files, stdin, wmode, failalloc, wlimit)
            except (EOFError, BrokenPipeError):
                # the in-process run died: classify it in a forked child
                self.close()
                self.restarts += 1
        return self._one(tool, args, files, stdin, 1 | wmode | (timeout << 8), failalloc, wlimit)
