"""Client of harness/nodesrv.js: a JavaScript worker process."""
import json, os, select, subprocess, time

HERE = os.path.dirname(os.path.abspath(__file__))
SRV = os.path.join(os.path.dirname(HERE), "harness", "nodesrv.js")


class NodeError(Exception):
    pass


class Hang(NodeError):
    pass


class Node:
    def __init__(self, *plugins, tz="UTC"):
        self.plugins, self.tz = plugins, tz
        self.p = None

    def _start(self):
        r0, w0 = os.pipe()
        r1, w1 = os.pipe()

        def pre():
            import fcntl
            a = fcntl.fcntl(r0, fcntl.F_DUPFD, 20)
            b = fcntl.fcntl(w1, fcntl.F_DUPFD, 20)
            os.dup2(a, 3)
            os.dup2(b, 4)
            os.closerange(5, 64)
        env = dict(os.environ, TZ=self.tz, NODE_NO_WARNINGS="1")
        self.p = subprocess.Popen(["node", "--stack-size=4000", SRV], stdin=subprocess.DEVNULL,
                                  stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                                  preexec_fn=pre, close_fds=False, env=env)
        os.close(r0)
        os.close(w1)
        self.w, self.r, self.buf = w0, r1, b""
        for f in self.plugins:
            self._call({"op": "plugin", "file": os.path.join(os.path.dirname(SRV), f)}, 30)

    def _call(self, req, timeout):
        b = json.dumps(req).encode() + b"\n"
        mv = memoryview(b)
        while mv:
            mv = mv[os.write(self.w, mv[:65536]):]
        end = time.time() + timeout
        while b"\n" not in self.buf:
            t = end - time.time()
            if t <= 0 or not select.select([self.r], [], [], t)[0]:
                self.close()
                raise Hang("no answer in %d s" % timeout)
            c = os.read(self.r, 1 << 20)
            if not c:
                self.close()
                raise NodeError("the worker ended")
            self.buf += c
        l, self.buf = self.buf.split(b"\n", 1)
        r = json.loads(l)
        return r

    def call(self, op, timeout=60, **kw):
        if self.p is None:
            self._start()
        kw["op"] = op
        return self._call(kw, timeout)

    def close(self):
        if self.p is not None:
            for fd in (self.w, self.r):
                try:
                    os.close(fd)
                except OSError:
                    pass
            self.p.kill()
            self.p.wait()
            self.p = None


def get(env, *plugins, tz="UTC"):
    k = ("node", tz) + plugins
    if k not in env.cache:
        env.cache[k] = Node(*plugins, tz=tz)
    return env.cache[k]
