"""Helpers for demonstrations: run ./yrmcdsd from the current directory."""
import os, shutil, signal, socket, struct, subprocess, sys, tempfile, time, atexit

_dir = tempfile.mkdtemp(prefix="demo-")
_live = []


def _clean():
    for s in _live:
        s.kill()
    shutil.rmtree(_dir, ignore_errors=True)


atexit.register(_clean)


def free_port():
    s = socket.socket()
    s.bind(("127.0.0.1", 0))
    p = s.getsockname()[1]
    s.close()
    # stay out of the ephemeral range
    for q in range(12000 + p % 9000, 32000):
        s = socket.socket()
        try:
            s.bind(("0.0.0.0", q))
            return q
        except OSError:
            pass
        finally:
            s.close()


class Server:
    def __init__(self, conf="", vip="127.0.0.1", port=None, repl=None, cport=None, wait=True, env=None):
        self.port = port or free_port()
        self.repl = repl or free_port()
        while self.repl == self.port:
            self.repl = free_port() + 1
        self.cport = cport or self.repl + 1
        self.dir = tempfile.mkdtemp(dir=_dir)
        cf = os.path.join(self.dir, "conf")
        with open(cf, "w") as f:
            f.write("virtual_ip = %s\nport = %d\nrepl_port = %d\ntemp_dir = %s\nlog.threshold = warning\n"
                    "workers = 4\nbuckets = 1000\ncounter.enable = true\ncounter.port = %d\n"
                    "counter.buckets = 1000\n%s\n" % (vip, self.port, self.repl, self.dir, self.cport, conf))
        self.log = open(os.path.join(self.dir, "err"), "wb")
        e = dict(os.environ)
        e.update(env or {})
        self.p = subprocess.Popen(["./yrmcdsd", "-f", cf], stdout=self.log, stderr=self.log, env=e)
        _live.append(self)
        if wait:
            self.wait()

    def wait(self, t=20):
        end = time.time() + t
        while time.time() < end:
            if self.p.poll() is not None:
                print(open(os.path.join(self.dir, "err")).read()[-1500:])
                raise SystemExit("server exited: %s" % self.p.returncode)
            try:
                c = Text(self)
                if c.cmd("version").startswith("VERSION"):
                    c.close()
                    return
            except (OSError, EOFError):
                pass
            time.sleep(0.05)
        raise SystemExit("server does not serve")

    def kill(self):
        if self.p.poll() is None:
            self.p.kill()
            self.p.wait()


class Conn:
    def __init__(self, s, port=None, timeout=20):
        self.s = socket.create_connection(("127.0.0.1", port or s.port), timeout=timeout)
        self.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.b = b""

    def send(self, x):
        self.s.sendall(x if isinstance(x, bytes) else x.encode())

    def more(self):
        x = self.s.recv(1 << 20)
        if not x:
            raise EOFError("closed")
        self.b += x

    def line(self):
        while b"\r\n" not in self.b:
            self.more()
        l, self.b = self.b.split(b"\r\n", 1)
        return l.decode("latin1")

    def take(self, n):
        while len(self.b) < n:
            self.more()
        r, self.b = self.b[:n], self.b[n:]
        return r

    def close(self):
        self.s.close()


class Text(Conn):
    def cmd(self, c):
        self.send(c + "\r\n")
        return self.line()

    def set(self, k, v, fl=0, ex=0, op="set"):
        return self.cmd("%s %s %d %d %d\r\n%s" % (op, k, fl, ex, len(v), v))

    def get(self, k):
        """value or None"""
        self.send("get %s\r\n" % k)
        r = None
        while True:
            l = self.line()
            if l == "END":
                return r
            if not l.startswith("VALUE"):
                return l
            r = self.take(int(l.split()[3])).decode("latin1")
            self.take(2)

    def gets(self, k):
        """(flags, cas, value) or None"""
        self.send("gets %s\r\n" % k)
        r = None
        while True:
            l = self.line()
            if l == "END":
                return r
            f = l.split()
            r = (int(f[2]), int(f[4]), self.take(int(f[3])).decode("latin1"))
            self.take(2)

    def stats(self, what=""):
        self.send("stats %s\r\n" % what if what else "stats\r\n")
        d = {}
        while True:
            l = self.line()
            if l == "END":
                return d
            _, k, v = (l.split(" ", 2) + [""])[:3]
            d[k] = v


class Bin(Conn):
    def req(self, op, key=b"", ext=b"", val=b"", cas=0, opq=7):
        self.send(struct.pack(">BBHBBHIIQ", 0x80, op, len(key), len(ext), 0, 0,
                              len(key) + len(ext) + len(val), opq, cas) + ext + key + val)

    def resp(self):
        """(op, status, extras, key, value, cas, opaque)"""
        h = self.take(24)
        m, op, kl, el, dt, st, bl, opq, cas = struct.unpack(">BBHBBHIIQ", h)
        b = self.take(bl)
        return op, st, b[:el], b[el:el + kl], b[el + kl:], cas, opq

    def call(self, *a, **k):
        self.req(*a, **k)
        return self.resp()


class Counter(Conn):
    def __init__(self, s):
        Conn.__init__(self, s, s.cport)

    def req(self, op, body=b"", opq=7):
        self.send(struct.pack(">BBBBII", 0x90, op, 0, 0, len(body), opq) + body)

    def resp(self):
        h = self.take(12)
        m, op, st, fl, bl, opq = struct.unpack(">BBBBII", h)
        return op, st, self.take(bl)

    def call(self, op, body=b""):
        self.req(op, body)
        return self.resp()

    def get(self, name):
        name = name.encode()
        st, b = self.call(1, struct.pack(">H", len(name)) + name)[1:]
        return st, (struct.unpack(">I", b)[0] if st == 0 else None)

    def acquire(self, name, n, mx):
        name = name.encode()
        return self.call(2, struct.pack(">IIH", n, mx, len(name)) + name)[1]

    def release(self, name, n):
        name = name.encode()
        return self.call(3, struct.pack(">IH", n, len(name)) + name)[1]


def check(cond, what):
    if not cond:
        print("FAILED:", what)
        sys.exit(1)
