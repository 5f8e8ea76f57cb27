"""Performs Sock.tla: clients that read late, in parts, or never."""
import select
import socket
import struct
import time

import cachedrv
import vh
from model import Mismatch

HUGE = 0xffffffff


def lines(b):
    return sorted(b.split(b"\r\n"))


def bkeys(b):
    """Binary Keys: the keys, without order; the opaque values are checked."""
    out = []
    while b:
        magic, op, kl, el, _, st, bl, opq, cas = struct.unpack(">BBHBBHIIQ", b[:24])
        out.append((magic, op, st, opq, el, b[24 + el:24 + el + kl], bl - kl - el))
        b = b[24 + bl:]
    return sorted(out[:-1]) + out[-1:]


def cdump(b):
    out = []
    while b:
        magic, op, st, rsv, bl, opq = struct.unpack(">BBBBII", b[:12])
        out.append((magic, op, st, opq, b[22:12 + bl]))
        b = b[12 + bl:]
    return sorted(out[:-1]) + out[-1:]


def nocas(b):
    return b[:16] + b[24:]


def plain(b):
    return b


class Client:
    """A connection that owes reading; due: (length, normal form, normaliser)."""

    def __init__(self, drv, rnd, name):
        self.ctr = drv.ctr
        self.c = (vh.Ctr if self.ctr else cachedrv.Mixed)(drv.d, rcvbuf=drv.rcvbuf)
        self.due = []
        self.got = bytearray()
        self.name = name
        self.n = 0
        self.base = self.low = 0
        self.ended = False

    def owe(self, b, f=plain):
        self.due.append((len(b), f(b), f))

    def owed(self):
        return sum(x[0] for x in self.due) - len(self.got)

    def recv(self, n, rnd):
        s = self.c.s
        while n > 0:
            k = min(n, rnd.choice([1, 100, 3000, 100000, 1 << 20]))
            try:
                x = s.recv(k)
            except socket.timeout:
                raise Mismatch("a client reads and gets nothing, %d bytes are missing" % self.owed(), None)
            if not x:
                raise Mismatch("the connection was closed, %d bytes are missing" % self.owed(), None)
            self.got += x
            n -= len(x)

    def verify(self):
        b = bytes(self.got)
        for n, want, f in self.due:
            got, b = b[:n], b[n:]
            try:
                g = f(got)
            except Exception as e:
                g = "not a reply: %r" % e
            if g != want:
                d = next((i for i in range(n) if got[i:i + 1] != want[i:i + 1]), None) \
                    if isinstance(want, bytes) and f is plain else None
                raise Mismatch("wrong bytes in a reply (offset %s of %d): %r instead of %r" % (
                    d, n, (got if d is None else got[d:])[:80], (want if d is None else want[d:])[:80]), None)
        self.due = []
        self.got = bytearray()

    def surplus(self):
        if select.select([self.c.s], [], [], 0)[0]:
            x = self.c.s.recv(1000)
            if x:
                raise Mismatch("%r has been sent and answers nothing" % x[:80], None)
            raise Mismatch("the connection was closed", None)


class SockDriver:
    def __init__(self, conns, workers, ctr, slow=False, **dkw):
        self.slow = slow
        self.names = conns
        self.ctr = ctr
        self.d = vh.Daemon(counter=True, workers=workers, buckets=3, gc_interval=10, stats_interval=10 ** 9, **dkw)
        self.d.admin.close()
        self.d.admin = None
        self.c = {}
        self.n = 0
        self.log = []
        self.rcvbuf = None
        self.hold = vh.Ctr(self.d)
        self.cnames = [b"name%04d" % i + b"x" * (i % 100) for i in range(300)]
        for x in self.cnames:
            self.hold.acquire(x, 1, 5)
        self.fast = cachedrv.Mixed(self.d)
        self.fctr = vh.Ctr(self.d)
        # (the resources of a closed connection may be released late)
        self.own = [b"own%d" % i for i in range(60)]
        for x in self.own:
            self.fctr.acquire(x, 1, 5)
            self.fctr.release(x, 1)
        self.bigs = []
        self.kp = [b"kp%03d" % i + b"y" * (i * 3 % 240) for i in range(300)]
        for k in self.kp:
            self.fast.store(b"set", k, b"")
        self.fn = 0
        self.fast.store(b"set", b"f", b"0")

    def stop(self):
        for x in list(self.c.values()):
            x.c.close()
        for x in (self.hold, self.fast, self.fctr):
            x.close()
        self.d.kill()

    def fresh(self, c, rnd):
        if self.ctr:
            used = {x.name for x in self.c.values()}
            name = next((y for y in rnd.sample(self.own, len(self.own))
                         if y not in used and self.fctr.get(y)[1] == 0), None)
            if name is None:
                raise Mismatch("the resources of closed connections are not released", None)
            return Client(self, rnd, name)
        self.n += 1
        x = Client(self, rnd, b"own%d" % self.n)
        self.fast.store(b"set", x.name, b"0")
        return x

    def reset(self, rnd):
        d = self.d
        for x in self.c.values():
            x.c.close()
        d.set("seed", rnd.randrange(1, 1 << 30))
        r = rnd.random()
        self.wide = r < 0.1 and not self.ctr
        if self.wide:
            d.set("sndbuf", 0)
            self.rcvbuf = 4096
            n, size = 8, 600000
        else:
            d.set("sndbuf", rnd.choice([4608, 4608, 20000]))
            self.rcvbuf = rnd.choice([2304, 8000])
            n, size = rnd.choice([(3, 50000), (2, 200000), (20, 5000)])
        d.set("short_write", rnd.choice([0, 0, 3]))
        d.set("eintr", rnd.choice([0, 0, 5]))
        d.set("perturb", rnd.choice([0, 0, 10]))
        d.set("perturb_us", 300)
        if not self.ctr:
            for k, _ in self.bigs:
                vh.Text.cmd(self.fast, b"delete " + k)
            self.bigs = [(b"B%d" % i, rnd.randbytes(size + rnd.randrange(1000))) for i in range(n)]
            for k, v in self.bigs:
                self.fast.store(b"set", k, v)
        self.c = {}
        # destroy the connections of the last walk
        p = d.get("polls")
        while d.get("polls") < p + 10:
            d.fire()
            time.sleep(0.001)
        for c in self.names:
            self.c[c] = self.fresh(c, rnd)
        self.log = []

    # requests --------------------------------------------------------------
    def big(self, x, rnd):
        opq = rnd.randrange(1 << 32)
        if self.ctr:
            if rnd.random() < 0.5:
                b = b""
                for i in range(rnd.choice([3, 6])):
                    b += vh.creq("Dump", b"", opq)
                    w = b"".join(struct.pack(">BBBBIIIIH", 0x91, 0x11, 0, 0, 10 + len(n), opq, 0, 0, len(n)) + n
                                 for n in sorted(self.cnames + self.own)) + struct.pack(
                                     ">BBBBII", 0x91, 0x11, 0, 0, 0, opq)
                    x.owe(w, cdump)
                return b
            b = b""
            for i in range(rnd.choice([1000, 3000])):
                b += vh.c_get(self.cnames[i % 7], i)
                x.owe(struct.pack(">BBBBIII", 0x91, 1, 0, 0, 4, i, 1))
            return b
        kind = rnd.choice(["mget", "get", "Get", "GetKQ", "GaTK", "keys", "Keys", "noops"])
        if self.wide and kind != "Get":
            kind = "mget"
        if kind == "mget":
            ks = rnd.sample(self.bigs, rnd.randrange(1, len(self.bigs) + 1))
            if self.wide:
                ks = self.bigs
            x.owe(b"".join(b"VALUE %s 0 %d\r\n%s\r\n" % (k, len(v), v) for k, v in ks) + b"END\r\n")
            return b"get " + b" ".join(k for k, _ in ks) + b"\r\n"
        k, v = rnd.choice(self.bigs)
        if kind == "get":
            x.owe(b"VALUE %s 0 %d\r\n%s\r\nEND\r\n" % (k, len(v), v))
            return b"get %s\r\n" % k
        if kind in ("Get", "GaTK"):
            kk = k if kind == "GaTK" else b""
            x.owe(struct.pack(">BBHBBHIIQ", 0x81, vh.OP[kind], len(kk), 4, 0, 0, 4 + len(kk) + len(v), opq, 0) +
                  b"\0\0\0\0" + kk + v, nocas)
            return vh.breq(kind, k, extras=vh.px(0) if kind == "GaTK" else b"", opaque=opq)
        if kind == "GetKQ":
            b = b""
            for k, v in rnd.sample(self.bigs, rnd.randrange(1, len(self.bigs) + 1)):
                b += vh.breq(kind, k, opaque=opq) + vh.breq(kind, b"none", opaque=opq)
                x.owe(struct.pack(">BBHBBHIIQ", 0x81, vh.OP[kind], len(k), 4, 0, 0, 4 + len(k) + len(v), opq, 0) +
                      b"\0\0\0\0" + k + v, nocas)
            x.owe(struct.pack(">BBHBBHIIQ", 0x81, vh.OP["Noop"], 0, 0, 0, 0, 0, opq, 0))
            return b + vh.breq("Noop", opaque=opq)
        if kind == "keys":
            b = b""
            for i in range(rnd.choice([1, 3])):
                x.owe(b"".join(b"VALUE %s\r\n" % k for k in self.kp) + b"END\r\n", lines)
                b += b"keys kp\r\n"
            return b
        if kind == "Keys":
            x.owe(b"".join(struct.pack(">BBHBBHIIQ", 0x81, vh.OP[kind], len(k), 0, 0, 0, len(k), opq, 0) + k
                           for k in self.kp) + struct.pack(">BBHBBHIIQ", 0x81, vh.OP[kind], 0, 0, 0, 0, 0, opq, 0),
                  bkeys)
            return vh.breq("Keys", b"kp", opaque=opq)
        b = b""
        for i in range(rnd.choice([100, 1000])):
            x.owe(struct.pack(">BBHBBHIIQ", 0x81, vh.OP["Noop"], 0, 0, 0, 0, 0, i, 0))
            b += vh.breq("Noop", opaque=i)
        return b

    def inc(self, x, rnd):
        x.n += 1
        opq = rnd.randrange(1 << 32)
        if self.ctr:
            x.owe(struct.pack(">BBBBIII", 0x91, 2, 0, 0, 4, opq, 1))
            return vh.c_acquire(x.name, 1, 1000000, opq)
        if rnd.random() < 0.5:
            x.owe(b"%d\r\n" % x.n)
            return b"incr %s 1\r\n" % x.name
        x.owe(struct.pack(">BBHBBHIIQ", 0x81, 5, 0, 0, 0, 0, 8, opq, 0) + struct.pack(">Q", x.n), nocas)
        return vh.breq("Increment", x.name, extras=vh.ix(1), opaque=opq)

    # operations --------------------------------------------------------------
    def do(self, op, outs, rnd):
        try:
            return self._do(op, outs, rnd)
        except vh.DaemonDied as e:
            raise Mismatch("the daemon died at %s: %s" % (self.log[-2:], e), self.log)
        except vh.Stuck as e:
            raise Mismatch("%s at %s" % (e, self.log[-4:]), self.log)
        except (EOFError, OSError) as e:
            time.sleep(0.1)
            if self.d.p.poll() is not None:
                raise Mismatch("the daemon died at %s: %s" % (self.log[-2:], self.d.stderr()[-300:]), self.log)
            raise Mismatch("%r at %s" % (e, self.log[-4:]), self.log)
        except Mismatch as e:
            e.trace = self.log
            e.args = ("%s, after %s" % (e.args[0], self.log[-4:]),) + e.args[1:]
            raise

    def _do(self, op, outs, rnd):
        o, c = op["o"], op["c"]
        self.log.append(" ".join(x for x in (o, c, op["k"]) if x))
        x = self.c.get(c)
        if o == "ask":
            b = self.big(x, rnd) if op["k"] == "big" else self.inc(x, rnd)
            if rnd.random() < 0.2:
                i = rnd.randrange(1, len(b))
                x.c.send(b[:i])
                time.sleep(0.0005)
                b = b[i:]
            x.c.send(b)
            if rnd.random() < 0.5:
                time.sleep(rnd.choice([0.0005, 0.003]))
        elif o == "part":
            n = x.owed()
            if n > 1:
                x.recv(rnd.choice([1, n - 1, rnd.randrange(1, n)]), rnd)
        elif o == "read":
            x.recv(x.owed(), rnd)
            x.verify()
            if x.ended:
                if not x.c.at_eof():
                    raise Mismatch("the connection is not closed", None)
                if len(x.c.buf):
                    raise Mismatch("%r has been sent and answers nothing" % x.c.buf[:80], None)
                x.c.close()
                self.c[c] = self.fresh(c, rnd)
            else:
                if self.slow:
                    time.sleep(0.02)
                x.surplus()
                x.base = x.n
                x.low = 0
        elif o == "look":
            if self.ctr and x.ended:
                # (what the connection has acquired is being released)
                return min(range(len(outs)), key=lambda i: outs[i][0])
            t = time.time()
            while True:
                if self.ctr:
                    v = self.fctr.get(x.name)[1] or 0
                else:
                    v = int(self.fast.get(x.name)[0][2])
                v -= x.base
                if v < x.low:
                    raise Mismatch("%d requests of %s had been carried out, now %d" % (x.low, c, v), None)
                for i, y in enumerate(outs):
                    if y[0] == [v]:
                        x.low = v
                        return i
                # (the first request may not have been begun)
                if v >= max(y[0][0] for y in outs) or time.time() - t > 8:
                    raise Mismatch("%d of the requests of %s have been carried out, allowed: %s" % (
                        v, c, [y[0] for y in outs]), None)
                time.sleep(0.001)
        elif o == "close":
            if rnd.random() < 0.3:
                x.c.reset()
            else:
                x.c.close()
            self.c[c] = self.fresh(c, rnd)
        elif o == "half":
            x.c.s.shutdown(socket.SHUT_WR)
            x.ended = True
        elif o == "quit":
            x.ended = True
            if self.ctr:
                x.c.s.shutdown(socket.SHUT_WR)
            else:
                k = rnd.choice(["quit", "Quit", "QuitQ"])
                opq = rnd.randrange(1 << 32)
                if k == "Quit":
                    x.owe(struct.pack(">BBHBBHIIQ", 0x81, 7, 0, 0, 0, 0, 0, opq, 0))
                x.c.send(b"quit\r\n" if k == "quit" else vh.breq(k, opaque=opq))
        elif o == "other":
            self.other(rnd)
        elif o == "tick":
            f = self.fast
            self.d.admin = f
            try:
                n = int(self.d.stats()["gc_count"])
                self.d.tick(11)
                t = time.time()
                while int(self.d.stats()["gc_count"]) == n:
                    if time.time() - t > 8:
                        raise Mismatch("the garbage collector does not end", None)
                    self.d.tick(11)
                    time.sleep(0.001)
            finally:
                self.d.admin = None
        return 0

    def other(self, rnd):
        f, g = self.fast, self.fctr
        for i in range(rnd.choice([1, 4])):
            k = rnd.choice(["get", "set", "incr", "keys", "cget", "cacq", "dump", "lock"])
            if k in ("get", "set", "lock") and not self.bigs:
                k = "incr"
            if k == "get":
                key, v = rnd.choice(self.bigs)
                r = f.get(key)
                if r != [(key, 0, v, None)]:
                    raise Mismatch("another client gets wrong data", None)
            elif k == "set":
                key, v = rnd.choice(self.bigs)
                r = f.store(b"set", key, v)
                if r != b"STORED":
                    raise Mismatch("another client's set: %r" % r, None)
            elif k == "lock":
                key, v = rnd.choice(self.bigs)
                r = vh.Text.cmd(f, b"lock " + key), vh.Text.cmd(f, b"unlock " + key)
                if r != (b"OK", b"OK"):
                    raise Mismatch("another client's lock, unlock: %r" % (r,), None)
            elif k == "incr":
                self.fn += 1
                r = vh.Text.cmd(f, b"incr f 1")
                if r != b"%d" % self.fn:
                    raise Mismatch("another client's incr: %r" % r, None)
            elif k == "keys":
                if sorted(f.keys(b"kp")) != sorted(self.kp):
                    raise Mismatch("another client's keys", None)
            elif k == "cget":
                if g.get(rnd.choice(self.cnames)) != ("OK", 1):
                    raise Mismatch("another client's counter get", None)
            elif k == "cacq":
                nm = rnd.choice(self.cnames[7:])
                if g.acquire(nm, 1, 5) != ("OK", 1) or g.release(nm, 1) != "OK":
                    raise Mismatch("another client's acquire and release", None)
            elif k == "dump":
                if not set(self.cnames) <= set(g.dump()):
                    raise Mismatch("another client's dump", None)
