"""Performs Work.tla: workers that are held up at chosen points."""
import select
import time

import cachedrv
import vh
from model import Mismatch


class Client:
    """A connection of any protocol; replies are numbered."""

    def __init__(self, d, proto, key):
        self.proto = proto
        self.ctr = proto == "counter"
        self.c = vh.Ctr(d) if self.ctr else cachedrv.Mixed(d)
        self.due = []
        self.key = key
        self.n = 0

    def request(self, rnd):
        self.n += 1
        opq = rnd.randrange(1 << 32)
        if self.ctr:
            b = rnd.choice([vh.creq("Noop", b"", opq), vh.c_get(self.key, opq), vh.c_release(self.key, 1, opq)])
            self.due.append(("c", opq))
        elif self.proto == "binary" or self.proto == "mixed" and rnd.random() < 0.5:
            b = rnd.choice([vh.breq("Noop", opaque=opq), vh.breq("Get", self.key, opaque=opq),
                            vh.breq("Set", self.key, b"v" * rnd.choice([1, 100, 5000]), vh.sx(), opaque=opq),
                            vh.breq("Delete", self.key, opaque=opq), vh.breq("LaG", self.key, opaque=opq)])
            self.due.append(("b", opq))
        else:
            b = rnd.choice([b"version\r\n", b"set %s 0 0 3\r\nabc\r\n" % self.key, b"delete %s\r\n" % self.key,
                            b"lock %s\r\n" % self.key, b"bad\r\n", b"unlock_all\r\n"])
            self.due.append(("t", b))
        return b

    def reply(self):
        kind, x = self.due.pop(0)
        c = self.c
        if kind == "c":
            _, _, opq, _ = c.resp()
            ok = opq == x
        elif kind == "b":
            r = c.resp()
            opq = r.opaque
            ok = opq == x
        else:
            opq = c.line()
            ok = opq.endswith(b"\r\n") and (not x.startswith(b"version") or opq.startswith(b"VERSION"))
        if not ok:
            raise Mismatch("the reply to %r is %r" % (x, opq), None)

    def port(self):
        return self.c.lport() | self.c.s.getpeername()[1] << 16

    def surplus(self):
        c = self.c
        if c.buf:
            return c.buf
        c.s.setblocking(False)
        try:
            x = c.s.recv(1000)
            if not x:
                raise EOFError("closed by the daemon")
            c.buf += x
            return x
        except BlockingIOError:
            return b""
        finally:
            c.s.settimeout(15)


class WorkDriver:
    def __init__(self, conns, workers, slow=False, nburst=20, **dkw):
        self.slow = slow
        self.names = conns
        self.workers = workers
        self.nburst = nburst
        self.d = vh.Daemon(counter=True, workers=workers, buckets=50, gc_interval=100000000, **dkw)
        self.d.admin.close()
        self.d.admin = None
        self.c = {}
        self.slot = {}
        self.others = []
        self.log = []
        self.n = 0

    def stop(self):
        for x in list(self.c.values()) + self.others:
            x.c.close()
        self.d.kill()

    def fresh(self, rnd):
        self.n += 1
        x = Client(self.d, rnd.choice(["text", "binary", "mixed", "counter"]), b"w%d" % self.n)
        return x

    def reset(self, rnd):
        d = self.d
        for i in range(8):
            d.set("hold_peer%d" % i, 0)
        for i in range(4):
            d.set("hold_drain%d" % i, 0)
        self.slot = {}
        self.nheld = {"pheld": 0, "dheld": 0}
        for x in self.c.values():
            x.c.close()
        t = time.time()
        while d.get("pheld") or d.get("dheld"):
            if time.time() - t > 10:
                raise vh.CheckError("a thread does not go on")
            time.sleep(0.0002)
        d.set("seed", rnd.randrange(1, 1 << 30))
        d.set("recv_max", rnd.choice([0, 0, 0, 9]))
        d.set("perturb", rnd.choice([0, 0, 3, 20]))
        d.set("perturb_us", 500)
        self.c = {c: self.fresh(rnd) for c in self.names}
        self.view0 = {"h": {c: "no" for c in self.names}}
        self.log = []

    def do(self, op, outs, rnd):
        try:
            return self._do(op, outs, rnd)
        except vh.DaemonDied as e:
            raise Mismatch("the daemon died at %s: %s" % (self.log[-2:], e), self.log)
        except vh.Stuck as e:
            raise Mismatch("%s at %s" % (e, self.log[-3:]), self.log)
        except (EOFError, OSError) as e:
            if self.d.p.poll() is not None:
                raise Mismatch("the daemon died at %s with status %s: %s" % (
                    self.log[-2:], self.d.p.returncode, self.d.stderr()[-600:]), self.log)
            raise Mismatch("%r at %s" % (e, self.log[-3:]), self.log)
        except Mismatch as e:
            e.trace = self.log
            raise

    def wait_held(self, what):
        t = time.time()
        while self.d.get(what) != self.nheld[what]:
            if time.time() - t > 10:
                raise Mismatch("no worker takes up a request (%s), after %s" % (what, self.log[-3:]), None)
            if self.d.p.poll() is not None:
                raise EOFError
            time.sleep(0.0001)

    def _do(self, op, outs, rnd):
        o, c = op["o"], op["c"]
        self.log.append("%s %s" % (o, c))
        (res, nxt), = [(x[0], x[-1]) for x in outs]
        d = self.d
        x = self.c.get(c)
        if o == "send":
            b = x.request(rnd)
            self.put(x, b, rnd)
        elif o in ("pre", "post"):
            # (pieces of the request may come in several packets)
            n = int(c[1:]) if c[1:].isdigit() else self.names.index(c)
            name = ("hold_peer%d" if o == "pre" else "hold_drain%d") % n
            what = "pheld" if o == "pre" else "dheld"
            self.settle()
            self.slot[c] = (name, what)
            d.set(name, x.port())
            self.nheld[what] += 1
            for i in range(50):
                x.c.send(x.request(rnd))
                self.wait_held(what)
                answered = bool(x.c.buf or select.select([x.c.s], [], [], 0.3 if o == "post" else 0.002)[0])
                if answered == (o == "post"):
                    break
                # A worker was still about to leave the connection after an
                # earlier request.  Once more:
                d.set(name, 0)
                self.nheld[what] -= 1
                self.wait_held(what)
                x.reply()
                self.settle()
                self.nheld[what] += 1
                d.set(name, x.port())
            else:
                raise vh.CheckError("cannot hold a worker")
        elif o == "release":
            name, what = self.slot.pop(c)
            self.nheld[what] -= 1
            d.set(name, 0)
            self.wait_held(what)
            if self.view0["h"][c] == "dead":
                self.c[c] = self.fresh(rnd)
        elif o == "close":
            if rnd.random() < 0.5:
                x.c.reset()
            else:
                x.c.close()
            x.due = []
            if self.view0["h"][c] == "no":
                self.c[c] = self.fresh(rnd)
        elif o == "burst":
            self.burst(rnd)
        for k, n in res.items():
            for i in range(n):
                try:
                    self.c[k].reply()
                except vh.Stuck:
                    raise Mismatch("a complete request on connection %s is not answered, after %s" % (
                        k, self.log[-4:]), None)
        # what must wait has not been answered
        now = self.view[nxt]
        for k in self.names:
            if now["h"][k] == "dead":
                continue
            if len(self.c[k].due) != now["p"][k]:
                raise vh.CheckError("%s: %r, %r" % (k, self.c[k].due, now))
            if self.slow:
                time.sleep(0.01)
            s = self.c[k].surplus()
            if s:
                raise Mismatch("%r was sent to %s and answers nothing, after %s" % (s[:60], k, self.log[-3:]), None)
        self.view0 = now
        return 0

    def settle(self):
        """The worker of the last request must have left the connection."""
        d = self.d
        want = self.workers - sum(self.nheld.values())
        t = time.time()
        while d.get("idle") != want and time.time() - t < 1.0:
            time.sleep(0.0001)
        if self.slow:
            time.sleep(0.02)

    def put(self, x, b, rnd):
        if rnd.random() < 0.3 and len(b) > 1:
            n = rnd.randrange(1, len(b))
            x.c.send(b[:n])
            if rnd.random() < 0.5:
                time.sleep(0.0003)
            x.c.send(b[n:])
        else:
            x.c.send(b)

    def burst(self, rnd):
        while len(self.others) < self.nburst:
            self.others.append(self.fresh(rnd))
        m = rnd.choice([1, 1, 2, 5])
        who = rnd.sample(self.others, rnd.randrange(1, self.nburst + 1))
        for i in range(m):
            for x in who:
                self.put(x, x.request(rnd), rnd)
        for x in who:
            while x.due:
                try:
                    x.reply()
                except vh.Stuck:
                    raise Mismatch("a complete request on one of %d other connections is not answered, after %s" % (
                        len(who), self.log[-4:]), None)
