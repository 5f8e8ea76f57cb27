"""Performs Conn.tla: connections up to the limit, refused, reclaimed."""
import errno
import select
import socket
import time

import cachedrv
import vh
from model import Mismatch

SHORTAGE = [errno.EMFILE, errno.ENFILE, errno.ENOBUFS, errno.ENOMEM]


class Client:
    """A connection with an identity; a request is a store of a value nobody
    else stores (or takes a resource nobody else takes) and a question for it."""

    def __init__(self, drv, ctr):
        self.drv = drv
        self.ctr = ctr
        self.c = (vh.Ctr if ctr else cachedrv.Mixed)(drv.d)
        self.rest = None
        self.want = None

    def request(self, rnd):
        """(bytes, function that reads and judges the replies, effect)"""
        drv, c = self.drv, self.c
        drv.n += 1
        opq = rnd.randrange(1 << 32)
        if self.ctr:
            name = b"own%d" % drv.n
            n = rnd.randrange(1, 1000)
            b = vh.c_acquire(name, n, 1000, opq)

            def ans():
                _, st, o, _ = c.resp()
                return (st, o) == (0, opq), (st, o)
            return b, ans, name
        key = b"own%d" % drv.n + b"k" * rnd.choice([0, 0, 100])
        val = bytes(rnd.randrange(256) for _ in range(rnd.choice([1, 10, 100]))) * rnd.choice([1, 1, 50])
        if rnd.random() < 0.5:
            b = vh.text_store(b"set", key, val) + b"get %s\r\n" % key

            def ans():
                x = c.line()
                if x != b"STORED\r\n":
                    return False, x
                v = c.values()
                return len(v) == 1 and v[0][0] == key and v[0][2] == val, v
        else:
            b = vh.breq("SetQ", key, val, vh.sx(), opaque=opq ^ 1) + vh.breq("GetK", key, opaque=opq)

            def ans():
                r = c.resp()
                return (r.status, r.opaque, r.key, r.val) == (0, opq, key, val), r
        return b, ans, key

    def send(self, rnd):
        b, self.want, self.key = self.request(rnd)
        self.c.send(b)

    def send_half(self, rnd):
        b, self.want, self.key = self.request(rnd)
        if self.ctr or b[0] == 0x80:
            n = rnd.choice([1, 11, 12, 23, 24, len(b) - 1, rnd.randrange(1, len(b))])
            if not self.ctr:
                # (the question at the end is a request of its own)
                n = min(n, len(b) - 25 - len(self.key))
        else:
            n = rnd.choice([1, b.index(b"\n"), b.index(b"\n") + 1, rnd.randrange(1, len(b))])
            n = min(n, len(b) - len(self.key) - 8)
        n = max(1, min(n, len(b) - 1))
        self.c.send(b[:n])
        self.rest = b[n:]

    def send_rest(self, rnd):
        b, self.rest = self.rest, None
        if len(b) > 1 and rnd.random() < 0.3:
            n = rnd.randrange(1, len(b))
            self.c.send(b[:n])
            time.sleep(0.0005)
            b = b[n:]
        self.c.send(b)

    def answered(self):
        try:
            ok, got = self.want()
        except (EOFError, OSError) as e:
            raise Mismatch("a client lost its connection (%r)" % e, None)
        if not ok:
            raise Mismatch("the reply to a client's own request is %r" % (got,), None)
        self.want = None
        if self.ctr:
            self.drv.taken.append(self.key)

    def quiet(self):
        """Nothing but what is due arrives."""
        if self.c.buf:
            raise Mismatch("%r has been sent and answers nothing" % self.c.buf[:60], None)
        if select.select([self.c.s], [], [], 0)[0]:
            try:
                x = self.c.s.recv(1000)
            except OSError as e:
                raise Mismatch("the connection of a client was reset (%r)" % e, None)
            raise Mismatch("%r has been sent and answers nothing" % x[:60] if x
                           else "the connection of a client was closed", None)


class ConnDriver:
    def __init__(self, order, counters, limit, climit, slow=False, **dkw):
        self.slow = slow
        self.names = ["c%d" % (i + 1) for i in range(order)]
        self.ctrs = set(self.names[order - counters:]) if counters else set()
        lim = {}
        if limit:
            lim["max_connections"] = limit + 1
        if climit:
            lim["cmax"] = climit + 1
        self.d = vh.Daemon(counter=True, workers=3, buckets=11, gc_interval=10, stats_interval=10 ** 9,
                           **lim, **dkw)
        self.actr = vh.Ctr(self.d)
        self.c = {}
        self.n = 0
        self.taken = []
        self.log = []
        self.total0 = None

    def stop(self):
        for x in list(self.c.values()):
            x.c.close()
        self.actr.close()
        self.d.kill()

    def count(self, ctr):
        s = self.actr.stats() if ctr else self.d.stats()
        return int(s["curr_connections"]), int(s["total_connections"])

    def expect(self, what, slack=0):
        """The statistics of connections become right, and at once."""
        t = time.time()
        while True:
            bad = None
            for ctr in (False, True):
                want = 1 + sum(1 for x in self.c.values() if x.ctr == ctr and x.open)
                cur, tot = self.count(ctr)
                if cur != want:
                    bad = (ctr, cur, want)
            if bad is None:
                return
            if time.time() - t > (20 if self.slow else 5):
                raise Mismatch("%s: the %s server counts %d connections, there are %d" % (
                    what, "counter" if bad[0] else "cache", bad[1], bad[2]), None)
            time.sleep(0.0005)

    def heal(self):
        self.d.set("emfile", 0)

    def reset(self, rnd):
        self.heal()
        for x in self.c.values():
            if rnd.random() < 0.5:
                x.c.reset()
            else:
                x.c.close()
        self.c = {}
        self.log = []
        self.d.settle()
        self.expect("after all were closed")
        self.f = False
        self.d.set("accept_blips", 0)
        self.tot = {x: self.count(x)[1] for x in (False, True)}
        self.unsure = {False: 0, True: 0}

    def is_in(self, x, rnd):
        """Is the new connection served?  (It was given time to be accepted.)"""
        if x.want is None or x.rest is not None:
            # poke it with something harmless
            if x.rest is None:
                b, ans, key = x.request(rnd)
                try:
                    x.c.send(b)
                    ok, got = ans()
                except vh.Stuck:
                    raise Mismatch("a new connection is neither served nor refused", None)
                except (EOFError, OSError):
                    return "out"
                if not ok:
                    raise Mismatch("the reply to a client's own request is %r" % (got,), None)
                if x.ctr:
                    self.taken.append(key)
                return "in"
            # only a part was sent: it is refused, or counted
            t = time.time()
            x.c.s.settimeout(0.05)
            try:
                while True:
                    try:
                        r = x.c.s.recv(10)
                        if r:
                            raise Mismatch("%r answers a part of a request" % r, None)
                        return "out"
                    except socket.timeout:
                        if self.served(x):
                            return "in"
                    except OSError:
                        return "out"
                    if time.time() - t > 15:
                        raise Mismatch("a new connection is neither served nor refused", None)
            finally:
                x.c.s.settimeout(15)
        try:
            x.answered()
        except Mismatch as e:
            if "lost its connection" in str(e):
                return "out"
            raise
        except vh.Stuck:
            raise Mismatch("a new connection is neither served nor refused", None)
        return "in+ans"

    def served(self, x):
        """Is its descriptor held by the daemon?"""
        p = x.c.lport()
        for path in ("/proc/net/tcp", "/proc/net/tcp6"):
            try:
                for l in open(path).read().splitlines()[1:]:
                    f = l.split()
                    if int(f[2].rsplit(":", 1)[1], 16) == p and f[3] == "01" and \
                            int(f[1].rsplit(":", 1)[1], 16) == x.c.s.getpeername()[1]:
                        return f[9] != "0"
            except OSError:
                pass
        return False

    def do(self, op, outs, rnd):
        o, c = op["o"], op["c"]
        d = self.d
        if rnd.random() < 0.1:
            d.set("accept_blips", rnd.choice([1, 3, 20]))
        try:
            r = self.act(op, o, c, outs, rnd)
            for i, out in enumerate(outs):
                if self.same(out[0], r):
                    self.verify(op, rnd)
                    return i
        except vh.Stuck as e:
            raise Mismatch("%s: %s" % (op, e), self.log)
        except Mismatch as e:
            raise Mismatch("%s: %s" % (op, e.args[0]), self.log)
        raise Mismatch("%s: %r, allowed %r" % (op, r, [x[0] for x in outs]), self.log)

    @staticmethod
    def same(want, got):
        return {k: v for k, v in want.items() if v} == got

    def verify(self, op, rnd):
        o = [x for x in self.c.values() if x.open]
        rnd.shuffle(o)
        for x in o:
            if x.rest is None:
                b, ans, key = x.request(rnd)
                x.c.send(b)
                try:
                    ok, got = ans()
                except (EOFError, OSError) as e:
                    raise Mismatch("another client lost its connection (%r)" % e, None)
                if not ok:
                    raise Mismatch("the reply to a client's own request is %r" % (got,), None)
                if x.ctr:
                    self.taken.append(key)
            x.quiet()
        for x in self.c.values():
            if not x.open:
                x.quiet()
        self.expect("after %s" % op["o"])
        for ctr in (False, True):
            tot = self.count(ctr)[1]
            if not self.tot[ctr] <= tot <= self.tot[ctr] + self.unsure[ctr]:
                raise Mismatch("total_connections is %d instead of %d" % (tot, self.tot[ctr]), None)
            if not self.f:
                self.tot[ctr] = tot
                self.unsure[ctr] = 0

    def new(self, c):
        x = Client(self, c in self.ctrs)
        x.open = False
        self.c[c] = x
        return x

    def admit(self, x, c, rnd):
        r = self.is_in(x, rnd)
        if r == "out":
            x.c.close()
            del self.c[c]
        else:
            x.open = True
            self.tot[x.ctr] += 1
        return r

    def act(self, op, o, c, outs, rnd):
        d = self.d
        if o in ("open", "burst"):
            cs = [c] if o == "open" else [x for x in self.names if x not in self.c]
            hold = o == "burst" and rnd.random() < 0.5
            if hold:
                d.set("hold_reactor", 1)
            try:
                xs = [(x, self.new(x)) for x in cs]
            finally:
                d.set("hold_reactor", 0)
            if self.f:
                d.settle()
                return {}
            # (all are accepted in the order of their arrival)
            return {n: self.admit(x, n, rnd) for n, x in xs}
        if o in ("half", "full", "rest"):
            x = self.c[c]
            try:
                (x.send_half if o == "half" else x.send if o == "full" else x.send_rest)(rnd)
            except OSError as e:
                raise Mismatch("a client lost its connection (%r)" % e, None)
            if x.open and o != "half":
                x.answered()
                return {c: "ans"}
            return {}
        if o in ("fin", "rst"):
            x = self.c.pop(c)
            if not x.open:
                self.unsure[x.ctr] += 1
                self.ghost = True
            if o == "rst":
                x.c.reset()
            else:
                if x.open and x.rest is None and rnd.random() < 0.3:
                    x.c.s.shutdown(socket.SHUT_WR)
                    if not x.c.at_eof():
                        raise Mismatch("a connection whose client has finished is not closed", None)
                x.c.close()
            return {}
        if o == "end":
            x = self.c[c]
            if x.ctr:
                x.c.s.shutdown(socket.SHUT_WR)
            elif rnd.random() < 0.03:
                try:
                    for _ in range(32):
                        x.c.send(b"y" * (1 << 20))
                except OSError:
                    pass
            else:
                x.c.send(rnd.choice([b"quit\r\n", vh.breq("Quit", opaque=5), vh.breq("QuitQ")]))
            if not x.c.at_eof():
                raise Mismatch("the connection is not closed", None)
            x.c.close()
            del self.c[c]
            return {c: "end"}
        if o == "fault":
            d.set("accept_errno", rnd.choice(SHORTAGE))
            d.set("emfile", 1 << 60)
            self.f = True
            return {}
        if o == "heal":
            self.heal()
            self.f = False
            d.settle()
            return {n: self.admit(x, n, rnd) for n, x in list(self.c.items()) if not x.open}
        if o == "tick":
            # the resources of closed connections are destroyed
            for _ in range(3):
                d.tick(rnd.choice([0, 1, 11]))
                d.settle()
            return {}
        raise KeyError(o)
