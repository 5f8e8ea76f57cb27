"""Performs Slaves.tla: a master among slaves that are silent, or do not read."""
import os
import select
import signal
import socket
import time

import cachedrv
import repl
import vh
from model import Mismatch

NONE = 99


class Sink(repl.Replica):
    """A slave played by the harness."""
    real = False

    def __init__(self, drv, deaf):
        repl.Replica.__init__(self, drv.d, rcvbuf=65536 if drv.small else None)
        self.heard = drv.d.now
        self.deaf = deaf

    def say(self, rnd):
        n = rnd.choice([1, 1, 1, 2, 100, 5000])
        try:
            self.s.send(bytes(rnd.randrange(256) for _ in range(n)))
        except OSError as e:
            raise Mismatch("the connection of a slave is lost (%r)" % e, None)

    def gone(self):
        self.pump()
        return self.eof


class Real:
    """A slave that is a server itself."""
    real = True
    deaf = False
    eof = False

    def __init__(self, drv, rnd):
        self.drv = drv
        self.s = vh.Daemon(master=False, wait=False, repl_port=drv.d.repl_port, now=drv.d.now,
                           workers=1, buckets=11, slave_timeout=drv.T, ctl={"sleep_max": 2000})
        self.left = False

    def tick(self, k):
        s = self.s
        s.now += k
        s.set("now_sec", s.now)
        s.fire()
        p = s.get("polls")
        t = time.time()
        while s.get("polls") < p + 3:
            self.check()
            if time.time() - t > 20:
                raise Mismatch("a slave does not poll any more", None)
            time.sleep(0.0005)

    def check(self):
        if s_dead(self.s):
            raise Mismatch("a slave has ended: %s %s" % (self.s.p.returncode, self.s.stderr()[-500:]), None)

    def gone(self):
        """It is connected, or not."""
        return not established(self.drv.d.repl_port, self.s.p.pid)

    def close(self, rst=False):
        if self.s:
            if not rst:
                self.s.signal(signal.SIGTERM)
                try:
                    self.s.wait_exit(10)
                except Exception:
                    pass
            self.s.kill()
            vh.release_ports(self.s.port)
            self.s = None


def s_dead(d):
    return d.p.poll() is not None


def established(port, pid):
    """Has this process a connection to the port?"""
    own = set()
    try:
        for f in os.listdir("/proc/%d/fd" % pid):
            try:
                x = os.readlink("/proc/%d/fd/%s" % (pid, f))
            except OSError:
                continue
            if x.startswith("socket:["):
                own.add(x[8:-1])
    except OSError:
        return False
    for path in ("/proc/net/tcp", "/proc/net/tcp6"):
        for l in open(path).read().splitlines()[1:]:
            f = l.split()
            if f[3] == "01" and int(f[2].rsplit(":", 1)[1], 16) == port and f[9] in own:
                return True
    return False


class SlavesDriver:
    def __init__(self, n, T, real=(), stall=False, slow=False, **dkw):
        self.stall = stall
        self.slow = slow
        self.T = T
        self.real = set(real)
        self.small = False
        self.d = vh.Daemon(workers=3, buckets=1009, gc_interval=1, slave_timeout=T,
                           repl_buffer_size=1, heap_data_limit="64K", **dkw)
        self.reps = {}
        self.log = []
        self.n = 0
        self.c = None
        self.wait = None
        self.objs = {}
        self.d.admin.store(b"set", b"base", b"b" * 100)
        self.objs[b"base"] = b"b" * 100

    def stop(self):
        for r in self.reps.values():
            r.close()
        self.reps = {}
        if self.c:
            self.c.close()
        self.d.kill()

    def quiet(self):
        """The periodic work of the master, without the clock it has not seen."""
        now = self.d.now
        self.d.set("now_sec", self.seen)
        self.d.now = self.seen
        self.d.tick(0)
        self.d.now = now
        self.d.set("now_sec", now)

    def count(self):
        return int(self.d.stats()["slaves"])

    def until(self, f, what, timeout=15):
        t = time.time()
        while not f():
            if time.time() - t > timeout:
                raise Mismatch(what, None)
            time.sleep(0.0005)

    def reset(self, rnd):
        for r in self.reps.values():
            r.close(rst=rnd.random() < 0.5)
        self.reps = {}
        self.seen = self.d.now
        if self.c is None:
            self.c = cachedrv.Mixed(self.d)
        self.wait_client(True)

        def f():
            self.quiet()
            return self.count() == 0
        self.until(f, "slaves that have gone are still counted")
        self.log = []
        self.small = self.stall or rnd.random() < 0.3

    # ---- the client
    def send(self, b):
        """Requests whose last answer shows that all are done."""
        self.c.send(b + b"version\r\n")
        self.wait = True

    def wait_client(self, must, timeout=0.03):
        """Has the client been served?"""
        if self.wait is None:
            return True
        t = time.time()
        while True:
            for r in self.reps.values():
                if not r.real and not r.deaf:
                    r.pump()
            if select.select([self.c.s], [], [], 0.001)[0]:
                try:
                    x = self.c.s.recv(4096)
                except OSError as e:
                    raise Mismatch("a client lost its connection (%r)" % e, None)
                if not x:
                    raise Mismatch("a client lost its connection", None)
                self.c.buf += x
                if b"VERSION" in self.c.buf and self.c.buf.endswith(b"\r\n"):
                    b = bytes(self.c.buf)
                    self.c.buf = type(self.c.buf)(b"")
                    self.wait = None
                    if b.split(b"VERSION")[0].replace(b"STORED\r\n", b""):
                        raise Mismatch("stores are answered by %r" % b[:200], None)
                    return True
                continue
            if time.time() - t > (20 if must else timeout):
                if must:
                    if os.environ.get("DBG"):
                        import subprocess
                        print(bytes(self.c.buf), self.log[-12:], subprocess.run(["gdb","-p",str(self.d.p.pid),"-batch","-ex","thread apply all bt 9"],capture_output=True,text=True).stdout[-7000:])
                    raise Mismatch("a client waits although all slaves read, or are gone", None)
                return False

    def write(self, rnd):
        self.n += 1
        if rnd.random() < 0.7 or not self.objs:
            k = b"k%d" % rnd.randrange(6)
            v = b"%d " % self.n * rnd.choice([1, 1, 10, 1000])
            self.objs[k] = v
            return vh.text_store(b"set", k, v)
        k = rnd.choice(list(self.objs))
        if k == b"base":
            return b""
        del self.objs[k]
        return b"delete %s noreply\r\n" % k

    # ---- performing
    def do(self, op, outs, rnd):
        try:
            if all(r is not None for r in self.reps.values()):
                r = self.act(op, outs, rnd)
            for i, out in enumerate(outs):
                if sorted(out[0][0]) == sorted(r[0]) and out[0][1] == r[1]:
                    self.verify(self.view[out[-1]], rnd)
                    self.log.append((op["o"], op["x"], r))
                    return i
        except vh.Stuck as e:
            raise Mismatch("%s: %s" % (op, e), self.log)
        except Mismatch as e:
            raise Mismatch("%s: %s" % (op, e.args[0]), self.log)
        if op["o"] in ("tick", "hold"):
            t = "slaves %r were disconnected" % (r[0],)
        else:
            t = "%r" % (r,)
        raise Mismatch("%s: %s; allowed: %s" % (op, t, " or ".join(repr(x[0]) for x in outs)), self.log)

    def attach(self, x, deaf, rnd):
        d = self.d
        n = self.count()
        if x in self.real:
            r = Real(self, rnd)
        else:
            if self.small:
                d.set("sndbuf", 65536)
            r = Sink(self, deaf)
        t = time.time()
        while True:
            if self.count() == n + 1:
                break
            if not r.real and not deaf and r.gone() or r.real and s_dead(r.s):
                break
            if time.time() - t > 20:
                raise Mismatch("a slave is not accepted", None)
            time.sleep(0.0005)
        d.set("sndbuf", 0)
        if r.eof:
            r.close()
            return False
        if r.real:
            r.check()
            self.until(lambda: not r.gone(), "a slave does not connect")
        self.reps[x] = r
        return True

    def act(self, op, outs, rnd):
        o, x, d = op["o"], op["x"], self.d
        may_wait = any(out[0][1] for out in outs)
        res = []
        if o in ("join", "deaf"):
            if not self.attach(x, o == "deaf", rnd):
                res = [x]
        elif o == "beat":
            self.reps[x].say(rnd)
            d.settle()
        elif o in ("fin", "rst"):
            r = self.reps.pop(x)
            n = self.count()
            if not r.real and not r.deaf and o == "fin" and rnd.random() < 0.4:
                r.s.shutdown(socket.SHUT_WR)
                self.until(r.gone, "the connection of a slave that has finished is not closed")
            r.close(rst=o == "rst")

            def f():
                self.quiet()
                return self.count() == n - 1
            self.until(f, "a slave that has gone is still counted")
        elif o == "stall":
            self.reps[x].deaf = True
            if self.small:
                self.reps[x].s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 65536)
        elif o == "drain":
            r = self.reps[x]
            r.deaf = False
            r.s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 1 << 20)
        elif o == "all":
            for r in self.reps.values():
                r.say(rnd)
            d.settle()
        elif o == "late":
            d.now += 1
            d.set("now_sec", d.now)
            for r in self.reps.values():
                if r.real:
                    r.s.now += 1
                    r.s.set("now_sec", r.s.now)
        elif o == "fill":
            # (more than fits into all buffers on the way)
            b = []
            for i in range(5):
                self.n += 1
                v = b"%08d" % self.n + b"f" * 900000
                b.append(vh.text_store(b"set", b"fill", v))
            self.objs[b"fill"] = v
            self.send(b"".join(b))
            time.sleep(0.01)
        elif o == "write":
            self.send(b"".join(self.write(rnd) for _ in range(rnd.choice([1, 1, 5]))))
        elif o in ("tick", "hold"):
            res = self.time(o, x, outs, rnd)
            may_wait = any(out[0][1] for out in outs if sorted(out[0][0]) == res)
        done = self.wait_client(not may_wait)
        if may_wait:
            # (it may, or not)
            done = False
        return [res, not done]

    def time(self, o, k, outs, rnd):
        d = self.d
        if o == "tick":
            for r in self.reps.values():
                if r.real:
                    r.tick(k)
            if self.real:
                d.settle()
        else:
            for r in self.reps.values():
                if r.real:
                    r.s.now += k
                    r.s.set("now_sec", r.s.now)
        n = len(self.reps)
        if k >= 3:
            # (collections are limited by time, which counts from the turn
            # that finds one done)
            for _ in range(3):
                self.quiet()
        d.tick(k)
        self.seen = d.now
        d.settle()
        left = self.count()
        # who is it?
        t = time.time()
        reading = {x for x, r in self.reps.items() if not r.deaf}
        deaf = set(self.reps) - reading
        while True:
            if left > n:
                raise Mismatch("the master counts %d slaves of %d" % (left, n), None)
            eof = {x for x in reading if self.reps[x].gone()}
            good = [set(out[0][0]) for out in outs]
            good = [g for g in good if len(g) == n - left and g & reading == eof]
            if good:
                break
            if time.time() - t > (5 if self.slow else 1):
                # (they are counted as they are, or as they seem)
                return sorted(eof | set(list(deaf)[:max(0, n - left - len(eof))]))
            time.sleep(0.0005)
            left = self.count()
        for x in good[0]:
            r = self.reps.pop(x)
            if not r.real and r.deaf and rnd.random() < 0.5:
                # what was sent already is there; then the connection ends
                self.until(r.gone, "a slave's connection outlives the time")
            r.close(rst=True)
        return sorted(good[0])

    def verify(self, view, rnd):
        for i, a in enumerate(view["a"]):
            if (a != NONE) != (i + 1 in self.reps):
                raise vh.CheckError("slave %d: %r" % (i + 1, view))
        for x, r in self.reps.items():
            if r.real:
                r.check()
                if r.gone():
                    raise Mismatch("slave %d has left its master" % x, None)
            elif not r.deaf:
                r.pump()
                if r.eof:
                    raise Mismatch("slave %d was disconnected" % x, None)
        if self.count() != len(self.reps):
            raise Mismatch("the master counts %d slaves; there are %d" % (self.count(), len(self.reps)), None)
        if view["b"] or any(view["f"]):
            return
        # everything is everywhere
        new = [x for x, r in self.reps.items() if not r.real and view["s"][x - 1] and not r.deaf]
        if not new:
            return
        self.n += 1
        v = b"%d" % self.n
        if self.d.admin.store(b"set", b"~sync", v) != b"STORED":
            raise Mismatch("set fails", None)
        for x in new:
            r = self.reps[x]
            t = time.time()
            while True:
                r.pump()
                if r.eof:
                    raise Mismatch("slave %d was disconnected" % x, None)
                got = {k: o[0] for k, o in r.objs.items()}
                if r.seen.get(b"~sync") == v and got == self.objs:
                    break
                if time.time() - t > 15:
                    raise Mismatch("slave %d does not have what the master has: %r, not %r" % (
                        x, {k: o[:20] for k, o in got.items()}, {k: o[:20] for k, o in self.objs.items()}), None)
                if time.time() - t > 0.02:
                    # the initial copy is made by the collector
                    self.quiet()
                time.sleep(0.0005)
