"""Performs Role.tla: one server, the virtual address, other masters, signals."""
import fcntl
import os
import select
import signal
import socket
import struct
import termios
import threading
import time

import cachedrv
import repl
import vh
from model import Mismatch

ROUNDS = 11


class Other:
    """Another server that has the address: what it has for its slaves."""

    def __init__(self, drv, gen, rnd):
        self.drv = drv
        self.gen = gen
        self.rnd = rnd
        self.peers = []
        self.l = socket.socket()
        self.l.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        t = time.time()
        while True:
            try:
                self.l.bind(("127.0.0.1", drv.repl_port))
                break
            except OSError:
                if time.time() - t > 5:
                    raise
                time.sleep(0.01)
        self.l.listen(0 if gen == "hole" else 50)
        self.fill = []
        if gen == "hole":
            # connections that are not accepted, until further ones get no answer
            for _ in range(20):
                s = socket.socket()
                s.settimeout(0.05)
                try:
                    s.connect(("127.0.0.1", drv.repl_port))
                    self.fill.append(s)
                except OSError:
                    s.close()
                    break
            else:
                raise vh.CheckError("cannot make a host that does not answer")

    def unlisten(self):
        if self.l:
            self.l.close()
            self.l = None
        for s in self.fill:
            s.close()
        self.fill = []

    def close(self, rst=False):
        self.unlisten()
        for s in self.peers:
            if rst:
                s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            s.close()
        self.peers = []

    def stream(self, s, b, rnd):
        while b:
            n = len(b) if rnd.random() < 0.5 else rnd.randrange(1, len(b) + 1)
            s.sendall(b[:n])
            b = b[n:]

    def accept(self, timeout):
        """The server under test connects; it gets everything."""
        self.l.settimeout(timeout)
        try:
            s, _ = self.l.accept()
        except socket.timeout:
            return False
        s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        s.settimeout(15)
        self.peers.append(s)
        rnd = self.rnd
        out = []
        for k, v in self.drv.content(self.gen).items():
            m = vh.breq("SetQ", k, v, struct.pack(">II", 7, 0))
            x = rnd.random()
            if x < 0.2:
                m = vh.breq("SetQ", k, b"old", struct.pack(">II", 1, 0)) + m
            elif x < 0.3:
                m += vh.breq("Touch", k, b"", struct.pack(">I", 0))
            out.append(m)
        if rnd.random() < 0.3:
            out.append(vh.breq("DeleteQ", b"never"))
        if rnd.random() < 0.3:
            out.insert(0, vh.breq("SetQ", b"gone", b"x" * 100000, struct.pack(">II", 1, 0)))
            out.append(vh.breq("DeleteQ", b"gone"))
        self.stream(s, b"".join(out), rnd)
        return True

    def update(self, rnd):
        k, v = rnd.choice(list(self.drv.content(self.gen).items()))
        b = rnd.choice([
            vh.breq("DeleteQ", k) + vh.breq("SetQ", k, v, struct.pack(">II", 7, 0)),
            vh.breq("SetQ", k, b"other", struct.pack(">II", 7, 0)) + vh.breq("SetQ", k, v, struct.pack(">II", 7, 0)),
            vh.breq("SetQ", b"new", b"x", struct.pack(">II", 7, 0)) + vh.breq("DeleteQ", b"new"),
        ])
        try:
            self.stream(self.peers[-1], b, rnd)
        except OSError as e:
            raise Mismatch("the slave has left its master (%r)" % e, None)

    def left(self, timeout):
        """Does the server under test leave?"""
        t = time.time()
        for s in self.peers:
            while True:
                r = select.select([s], [], [], max(0.0, timeout - (time.time() - t)))[0]
                if not r:
                    return False
                try:
                    if not s.recv(1000):
                        break
                except OSError:
                    break
        return True


class RoleDriver:
    def __init__(self, fixed, counter=True, slow=False, **dkw):
        self.slow = slow
        self.fixed = fixed
        self.view_now = None
        self.counter = counter
        self.dkw = dkw
        self.port = vh.free_port()
        self.repl_port = vh.free_port()
        self.cport = vh.free_port()
        self.d = None
        self.other = None
        self.log = []
        self.loads = {}
        self.now = vh.EPOCH
        self.vip = False

    def content(self, gen):
        return {b"all": b"value of " + gen.encode(), b"only" + gen.encode(): b"v" * 3000,
                b"k" * 250: gen.encode() * 100}

    def stop(self):
        self.drop_loads()
        if self.other:
            self.other.close()
            self.other = None
        if self.d:
            self.d.kill()
            self.d = None

    def patience(self):
        return 30 if self.slow else 12

    def drop_loads(self):
        for x in list(self.loads.values()):
            try:
                x.abandon()
            except OSError:
                pass
        self.loads = {}

    def reset(self, rnd):
        self.log = []
        self.stop()
        self.vip = self.fixed
        self.view_now = None

    # ---- the process
    def start(self, rnd):
        self.d = vh.Daemon(port=self.port, repl_port=self.repl_port, cport=self.cport, counter=self.counter,
                           master=self.vip, wait=False, now=self.now, buckets=100003, gc_interval=10,
                           workers=3, stats_interval=10 ** 9, slave_timeout=10 ** 8, repl_buffer_size=1,
                           ctl={"sleep_max": 2000, "poll_max": 30,
                                "recv_max": rnd.choice([0, 0, 10, 1000])}, **self.dkw)

    def dead(self, what):
        if self.d.alive():
            return
        raise Mismatch("%s: the server has ended with %s\n%s" % (what, self.d.p.returncode, self.d.stderr()), None)

    def until(self, f, what):
        t = time.time()
        while not f():
            self.dead(what)
            if time.time() - t > self.patience():
                raise Mismatch(what, None)
            time.sleep(0.002)

    def consumed(self):
        """Until the slave has read what it was sent."""
        d = self.d

        def f():
            n = 0
            for s in self.other.peers:
                # not even on the way
                n += struct.unpack("i", fcntl.ioctl(s.fileno(), termios.TIOCOUTQ, b"\0" * 4))[0]
                pp = s.getpeername()[1]
                # (its socket is one of IPv6 where there is no IPv4 address but of the loopback interface)
                for path in ("/proc/net/tcp", "/proc/net/tcp6"):
                    for l in open(path).read().splitlines()[1:]:
                        x = l.split()
                        if int(x[1].split(":")[1], 16) == pp and int(x[2].split(":")[1], 16) == self.repl_port:
                            n += int(x[4].split(":")[1], 16)
            if n:
                d.settle()
            return n == 0
        self.until(f, "a slave does not read what its master sends")
        d.settle()

    def become(self, role, was, rnd):
        d = self.d
        if role == "ended":
            return
        if role == "master" and was != "master":
            t = time.time()
            while True:
                self.dead("about to be master")
                d.fire()
                try:
                    c = vh.Text(d, timeout=5)
                    if c.cmd(b"version").startswith(b"VERSION"):
                        d.admin = c
                        break
                    c.close()
                except (OSError, EOFError, vh.Stuck):
                    pass
                if time.time() - t > self.patience():
                    raise Mismatch("the server has the address and does not become master", None)
                time.sleep(0.002)
            d.set("recv_max", 0)

            def f():
                d.tick(0)
                return d.stats()["gc_count"] != "0"
            # (the first collection is due at once)
            self.until(f, "no collection")
            d.settle()
            d.tick(0)
            d.settle()
            d.set("mark_gc", 1)
            self.calm()
            # (stores would have to wait for a slave that does not read)
            self.big = bytes(rnd.randrange(256) for _ in range(64)) * 15000
            for k, v in ((b"load1", b"abc"), (b"load2", self.big), (b"load3", b"x"), (b"load5", b"busy")):
                d.admin.store(b"set", k, v)
            if self.other and not self.other.left(self.patience()):
                raise Mismatch("a master stays a slave of another master", None)
            return
        if role == "slave" and was != "slave":
            t = time.time()
            while not self.other.accept(0.02):
                self.dead("about to be slave")
                d.fire()
                if time.time() - t > self.patience():
                    raise Mismatch("a server without the address does not find its master", None)
            self.consumed()
            return
        if role == "seek":
            if self.other:
                # a host that does not answer: it is trying to connect
                time.sleep(0.05)
                self.dead("looking for a master")
                return
            n = d.get("vip_asked")

            def f():
                d.fire()
                return d.get("vip_asked") >= n + 55
            self.until(f, "a server without the address and without a master does not go on looking for them")

    def calm(self):
        """Until no collection is running or due."""
        d = self.d
        for _ in range(3):
            d.tick(0)
            d.settle()
            self.until(lambda: d.get("gc_alive") == 0, "a collection does not end")

    def refused(self, port, msg):
        try:
            s = socket.create_connection(("127.0.0.1", port), timeout=self.patience())
        except socket.timeout:
            raise Mismatch("a connection is neither refused nor accepted", None)
        except OSError:
            return True
        try:
            if msg:
                s.sendall(msg)
            x = s.recv(100)
            if x:
                raise Mismatch("a server that is not the master answers a client: %r" % x, None)
            return True
        except socket.timeout:
            return False
        except OSError:
            return True
        finally:
            s.close()

    # ---- operations
    def do(self, op, outs, rnd):
        o = op["o"]
        self.log.append((o, op["x"]))
        want = self.view[outs[0][-1]]
        self.target = want["role"]
        was = self.view_now["role"] if self.view_now else "ended"
        try:
            r = self.act(o, op["x"], want, was, rnd)
        except (vh.Stuck, vh.DaemonDied) as e:
            raise Mismatch("%s: %s" % (op, e), self.log)
        except (EOFError, OSError) as e:
            if self.d and self.d.wait_exit(1) is not None:
                e = "the server has ended with %s\n%s" % (self.d.p.returncode, self.d.stderr())
            raise Mismatch("%s: %r" % (op, e), self.log)
        except Mismatch as e:
            raise Mismatch("%s: %s" % (op, e.args[0]), self.log)
        for i, x in enumerate(outs):
            if x[0] == r:
                self.view_now = self.view[x[-1]]
                return i
        raise Mismatch("%s: %r, allowed %r" % (op, r, [x[0] for x in outs]), self.log)

    def act(self, o, x, want, was, rnd):
        d = self.d
        if o == "start":
            self.start(rnd)
            self.become(want["role"], "ended", rnd)
            return ""
        if o == "gain":
            self.vip = True
            oth = self.other
            if oth:
                oth.unlisten()
            if d:
                d.set("vip_mode", 1)
            self.become(want["role"], was, rnd)
            if oth:
                oth.close()
            self.other = None
            return ""
        if o == "lose":
            self.vip = False
            if d:
                d.set("vip_mode", 2)
                d.tick(0)
                self.dead("the address is lost")
            return ""
        if o == "up":
            self.other = Other(self, x, rnd)
            if d:
                self.become(want["role"], was, rnd)
            return ""
        if o == "down":
            self.other.close(rst=rnd.random() < 0.5)
            self.other = None
            if d:
                self.become(want["role"], was, rnd)
            return ""
        if o == "update":
            self.other.update(rnd)
            self.consumed()
            return ""
        if o == "gc":
            n = d.stats()["gc_count"]
            lost = not self.vip
            t = time.time()
            while True:
                d.now += 11
                self.now = d.now
                d.set("now_sec", d.now)
                d.fire()
                time.sleep(0.01)
                if not d.alive():
                    rc = d.p.returncode
                    if rc < 0:
                        raise Mismatch("the server died of signal %d" % -rc, None)
                    self.ended()
                    return "lost"
                try:
                    if d.stats()["gc_count"] != n:
                        self.calm()
                        return ""
                except (OSError, EOFError, vh.DaemonDied):
                    d.wait_exit(self.patience())
                if time.time() - t > self.patience():
                    raise Mismatch("no collection" if not lost else
                                   "a master that has lost its address does not end", None)
        if o == "client":
            if want["role"] != "master":
                for p, m in ((self.port, b"version\r\n"), (self.cport, vh.creq("Noop"))):
                    if not self.refused(p, m):
                        raise Mismatch("a server that is not the master neither refuses nor closes", None)
                return "no"
            return [self.which(), bool(d.admin.gets(b"written"))]
        if o == "join":
            if want["role"] != "master":
                if self.other is None and not self.refused(self.repl_port, b""):
                    return "yes"
                return "no"
            try:
                s = repl.Replica(d)
            except OSError:
                return "no"
            t = time.time()
            while time.time() - t < self.patience():
                if d.stats()["slaves"] != "0":
                    break
                time.sleep(0.002)
            else:
                return "no"
            s.close(rst=rnd.random() < 0.5)

            def f():
                d.tick(0)
                return d.stats()["slaves"] == "0"
            self.until(f, "a slave that has gone is still counted")
            self.calm()
            self.calm()
            return "yes"
        if o == "write":
            if d.admin.store(b"set", b"written", b"w") != b"STORED":
                raise Mismatch("a master does not store", None)
            return ""
        if o in ("TERM", "INT", "QUIT"):
            if rnd.random() < 0.3:
                d.fire()
            d.signal(getattr(signal, "SIG" + o))
            for y in self.loads.values():
                y.ending()
            rc = d.wait_exit(self.patience())
            if rc is None:
                raise Mismatch("the server does not end on SIG%s" % o, None)
            if rc != 0:
                raise Mismatch("on SIG%s the server ends with %s\n%s" % (o, rc, d.stderr()), None)
            for y in self.loads.values():
                y.ended()
            self.ended()
            return 0
        if o in ("USR1", "HUP"):
            new = None
            if o == "HUP":
                y = rnd.random()
                if y < 0.3:
                    new = d.logfile + ".old"
                    if os.path.exists(new):
                        os.unlink(new)
                    if os.path.isfile(d.logfile):
                        os.rename(d.logfile, new)
                elif y < 0.4 and os.path.isfile(d.logfile):
                    # it cannot be opened again
                    os.rename(d.logfile, d.logfile + ".old")
                    os.mkdir(d.logfile)
            d.signal(getattr(signal, "SIG" + o))
            if want["role"] == "master":
                d.settle()
            elif want["role"] == "slave":
                d.settle()
                d.fire()
                d.settle()
                if self.other.left(0.01):
                    raise Mismatch("a slave leaves its master on SIG%s" % o, None)
            else:
                self.become("seek", "seek", rnd)
            self.dead("after SIG" + o)
            if new is not None and os.path.exists(new) and want["role"] != "seek":
                self.until(lambda: os.path.exists(d.logfile), "SIGHUP does not reopen the log")
            if want["role"] == "master" and "slave" not in self.loads:
                now = self.which()
                if now != want["d"]:
                    raise Mismatch("objects are not the same after SIG%s: %s, not %s; after %r" % (
                        o, now, want["d"], self.log[-8:]), None)
            return ""
        if o == "load":
            self.loads[x] = LOADS[x](self, rnd)
            return ""
        if o == "finish":
            self.loads.pop(x).finish(rnd)
            return "done"
        raise KeyError(o)

    def ended(self):
        self.drop_loads()
        if self.other:
            for s in self.other.peers:
                s.close()
            self.other.peers = []
        self.d.kill(release=False)
        self.d = None

    def which(self):
        """Whose objects are here?"""
        a = self.d.admin
        v = a.gets(b"all")
        if not v:
            gen = "none"
        else:
            gen = v[0][2].rsplit(b" ", 1)[1].decode()
        have = self.content(gen) if v else {}
        for k, val in have.items():
            g = a.gets(k)
            if not g or g[0][2] != val or g[0][1] != 7:
                raise Mismatch("the object %r of the other master is missing or differs: %r" % (k[:10], g), None)
        keys = sorted(x for x in a.keys(b"") if x not in have and x != b"written"
                      and not x.startswith(b"load"))
        if keys:
            raise Mismatch("there are objects that should not be: %r" % keys[:5], None)
        return gen


# --------------------------------------------------------------------------
# what may go on at a master

class Half:
    """A part of a request has been sent."""

    def __init__(self, drv, rnd):
        self.c = cachedrv.Mixed(drv.d)
        b = rnd.choice([b"append nosuch 0 0 100\r\n" + b"a" * 100 + b"\r\n", vh.breq("Get", b"load1"),
                        vh.breq("Append", b"nosuch", b"a" * 1000)])
        self.get = b[1] == 0 and b[0] == 0x80
        n = rnd.randrange(1, len(b))
        self.bin = b[0] == 0x80
        self.c.send(b[:n])
        self.rest = b[n:]

    def ending(self):
        pass

    def ended(self):
        if not self.c.at_eof():
            raise Mismatch("a connection outlives the server", None)

    def finish(self, rnd):
        self.c.send(self.rest)
        if self.bin:
            r = self.c.resp()
            if r.val != b"abc" if self.get else r.status != 1:
                raise Mismatch("a request that was interrupted fails: %r" % (r,), None)
            return self.c.close()
        r = self.c.line()
        if r != b"NOT_STORED\r\n":
            raise Mismatch("a request that was interrupted fails: %r" % (r,), None)
        self.c.close()

    def abandon(self):
        self.c.close()


class Unread(Half):
    """A client does not read a reply that is larger than all buffers."""

    def __init__(self, drv, rnd):
        self.c = cachedrv.Mixed(drv.d, rcvbuf=4096)
        self.big = drv.big
        self.k = rnd.choice([8, 12])
        self.c.send(b"get load2\r\n" * self.k)
        time.sleep(0.01)

    def finish(self, rnd):
        for _ in range(self.k):
            v = self.c.values()
            if len(v) != 1 or v[0][2] != self.big:
                raise Mismatch("a reply read late is wrong", None)
        self.c.close()


class Lock(Half):
    """A client holds a lock."""

    def __init__(self, drv, rnd):
        self.c = cachedrv.Mixed(drv.d)
        if vh.Text.cmd(self.c, b"lock load3") != b"OK":
            raise Mismatch("cannot lock", None)

    def finish(self, rnd):
        r = vh.Text.cmd(self.c, b"unlock load3")
        if r != b"OK":
            raise Mismatch("a lock is lost: %r" % r, None)
        self.c.close()


class Counter(Half):
    """A client holds resources."""

    def __init__(self, drv, rnd):
        self.c = vh.Ctr(drv.d)
        self.drv = drv
        self.c.acquire(b"load", 3, 5)

    def finish(self, rnd):
        r = self.c.release(b"load", 3)
        if r != "OK" and r != 0 and r not in (b"OK", True):
            raise Mismatch("resources are lost: %r" % (r,), None)
        self.c.close()


class Held(Half):
    """A worker is about to receive a request."""

    def __init__(self, drv, rnd):
        self.d = d = drv.d
        self.c = cachedrv.Mixed(d)
        d.set("hold_peer0", self.c.lport() | d.port << 16)
        self.c.send(b"version\r\n")
        t = time.time()
        while d.get("pheld") == 0:
            if time.time() - t > 15:
                raise Mismatch("a request does not reach a worker", None)
            time.sleep(0.0005)

    def go(self):
        self.d.set("hold_peer0", 0)

    def ending(self):
        time.sleep(0.01)
        self.go()

    def finish(self, rnd):
        self.go()
        if not self.c.line().startswith(b"VERSION"):
            raise Mismatch("a request that waited is not answered", None)
        self.c.close()

    def abandon(self):
        self.go()
        self.c.close()


class Gc(Half):
    """The collector is in the middle of a collection."""

    def __init__(self, drv, rnd):
        self.drv = drv
        self.d = d = drv.d
        d.set("hold_gc", 1)
        t = time.time()
        while d.get("gc_held") == 0:
            if d.get("gc_alive") == 0:
                d.tick(11)
                drv.now = d.now
            if time.time() - t > 15:
                raise Mismatch("no collection", None)
            time.sleep(0.002)

    def go(self):
        self.d.set("hold_gc", 0)

    def ending(self):
        time.sleep(0.01)
        self.go()

    def ended(self):
        pass

    def finish(self, rnd):
        self.go()
        t = time.time()
        while self.d.get("gc_alive") > 0:
            if time.time() - t > 15:
                raise Mismatch("a collection does not end", None)
            time.sleep(0.0005)

    def abandon(self):
        self.go()


class Slave(Half):
    """A slave does not read, and a client waits for that."""

    def __init__(self, drv, rnd):
        self.d = d = drv.d
        d.set("sndbuf", 65536)
        self.s = repl.Replica(d, rcvbuf=4096)
        t = time.time()
        n = int(d.stats()["gc_count"])
        while d.stats()["slaves"] != "1" or int(d.stats()["gc_count"]) == n:
            self.s.pump()
            d.tick(1)
            drv.now = d.now
            if time.time() - t > 15:
                # (a worker that waits for a client keeps slaves from joining)
                break
            if time.time() - t > 0.5 and ("unread" in drv.loads or "held" in drv.loads or "gc" in drv.loads):
                break
            time.sleep(0.002)
        d.set("sndbuf", 0)
        self.c = cachedrv.Mixed(d)
        self.n = 4
        self.val = b"y" * 900000
        for _ in range(self.n):
            self.c.send(vh.text_store(b"set", b"load4", self.val))
        time.sleep(0.02)

    def ended(self):
        if not self.c.at_eof():
            raise Mismatch("a connection outlives the server", None)
        t = time.time()
        while not self.s.eof:
            self.s.pump()
            if time.time() - t > 15:
                raise Mismatch("a slave's connection outlives the server", None)

    def finish(self, rnd):
        t = time.time()
        got = b""
        self.c.s.setblocking(False)
        while got.count(b"\n") < self.n:
            self.s.pump()
            try:
                x = self.c.s.recv(1000)
                if not x:
                    raise Mismatch("the connection of a client that waits for a slave is closed", None)
                got += x
            except BlockingIOError:
                time.sleep(0.001)
            if time.time() - t > 15:
                raise Mismatch("requests are not answered although the slave reads again", None)
        if got != b"STORED\r\n" * self.n:
            raise Mismatch("stores fail: %r" % got, None)
        self.s.pump()
        if self.s.eof:
            raise Mismatch("a slave was disconnected", None)
        self.abandon()

        def f():
            self.d.tick(0)
            return self.d.stats()["slaves"] == "0"
        while not f():
            if time.time() - t > 20:
                raise Mismatch("a slave that has gone is still counted", None)

    def abandon(self):
        self.c.close()
        self.s.close()


class Busy(Half):
    """Requests arrive all the time."""

    def __init__(self, drv, rnd):
        self.d = drv.d
        self.c = cachedrv.Mixed(drv.d)
        self.stop = False
        self.bad = None
        self.eof = False
        self.t = threading.Thread(target=self.run, daemon=True)
        self.t.start()

    def run(self):
        c = self.c
        i = 0
        try:
            while not self.stop:
                i += 1
                c.send(b"delete nosuch%d\r\nget load5 nosuch%d\r\n" % (i, i))
                if c.line() != b"NOT_FOUND\r\n":
                    self.bad = "deleted"
                    return
                v = c.values()
                if len(v) != 1 or v[0][2] != b"busy":
                    self.bad = "%r instead of %d" % (v, i)
                    return
        except (EOFError, OSError):
            self.eof = True
        except Exception as e:
            self.bad = repr(e)

    def ended(self):
        self.t.join(15)
        if self.bad or not self.eof:
            raise Mismatch("a busy client: %s" % (self.bad or "still served"), None)

    def finish(self, rnd):
        self.stop = True
        self.t.join(15)
        if self.bad or self.eof:
            raise Mismatch("a busy client: %s" % (self.bad or "the connection was closed"), None)
        self.c.close()

    def abandon(self):
        self.stop = True
        self.c.close()


LOADS = {"half": Half, "unread": Unread, "lock": Lock, "counter": Counter, "held": Held, "gc": Gc,
         "slave": Slave, "busy": Busy}
