"""Performs Beat.tla: a real slave of a master played by the harness."""
import select
import socket
import struct
import threading
import time

import vh
from model import Mismatch


def setq(k, v):
    return vh.breq("SetQ", k, v, struct.pack(">II", 7, 0))


class BeatDriver:
    def __init__(self, slow=False, **dkw):
        self.slow = slow
        self.port = vh.free_port()
        self.l = socket.socket()
        self.l.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.l.bind(("127.0.0.1", self.port))
        self.l.listen(5)
        self.d = vh.Daemon(master=False, wait=False, repl_port=self.port, workers=1, buckets=101,
                           ctl={"sleep_max": 2000}, **dkw)
        self.s = None
        self.thread = None
        self.rest = b""
        self.log = []
        self.block = b"".join(setq(b"flood%d" % i, b"f" * n) for i in range(8)
                              for n in (100, 20000, 200000, 10))

    def stop(self):
        self.drop(True)
        self.l.close()
        self.d.kill()

    def drop(self, rst):
        if self.s is None:
            return
        s, self.s = self.s, None
        self.go = False
        if rst:
            s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        else:
            s.shutdown(socket.SHUT_RDWR)
        self.unflood()
        s.close()

    def unflood(self):
        if self.thread:
            self.go = False
            t, self.thread = self.thread, None
            t.join(20)

    def reset(self, rnd):
        self.drop(rnd.random() < 0.5)
        self.log = []
        self.rest = b""

    def alive(self):
        if not self.d.alive():
            raise Mismatch("the slave has ended with %s\n%s" % (self.d.p.returncode, self.d.stderr()[-800:]), None)

    def heard(self):
        """What has arrived so far."""
        n = 0
        while select.select([self.s], [], [], 0)[0]:
            x = self.s.recv(1 << 16)
            if not x:
                raise Mismatch("the slave has left its master", None)
            n += len(x)
        return n

    def wait_heard(self, n, what):
        t = time.time()
        got = 0
        while got < n:
            got += self.heard()
            self.alive()
            if time.time() - t > 15:
                raise Mismatch(what, None)
            time.sleep(0.0005)
        return n

    def do(self, op, outs, rnd):
        o, x = op["o"], op["x"]
        self.log.append((o, x))
        try:
            r = self.act(o, x, outs[0][0], rnd)
        except vh.Stuck as e:
            raise Mismatch("%s: %s" % (op, e), self.log)
        except OSError as e:
            raise Mismatch("%s: the connection of the slave is lost (%r)" % (op, e), self.log)
        except Mismatch as e:
            raise Mismatch("%s: %s" % (op, e.args[0]), self.log)
        for i, out in enumerate(outs):
            if out[0] == r:
                return i
        raise Mismatch("%s: %r, allowed %r" % (op, r, [y[0] for y in outs]), self.log)

    def act(self, o, x, want, rnd):
        d = self.d
        if o == "connect":
            t = time.time()
            self.l.settimeout(0.01)
            while True:
                try:
                    self.s = self.l.accept()[0]
                    # (the latest of its attempts counts)
                    select.select([self.s], [], [], 0)
                    break
                except socket.timeout:
                    pass
                self.alive()
                d.fire()
                if time.time() - t > 20:
                    raise Mismatch("a slave does not find its master", None)
            self.s.settimeout(20)
            self.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            if rnd.random() < 0.5:
                d.set("recv_max", rnd.choice([100, 5000]))
            self.s.sendall(b"".join(setq(b"k%d" % i, b"v%d" % i) for i in range(10)))
            d.settle()
            self.heard()
            return 0
        if o in ("fin", "rst"):
            self.drop(o == "rst")
            d.set("recv_max", 0)
            # it looks for a master again
            n = d.get("vip_asked")
            t = time.time()
            while d.get("vip_asked") < n + 2:
                d.fire()
                self.alive()
                if time.time() - t > 20:
                    raise Mismatch("a slave does not notice that its master is gone", None)
                time.sleep(0.001)
            return 0
        if o == "tick":
            if self.s is None or want == 0:
                d.now += 1
                d.set("now_sec", d.now)
                d.fire()
                if self.s is not None:
                    # (one after the other)
                    self.turn()
                self.alive()
                return 0
            self.heard()
            d.now += 1
            d.set("now_sec", d.now)
            d.fire()
            return self.wait_heard(1, "the master does not hear from its slave")
        if o == "update":
            self.s.sendall(rnd.choice([setq(b"k1", b"x" * rnd.randrange(1000)), vh.breq("DeleteQ", b"k2"),
                                       vh.breq("Touch", b"k3", b"", struct.pack(">I", 0))]))
            return 0
        if o == "load":
            if x == "flood":
                d.set("recv_max", 0)
                self.go = True
                self.thread = threading.Thread(target=self.flood, daemon=True)
                self.thread.start()
                time.sleep(0.01)
            elif x == "part":
                b = setq(b"part", b"p" * 3000)
                n = rnd.randrange(1, len(b))
                self.s.sendall(b[:n])
                self.rest = b[n:]
            else:
                self.heard()
            return 0
        if o == "unload":
            if x == "flood":
                self.unflood()
            elif x == "part":
                self.s.sendall(self.rest)
                self.rest = b""
            else:
                return self.wait_heard(want, "a slave did not send heartbeats while its master did not read")
            return 0
        raise KeyError(o)

    def turn(self):
        p = self.d.get("polls")
        t = time.time()
        while self.d.get("polls") < p + 3:
            self.alive()
            if time.time() - t > 20:
                raise Mismatch("the slave does not poll any more", None)
            time.sleep(0.0005)

    def flood(self):
        s = self.s
        try:
            while self.go:
                s.sendall(self.block)
        except OSError:
            pass
