"""Slaves played by the harness, and a driver of Cache.tla that compares what
they received with what the specification says the master holds."""
import os
import select
import socket
import struct
import time

import cachedrv
import vh
from model import Mismatch

NEVER = cachedrv.NEVER


class Replica:
    """Receives the replication stream of a master and applies it."""

    def __init__(self, d, rcvbuf=None, port=None):
        self.d = d
        s = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
        if rcvbuf:
            s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcvbuf)
        s.connect(("127.0.0.1", port or d.repl_port))
        s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        s.setblocking(False)
        self.s = s
        self.buf = bytearray()
        self.objs = {}          # key -> (value, flags, exptime)
        self.msgs = []          # (kind, key, ...)
        self.keep = False
        self.eof = False
        self.seen = {}          # key -> last value of sync keys

    def beat(self):
        try:
            self.s.send(b"\0")
        except OSError:
            pass

    def pump(self):
        """Read what is there."""
        while True:
            try:
                x = self.s.recv(1 << 20)
            except BlockingIOError:
                break
            except OSError:
                self.eof = True
                break
            if not x:
                self.eof = True
                break
            self.buf += x
        self.parse()

    def parse(self):
        p = 0
        b = self.buf
        while len(b) - p >= 24:
            magic, op, kl, el, dt, st, bl, opq, cas = struct.unpack_from(">BBHBBHIIQ", b, p)
            if magic != 0x80 or bl < kl + el or bl > (40 << 20):
                raise Mismatch("malformed replication message %r" % bytes(b[p:p + 24]), None)
            if len(b) - p < 24 + bl:
                break
            e = bytes(b[p + 24:p + 24 + el])
            k = bytes(b[p + 24 + el:p + 24 + el + kl])
            v = bytes(b[p + 24 + el + kl:p + 24 + bl])
            p += 24 + bl
            if op == vh.OP["SetQ"]:
                if el != 8:
                    raise Mismatch("replicated object without flags and expiration", None)
                f, x = struct.unpack(">II", e)
                if k.startswith(b"~"):
                    self.seen[k] = v
                    continue
                self.objs[k] = (v, f, x)
                m = ("set", k, v, f, x)
            elif op == vh.OP["Touch"]:
                if el != 4:
                    raise Mismatch("replicated touch without expiration", None)
                x = struct.unpack(">I", e)[0]
                o = self.objs.get(k)
                if o:
                    self.objs[k] = (o[0], o[1], x)
                m = ("touch", k, x)
            elif op == vh.OP["DeleteQ"]:
                self.objs.pop(k, None)
                m = ("del", k)
            else:
                raise Mismatch("replication message of command 0x%02x" % op, None)
            if self.keep:
                self.msgs.append(m)
        del b[:p]

    def wait(self, key, val, timeout=15):
        """Until the sync key has arrived with this value."""
        t = time.time()
        while True:
            self.pump()
            if self.seen.get(key) == val:
                return
            if self.eof:
                raise Mismatch("the master has disconnected a slave", None)
            left = timeout - (time.time() - t)
            if left <= 0:
                raise Mismatch("an update does not reach a slave (%d bytes of an incomplete message)"
                               % len(self.buf), None)
            select.select([self.s], [], [], min(left, 1.0))

    def close(self, rst=False):
        if rst:
            self.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        self.s.close()


class ReplDriver(cachedrv.CacheDriver):
    """Keeps a few slaves attached; after each command all slaves that have
    finished their initial copy hold what the specification's state says."""

    def __init__(self, slaves=2, join=0.02, leave=0.02, stream_bits=0.02, **kw):
        kw.setdefault("gc_interval", 10)
        kw.setdefault("slave_timeout", 100000000)
        kw.setdefault("unit", 10000)
        self.nslaves = slaves
        self.pjoin = join
        self.pleave = leave
        self.reps = []
        self.drift = 0
        self.nsync = 0
        self.joins = 0
        cachedrv.CacheDriver.__init__(self, **kw)

    def stop(self):
        for r in self.reps:
            r.close()
        cachedrv.CacheDriver.stop(self)

    def reset(self, rnd):
        cachedrv.CacheDriver.reset(self, rnd)
        self.drift = 0
        while len(self.reps) < self.nslaves:
            self.join(rnd)
        self.sync()

    def sync(self):
        self.nsync += 1
        v = b"%d" % self.nsync
        # a command answers before it replicates, but keeps its object locked
        # until it has done both
        for key in self.keys.values():
            self.d.admin.gets(key)
        r = self.d.admin.store(b"set", b"~sync", v)
        if r != b"STORED":
            raise Mismatch("set answered %r" % r, None)
        for s in self.reps:
            s.wait(b"~sync", v)

    def join(self, rnd):
        """A new slave, and its initial copy.  (At most a few copies are
        made per collection interval, so the clock moves.)"""
        n = int(self.d.stats()["gc_count"])
        self.reps.append(Replica(self.d))
        self.joins += 1
        t = time.time()
        while self.d.stats()["slaves"] != str(len(self.reps)):
            if time.time() - t > 15:
                raise Mismatch("a slave is not accepted (%s slaves of %d)" % (
                    self.d.stats()["slaves"], len(self.reps)), None)
            time.sleep(0.0005)
        for i in range(2):
            # one collection may have been running already
            t = time.time()
            c = 0
            while int(self.d.stats()["gc_count"]) <= n:
                if time.time() - t > 15:
                    raise Mismatch("no initial copy for a new slave", None)
                self.d.tick(0)
                c += 1
                if c % 5 == 2 and c < 40:
                    self.drift += 11
                    self.d.tick(11)
            n = int(self.d.stats()["gc_count"])
        self.d.tick(0)
        if self.slow:
            time.sleep(0.2)

    def leave(self, rnd):
        r = self.reps.pop(rnd.randrange(len(self.reps)))
        r.close(rst=rnd.random() < 0.5)
        t = time.time()
        while self.d.stats()["slaves"] != str(len(self.reps)):
            if time.time() - t > 15:
                raise Mismatch("a slave that has gone is still counted", None)
            self.d.tick(0)

    def _do(self, op, outs, rnd):
        i = cachedrv.CacheDriver._do(self, op, outs, rnd)
        view = self.view[outs[i][-1]]
        if view["f"] != 0 and self.drift < self.unit - 100:
            if len(self.reps) < 4 and rnd.random() < self.pjoin:
                self.log.append("a slave joins")
                self.join(rnd)
                self.caught_up(view)
            elif len(self.reps) > 1 and rnd.random() < self.pleave:
                self.log.append("a slave leaves")
                self.leave(rnd)
        self.sync()
        for n, r in enumerate(self.reps):
            self.compare(n, r, view)
        return i

    def caught_up(self, view):
        """(The copy can be a collection later than it seemed.)"""
        t = time.time()
        while True:
            self.sync()
            try:
                for n, r in enumerate(self.reps):
                    self.compare(n, r, view)
                return
            except Mismatch:
                if time.time() - t > 8:
                    raise
                if self.drift < self.unit - 100:
                    self.drift += 11
                    self.d.tick(11)
                time.sleep(0.1)
                self.d.tick(0)

    def compare(self, n, r, view):
        now = self.d.now
        for k, key in self.keys.items():
            o = view["o"][k]
            got = r.objs.get(key)
            dead = got is not None and got[2] != 0 and got[2] <= now
            if not o:
                if got is not None and not dead:
                    raise Mismatch("%s: slave %d still has %r = %r, which the master has not" % (
                        self.log[-1:], n, key, short(got)), None)
                continue
            locked = o[3] != "-"
            if not locked and (view["f"] == 0 or o[2] == 0):
                continue        # expired or flushed, to be collected
            if got is None:
                raise Mismatch("%s: slave %d lacks %r" % (self.log[-1:], n, key), None)
            v, f = self.value(o[0]), self.flags(o[1])
            if got[0] != v or got[1] != f:
                raise Mismatch("%s: slave %d has %r = %s; the master has %s" % (
                    self.log[-1:], n, key, short(got), short((v, f))), None)
            if o[2] == NEVER:
                if got[2] != 0:
                    raise Mismatch("%s: %r expires at %d on slave %d, never on the master" % (
                        self.log[-1:], key, got[2], n), None)
            elif o[2] == 0:
                if not dead:
                    raise Mismatch("%s: %r is not overdue on slave %d" % (self.log[-1:], key, n), None)
            else:
                hi = now + self.unit * o[2]
                if not hi - self.drift <= got[2] <= hi:
                    raise Mismatch("%s: %r expires at %d on slave %d, at %d on the master" % (
                        self.log[-1:], key, got[2], n, hi), None)


def short(o):
    return tuple(x[:40] if isinstance(x, bytes) else x for x in o)
