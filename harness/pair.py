"""A master and a slave: performs Cache.tla with failovers."""
import os
import signal
import socket
import time

import cachedrv
import vh
from model import Mismatch


class PairDriver(cachedrv.CacheDriver):
    """self.d is the master, self.s a slave of it.  A failover replaces the
    master by the slave and gives that a new slave."""

    def __init__(self, cut=True, **kw):
        kw.setdefault("gc_interval", 10)
        kw.setdefault("slave_timeout", 100000000)
        kw.setdefault("unit", 10000)
        kw.setdefault("workers", 2)
        kw.setdefault("buckets", 100)
        kw.setdefault("counter", True)
        self.cut = cut
        self.s = None
        self.drift = 0
        self.fails = 0
        cachedrv.CacheDriver.__init__(self, **kw)
        self.rate = 1

    def opts(self):
        o = dict(self.dkw)
        c = dict(o.get("ctl") or {})
        c["sleep_max"] = 2000
        o["ctl"] = c
        return o

    def stop(self):
        if self.s:
            self.s.kill()
            vh.release_ports(self.s.port, self.s.cport, self.s.repl_port)
            self.s = None
        cachedrv.CacheDriver.stop(self)

    def reset(self, rnd):
        self.drift = 0
        cachedrv.CacheDriver.reset(self, rnd)
        if self.s is None:
            self.new_slave(rnd)

    # ---- a slave
    def new_slave(self, rnd):
        o = self.opts()
        if self.cut and rnd.random() < 0.7:
            o["ctl"]["recv_max"] = rnd.choice([1, 7, 30, 200, 5000])
        o["now"] = self.d.now
        self.s = vh.Daemon(port=vh.free_port(), repl_port=self.d.repl_port, cport=vh.free_port(),
                           master=False, wait=False, **o)
        self.attach(rnd)
        self.refuses(self.s.port, b"version\r\n")
        if rnd.random() < 0.3:
            self.refuses(self.s.cport, vh.creq("Noop"))

    def attach(self, rnd):
        """Until the slave is attached and has the initial copy."""
        n = int(self.d.stats()["gc_count"])
        t = time.time()
        while self.d.stats()["slaves"] != "1":
            if time.time() - t > 15:
                raise Mismatch("the slave does not join the master", None)
            if not self.s.alive():
                raise Mismatch("the slave has exited with %s\n%s" % (self.s.p.returncode, self.s.stderr()), None)
            self.s.fire()
            self.d.tick(0)
            time.sleep(0.002)
        for i in range(3 if self.slow else 2):
            t = time.time()
            c = 0
            while int(self.d.stats()["gc_count"]) <= n:
                if time.time() - t > 15:
                    raise Mismatch("no initial copy for a new slave", None)
                self.d.tick(0)
                c += 1
                if c % 5 == 2 and c < 40:
                    self.drift += 11
                    self.d.tick(11)
            n = int(self.d.stats()["gc_count"])
        self.d.tick(0)
        if self.slow:
            time.sleep(0.3)

    def refuses(self, port, msg):
        """A slave does not serve clients."""
        try:
            s = socket.create_connection(("127.0.0.1", port), timeout=10)
        except OSError:
            return
        try:
            try:
                s.sendall(msg)
                r = s.recv(100)
            except socket.timeout:
                raise Mismatch("a slave neither refuses nor closes the connection of a client", None)
            except OSError:
                r = b""
            if r:
                raise Mismatch("a slave answered a client: %r" % r, None)
        finally:
            s.close()

    def no_clients(self):
        # (a command answers before it replicates, but keeps its object
        # locked until it has done both)
        for key in self.keys.values():
            self.d.admin.gets(key)
        for c in self.conns.values():
            c.close()
        self.conns = {}
        self.held = {}
        self.tok = {}
        self.cur = {}
        self.past = {}

    def slave_left(self, asked):
        """Until the slave has noticed that its master is gone (it asks for
        the address without being due)."""
        t = time.time()
        while self.s.get("vip_asked") <= asked:
            if not self.s.alive():
                raise Mismatch("the slave has exited with %s\n%s" % (self.s.p.returncode, self.s.stderr()), None)
            if time.time() - t > 15:
                raise Mismatch("the slave does not notice that its master is gone", None)
            time.sleep(0.0005)

    def retries(self, d):
        """Until a slave without a master has waited in vain and made (at
        least) one more attempt to connect."""
        n = d.get("vip_asked")
        t = time.time()
        while d.get("vip_asked") < n + 60:
            if not d.alive():
                raise Mismatch("the slave has exited with %s\n%s" % (d.p.returncode, d.stderr()), None)
            if time.time() - t > 15:
                raise Mismatch("a slave whose master is gone does not go on asking for the address", None)
            time.sleep(0.001)

    def failover(self, rnd):
        old, new = self.d, self.s
        if rnd.random() < 0.2:
            self.refuses(new.port, b"get a\r\n")
        asked = new.get("vip_asked")
        self.no_clients()
        old.admin.close()
        if rnd.random() < 0.3:
            old.signal(signal.SIGTERM)
            if old.wait_exit(10) is None:
                raise Mismatch("the master does not end on SIGTERM", None)
        old.kill(release=False)
        vh.release_ports(old.port, old.cport)
        self.slave_left(asked)
        if rnd.random() < 0.3:
            # it tries to connect to a master again before it takes over
            self.retries(new)
        new.set("recv_max", 0)
        new.now = old.now
        new.set("now_sec", new.now)
        new.set("vip_mode", 1)
        new.wait_ready()
        self.d, self.s = new, None
        self.fails += 1
        self.new_slave(rnd)

    def newmaster(self, rnd):
        old = self.d
        asked = self.s.get("vip_asked")
        self.no_clients()
        old.admin.close()
        old.kill(release=False)
        self.slave_left(asked)
        o = self.opts()
        o["now"] = old.now
        self.d = vh.Daemon(port=old.port, repl_port=old.repl_port, cport=old.cport, **o)
        self.attach(rnd)

    def env(self, op, outs, rnd):
        if op["n"] in ("failover", "newmaster"):
            self.log.append(op["n"])
            getattr(self, op["n"])(rnd)
            view = self.view[outs[0][-1]]
            for k, key in self.keys.items():
                o = view["o"][k]
                got = self.d.admin.gets(key)
                if isinstance(got, bytes):
                    raise Mismatch("gets answered %r" % got, None)
                if not o or o[2] == 0:
                    if got:
                        raise Mismatch("%s: %r = %r exists afterwards" % (op["n"], key, got[0][2][:40]), None)
                    continue
                if not got:
                    raise Mismatch("%s: %r is lost" % (op["n"], key), None)
                if got[0][1] != self.flags(o[1]) or got[0][2] != self.value(o[0]):
                    raise Mismatch("%s: %r has become %r, %r" % (op["n"], key, got[0][1], got[0][2][:40]), None)
                r = self.d.admin.cmd(b"lock " + key)
                if r != b"OK" or self.d.admin.cmd(b"unlock " + key) != b"OK":
                    raise Mismatch("%s: %r is locked afterwards (%r)" % (op["n"], key, r), None)
            return 0
        return cachedrv.CacheDriver.env(self, op, outs, rnd)
