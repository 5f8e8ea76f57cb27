"""Performs Evict.tla on a running yrmcdsd whose memory limit is small."""
import os
import time

import repl
import vh
from model import Mismatch


class Client(vh.Bin, vh.Text):
    def cmd_t(self, line):
        return vh.Text.cmd(self, line)

    def cmd_b(self, *a, **k):
        return vh.Bin.cmd(self, *a, **k)


class EvictDriver:
    def __init__(self, slow=False, slaves=1, interval=10, **dkw):
        self.interval = interval
        self.base = None
        self.slow = slow
        self.nslaves = slaves
        self.d = vh.Daemon(gc_interval=interval, memory_limit="20K", heap_data_limit="16K", buckets=100,
                           slave_timeout=100000000, **dkw)
        self.c1 = None
        self.c2 = None
        self.reps = []
        self.log = []
        self.serial = 0
        self.nsync = 0
        for i in range(slaves):
            self.join()

    def join(self):
        self.reps.append(repl.Replica(self.d))
        t = time.time()
        while self.d.stats()["slaves"] != str(len(self.reps)):
            if time.time() - t > 15:
                raise Mismatch("a slave is not accepted", self.log)
            time.sleep(0.0005)
        self.collect()
        self.collect()

    def stop(self):
        for c in (self.c1, self.c2):
            if c:
                c.close()
        for r in self.reps:
            r.close()
        self.d.kill()

    def conn(self):
        return Client(self.d)

    def collect(self):
        """Let the collector run; how often it did."""
        n = int(self.d.stats()["gc_count"])
        t = time.time()
        tasks = "/proc/%d/task" % self.d.p.pid
        while True:
            self.d.tick(self.interval + 1)
            self.d.settle()
            # while it runs there is one more thread
            while True:
                k = len(os.listdir(tasks))
                if self.base is None or k < self.base:
                    self.base = k
                if k <= self.base:
                    break
                if time.time() - t > 15:
                    raise Mismatch("the garbage collector does not end", self.log)
                time.sleep(0.0002)
            if self.slow:
                time.sleep(0.1)
            m = int(self.d.stats()["gc_count"])
            if m > n:
                return m - n
            if time.time() - t > 15:
                raise Mismatch("the garbage collector does not run", self.log)

    def reset(self, rnd):
        self.rnd = rnd
        self.log = []
        self.serial += 1
        self.prefix = b"e%d." % self.serial
        if self.c1 is None:
            self.c1, self.c2 = self.conn(), self.conn()
        if self.c1.cmd_t(b"unlock_all") != b"OK":
            raise Mismatch("unlock_all failed", self.log)
        if self.d.admin.cmd(b"flush_all") != b"OK":
            raise Mismatch("flush_all failed", self.log)
        self.collect()
        self.collect()
        self.vals = {}
        self.names = {}
        left = self.d.admin.keys()
        if [k for k in left if k != b"~sync"]:
            raise Mismatch("objects are left after flush_all and a collection: %r" % left[:4], self.log)

    def key(self, k):
        if k not in self.names:
            self.names[k] = self.prefix + k.encode() + b"x" * self.rnd.choice([0, 0, 1, 60, 200])
        return self.names[k]

    def sync(self):
        if not self.reps:
            return
        self.nsync += 1
        v = b"%d" % self.nsync
        if self.d.admin.store(b"set", b"~sync", v) != b"STORED":
            raise Mismatch("a small object cannot be stored", self.log)
        for r in self.reps:
            r.wait(b"~sync", v)

    def do(self, op, outs, rnd):
        try:
            return self._do(op, outs, rnd)
        except vh.DaemonDied as e:
            raise Mismatch("the daemon died at %s: %s" % (self.log[-1:], e), self.log)
        except (EOFError, OSError) as e:
            raise Mismatch("connection lost at %s: %r" % (self.log[-1:], e), self.log)
        except vh.Stuck as e:
            raise Mismatch("%s at %s" % (e, self.log[-1:]), self.log)
        except Mismatch as e:
            e.trace = self.log
            raise

    def exptime(self, rnd):
        return rnd.choice([0, 0, self.d.now + 100000000])

    def _do(self, op, outs, rnd):
        n = op["o"]
        if n == "gc":
            return self.gc(outs)
        if n == "end":
            return self.end(rnd)
        k = self.key(op["k"])
        self.log.append("%s %s %s" % (n, op["k"], op["z"]))
        obs = getattr(self, "do_" + n)(op, k, rnd, outs[0][0][0])
        if obs != outs[0][0][0]:
            raise Mismatch("%s: %s instead of %s" % (self.log[-1], obs, outs[0][0][0]), None)
        return 0

    def do_set(self, op, k, rnd, want):
        size = {"s": rnd.randrange(1, 300), "b": rnd.randrange(12000, 13000),
                "f": rnd.randrange(17000, 50000)}[op["z"]]
        v = rnd.randbytes(size)
        e = self.exptime(rnd)
        if rnd.random() < 0.5:
            self.log[-1] += " (set, expires %d)" % e
            r = self.c1.store(b"set", k, v, 7, e)
            ok = r == b"STORED"
        else:
            self.log[-1] += " (Set, expires %d)" % e
            r = self.c1.cmd_b("Set", k, v, vh.sx(7, e))
            ok = r.status == 0
        if not ok:
            raise Mismatch("%s was refused (%r)" % (self.log[-1], r), None)
        self.vals[k] = v
        return "OK"

    def read(self, c, k, want):
        r = c.gets(k)
        if isinstance(r, bytes):
            raise Mismatch("%s answered %r" % (self.log[-1], r), None)
        if not r:
            return "NO"
        if want == "OK" and (r[0][2] != self.vals[k] or r[0][1] != 7):
            raise Mismatch("%s: the value is not the one stored (%d bytes, %d stored)" % (
                self.log[-1], len(r[0][2]), len(self.vals[k])), None)
        return "OK"

    def do_read(self, op, k, rnd, want):
        return self.read(self.c2, k, want)

    def do_peek(self, op, k, rnd, want):
        ks = self.d.admin.keys(k)
        if ks not in ([], [k]):
            raise Mismatch("keys %r lists %r" % (k, ks), None)
        return "OK" if ks else "NO"

    def do_use(self, op, k, rnd, want):
        if want == "NO":
            r = rnd.choice([b"touch %s 0" % k, b"incr %s 1" % k, b"delete %s" % k])
            r = self.c1.cmd_t(r)
            return "NO" if r == b"NOT_FOUND" else r.decode("latin1")
        how = rnd.choice(["get", "touch", "append", "prepend", "GaT", "Get", "Touch", "Append"])
        self.log[-1] += " (%s)" % how
        e = self.exptime(rnd)
        if how == "get":
            return self.read(self.c1, k, want)
        if how == "touch":
            r = self.c1.cmd_t(b"touch %s %d" % (k, e))
            return "OK" if r == b"TOUCHED" else r.decode("latin1")
        if how in ("append", "prepend"):
            r = self.c1.store(how.encode(), k, b"y")
            if r == b"STORED":
                self.vals[k] = self.vals[k] + b"y" if how == "append" else b"y" + self.vals[k]
            return "OK" if r == b"STORED" else r.decode("latin1")
        if how == "Append":
            r = self.c1.cmd_b("Append", k, b"z")
            if r.status == 0:
                self.vals[k] += b"z"
        elif how == "Get":
            r = self.c1.cmd_b("Get", k)
        else:
            r = self.c1.cmd_b(how, k, b"", vh.px(e))
        if r.status == 0 and how in ("Get", "GaT") and r.val != self.vals[k]:
            raise Mismatch("%s: the value is not the one stored" % self.log[-1], None)
        return "OK" if r.status == 0 else "NO" if r.status == 1 else str(r.status)

    def do_delete(self, op, k, rnd, want):
        r = self.c1.cmd_t(b"delete " + k)
        return {b"DELETED": "OK", b"NOT_FOUND": "NO"}.get(r, r.decode("latin1"))

    def do_lock(self, op, k, rnd, want):
        r = self.c1.cmd_t(b"lock " + k)
        return r.decode("latin1")

    def do_unlock(self, op, k, rnd, want):
        r = self.c1.cmd_t(b"unlock " + k)
        return r.decode("latin1")

    def do_steal(self, op, k, rnd, want):
        r = rnd.choice([b"delete %s" % k, b"lock %s" % k])
        r = self.c2.cmd_t(r)
        return r.decode("latin1")

    def end(self, rnd):
        """The client that may hold locks goes; all objects must become free."""
        how = rnd.choice(["reset", "reset", "close", "half"])
        self.log.append("the client ends (%s)" % how)
        if how == "half":
            self.c1.send(b"set x 0 0 10\r\nabc")
        if how == "close":
            self.c1.close()
        else:
            self.c1.reset()
        left = list(self.names.values())
        for i in range(60):
            left = [k for k in left if self.d.admin.cmd(b"delete " + k) == b"LOCKED"]
            if not left:
                break
            self.d.tick(1, idle=True)
            time.sleep(0.02 if self.slow else 0.002)
        else:
            raise Mismatch("%d objects stay locked long after the connection that locked them was %s" % (
                len(left), {"close": "closed"}.get(how, "reset")), None)
        self.c1 = self.conn()
        self.collect()
        self.collect()
        self.sync()
        return 0

    def gc(self, outs):
        ev0 = int(self.d.stats()["evictions"])
        n = self.collect()
        left = sorted(self.d.admin.keys(self.prefix))
        if len(set(left)) != len(left):
            raise Mismatch("keys lists a key twice", None)
        if n > 2:
            raise vh.CheckError("%d collections in a row" % n)
        best = None
        t = time.time()
        while best is None:
            # (the statistics follow a little later)
            ev = int(self.d.stats()["evictions"]) - ev0
            for i, o in enumerate(outs):
                if o[0][1] != n:
                    continue
                objs = self.view[o[-1]]
                # (in two collections the key used for synchronising can go)
                if sorted(self.key(k) for k, x in objs.items() if x) == left and \
                   ev - o[0][2] in ((0, 1) if n == 2 else (0,)):
                    best = i
                    break
            if time.time() - t > 0.5:
                break
        self.log.append("%d collections: %d evictions, %s left" % (
            n, ev, [k for k, b in self.names.items() if b in left]))
        if best is None:
            raise Mismatch("%s; the specification allows %s" % (
                self.log[-1], [(o[0], [k for k, x in self.view[o[-1]].items() if x]) for o in outs
                               if o[0][1] == n]), None)
        self.sync()
        for r in self.reps:
            have = sorted(k for k in r.objs if k.startswith(self.prefix))
            if have != left:
                raise Mismatch("%s: a slave holds %r, the master %r" % (self.log[-1], have, left), None)
        return best
