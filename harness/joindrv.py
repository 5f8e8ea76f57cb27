"""Performs Repl.tla: slaves that join a running master, against commands that
are held in the middle and a collector that is stopped between buckets."""
import time

import cachedrv
import repl
import vh
from model import Mismatch


class JoinDriver:
    def __init__(self, slow=False, buckets=2, **dkw):
        self.slow = slow
        dkw.setdefault("workers", 4)
        self.d = vh.Daemon(gc_interval=10, slave_timeout=100000000, buckets=buckets, **dkw)
        self.log = []
        self.cl = {}
        self.rep = None
        self.held = {}          # client -> (kind, key, value, exp, binary)
        self.serial = 0
        self.prev = None
        self.d.settle()
        self.d.set("mark_gc", 1)
        for i in range(3):
            self.d.tick(11, idle=True)
        # the first and the last of many keys are in different buckets
        a = self.d.admin
        names = [b"j%d" % i for i in range(12)]
        for n in names:
            a.store(b"set", n, b"x")
        order = a.keys(b"j")
        if sorted(order) != sorted(names):
            raise Mismatch("keys lists %r" % order, None)
        self.order = order
        for n in names:
            a.cmd(b"delete " + n)

    def stop(self):
        if self.rep:
            self.rep.close()
        for c in self.cl.values():
            c.close()
        self.d.kill()

    def client(self, c):
        if c not in self.cl:
            self.cl[c] = cachedrv.Mixed(self.d)
        return self.cl[c]

    # ---- the collector
    def gc_wait(self, until_gone=False):
        t = time.time()
        while self.d.get("gc_alive") > 0:
            if not until_gone and self.d.get("gc_held") > 0 and self.d.get("gc_go") == 0:
                return
            if time.time() - t > 15:
                raise Mismatch("the garbage collector does not end", self.log)
            if self.d.p.poll() is not None:
                self.d._dead()
            time.sleep(0.0001)

    def tick(self):
        """Time passes until a collection runs.  (The daemon notices only now
        that the last one has ended, and the next is due an interval later.)"""
        for i in range(3):
            self.d.tick(11, idle=True)
            if self.d.get("gc_alive") > 0:
                break
        else:
            raise Mismatch("no garbage collection is started", None)
        self.gc_wait()

    def gcstep(self):
        if self.d.get("gc_alive") <= 0:
            return
        self.d.set("gc_go", 1)
        t = time.time()
        while self.d.get("gc_go") and self.d.get("gc_alive") > 0:
            if time.time() - t > 15:
                raise vh.CheckError("the collector cannot be stepped")
            time.sleep(0.0001)
        if self.d.get("gc_alive") <= 0:
            self.d.set("gc_go", 0)
        self.gc_wait()

    def gcend(self, outs):
        if not self.view[outs[0][-1]]["g"]:
            self.d.set("hold_gc", 0)
            self.gc_wait(True)
            self.d.set("hold_gc", 1)

    # ---- walks
    def reset(self, rnd):
        self.rnd = rnd
        self.log = []
        for c in list(self.held):
            self.end(c)
        self.d.set("hold_gc", 0)
        self.d.set("gc_go", 0)
        self.gc_wait(True)
        if self.rep:
            self.drop()
        a = self.d.admin
        a.cmd(b"flush_all")
        t = time.time()
        while True:
            self.d.tick(11, idle=True)
            self.gc_wait(True)
            if not a.keys(b"j"):
                break
            if time.time() - t > 15:
                raise Mismatch("flush_all does not remove %r" % a.keys(b"j"), self.log)
        # the flush must be over
        t = time.time()
        while True:
            a.store(b"set", b"jx", b"1")
            r = a.gets(b"jx")
            a.cmd(b"delete jx")
            if r:
                break
            self.d.tick(11, idle=True)
            self.gc_wait(True)
            if time.time() - t > 15:
                raise Mismatch("a flush is not over long after the collection", self.log)
        self.d.set("hold_gc", 1)
        self.keys = {1: rnd.choice(self.order[:3]), 2: rnd.choice(self.order[-3:])}
        self.exp = {}
        self.sure = set()
        self.flushing = False

    def drop(self):
        self.rep.close(rst=self.rnd.random() < 0.5)
        self.rep = None
        t = time.time()
        while self.d.stats()["slaves"] != "0":
            if time.time() - t > 15:
                raise Mismatch("a slave that has gone is still counted", self.log)
            self.d.tick(1, idle=True)

    def do(self, op, outs, rnd):
        try:
            return self._do(op, outs, rnd)
        except vh.DaemonDied as e:
            raise Mismatch("the daemon died at %s: %s" % (self.log[-1:], e), self.log)
        except (EOFError, OSError) as e:
            raise Mismatch("connection lost at %s: %r" % (self.log[-1:], e), self.log)
        except vh.Stuck as e:
            raise Mismatch("%s at %s" % (e, self.log[-1:]), self.log)
        except Mismatch as e:
            e.trace = self.log
            raise

    def value(self, rnd):
        self.serial += 1
        v = b"%d" % self.serial
        p = rnd.random()
        if p < 0.1:
            v += rnd.randbytes(20000)
        elif p < 0.15:
            v += rnd.randbytes(300000)
        return v

    def exptime(self, rnd):
        return rnd.choice([0, 0, self.d.now + 2000000000])

    def _do(self, op, outs, rnd):
        n, c = op["o"], op["c"]
        self.log.append("%s %s %s" % (n, c, op["k"] or ""))
        if n == "settle":
            return self.settle(outs)
        if n == "tick":
            self.tick()
        elif n == "gcstep":
            self.gcstep()
            self.gcend(outs)
        elif n == "flush":
            r = self.d.admin.cmd(b"flush_all")
            if r != b"OK":
                raise Mismatch("flush_all answered %r" % r, None)
            self.flushing = True
            self.sure = set()
        elif n == "join":
            acc = self.d.get("accepts")
            self.rep = repl.Replica(self.d)
            t = time.time()
            while self.d.get("accepts") == acc and time.time() - t < 10:
                time.sleep(0.0002)
            self.d.settle()
        elif n == "leave":
            self.drop()
            self.gcend(outs)        # (the passing of time may start one)
        elif n in ("bwrite", "berase"):
            self.begin(c, n == "bwrite", self.keys[op["k"]], rnd)
        elif n == "end":
            self.end(c)
        else:
            k = self.keys[op["k"]]
            if n == "erase":
                self.finish(self.client("x"), self.erase(self.client("x"), k, rnd))
            else:
                self.write(k, rnd)
        return 0

    # a command: (kind, key, value, expiration, binary?)
    def store(self, x, k, rnd):
        v, e = self.value(rnd), self.exptime(rnd)
        f = len(v) & 0xff
        b = rnd.random() < 0.5
        if b:
            x.send(vh.breq("Set", k, v, vh.sx(f, e)))
        else:
            x.send(vh.text_store(b"set", k, v, f, e))
        return ("w", k, v, e, b)

    def erase(self, x, k, rnd):
        b = rnd.random() < 0.5
        if b:
            x.send(vh.breq("Delete", k))
        else:
            x.send(b"delete %s\r\n" % k)
        return ("d", k, None, 0, b)

    def finish(self, x, cmd):
        kind, k, v, e, b = cmd
        if b:
            r = x.resp().status
            ok = r == 0 or (kind == "d" and r == 1)
        else:
            r = x.line().rstrip(b"\r\n")
            ok = r in ((b"STORED",) if kind == "w" else (b"DELETED", b"NOT_FOUND"))
        if not ok:
            raise Mismatch("%s answered %r" % (self.log[-1], r), None)
        if kind == "w":
            self.exp[k] = e
            if not self.flushing:
                self.sure.add(k)
        else:
            self.sure.discard(k)

    def write(self, k, rnd):
        """Store or change an object."""
        x = self.client("x")
        how = rnd.choice(["set", "set", "append", "touch", "incr", "RaU"]) if k in self.sure else "set"
        if how == "append":
            x.send(vh.text_store(rnd.choice([b"append", b"prepend"]), k, b"7"))
            r = x.line()
            ok = r == b"STORED\r\n"
        elif how == "touch":
            e = self.exptime(rnd)
            if rnd.random() < 0.5:
                x.send(b"touch %s %d\r\n" % (k, e))
                r = x.line()
                ok = r == b"TOUCHED\r\n"
            else:
                r = x.cmd("GaT", k, b"", vh.px(e))
                ok = r.status == 0
            self.exp[k] = e
        elif how == "incr":
            x.send(vh.text_store(b"set", k, b"41", 5, 0))
            r = x.line()
            ok = r == b"STORED\r\n"
            self.exp[k] = 0
            if ok:
                x.send(b"incr %s 1\r\n" % k)
                r = x.line()
                ok = r == b"42\r\n"
        elif how == "RaU":
            r = x.cmd("LaG", k)
            ok = r.status == 0
            if ok:
                e = self.exptime(rnd)
                r = x.cmd("RaU", k, self.value(rnd), vh.sx(3, e))
                ok = r.status == 0
                self.exp[k] = e
        else:
            return self.finish(x, self.store(x, k, rnd))
        self.log[-1] += " (%s)" % how
        if not ok:
            raise Mismatch("%s answered %r" % (self.log[-1], r), None)

    # ---- commands that are held
    def begin(self, c, store, k, rnd):
        x = self.client(c)
        n = len(self.held)
        slot = "hold_peer%d" % (0 if c == sorted({c, "c1"})[0] else 1)
        self.d.set(slot, x.lport())
        cmd = self.store(x, k, rnd) if store else self.erase(x, k, rnd)
        t = time.time()
        while self.d.get("pheld") <= n:
            if time.time() - t > 15:
                raise Mismatch("a request is not processed", None)
            time.sleep(0.0001)
        self.held[c] = (cmd, slot)
        if store:
            self.sure.discard(k)

    def end(self, c):
        cmd, slot = self.held.pop(c)
        self.d.set(slot, 0)
        self.finish(self.client(c), cmd)
        t = time.time()
        while self.d.get("pheld") > len(self.held):
            if time.time() - t > 15:
                raise vh.CheckError("a held thread does not go on")
            time.sleep(0.0001)

    # ---- the verdict
    def settle(self, outs):
        self.d.set("hold_gc", 0)
        self.d.set("gc_go", 0)
        self.gc_wait(True)
        t = time.time()
        rounds = 0
        a = self.d.admin
        while True:
            have = {}
            for i in (1, 2):
                r = a.gets(self.keys[i])
                if isinstance(r, bytes):
                    raise Mismatch("gets answered %r" % r, None)
                have[i] = (r[0][2], r[0][1]) if r else None
            bad = self.differs(have, 5 if rounds >= 8 else 0.3) if self.rep else None
            if rounds >= 3 and (bad is None or (rounds >= 8 and time.time() - t > (6 if self.slow else 2))):
                break
            self.d.tick(11, idle=True)
            self.gc_wait(True)
            rounds += 1
        self.flushing = False
        self.d.set("hold_gc", 1)
        self.log[-1] += ": master %s" % {k: v and (v[0][:12], v[1]) for k, v in have.items()}
        if bad:
            raise Mismatch("after %s: %s" % (self.log[-8:], bad), None)
        for i, o in enumerate(outs):
            m = self.view[o[-1]]["m"]
            if all((m[k - 1] != 0) == (have[k] is not None) for k in (1, 2)):
                self.sure = {self.keys[k] for k in (1, 2) if have[k] is not None}
                return i
        raise Mismatch("after %s the master holds %r; the specification allows %r" % (
            self.log[-8:], [k for k in have if have[k]], [self.view[o[-1]]["m"] for o in outs]), None)

    def differs(self, have, patience):
        n = b"%d" % (self.serial + 1)
        self.serial += 1
        if self.d.admin.store(b"set", b"~j", n) != b"STORED":
            return "set failed"
        t = time.time()
        while True:
            self.rep.pump()
            if self.rep.eof:
                return "the slave was disconnected"
            if self.rep.seen.get(b"~j") == n:
                break
            if time.time() - t > patience:
                return "updates do not reach the slave"
            time.sleep(0.0002)
        for i in (1, 2):
            k = self.keys[i]
            got = self.rep.objs.get(k)
            if have[i] is None:
                if got is not None:
                    return "the slave has %r = %r, the master has not" % (k, got[0][:20])
                continue
            if got is None:
                return "the slave lacks %r" % k
            if got[:2] != have[i]:
                return "the slave has %r = %r; the master has %r" % (k, (got[0][:20], got[1]), (have[i][0][:20], have[i][1]))
            if got[2] != self.exp.get(k):
                return "%r expires at %d on the slave, at %r on the master" % (k, got[2], self.exp.get(k))
        for k in self.rep.objs:
            if k not in self.keys.values():
                return "the slave has %r, which the master has not" % k
        return None
