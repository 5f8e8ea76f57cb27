"""Performs Secure.tla: no block of memory that is given back may hold a value
that was stored (the shim looks into every block)."""
import time

import vh
from cachedrv import Mixed
from model import Mismatch

NEVER = 9
UNIT = 10


class SecureDriver:
    def __init__(self, slow=False, **dkw):
        dkw.setdefault("secure_erase", True)
        self.d = vh.Daemon(workers=2, buckets=3, gc_interval=1000, slave_timeout=10000000, **dkw)
        self.d.set("mark_gc", 1)
        self.d.tick(2000)
        self.cl = Mixed(self.d)
        self.log = []
        self.scanned = 0
        self.found = 0
        self.strict = dkw["secure_erase"]
        self.wait_gc(0)
        self.d.set("scan_free", 1)

    def stop(self):
        self.cl.close()
        self.d.kill()

    def gcs(self):
        return int(self.d.stats()["gc_count"])

    def wait_gc(self, n):
        t = time.time()
        while self.gcs() <= n:
            if time.time() - t > 15:
                raise Mismatch("the garbage collector does not run", None)
            self.d.tick(0)
        self.quiet()
        self.d.tick(0)      # the handler notices that it has ended

    def quiet(self):
        t = time.time()
        while True:
            self.d.settle()
            if self.d.get("gc_alive") == 0:
                return
            if time.time() - t > 15:
                raise Mismatch("a collection does not end", None)

    def reset(self, rnd):
        self.log = []
        self.rnd = rnd
        self.o_flush(None, None)
        self.look("the removal of everything")
        self.serial = b"%x" % rnd.getrandbits(40)
        ds = rnd.sample("12345678", 4)
        self.word = "".join(ds).encode()
        self.num = {}
        self.d.set_marker(self.word * 3)
        self.seen = self.d.get("residue")

    def done(self):
        """The worker has finished with the commands of this connection."""
        self.cl.send(b"version\r\n")
        if not self.cl.line().startswith(b"VERSION"):
            raise Mismatch("version was not answered", None)

    def look(self, what):
        self.done()
        n = self.d.get("residue")
        if not hasattr(self, "seen"):
            self.seen = n
        if n != self.seen:
            self.found += n - self.seen
            self.seen = n
            if self.strict:
                raise Mismatch("after %s, memory that was given back still holds the value" % what, None)
        self.scanned = self.d.get("frees")

    def key(self, k):
        return b"s" + self.serial + k.encode()

    def value(self, z):
        n = z
        v = b""
        if self.rnd.random() < 0.5:
            v = b"v"
        return (v + self.word * (n // 4 + 1))[:n]

    TXT = {b"STORED": "STORED", b"NOT_STORED": "NOT_STORED", b"DELETED": "DELETED",
           b"NOT_FOUND": "NOT_FOUND", b"OK": ""}

    def line(self):
        l = self.cl.line().rstrip(b"\r\n")
        return self.TXT.get(l, repr(l))

    def store(self, cmd, k, v, e=NEVER, cas=None):
        ex = 0 if e == NEVER else self.rnd.choice([UNIT * e, self.d.now + UNIT * e])
        n = self.key(k)
        if self.rnd.random() < 0.5:
            self.cl.send(vh.text_store({"cas": b"cas"}.get(cmd, cmd.encode()), n, v, 3, ex, cas))
            return self.line()
        if cmd in ("append", "prepend"):
            self.cl.send(vh.breq(cmd.capitalize(), n, v))
        elif cmd == "cas":
            self.cl.send(vh.breq(self.rnd.choice(["Set", "Replace"]), n, v, vh.sx(3, ex), cas=cas))
        else:
            self.cl.send(vh.breq(cmd.capitalize(), n, v, vh.sx(3, ex)))
        r = self.cl.resp()
        if r.status == 0:
            return "STORED"
        if cmd == "cas" or r.status not in (1, 2, 5):
            return repr(r)
        return "NOT_STORED"

    # ---- operations
    def o_set(self, k, x):
        return self.store("set", k, self.value(x[0]), x[1])

    def o_add(self, k, x):
        return self.store("add", k, self.value(x[0]))

    def o_replace(self, k, x):
        return self.store("replace", k, self.value(x[0]))

    def o_append(self, k, x):
        return self.store("append", k, self.value(x[0]))

    def o_prepend(self, k, x):
        return self.store("prepend", k, self.value(x[0]))

    def unscanned(self, f):
        # a response may be copied to memory that is not an object's
        self.done()
        self.d.set("scan_free", 2)
        try:
            return f()
        finally:
            self.done()
            self.d.set("scan_free", 1)

    def gets(self, k):
        def f():
            self.cl.send(b"gets " + self.key(k) + b"\r\n")
            return self.cl.values()
        return self.unscanned(f)

    def o_cas(self, k, x):
        v = self.gets(k)
        if not v:
            return "END"
        return self.store("cas", k, self.value(x[0]), NEVER, v[0][3])

    def o_rau(self, k, x):
        n = self.key(k)
        def f():
            self.cl.send(vh.breq("LaG", n))
            return self.cl.resp()
        r = self.unscanned(f)
        if r.status:
            return repr(r)
        self.cl.send(vh.breq("RaU", n, self.value(x[0]), vh.sx(1, 0)))
        r = self.cl.resp()
        return "STORED" if r.status == 0 else repr(r)

    def o_setnum(self, k, x):
        self.num[k] = int(self.word * 4)
        return self.store("set", k, self.word * 4)

    def o_init(self, k, x):
        self.num[k] = int(self.word * 4)
        def f():
            self.cl.send(vh.breq("Increment", self.key(k), b"", vh.ix(1, self.num[k], 0)))
            return self.cl.resp()
        r = f()
        return "STORED" if r.status == 0 else repr(r)

    def arith(self, cmd, k, by):
        n = self.key(k)
        if self.rnd.random() < 0.5:
            self.cl.send(b"%s %s %d noreply\r\nversion\r\n" % (cmd.encode(), n, by))
            l = self.cl.line()
            ok = l.startswith(b"VERSION")
        else:
            self.cl.send(vh.breq({"incr": "IncrementQ", "decr": "DecrementQ"}[cmd], n, b"", vh.ix(by))
                         + vh.breq("Noop"))
            r = self.cl.resp()
            ok = r.op == vh.OP["Noop"]
            l = r
        if not ok:
            return repr(l)
        self.num[k] += by if cmd == "incr" else -by
        self.look(cmd)
        v = self.gets(k)
        if not v or v[0][2] != b"%d" % self.num[k]:
            return repr(v)
        return "NUMBER"

    def o_incr(self, k, x):
        return self.arith("incr", k, self.rnd.randrange(1, 4))

    def o_decr(self, k, x):
        return self.arith("decr", k, self.num[k] - self.rnd.randrange(10, 100))

    def o_get(self, k, x):
        return "VALUE" if self.gets(k) else "END"

    def o_delete(self, k, x):
        n = self.key(k)
        if self.rnd.random() < 0.5:
            self.cl.send(b"delete " + n + b"\r\n")
            return self.line()
        self.cl.send(vh.breq("Delete", n))
        r = self.cl.resp()
        return {0: "DELETED", 1: "NOT_FOUND"}.get(r.status, repr(r))

    def o_wait(self, k, x):
        self.d.tick(UNIT)
        self.d.settle()
        return ""

    def o_gc(self, k, x):
        self.quiet()
        n = self.gcs()
        self.d.tick(1001)
        self.wait_gc(n)
        return ""

    def o_flush(self, k, x):
        self.quiet()
        self.cl.send(b"flush_all\r\n")
        r = self.line()
        t = time.time()
        self.d.tick(1)
        while True:
            self.quiet()
            if not self.d.admin.keys(b"s"):
                break
            # what was stored in the second of the flush goes with the next one
            self.d.tick(1001)
            if time.time() - t > 15:
                raise Mismatch("objects remain after a flush", None)
        self.quiet()
        self.d.tick(0)
        return r

    def o_evict(self, k, x):
        t = time.time()
        while self.d.admin.keys(b"s" + self.serial):
            if time.time() - t > 15:
                raise Mismatch("objects beyond the memory limit are not evicted", None)
            self.d.tick(1001)
            self.quiet()
            self.d.tick(0)
            self.quiet()
        return ""

    def do(self, op, outs, rnd):
        self.rnd = rnd
        k, x = op["k"], op["x"]
        self.log.append((op["o"], k, x))
        r = getattr(self, "o_" + op["o"])(k, x)
        self.look(op["o"])
        for i, o in enumerate(outs):
            if o[0] == r:
                return i
        raise Mismatch("%s answered %r, expected %s" % (op["o"], r, [o[0] for o in outs]), None)
