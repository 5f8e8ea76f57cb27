"""Performs Stats.tla: compares what the server tells of itself (listings and
statistics, over both protocols) with what has happened to it."""
import random
import socket
import threading
import time

import repl
import vh
from cachedrv import Mixed
from model import Mismatch

NEVER = 9
UNIT = 10
COUNTERS = ["get_hits", "get_misses", "cas_hits", "cas_misses", "cas_badval",
            "total_items", "total_connections", "gc_count"]
PER_KEY = {"get_hits", "get_misses", "total_items"}
VARIES = {"pid", "time", "rusage_user", "rusage_system", "last_gc_elapsed", "total_gc_elapsed"}
TEXT = {"set": "set", "get": "get", "gets": "gets", "delete": "delete", "incr": "incr",
        "decr": "decr", "lock": "lock", "unlock": "unlock", "cas": "cas", "keys": "keys",
        "flush_all": "flush_all", "unlock_all": "unlock_all"}


class StatsDriver:
    def __init__(self, fam=1, helpers=8, slow=False, **dkw):
        self.slow = slow
        self.fam = fam
        dkw.setdefault("workers", 4)
        dkw.setdefault("buckets", 5)
        self.d = vh.Daemon(gc_interval=1000, slave_timeout=10000000, max_data_size=8 << 20, **dkw)
        self.d.set("mark_gc", 1)
        self.d.tick(2000)
        t = time.time()
        while self.d.stats()["gc_count"] == "0" and time.time() - t < 10:
            self.d.tick(0)
        time.sleep(0.05)
        self.adm = Mixed(self.d)
        self.cl = Mixed(self.d)         # performs the commands
        self.lk = Mixed(self.d)         # holds the locks
        self.helpers = [vh.Text(self.d) for _ in range(helpers)]
        self.clients = []
        self.slaves = []
        self.log = []
        self.ops = {}
        self.serial = 0

    def stop(self):
        for c in [self.adm, self.cl, self.lk] + self.helpers + self.clients:
            c.close()
        for s in self.slaves:
            s.s.close()
        self.d.kill()

    def reset(self, rnd):
        self.log = []
        self.rnd = rnd
        for c in (self.cl, self.lk):
            c.send(b"unlock_all\r\n")
            if c.line() != b"OK\r\n":
                raise Mismatch("unlock_all did not answer OK", None)
        for c in self.clients:
            c.close()
        for s in self.slaves:
            s.s.close()
        n = 3 + len(self.helpers) + (1 if self.d.admin else 0)
        self.clients, self.slaves = [], []
        self.cl.send(b"flush_all\r\n")
        self.cl.line()
        self.collect(lambda: self.d.tick(1))
        self.collect(lambda: self.d.tick(1001))
        t = time.time()
        while True:
            s = self.read()
            if s["slaves"] == "0" and s["curr_connections"] == str(n):
                break
            if time.time() - t > 15:
                raise Mismatch("%s connections and %s slaves long after all but %d and 0 were closed"
                               % (s["curr_connections"], s["slaves"], n), None)
            self.d.tick(0)
        self.base = n
        self.val = {}
        self.letters = {}
        self.keys = {}
        self.serial += 1
        stem = b"s%d" % self.serial + bytes(rnd.choice(b"abc*?[.%\x01\x7f\x80\xff"
                                                       if rnd.random() < 0.5 else b"xyz")
                                            for _ in range(rnd.choice([0, 3, 30, 60])))
        for i, x in enumerate("abc"):
            self.letters[x] = stem + b"%d" % i
        self.want = {k: int(s[k]) for k in COUNTERS}
        self.ops = self.read_ops()

    # ---- reading
    def read(self, what=b""):
        return self.adm_text(what) if self.rnd.random() < 0.6 else self.adm_bin(what)

    def adm_text(self, what):
        return self.adm.stats(what)

    def adm_bin(self, what):
        self.adm.send(vh.breq("Stat", what))
        out = {}
        while True:
            r = self.adm.resp()
            if r.status:
                raise Mismatch("Stat %r answered %r" % (what, r), None)
            if not r.key:
                return out
            k = r.key.decode()
            if k in out:
                raise Mismatch("Stat %r tells %s twice" % (what, k), None)
            out[k] = r.val.decode()

    def read_ops(self):
        # the binary protocol has no statistics of commands
        return {k: int(v) for k, v in self.adm_text(b"ops").items()}

    def letter(self, l):
        return b"".join(self.letters[x] for x in l)

    def names(self, k):
        """The keys that a key of the specification stands for."""
        k = tuple(k)
        r = self.keys.get(k)
        if r is None:
            b = self.letter(k)
            r = [b] + [b"%s#%d" % (b, i) for i in range(1, self.fam)]
            if self.rnd.random() < 0.2:
                r[-1] += b"_" * (250 - len(r[-1])) if self.fam > 1 else b""
            self.keys[k] = r
        return r

    def count(self, name, n=1):
        self.exp_ops[name] = self.exp_ops.get(name, 0) + n

    # ---- commands; they answer in the words of the specification
    def text(self, name, line, c=None):
        self.count("text:" + name)
        (c or self.cl).send(line)

    def bin(self, name, *a, **k):
        self.count("binary:" + name)
        (k.pop("conn", None) or self.cl).send(vh.breq(name, *a, **k))

    def noop(self):
        self.bin("Noop")

    WORD = {b"STORED": "STORED", b"LOCKED": "LOCKED", b"OK": "OK", b"DELETED": "DELETED",
            b"NOT_FOUND": "NOT_FOUND", b"EXISTS": "EXISTS", b"NOT_STORED": "NOT_STORED"}

    def word(self, c=None):
        l = (c or self.cl).line().rstrip(b"\r\n")
        return self.WORD.get(l, repr(l))

    def exptime(self, e):
        if e == NEVER:
            return 0
        return self.rnd.choice([UNIT * e, self.d.now + UNIT * e])

    def bstatus(self, r, good):
        return {0: good, 1: "NOT_FOUND", 2: "EXISTS", 0x10: "LOCKED", 6: "NOT_NUMBER"}.get(r.status, repr(r))

    def same(self, xs):
        if len(set(map(str, xs))) != 1:
            return "different: %r" % (xs[:20],)
        return xs[0]

    def o_set(self, k, x):
        z, e = x
        out = []
        big = z > 100000
        for n in self.names(k):
            v = (b"v" + self.rnd.randbytes(8).hex().encode())[:z] + b"v" * max(0, z - 17)
            ex = self.exptime(e)
            how = self.rnd.random()
            if how < 0.5 or big:
                self.text("set", vh.text_store(b"set", n, v, 7, ex))
                out.append(self.word())
            elif how < 0.8:
                self.bin("Set", n, v, vh.sx(7, ex))
                out.append(self.bstatus(self.cl.resp(), "STORED"))
            else:
                self.bin("SetQ", n, v, vh.sx(7, ex))
                self.noop()
                r = self.cl.resp()
                if r.op != vh.OP["Noop"]:
                    out.append(self.bstatus(r, "?"))
                    self.cl.resp()
                else:
                    out.append("STORED")
        return self.same(out)

    def bget(self, cmds, n, ex):
        """A get of the binary protocol: the size of what came, or none."""
        cmd = self.rnd.choice(cmds)
        self.bin(cmd, n, b"", ex)
        if cmd.endswith("Q"):
            self.noop()
        r = self.cl.resp()
        out = []
        if r.op != vh.OP["Noop"]:
            out = [len(r.val)] if r.status == 0 else []
            if r.status not in (0, 1):
                out = repr(r)
            if cmd.endswith("Q"):
                r = self.cl.resp()
                if r.op != vh.OP["Noop"]:
                    return repr(r)
        return out

    def o_get(self, k, x):
        out = []
        for n in self.names(k):
            if self.rnd.random() < 0.5:
                cmd = self.rnd.choice(["get", "gets"])
                self.text(cmd, cmd.encode() + b" " + n + b"\r\n")
                v = self.cl.values()
                out.append([len(v[0][2])] if v else [])
            else:
                out.append(self.bget(["Get", "GetQ", "GetK", "GetKQ"], n, b""))
        return self.same(out)

    def o_gat(self, k, x):
        return self.same([self.bget(["GaT", "GaTQ", "GaTK", "GaTKQ"], n, vh.px(0))
                          for n in self.names(k)])

    def o_lag(self, k, x):
        c, self.cl = self.cl, self.lk
        try:
            return self.same([self.bget(["LaG", "LaGQ", "LaGK", "LaGKQ"], n, b"") for n in self.names(k)])
        finally:
            self.cl = c

    def o_gets(self, k, x):
        out = []
        for a, b in zip(self.names(k), self.names(x)):
            cmd = self.rnd.choice(["get", "gets"])
            self.text(cmd, cmd.encode() + b" " + a + b" " + b + b"\r\n")
            v = [y[0] for y in self.cl.values()]
            if a == b:
                out.append([len(v) == 2, len(v) == 2] if v in ([], [a, a]) else repr(v))
            else:
                out.append([a in v, b in v] if v in ([], [a], [b], [a, b]) else repr(v))
        return self.same(out)

    def o_burst(self, k, x, many):
        n = self.names(k)[0]
        per = many // len(self.helpers)
        for c in self.helpers:
            self.count("text:get", per)
            c.send((b"get " + n + b"\r\n") * per)
        out = []
        for c in self.helpers:
            for _ in range(per):
                out.append(bool(c.values()))
        return self.same(out)

    def o_arith(self, k, x):
        out = []
        for n in self.names(k):
            if self.rnd.random() < 0.5:
                cmd = self.rnd.choice(["incr", "decr"])
                self.text(cmd, cmd.encode() + b" " + n + b" 1\r\n")
                w = self.word()
                out.append("NOT_NUMBER" if w.startswith("b'CLIENT_ERROR") else w)
            else:
                cmd = self.rnd.choice(["Increment", "Decrement"])
                self.bin(cmd, n, b"", vh.ix(1))
                out.append(self.bstatus(self.cl.resp(), "?"))
        return self.same(out)

    def o_delete(self, k, x):
        out = []
        for n in self.names(k):
            how = self.rnd.random()
            if how < 0.5:
                self.text("delete", b"delete " + n + b"\r\n")
                out.append(self.word())
            elif how < 0.8:
                self.bin("Delete", n)
                out.append(self.bstatus(self.cl.resp(), "DELETED"))
            else:
                self.bin("DeleteQ", n)
                self.noop()
                r = self.cl.resp()
                if r.op != vh.OP["Noop"]:
                    out.append(self.bstatus(r, "?"))
                    self.cl.resp()
                else:
                    out.append(self.reply)      # either
        return self.same(out)

    def o_cas(self, k, x):
        out = []
        for n in self.names(k):
            self.text("gets", b"gets " + n + b"\r\n")
            v = self.cl.values()
            self.extra["get_hits" if v else "get_misses"] += 1
            cas, val = (v[0][3], v[0][2]) if v else (self.rnd.randrange(1, 1 << 40), b"v")
            if x[0] == "bad":
                cas += self.rnd.choice([1, 1 << 33, 12345])
            if self.rnd.random() < 0.5:
                self.text("cas", vh.text_store(b"cas", n, val, 1, 0, cas))
                out.append(self.word())
            else:
                cmds = ["Set", "Replace"]
                cmd = self.rnd.choice(cmds)
                self.bin(cmd, n, val, vh.sx(1, 0), cas=cas)
                out.append(self.bstatus(self.cl.resp(), "STORED"))
        return self.same(out)

    def o_lock(self, k, x):
        out = []
        for n in self.names(k):
            # an object locked by the other connection
            if self.rnd.random() < 0.5:
                self.text("lock", b"lock " + n + b"\r\n", self.lk)
                w = self.word(self.lk)
            else:
                self.bin("Lock", n, conn=self.lk)
                w = self.bstatus(self.lk.resp(), "OK")
            out.append(w)
        return self.same(out)

    def o_unlock(self, k, x):
        out = []
        for n in self.names(k):
            if self.rnd.random() < 0.5:
                self.text("unlock", b"unlock " + n + b"\r\n", self.lk)
                out.append(self.word(self.lk))
            else:
                self.bin("Unlock", n, conn=self.lk)
                out.append(self.bstatus(self.lk.resp(), "OK"))
        return self.same(out)

    def o_bad(self, k, x):
        if self.rnd.random() < 0.5:
            self.cl.send(self.rnd.choice([b"foo\r\n", b"set\r\n", b"gett k\r\n", b"delete\r\n", b"incr k\r\n"]))
            l = self.cl.line()
            return "ERROR" if l.startswith((b"ERROR", b"CLIENT_ERROR")) else repr(l)
        self.cl.send(vh.breq(self.rnd.choice([0x2f, 0x7f, 0x60]), b"k"))
        r = self.cl.resp()
        return "ERROR" if r.status == 0x81 else repr(r)

    def o_flush(self, k, x):
        if self.rnd.random() < 0.5:
            self.text("flush_all", b"flush_all\r\n")
            return self.word()
        self.bin("Flush")
        return self.bstatus(self.cl.resp(), "OK")

    def quiet(self):
        """No collection is in progress, and none is about to start."""
        t = time.time()
        while True:
            self.d.settle()
            if self.d.get("gc_alive") == 0:
                return
            if time.time() - t > 15:
                raise Mismatch("a collection does not end", None)

    def collect(self, f):
        self.quiet()
        n = int(self.d.stats()["gc_count"])
        f()
        t = time.time()
        while int(self.d.stats()["gc_count"]) == n:
            if time.time() - t > 15:
                raise Mismatch("the garbage collector does not run", None)
            self.d.tick(0)
        self.quiet()
        self.d.tick(0)      # the handler notices that it has ended

    def taken(self):
        """What was counted by the last collection."""
        s = self.read()
        i = self.read(b"items")
        z = self.read(b"sizes")
        if s["curr_items"] != i["items:1:number"]:
            raise Mismatch("curr_items is %s but items:1:number %s" % (s["curr_items"], i["items:1:number"]), None)
        return {"expired": int(s["last_expirations"]),
                "now": {"items": int(s["curr_items"]), "largest": int(i["items:1:largest"]),
                        "sizes": {k: int(v) for k, v in z.items()}}}

    def o_tick(self, k, x):
        if self.gc:
            self.collect(lambda: self.d.tick(UNIT))
            return self.taken()
        self.d.tick(UNIT)
        self.d.settle()
        return ""

    def o_gc(self, k, x):
        self.collect(lambda: self.d.tick(1001))
        return self.taken()

    def o_join(self, k, x):
        def f():
            self.slaves.append(repl.Replica(self.d))
            self.d.tick(0)
        self.collect(f)
        return self.taken()

    def o_leave(self, k, x):
        s = self.slaves.pop(self.rnd.randrange(len(self.slaves)))
        s.s.close()
        t = time.time()
        while self.read()["slaves"] != str(len(self.slaves)) and time.time() - t < 10:
            self.d.tick(0)
        return len(self.slaves)

    def o_connect(self, k, x):
        self.clients.append(Mixed(self.d))
        self.clients[-1].send(b"version\r\n")
        self.count("text:version")
        if not self.clients[-1].line().startswith(b"VERSION"):
            return "no version"
        return len(self.clients)

    def o_close(self, k, x):
        c = self.clients.pop(self.rnd.randrange(len(self.clients)))
        how = self.rnd.random()
        if how < 0.3:
            c.send(b"quit\r\n")
            self.count("text:quit")
            c.s.settimeout(10)
            if c.s.recv(10):
                return "an answer to quit"
        elif how < 0.6:
            c.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, b"\1\0\0\0\0\0\0\0")
        c.close()
        t = time.time()
        while self.read()["curr_connections"] != str(self.base + len(self.clients)) and time.time() - t < 10:
            time.sleep(0.001)
        return len(self.clients)

    def listing(self, p):
        if self.rnd.random() < 0.5:
            self.count("text:keys")
            return self.cl.keys(p)
        self.bin("Keys", p)
        out = []
        while True:
            r = self.cl.resp()
            if r.status:
                raise Mismatch("Keys answered %r" % r, None)
            if not r.key:
                return out
            if r.val or r.extras:
                raise Mismatch("Keys answered a value or extras: %r" % r, None)
            out.append(r.key)

    def judge_list(self, p, got, known):
        """In the words of the specification; each real key must be there once."""
        c = {}
        for n in got:
            c[n] = c.get(n, 0) + 1
        for n, i in c.items():
            if i > 1:
                raise Mismatch("the listing of %r has %r %d times" % (p, n, i), None)
        out = []
        for k in known:
            l = [n for n in self.names(k) if n in c]
            if l and len(l) != len(self.names(k)):
                miss = [n for n in self.names(k) if n not in c]
                raise Mismatch("the listing of %r has %r but not %r" % (p, l[0], miss[0]), None)
            if l:
                out.append(list(k))
            for n in l:
                del c[n]
        if c:
            raise Mismatch("the listing of %r has %r" % (p, list(c)[:3]), None)
        return sorted(out)

    def o_list(self, k, x):
        p = self.letter(k)
        return self.judge_list(p, self.listing(p), list(self.keys))

    def o_listbusy(self, k, x):
        p = self.letter(k)
        busy = [self.letters["a"][:-1] + b"busy%d" % i for i in range(20)]
        stop = []
        rounds = [0] * len(self.helpers)
        err = []

        def work(i):
            c = self.helpers[i]
            mine = busy[i::len(self.helpers)]
            q = b"".join(vh.text_store(b"set", n, b"v" * 10, 0, 0) for n in mine) + \
                b"".join(b"delete " + n + b"\r\n" for n in mine)
            want = b"STORED\r\n" * len(mine) + b"DELETED\r\n" * len(mine)
            try:
                while not stop:
                    c.send(q)
                    g = c.exact(len(want))
                    rounds[i] += 1
                    if g != want:
                        err.append("storing and deleting %r answered %r" % (mine, g))
                        return
            except Exception as e:
                err.append(repr(e))
        ths = [threading.Thread(target=work, args=(i,)) for i in range(len(self.helpers))]
        [t.start() for t in ths]
        out = None
        try:
            for _ in range(4):
                got = self.listing(p)
                seen = [n for n in got if n in busy]
                if len(seen) != len(set(seen)):
                    raise Mismatch("the listing of %r has a key twice: %r" % (p, sorted(seen)), None)
                o = self.judge_list(p, [n for n in got if n not in busy], list(self.keys))
                if out is not None and o != out:
                    raise Mismatch("listings of %r differ: %r, then %r" % (p, out, o), None)
                out = o
        finally:
            stop.append(1)
            [t.join() for t in ths]
        if err:
            raise Mismatch(err[0], None)
        for i, r in enumerate(rounds):
            m = len(busy[i::len(self.helpers)])
            self.count("text:set", r * m)
            self.count("text:delete", r * m)
            self.extra["total_items"] += r * m
        return out

    # ---- a step
    def do(self, op, outs, rnd):
        try:
            return self.step(op, outs, rnd)
        except Mismatch as e:
            e.trace = self.log
            raise

    def step(self, op, outs, rnd):
        self.rnd = rnd
        o = op["o"]
        k, x = op["k"], op["x"]
        self.exp_ops = {}
        self.extra = {c: 0 for c in COUNTERS}
        self.log.append("%s %s %s" % (o, "".join(k) if o not in ("lock",) else "".join(k), x or ""))
        reply, delta = outs[0][0]
        delta = delta or {}
        self.gc = bool(delta.get("gc_count"))
        self.reply = reply
        f = getattr(self, "o_" + o)
        if o == "burst":
            got = f(k, x, sum(delta.values()))
        else:
            got = f(k, x)
        if self.slow:
            time.sleep(0.05)
        if o in ("list", "listbusy"):
            reply = sorted(reply)
        if self.gc:
            f = self.fam
            n = reply["now"]
            reply = {"expired": reply["expired"] * f,
                     "now": {"items": n["items"] * f, "largest": n["largest"],
                             "sizes": {a: b * f for a, b in n["sizes"].items()}}}
        if got != reply:
            raise Mismatch("%s answered %r, not %r" % (self.log[-1], got, reply), None)
        # the statistics; some are counted just after the command is answered
        fam = 1 if o == "burst" else self.fam
        for c in COUNTERS:
            m = fam if c in PER_KEY or c.startswith("cas") else 1
            self.want[c] += delta.get(c, 0) * m + self.extra[c]
        for c in self.exp_ops:
            if c not in self.ops:
                raise Mismatch("statistics lack %s" % c, None)
            self.ops[c] += self.exp_ops[c]
        w = dict(self.want, curr_connections=self.base + len(self.clients), slaves=len(self.slaves),
                 last_evictions=0, evictions=0)
        t = time.time()
        while True:
            s = self.read()
            a = self.read_ops()
            bad = ["%s is %s, not %d" % (c, s[c], w[c]) for c in w if int(s[c]) != w[c]] + \
                  ["%s is %d, not %d" % (c, a[c], self.ops[c]) for c in a
                   if c not in ("text:stats", "binary:Stat") and a[c] != self.ops[c]]
            if not bad:
                break
            if time.time() - t > 2:
                raise Mismatch("%s after %s" % (", ".join(bad), self.log[-1]), None)
            time.sleep(0.002)
        if rnd.random() < 0.1:
            self.compare()
        return 0

    def compare(self):
        """The two protocols tell the same; each reading is counted once."""
        for what in (b"", b"items", b"sizes", b"settings"):
            o = self.read_ops()
            t, b = self.adm_text(what), self.adm_bin(what)
            n = self.read_ops()
            for name, w in (("text:stats", 2), ("binary:Stat", 1)):
                if n[name] != o[name] + w:
                    raise Mismatch("%s grew by %d, not %d" % (name, n[name] - o[name], w), None)
            t = {k: v for k, v in t.items() if k not in VARIES}
            b = {k: v for k, v in b.items() if k not in VARIES}
            if t != b:
                d = {k: (t.get(k), b.get(k)) for k in set(t) | set(b) if t.get(k) != b.get(k)}
                raise Mismatch("the protocols tell different statistics %r: %r" % (what, d), None)
