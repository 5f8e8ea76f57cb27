"""Performs Wire.tla: requests that are close to the grammars but outside."""
import socket
import struct
import time

import cachedrv
import vh
from model import Mismatch

ERR = (b"ERROR", b"CLIENT_ERROR", b"SERVER_ERROR")
MAXREQ = 30 << 20


class WireDriver:
    def __init__(self, part, slow=False, **dkw):
        self.part = part
        self.slow = slow
        self.ctr = part == "counter"
        self.d = vh.Daemon(counter=self.ctr, buckets=50, **dict(dict(workers=3, gc_interval=100000000), **dkw))
        self.c = self.other = None
        self.log = []
        self.n = 0

    def stop(self):
        for x in (self.c, self.other):
            if x:
                x.close()
        self.d.kill()

    def conn(self):
        return vh.Ctr(self.d) if self.ctr else cachedrv.Mixed(self.d)

    def reset(self, rnd):
        self.log = []
        for x in (self.c, self.other):
            if x:
                x.close()
        d = self.d
        d.set("seed", rnd.randrange(1, 1 << 30))
        d.set("recv_max", rnd.choice([0, 0, 0, 0, 5, 30]))
        self.c, self.other = self.conn(), self.conn()
        self.n += 1
        self.key = b"w%d." % self.n + b"k" * rnd.choice([0, 1, 20, 200])
        if not self.ctr:
            # a second object that nothing may touch
            self.by = b"bystander%d" % self.n
            old = [k for k in d.admin.keys()]
            for k in old:
                t = time.time()
                while d.admin.cmd(b"delete " + k) != b"DELETED":
                    if time.time() - t > 20:
                        raise Mismatch("an object cannot be deleted although the connections have ended", self.log)
                    d.tick(0)
            if d.admin.store(b"set", self.by, b"11", 77) != b"STORED":
                raise Mismatch("set failed", self.log)
            self.bycas = d.admin.gets(self.by)[0][3]
        self.cas = None

    def do(self, op, outs, rnd):
        try:
            return self._do(op, outs, rnd)
        except vh.DaemonDied as e:
            raise Mismatch("the daemon died at %s: %s" % (self.log[-2:], e), self.log)
        except (EOFError, OSError) as e:
            if self.d.p.poll() is not None:
                raise Mismatch("the daemon died at %s" % self.log[-2:], self.log)
            raise Mismatch("connection lost at %s: %r" % (self.log[-2:], e), self.log)
        except vh.Stuck as e:
            raise Mismatch("%s at %s" % (e, self.log[-2:]), self.log)
        except Mismatch as e:
            e.trace = self.log
            raise

    def fail(self, what):
        raise Mismatch("%s, after %s" % (what, self.log[-2:]), self.log)

    # ---- words
    def word(self, cl, rnd, data=b""):
        if cl == "k":
            return self.key
        if cl == "K":
            return self.key + b"K" * (rnd.choice([251, 252, 300, 1000, 70000]) - len(self.key))
        if cl == "1":
            return b"%d" % rnd.choice([0, 1, 2, 9, 100, 2**31])
        if cl == "N":
            return b"%d" % rnd.choice([2**32, 2**32 + 1, 2**33, 2**63 - 1])
        if cl == "M":
            return b"%d" % rnd.choice([2**63, 2**64 - 1])
        if cl == "B":
            return b"%d" % rnd.choice([2**64, 2**64 + 5, 10**30, 10**300])
        if cl == "x":
            return rnd.choice([b"x", b"abc", b"norepl", b"noreplyy", b"NOREPLY", b"\xff\xfe", b"a1", b".", b"\t"])
        if cl == "g":
            return rnd.choice([b"1x", b"0x10", b"12.5", b"1e3", b"7-", b"3,", b"1\x00"])
        if cl == "neg":
            return b"-%d" % rnd.choice([1, 5, 1000])
        if cl == "nr":
            return b"noreply"
        if cl == "d":
            return b"%d" % len(data)
        if cl == "s":
            return rnd.choice([b"settings", b"items", b"sizes", b"ops"])
        raise vh.CheckError(cl)

    def line(self, cmd, q, rnd, data=b""):
        out = cmd.encode()
        for c in q:
            out += b" " * rnd.choice([1, 1, 1, 2, 9]) + self.word(c, rnd, data)
        return out + b" " * rnd.choice([0, 0, 0, 1]) + b"\r\n"

    def junk(self, j, rnd):
        k = self.key
        if j == "empty":
            return b" " * rnd.choice([0, 0, 1, 40]) + b"\r\n"
        if j == "lf":
            return b"\n"
        if j == "nocr":
            return rnd.choice([b"get %s\n", b"delete %s\n", b"set %s 0 0 1\n", b"incr %s 1\n",
                               b"flush_all\n", b"lock %s\n"]).replace(b"%s", k)
        if j == "unknown":
            return rnd.choice([b"foo", b"foo %s 0 0 3", b"gat 10 %s", b"delete_all %s", b"mset", b"exit", b"me %s",
                               b"%s"]).replace(b"%s", k) + b"\r\n"
        if j in ("prefix", "longer", "upper"):
            v = rnd.choice([b"set", b"add", b"replace", b"append", b"prepend", b"cas", b"delete", b"incr", b"decr",
                            b"touch", b"lock", b"unlock", b"flush_all", b"get", b"gets", b"unlock_all", b"keys"])
            if j == "prefix":
                w = v[:-1]
                if w == b"get":
                    w = b"ge"
                elif w == b"unloc":
                    w = b"unlok"
            elif j == "longer":
                w = v + rnd.choice([b"x", b"_", b"\xff", b"1"])
            else:
                w = v.upper()
            rest = b" " + k + rnd.choice([b"", b" 1", b" 0 0 1", b" 1 2 3 4"])
            if v in (b"flush_all", b"unlock_all", b"keys"):
                rest = b""
            return w + rest + b"\r\n"
        if j == "long":
            v = rnd.choice([b"", b"get" * 3, b"sets ", b"delet"])
            return v + b"y" * rnd.choice([2047, 2048, 5000, 300000, 3 << 20]) + b"\r\n"
        b = rnd.randbytes(rnd.choice([1, 23, 24, 25, 200])).replace(b"\n", b"x")
        return b"\x01" + b.replace(b"\r", b"y") + b"\n"

    # ---- one operation
    def _do(self, op, outs, rnd):
        self.log.append("%s %s %s" % (op["t"], op["c"], list(op["q"])))
        (res, nxt), = [(o[0], o[-1]) for o in outs]
        now = self.view[nxt]
        t = op["t"]
        if t == "good":
            self.good(op["c"], rnd)
        elif t == "part":
            self.part_(rnd)
        elif t == "huge":
            self.huge(rnd)
        else:
            if self.ctr:
                self.ctr_bad(op["c"], op["q"][0], rnd)
            elif t in ("line", "junk", "end", "toolong"):
                if t == "line":
                    b = self.line(op["c"], op["q"], rnd)
                elif t == "junk":
                    b = self.junk(op["c"], rnd)
                    if len(b) > 10000:
                        self.d.set("recv_max", 0)
                else:
                    data = rnd.choice([b"", b"5", b"abc", rnd.randbytes(rnd.randrange(3000))])
                    b = self.line(op["c"], op["q"], rnd, data) + data
                    b += b"\r\n" if t == "toolong" else rnd.choice([b"xx", b"\r\r", b"\n\n", b"\rx", b"x\n", b"\n\r", b"\0\0"])
                self.text_bad(b, rnd)
            else:
                self.bin_bad(op, rnd)
        self.verify(now, rnd, t)
        return 0

    def probe(self, bad, rnd):
        """The bad request and one that follows it on the same connection."""
        c = self.c
        p = rnd.randrange(3)
        good = b"version\r\n" if rnd.random() < 0.5 or self.part == "text" else None
        opq = rnd.randrange(1 << 32)
        if good is None:
            good = vh.breq("Noop", opaque=opq)
        self.log[-1] += " %r%s" % (bad[:60], "..." if len(bad) > 60 else "")
        if p == 0:
            c.send(bad + good)
        elif p == 1:
            c.send(bad)
        else:
            n = rnd.randrange(len(bad))
            c.send(bad[:n])
            c.send(bad[n:] + good)
        return p == 1, good, opq

    def after(self, later, good, opq):
        c = self.c
        if later:
            c.send(good)
        if good[:1] == b"\x80":
            r = c.resp()
            if r.op != vh.OP["Noop"] or r.status != 0 or r.opaque != opq:
                self.fail("Noop after the bad request was answered with %r" % r)
        else:
            l = c.line()
            if not l.startswith(b"VERSION "):
                self.fail("version after the bad request was answered with %r" % l)
        if c.buf:
            self.fail("more was sent than the replies: %r" % c.buf[:60])

    def text_bad(self, b, rnd):
        x = self.probe(b, rnd)
        l = self.c.line()
        if not l.startswith(ERR):
            self.fail("the request %r was answered with %r and not with an error" % (b[:80], l[:80]))
        self.after(*x)

    def bin_bad(self, op, rnd):
        opq = rnd.randrange(1 << 32)
        cas = rnd.choice([0, 0, 0, rnd.randrange(1 << 64)])
        key = val = ex = b""
        if op["t"] == "opcode":
            o = {"low": [0x1b, 0x1f, 0x20, 0x21, 0x22, 0x25, 0x30, 0x3f],
                 "gap": [0x4c, 0x4d, 0x4f],
                 "high": [0x51, 0x7f, 0x80, 0x81, 0xfe, 0xff]}[op["c"]]
            o = rnd.choice(o)
            key = self.key if rnd.random() < 0.7 else b""
            ex = rnd.randbytes(rnd.choice([0, 4, 8, 20]))
            val = rnd.randbytes(rnd.choice([0, 1, 9]))
            b = vh.breq(o, key, val, ex, cas=cas, opaque=opq)
        elif op["t"] == "bin":
            o = vh.OP[op["c"]]
            e, k, n = op["q"]
            ex = rnd.choice([bytes(e), rnd.randbytes(e)])
            key = b"" if k == 0 else self.key if k == 1 else self.word("K", rnd)[:65535]
            val = b"5" * n
            b = vh.breq(o, key, val, ex, cas=cas, opaque=opq)
        else:
            o = vh.OP[op["c"]]
            e, k, n = {"key": (0, rnd.choice([1, len(self.key), 250]), 0),
                       "extras": (rnd.choice([4, 8, 20, 255]), 0, 0),
                       "both": (rnd.choice([4, 8, 20]), len(self.key), 0)}[op["q"][0]]
            have = e + k
            body = (b"\0" * e + self.key * 20)[:have]
            body = body[:rnd.choice([0, have - 1, rnd.randrange(have)])]
            b = struct.pack(">BBHBBHIIQ", 0x80, o, k, e, 0, 0, len(body), opq, cas) + body
        x = self.probe(b, rnd)
        r = self.c.resp()
        if r.status == 0 or r.opaque != opq:
            self.fail("the binary request %#x with %d bytes of extras, a key of %d and a value of %d bytes "
                      "(opaque %#x) was answered with %r and not with an error" % (o, len(ex), len(key), len(val), opq, r))
        if r.status not in vh.ST:
            self.fail("the error status %#x is none of the protocol" % r.status)
        self.after(*x)

    def ctr_bad(self, d, c, rnd):
        opq = rnd.randrange(1 << 32)
        n = self.key
        body = {"Get": struct.pack(">H", len(n)) + n,
                "Acquire": struct.pack(">IIH", 1, 1000, len(n)) + n,
                "Release": struct.pack(">IH", 1, len(n)) + n, "Noop": b""}[c]
        fix = {"Get": 0, "Acquire": 8, "Release": 4, "Noop": 0}[c]
        magic, o = 0x90, vh.COP[c]
        if d == "magic":
            magic = rnd.choice([0, 0x80, 0x81, 0x91, 0xff, 0x0a])
        elif d == "unknown":
            o = rnd.choice([4, 5, 0x0f, 0x12, 0x20, 0x90, 0xff])
        elif d == "nobody":
            body = b""
        elif d == "noname":
            body = body[:fix] + b"\0\0" + rnd.choice([b"", n])
        elif d == "name-over":
            m = rnd.choice([len(n) + 1, 255, 256, 65535, len(n) + 65280 & 65535])
            if m <= len(n):
                m = len(n) + 1
            body = body[:fix] + struct.pack(">H", m) + n
        elif d == "short":
            body = body[:rnd.randrange(1, fix + 2)]
        elif d == "zero":
            body = struct.pack(">IIH", 0, rnd.choice([0, 1, 1000]), len(n)) + n
        elif d == "over-max":
            m = rnd.choice([0, 1, 999, 2**31, 2**32 - 2])
            body = struct.pack(">IIH", m + 1, rnd.choice([m, 0]), len(n)) + n
        b = struct.pack(">BBBBII", magic, o, rnd.choice([0, 255]), 0, len(body), opq) + body
        self.log[-1] += " %r" % b[:60]
        probe = vh.creq("Noop", b"", opq ^ 1)
        later = rnd.random() < 0.5
        self.c.send(b if later else b + probe)
        _, st, q, _ = self.c.resp()
        if st == 0 or q != opq:
            self.fail("the counter request %r was answered with status %d, opaque %#x and not with an error" % (b[:80], st, q))
        if st not in vh.CST:
            self.fail("the error status %#x is none of the protocol" % st)
        if later:
            self.c.send(probe)
        _, st, q, x = self.c.resp()
        if st != 0 or q != opq ^ 1 or x or self.c.buf:
            self.fail("Noop after the bad request was answered with status %d, opaque %#x, %r" % (st, q, x[:40]))

    # ---- requests that cost the connection
    def good_bytes(self, rnd):
        k = self.key
        if self.ctr:
            return rnd.choice([vh.c_acquire(k, 1, 1000), vh.c_release(k, 1), vh.c_get(k)])
        v = rnd.randbytes(rnd.choice([1, 10, 3000]))
        return rnd.choice([vh.text_store(b"set", k, v), vh.text_store(b"append", k, v), b"delete %s\r\n" % k,
                           b"flush_all\r\n", b"incr %s 1\r\n" % k, b"touch %s 1\r\n" % k,
                           vh.breq("Set", k, v, vh.sx()), vh.breq("SetQ", k, v, vh.sx()),
                           vh.breq("Delete", k), vh.breq("AppendQ", k, v), vh.breq("Flush"),
                           vh.breq("Increment", k, b"", vh.ix(1))])

    def part_(self, rnd):
        b = self.good_bytes(rnd)
        n = rnd.choice([1, 2, len(b) - 1, len(b) - 1, len(b) - 2, rnd.randrange(1, len(b))])
        self.log[-1] += " %r" % b[:n][:60]
        self.c.send(b[:n])
        if rnd.random() < 0.3:
            time.sleep(0.002)
        if rnd.random() < 0.5:
            self.c.reset()
        else:
            self.c.close()
        self.c = self.conn()

    def huge(self, rnd):
        if self.ctr:
            h = struct.pack(">BBBBII", 0x90, rnd.choice([0, 1, 2, 3]), 0, 0,
                            rnd.choice([MAXREQ + (2 << 20), 2**31, 2**32 - 1]), 5)
        else:
            k = self.key
            h = rnd.choice([b"", b"get ", b"\x01\x02", b"set %s 0 0 4294967295\r\n" % k,
                            b"set %s 0 0 %d\r\n" % (k, MAXREQ + (2 << 20)),
                            struct.pack(">BBHBBHIIQ", 0x80, rnd.choice([0, 1, 0xa, 0x99]), len(k), 8, 0, 0,
                                        rnd.choice([MAXREQ + (2 << 20), 2**31, 2**32 - 1]), 5, 0) + b"\0" * 8 + k])
        self.log[-1] += " %r" % h[:60]
        c = self.c
        d = self.d
        limit = MAXREQ + (1 << 20)
        rm = d.get("recv_max")
        d.set("recv_max", 0)
        blob = b"z" * (256 << 10)
        end = None
        try:
            c.send(h)
            done = len(h)
            while done < limit:
                c.send(blob)
                done += len(blob)
                if rnd.random() < 0.02 and d.admin.cmd(b"version")[:8] != b"VERSION ":
                    self.fail("another connection got a wrong reply")
            c.s.settimeout(5)
            x = c.s.recv(100)
            end = "closed" if not x else "reply"
        except socket.timeout:
            self.fail("an unfinished request of more than %d bytes was neither refused nor was the connection closed" % limit)
        except (ConnectionError, BrokenPipeError):
            end = "closed"
        finally:
            d.set("recv_max", rm)
        c.close()
        self.c = self.conn()

    # ---- requests that succeed
    def good(self, g, rnd):
        k = self.key
        c = self.c
        if self.ctr:
            if g == "acq":
                r = c.acquire(k, 1, 2)
            else:
                r = c.release(k, 1)
            if (r[0] if g == "acq" else r) != "OK":
                self.fail("%s was answered with %r" % (g, r))
            return
        want = {"str": b"STORED", "num": b"STORED", "del": b"DELETED"}.get(g, b"OK")
        # (after a connection has ended its locks are released in a moment)
        t = time.time()
        while True:
            if g in ("str", "num"):
                self.val = rnd.choice([b"abc", b"x" * 300, b"\r\n"]) if g == "str" else b"%d" % rnd.randrange(10**6)
                self.flags = rnd.randrange(1 << 32)
                r = c.store(b"set", k, self.val, self.flags)
            elif g == "del":
                r = vh.Text.cmd(c, b"delete " + k)
            elif g in ("lock", "unlock"):
                r = vh.Text.cmd(c, b"%s %s" % (g.encode(), k))
            else:
                r = vh.Text.cmd(self.other, b"%s %s" % (g[:-1].encode(), k))
            if r == b"LOCKED" and time.time() - t < 20:
                self.d.tick(0)
                continue
            break
        if r != want:
            self.fail("%s was answered with %r" % (g, r))

    def verify(self, now, rnd, t):
        d = self.d
        if self.ctr:
            want = int(now["v"][1])
            start = time.time()
            while True:
                r = self.other.get(self.key)
                got = 0 if r[0] == "NotFound" else r[1]
                if got == want or t not in ("part", "huge") or time.time() - start > 20:
                    break
                d.tick(0)
            if got != want or got is None:
                self.fail("%r resources are in use instead of %d" % (r, want))
            return
        a = d.admin
        # order of the listing is open
        x = a.gets(self.by, self.key)
        if isinstance(x, bytes):
            self.fail("gets was answered with %r" % x)
        want = [(self.by, 77, b"11")]
        if now["v"] != "none":
            want.append((self.key, self.flags, self.val))
        if [y[:3] for y in x] != want:
            self.fail("the objects are %r instead of %r" % ([(y[0][:20], y[1], y[2][:30]) for y in x],
                                                            [(y[0][:20], y[1], y[2][:30]) for y in want]))
        if x[0][3] != self.bycas:
            self.fail("an object that was not concerned has another CAS value")
        if now["v"] == "none":
            self.cas = None
        elif t == "good":
            self.cas = x[1][3]
        elif x[1][3] != self.cas:
            self.fail("the CAS value has changed")
        if rnd.random() < 0.2:
            ks = sorted(a.keys())
            if ks != sorted(y[0] for y in want):
                self.fail("the keys are %r" % [z[:30] for z in ks])
            if now["v"] != "none" and now["l"] == 2:
                self.c.send(b"delete %s\r\n" % self.key)
                l = self.c.line()
                if l != b"LOCKED\r\n":
                    self.fail("the lock of another connection is gone: %r" % l)
