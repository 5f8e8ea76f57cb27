"""Performs Stream.tla: one connection whose stream is cut anywhere."""
import struct
import time

import cachedrv
import vh
from model import Mismatch


class Req:
    __slots__ = ("kind", "data", "left", "val", "flags", "opaque", "op")


class StreamDriver:
    def __init__(self, slow=False, counter=False, **dkw):
        self.slow = slow
        self.counter = counter
        dkw.setdefault("workers", 3)
        self.d = vh.Daemon(counter=counter, buckets=50, max_data_size="10M", **dkw)
        self.c = None
        self.cut = None
        self.due = []
        self.async_ = 0
        self.log = []
        self.nkey = 0

    def stop(self):
        if self.c:
            self.c.close()
        self.d.kill()

    def reset(self, rnd):
        if self.c:
            if not self.cut and self.due:
                self.do(dict(f="none", w=["cNoop" if self.counter else "Noop"], t=[]),
                        [([["ok", 0, 0]], None)], rnd)
            self.c.close()
        self.log = []
        d = self.d
        if self.nkey:
            d.admin.cmd(b"delete " + self.key)
        d.set("seed", rnd.randrange(1, 1 << 30))
        d.set("recv_max", rnd.choice([0, 0, 0, 1, 7, 40, 3000]))
        d.set("short_write", rnd.choice([0, 0, 0, 300]))
        d.set("eintr", rnd.choice([0, 0, 100]))
        d.set("perturb", rnd.choice([0, 0, 100]))
        d.set("perturb_us", 300)
        self.small = d.get("recv_max") in (1, 7, 40)
        self.c = vh.Ctr(d) if self.counter else cachedrv.Mixed(d)
        self.nkey += 1
        self.key = b"s%d" % self.nkey
        self.key += b"k" * rnd.choice([0, 0, 5, 100, 250 - len(self.key)])
        self.vals = {}
        self.cut = None            # the request of which a part has been sent
        self.due = []              # requests whose replies have not been read
        self.async_ = 0

    def do(self, op, outs, rnd):
        try:
            return self._do(op, outs, rnd)
        except vh.DaemonDied as e:
            raise Mismatch("the daemon died at %s: %s" % (self.log[-2:], e), self.log)
        except (EOFError, OSError) as e:
            if self.d.p.poll() is not None:
                raise Mismatch("the daemon died at %s" % self.log[-2:], self.log)
            raise Mismatch("connection lost at %s: %r" % (self.log[-2:], e), self.log)
        except vh.Stuck as e:
            raise Mismatch("%s at %s" % (e, self.log[-2:]), self.log)
        except Mismatch as e:
            e.trace = self.log
            raise

    # ---- requests
    def value(self, rnd):
        p = rnd.random()
        n = rnd.choice([0, 1, 2, 5, 24, 200])
        if not self.small:
            if p < 0.004:
                n = rnd.choice([2 << 20, (2 << 20) - 60, 3 << 20, 6 << 20]) + rnd.randrange(100)
            elif p < 0.05:
                n = rnd.randrange(70000)
        if n < 300 and rnd.random() < 0.3:
            # data that look like requests
            v = b"\r\n\x80get a\r\n" * (n // 10 + 1)
            return v[:n]
        return rnd.randbytes(n)

    def request(self, kind, rnd):
        q = Req()
        q.kind = kind
        q.flags = rnd.randrange(1 << 32)
        q.opaque = rnd.randrange(1 << 32)
        k = self.key
        q.val = b""
        if kind[0] == "c":
            q.op = kind[1:]
            name = k
            if q.op == "Acq":
                q.data = vh.c_acquire(name, 1, 2, q.opaque)
            elif q.op == "Rel":
                q.data = vh.c_release(name, 1, q.opaque)
            elif q.op == "Get":
                q.data = vh.c_get(name, q.opaque)
            elif q.op == "Noop":
                q.data = vh.creq("Noop", b"", q.opaque)
            else:
                q.data = rnd.choice([vh.creq(0x77, b"abc", q.opaque), vh.creq("Get", b"", q.opaque),
                                     vh.creq("Acquire", b"\0" * 9, q.opaque)])
            return q
        if kind[0].islower():
            verb, n = (kind[:-1], True) if kind in ("setn", "addn", "appn", "deln") else (kind, False)
            nr = b" noreply" if n else b""
            if verb in ("set", "add"):
                q.val = self.value(rnd)
                q.data = vh.text_store(verb.encode(), k, q.val, q.flags, 0, noreply=n)
            elif verb == "app":
                q.val = rnd.randbytes(rnd.randrange(30))
                q.op = rnd.choice(["append", "prepend"])
                q.data = vh.text_store(q.op.encode(), k, q.val, q.flags, 0, noreply=n)
            elif verb == "get":
                q.op = rnd.choice(["get", "gets"])
                q.data = q.op.encode() + b" " * rnd.choice([1, 1, 2]) + k + b"\r\n"
            elif verb == "del":
                q.data = b"delete " + k + nr + b"\r\n"
            elif verb == "ver":
                q.data = b"version\r\n"
            else:
                q.data = rnd.choice([b"foo\r\n", b"get\r\n", b"\n", b"set %s 0 0 3\r\nabcde" % k,
                                     b"set %s 0 x 3\r\n" % k, b"delete\r\n", b"x" * 5000 + b"\r\n"])
            return q
        q.op = kind
        if kind in ("Set", "SetQ", "Add", "AddQ"):
            q.val = self.value(rnd) or b"x"
            q.data = vh.breq(kind, k, q.val, vh.sx(q.flags, 0), opaque=q.opaque)
        elif kind in ("App", "AppQ"):
            q.val = rnd.randbytes(rnd.randrange(1, 30))
            q.op = rnd.choice(["Append", "Prepend"]) + kind[3:]
            q.data = vh.breq(q.op, k, q.val, opaque=q.opaque)
        elif kind in ("Get", "GetQ", "GetK", "GetKQ"):
            q.data = vh.breq(kind, k, opaque=q.opaque)
        elif kind in ("Del", "DelQ"):
            q.op = "Delete" + kind[3:]
            q.data = vh.breq(q.op, k, opaque=q.opaque)
        elif kind == "Noop":
            q.data = vh.breq(kind, opaque=q.opaque)
        else:
            q.op, q.data = rnd.choice([(0x99, vh.breq(0x99, k, b"abc", opaque=q.opaque)),
                                       ("Set", vh.breq("Set", k, b"abc", opaque=q.opaque)),
                                       ("Get", vh.breq("Get", opaque=q.opaque))])
        return q

    def part(self, q, frm, to, rnd):
        """Some bytes so that pieces frm..to of 3 have been sent."""
        n = len(q.left)
        if to == 3:
            b, q.left = q.left, b""
            return b
        # leave at least one byte for each piece that remains
        lo, hi = to - frm, n - (3 - to)
        done = len(q.data) - n
        nice = [x - done for x in (1, 2, 8, 23, 24, 25, 32, len(q.data) - 1, len(q.data) - 2, len(q.data) - 3,
                                   q.data.find(b"\n"), q.data.find(b"\n") + 1)]
        nice = [x for x in nice if lo <= x <= hi]
        m = rnd.choice(nice) if nice and rnd.random() < 0.6 else rnd.randint(lo, hi)
        b, q.left = q.left[:m], q.left[m:]
        return b

    def begin(self, kind, rnd):
        while True:
            q = self.request(kind, rnd)
            if len(q.data) >= 4:
                break
        q.left = q.data
        return q

    def _do(self, op, outs, rnd):
        self.log.append("%s %s %s" % (op["f"], list(op["w"]), list(op["t"])))
        (res, _), = [(o[0], o[1]) for o in outs]
        out = b""
        done = []
        if op["f"] == "more":
            q, n = self.cut
            out += self.part(q, n, n + 1, rnd)
            self.cut = (q, n + 1)
        else:
            if op["f"] == "rest":
                q, n = self.cut
                out += self.part(q, n, 3, rnd)
                done.append(q)
                self.cut = None
            for k in op["w"]:
                q = self.request(k, rnd)
                out += q.data
                done.append(q)
            if op["t"]:
                k, n = op["t"]
                q = self.begin(k, rnd)
                out += self.part(q, 0, n, rnd)
                self.cut = (q, n)
        if len(res) != len(done):
            raise vh.CheckError("%r %r" % (res, done))
        if len(out) > 100000:
            # read what is due: neither side may block for ever
            self.collect(False)
        self.due += list(zip(done, res))
        if self.async_:
            self.async_ -= 1
        elif rnd.random() < 0.3:
            self.async_ = rnd.randrange(1, 6)
        sync = self.async_ == 0
        if sync:
            before = self.d.get("drained")
        self.c.send(out)
        big = sum(len(q.val) for q, _ in self.due) > 200000
        if sync or big:
            self.collect(True)
            if sync and self.cut:
                t = time.time()
                while self.d.get("drained") == before and time.time() - t < 0.02:
                    time.sleep(0.00005)
        return 0

    # ---- replies
    def collect(self, surplus):
        due, self.due = self.due, []
        # (what a quiet request sends is held back by the kernel until
        # another reply follows, or for 200 ms)
        while due and (due[-1][1][0] == "" or due[-1][0].kind.endswith("Q")):
            self.due.insert(0, due.pop())
        for q, (tag, old, new) in due:
            self.reply(q, tag, old, new)
        if surplus and self.c.buf and not self.due:
            raise Mismatch("%r was sent that answers nothing, after %s" % (self.c.buf[:60], self.log[-2:]), None)

    def reply(self, q, tag, old, new):
        want = None
        if q.kind[0] != "c" and new != old and new != 0:
            if q.kind[:3].lower() == "app":
                v, f = self.vals[old]
                v = v + q.val if "ppend" in q.op else q.val + v
                self.vals[new] = (v, f)
            else:
                self.vals[new] = (q.val, q.flags)
        if tag == "":
            return
        if q.kind[0] == "c":
            return self.creply(q, tag, new)
        if q.kind[0].isupper():
            return self.breply(q, tag, new)
        if tag == "value":
            v, f = self.vals[new]
            x = self.c.values()
            if isinstance(x, bytes) or [y[:3] for y in x] != [(self.key, f, v)]:
                self.bad(q, tag, x if isinstance(x, bytes) else [(y[0], y[1], y[2][:30]) for y in x])
            return
        l = self.c.line()
        want = dict(stored=[b"STORED\r\n"], appended=[b"STORED\r\n"], deleted=[b"DELETED\r\n"],
                    miss=[b"END\r\n"] if q.kind == "get" else [b"NOT_FOUND\r\n"])
        want["not"] = [b"NOT_STORED\r\n"]
        if tag == "error":
            ok = l.startswith((b"ERROR", b"CLIENT_ERROR", b"SERVER_ERROR"))
        elif tag == "ok":
            ok = l.startswith(b"VERSION ")
        else:
            ok = l in want[tag]
        if not ok:
            self.bad(q, tag, l)

    def bad(self, q, tag, got):
        raise Mismatch("%s (opaque %#x) was answered with %r instead of '%s', after %s" % (
            q.kind, q.opaque, got, tag, self.log[-3:]), None)

    def breply(self, q, tag, new):
        r = self.c.resp()
        opn = vh.OP.get(q.op, q.op)
        want = dict(stored=0, appended=0, deleted=0, value=0, ok=0, miss=1)
        if (r.op != opn and tag != "error") or r.opaque != q.opaque:
            self.bad(q, tag, r)
        if tag in want:
            ok = r.status == want[tag]
        else:
            ok = r.status != 0
        if tag == "value":
            v, f = self.vals[new]
            ok = ok and r.val == v and r.extras == struct.pack(">I", f)
            ok = ok and r.key == (self.key if "K" in q.kind else b"")
        elif tag in ("stored", "appended", "deleted", "ok"):
            ok = ok and not r.val
        if not ok:
            self.bad(q, tag, r)

    def creply(self, q, tag, new):
        op, st, opq, body = self.c.resp()
        opn = dict(Acq=2, Rel=3, Get=1, Noop=0).get(q.op)
        ok = opq == q.opaque and (opn is None or op == opn)
        if tag == "ok":
            ok = ok and st == 0
        elif tag == "count":
            ok = ok and (st == 0 and struct.unpack(">I", body)[0] == new or st == 1 and new == 0)
        else:
            ok = ok and st != 0
        if not ok:
            self.bad(q, tag, (op, st, hex(opq), body))
