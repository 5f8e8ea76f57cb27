"""Performs the commands of Counter.tla on the counter port of a running
yrmcdsd."""
import struct
import time

import vh
from model import Mismatch

PERIOD = 1000


class CounterDriver:
    def __init__(self, limit=15, steps=2, slow=False, scales=(1, 0x11111111), **dkw):
        self.limit = limit
        self.steps = steps
        self.scales = scales
        self.slow = slow
        dkw.setdefault("workers", 3)
        self.d = vh.Daemon(counter=True, stats_interval=PERIOD, gc_interval=100000000, **dkw)
        # move to the start of a period
        self.conns = {}
        self.serial = 0
        self.log = []
        self.ask = vh.Ctr(self.d)
        self.held = {}
        self.keys = {}
        # the collection at start must be over, and known to be over
        for i in range(1000):
            self.d.tick(0)
            if int(self.ask.stats()["gc_count"]) >= 1:
                break
            time.sleep(0.001)
        self.d.tick(0)
        self.d.tick(0)

    def stop(self):
        for c in self.conns.values():
            c.close()
        self.d.kill()

    def reset(self, rnd):
        self.rnd = rnd
        self.log = []
        for c in list(self.conns):
            self.drop(c, "close")
        self.serial += 1
        self.keys = {}
        self.held = {}
        self.scale = rnd.choice(self.scales)
        # to the start of the next period
        self.step_clock(PERIOD - self.d.now % PERIOD, True)
        if rnd.random() < 0.5:
            left = [k for k in self.ask.dump()]
            if left:
                raise Mismatch("unused counters are still there after the end of the period: %r" % left[:3],
                               self.log)

    def step_clock(self, secs, boundary):
        n = int(self.ask.stats()["gc_count"])
        self.d.tick(secs)
        if boundary:
            t = time.time()
            while int(self.ask.stats()["gc_count"]) == n:
                if time.time() - t > 15:
                    raise Mismatch("the counters are not collected at the end of the period", self.log)
                self.d.tick(0)
            self.d.tick(0)

    def conn(self, c):
        x = self.conns.get(c)
        if x is None:
            x = self.conns[c] = vh.Ctr(self.d)
        return x

    def key(self, k):
        r = self.keys.get(k)
        if r is None:
            r = b"%s.%d" % (k.encode(), self.serial)
            p = self.rnd.random()
            if p < 0.1:
                r += b"\0 \r\n" + bytes(range(256))
            elif p < 0.13:
                r += b"n" * (65535 - len(r))
            self.keys[k] = r
        return r

    def num(self, n):
        return n * self.scale

    def sum(self, k):
        return sum(n for (c, kk), n in self.held.items() if kk == k)

    def drop(self, c, how):
        """End a connection; wait until its resources are back."""
        x = self.conns.pop(c, None)
        had = [k for (cc, k), n in self.held.items() if cc == c and n > 0]
        self.held = {ck: n for ck, n in self.held.items() if ck[0] != c}
        if x is None:
            return
        if how == "reset":
            x.reset()
        elif how == "toolong":
            try:
                x.send(struct.pack(">BBBBII", 0x90, 2, 0, 0, 0x7fffffff, 1))
                for i in range(40):
                    x.send(b"z" * (1 << 20))
                if not x.at_eof(10):
                    raise Mismatch("a request of unlimited length is not refused", self.log)
            except OSError:
                pass
            x.close()
        else:
            x.close()
        self.settled(c, had)

    def settled(self, c, had):
        t = time.time()
        for k in had:
            while True:
                r = self.ask.get(self.key(k))
                if r == ("OK", self.num(self.sum(k))):
                    break
                if time.time() - t > 12:
                    raise Mismatch("after the end of %s the consumption of %s is %s, it should be %d" % (
                        c, k, r, self.num(self.sum(k))), self.log)
                self.d.tick(0)
        if self.slow:
            time.sleep(0.1)

    def do(self, op, outs, rnd):
        try:
            return self._do(op, outs, rnd)
        except vh.DaemonDied as e:
            raise Mismatch("the daemon died at %s: %s" % (self.log[-1:], e), self.log)
        except (EOFError, OSError) as e:
            time.sleep(0.05)
            dead = "" if self.d.alive() else " (the daemon has exited with %s)\n%s" % (
                self.d.p.returncode, self.d.stderr())
            raise Mismatch("connection lost at %s: %r%s" % (self.log[-1:], e, dead), self.log)
        except vh.Stuck as e:
            raise Mismatch("%s at %s" % (e, self.log[-1:]), self.log)
        except Mismatch as e:
            e.trace = self.log
            raise

    def reply(self, x, opcode, opq):
        op, st, o, b = x.resp()
        if op != opcode or o != opq:
            raise Mismatch("%s: reply for command %d opaque %x instead of %d, %x" % (
                self.log[-1], op, o, opcode, opq), None)
        return vh.CST.get(st, st), b

    def _do(self, op, outs, rnd):
        o, c, k = op["o"], op["c"], op["k"]
        self.log.append("%s: %s %s n=%s max=%s" % (c, o, k, op["n"], op["m"]))
        if o == "tick":
            step = PERIOD // self.steps
            self.step_clock(step, (self.d.now + step) % PERIOD == 0)
            return 0
        if o == "close":
            self.drop(c, rnd.choice(["close", "close", "reset"] + (["toolong"] if rnd.random() < 0.02 else [])))
            return 0
        x = self.conn(c)
        opq = rnd.randrange(2 ** 32)
        name = self.key(k)
        if o in ("Acquire", "LastAcquire"):
            m = vh.c_acquire(name, self.num(op["n"]), self.num(op["m"]), opq)
        elif o == "Release":
            m = vh.c_release(name, self.num(op["n"]), opq)
        elif o == "Get":
            m = vh.c_get(name, opq)
        else:
            m = vh.creq("Dump", b"", opq)
        if rnd.random() < 0.1 and len(m) > 20:
            cut = rnd.randrange(1, len(m))
            x.send(m[:cut])
            time.sleep(0.0005)
            x.send(m[cut:])
        else:
            x.send(m)
        if o == "Dump":
            got = {}
            while True:
                s, b = self.reply(x, 0x11, opq)
                if s != "OK":
                    raise Mismatch("dump answered %s" % s, None)
                if not b:
                    break
                cur, mx, nl = struct.unpack(">IIH", b[:10])
                if len(b) != 10 + nl:
                    raise Mismatch("malformed dump entry", None)
                if b[10:] in got:
                    raise Mismatch("dump shows %r twice" % b[10:60], None)
                got[b[10:]] = [cur, mx]
            mine = set(self.keys.values())
            for n, (cur, mx) in got.items():
                if n not in mine:
                    raise Mismatch("dump shows an unknown counter %r" % n[:60], None)
            want = {}
            for kk, v in outs[0][0][1].items():
                if v[0] >= 0:
                    want[self.key(kk)] = [self.num(v[0]), self.num(v[1])]
            if got != want:
                raise Mismatch("dump shows %s; it should show %s" % (short(got), short(want)), None)
            return 0
        s, b = self.reply(x, {"Acquire": 2, "LastAcquire": 2, "Release": 3, "Get": 1}[o], opq)
        if s == "OK" and o != "Release":
            if len(b) != 4:
                raise Mismatch("%s: body of %d bytes" % (self.log[-1], len(b)), None)
            obs = ["NUM", struct.unpack(">I", b)[0]]
        elif s == "OK" and b:
            raise Mismatch("%s: unexpected body" % self.log[-1], None)
        else:
            obs = [s]
        want = [list(w[0]) for w in outs]
        for i, w in enumerate(want):
            if w[0] == "NUM":
                w = ["NUM", self.num(w[1])]
            if obs == w:
                break
        else:
            raise Mismatch("%s answered %s; the specification allows %s (unit %d)" % (
                self.log[-1], obs, want, self.scale), None)
        if o == "Acquire" and obs[0] == "NUM":
            self.held[(c, k)] = self.held.get((c, k), 0) + op["n"]
        if o == "Release" and obs[0] == "OK":
            self.held[(c, k)] = self.held.get((c, k), 0) - op["n"]
        if o == "LastAcquire":
            # no more requests: the connection ends
            self.conns.pop(c)
            import socket
            if rnd.random() < 0.5:
                x.s.shutdown(socket.SHUT_WR)
                if not x.at_eof(10):
                    raise Mismatch("%s: the server does not close after the client has" % self.log[-1], None)
            x.close()
            had = [kk for (cc, kk), n in self.held.items() if cc == c and n > 0]
            if obs[0] == "NUM" and k not in had:
                had.append(k)
            self.held = {ck: n for ck, n in self.held.items() if ck[0] != c}
            self.settled(c, had)
        return i


def short(d):
    return {k[:20]: v for k, v in d.items()}
