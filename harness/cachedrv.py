"""Performs the commands of Cache.tla on a running yrmcdsd, over its text and
binary protocols, and says which of the outcomes the specification allows was
observed."""
import struct
import time

import vh
from model import Mismatch

NEVER = 99
TOP = 1000
TXT = 5000


class Mixed(vh.Bin, vh.Text):
    """A connection that speaks both protocols."""
    sent_close = False


def num(n):
    """Numbers close to Top stand for numbers close to 2^64."""
    return n if n < 900 else 2 ** 64 - TOP + n


NOREPLY = {"set", "add", "replace", "append", "prepend", "cas", "incr", "decr",
           "touch", "delete", "flush_all"}
QUIET = {"Set", "Add", "Replace", "Append", "Prepend", "Increment", "Decrement",
         "Delete", "Get", "GaT", "LaG", "Lock", "Unlock", "RaU", "UnlockAll",
         "Flush", "Quit"}
SHOWS_CAS = {"Set", "Add", "Replace", "Append", "Prepend", "Increment",
             "Decrement", "Touch", "RaU", "Get", "GaT", "LaG", "gets"}


class CacheDriver:
    def __init__(self, quiet=0.25, unit=100, gc_on_tick=False, clocked=False,
                 chunk=None, atoms=None, longkeys=0.1, slow=False, extra_keys=0.2,
                 resets=True, bigval=0.0, kill_rst=0.3, close_wait=2.0, **dkw):
        self.quiet = quiet
        self.unit = unit
        self.gc_on_tick = gc_on_tick
        self.clocked = clocked
        self.chunk = chunk
        self.atoms = atoms
        self.longkeys = longkeys
        self.slow = slow
        self.extra_keys = extra_keys
        self.bigval = bigval
        self.kill_rst = kill_rst
        self.close_wait = close_wait
        dkw.setdefault("gc_interval", 10 if gc_on_tick else 100000000)
        self.dkw = dkw
        self.d = vh.Daemon(**dkw)
        self.conns = {}
        self.walk = 0
        self.log = []
        self.serial = 0

    # ---- life cycle
    def stop(self):
        for c in self.conns.values():
            c.close()
        self.conns = {}
        self.d.kill()

    def conn(self, c):
        x = self.conns.get(c)
        if x is None:
            x = self.conns[c] = Mixed(self.d)
        return x

    def reset(self, rnd):
        self.walk += 1
        self.log = []
        # the connections must not hold locks of the last walk
        for c in list(self.conns):
            x = self.conns[c]
            x.send(b"unlock_all\r\n")
            if x.line() != b"OK\r\n":
                raise Mismatch("unlock_all did not answer OK", None)
        if self.clocked:
            # an empty cache with no flush pending
            a = self.d.admin
            if a.cmd(b"flush_all") != b"OK":
                raise Mismatch("flush_all did not answer OK", None)
            self.tick(1, gc=True)
        self.pending = None
        self.held = {}
        self.keys = {}
        self.atom = {}
        self.flag = {0: 0}
        self.cur = {}
        self.past = {}
        self.tok = {}
        self.rnd = rnd

    # ---- concrete values
    def key(self, k):
        r = self.keys.get(k)
        if r is None:
            self.serial += 1
            r = b"%s%d.%d" % (k.encode(), self.walk, self.serial)
            if self.rnd.random() < self.longkeys:
                r += b"_" * (250 - len(r))
            self.keys[k] = r
        return r

    def value(self, v):
        out = []
        for a in v:
            if a < TXT:
                out.append(b"%d" % num(a))
                continue
            r = self.atom.get(a)
            if r is None:
                if self.chunk:
                    r = self.rnd.randbytes(self.chunk)
                elif self.atoms:
                    r = self.rnd.choice(self.atoms)
                else:
                    r = self.rnd.choice([b"x", b"abc", b"z-", b"Q" * 37, b"x" * 700])
                    if self.rnd.random() < self.bigval:
                        r = b"w" * 20000
                if r in self.atom.values():
                    r += b"%c" % (97 + a % 26)
                self.atom[a] = r
            out.append(r)
        return b"".join(out)

    def flags(self, f):
        r = self.flag.get(f)
        if r is None:
            while True:
                r = self.rnd.choice([1, 9, 255, 65536, 0x80000000, 0xffffffff, 0x01020304])
                if r not in self.flag.values():
                    break
            self.flag[f] = r
        return r

    def exptime(self, e, rnd):
        now = self.d.now
        if e == NEVER:
            return 0
        if e == 0:
            return rnd.choice([now, now - 1, now - 5000, 2592001, 3000000])
        t = self.unit * e
        if t <= 2592000 and rnd.random() < 0.6:
            return t
        return now + t

    def casnum(self, op, rnd):
        if op["t"] == "no":
            return 0
        n = self.tok.get((op["c"], op["k"]))
        if op["t"] == "old" and rnd.random() < 0.15:
            return rnd.randrange(2 ** 62, 2 ** 63)
        return n

    # ---- the clock
    def tick(self, units, gc):
        d = self.d
        if gc:
            n = int(d.stats()["gc_count"])
        d.tick(units * self.unit)
        if gc:
            t = time.time()
            while int(d.stats()["gc_count"]) == n:
                if time.time() - t > 15:
                    raise Mismatch("the garbage collector does not run", None)
                d.tick(0)
            d.tick(0)      # the handler notices that it has ended
        if self.slow:
            time.sleep(0.3)

    def close_sync(self, before, c):
        """Wait until the daemon has noticed that a client is gone and its
        locks are free."""
        t = time.time()
        while int(self.d.stats()["curr_connections"]) >= before:
            if time.time() - t > self.close_wait:
                break
            time.sleep(0.0002)
        for k in [k for k, h in self.held.items() if h == c]:
            del self.held[k]
            t = time.time()
            while True:
                # what remains is done when the daemon next collects closed
                # sockets
                self.d.tick(0)
                r = self.d.admin.cmd(b"lock " + self.key(k))
                if r == b"OK":
                    r = self.d.admin.cmd(b"unlock " + self.key(k))
                    if r != b"OK":
                        raise Mismatch("unlock after lock answered %r" % r, None)
                    break
                if r != b"LOCKED":
                    break
                if time.time() - t > 12:
                    raise Mismatch("the lock of %r is still held long after its connection has ended"
                                   % self.key(k), None)

    def follow(self, op, r):
        """Remember who holds which lock."""
        n, k, c = op["n"], op["k"], op["c"]
        if n in ("lock", "Lock", "LaG"):
            if r[0] in ("OK", "VAL"):
                self.held[k] = c
        elif n in ("unlock", "Unlock", "RaU", "delete", "Delete"):
            if r[0] in ("OK", "DELETED"):
                self.held.pop(k, None)
        elif n in ("unlock_all", "UnlockAll"):
            for k in [k for k, h in self.held.items() if h == c]:
                del self.held[k]

    # ---- commands
    def do(self, op, outs, rnd):
        try:
            return self._do(op, outs, rnd)
        except vh.DaemonDied as e:
            raise Mismatch("the daemon died at %s: %s" % (self.log[-1:], e), self.log)
        except (EOFError, OSError) as e:
            dead = ""
            time.sleep(0.05)
            if not self.d.alive():
                dead = " (the daemon has exited with %s)\n%s" % (self.d.p.returncode, self.d.stderr())
            raise Mismatch("connection lost at %s: %r%s" % (self.log[-1:], e, dead), self.log)
        except vh.Stuck as e:
            raise Mismatch("%s at %s" % (e, self.log[-1:]), self.log)
        except Mismatch as e:
            e.trace = self.log
            raise

    def pick(self, obs, outs, quiet, op):
        for i, o in enumerate(outs):
            if self.same(obs, o[1] if quiet else o[0]):
                return i
        raise Mismatch("%s answered %s; the specification allows %s" % (
            self.log[-1], show(obs), [show(self.conc(o[1] if quiet else o[0])) for o in outs]), None)

    def conc(self, r):
        if r[0] == "VAL":
            return ["VAL", self.value(r[1]), self.flags(r[2])]
        if r[0] == "NUM":
            return ["NUM", num(r[1])]
        return r

    def same(self, obs, r):
        return list(obs) == list(self.conc(r))

    def see(self, op, n):
        """The daemon has shown n as the CAS value of the present object."""
        k = op["k"]
        if n == 0:
            raise Mismatch("%s: CAS value zero" % self.log[-1], None)
        c = self.cur.get(k)
        if c is None:
            if n in self.past.setdefault(k, set()):
                raise Mismatch("%s: the CAS value %d was used before for other contents of %r" % (
                    self.log[-1], n, self.key(k)), None)
            self.cur[k] = n
        elif c != n:
            raise Mismatch("%s: the CAS value changed from %d to %d although the object did not" % (
                self.log[-1], c, n), None)

    def changed(self, k):
        c = self.cur.get(k)
        if c is not None:
            self.past.setdefault(k, set()).add(c)
            self.cur[k] = None

    def _do(self, op, outs, rnd):
        n = op["n"]
        if op["p"] == "e":
            return self.env(op, outs, rnd)
        quiet = rnd.random() < self.quiet and n in (NOREPLY if op["p"] == "t" else QUIET)
        x = self.conn(op["c"])
        before = None
        if n in ("quit", "Quit"):
            before = int(self.d.stats()["curr_connections"])
        if op["p"] == "t":
            msg = self.text(op, quiet, rnd)
        else:
            msg = self.binary(op, quiet, rnd)
        self.log.append("%s: %s" % (op["c"], brief(msg, op)))
        if n in ("quit", "Quit"):
            x.send(msg)
            obs = ("closed",)
            if n == "Quit" and not quiet:
                r = x.resp()
                obs = (vh.ST.get(r.status, r.status),)
            if not x.at_eof(10):
                raise Mismatch("%s: the connection was not closed" % self.log[-1], None)
            x.close()
            del self.conns[op["c"]]
            self.close_sync(before, op["c"])
            self.tok = {t: v for t, v in self.tok.items() if t[0] != op["c"]}
            if obs[0] not in ("closed", "OK"):
                raise Mismatch("%s answered %s" % (self.log[-1], obs), None)
            return 0
        cas = None
        if op["p"] == "t":
            if quiet:
                x.send(msg + b"version\r\n")
                l = x.line()
                if l.startswith(b"VERSION "):
                    obs = ("-",)
                else:
                    obs, cas = self.text_reply(op, x, l)
                    l = x.line()
                    if not l.startswith(b"VERSION "):
                        raise Mismatch("%s: extra reply %r" % (self.log[-1], l), None)
            else:
                x.send(msg)
                obs, cas = self.text_reply(op, x, x.line())
        else:
            if quiet:
                x.send(msg + vh.breq("Noop", opaque=77))
                r = x.resp()
                if r.op == vh.OP["Noop"]:
                    obs = ("-",)
                else:
                    obs, cas = self.bin_reply(op, r)
                    r = x.resp()
                if r.op != vh.OP["Noop"] or r.opaque != 77 or r.status != 0:
                    raise Mismatch("%s: extra reply %r" % (self.log[-1], r), None)
            else:
                x.send(msg)
                obs, cas = self.bin_reply(op, x.resp())
        i = self.pick(obs, outs, quiet, op)
        _, _, uk, upd, _ = outs[i]
        self.follow(op, outs[i][0])
        if upd:
            self.changed(uk)
        if cas is not None and n in SHOWS_CAS and obs[0] in ("OK", "VAL", "NUM"):
            self.see(op, cas)
        if obs[0] == "VAL" and n in ("gets", "Get", "GaT", "LaG"):
            self.tok[(op["c"], op["k"])] = cas
        return i

    def env(self, op, outs, rnd):
        if op["n"] == "tick":
            self.log.append("clock + %d s" % self.unit)
            # a flush that takes effect makes the collector run
            due = self.flush_due(outs)
            self.tick(1, self.gc_on_tick or due)
            if due:
                self.pending = None
            return 0
        c = op["c"]
        x = self.conns.pop(c, None)
        self.tok = {t: v for t, v in self.tok.items() if t[0] != c}
        if x is None:
            return 0
        before = int(self.d.stats()["curr_connections"])
        if rnd.random() < self.kill_rst:
            self.log.append("%s: reset" % c)
            x.reset()
        else:
            self.log.append("%s: close" % c)
            x.close()
        self.close_sync(before, c)
        return 0

    def flush_due(self, outs):
        if self.pending is None:
            return False
        return self.pending <= self.d.now + self.unit

    pending = None

    def text(self, op, quiet, rnd):
        n = op["n"]
        k = self.key(op["k"])
        nr = b" noreply" if quiet else b""
        if n in ("set", "add", "replace", "cas", "append", "prepend"):
            v = self.value(op["v"])
            f = self.flags(op["f"])
            e = self.exptime(op["e"], rnd)
            if n in ("append", "prepend"):
                f, e = rnd.randrange(2 ** 32), 0    # ignored
            l = b"%s %s %d %d %d" % (n.encode(), k, f, e, len(v))
            if n == "cas":
                l += b" %d" % self.casnum(op, rnd)
            return l + nr + b"\r\n" + v + b"\r\n"
        if n in ("incr", "decr"):
            return b"%s %s %d%s\r\n" % (n.encode(), k, num(op["d"]), nr)
        if n == "touch":
            return b"touch %s %d%s\r\n" % (k, self.exptime(op["e"], rnd), nr)
        if n in ("get", "gets"):
            if rnd.random() < self.extra_keys:
                return n.encode() + b" " + (b"nokey " + k if rnd.random() < 0.5 else k + b" nokey") + b"\r\n"
            return b"%s %s\r\n" % (n.encode(), k)
        if n == "delete":
            return b"delete %s%s\r\n" % (k, nr)
        if n in ("lock", "unlock"):
            return b"%s %s\r\n" % (n.encode(), k)
        if n == "flush_all":
            return b"flush_all%s%s\r\n" % (self.flushtime(op["e"], rnd, True), nr)
        return n.encode() + b"\r\n"

    def flushtime(self, e, rnd, text):
        """The time argument of a flush: text, or binary extras."""
        now = self.d.now
        self.pending = now + self.unit * e
        if e == 0:
            t = rnd.choice([None, 0, now, now - 7])
        elif self.unit * e <= 2592000 and rnd.random() < 0.5:
            t = self.unit * e
        else:
            t = now + self.unit * e
        if text:
            return b"" if t is None else b" %d" % t
        return b"" if t is None else vh.px(t)

    def text_reply(self, op, x, l):
        n = op["n"]
        if n in ("get", "gets"):
            if l == b"END\r\n":
                return ("END",), None
            x.buf = l + x.buf
            vs = x.values()
            if isinstance(vs, bytes):
                return (vs.rstrip(b"\r\n"),), None
            if len(vs) != 1:
                return ("%d values" % len(vs),), None
            k, f, v, cas = vs[0]
            if k != self.key(op["k"]):
                return ("VALUE of the key %r" % k,), None
            if (cas is not None) != (n == "gets"):
                return ("VALUE with cas %s" % cas,), None
            return ("VAL", v, f), cas
        s = l.rstrip(b"\r\n")
        if not l.endswith(b"\r\n"):
            return (repr(l),), None
        if s.startswith(b"CLIENT_ERROR object is not locked"):
            return ("NOT_LOCKED",), None
        if s.startswith(b"CLIENT_ERROR cannot increment or decrement"):
            return ("NON_NUMERIC",), None
        if s.isdigit():
            return ("NUM", int(s)), None
        return (s.decode("latin1"),), None

    def binary(self, op, quiet, rnd):
        n = op["n"]
        k = self.key(op["k"])
        opq = self.opaque = rnd.randrange(2 ** 32)
        q = "Q" if quiet else ""
        cas = self.casnum(op, rnd)
        if n in ("Set", "Add", "Replace", "RaU"):
            return vh.breq(n + q, k, self.value(op["v"]),
                           vh.sx(self.flags(op["f"]), self.exptime(op["e"], rnd)), cas, opq)
        if n in ("Append", "Prepend"):
            return vh.breq(n + q, k, self.value(op["v"]), b"", cas, opq)
        if n in ("Increment", "Decrement"):
            if op["i"] == NEVER:
                ex = vh.ix(num(op["d"]), rnd.randrange(2 ** 64), 0xffffffff)
            else:
                ex = vh.ix(num(op["d"]), num(op["i"]), self.exptime(op["e"], rnd))
            return vh.breq(n + q, k, b"", ex, cas, opq)
        if n == "Touch":
            return vh.breq(n, k, b"", vh.px(self.exptime(op["e"], rnd)), cas, opq)
        if n in ("Get", "GaT", "LaG"):
            self.kform = rnd.random() < 0.3
            ex = b"" if op["i"] == 1 else vh.px(self.exptime(op["e"], rnd))
            return vh.breq(n + ("K" if self.kform else "") + q, k, b"", ex, 0, opq)
        if n == "Delete":
            return vh.breq(n + q, k, b"", b"", cas, opq)
        if n in ("Lock", "Unlock"):
            return vh.breq(n + q, k, b"", b"", 0, opq)
        if n == "Flush":
            return vh.breq(n + q, b"", b"", self.flushtime(op["e"], rnd, False), 0, opq)
        return vh.breq(n + q, b"", b"", b"", 0, opq)

    def bin_reply(self, op, r):
        n = op["n"]
        name = vh.OPN.get(r.op, "?")
        if not (name == n or name == n + "Q" or
                (n in ("Get", "GaT", "LaG") and name in (n + "K", n + "KQ"))):
            return ("reply of %s" % name,), None
        if r.opaque != self.opaque:
            return ("reply with opaque %x instead of %x" % (r.opaque, self.opaque),), None
        st = vh.ST.get(r.status, r.status)
        if st != "OK":
            if r.extras or r.key:
                return ("error reply with extras or key",), None
            return (st,), None
        if n in ("Get", "GaT", "LaG"):
            want = self.key(op["k"]) if self.kform else b""
            if r.key != want:
                return ("reply with the key %r" % r.key,), None
            if len(r.extras) != 4:
                return ("reply with %d bytes of extras" % len(r.extras),), None
            return ("VAL", r.val, struct.unpack(">I", r.extras)[0]), r.cas
        if r.extras or r.key:
            return ("reply with extras or key",), None
        if n in ("Increment", "Decrement"):
            if len(r.val) != 8:
                return ("reply with %d bytes" % len(r.val),), None
            return ("NUM", struct.unpack(">Q", r.val)[0]), r.cas
        if r.val:
            return ("reply with data %r" % r.val[:40],), None
        return ("OK",), r.cas


def brief(msg, op):
    if op["p"] == "b":
        return "%s key=%s value=%s flags=%s exp=%s cas=%s" % (
            vh.OPN.get(msg[1], msg[1]), op["k"], op["v"], op["f"], op["e"], op["t"]) + \
            " " + msg[:80].hex()
    return repr(msg[:120])


def show(r):
    return "/".join(repr(x[:60]) if isinstance(x, bytes) else str(x) for x in r)
