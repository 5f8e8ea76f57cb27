"""Records concurrent histories of a running yrmcdsd and has TLC judge them
against CacheLin.tla."""
import json
import os
import random
import re
import selectors
import struct
import time

import model
import vh

ATOM = re.compile(rb"\[(\d+)[a-z]*\]")


def parse_value(v):
    """The atoms of a value; 9999 where it is not a sequence of atoms."""
    if v.isdigit():
        return [int(v)]
    out = []
    p = 0
    while p < len(v):
        m = ATOM.match(v, p)
        if not m:
            return [9999]
        out.append(int(m.group(1)))
        p = m.end()
    return out


class Chan:
    """One connection: issues one command at a time in either protocol."""

    def __init__(self, d, name):
        self.name = name
        self.x = vh.Bin(d, timeout=20)
        self.t = vh.Text.__new__(vh.Text)
        self.t.__dict__ = self.x.__dict__      # one stream, two readers
        self.toks = {}
        self.op = None

    def send(self, op, conc):
        self.op = op
        n, k, p = op["n"], conc["key"], op["p"]
        exp = conc.get("exp", 0)
        v = conc.get("val", b"")
        tok = self.toks.get(op["k"], 0) if op["t"] == "use" else 0
        if p == "t":
            if n in ("set", "add", "replace", "append", "prepend", "cas"):
                m = b"%s %s %d %d %d" % (n.encode(), k, op["f"], exp, len(v))
                if n == "cas":
                    m += b" %d" % tok
                m += b"\r\n" + v + b"\r\n"
            elif n in ("incr", "decr"):
                m = b"%s %s %d\r\n" % (n.encode(), k, op["d"])
            elif n == "touch":
                m = b"touch %s %d\r\n" % (k, exp)
            elif n == "unlock_all":
                m = b"unlock_all\r\n"
            else:
                m = b"%s %s\r\n" % (n.encode(), k)
        else:
            if n in ("Set", "Add", "Replace", "RaU"):
                m = vh.breq(n, k, v, vh.sx(op["f"], exp), tok)
            elif n in ("Append", "Prepend"):
                m = vh.breq(n, k, v, b"", tok)
            elif n in ("Increment", "Decrement"):
                m = vh.breq(n, k, b"", vh.ix(op["d"]), tok)
            elif n in ("Touch", "GaT"):
                m = vh.breq(n, k, b"", vh.px(exp))
            elif n == "UnlockAll":
                m = vh.breq(n)
            else:
                m = vh.breq(n, k, b"", b"", tok)
        self.x.send(m)

    def reply(self):
        op = self.op
        n = op["n"]
        if op["p"] == "t":
            l = self.x.line()
            if n in ("get", "gets"):
                if l == b"END\r\n":
                    return ["END"]
                self.x.buf = l + self.x.buf
                vs = self.t.values()
                if isinstance(vs, bytes) or len(vs) != 1:
                    return ["bad reply %r" % (vs,)]
                _, f, v, cas = vs[0]
                if n == "gets":
                    self.toks[op["k"]] = cas
                return ["VAL", parse_value(v), f]
            s = l.rstrip(b"\r\n")
            if s.startswith(b"CLIENT_ERROR object is not locked"):
                return ["NOT_LOCKED"]
            if s.startswith(b"CLIENT_ERROR cannot increment"):
                return ["NON_NUMERIC"]
            if s.isdigit():
                return ["NUM", int(s)]
            return [s.decode("latin1")]
        r = self.x.resp()
        if vh.OPN.get(r.op) != n:
            return ["reply of another command: %r" % r]
        st = vh.ST.get(r.status, str(r.status))
        if st != "OK":
            return [st]
        if n in ("Get", "LaG", "GaT"):
            self.toks[op["k"]] = r.cas
            return ["VAL", parse_value(r.val), struct.unpack(">I", r.extras)[0]]
        if n in ("Increment", "Decrement"):
            return ["NUM", struct.unpack(">Q", r.val)[0]]
        return ["OK"]


def mkop(p, n, x, k, v=(), f=0, e=99, t="no", d=0, i=0):
    return dict(p=p, n=n, c=x, k=k, v=list(v), f=f, e=e, t=t, d=d, i=i, x=x)


class Recorder:
    """mix: list of (weight, p.name); keys: abstract key names."""

    def __init__(self, d, mix, conns, keys, rnd, sizes=(0, 3, 60), exps=(99,), numeric=False,
                 unit=100, clock=0.0, big=0.0, bigsize=20000):
        self.d = d
        self.mix = mix
        self.cum = [w for w, _ in mix]
        self.names = [n for _, n in mix]
        self.conns = conns
        self.keys = keys
        self.rnd = rnd
        self.sizes = sizes
        self.exps = exps
        self.numeric = numeric
        self.unit = unit
        self.clock = clock
        self.big = big
        self.bigsize = bigsize
        self.serial = 0
        self.run = 0
        self.chans = [Chan(d, c) for c in conns]

    def close(self):
        for ch in self.chans:
            ch.x.close()

    def value(self):
        self.serial += 1
        a = 5000 + self.serial
        if self.numeric:
            n = self.rnd.randrange(0, 40)
            return [n], b"%d" % n
        pad = self.rnd.choice(self.sizes)
        if self.rnd.random() < self.big:
            pad = self.bigsize
        c = b"%c" % (97 + self.serial % 26)
        return [a], b"[%d%s]" % (a, c * pad)

    def gen(self, ch, noexp):
        rnd = self.rnd
        for _ in range(50):
            name = rnd.choices(self.names, self.cum)[0]
            p, n = name.split(".")
            k = rnd.choice(self.keys)
            e = 99
            exp = 0
            if n in ("set", "add", "replace", "cas", "touch", "Set", "Add", "Replace", "Touch", "RaU", "GaT"):
                e = rnd.choice(self.exps)
                if e != 99:
                    if noexp:
                        continue
                    exp = e * self.unit
            t = "no"
            if n == "cas" or (n in ("Set", "Replace", "Append", "Prepend", "Increment", "Decrement",
                                    "Delete", "RaU") and rnd.random() < 0.3):
                if k not in ch.toks:
                    if n == "cas":
                        continue
                else:
                    t = "use"
            v, raw = [], b""
            if n in ("set", "add", "replace", "append", "prepend", "cas", "Set", "Add", "Replace",
                     "Append", "Prepend", "RaU"):
                v, raw = self.value()
            f = rnd.choice([0, 1]) if n in ("set", "add", "replace", "cas", "Set", "Add", "Replace", "RaU") else 0
            d = rnd.randrange(1, 5) if n in ("incr", "decr", "Increment", "Decrement") else 0
            i = 1 if n in ("Get", "LaG") else 0
            if n in ("Increment", "Decrement"):
                i = 99
            op = mkop(p, n, ch.name, k, v, f, e, t, d, i)
            return op, dict(key=self.keyname[k], val=raw, exp=exp)
        return None

    def history(self, nops):
        """One history from an empty cache, over fresh keys."""
        rnd = self.rnd
        self.run += 1
        self.serial = 0
        self.keyname = {k: b"%s.%d.%d" % (k.encode(), os.getpid() % 1000, self.run) for k in self.keys}
        ev = []
        for ch in self.chans:
            ch.toks = {}
            ch.op = None
            ch.x.send(b"unlock_all\r\n")
            ch.x.line()
        sel = selectors.DefaultSelector()
        for ch in self.chans:
            sel.register(ch.x.s, selectors.EVENT_READ, ch)
        busy = {}
        issued = 0
        tick_wanted = False

        def finish(ch):
            r = ch.reply()
            e = busy.pop(ch.name)
            ev[e][2] = r
            ev.append(["r", ch.name])

        try:
            while issued < nops or busy:
                if issued < nops:
                    idle = [ch for ch in self.chans if ch.name not in busy]
                    rnd.shuffle(idle)
                    if self.clock and rnd.random() < self.clock:
                        tick_wanted = True
                    for ch in idle:
                        if issued >= nops or rnd.random() < 0.15:
                            continue
                        g = self.gen(ch, tick_wanted)
                        if g is None:
                            continue
                        op, conc = g
                        busy[ch.name] = len(ev)
                        ev.append(["c", op, None])
                        ch.send(op, conc)
                        issued += 1
                    if tick_wanted and not any(ev[e][1]["e"] != 99 for e in busy.values()):
                        tick_wanted = False
                        ev.append(["c", mkop("e", "tick", self.conns[0], self.keys[0]), ["ok"]])
                        ev[-1][1]["x"] = "clk"
                        self.d.tick(self.unit)
                        ev.append(["r", "clk"])
                for key, _ in sel.select(20 if busy else 0):
                    ch = key.data
                    if ch.name in busy:
                        finish(ch)
                    else:
                        # a reply nobody asked for, or the end
                        if not ch.x.s.recv(1, 2):
                            raise EOFError("connection closed")
                        raise EOFError("unexpected data from the server")
                    while ch.x.buf:
                        raise EOFError("more than one reply: %r" % ch.x.buf[:60])
        finally:
            sel.close()
        return ev


class CounterRecorder:
    """Concurrent acquire, release and get requests; some connections end."""

    def __init__(self, d, conns, keys, rnd, small):
        self.d = d
        self.conns = conns
        self.keys = keys
        self.rnd = rnd
        self.small = small
        self.run = 0

    def history(self, nops):
        rnd = self.rnd
        self.run += 1
        name = {k: b"%s.%d" % (k.encode(), self.run) for k in self.keys}
        spare = list(self.conns)
        live = {}
        held = {}
        ev = []
        sel = selectors.DefaultSelector()

        def fresh():
            if spare:
                c = spare.pop(0)
                live[c] = vh.Ctr(self.d, timeout=20)
                sel.register(live[c].s, selectors.EVENT_READ, c)
        for _ in range(4):
            fresh()
        busy = {}
        issued = 0
        try:
            while issued < nops or busy:
                if issued < nops:
                    idle = [c for c in live if c not in busy]
                    rnd.shuffle(idle)
                    for c in idle:
                        if issued >= nops or rnd.random() < 0.15:
                            continue
                        k = rnd.choice(self.keys)
                        issued += 1
                        if spare and rnd.random() < 0.03:
                            # the end of a connection
                            ev.append(["c", dict(o="close", c=c, k=k, n=0, m=0), ["?"]])
                            x = live.pop(c)
                            sel.unregister(x.s)
                            if rnd.random() < 0.5:
                                x.reset()
                            else:
                                x.close()
                            fresh()
                            continue
                        q = rnd.random()
                        n = m = 0
                        if q < 0.45:
                            o = "Acquire"
                            n = rnd.randrange(1, 4)
                            m = rnd.choice([3, 4] if self.small else [5, 8, 100])
                            msg = vh.c_acquire(name[k], n, m)
                        elif q < 0.8:
                            o = "Release"
                            h = held.get((c, k), 0)
                            n = rnd.randrange(1, h + 1) if h and rnd.random() < 0.85 else rnd.randrange(0, 4)
                            msg = vh.c_release(name[k], n)
                        else:
                            o = "Get"
                            msg = vh.c_get(name[k])
                        busy[c] = len(ev)
                        ev.append(["c", dict(o=o, c=c, k=k, n=n, m=m), None])
                        live[c].send(msg)
                for key, _ in sel.select(20 if busy else 0):
                    c = key.data
                    if c not in busy:
                        raise EOFError("data or end of a connection without a request")
                    e = busy.pop(c)
                    op = ev[e][1]
                    o, st, _, b = live[c].resp()
                    if o != vh.COP[op["o"]]:
                        raise EOFError("reply of another request")
                    s = vh.CST.get(st, str(st))
                    if s == "OK" and op["o"] != "Release":
                        r = ["NUM", struct.unpack(">I", b)[0]]
                    else:
                        r = [s]
                    if s == "OK" and op["o"] == "Acquire":
                        held[(c, op["k"])] = held.get((c, op["k"]), 0) + op["n"]
                    if s == "OK" and op["o"] == "Release":
                        held[(c, op["k"])] = held.get((c, op["k"]), 0) - op["n"]
                    ev[e][2] = r
                    ev.append(["r", c])
        finally:
            for x in live.values():
                x.close()
            sel.close()
        return ev


def cache_consts(conns, keys):
    return dict(Keys=set(keys), Conns=set(conns), Vals=set(), FlagSet=set(), ExpSet=set(),
                Toks=set(), Deltas=set(), Inits=set(), Names=set(), MaxLen=99,
                Limited=False, MaxNum=99, FlushSet=set(), GcOnTick=False, UseTok=True,
                DumpOn=False)


def counter_consts(conns, keys):
    return dict(Keys=set(keys), Conns=set(conns), Amounts=set(), Maxima=set(), Names=set(),
                Limit=1000, Steps=2, DumpOn=False)


def judge(ck, what, hists, module, consts, timeout=700, workers=7):
    """The histories (indexes) that the specification does not explain."""
    r = model.check_model(module, consts, invariants=("Report",), init="LInit", next_="LNext",
                          workers=workers, timeout=timeout, files={"hist.json": json.dumps(hists)})
    if not r.ok:
        import sys
        sys.stderr.write(r.out[-3000:])
        raise vh.CheckError("TLC failed on the recorded histories")
    ok = {int(m) for m in re.findall(r'<<"ok", (\d+)>>', r.out)}
    ck.add(states=r.distinct, transitions=r.generated)
    ck.cov.setdefault("trace_checks", []).append(
        {"what": what, "histories": len(hists), "accepted": len(ok),
         "events": sum(len(h) for h in hists), "states": r.distinct, "seconds": round(r.wall, 1)})
    return [i for i in range(len(hists)) if i + 1 not in ok]


def explain(hist, module, consts):
    """How far an unexplainable history can be explained."""
    r = model.check_model(module, consts, invariants=("Furthest",), init="LInit", next_="LNext",
                          workers=1, timeout=300, files={"hist.json": json.dumps([hist])})
    return max([int(m) for m in re.findall(r'<<"at", (\d+)>>', r.out)] or [0])
