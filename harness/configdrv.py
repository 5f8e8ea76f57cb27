"""Configuration files, written as Config.tla says and given to real servers."""
import os
import random
import re
import select
import socket
import struct
import subprocess
import time

import vh
from model import Mismatch

MANY = 12


def short(n):
    """The shortest form of a number with the units k, m, g."""
    u = 0
    while u < 3 and n % 1024 == 0:
        n, u = n // 1024, u + 1
    return "%d%s" % (n, ["", "k", "m", "g"][u])


def can_setuid():
    try:
        return subprocess.run(["true"], user="nobody", group="nogroup", extra_groups=[]).returncode == 0
    except (OSError, KeyError, PermissionError, subprocess.SubprocessError):
        return False


def port_free(p):
    for a in ("127.0.0.1", "0.0.0.0"):
        s = socket.socket()
        s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        try:
            s.bind((a, p))
        except OSError:
            return False
        finally:
            s.close()
    return True


def render(lines, sub, rnd):
    """The text of a file.  Its layout is without meaning."""
    def junk():
        return rnd.choice(["", "", "", "\n", "# comment\n", "   # port = 1\n", "\t\n", "#\n", "\n\n", "#x = \"\n"])
    out = junk()
    for i, l in enumerate(lines):
        v = l["v"]["w"]
        for k, x in sub.items():
            v = v.replace(k, x)
        if l["o"] == "junk":
            out += v
        else:
            q = rnd.random() < 0.3 and not v.startswith('"')
            if q:
                v = '"%s"' % v
            out += rnd.choice(["", "", " ", "\t", "  \t"]) + l["o"] + rnd.choice([" = ", "=", " =", "= ", "\t=\t"]) + v
        last = i == len(lines) - 1
        out += rnd.choice(["", "", "", " ", "\t "])
        out += rnd.choice(["\n", "\n", "\n", "\r\n"] + ([""] if last else []))
        if not last or out.endswith("\n"):
            out += junk()
    return out


class Run:
    """One run of a file; .rec is what Config.tla judges."""

    def __init__(self, lines, probes, rnd, role="master", unpriv=False):
        self.lines, self.probes, self.rnd = lines, probes, rnd
        self.text = None
        self.seen = {}
        last = {l["o"]: l["v"] for l in lines}

        def conf(d):
            for n in ("dir2",):
                os.mkdir(os.path.join(d.dir, n))
            os.chmod(d.dir, 0o777)
            os.chmod(os.path.join(d.dir, "dir2"), 0o777)
            os.mkdir(os.path.join(d.dir, "closed"), 0o755)
            with open(os.path.join(d.dir, "plain"), "w"):
                pass
            self.sub = {"@closed": os.path.join(d.dir, "closed"), "@dir": os.path.join(d.dir, "dir2"),
                        "@nodir": os.path.join(d.dir, "none"), "@file": os.path.join(d.dir, "plain"),
                        "@log": os.path.join(d.dir, "log")}
            ports = iter([d.port, d.repl_port, d.cport])
            ls = []
            for o, p in (("port", d.port), ("repl_port", d.repl_port), ("counter.port", d.cport)):
                self.sub["@port." + o] = str(p)
            for l in self.lines:
                if l["v"]["w"] == "@port":
                    l = {"o": l["o"], "v": dict(l["v"], w="@port." + l["o"])}
                ls.append(l)
            del ports
            self.text = render(ls, self.sub, rnd)
            return self.text
        kw = {}
        for o, k, dflt in (("port", "port", 11211), ("repl_port", "repl_port", 11213),
                           ("counter.port", "cport", 11215)):
            if o not in last:
                kw[k] = dflt
        vip = last.get("virtual_ip", {"w": "127.0.0.1"})["w"]
        self.d = vh.Daemon(vip=vip if len(vip) < 40 else "127.0.0.1", conf=conf, wait=False, counter=True,
                           master=role == "master", now=950400 * 1684, user="nobody" if unpriv else None,
                           ctl={"sleep_max": 1, "sndbuf": 0}, **kw)
        self.last = last

    def start(self):
        """Whether it runs."""
        d = self.d
        t = time.time()
        while True:
            c = d.p.poll()
            if c is not None:
                if "ddress already in use" in d.stderr():
                    raise vh.DaemonDied("exited at start: Address already in use")
                if c == 0:
                    raise Mismatch("the server ends with status 0 at its start", None)
                if c < 0:
                    raise Mismatch("the server is killed by signal %d at its start\n%s" % (-c, d.stderr()[-800:]), None)
                return False
            try:
                a = vh.Text(d, timeout=5)
                if a.cmd(b"version").startswith(b"VERSION"):
                    d.admin = a
                    break
                a.close()
            except (OSError, EOFError):
                pass
            if time.time() - t > 30:
                raise Mismatch("the server neither serves nor ends\n%s" % d.stderr()[-800:], None)
            time.sleep(0.003)
        d.tick(0)
        return True

    def go(self):
        try:
            ran = self.start()
            if ran:
                self.settings()
                for p in self.probes:
                    self.seen[p] = getattr(self, "p_" + p.replace(".", "_"))()
                if not self.d.alive():
                    raise Mismatch("the server has ended with %s" % self.d.p.returncode, None)
            return {"file": self.lines, "ran": ran, "seen": self.seen, "text": self.text,
                    "why": "" if ran else self.d.stderr()[-400:]}
        finally:
            self.d.kill()

    def back(self, o, v):
        """A text of the run as a text of the specification."""
        s = "@" + {"temp_dir": "dir", "log.file": "log"}.get(o, "port")
        return s if self.sub.get(s if s != "@port" else "@port." + o) == v and o in self.last else v

    def settings(self):
        s, d = self.d.stats(b"settings"), self.d
        self.raw = s
        on = {"on": "true", "off": "false"}
        self.seen.update({
            "memory_limit": short(int(s["maxbytes"])), "port": self.back("port", s["tcpport"]),
            "repl_port": self.back("repl_port", s["replport"]), "virtual_ip": s["virtual_ip"],
            "secure_erase": on.get(s["secure_erase"], s["secure_erase"]),
            "temp_dir": self.back("temp_dir", s["tmp_dir"]), "buckets": s["buckets"],
            "max_data_size": short(int(s["item_size_max"])), "workers": s["num_threads"],
            "gc_interval": s["gc_interval"]})
        m = "true" if d.get("mlocked") else "false"
        if on.get(s["lock_memory"]) != m:
            raise Mismatch("lock_memory is %s, memory is locked: %s" % (s["lock_memory"], m), None)
        self.seen["lock_memory"] = m
        c = socket.socket()
        try:
            c.connect(("127.0.0.1", d.cport))
            self.seen["counter.enable"] = "true"
            if self.back("counter.port", str(d.cport)) == "@port" or "counter.port" not in self.last:
                self.seen["counter.port"] = self.back("counter.port", str(d.cport))
        except OSError:
            self.seen["counter.enable"] = "false"
        c.close()
        c = socket.socket()
        try:
            c.connect(("127.0.0.1", d.repl_port))
        except OSError:
            raise Mismatch("nothing listens for slaves at the replication port", None)
        c.close()
        d.settle()

    # -- what has to be looked for

    def p_max_connections(self):
        cs = []
        try:
            while len(cs) + 1 < MANY:
                try:
                    c = vh.Text(self.d, timeout=5)
                    cs.append(c)
                    if not c.cmd(b"version").startswith(b"VERSION"):
                        raise EOFError
                except (EOFError, OSError):
                    return str(len(cs))
            return "many"
        finally:
            for c in cs:
                c.close()

    def p_counter_max_connections(self):
        cs = []
        try:
            while len(cs) < MANY:
                try:
                    c = vh.Ctr(self.d, timeout=5)
                    cs.append(c)
                    c.get(b"x")
                except (EOFError, OSError):
                    return str(len(cs) - 1)
            return "many"
        finally:
            for c in cs:
                c.close()

    def filed(self):
        n = 0
        for f in os.listdir("/proc/%d/fd" % self.d.p.pid):
            try:
                l = os.readlink("/proc/%d/fd/%s" % (self.d.p.pid, f))
            except OSError:
                continue
            if l.startswith(self.raw["tmp_dir"] + "/"):
                n += 1
        return n

    def p_heap_data_limit(self):
        n = [0]

        def is_filed(size):
            n[0] += 1
            f = self.filed()
            if self.d.admin.store(b"set", b"h%d" % n[0], b"x" * size) != b"STORED":
                raise Mismatch("an object of %d bytes is not stored" % size, None)
            return self.filed() > f
        lo, hi = 0, (2 << 20) - 1
        if not is_filed(hi):
            raise Mismatch("an object of %d bytes is not in a temporary file" % hi, None)
        while hi - lo > 1:
            m = (lo + hi) // 2
            if is_filed(m):
                hi = m
            else:
                lo = m
        return short(lo)

    def p_temp_dir(self):
        self.d.admin.store(b"set", b"tmp", b"x" * 900000)
        if not self.filed():
            raise Mismatch("no temporary file in %s" % self.raw["tmp_dir"], None)
        return self.back("temp_dir", self.raw["tmp_dir"])

    def slave(self, rcvbuf=None):
        s = socket.socket()
        if rcvbuf:
            s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcvbuf)
        s.connect(("127.0.0.1", self.d.repl_port))
        d = self.d
        t = time.time()
        n = int(d.stats()["gc_count"])
        while int(d.stats()["gc_count"]) == n:
            s.sendall(b"x")
            d.settle()
            d.tick(1)
            if time.time() - t > 30:
                raise Mismatch("a slave is not given its copy", None)
        d.settle()
        return s

    def p_repl_buffer_size(self):
        self.d.set("sndbuf", 4096)
        s = self.slave(4096)
        try:
            m = vh.text_store(b"set", b"r", b"x" * 99900)
            a = self.d.admin
            t = time.time()
            for i in range(1100):
                a.send(m)
                while not select.select([a.s], [], [], 0.05)[0]:
                    with open(os.path.join(self.d.dir, "err"), errors="replace") as f:
                        full = "uffer is full" in f.read()
                    if full and not select.select([a.s], [], [], 0)[0]:
                        return str(int(round(i * 100000 / float(1 << 20))))
                    if time.time() - t > 60 or not self.d.alive():
                        raise Mismatch("a store is not answered", None)
                if a.line() != b"STORED\r\n":
                    raise Mismatch("an object is not stored", None)
            return "many"
        finally:
            s.close()

    def p_slave_timeout(self):
        s = self.slave()
        try:
            s.setblocking(False)
            s.sendall(b"x")
            self.d.settle()
            for i in range(24):
                self.d.tick(1)
                self.d.settle()
                try:
                    while s.recv(1 << 16):
                        pass
                    return str(i)
                except BlockingIOError:
                    pass
            return "many"
        finally:
            s.close()

    def p_initial_repl_sleep_delay_usec(self):
        d = self.d
        n, us = d.get("sleeps"), d.get("slept_us")
        s = self.slave()
        n, us = d.get("sleeps") - n, d.get("slept_us") - us
        s.close()
        if n == 0:
            return "0"
        # (short delays are put together)
        return str(us // n if us // n > 10500 else int(round(us / float(int(self.raw["buckets"])))))

    def ids(self, what):
        for l in open("/proc/%d/status" % self.d.p.pid):
            if l.startswith(what + ":"):
                ids = set(l.split()[1:])
                if len(ids) != 1:
                    raise Mismatch("%s" % l, None)
                return int(ids.pop())

    def p_user(self):
        import pwd
        return pwd.getpwuid(self.ids("Uid")).pw_name

    def p_group(self):
        import grp
        return grp.getgrgid(self.ids("Gid")).gr_name

    def p_log_file(self):
        out = {}
        for n in ("err", "log"):
            try:
                with open(os.path.join(self.d.dir, n), errors="replace") as f:
                    # (a warning about the file itself may come before)
                    out[n] = len(re.findall(r" yrmcds|INFO", f.read()))
            except OSError:
                out[n] = 0
        return "@log" if out["log"] and not out["err"] else "stderr" if out["err"] and not out["log"] else repr(out)

    def p_bind_ip(self):
        l = []
        for a in "2345":
            c = socket.socket()
            try:
                c.connect(("127.0.0." + a, self.d.port))
                l.append(a)
            except OSError:
                pass
            c.close()
        return "any" if len(l) == 4 else ",".join(l)

    def p_counter_buckets(self):
        for l in open("/proc/%d/status" % self.d.p.pid):
            if l.startswith("VmRSS:"):
                return "lots" if int(l.split()[1]) > 30000 else "few"

    def p_counter_stat_interval(self):
        d = self.d
        c = vh.Ctr(d)
        try:
            # (at a time that all intervals begin)
            c.acquire(b"c", 5, 9)
            c.release(b"c", 5)
            for t in sorted(x for w in (10, 11, 60, 3600, 86400) for x in (w - 1, w)):
                if t > d.now - 950400 * 1684:
                    d.tick(t - (d.now - 950400 * 1684))
                if all(v[1] != 5 for v in c.dump().values()):
                    return str(t)
            return "many"
        finally:
            c.close()


class Levels(Run):
    """What of a log is written."""

    def __init__(self, lines, rnd):
        self.l = socket.socket()
        self.l.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        Run.__init__(self, lines, [], rnd, role="slave")

    def go(self):
        d = self.d
        try:
            self.l.bind(("127.0.0.1", d.repl_port))
            self.l.listen(5)
            self.l.settimeout(0.02)
            t = time.time()
            s = None
            while s is None:
                if d.p.poll() is not None:
                    if d.p.returncode <= 0:
                        raise Mismatch("the server ends with status %d at its start" % d.p.returncode, None)
                    return {"file": self.lines, "ran": False, "seen": {}, "text": self.text, "why": d.stderr()[-400:]}
                try:
                    s = self.l.accept()[0]
                except socket.timeout:
                    d.fire()
                if time.time() - t > 30:
                    raise Mismatch("the slave neither finds its master nor ends", None)
            s.sendall(vh.breq("SetQ", b"k", b"v", struct.pack(">II", 7, 0)))
            d.settle()
            s.close()
            self.l.close()
            n = d.get("vip_asked")
            while d.get("vip_asked") < n + 4:
                d.fire()
                time.sleep(0.001)
                if not d.alive() or time.time() - t > 30:
                    raise Mismatch("the slave does not go on without its master", None)
            d.settle()
            # it has certainly tried to connect
            time.sleep(0.05)
            d.fire()
            d.settle()
            with open(os.path.join(d.dir, "err"), errors="replace") as f:
                out = f.read()
            have = [x for x, w in (("debug", "DEBUG"), ("info", "INFO"), ("warning", "WARN"), ("error", "ERROR"))
                    if re.search(r"\b%s\b" % w, out, re.I)]
            return {"file": self.lines, "ran": True, "seen": {"log.threshold": have[0] if have else "none"},
                    "text": self.text, "why": ""}
        finally:
            self.l.close()
            d.kill()
