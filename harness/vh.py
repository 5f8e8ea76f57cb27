"""Shared harness: builds yrmcdsd from /repo's working tree, runs it under the
environment shim, speaks its protocols, runs TLC and writes evidence."""
import atexit
import fcntl
import hashlib
import json
import mmap
import os
import random
import re
import shutil
import signal
import socket
import struct
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
THOROUGH = TIER == "thorough"
CPUS = os.cpu_count() or 4

_scratch = None


def scratch():
    """One scratch directory per process tree, removed at exit."""
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="yrv-%d-" % os.getpid())
        os.chmod(_scratch, 0o755)
        owner = os.getpid()
        d = _scratch

        def clean():
            if os.getpid() == owner:
                for dm in list(Daemon.live):
                    dm.kill()
                shutil.rmtree(d, ignore_errors=True)
        atexit.register(clean)
        for s in (signal.SIGTERM, signal.SIGINT):
            signal.signal(s, lambda *_: sys.exit(2))
    return _scratch


class CheckError(Exception):
    """The check itself could not do its work (not a verdict)."""


def log(*a):
    print("[%7.2f]" % (time.time() - T0), *a, file=sys.stderr, flush=True)


T0 = time.time()

# --------------------------------------------------------------------------
# building


def _tree_files():
    out = []
    for top in ("src", "cybozu"):
        for d, _, fs in os.walk(os.path.join(REPO, top)):
            for f in fs:
                if f.endswith((".cpp", ".hpp", ".h", ".ipp", ".inc")):
                    out.append(os.path.relpath(os.path.join(d, f), REPO))
    for f in ("Makefile", "COPYING", "detect_tcmalloc.sh"):
        if os.path.exists(os.path.join(REPO, f)):
            out.append(f)
    return sorted(out)


def build(variant="plain"):
    """Copy /repo's sources and build yrmcdsd.  Returns the binary's path.
    The build directory is named by content, under /verif/build (ignored by
    git); a build that is already there for exactly these sources is used."""
    files = _tree_files()
    h = hashlib.sha256()
    h.update(variant.encode())
    for f in files:
        h.update(f.encode() + b"\0")
        with open(os.path.join(REPO, f), "rb") as fp:
            h.update(fp.read() + b"\0")
    base = os.path.join(VERIF, "build")
    os.makedirs(base, exist_ok=True)
    tag = "%s-%s" % (variant, h.hexdigest()[:20])
    d = os.path.join(base, tag)
    with open(os.path.join(base, ".lock-" + tag), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(os.path.join(d, ".done")):
            shutil.rmtree(d, ignore_errors=True)
            for f in files:
                os.makedirs(os.path.dirname(os.path.join(d, f)), exist_ok=True)
                shutil.copyfile(os.path.join(REPO, f), os.path.join(d, f))
            args = ["make", "-j%d" % CPUS, "yrmcdsd"]
            if variant == "asan":
                args += ["DEBUGFLAGS=-g -fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-omit-frame-pointer",
                         "OPTFLAGS=-O1"]
            elif variant == "tsan":
                args += ["DEBUGFLAGS=-g -fsanitize=thread", "OPTFLAGS=-O1"]
            elif variant != "plain":
                raise CheckError("unknown variant")
            env = dict(os.environ)
            env.pop("MAKEFLAGS", None)
            r = subprocess.run(args, cwd=d, env=env, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT)
            if r.returncode != 0:
                sys.stderr.write(r.stdout.decode(errors="replace")[-4000:])
                raise CheckError("build failed")
            open(os.path.join(d, ".done"), "w").close()
            # keep the directory small: drop other builds of the same variant
            olds = sorted((x for x in os.listdir(base)
                           if x.startswith(variant + "-") and x != tag),
                          key=lambda x: os.path.getmtime(os.path.join(base, x)))
            for x in olds[:-6]:
                shutil.rmtree(os.path.join(base, x), ignore_errors=True)
                try:
                    os.unlink(os.path.join(base, ".lock-" + x))
                except OSError:
                    pass
    return os.path.join(d, "yrmcdsd")


def build_shim():
    src = os.path.join(VERIF, "harness", "shim.c")
    with open(src, "rb") as f:
        hx = hashlib.sha256(f.read()).hexdigest()[:16]
    base = os.path.join(VERIF, "build")
    os.makedirs(base, exist_ok=True)
    out = os.path.join(base, "shim-%s.so" % hx)
    if not os.path.exists(out):
        tmp = out + ".%d" % os.getpid()
        subprocess.run(["gcc", "-O1", "-g", "-fPIC", "-shared", "-o", tmp, src,
                        "-ldl", "-lpthread"], check=True)
        os.rename(tmp, out)
    return out


# --------------------------------------------------------------------------
# the daemon

_blocks = {"pid": None, "socks": [], "ports": []}
_used_ports = set()


def _more_ports():
    """Reserves a block of ports for this process: others respect the
    abstract socket.  All are below the ephemeral range, so that no outgoing
    connection can take one."""
    if _blocks["pid"] != os.getpid():
        _blocks.update(pid=os.getpid(), socks=[], ports=[])
        _used_ports.clear()
    first = os.getpid() % 400
    for i in range(400):
        b = (first + i) % 400
        s = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        try:
            s.bind("\0yrv-ports-%d" % b)
        except OSError:
            s.close()
            continue
        _blocks["socks"].append(s)
        _blocks["ports"] += range(10000 + 50 * b, 10050 + 50 * b)
        return
    raise CheckError("no free port")


def free_port():
    """A port nobody listens on, not given out before unless released."""
    if _blocks["pid"] != os.getpid():
        _more_ports()
    for _ in range(2000):
        if not _blocks["ports"]:
            _more_ports()
        p = _blocks["ports"].pop(0)
        ok = True
        for fam, addr in ((socket.AF_INET, "0.0.0.0"), (socket.AF_INET6, "::")):
            try:
                s = socket.socket(fam, socket.SOCK_STREAM)
            except OSError:
                continue
            try:
                s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
                s.bind((addr, p))
            except OSError as e:
                if fam == socket.AF_INET:
                    ok = False
            finally:
                s.close()
        if ok:
            _used_ports.add(p)
            return p
    raise CheckError("no free port")


def release_ports(*ports):
    """Gives back ports of this process (last in, last out)."""
    for p in ports:
        if p in _used_ports and _blocks["pid"] == os.getpid():
            _used_ports.discard(p)
            _blocks["ports"].append(p)


CTL = {n: i for i, n in enumerate(
    "freeze_time now_sec freeze_mono mono_ns vip_mode epoll_ms perturb "
    "perturb_us recv_max short_write eintr emfile sndbuf hold_reactor held "
    "polls vip_asked closes hold_worker wheld scan_free residue marker_len "
    "accepts hold_mutex_us eagain hold_gcread seed hold_start frees clean "
    "hold_port".split())}
CTL.update({"hold_peer%d" % i: 32 + i for i in range(8)})
CTL.update(pheld=40, sleep_max=41, sleeps=42, mark_gc=43, hold_gc=44, gc_held=45,
           gc_go=46, gc_alive=47, drained=48, dheld=53, idle=54, accept_errno=55,
           accept_blips=56, poll_max=57, slept_us=58, mlocked=59)
CTL.update({"hold_drain%d" % i: 49 + i for i in range(4)})

EPOCH = 1600000000


class DaemonDied(Exception):
    pass


class Daemon:
    live = []

    def __init__(self, **kw):
        """See start().  When another process has taken one of the ports in
        the meantime, other ports are used."""
        for t in range(8):
            try:
                self.start(**kw)
                return
            except DaemonDied as e:
                if t == 7 or "Address already in use" not in str(e) or "exited at start" not in str(e):
                    raise
                self.kill()
                if any(kw.get(p) for p in ("port", "repl_port", "cport")):
                    time.sleep(0.3 * (t + 1))

    def start(self, binary=None, vip="127.0.0.1", master=True, port=None,
                 repl_port=None, cport=None, workers=4, gc_interval=10,
                 memory_limit="1024M", heap_data_limit="256K",
                 max_data_size="1M", slave_timeout=10, buckets=1000,
                 max_connections=0, repl_buffer_size=30, secure_erase=False,
                 counter=False, stats_interval=86400, cmax=0,
                 freeze=True, now=EPOCH, epoll_ms=2, seed=None, ctl=None,
                 loglevel="warning", extra="", wait=True, env=None,
                 initial_repl_sleep=0, user=None, conf=None):
        self.binary = binary or build()
        self.dir = tempfile.mkdtemp(prefix="d", dir=scratch())
        os.mkdir(os.path.join(self.dir, "tmp"))
        self.port = port or free_port()
        self.repl_port = repl_port or free_port()
        self.cport = (cport or free_port()) if counter else None
        self.own = [p for p, given in ((self.port, port), (self.repl_port, repl_port),
                                       (self.cport, cport)) if p and not given]
        self.vip = vip
        self.logfile = os.path.join(self.dir, "log")
        cfg = """
virtual_ip = %s
port = %d
repl_port = %d
temp_dir = %s/tmp
max_connections = %d
log.threshold = %s
log.file = %s
buckets = %d
max_data_size = %s
heap_data_limit = %s
memory_limit = %s
repl_buffer_size = %d
initial_repl_sleep_delay_usec = %d
secure_erase = %s
workers = %d
gc_interval = %d
slave_timeout = %d
""" % (vip, self.port, self.repl_port, self.dir, max_connections, loglevel,
            self.logfile, buckets, max_data_size, heap_data_limit,
            memory_limit, repl_buffer_size, initial_repl_sleep,
            "true" if secure_erase else "false", workers, gc_interval,
            slave_timeout)
        if counter:
            cfg += """
counter.enable = true
counter.port = %d
counter.max_connections = %d
counter.buckets = %d
counter.stat_interval = %d
""" % (self.cport, cmax, buckets, stats_interval)
        cfg += extra
        if conf is not None:
            cfg = conf(self)
        self.cfg = os.path.join(self.dir, "conf")
        with open(self.cfg, "w") as f:
            f.write(cfg)
        ctlp = os.path.join(self.dir, "ctl")
        with open(ctlp, "wb") as f:
            f.write(b"\0" * 4096)
        self._cf = open(ctlp, "r+b")
        self.ctl = mmap.mmap(self._cf.fileno(), 4096)
        self.ctl[512:512 + len(vip)] = vip.encode()
        self.set("vip_mode", 1 if master else 2)
        self.set("epoll_ms", epoll_ms)
        self.set("seed", SEED if seed is None else seed)
        self.now = now
        self.mono = 10 ** 12
        if freeze:
            self.set("now_sec", now)
            self.set("freeze_time", 1)
            self.set("mono_ns", self.mono)
            self.set("freeze_mono", 1)
        self.freeze = freeze
        for k, v in (ctl or {}).items():
            self.set(k, v)
        e = dict(os.environ)
        e["LD_PRELOAD"] = build_shim()
        e["YRSHIM_CTL"] = ctlp
        if env:
            e.update(env)
        self.err = open(os.path.join(self.dir, "err"), "wb")
        self.p = subprocess.Popen([self.binary, "-f", self.cfg],
                                  stdin=subprocess.DEVNULL, stdout=self.err,
                                  stderr=self.err, env=e, cwd=self.dir,
                                  **({"user": user, "extra_groups": []} if user else {}))
        Daemon.live.append(self)
        self.admin = None
        if wait:
            if master:
                self.wait_ready()

    def set(self, name, v):
        struct.pack_into("<q", self.ctl, CTL[name] * 8, v)

    def get(self, name):
        return struct.unpack_from("<q", self.ctl, CTL[name] * 8)[0]

    def set_marker(self, b):
        self.ctl[576:576 + len(b)] = b
        self.set("marker_len", len(b))

    def wait_ready(self, timeout=20):
        t = time.time()
        while time.time() - t < timeout:
            if self.p.poll() is not None:
                raise DaemonDied("exited at start: %s\n%s" % (self.p.returncode, self.stderr()))
            try:
                c = Text(self, timeout=5)
                if c.cmd(b"version").startswith(b"VERSION"):
                    self.admin = c
                    break
                c.close()
            except (OSError, EOFError):
                pass
            time.sleep(0.005)
        else:
            raise CheckError("daemon did not become ready")
        if self.freeze:
            # the first tick makes g_current_time equal to our clock
            self.tick(0)

    def alive(self):
        return self.p.poll() is None

    def stderr(self):
        out = ""
        for n in ("err", "log"):
            try:
                with open(os.path.join(self.dir, n), errors="replace") as f:
                    out += f.read()[-3000:]
            except OSError:
                pass
        return out

    def stats(self, what=b""):
        try:
            return self.admin.stats(what)
        except (EOFError, OSError):
            self._dead()
            raise

    def _dead(self):
        for _ in range(100):
            if self.p.poll() is not None:
                raise DaemonDied("yrmcdsd exited with %s\n%s" % (self.p.returncode, self.stderr()))
            time.sleep(0.01)

    def fire(self):
        """Make the once-a-second callback due."""
        self.mono += 1100 * 10 ** 6
        self.set("mono_ns", self.mono)

    def tick(self, secs=1, timeout=20, idle=False):
        """Advance the virtual clock and wait until the daemon has seen it.

        idle: no command may be in execution when the daemon wakes up.  (The
        daemon samples its workers then; a walk that always keeps the same
        worker busy at that moment would starve it.)"""
        self.now += secs
        self.set("now_sec", self.now)
        if secs == 0 and self.admin and self.stats()["time"] == str(self.now):
            self.fire()
            p = self.get("polls")
            t = time.time()
            while self.get("polls") < p + 3:
                if time.time() - t > timeout:
                    raise Stuck("the daemon does not poll any more")
                time.sleep(0.0005)
                if self.p.poll() is not None:
                    self._dead()
            return
        self.fire()
        if idle:
            self.settle()
        t = time.time()
        while True:
            if self.stats()["time"] == str(self.now):
                return
            if time.time() - t > timeout:
                raise Stuck("the clock of the daemon does not advance")
            time.sleep(0.0005)

    def settle(self, timeout=20):
        """Wait for one more full pass of the reactor, then for a running GC."""
        p = self.get("polls")
        t = time.time()
        while self.get("polls") < p + 3:
            if time.time() - t > timeout:
                raise Stuck("the daemon does not poll any more")
            if self.p.poll() is not None:
                self._dead()
            time.sleep(0.0005)

    def run_gc(self, timeout=20):
        """Advance time past gc_interval; wait until a GC that started after
        this call has finished."""
        n0 = int(self.stats()["gc_count"])
        raise NotImplementedError

    def signal(self, s):
        self.p.send_signal(s)

    def wait_exit(self, timeout=10):
        try:
            return self.p.wait(timeout)
        except subprocess.TimeoutExpired:
            return None

    def kill(self, release=True):
        if release:
            release_ports(*self.own)
            self.own = []
        if self.p.poll() is None:
            self.p.kill()
            self.p.wait()
        if self in Daemon.live:
            Daemon.live.remove(self)
        try:
            self.err.close()
            if self.admin:
                self.admin.close()
        except OSError:
            pass
        shutil.rmtree(self.dir, ignore_errors=True)


class Stuck(Exception):
    """The daemon did not answer in time although it is alive."""


# --------------------------------------------------------------------------
# clients


class Conn:
    def __init__(self, d, port=None, timeout=15, rcvbuf=None):
        self.d = d
        self.buf = b""
        s = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
        if rcvbuf:
            s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcvbuf)
        s.settimeout(timeout)
        try:
            s.connect(("127.0.0.1", port or (d if isinstance(d, int) else d.port)))
        except OSError:
            s.close()
            raise
        s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.s = s

    def send(self, b):
        self.s.sendall(b)

    def fill(self):
        try:
            x = self.s.recv(1 << 18)
        except socket.timeout:
            raise Stuck("no answer from the daemon")
        if not x:
            raise EOFError("closed by the daemon")
        self.buf += x

    def line(self):
        while True:
            i = self.buf.find(b"\n")
            if i >= 0:
                r, self.buf = self.buf[:i + 1], self.buf[i + 1:]
                return r
            self.fill()

    def exact(self, n):
        if len(self.buf) < n:
            parts = [self.buf]
            have = len(self.buf)
            while have < n:
                try:
                    x = self.s.recv(1 << 20)
                except socket.timeout:
                    self.buf = b"".join(parts)
                    raise Stuck("no answer from the daemon")
                if not x:
                    self.buf = b"".join(parts)
                    raise EOFError("closed by the daemon")
                parts.append(x)
                have += len(x)
            self.buf = b"".join(parts)
        r, self.buf = self.buf[:n], self.buf[n:]
        return r

    def at_eof(self, timeout=10):
        """True when the daemon closes; False when it stays open that long."""
        self.s.settimeout(timeout)
        try:
            while True:
                x = self.s.recv(65536)
                if not x:
                    return True
                self.buf += x
        except socket.timeout:
            return False
        except OSError:
            return True

    def close(self):
        self.s.close()

    def reset(self):
        """Close with RST."""
        self.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        self.s.close()

    def lport(self):
        return self.s.getsockname()[1]


class Text(Conn):
    def cmd(self, line):
        self.send(line + b"\r\n")
        return self.line().rstrip(b"\r\n")

    def store(self, verb, key, val, flags=0, exp=0, cas=None, noreply=False):
        self.send(text_store(verb, key, val, flags, exp, cas, noreply))
        return None if noreply else self.line().rstrip(b"\r\n")

    def values(self):
        """Read VALUE... END."""
        out = []
        while True:
            l = self.line()
            if l == b"END\r\n":
                return out
            m = re.fullmatch(rb"VALUE (\S+) (\d+) (\d+)(?: (\d+))?\r\n", l)
            if not m:
                return l
            n = int(m.group(3))
            v = self.exact(n + 2)
            if v[-2:] != b"\r\n":
                return b"bad data block " + v[-10:]
            out.append((m.group(1), int(m.group(2)), v[:-2],
                        int(m.group(4)) if m.group(4) else None))

    def get(self, *keys):
        self.send(b"get " + b" ".join(keys) + b"\r\n")
        return self.values()

    def gets(self, *keys):
        self.send(b"gets " + b" ".join(keys) + b"\r\n")
        return self.values()

    def stats(self, what=b""):
        self.send(b"stats" + (b" " + what if what else b"") + b"\r\n")
        r = {}
        while True:
            l = self.line().rstrip(b"\r\n")
            if l == b"END":
                return r
            p = l.split(b" ", 2)
            if p[0] != b"STAT":
                raise EOFError("bad stats line %r" % l)
            r[p[1].decode()] = p[2].decode()

    def keys(self, prefix=b""):
        self.send(b"keys" + (b" " + prefix if prefix else b"") + b"\r\n")
        out = []
        while True:
            l = self.line().rstrip(b"\r\n")
            if l == b"END":
                return out
            if not l.startswith(b"VALUE "):
                raise EOFError("bad keys line %r" % l)
            out.append(l[6:])


def text_store(verb, key, val, flags=0, exp=0, cas=None, noreply=False):
    l = b"%s %s %d %d %d" % (verb, key, flags, exp, len(val))
    if cas is not None:
        l += b" %d" % cas
    if noreply:
        l += b" noreply"
    return l + b"\r\n" + val + b"\r\n"


OP = dict(Get=0, Set=1, Add=2, Replace=3, Delete=4, Increment=5, Decrement=6,
          Quit=7, Flush=8, GetQ=9, Noop=0xa, Version=0xb, GetK=0xc, GetKQ=0xd,
          Append=0xe, Prepend=0xf, Stat=0x10, SetQ=0x11, AddQ=0x12,
          ReplaceQ=0x13, DeleteQ=0x14, IncrementQ=0x15, DecrementQ=0x16,
          QuitQ=0x17, FlushQ=0x18, AppendQ=0x19, PrependQ=0x1a, Touch=0x1c,
          GaT=0x1d, GaTQ=0x1e, GaTK=0x23, GaTKQ=0x24, Lock=0x40, LockQ=0x41,
          Unlock=0x42, UnlockQ=0x43, UnlockAll=0x44, UnlockAllQ=0x45, LaG=0x46,
          LaGQ=0x47, LaGK=0x48, LaGKQ=0x49, RaU=0x4a, RaUQ=0x4b, Keys=0x50)
OPN = {v: k for k, v in OP.items()}
ST = {0: "OK", 1: "NotFound", 2: "Exists", 3: "TooLarge", 4: "Invalid",
      5: "NotStored", 6: "NonNumeric", 0x10: "Locked", 0x11: "NotLocked",
      0x81: "Unknown", 0x82: "OOM"}


def breq(op, key=b"", val=b"", extras=b"", cas=0, opaque=0, magic=0x80):
    if isinstance(op, str):
        op = OP[op]
    return struct.pack(">BBHBBHIIQ", magic, op, len(key), len(extras), 0, 0,
                       len(key) + len(extras) + len(val), opaque, cas) + extras + key + val


class BResp:
    __slots__ = ("op", "status", "key", "extras", "val", "cas", "opaque")

    def __repr__(self):
        return "<%s %s key=%r ex=%r val=%r cas=%d opq=%x>" % (
            OPN.get(self.op, self.op), ST.get(self.status, self.status),
            self.key, self.extras, self.val[:40], self.cas, self.opaque)


class Bin(Conn):
    def resp(self):
        h = self.exact(24)
        magic, op, kl, el, dt, st, bl, opq, cas = struct.unpack(">BBHBBHIIQ", h)
        if magic != 0x81 or dt != 0 or bl < kl + el or bl > (64 << 20):
            raise EOFError("bad binary response header %r" % h)
        b = self.exact(bl)
        r = BResp()
        r.op, r.status, r.opaque, r.cas = op, st, opq, cas
        r.extras, r.key, r.val = b[:el], b[el:el + kl], b[el + kl:]
        return r

    def cmd(self, *a, **k):
        self.send(breq(*a, **k))
        return self.resp()


def sx(flags=0, exp=0):
    return struct.pack(">II", flags, exp)


def ix(val, initial=0, exp=0xffffffff):
    return struct.pack(">QQI", val, initial, exp)


def px(exp):
    return struct.pack(">I", exp)


# counter protocol
CST = {0: "OK", 1: "NotFound", 4: "Invalid", 0x21: "NotAvailable",
       0x22: "NotAcquired", 0x81: "Unknown", 0x82: "OOM"}
COP = dict(Noop=0, Get=1, Acquire=2, Release=3, Stats=0x10, Dump=0x11)


def creq(op, body=b"", opaque=0, magic=0x90, flags=0):
    if isinstance(op, str):
        op = COP[op]
    return struct.pack(">BBBBII", magic, op, flags, 0, len(body), opaque) + body


def c_acquire(name, n, mx, opaque=0):
    return creq("Acquire", struct.pack(">IIH", n, mx, len(name)) + name, opaque)


def c_release(name, n, opaque=0):
    return creq("Release", struct.pack(">IH", n, len(name)) + name, opaque)


def c_get(name, opaque=0):
    return creq("Get", struct.pack(">H", len(name)) + name, opaque)


class Ctr(Conn):
    def __init__(self, d, **k):
        Conn.__init__(self, d, port=d.cport, **k)

    def resp(self):
        magic, op, st, rsv, bl, opq = struct.unpack(">BBBBII", self.exact(12))
        if magic != 0x91 or rsv != 0 or bl > (1 << 24):
            raise EOFError("bad counter response header")
        return op, st, opq, self.exact(bl)

    def acquire(self, name, n, mx):
        self.send(c_acquire(name, n, mx))
        op, st, _, b = self.resp()
        return CST.get(st, st), (struct.unpack(">I", b)[0] if st == 0 and len(b) == 4 else None)

    def release(self, name, n):
        self.send(c_release(name, n))
        op, st, _, b = self.resp()
        return CST.get(st, st)

    def get(self, name):
        self.send(c_get(name))
        op, st, _, b = self.resp()
        return CST.get(st, st), (struct.unpack(">I", b)[0] if st == 0 and len(b) == 4 else None)

    def dump(self):
        self.send(creq("Dump"))
        out = {}
        while True:
            op, st, _, b = self.resp()
            if st != 0:
                return CST.get(st, st)
            if not b:
                return out
            cur, mx, nl = struct.unpack(">IIH", b[:10])
            if len(b) != 10 + nl:
                raise EOFError("bad dump entry")
            if b[10:] in out:
                raise EOFError("duplicate dump entry")
            out[b[10:]] = (cur, mx)

    def stats(self):
        self.send(creq("Stats"))
        op, st, _, b = self.resp()
        out = {}
        while b:
            nl, vl = struct.unpack(">HH", b[:4])
            out[b[4:4 + nl].decode()] = b[4 + nl:4 + nl + vl].decode()
            b = b[4 + nl + vl:]
        return out


# --------------------------------------------------------------------------
# TLC


class TLC:
    def __init__(self, rc, out, wall):
        self.rc = rc
        self.out = out
        self.wall = wall
        m = None
        for m in re.finditer(r"(\d+) states generated, (\d+) distinct states found", out):
            pass
        self.generated = int(m.group(1)) if m else 0
        self.distinct = int(m.group(2)) if m else 0
        self.ok = rc == 0
        self.violated = re.findall(r"(?:Invariant|property|Action property) (\S+) (?:is|was) violated", out)


def tlc(module, cfg_text, workers=4, extra=(), timeout=600, files=None, heap="4g",
        dfs=False, moddir=SPEC):
    """Run TLC on spec/<module>.tla with the given configuration text."""
    d = tempfile.mkdtemp(prefix="tlc", dir=scratch())
    for f in os.listdir(moddir):
        if f.endswith(".tla"):
            shutil.copyfile(os.path.join(moddir, f), os.path.join(d, f))
    for n, body in (files or {}).items():
        with open(os.path.join(d, n), "w") as f:
            f.write(body)
    with open(os.path.join(d, "M.cfg"), "w") as f:
        f.write(cfg_text)
    jar = "/opt/veriftools/tla/tla2tools.jar"
    cm = [os.path.join("/opt/veriftools/tla", x) for x in os.listdir("/opt/veriftools/tla") if x.endswith(".jar")]
    cp = ":".join([jar] + [x for x in cm if x != jar])
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Djava.io.tmpdir=" + d]
    if dfs:
        cmd += ["-Dtlc2.tool.queue.IStateQueue=StateDeque"]
    cmd += ["-cp", cp, "tlc2.TLC", "-workers", str(workers), "-metadir", os.path.join(d, "md"),
            "-config", "M.cfg", "-noGenerateSpecTE"] + list(extra) + [module + ".tla"]
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout)
        rc, out = p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired as e:
        rc, out = 124, (e.stdout or b"").decode(errors="replace")
    shutil.rmtree(d, ignore_errors=True)
    return TLC(rc, out, time.time() - t)


# --------------------------------------------------------------------------
# verdicts


class Check:
    """Collects what a check did and ends it."""

    def __init__(self, pid):
        self.pid = pid
        self.cov = {"states": 0, "transitions": 0,
                    "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []
        self.violations = []
        self.known = []
        self.t0 = time.time()

    def add(self, **k):
        for n, v in k.items():
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                self.cov[n] = self.cov.get(n, 0) + v
            else:
                self.cov[n] = v

    def sample(self, s):
        if len(self.cov["samples"]) < 12:
            self.cov["samples"].append(s)

    def model(self, r, what):
        """Account for an exhaustive TLC run; a failure there is an error of
        the model, not of the code."""
        if not r.ok:
            sys.stderr.write(r.out[-6000:])
            raise CheckError("the model %s does not satisfy its own properties (rc %s)" % (what, r.rc))
        self.cov["states"] += r.distinct
        self.cov["transitions"] += r.generated
        self.cov.setdefault("models", []).append(
            {"model": what, "distinct_states": r.distinct, "transitions": r.generated,
             "seconds": round(r.wall, 2)})

    def violation(self, what, detail):
        os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
        path = os.path.join(VERIF, "replay", "%s-%d.json" % (self.pid, len(self.violations)))
        with open(path, "w") as f:
            json.dump({"property": self.pid, "what": what, "detail": detail,
                       "seed": SEED, "tier": TIER}, f, indent=1, default=repr)
        self.violations.append((what, path))
        print("VIOLATION property=%s replay=%s" % (self.pid, path), flush=True)
        print("  " + what, flush=True)

    def finish(self):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = {"property": self.pid, "tier": TIER, "seed": SEED,
              "level": "model_checking", "coverage": self.cov,
              "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=repr)
            f.write("\n")
        return 1 if self.violations else 0


def main(pid, fn):
    """Run a check function: fn(Check).  Exceptions are errors (exit 2)."""
    c = Check(pid)
    try:
        fn(c)
        rc = c.finish()
    except CheckError as e:
        log("CHECK ERROR", e)
        rc = 2
        if c.violations:
            c.finish()
            rc = 1
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 2
        if c.violations:
            c.finish()
            rc = 1
    sys.stdout.flush()
    sys.exit(rc)
