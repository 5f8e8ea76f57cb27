"""Running TLC on the specifications, and walking the transition relations it
prints through the implementation."""
import json
import os
import random
import sys
import time
import traceback

import vh


def tla(v):
    """A Python value as a TLA+ expression: tuples are sequences, sets are
    sets, strings are strings."""
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"%s"' % v
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tla(x) for x in v) + ">>"
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(sorted(tla(x) for x in v)) + "}"
    if isinstance(v, dict):
        return "[" + ", ".join("%s |-> %s" % (k, tla(x)) for k, x in v.items()) + "]"
    raise TypeError(v)


class Raw(str):
    """A TLA+ expression, written out."""


def check_model(module, consts, invariants=(), properties=(), init="Init", next_="Next",
                spec=None, constraints=(), symmetry=None, view=None, deadlock=False,
                workers=4, timeout=800, extra=(), heap="6g", dfs=False, defs="",
                files=None, postcondition=None):
    """Run TLC on a module with the given constants."""
    name = "MC_" + module
    body = "---- MODULE %s ----\nEXTENDS %s\n" % (name, module)
    cfg = []
    for k, v in consts.items():
        body += "mc_%s == %s\n" % (k, v if isinstance(v, Raw) else tla(v))
        cfg.append("CONSTANT %s <- mc_%s" % (k, k))
    body += defs + "\n====\n"
    if spec:
        cfg.append("SPECIFICATION " + spec)
    else:
        cfg += ["INIT " + init, "NEXT " + next_]
    for i in invariants:
        cfg.append("INVARIANT " + i)
    for p in properties:
        cfg.append("PROPERTY " + p)
    for c in constraints:
        cfg.append("CONSTRAINT " + c)
    if view:
        cfg.append("VIEW " + view)
    if postcondition:
        cfg.append("POSTCONDITION " + postcondition)
    cfg.append("CHECK_DEADLOCK " + ("TRUE" if deadlock else "FALSE"))
    fs = dict(files or {})
    fs[name + ".tla"] = body
    return vh.tlc(name, "\n".join(cfg) + "\n", workers=workers, timeout=timeout,
                  extra=extra, heap=heap, dfs=dfs, files=fs)


class Graph:
    """An explicit transition relation: trans[state] = [(op index, reply,
    quiet reply, key, updated, next state)]."""

    def __init__(self):
        self.ops = None
        self.trans = {}
        self.view = {}
        self.init = None
        self.n_edges = 0
        self.tlc = None

    @staticmethod
    def load(r, init):
        g = Graph()
        g.tlc = r
        for line in r.out.splitlines():
            if line.startswith('"@@'):
                rec = json.loads(json.loads(line)[2:])
                sid, es = rec[0], rec[1]
                if len(rec) > 2:
                    g.view[sid] = rec[2]
                by = {}
                for e in es:
                    by.setdefault(e[0] - 1, []).append(e[1:])
                g.trans[sid] = by
                g.n_edges += len(es)
            elif line.startswith('"##'):
                g.ops = json.loads(json.loads(line)[2:])
        g.init = init
        if init not in g.trans or g.ops is None:
            sys.stderr.write(r.out[-3000:])
            raise vh.CheckError("no transition relation from TLC (init %r)" % init)
        # share equal state names
        intern = {s: s for s in g.trans}
        for by in g.trans.values():
            for es in by.values():
                for e in es:
                    e[-1] = intern.get(e[-1], e[-1])
                    if e[-1] not in intern:
                        raise vh.CheckError("dangling state " + e[-1])
        return g


def graph(module, consts, invariants=("Inv",), workers=6, timeout=800, constraints=(),
          check=None, what=None, heap="8g"):
    c = dict(consts)
    c["DumpOn"] = True
    r = check_model(module, c, invariants=tuple(invariants) + ("Dump",), workers=workers,
                    timeout=timeout, constraints=constraints, heap=heap)
    if check is not None:
        check.model(r, what or module)
    elif not r.ok:
        sys.stderr.write(r.out[-5000:])
        raise vh.CheckError("TLC failed on " + module)
    init = None
    for line in r.out.splitlines():
        if line.startswith('"@@'):
            init = json.loads(json.loads(line)[2:])[0]
            break
    g = Graph.load(r, init)
    r.out = ""
    return g


class Mismatch(Exception):
    def __init__(self, what, trace):
        Exception.__init__(self, what)
        self.what = what
        self.trace = trace


class Walker:
    """Drives one implementation through a graph.  `drv` has:
         reset(rnd)         start of a walk; back to the initial state
         do(op, outs, rnd)  perform op; outs is the list of allowed outcomes;
                            returns the index of the one that was observed or
                            raises Mismatch
    Everything random about one walk comes from the walk's own seed, so that
    a walk can be repeated."""

    def __init__(self, g, drv, seed, mine=None, max_walk=300):
        self.g = g
        self.drv = drv
        self.seed = seed
        self.rnd = random.Random("%s/plan" % seed)
        self.todo = {}
        self.left = 0
        for s, by in g.trans.items():
            if mine is None or mine(s):
                self.todo[s] = set(by)
                self.left += len(by)
        self.max_walk = max_walk
        self.steps = 0
        self.walks = 0
        self.covered = 0
        self.history = []       # the last walks: (seed, [op index])
        self.trace = []
        self.sample = None
        self.seen = set()       # outcomes that have been observed
        self.tries = {}

    def likely(self, s, oi, outs, e):
        """Is it worth trying to get this outcome?  (The implementation may
        never choose some of those that the specification allows.)"""
        return len(outs) == 1 or (s, oi, e[-1]) in self.seen or self.tries.get((s, oi), 0) < 2

    def start(self):
        self.state = self.g.init
        ws = "%s/%d" % (self.seed, self.walks)
        self.trace = []
        self.history.append((ws, self.trace))
        del self.history[:-8]
        self.wrnd = random.Random(ws)
        self.walks += 1
        self.drv.reset(self.wrnd)

    def plan(self):
        """Shortest path to a state with uncovered transitions (op indexes)."""
        seen = {self.state: None}
        layer = [self.state]
        trans = self.g.trans
        while layer:
            nxt = []
            for s in layer:
                for oi, outs in trans[s].items():
                    for e in outs:
                        n = e[-1]
                        if n not in seen and self.likely(s, oi, outs, e):
                            seen[n] = (s, oi)
                            if self.todo.get(n):
                                path = []
                                while seen[n] is not None:
                                    n, o = seen[n]
                                    path.append(o)
                                return path[::-1]
                            nxt.append(n)
            self.rnd.shuffle(nxt)
            layer = nxt
        return None

    def step(self, oi):
        outs = self.g.trans[self.state][oi]
        self.trace.append(oi)
        self.drv.view = self.g.view
        i = self.drv.do(self.g.ops[oi], outs, self.wrnd)
        if len(outs) > 1:
            self.seen.add((self.state, oi, outs[i][-1]))
            self.tries[self.state, oi] = self.tries.get((self.state, oi), 0) + 1
        t = self.todo.get(self.state)
        if t and oi in t:
            t.discard(oi)
            self.left -= 1
            self.covered += 1
        self.state = outs[i][-1]
        self.steps += 1

    def cover(self, deadline):
        """Cover every transition that is ours, then return."""
        self.start()
        path = []
        while self.left > 0 and time.time() < deadline:
            if len(self.trace) >= self.max_walk:
                self.start()
                path = []
            t = self.todo.get(self.state)
            if t:
                path = []
                oi = self.rnd.choice(sorted(t)) if len(t) < 50 else next(iter(t))
            else:
                if not path:
                    path = self.plan()
                    if path is None:
                        # (what is left may not be reachable with the outcomes
                        # the implementation chooses)
                        if self.state == self.g.init:
                            return
                        self.start()
                        path = []
                        continue
                oi = path.pop(0)
                if oi not in self.g.trans[self.state]:
                    path = []
                    continue
            self.step(oi)
            if path and path[0] not in self.g.trans[self.state]:
                path = []

    def wander(self, deadline, steps=10 ** 9, weight=None):
        """Random walks until the deadline."""
        self.start()
        n = 0
        while n < steps and time.time() < deadline:
            if len(self.trace) >= self.max_walk:
                self.start()
            ks = list(self.g.trans[self.state])
            if not ks:
                self.start()
                continue
            if weight:
                oi = self.rnd.choices(ks, [weight(self.g.ops[o]) for o in ks])[0]
            else:
                oi = self.rnd.choice(ks)
            self.step(oi)
            n += 1


def repeat(g, drv, walks):
    """Repeat recorded walks; the Mismatch they end with, or None."""
    for ws, ops in walks:
        rnd = random.Random(ws)
        state = g.init
        try:
            drv.reset(rnd)
            for oi in list(ops):
                if oi not in g.trans[state]:
                    break
                outs = g.trans[state][oi]
                drv.view = g.view
                i = drv.do(g.ops[oi], outs, rnd)
                state = outs[i][-1]
        except Mismatch as e:
            return e
        except (vh.DaemonDied, vh.Stuck, EOFError, OSError) as e:
            return Mismatch("%s: %s" % (type(e).__name__, e), getattr(drv, "log", None))
    return None


def confirm(g, mkdrv, w, err, tries=4):
    """Try to reproduce a mismatch on a fresh daemon, with generous waits for
    everything that happens in the background."""
    for t in range(tries):
        hist = w.history[-1:] if t % 2 == 0 else list(w.history)
        try:
            drv = mkdrv(True)
        except vh.DaemonDied as e:
            return Mismatch("the daemon does not start: %s" % e, None)
        try:
            e = repeat(g, drv, hist)
        finally:
            drv.stop()
        if e is not None:
            return e
    return None


def walk_graph(g, mkdrv, seed, mine, deadline, wander_until, max_walk=300, weight=None):
    """Cover, then wander.  Returns a dict with what was done and a confirmed
    mismatch, if any."""
    out = {"steps": 0, "walks": 0, "covered": 0, "left": 0, "mismatch": None, "odd": []}
    todo = None
    attempt = 0
    while True:
        try:
            drv = mkdrv(False)
        except vh.DaemonDied as e:
            out["mismatch"] = {"what": "the daemon does not start: %s" % e, "trace": []}
            return out
        w = Walker(g, drv, "%s.%d" % (seed, attempt), mine, max_walk)
        if todo is not None:
            w.todo, w.left = todo
        err = None
        try:
            if time.time() < deadline:
                w.cover(deadline)
            if time.time() < wander_until:
                w.wander(wander_until, weight=weight)
        except Mismatch as e:
            err = e
        except (vh.DaemonDied, vh.Stuck, EOFError, OSError) as e:
            err = Mismatch("%s: %s" % (type(e).__name__, e), getattr(drv, "log", None))
        finally:
            log = list(getattr(drv, "log", []))
            drv.stop()
        out["steps"] += w.steps
        out["walks"] += w.walks
        out["covered"] += w.covered
        out["left"] = w.left
        out.setdefault("sample", log[:6])
        if err is None:
            return out
        vh.log("mismatch:", err.what, "after", "; ".join(str(x) for x in (err.trace or [])[-6:]) if os.environ.get("VERIF_DEBUG") else "")
        e2 = confirm(g, mkdrv, w, err)
        if e2 is None:
            out["odd"].append(err.what)
            if len(out["odd"]) >= 3 or "died" in err.what or "exited" in err.what:
                e2 = err
                e2.what = "(intermittent, seen %d times) %s" % (len(out["odd"]), err.what)
        if e2 is not None:
            out["mismatch"] = {"what": e2.what, "trace": (e2.trace or [])[-60:]}
            return out
        todo = (w.todo, w.left)
        attempt += 1


def parallel(jobs, timeout=850):
    """Run thunks in forked children; each returns a JSON-able value."""
    import select
    pids = {}
    res = [None] * len(jobs)
    for i, j in enumerate(jobs):
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                vh._scratch = None
                vh.Daemon.live = []
                try:
                    out = ["ok", j()]
                except vh.CheckError as e:
                    out = ["error", str(e)]
                except BaseException:
                    out = ["error", traceback.format_exc()]
                for d in list(vh.Daemon.live):
                    d.kill()
                if vh._scratch:
                    import shutil
                    shutil.rmtree(vh._scratch, ignore_errors=True)
                with os.fdopen(w, "w") as f:
                    json.dump(out, f, default=repr)
            finally:
                os._exit(0)
        os.close(w)
        pids[r] = (i, pid, [])
    t = time.time()
    open_ = dict(pids)
    while open_:
        rl, _, _ = select.select(list(open_), [], [], 1.0)
        for r in rl:
            b = os.read(r, 1 << 16)
            if b:
                open_[r][2].append(b)
            else:
                i, pid, parts = open_.pop(r)
                os.close(r)
                os.waitpid(pid, 0)
                try:
                    res[i] = json.loads(b"".join(parts))
                except ValueError:
                    res[i] = ["error", "worker process ended without a result"]
        if time.time() - t > timeout:
            for r, (i, pid, _) in open_.items():
                os.kill(pid, 9)
                os.waitpid(pid, 0)
                res[i] = ["error", "timeout"]
            break
    for r in res:
        if r[0] == "error":
            raise vh.CheckError("worker: " + r[1])
    return [r[1] for r in res]


def conform(ck, items, procs=6, wander=5.0, limit=300.0):
    """items: (name, graph, mkdrv(slow), weight).  Every transition of every
    graph is performed on the implementation; then random walks for `wander`
    seconds per graph.  Reports to the Check."""
    t0 = time.time()

    def job(p):
        def run():
            res = []
            for name, g, mkdrv, weight in items:
                mine = (lambda s: hash_of(s) % procs == p)
                t = time.time()
                r = walk_graph(g, mkdrv, "%d/%s/%d" % (vh.SEED, name, p), mine,
                               t + limit, t + wander if wander else 0, weight=weight)
                # at least `wander` seconds go into the graph; more when
                # covering it takes longer
                r["name"] = name
                res.append(r)
                if r["mismatch"]:
                    break
            return res
        return run

    rs = parallel([job(p) for p in range(procs)])
    ok = True
    for k, (name, g, _, _) in enumerate(items):
        mine = [r for rp in rs for r in rp if r["name"] == name]
        ck.add(traces_validated_against_impl=sum(r["walks"] for r in mine),
               steps_replayed=sum(r["steps"] for r in mine),
               model_transitions_replayed=sum(r["covered"] for r in mine))
        left = sum(r["left"] for r in mine)
        ck.cov.setdefault("conformance", []).append(
            {"instance": name, "transitions": g.n_edges,
             "walks": sum(r["walks"] for r in mine),
             "steps": sum(r["steps"] for r in mine), "not_reached": left})
        for r in mine:
            if r.get("sample"):
                ck.sample({"instance": name, "commands": r["sample"][:5]})
                break
        odd = [o for r in mine for o in r["odd"]]
        if odd:
            ck.cov.setdefault("unreproduced", []).extend(odd[:5])
        for r in mine:
            if r["mismatch"]:
                ok = False
                ck.violation("%s: %s" % (name, r["mismatch"]["what"]), r["mismatch"])
                break
    vh.log("conformance of %s in %.1f s" % ([i[0] for i in items], time.time() - t0))
    return ok


def hash_of(s):
    import zlib
    return zlib.crc32(s.encode())


def graphs(ck, module, named, workers=3, **kw):
    """Explore several instances side by side."""
    from concurrent.futures import ThreadPoolExecutor
    vh.scratch()
    with ThreadPoolExecutor(3) as ex:
        fs = [(n, ex.submit(graph, module, c, workers=workers, check=None, **kw)) for n, c in named]
        out = []
        for n, f in fs:
            g = f.result()
            ck.model(g.tlc, "%s/%s" % (module, n))
            out.append((n, g))
    return out
