"""Concurrent histories, judged by CacheLin.tla and CounterLin.tla."""
import os
import random
import sys
import time

import lin
import model
import vh

STORES = [(3, "t.set"), (3, "t.get"), (3, "t.gets"), (3, "t.cas"), (2, "t.append"), (1, "b.Prepend"),
          (1, "b.Set"), (2, "b.Get"), (1, "t.delete"), (1, "b.Delete"), (1, "t.add"), (1, "b.Add"),
          (1, "t.replace"), (1, "b.Replace"), (1, "b.Append"), (1, "t.prepend")]
LOCKS = [(2, "t.lock"), (2, "b.LaG"), (2, "b.RaU"), (2, "t.unlock"), (1, "b.Lock"), (1, "b.Unlock"),
         (1, "t.unlock_all"), (3, "t.set"), (2, "t.get"), (2, "t.append"), (2, "t.gets"), (2, "t.cas"),
         (1, "t.delete"), (1, "b.Set"), (1, "b.UnlockAll")]
ARITH = [(4, "t.incr"), (3, "t.decr"), (4, "b.Increment"), (3, "b.Decrement"), (2, "t.get"), (2, "b.Get"),
         (1, "t.set"), (1, "b.Add"), (1, "t.cas"), (2, "t.gets"), (1, "b.Delete"), (1, "t.add")]
TIMES = STORES + [(2, "t.touch"), (2, "b.Touch"), (2, "b.GaT"), (1, "b.LaG"), (1, "t.unlock")]
ADDS = [(4, "t.add"), (3, "b.Add"), (3, "t.delete"), (2, "b.Delete"), (1, "t.replace"), (1, "t.get"), (1, "b.Get")]

# (name, mix, recorder options, daemon options)
RUNS = [
    ("stores", STORES, dict(keys=2, big=0.05, bigsize=9000), dict(heap_data_limit="4K")),
    ("locks", LOCKS, dict(keys=2), {}),
    ("arith", ARITH, dict(keys=2, numeric=True), {}),
    ("times", TIMES, dict(keys=2, exps=(99, 99, 1, 2), clock=0.06), dict(gc_interval=10)),
    ("adds", ADDS, dict(keys=1), {}),
    ("filed", STORES, dict(keys=1, sizes=(0, 3000, 9000)), dict(heap_data_limit="4K")),
]

SHIM = [dict(perturb=4, perturb_us=200, hold_mutex_us=300),
        dict(perturb=2, perturb_us=50, hold_mutex_us=60),
        dict(hold_mutex_us=800), {}]


def record(name, mix, ropt, dopt, seconds, maxn, nops, conns, seed, shim, workers):
    rnd = random.Random("%s/%s" % (name, seed))
    keys = ["a", "b", "c"][:ropt.get("keys", 2)]
    o = {k: v for k, v in ropt.items() if k != "keys"}
    d = vh.Daemon(workers=workers, buckets=1, ctl=dict(shim), seed=rnd.randrange(1 << 30), **dopt)
    hs = []
    try:
        r = lin.Recorder(d, mix, conns, keys, rnd, **o)
        t = time.time()
        while time.time() - t < seconds and len(hs) < maxn:
            hs.append(r.history(nops))
        r.close()
    except (vh.DaemonDied, vh.Stuck, EOFError, OSError) as e:
        time.sleep(0.1)
        return {"keys": keys, "hists": hs, "broken": "%s: %s: %s%s" % (
            name, type(e).__name__, e, "" if d.alive() else " (the daemon has exited)\n" + d.stderr())}
    finally:
        d.kill()
    return {"keys": keys, "hists": hs, "broken": None}


def judged(ck, what, hs, mod, consts, rounds=1):
    bad = lin.judge(ck, what, hs, mod, consts)
    ck.add(traces_validated_against_impl=len(hs))
    if bad:
        h = hs[bad[0]]
        at = lin.explain(h, mod, consts)
        ck.violation("%s: no sequential order of the commands explains the replies up to event %d of a "
                     "recorded history (%d of %d histories)" % (what, at, len(bad), len(hs)),
                     {"events": h[:at + 1], "module": mod})
        return False
    ck.sample({"history": what, "events": [[e[0], e[1] if e[0] == "r" else
              "%s %s(%s)" % (e[1]["c"], e[1].get("n", e[1].get("o")), e[1]["k"]), e[2] if len(e) > 2 else None]
              for e in hs[0][:8]]})
    return True


def cache(ck, runs=None, seconds=12, maxn=190, nops=60, rounds=1):
    vh.scratch()
    if vh.THOROUGH:
        rounds, maxn, seconds = 6, 330, 25
    runs = [r for r in RUNS if runs is None or r[0] in runs]
    conns = ["c%d" % i for i in range(5)]
    for rd in range(rounds):
        jobs = []
        for i, (name, mix, ropt, dopt) in enumerate(runs):
            shim = SHIM[(i + rd + vh.SEED) % len(SHIM)]
            wk = [4, 2, 6, 3][(i + rd) % 4]
            jobs.append(lambda name=name, mix=mix, ropt=ropt, dopt=dopt, shim=shim, wk=wk:
                        record(name, mix, ropt, dopt, seconds, maxn, nops, conns,
                               "%d.%d" % (vh.SEED, rd), shim, wk))
        res = model.parallel(jobs)
        for (name, _, _, _), r in zip(runs, res):
            if r["broken"]:
                ck.violation("concurrent commands: " + r["broken"], {"run": name})
                return False
        vh.log("recorded", [(n[0], len(r["hists"])) for n, r in zip(runs, res)])
        hs = [h for r in res for h in r["hists"]]
        if not judged(ck, "concurrent %s" % "/".join(r[0] for r in runs), hs, "CacheLin",
                      lin.cache_consts(conns, ["a", "b", "c"])):
            return False
    return True


def crecord(seconds, maxn, nops, conns, seed, shim, workers, small):
    rnd = random.Random("ctr/%s" % seed)
    d = vh.Daemon(workers=workers, buckets=1, ctl=dict(shim), seed=rnd.randrange(1 << 30), counter=True)
    hs = []
    try:
        r = lin.CounterRecorder(d, conns, ["a", "b"], rnd, small)
        t = time.time()
        while time.time() - t < seconds and len(hs) < maxn:
            hs.append(r.history(nops))
    except (vh.DaemonDied, vh.Stuck, EOFError, OSError) as e:
        time.sleep(0.1)
        return {"hists": hs, "broken": "%s: %s%s" % (
            type(e).__name__, e, "" if d.alive() else " (the daemon has exited)\n" + d.stderr())}
    finally:
        d.kill()
    return {"hists": hs, "broken": None}


def counter(ck, seconds=8, maxn=150, nops=50, rounds=1):
    vh.scratch()
    if vh.THOROUGH:
        rounds, maxn, seconds = 6, 300, 20
    conns = ["c%d" % i for i in range(9)]
    for rd in range(rounds):
        jobs = []
        for i in range(4):
            jobs.append(lambda i=i: crecord(seconds, maxn, nops, conns, "%d.%d.%d" % (vh.SEED, rd, i),
                                            SHIM[(i + rd) % 4], [4, 2, 6, 3][i], i % 2 == 0))
        res = model.parallel(jobs)
        for r in res:
            if r["broken"]:
                ck.violation("concurrent counter requests: " + r["broken"], {})
                return False
        hs = [h for r in res for h in r["hists"]]
        vh.log("recorded", len(hs))
        if not judged(ck, "concurrent counter requests", hs, "CounterLin",
                      lin.counter_consts(conns, ["a", "b"])):
            return False
    return True


def c03(ck):
    cache(ck)


def c09(ck):
    counter(ck)
