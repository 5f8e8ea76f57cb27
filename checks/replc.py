"""Replication checks."""
import cachedrv
import model
import profiles
import repl
import vh

CLOCKED = dict(clocked=True)
LIM = dict(chunk=2048, max_data_size="8K", heap_data_limit="4K")


def run(ck, specs, wander=3.0, thorough_wander=60.0, procs=6):
    names = sorted({n for n, _ in specs})
    gs = dict(model.graphs(ck, "Cache", [(n, profiles.PROFILES[n]) for n in names]))
    items = []
    for i, (n, kw) in enumerate(specs):
        def mk(slow, kw=kw):
            return repl.ReplDriver(slow=slow, **kw)
        items.append(("%s#%d" % (n, i), gs[n], mk, None))
    model.conform(ck, items, procs=procs, wander=thorough_wander if vh.THOROUGH else wander)


def c12(ck):
    specs = [("store", {}), ("expiregc", dict(CLOCKED, gc_on_tick=True)),
             ("flush", CLOCKED), ("lock", {}), ("limit", LIM)]
    if vh.THOROUGH:
        specs += [("expire", CLOCKED), ("expirelockgc", dict(CLOCKED, gc_on_tick=True))]
    run(ck, specs)


def pairs(ck, specs, wander=3.0, thorough_wander=90.0, procs=7):
    import pair
    names = sorted({n for n, _ in specs})
    gs = dict(model.graphs(ck, "Cache", [(n, profiles.PROFILES[n]) for n in names]))
    items = []
    for i, (n, kw) in enumerate(specs):
        def mk(slow, kw=kw):
            return pair.PairDriver(slow=slow, **kw)
        w = lambda op: 0.3 if op["n"] in ("failover", "newmaster") else 1
        items.append(("%s#%d" % (n, i), gs[n], mk, w))
    model.conform(ck, items, procs=procs, wander=thorough_wander if vh.THOROUGH else wander)


def c14(ck):
    specs = [("failovera", {}), ("failoverb", {}), ("failoverc", CLOCKED)]
    if vh.THOROUGH:
        specs += [("failover", {}), ("failover2", CLOCKED)]
    pairs(ck, specs, wander=7.0)
