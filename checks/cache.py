"""Checks that are decided by Cache.tla and the replay of its transitions."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
import cachedrv
import model
import profiles
import vh


def item(g, name, **kw):
    def mk(slow):
        return cachedrv.CacheDriver(slow=slow, **kw)
    return (name, g, mk, None)


CLOCKED = dict(clocked=True)


def run(ck, specs, wander=3.0, thorough_wander=60.0, procs=6):
    """specs: (profile, {driver options}) pairs."""
    vh.build()
    vh.build_shim()
    names = sorted({n for n, _ in specs})
    gs = dict(model.graphs(ck, "Cache", [(n, profiles.PROFILES[n]) for n in names]))
    items = []
    for i, (n, kw) in enumerate(specs):
        items.append(item(gs[n], "%s#%d" % (n, i), **kw))
    model.conform(ck, items, procs=procs, wander=thorough_wander if vh.THOROUGH else wander)


LIM = dict(chunk=2048, max_data_size="8K", heap_data_limit="4K")


def c01(ck):
    run(ck, [("store", {}), ("lock", {}), ("limit", dict(LIM, quiet=0.3))])


def c02(ck):
    run(ck, [("cas", {}), ("caslock", {}), ("expirecas", CLOCKED)])


def c04(ck):
    run(ck, [("expire", CLOCKED), ("expiregc", dict(CLOCKED, gc_on_tick=True)),
             ("expire", dict(CLOCKED, unit=2592000)),
             ("expirecas", CLOCKED), ("expirelock", CLOCKED)])


def c05(ck):
    run(ck, [("flush", CLOCKED), ("flushexp", CLOCKED), ("flush", dict(CLOCKED, unit=2592000))])


def c06(ck):
    run(ck, [("lock", {}), ("lock2", {}), ("lock3", {}), ("caslock", {})])


def c07(ck):
    run(ck, [("lock2", {}), ("lock3", {}), ("caslock", {})])


def c08(ck):
    run(ck, [("expirelock", CLOCKED), ("expirelockgc", dict(CLOCKED, gc_on_tick=True)),
             ("flush", CLOCKED), ("flushexp", CLOCKED)])


def c19(ck):
    run(ck, [("limit", LIM), ("limit", dict(chunk=2048, max_data_size="8K", heap_data_limit="5K", quiet=0.5)),
             ("limitlock", LIM)])
