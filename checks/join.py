"""C13: the initial copy, decided by Repl.tla."""
import joindrv
import model
import vh

BASE = dict(N=2, Clients={"c1"}, MaxVer=3, WithFlush=False, WithLeave=False, Sync=True, Gate=True)
PROF = {
    "held": dict(BASE),
    "leave": dict(BASE, WithLeave=True),
    "flush": dict(BASE, WithFlush=True),
    "two": dict(BASE, Clients={"c1", "c2"}),
    "all": dict(BASE, Clients={"c1", "c2"}, WithFlush=True, WithLeave=True),
}


def run(ck, specs, wander=3.0, thorough_wander=120.0, procs=8, limit=300.0):
    names = sorted({n for n, _ in specs})
    gs = dict(model.graphs(ck, "Repl", [(n, PROF[n]) for n in names]))
    items = []
    for i, (n, kw) in enumerate(specs):
        def mk(slow, kw=kw):
            return joindrv.JoinDriver(slow=slow, **kw)
        w = lambda op: 2 if op["o"] in ("tick", "gcstep", "settle") else 1
        items.append(("%s#%d" % (n, i), gs[n], mk, w))
    model.conform(ck, items, procs=procs, wander=thorough_wander if vh.THOROUGH else wander, limit=limit)


def c13(ck):
    run(ck, [("held", {}), ("flush", {})] + ([("all", {})] if vh.THOROUGH else []))
