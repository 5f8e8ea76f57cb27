"""C26: heartbeats, silence, and slaves that do not read, decided by Slaves.tla."""
import beatdrv
import model
import slavesdrv
import vh

PROF = {
    "silent": dict(N=2, T=3, Steps={1, 3}, Real=set(), Stall=False, Late=False, Few=False),
    "edge": dict(N=1, T=10, Steps={1, 9}, Real=set(), Stall=True, Late=False, Few=False),
    "deaf": dict(N=2, T=6, Steps={3}, Real=set(), Stall=True, Late=False, Few=False),
    "late": dict(N=1, T=2, Steps={1}, Real=set(), Stall=False, Late=True, Few=False),
    "many": dict(N=6, T=4, Steps={3}, Real=set(), Stall=False, Late=False, Few=True),
    "real": dict(N=2, T=4, Steps={3}, Real={1}, Stall=False, Late=False, Few=False),
    "late2": dict(N=2, T=3, Steps={1, 3}, Real=set(), Stall=True, Late=True, Few=False),
    "edge2": dict(N=2, T=10, Steps={1, 9}, Real=set(), Stall=True, Late=False, Few=False),
    "three": dict(N=3, T=6, Steps={3}, Real=set(), Stall=True, Late=False, Few=False),
    "silent3": dict(N=3, T=4, Steps={1, 3}, Real=set(), Stall=False, Late=False, Few=False),
    "real2": dict(N=3, T=6, Steps={1, 3}, Real={1, 2}, Stall=True, Late=False, Few=False),
}


def c26(ck):
    names = ["silent", "edge", "deaf", "late", "many", "real"] + (
        ["late2", "edge2", "three", "silent3", "real2"] if vh.THOROUGH else [])
    gs = dict(model.graphs(ck, "Slaves", [(n, PROF[n]) for n in names]))
    items = []
    for n in names:
        def mk(slow, n=n):
            p = PROF[n]
            return slavesdrv.SlavesDriver(p["N"], p["T"], p["Real"], p["Stall"], slow=slow)
        items.append((n, gs[n], mk, None))
    g = dict(model.graphs(ck, "Beat", [("beat", dict(MaxN=2))]))["beat"]
    items.append(("beat", g, lambda slow: beatdrv.BeatDriver(slow=slow), None))
    model.conform(ck, items, procs=8, wander=60.0 if vh.THOROUGH else 3.0, limit=400.0)
