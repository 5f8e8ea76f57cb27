"""C21: connections, decided by Conn.tla."""
import conndrv
import model
import vh

PROF = {
    "cache": dict(Order=3, Counters=0, Limit=2, CLimit=1, MaxQ=2),
    "counter": dict(Order=2, Counters=2, Limit=0, CLimit=1, MaxQ=3),
    "free": dict(Order=2, Counters=1, Limit=0, CLimit=0, MaxQ=2),
    "cache3": dict(Order=3, Counters=0, Limit=2, CLimit=1, MaxQ=3),
    "counter3": dict(Order=3, Counters=3, Limit=1, CLimit=2, MaxQ=3),
    "both": dict(Order=4, Counters=2, Limit=1, CLimit=1, MaxQ=3),
    "nolimit": dict(Order=3, Counters=1, Limit=0, CLimit=0, MaxQ=3),
    "one": dict(Order=3, Counters=0, Limit=1, CLimit=0, MaxQ=4),
    "four": dict(Order=4, Counters=0, Limit=3, CLimit=0, MaxQ=4),
}


def c21(ck):
    names = ["cache", "counter", "free"] + (["cache3", "counter3", "nolimit", "both", "one", "four"] if vh.THOROUGH else [])
    gs = dict(model.graphs(ck, "Conn", [(n, PROF[n]) for n in names]))
    items = []
    for n in names:
        def mk(slow, n=n):
            p = PROF[n]
            return conndrv.ConnDriver(p["Order"], p["Counters"], p["Limit"], p["CLimit"], slow=slow)
        items.append((n, gs[n], mk, None))
    model.conform(ck, items, procs=8, wander=60.0 if vh.THOROUGH else 3.0, limit=400.0)
