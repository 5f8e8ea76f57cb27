"""Checks of the counter protocol, decided by Counter.tla."""
import counterdrv
import model
import vh

BASE = dict(Keys={"a"}, Conns={"c1", "c2"}, Amounts={0, 1, 7, 8, 15}, Maxima={0, 7, 8, 15},
            Names={"Acquire", "Release", "Get", "close"}, Limit=15, Steps=2)


def P(**k):
    d = dict(BASE)
    d.update(k)
    return d


PROFILES = {
    "admit": P(),
    "admit3": P(Conns={"c1", "c2", "c3"}, Amounts={0, 5, 10}, Maxima={5, 10, 15}),
    "names": P(Keys={"a", "b"}, Conns={"c1", "c2"}, Amounts={0, 1, 2}, Maxima={2, 3},
               Names={"Acquire", "Release", "Get", "close", "LastAcquire"}),
    "close": P(Keys={"a", "b"}, Conns={"c1", "c2", "c3"}, Amounts={1, 2}, Maxima={2},
               Names={"Acquire", "Release", "close", "LastAcquire", "Dump"}),
    "period": P(Keys={"a"}, Conns={"c1", "c2"}, Amounts={0, 1, 2, 3}, Maxima={3, 4},
                Names={"Acquire", "Release", "Dump", "tick", "Get", "close", "LastAcquire"}),
    "period2": P(Keys={"a", "b"}, Conns={"c1"}, Amounts={0, 1, 2}, Maxima={2, 3},
                 Names={"Acquire", "Release", "Dump", "tick", "close"}),
}


def run(ck, names, wander=3.0, thorough_wander=60.0):
    gs = model.graphs(ck, "Counter", [(n, PROFILES[n]) for n in names])
    items = []
    for n, g in gs:
        def mk(slow, n=n):
            sc = (1, 0x11111111) if n.startswith("admit") else (1, 0x11111111, 1000)
            return counterdrv.CounterDriver(slow=slow, scales=sc, steps=PROFILES[n]["Steps"])
        items.append((n, g, mk, None))
    model.conform(ck, items, wander=thorough_wander if vh.THOROUGH else wander)


def c09(ck):
    run(ck, ["admit", "admit3", "names"])


def c10(ck):
    run(ck, ["close", "names"])


def c11(ck):
    run(ck, ["period", "period2"])
