"""Checks that are decided by Evict.tla."""
import evictdrv
import model
import vh

PROF = {
    "locks": dict(Keys={"a", "b"}, Sizes={"b", "f"}, MaxAge=3,
                  Names={"use", "read", "delete", "peek", "lock", "unlock", "steal"}),
    "ends": dict(Keys={"a", "b"}, Sizes={"b"}, MaxAge=3, Names={"lock", "unlock", "end"}),
    "sizes": dict(Keys={"a", "b", "c"}, Sizes={"b", "s"}, MaxAge=3, Names={"use", "delete"}),
    "three": dict(Keys={"a", "b", "c"}, Sizes={"b"}, MaxAge=3, Names={"use", "lock", "unlock"}),
    "aged": dict(Keys={"a", "b", "c"}, Sizes={"b"}, MaxAge=5, Names={"lock", "delete"}),
    "locks4": dict(Keys={"a", "b"}, Sizes={"b", "f"}, MaxAge=4,
                   Names={"use", "read", "delete", "peek", "lock", "unlock", "steal"}),
    "deep": dict(Keys={"a", "b", "c"}, Sizes={"b"}, MaxAge=5, Names={"use", "lock", "unlock"}),
}


def run(ck, specs, wander=3.0, thorough_wander=60.0, procs=8):
    names = sorted({n for n, _ in specs})
    gs = dict(model.graphs(ck, "Evict", [(n, PROF[n]) for n in names]))
    # C20: use returns below the limit
    if ck.pid == "C20":
        r = model.check_model("Evict", dict(PROF["sizes"], DumpOn=False), spec="Relief",
                              properties=("Returns",))
        ck.model(r, "Evict/Relief")
    items = []
    for i, (n, kw) in enumerate(specs):
        def mk(slow, kw=kw):
            return evictdrv.EvictDriver(slow=slow, **kw)
        w = lambda op: 6 if op["o"] == "gc" else 0.4 if op["o"] == "delete" else 1
        items.append(("%s#%d" % (n, i), gs[n], mk, w))
    model.conform(ck, items, procs=procs, wander=thorough_wander if vh.THOROUGH else wander)


def c08(ck):
    run(ck, [("locks", {})])


def c07(ck):
    run(ck, [("ends", dict(slaves=0))], wander=2.0, thorough_wander=20.0)


def c20(ck):
    run(ck, [("aged", dict(slaves=0, interval=3600)), ("sizes", {}), ("locks", {})] +
        ([("three", dict(slaves=0)), ("deep", dict(slaves=0, interval=3600)), ("locks4", {})] if vh.THOROUGH else []))
