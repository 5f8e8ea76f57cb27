"""C25: workers and waiting requests, decided by Work.tla."""
import model
import vh
import workdrv

PROF = {
    "one": dict(Conns={"c1", "c2", "c3"}, Workers=1, MaxP=2),
    "two": dict(Conns={"c1", "c2", "c3"}, Workers=2, MaxP=2),
    "three": dict(Conns={"c1", "c2", "c3"}, Workers=3, MaxP=2),
    "deep": dict(Conns={"c1", "c2"}, Workers=1, MaxP=4),
    "four": dict(Conns={"c0", "c1", "c2", "c3"}, Workers=2, MaxP=1),
}


def c25(ck):
    names = ["one", "two"] + (["three", "deep", "four"] if vh.THOROUGH else [])
    gs = dict(model.graphs(ck, "Work", [(n, PROF[n]) for n in names]))
    items = []
    for n in names:
        def mk(slow, n=n):
            return workdrv.WorkDriver(sorted(PROF[n]["Conns"]), PROF[n]["Workers"], slow=slow)
        items.append((n, gs[n], mk, lambda op: 0.2 if op["o"] == "burst" else 1.0))
    model.conform(ck, items, procs=8, wander=60.0 if vh.THOROUGH else 3.0, limit=400.0)
