"""C17: requests outside the grammars, decided by Wire.tla."""
import model
import vh
import wiredrv


def c17(ck):
    names = ["text", "binary", "counter"]
    gs = dict(model.graphs(ck, "Wire", [(n, dict(Part=n)) for n in names]))
    items = []
    for n in names:
        def mk(slow, n=n):
            return wiredrv.WireDriver(n, slow=slow)
        items.append((n, gs[n], mk, lambda op: 0.3 if op["t"] == "huge" else 1.0))
    model.conform(ck, items, procs=8, wander=90.0 if vh.THOROUGH else 3.0, limit=400.0)
