"""C18: clients that do not read, decided by Sock.tla."""
import model
import sockdrv
import vh

PROF = {
    "one": dict(Conns={"c1"}, Workers=2, MaxU=4),
    "two": dict(Conns={"c1", "c2"}, Workers=2, MaxU=2),
    "more": dict(Conns={"c1", "c2"}, Workers=3, MaxU=3),
}


def c18(ck):
    names = ["one", "two"] + (["more"] if vh.THOROUGH else [])
    gs = dict(model.graphs(ck, "Sock", [(n, PROF[n]) for n in names]))
    items = []
    for n in names:
        for ctr in (False, True):
            def mk(slow, n=n, ctr=ctr):
                return sockdrv.SockDriver(sorted(PROF[n]["Conns"]), PROF[n]["Workers"], ctr, slow=slow)
            items.append(("%s%s" % (n, "#counter" if ctr else ""), gs[n], mk, None))
    model.conform(ck, items, procs=8, wander=60.0 if vh.THOROUGH else 3.0, limit=400.0)
