"""C16: streams of requests, decided by Stream.tla."""
import model
import streamdrv
import vh

TEXT = {"set", "setn", "add", "app", "appn", "get", "del", "deln", "bad"}
BIN = {"Set", "SetQ", "AddQ", "App", "Get", "GetQ", "GetK", "DelQ", "Noop", "Bad"}
CTR = {"cNoop", "cAcq", "cRel", "cGet", "cBad"}
PROF = {
    "text": dict(Kinds=TEXT, MaxWhole=2),
    "binary": dict(Kinds=BIN, MaxWhole=2),
    "counter": dict(Kinds=CTR, MaxWhole=2),
    "mixed": dict(Kinds={"set", "setn", "get", "ver", "bad", "SetQ", "GetQ", "Noop"}, MaxWhole=2),
    "text3": dict(Kinds={"set", "setn", "app", "get", "deln", "bad"}, MaxWhole=3),
    "binary3": dict(Kinds={"Set", "SetQ", "AppQ", "GetKQ", "Del", "Noop"}, MaxWhole=3),
    "all": dict(Kinds=TEXT | BIN | {"addn", "ver", "Add", "AppQ", "GetKQ", "Del"}, MaxWhole=1),
}


def c16(ck):
    names = ["text", "binary", "counter"]
    if vh.THOROUGH:
        names += ["mixed", "text3", "binary3", "all"]
    gs = dict(model.graphs(ck, "Stream", [(n, PROF[n]) for n in names]))
    items = []
    for n in names:
        def mk(slow, n=n):
            return streamdrv.StreamDriver(slow=slow, counter=n == "counter")
        items.append((n, gs[n], mk, None))
    model.conform(ck, items, procs=8, wander=60.0 if vh.THOROUGH else 3.0, limit=400.0)
