"""C15 and C27: roles, and the end of a server; decided by Role.tla."""
import model
import roledrv
import vh

ALL = {"half", "unread", "lock", "counter", "held", "gc", "slave", "busy"}
PROF = {
    "roles": dict(Loads=set(), Masters={"1", "2", "hole"}, Fixed=False, MaxL=0),
    "load": dict(Loads=ALL, Masters=set(), Fixed=True, MaxL=2),
    "load3": dict(Loads=ALL, Masters=set(), Fixed=True, MaxL=3),
}
PROPS = ("MasterEntry", "Keeps")


def part(ck, names):
    gs = {}
    for n in names:
        r = model.check_model("Role", dict(PROF[n], DumpOn=False), invariants=("Inv",), properties=PROPS)
        ck.model(r, "Role/%s (action properties)" % n)
    gs = dict(model.graphs(ck, "Role", [(n, PROF[n]) for n in names]))
    items = []
    for n in names:
        def mk(slow, n=n):
            return roledrv.RoleDriver(PROF[n]["Fixed"], slow=slow)
        items.append((n, gs[n], mk, None))
    model.conform(ck, items, procs=8, wander=90.0 if vh.THOROUGH else 5.0, limit=400.0)


def c15(ck):
    part(ck, ["roles"])


def c27(ck):
    part(ck, ["load", "roles"] + (["load3"] if vh.THOROUGH else []))
