"""C23: memory of values is overwritten before it is given back, decided by Secure.tla."""
import model
import securedrv
import vh

BASE = dict(Keys={"a"}, Pieces={40}, MaxLen=3, Heap=262144, Lives={9}, Erase=True)
STORES = {"set", "add", "replace", "cas", "rau", "append", "prepend"}
TIME = {"wait", "gc", "flush"}


def P(**k):
    d = dict(BASE)
    d.update(k)
    return d


PROF = {
    "stores": (P(Keys={"a", "b"}, Pieces={13, 200}, MaxLen=2, Lives={9, 1}, Does=STORES | TIME | {"delete"}), {}),
    "growth": (P(Pieces={12, 100, 3000}, Does={"set", "append", "prepend", "delete", "get", "flush"}), {}),
    "numbers": (P(Keys={"a", "b"}, Pieces={16}, MaxLen=1, Lives={9, 1},
                  Does={"set", "setnum", "init", "incr", "decr", "delete", "get", "wait", "gc", "flush"}), {}),
    "files": (P(Pieces={2500, 3900}, Heap=4096, Does=STORES | {"delete", "get", "flush"}),
              dict(heap_data_limit="4K")),
    "evict": (P(Keys={"a", "b"}, Pieces={30, 500}, MaxLen=2,
                Does={"set", "append", "prepend", "setnum", "incr", "decr", "get", "evict"}), dict(memory_limit="1")),
}


def c23(ck):
    names = list(PROF)
    gs = dict(model.graphs(ck, "Secure", [(n, PROF[n][0]) for n in names], invariants=("Inv",)))
    items = []
    for n in names:
        def mk(slow, n=n):
            return securedrv.SecureDriver(slow=slow, **PROF[n][1])
        items.append((n, gs[n], mk, lambda op: 0.3 if op["o"] in ("evict", "flush", "gc") else 1))
    model.conform(ck, items, procs=8, wander=40.0 if vh.THOROUGH else 2.0, limit=300.0)
