"""C22: listings and statistics, decided by Stats.tla."""
import model
import statsdrv
import vh

LISTS = {"set", "get", "delete", "flush", "tick", "gc", "list", "listbusy", "lock", "unlock"}
HITS = {"set", "get", "gets", "gat", "lag", "burst", "arith", "delete", "cas", "lock", "unlock",
        "bad", "flush", "tick", "gc"}
BASE = dict(Keys={("a",)}, Starts={()}, Sizes={9}, Lives={9}, Many=1600, MaxN=1, MaxC=0, MaxS=0)


def P(**k):
    d = dict(BASE)
    d.update(k)
    return d


def sizes(*z, keys=2):
    return P(Keys={("a",), ("b",)} if keys == 2 else {("a",)}, Sizes=set(z), Does={"set", "delete", "gc", "get"})


PROF = {
    "list": (P(Keys={("a",), ("a", "a"), ("a", "b"), ("b",)}, Starts={(), ("a",), ("a", "b"), ("b", "a"), ("c",)},
               Lives={9, 1}, Does=LISTS - {"lock", "unlock", "gc"}), dict(fam=1), None),
    "families": (P(Keys={("a",), ("a", "b"), ("b",)}, Starts={(), ("a",), ("a", "b"), ("c",)},
                   Does=LISTS - {"lock", "unlock", "tick", "flush"}), dict(fam=60), None),
    "hits": (P(Keys={("a",), ("b",)}, Lives={9, 1}, Does=HITS - {"lag", "burst", "bad"}), {}, None),
    "hits1": (P(Lives={9, 1}, Does=HITS, MaxN=2), {}, None),
    "conns": (P(MaxC=3, MaxS=2, Lives={9, 1}, Does={"set", "gc", "connect", "close", "join", "leave", "list", "get"}),
              {}, None),
    "small": (sizes(1, 1023, 1024, 4095, 4096), {}, None),
    "medium": (sizes(16383, 16384, 65535, 65536), {}, None),
    "large": (sizes(262143, 262144, 1048575, keys=1), {}, None),
    "huge": (sizes(1048576, 4194303, 4194304, keys=1), {}, None),
    # more of the same
    "list2": (P(Keys={("a",), ("a", "a"), ("a", "b"), ("b",), ("b", "a", "b")},
                Starts={(), ("a",), ("a", "b"), ("b", "a"), ("b", "a", "b"), ("c",)},
                Lives={9, 1}, Does=LISTS - {"lock", "unlock"}), dict(fam=1), None),
    "locked": (P(Keys={("a",), ("a", "b"), ("b",)}, Starts={(), ("a",), ("b",)}, Lives={9, 1}, Does=LISTS),
               dict(fam=3), None),
    "hits2": (P(Keys={("a",), ("b",)}, Lives={9, 1}, Does=HITS, MaxN=2), {}, None),
    "conns2": (P(MaxC=6, MaxS=4, Lives={9, 1}, Does={"set", "gc", "connect", "close", "join", "leave", "list", "get"}),
               {}, None),
    "mixed": (sizes(1023, 4096, 65535, 262144), {}, None),
}
QUICK = ["list", "families", "hits", "hits1", "conns", "small", "medium", "large", "huge"]


def c22(ck):
    names = QUICK + (["list2", "locked", "hits2", "conns2", "mixed"] if vh.THOROUGH else [])
    gs = dict(model.graphs(ck, "Stats", [(n, PROF[n][0]) for n in names]))
    items = []
    for n in names:
        def mk(slow, n=n):
            return statsdrv.StatsDriver(slow=slow, **PROF[n][1])
        items.append((n, gs[n], mk, PROF[n][2]))
    model.conform(ck, items, procs=8, wander=40.0 if vh.THOROUGH else 2.5, limit=300.0)
