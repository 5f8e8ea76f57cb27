"""Bounded instances of Cache.tla: each stresses some of the properties and is
explored completely."""

BASE = dict(Keys={"a"}, Conns={"c1"}, Vals={(7,)}, FlagSet={0}, ExpSet={99},
            Toks={"no"}, Deltas={3}, Inits={99}, Names=set(), MaxLen=2,
            Limited=False, MaxNum=20, FlushSet=set(), GcOnTick=False, UseTok=False)

T_STORE = {"t.set", "t.add", "t.replace", "t.append", "t.prepend"}
T_ARITH = {"t.incr", "t.decr"}
B_STORE = {"b.Set", "b.Add", "b.Replace", "b.Append", "b.Prepend"}
B_ARITH = {"b.Increment", "b.Decrement"}
READ = {"t.get", "b.Get"}
LOCKS = {"t.lock", "t.unlock", "t.unlock_all", "b.Lock", "b.Unlock", "b.UnlockAll",
         "b.LaG", "b.RaU"}


def P(**k):
    d = dict(BASE)
    d.update(k)
    return d


PROFILES = {
    # every storage and arithmetic command, one connection
    "store": P(Vals={(), (5000,), (7,), (998,)}, FlagSet={0, 1}, Deltas={3, 20, 999},
               Inits={99, 5, 999}, MaxNum=30,
               Names=T_STORE | T_ARITH | B_STORE | B_ARITH | READ |
               {"t.gets", "t.delete", "b.Delete", "t.touch", "b.Touch", "b.GaT"}),
    # conditional updates by two clients that hold tokens of different age
    "cas": P(Conns={"c1", "c2"}, Vals={(5000,), (7,)}, Toks={"no", "cur", "old"},
             Inits={99, 5}, MaxNum=10, MaxLen=1, UseTok=True,
             Names={"t.gets", "t.cas", "t.set", "t.incr", "t.delete", "t.touch", "t.append",
                    "b.Get", "b.Delete"} | B_STORE | B_ARITH),
    # conditional updates against locks, replace-and-unlock with tokens
    "caslock": P(Conns={"c1", "c2"}, Vals={(5000,), (7,)}, Toks={"no", "cur", "old"},
                 MaxNum=7, MaxLen=1, UseTok=True,
                 Names={"t.gets", "t.cas", "t.lock", "t.unlock", "b.LaG", "b.RaU", "b.Set",
                        "b.Delete", "t.delete", "b.Unlock", "close"}),
    # expiration, collected lazily and eagerly
    "expire": P(Vals={(5000,), (7,)}, ExpSet={99, 0, 1, 2}, Inits={99, 5}, MaxNum=10,
                Names={"t.set", "t.add", "t.replace", "t.append", "t.prepend", "t.incr", "t.decr",
                       "t.touch", "t.get", "t.delete", "b.Set", "b.Add", "b.Replace", "b.Append",
                       "b.Prepend", "b.Increment", "b.Decrement", "b.Touch", "b.GaT", "b.Get",
                       "b.Delete", "tick"}),
    "expirecas": P(Vals={(5000,)}, ExpSet={99, 0, 1, 2}, Toks={"no", "cur", "old"},
                   UseTok=True, MaxLen=1,
                   Names={"t.gets", "t.cas", "b.Set", "b.Add", "b.Replace", "b.Touch", "b.GaT",
                          "b.Get", "b.LaG", "b.RaU", "b.Unlock", "tick"}),
    # locks keep objects from expiring
    "expirelock": P(Conns={"c1", "c2"}, ExpSet={99, 0, 1}, MaxLen=1, MaxNum=7,
                    Names={"t.set", "t.touch", "t.get", "t.lock", "t.unlock", "b.LaG", "b.RaU",
                           "b.Touch", "b.GaT", "t.unlock_all", "b.Lock", "b.Unlock", "close",
                           "t.quit", "tick", "b.Set"}),
    # locks of two clients on one key: every command
    "lock": P(Conns={"c1", "c2"}, Vals={(5000,), (7,)}, Deltas={3}, Inits={99, 5}, MaxNum=10,
              MaxLen=1,
              Names=T_STORE | T_ARITH | B_STORE | B_ARITH | READ | LOCKS |
              {"t.delete", "b.Delete", "t.touch", "b.Touch", "b.GaT", "t.gets"}),
    # locks of two or three clients on several keys, and how they go away
    "lock2": P(Conns={"c1", "c2"}, Keys={"a", "b"},
               Names=LOCKS | {"t.set", "t.delete", "b.Delete", "t.get", "b.Quit", "t.quit", "close"}),
    "lock3": P(Conns={"c1", "c2", "c3"}, Keys={"a", "b", "c"},
               Names={"t.set", "t.lock", "t.unlock", "t.unlock_all", "b.LaG", "b.RaU",
                      "t.delete", "close"}),
    # flush now or later, with locks
    "flush": P(Keys={"a", "b"}, Conns={"c1", "c2"}, FlushSet={0, 1, 2},
               Names={"t.set", "t.get", "t.add", "t.delete", "t.lock", "b.Unlock", "t.unlock_all",
                      "t.flush_all", "b.Flush", "b.Get", "tick"}),
    "flushexp": P(Keys={"a"}, FlushSet={0, 1, 2}, ExpSet={99, 1, 3}, MaxNum=7, MaxLen=1,
                  Names={"t.set", "t.get", "t.touch", "b.Add", "b.LaG", "b.RaU", "b.GaT",
                         "t.flush_all", "b.Flush", "t.lock", "t.unlock", "tick"}),
    # values around max_data_size and heap_data_limit
    "limit": P(Vals={(5000,), (5001,), (5000, 5001), (5000, 5000, 5001), (5001, 5000, 5001, 5000),
                     (5000, 5001, 5000, 5001, 5000)},
               MaxLen=4, Limited=True,
               Names=T_STORE | B_STORE | {"t.get", "b.Get", "t.delete", "t.gets"}),
    "limitlock": P(Conns={"c1", "c2"}, Vals={(5000,), (5001, 5000, 5001)}, MaxLen=4, Limited=True,
                   Names={"t.set", "t.append", "b.Prepend", "t.get", "b.LaG", "b.RaU",
                          "t.unlock", "b.Delete", "close"}),
}
PROFILES.update({
    # the master fails, a slave takes over
    "failovera": P(Keys={"a"}, Vals={(5000,), (7,)}, MaxLen=2, MaxNum=9, FlagSet={0, 1}, ExpSet={99},
                   Names={"t.set", "t.append", "b.Increment", "t.delete", "t.lock", "b.RaU",
                          "failover"}),
    "failoverb": P(Keys={"a", "b"}, Vals={(5000,)}, MaxLen=1, ExpSet={99},
                   Names={"t.set", "b.Delete", "t.get", "t.lock", "failover", "newmaster"}),
    "failoverc": P(Keys={"a"}, FlagSet={0}, ExpSet={99, 1, 2}, MaxLen=1, FlushSet={0},
                   Names={"b.Set", "t.touch", "t.get", "t.lock", "t.unlock", "t.delete",
                          "t.flush_all", "tick", "failover", "newmaster"}),
    "failover": P(Keys={"a", "b"}, Vals={(5000,), (7,)}, MaxLen=2, MaxNum=10, ExpSet={99},
                  Names={"t.set", "t.append", "b.Increment", "t.delete", "b.Delete", "t.get",
                         "t.lock", "b.RaU", "failover"}),
    "failover2": P(Keys={"a"}, FlagSet={0, 1}, ExpSet={99, 1, 2}, MaxLen=1, FlushSet={0},
                   Names={"b.Set", "t.touch", "b.GaT", "t.get", "t.lock", "t.unlock", "t.delete",
                          "t.flush_all", "tick", "failover", "newmaster"}),
})
PROFILES["expiregc"] = dict(PROFILES["expire"], GcOnTick=True)
PROFILES["expirelockgc"] = dict(PROFILES["expirelock"], GcOnTick=True)
