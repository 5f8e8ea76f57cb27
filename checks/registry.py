"""Which functions decide which property."""

BASE = ["The daemon runs under an LD_PRELOAD shim that gives it a virtual clock and "
        "address list and can delay, cut or refuse system calls; the code itself is unmodified.",
        "Bounded: exhaustive for the listed instances of the specification; random beyond them."]
REPLAY = ("TLC explores the specification exhaustively and every transition of its state "
          "graph is performed on the daemon built from /repo (conformance replay), "
          "followed by random walks through the same graph")

CHECKS = {
    "C01": dict(parts=[("cache", "c01")], technique="TLA+ (Cache.tla) with TLC; full transition replay",
                how="every command in every abstract state of an object, both protocols, plain and quiet; values, flags, numbers at 2^64 (store, lock, limit)"),
    "C02": dict(parts=[("cache", "c02")], technique="TLA+ (Cache.tla) with TLC; full transition replay",
                how="two clients with current and old CAS tokens, deletion, expiry and re-creation (cas, caslock, expirecas)"),
    "C03": dict(parts=[("conc", "c03")], technique="TLA+ (CacheLin.tla) with TLC: recorded concurrent histories are checked against the specification (linearizability)",
                how="5 connections, 2-6 workers, perturbed schedule, 6 command mixes; TLC searches a linearization of each recorded history"),
    "C04": dict(parts=[("cache", "c04")], technique="TLA+ (Cache.tla) with TLC; full transition replay on a virtual clock",
                how="virtual clock, collected lazily or eagerly, unit 1..30 days, relative/absolute/past (expire, expiregc, expirecas, expirelock)"),
    "C05": dict(parts=[("cache", "c05")], technique="TLA+ (Cache.tla) with TLC; full transition replay on a virtual clock",
                how="flushes with all delays against stores, locks, clock steps and a running collector (flush, flushexp)"),
    "C06": dict(parts=[("cache", "c06")], technique="TLA+ (Cache.tla) with TLC; full transition replay",
                how="every command against own, foreign and no lock (lock, lock2, lock3, caslock)"),
    "C07": dict(parts=[("cache", "c07"), ("evict", "c07")], technique="TLA+ (Cache.tla, Evict.tla) with TLC; full transition replay",
                how="all ends of connections with any set of locks (lock2, lock3, caslock) and under memory pressure (Evict: ends)"),
    "C08": dict(parts=[("cache", "c08"), ("evict", "c08")], technique="TLA+ (Cache.tla, Evict.tla) with TLC; full transition replay on a virtual clock",
                how="locks against expiry, flush, collection (Cache) and eviction (Evict: locks)"),
    "C09": dict(parts=[("counter", "c09"), ("conc", "c09")], technique="TLA+ (Counter.tla, CounterLin.tla) with TLC; full transition replay and trace checking of concurrent histories",
                how="acquire/release with 32-bit boundaries; concurrent histories"),
    "C10": dict(parts=[("counter", "c10")], technique="TLA+ (Counter.tla) with TLC; full transition replay",
                how="all ends of connections, also with a request held up in a worker"),
    "C11": dict(parts=[("counter", "c11")], technique="TLA+ (Counter.tla) with TLC; full transition replay on a virtual clock",
                how="dumps over period boundaries on a virtual clock"),
    "C12": dict(parts=[("replc", "c12")], technique="TLA+ (Cache.tla) with TLC; full transition replay with slaves attached",
                how="Cache walks with one to three fake slaves that decode the stream, plus real slaves; contents are compared after each transition"),
    "C13": dict(parts=[("join", "c13")], technique="TLA+ (Repl.tla) with TLC; full transition replay with held commands and a stepped collector",
                how="commands held up across the join, collector stepped bucket by bucket; what the slave holds is compared with the master"),
    "C14": dict(parts=[("replc", "c14")], technique="TLA+ (Cache.tla) with TLC; full transition replay with a slave that takes over",
                how="master dies at every point, slave takes over, new master; contents compared; clients refused while slave"),
    "C15": dict(parts=[("role", "c15")], technique="TLA+ (Role.tla) with TLC; full transition replay of one server among simulated masters with a virtual address list",
                how="start, gain and loss of the address, masters that appear, vanish or do not answer, in every order; refused clients and slaves; what a slave received is there after takeover; collection ends a master without the address"),
    "C16": dict(parts=[("stream", "c16")], technique="TLA+ (Stream.tla) with TLC; full transition replay with streams cut anywhere",
                how="every cut of every pair of requests at piece boundaries placed anywhere, pipelines"),
    "C17": dict(parts=[("wire", "c17")], technique="TLA+ (Wire.tla: the request grammars) with TLC; full transition replay of requests outside the grammars",
                how="near misses of the grammars of the three protocols, object and lock state compared afterwards"),
    "C18": dict(parts=[("sock", "c18")], technique="TLA+ (Sock.tla) with TLC; full transition replay with clients that read late, in parts or never",
                how="replies beyond the kernel buffers, small buffers, short writes; other clients and the collector meanwhile use the same keys; quit and half-close behind unread replies"),
    "C19": dict(parts=[("cache", "c19")], technique="TLA+ (Cache.tla) with TLC; full transition replay",
                how="values around heap_data_limit and max_data_size with every growing command (limit, limitlock)"),
    "C20": dict(parts=[("evict", "c20")], technique="TLA+ (Evict.tla) with TLC, safety and liveness; full transition replay on a virtual clock",
                how="ages, sizes, locks and collections under memory pressure; liveness of relief"),
    "C21": dict(parts=[("conn", "c21")], technique="TLA+ (Conn.tla) with TLC; full transition replay with limits, all ends of connections, and failing accepts",
                how="limits 1-3 on both servers; connections that end with FIN, RST, quit, nonsense or half a request; accept failing for a while (EMFILE, ENFILE, ENOBUFS, ENOMEM) or once (all errors of accept(2)); replies and effects belong to their own connection; statistics of connections exact"),
    "C25": dict(parts=[("work", "c25")], technique="TLA+ (Work.tla) with TLC; full transition replay with workers held up at chosen points",
                how="workers held up before reading and after draining; bursts of other connections"),
    "C26": dict(parts=[("slaves", "c26")], technique="TLA+ (Slaves.tla, Beat.tla) with TLC; full transition replay with simulated and real slaves on a virtual clock",
                how="slaves that beat, are silent, do not read (buffers full, clients waiting), disconnect in all ways, more than allowed; real slaves; contents of the others compared"),
    "C27": dict(parts=[("role", "c27")], technique="TLA+ (Role.tla) with TLC; full transition replay of signals in every role and under every load",
                how="TERM, INT, QUIT, USR1, HUP while requests are incomplete, unread, held in a worker, waiting for a slave, during a collection, under continuous traffic, and in each role"),
    "C24": dict(parts=[("config", "c24")], technique="TLA+ (Config.tla) with TLC; files generated from the specification run by real servers, what is seen judged by TLC",
                how="each written value of each option, defaults, repeated options, junk lines, layouts, random files of many options; effects seen from outside (settings, temporary files, slaves, users, logs, connections)"),
    "C23": dict(parts=[("secure", "c23")], technique="TLA+ (Secure.tla) with TLC; full transition replay, every block of memory the daemon gives back is searched for the value stored",
                how="every transition of several instances: stores of both protocols, appends and prepends, arithmetic, expiration, flush, eviction, and the passage of a value from memory to a file"),
    "C22": dict(parts=[("stats", "c22")], technique="TLA+ (Stats.tla) with TLC; full transition replay, the statistics of both protocols compared before and after each operation",
                how="listings by prefix (also while other clients store and delete, and of families of keys in few buckets), hits and misses under bursts of many clients, counts of commands, connections, slaves and collections, numbers and sizes at each boundary"),
}
NOT_APPLICABLE = {}
# further lines for DESIGN.md
MODULES = []

for _c in CHECKS.values():
    _c.setdefault("level", "model_checking")
    _c.setdefault("note", REPLAY + ". Assumes the bounded instances represent the unbounded "
                  "system and trusts TLC, the replay driver and the shim.")
    _c["assumptions"] = BASE + _c.get("assumptions", [])
