#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property texts are kept here)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          **({"state": [{"name": n, "meaning": m} for n, m in state]} if state else {}),
                          **({"observe_at": list(observe)} if observe else {})}})

MC = "src/memcache/"
p("C01", "Commands of both protocols mean what the protocol says",
  "For every sequence of storage, retrieval, arithmetic, touch and delete commands, in the text and the binary protocol and in their quiet or noreply forms, every reply and the resulting value, flags and existence of every object are the ones the command has for the current objects: set/add/replace/append/prepend/incr/decr/delete/touch keep to their preconditions, a command that fails changes nothing, incr wraps at 2^64 and decr stops at 0, and append/prepend leave flags and expiration alone. "
  "A quiet or noreply form has exactly the effect of the plain form, and both protocols act on the same objects.",
  ["histories", "inputs"], "all command sequences over several keys and connections, all values, flags and operands",
  "The tests perform one fixed script per command from a known state on an already running server; the effect of a command depends on the whole history (absent, expired, numeric, empty, flagged, locked objects) and on the protocol variant.",
  [MC+"sockets.cpp", MC+"memcache.cpp", MC+"object.cpp", "cybozu/hash_map.hpp"],
  [("cmd_text/cmd_bin: one hash operation per command", MC+"sockets.cpp"), ("apply under the bucket lock", "cybozu/hash_map.hpp"), ("object::set/append/prepend/incr/decr", MC+"object.cpp")],
  [("object", "value, flags, expiration, CAS value, lock")], ["replies on client connections"])
p("C02", "Compare-and-swap never loses an update",
  "A conditional update (text cas, binary update, increment, append, delete or replace-and-unlock with a CAS value) succeeds only if the object's contents have not changed since the CAS value was handed out, and it does succeed if they have not. "
  "Every change of contents gives the object a CAS value that the key has never had before, also when the object was deleted, expired or flushed in between; a failed conditional update changes nothing.",
  ["histories", "schedules"], "all histories of conditional and unconditional updates by several clients that hold CAS values of any age",
  "The tests use one client and at most one stale value; deletion and re-creation between gets and cas is never tried.",
  [MC+"object.hpp", MC+"object.cpp", MC+"sockets.cpp"],
  [("object::m_cas renewed at each modification", MC+"object.cpp"), ("comparison under the bucket lock", MC+"sockets.cpp")],
  [("CAS value", "identifies one version of an object's contents")], ["gets / binary replies"])
p("C03", "Concurrent commands on a key are linearizable",
  "When many clients issue commands at the same time, the replies are those of some sequential order of the commands that respects real time (a command that ended before another began comes first): no update is lost or applied twice, no reader sees a mixture of two values, and two clients never both win the same add, cas or lock.",
  ["schedules", "histories"], "all interleavings of commands of concurrent connections on shared keys, processed by any number of worker threads, with the garbage collector running",
  "The tests talk to the server one request at a time; no test has two requests in flight.",
  ["cybozu/hash_map.hpp", "cybozu/spinlock.hpp", MC+"sockets.cpp", MC+"object.cpp", MC+"gc.cpp"],
  [("bucket mutex around every operation", "cybozu/hash_map.hpp"), ("precondition and update in one critical section", MC+"sockets.cpp")],
  [("object", "shared between worker and GC threads")], ["call and return of every command"])
p("C04", "Objects expire at their time and not before",
  "An object can be read until its expiration time and from then on behaves as absent for every command, whether or not it has been collected; relative times (up to 30 days), absolute times, times in the past and 'never' mean the same in both protocols, and only commands that carry an expiration time change it. "
  "An expired object never comes back to life: a later store creates a new object and touch, append or arithmetic do not find it.",
  ["histories", "inputs"], "all sequences of stores, touches and reads with any expiration over any course of the clock, with the collector running early or late",
  "The tests sleep a few seconds for a few cases; boundaries (30 days, exactly now, the past) and each command on expired but uncollected objects are not reached.",
  [MC+"memcache.cpp", MC+"object.hpp", MC+"sockets.cpp", MC+"gc.cpp"],
  [("object::expired()", MC+"object.hpp"), ("relative/absolute conversion", MC+"memcache.cpp"), ("gc predicate", MC+"gc.cpp")],
  [("exptime", "when the object ends"), ("g_current_time", "the server's clock")])
p("C05", "flush_all removes exactly what it should, when it should",
  "After flush_all without a delay (or with zero or a past time), in either protocol, no unlocked object that was stored before can be read; with a delay the objects stay readable until the time has come and are gone from then on. "
  "A flush is never forgotten - also when it is requested while the garbage collector runs - is over when the collector has completed it, replaces an earlier pending flush, and does not remove objects that are stored after its completion.",
  ["histories", "schedules"], "all histories of flushes with any delay, stores, locks and clock steps, and all positions of a flush relative to a running collector",
  "The tests flush once without objects in other states; the relation to a running collection is never controlled.",
  [MC+"gc.cpp", MC+"object.hpp", MC+"stats.hpp", MC+"handler.cpp", MC+"sockets.cpp"],
  [("g_stats.flush_time compared at access", MC+"object.hpp"), ("flush_time cleared by the GC", MC+"gc.cpp")],
  [("flush_time", "when a requested flush takes effect, 0: none")])
p("C06", "Server-side locks are exclusive",
  "At any time at most one connection holds the lock of an object, and while it does no other connection can change its value or flags, delete it, lock it or unlock it in any protocol; such attempts are answered with the lock error and change nothing, and reads stay possible. "
  "The holder can do everything and keeps the lock until it unlocks; unlock by a connection that does not hold the lock fails, and lock succeeds only on objects that exist and are free.",
  ["histories", "schedules"], "all histories of lock, unlock and update commands of several connections on several objects",
  "The tests use two connections and one object with a fixed script; not every command is tried against a foreign lock.",
  [MC+"object.hpp", MC+"sockets.cpp", "docs/locking.md"],
  [("object::lock/unlock/locked_by_other", MC+"object.hpp"), ("context of the executing connection", MC+"sockets.cpp")],
  [("lock", "the connection that holds it, or none")])
p("C07", "Locks end with their connection",
  "When a connection ends - client close, reset, quit in either protocol, or a connection the server drops - every lock it held is released and its objects become available to others, and nobody else's lock is released. "
  "unlock_all releases exactly the caller's locks, and a new connection never inherits a lock of an earlier one.",
  ["histories", "fault_sequences"], "all ways and points at which connections end, with any set of objects locked or since unlocked, deleted or re-locked by others",
  "The tests close one connection that holds one lock; sets of locks, stale entries and reuse of descriptors are not reached.",
  [MC+"sockets.hpp", MC+"sockets.cpp", MC+"object.hpp"],
  [("list of locked keys per connection", MC+"sockets.hpp"), ("on_invalidate / unlock_all", MC+"sockets.cpp")],
  [("m_locks", "the keys a connection has locked")])
p("C08", "Locked objects are never expired, flushed or evicted",
  "As long as an object is locked it stays readable with its value and cannot vanish: neither by passing its expiration time, nor by a flush, nor by eviction under memory pressure, nor by the garbage collector. "
  "When the lock is released an overdue object is expired at once.",
  ["histories", "schedules"], "all histories of lock, expiration, flush, collection and memory pressure",
  "No test lets a lock meet the garbage collector, a flush or eviction.",
  [MC+"object.hpp", MC+"gc.cpp"],
  [("expired() is false for locked objects", MC+"object.hpp"), ("locked() test in the gc predicate", MC+"gc.cpp")],
  [("lock", "the connection that holds it, or none")])
p("C09", "Counter: admission is exact and resources are conserved",
  "An acquire of n with maximum m succeeds if and only if the present consumption plus n is at most m, for all 32-bit numbers; the consumption of a resource is always exactly the sum of what connections acquired and did not yet release. "
  "A release of more than the connection itself holds is refused and changes nothing, and consumption never exceeds the largest maximum given nor becomes negative, also when connections act at the same time.",
  ["histories", "inputs", "schedules"], "all histories of acquire, release and get by several connections on several names, with all 32-bit operands",
  "The tests use small numbers and one or two connections; wrap-around and concurrent acquires are not reached.",
  ["src/counter/sockets.cpp", "src/counter/object.hpp", "src/counter/counter.cpp", "docs/counter.md"],
  [("object::acquire/release", "src/counter/object.hpp"), ("per-connection acquisition table", "src/counter/sockets.hpp")],
  [("consumption", "resources in use per name"), ("acquired resources", "per connection and name")])
p("C10", "Counter: a connection's resources return when it ends",
  "When a counter connection ends in any way (close, reset, server-side drop after a broken request), everything it had acquired and not released is returned, once, to each resource and nothing else changes.",
  ["histories", "fault_sequences"], "all ends of connections holding any combination of resources, with requests in flight",
  "The tests close a connection that holds one resource.",
  ["src/counter/sockets.cpp", "src/counter/sockets.hpp", "cybozu/tcp.cpp"],
  [("on_invalidate releases", "src/counter/sockets.hpp")],
  [("acquired resources", "per connection and name")])
p("C11", "Counter: dump and periodic statistics are right",
  "Dump lists every live resource name exactly once with its present consumption and the largest consumption reached since the start of the current statistics period; a period change resets the maximum to the present consumption. "
  "Resources are kept as long as they are consumed and those that stay unused for a whole period are removed, without disturbing others.",
  ["histories"], "all histories of acquire, release, dumps and period changes",
  "No test observes a change of the statistics period.",
  ["src/counter/gc.cpp", "src/counter/object.hpp", "src/counter/handler.cpp", "src/counter/sockets.cpp"],
  [("gc_thread and period", "src/counter/gc.cpp"), ("m_max_consumption", "src/counter/object.hpp")],
  [("max consumption", "largest consumption in the current period")])
p("C12", "Replicas converge to the master's contents",
  "Every change of an object on the master - store, append, arithmetic, touch, delete, replace-and-unlock, flush, expiration or eviction by the collector - reaches every connected slave in the order the master performed it per key, so that when all has been delivered a slave holds the same keys with the same value, flags and expiration as the master. "
  "Commands that fail or change nothing never alter a slave, and a slave that cannot take the data in is disconnected rather than left with a gap.",
  ["histories", "schedules"], "all histories of updates in both protocols by concurrent clients, for any number of slaves",
  "No test runs a slave at all.",
  [MC+"replication.cpp", MC+"replication.hpp", MC+"sockets.cpp", MC+"handler.cpp", MC+"gc.cpp"],
  [("repl_object/repl_delete under the bucket lock", MC+"replication.cpp"), ("repl_socket send buffer", MC+"sockets.cpp"), ("repl_recv on the slave", MC+"replication.cpp")],
  [("slave contents", "objects received by a slave")], ["replication stream, slave after promotion"])
p("C13", "Initial synchronisation misses nothing",
  "A slave that connects to a running master ends up with all objects the master holds, including those stored, changed or deleted while the initial copy is in progress, at whatever moment it joins; deleted objects do not come back and older versions never overwrite newer ones.",
  ["schedules", "histories"], "all interleavings of updates with the joining of a slave and the collector's scan",
  "No test runs a slave.",
  [MC+"handler.cpp", MC+"gc.cpp", MC+"gc.hpp", "src/sync.hpp", MC+"sockets.cpp"],
  [("worker synchronisation before the scan", "src/sync.hpp"), ("new slaves get live updates before the scan", MC+"handler.cpp"), ("scan of the hash by the GC thread", MC+"gc.cpp")],
  [("slave list per worker", "who receives updates"), ("new slaves", "who needs the scan")])
p("C14", "A slave serves only as a faithful standby",
  "A slave answers no client, neither cache nor counter, until it has become master; when it does, it serves exactly the objects received from the master (value, flags, expiration, unlocked), whatever way the stream was fragmented. "
  "A slave that (re)connects to a master discards what it had before, so stale objects never survive.",
  ["histories", "fault_sequences", "inputs"], "all replication streams, all fragmentations, all points at which the master goes away",
  "No test runs a slave.",
  ["src/server.cpp", MC+"handler.cpp", MC+"replication.cpp", MC+"sockets.cpp"],
  [("clear/on_slave_start", MC+"handler.cpp"), ("repl_client_socket::on_readable, repl_recv", MC+"replication.cpp")],
  [("mode", "slave or master")])
p("C15", "Mastership follows the virtual IP address",
  "A server acts as master, and accepts clients and slaves, only if it has the virtual IP address when it takes over; a slave that obtains the address becomes master, and one whose master goes away keeps retrying to connect until it obtains the address or finds a master. "
  "A master that loses the address stops serving no later than the next garbage collection.",
  ["schedules", "fault_sequences"], "all sequences of gaining and losing the address and of connecting to and losing masters",
  "No test covers role changes.",
  ["src/server.cpp", MC+"gc.cpp", MC+"handler.cpp"],
  [("serve_slave / serve_master", "src/server.cpp"), ("check at each GC", MC+"gc.cpp")],
  [("role", "master, slave, exited")])
p("C16", "Requests are processed in order, however they are cut",
  "The replies to a stream of requests on one connection depend only on the bytes of the stream and come in the order of the requests: splitting or joining the bytes at any point, pipelining any number of requests, and mixing quiet and plain requests give the same replies and effects as sending them one at a time, exactly one reply per request that has one, with its opaque value.",
  ["inputs", "schedules"], "all request streams of both protocols and the counter protocol and all ways to cut them into packets",
  "The tests send whole requests one at a time.",
  [MC+"sockets.cpp", MC+"memcache.cpp", "src/counter/sockets.cpp", "cybozu/dynbuf.hpp"],
  [("pending buffer and incomplete requests", MC+"sockets.cpp"), ("request parsers", MC+"memcache.cpp")],
  [("pending", "bytes of an incomplete request")])
p("C17", "Bad requests are contained",
  "A malformed, oversized or unknown request is answered with an error, changes no object and affects no other connection; the server keeps serving everyone. "
  "After a bad request that was completely received the same connection goes on with the next request, and a binary request that is invalid in its framing costs at most that connection.",
  ["inputs"], "all byte strings as requests, in particular wrong lengths, extras, numbers, missing arguments and lines of any length",
  "The tests try a handful of malformed requests.",
  [MC+"memcache.cpp", MC+"sockets.cpp", "src/counter/counter.cpp"],
  [("request validation", MC+"memcache.cpp"), ("error replies", MC+"sockets.cpp")])
p("C18", "Replies stay intact under back-pressure",
  "Whatever the speed at which a client reads, it receives exactly the bytes of its replies, in order, none missing, repeated or interleaved with others', however often the kernel takes only part of the data; a client that stops reading occupies at most one worker and does not stall other clients as long as other workers are left, whatever keys they use; and when it goes on, or ends its requests by quit or by closing its sending side, it gets the rest.",
  ["schedules", "inputs"], "all sizes and orders of replies, all points at which the kernel buffer is full, all read patterns",
  "The tests read each reply at once, so the kernel never refuses data.",
  ["cybozu/tcp.cpp", "cybozu/tcp.hpp", "cybozu/reactor.cpp", "src/sync.hpp"],
  [("send buffers of tcp_socket", "cybozu/tcp.cpp"), ("write_pending_data on EPOLLOUT", "cybozu/tcp.cpp")],
  [("send buffers", "bytes accepted from the worker and not yet by the kernel")])
p("C19", "Large objects behave like small ones",
  "Objects beyond the heap data limit, which are kept in files, and those around that limit behave exactly like small ones for every command and every growth across the limit; an object larger than the maximum data size is refused by every command that would create it, with nothing changed.",
  ["inputs", "histories"], "all sizes around the two limits and all sequences of stores, appends and prepends that cross them",
  "The tests store a few sizes once.",
  [MC+"object.cpp", "src/tempfile.cpp", "src/tempfile.hpp", MC+"sockets.cpp"],
  [("heap/file representation", MC+"object.cpp"), ("size checks", MC+"sockets.cpp")],
  [("representation", "memory or temporary file")])
p("C20", "Memory limit: old objects go, recent and small sets stay",
  "While the memory used by objects is within the limit nothing is evicted; when it exceeds the limit, collections evict unlocked objects that have gone unused longest, so that use returns below the limit, and an object that was read or written since the last collection is never evicted. "
  "Evictions are reported in the statistics and evicted objects are gone for everyone.",
  ["histories"], "all histories of stores, reads and collections around the limit",
  "No test reaches the limit.",
  [MC+"gc.cpp", MC+"object.hpp", MC+"stats.hpp"],
  [("evict_age and object age", MC+"gc.cpp"), ("age reset at access", MC+"object.hpp")],
  [("age", "collections survived since last use")])
p("C21", "Connections are accepted up to the limit and reclaimed",
  "With max_connections set, never more clients than that are served at a time, an excess connection is closed at once without harming others, and as soon as a connection has ended - by the client or the server - its place is free again. "
  "No reply or effect of one connection ever shows on another, also when descriptors are reused at once, and failures to accept do not stop the server.",
  ["schedules", "fault_sequences"], "all orders of connecting, requesting and closing by many clients, with and without shortage of descriptors",
  "The tests use a single connection.",
  ["cybozu/tcp.cpp", "cybozu/reactor.cpp", "cybozu/reactor.hpp", MC+"handler.cpp", MC+"sockets.cpp"],
  [("connection counting", MC+"handler.cpp"), ("deferred destruction of resources", "cybozu/reactor.cpp")],
  [("connections", "open client connections")])
p("C22", "Key listings and statistics tell the truth",
  "keys (text) and Keys (binary) list every existing object with the given prefix exactly once and nothing else; the statistics of objects, connections, slaves and commands agree with what happened.",
  ["histories", "inputs"], "all sets of objects and prefixes and all histories of commands",
  "The tests look at one listing.",
  [MC+"sockets.cpp", MC+"stats.cpp", MC+"stats.hpp", MC+"gc.cpp", "docs/keys.md"],
  [("dump of the hash", MC+"sockets.cpp"), ("counters in g_stats", MC+"stats.hpp")])
p("C23", "secure_erase leaves no copy of removed values",
  "With secure_erase on, when memory that held the value of an object, or a copy of it made to update the object, is given back (at delete, overwrite, append, prepend, arithmetic, expiration, flush or eviction) the value has been overwritten first.",
  ["histories"], "all histories of stores, appends, prepends, arithmetic and removals of objects",
  "No test looks at released memory of the server.",
  ["cybozu/dynbuf.hpp", "cybozu/util.cpp", MC+"object.cpp"],
  [("clear_memory in dynbuf", "cybozu/dynbuf.hpp")],
  [("value buffer", "memory that holds an object's value")])
p("C24", "Configuration is accepted exactly when it is valid",
  "For every configuration file each option takes the value given (with units where allowed) or its documented default, and a value outside the documented range or of the wrong form stops the server at start with a nonzero status instead of running with another value.",
  ["configurations", "inputs"], "all combinations of options and values",
  "The tests load one good file and a few bad values.",
  ["src/config.cpp", "src/config.hpp", "cybozu/config_parser.cpp", "src/main.cpp", "docs/usage.md"],
  [("config::load", "src/config.cpp")])
p("C25", "Every complete request is answered",
  "As long as the server runs, each complete request of a connected client is eventually processed and answered without the client having to send anything more, however requests of many connections coincide and however few workers there are; a busy worker or an idle client never blocks others for good, unless every worker is occupied by a client that does not read.",
  ["schedules"], "all arrivals of requests on many connections relative to workers becoming busy and idle",
  "The tests have one client and an idle server.",
  ["cybozu/worker.hpp", MC+"sockets.cpp", MC+"handler.cpp", "src/handler.hpp", "cybozu/reactor.cpp", "src/counter/sockets.cpp"],
  [("post_job / idle workers", "cybozu/worker.hpp"), ("busy flag and pending readable connections", MC+"handler.cpp")],
  [("busy", "a worker serves this connection")])
p("C26", "Dead slaves are dropped, live ones are kept",
  "A master disconnects a slave from which it has heard nothing for longer than slave_timeout, and no slave that keeps sending heartbeats; a slave sends them while it is connected. "
  "Losing a slave never affects clients or other slaves.",
  ["schedules", "fault_sequences"], "all timings of heartbeats, silence, and disconnection of several slaves",
  "No test runs a slave.",
  [MC+"handler.cpp", MC+"sockets.cpp", MC+"sockets.hpp"],
  [("repl_socket last heartbeat and timeout", MC+"handler.cpp"), ("heartbeat of the slave", MC+"sockets.cpp")],
  [("last heartbeat", "per slave")])
p("C27", "Termination is orderly",
  "On SIGTERM, SIGINT or SIGQUIT a server in any role and under any load ends promptly with status 0, and on SIGUSR1 and SIGHUP it goes on serving without losing an object or a connection.",
  ["schedules", "fault_sequences"], "all moments of a signal relative to requests, collections and replication",
  "The tests never signal a loaded server.",
  ["src/main.cpp", "src/server.cpp", "cybozu/signal.cpp", "cybozu/reactor.cpp"],
  [("signal handler stops the reactor", "src/server.cpp"), ("stop of workers", "src/memcache/handler.cpp")])

ids = [x["id"] for x in P]
assert len(set(ids)) == len(ids)
for x in P:
    assert len(x["title"]) <= 80, x["id"]
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
