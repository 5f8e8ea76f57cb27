------------------------------- MODULE Stats -------------------------------
(***************************************************************************)
(* What the server tells of itself: the keys it has (keys, Keys) and its   *)
(* statistics (stats, Stat, Stats).                                        *)
(*                                                                         *)
(*   o  per key: <<>> (absent) or <<size, life, locked>>                   *)
(*        size   which of Sizes                                            *)
(*        life   Never, or the clock units that remain (0: expired)        *)
(*        locked by a client that does nothing else                        *)
(*   f  a flush was requested and waits for the collection                 *)
(*   n  clock units since the last collection                              *)
(*   c  clients, s slaves (besides the harness's own connections)          *)
(*   j  slaves that joined since the last collection that was due          *)
(*                                                                         *)
(* A key is a sequence of letters; a letter stands for some bytes.         *)
(*                                                                         *)
(* The result of an operation is                                           *)
(*   <<reply, what the statistics grow by>>                                *)
(* where the number of the commands themselves is added by the harness;    *)
(* after a collection it is what they are.                                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt, FiniteSetsExt

CONSTANTS Keys,      \* sequences of letters
          Starts,
          Sizes,     \* bytes
          Lives,     \* what clients ask for: Never, 1
          Does,      \* enabled operations
          Many,      \* gets in a burst
          MaxN, MaxC, MaxS,
          DumpOn
VARIABLE st

Never == 9
MaxJ == 3       \* so many collections for new slaves in a row
Absent == <<>>
Size(o) == o[1]
Life(o) == o[2]
Locked(o) == o[3]

Has(s, k) == s.o[k] # Absent
\* Locked objects neither expire nor are they flushed.
Dead(s, k) == Has(s, k) /\ ~Locked(s.o[k]) /\ (s.f \/ Life(s.o[k]) = 0)
Live(s, k) == Has(s, k) /\ ~Dead(s, k)

None == [x \in {} |-> 0]
Plus(a) == [x \in {a} |-> 1]
Times(a, n) == IF n = 0 THEN None ELSE [x \in {a} |-> n]
Both(a, b) == [x \in DOMAIN a \cup DOMAIN b |->
                (IF x \in DOMAIN a THEN a[x] ELSE 0) + (IF x \in DOMAIN b THEN b[x] ELSE 0)]
Out(n, r, d) == [n |-> n, r |-> <<r, d>>]

\* The statistics of the objects, taken at a collection.
Bounds == << <<"1024", 1024>>, <<"4096", 4096>>, <<"16384", 16384>>, <<"65536", 65536>>,
             <<"262144", 262144>>, <<"1048576", 1048576>>, <<"4194304", 4194304>> >>
Class(z) == IF \E i \in 1..Len(Bounds) : z < Bounds[i][2]
            THEN Bounds[CHOOSE i \in 1..Len(Bounds) : z < Bounds[i][2] /\ \A j \in 1..i-1 : z >= Bounds[j][2]][1]
            ELSE "huge"
Classes == { Bounds[i][1] : i \in 1..Len(Bounds) } \cup {"huge"}
Max0(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
Taken(s) ==
  LET live == { k \in Keys : Has(s, k) }
      Count(c) == Cardinality({ k \in live : Class(Size(s.o[k])) = c })
  IN [ items |-> Cardinality(live), largest |-> Max0({ Size(s.o[k]) : k \in live }),
       sizes |-> [c \in Classes |-> Count(c)] ]

\* The collection removes what is dead; locked objects stay.
Collected(s) == [s EXCEPT !.o = [k \in Keys |-> IF Dead(s, k) THEN Absent ELSE s.o[k]], !.f = FALSE, !.n = 0]
Passed(s) == [s EXCEPT !.o = [k \in Keys |-> IF Has(s, k) /\ Life(s.o[k]) # Never
                                             THEN [s.o[k] EXCEPT ![2] = 0] ELSE s.o[k]]]
Expired(s) == IF s.f THEN 0 ELSE Cardinality({ k \in Keys : Dead(s, k) })
Collect(s) == LET n == Collected(s)
              IN Out(n, [expired |-> Expired(s), now |-> Taken(n)], Plus("gc_count"))

\* A store by a client: locked objects are not replaced.
Stored(s, k, z, e) == [s EXCEPT !.o[k] = <<z, e, FALSE>>]
Created(s, k) == IF Has(s, k) THEN None ELSE Plus("total_items")
HitMiss(s, k) == IF Live(s, k) THEN Plus("get_hits") ELSE Plus("get_misses")

Listed(s, p) == { k \in Keys : Live(s, k) /\ Len(p) <= Len(k) /\ SubSeq(k, 1, Len(p)) = p }

Ops ==
  LET R(o, K, X) == { [o |-> o, k |-> k, x |-> x] : k \in K, x \in X }
      N == {<<>>}
  IN UNION {
       R("set", Keys, { <<z, e>> : z \in Sizes, e \in Lives }), R("get", Keys, N), R("delete", Keys, N),
       R("burst", Keys, N),
       { [o |-> "gets", k |-> k, x |-> j] : k \in Keys, j \in Keys },
       R("cas", Keys, {<<"cur">>, <<"bad">>}),
       R("lock", Keys, N), R("unlock", Keys, N), R("lag", Keys, N), R("gat", Keys, N), R("arith", Keys, N),
       R("bad", N, N), R("flush", N, N), R("tick", N, N), R("gc", N, N),
       R("list", Starts, N), R("listbusy", Starts, N),
       R("connect", N, N), R("close", N, N), R("join", N, N), R("leave", N, N) }

\* (what is stored between a flush and its collection may be lost)
Step(s, op) ==
  LET k == op.k IN
  IF op.o \notin Does THEN {}
  ELSE CASE
     op.o = "set" ->
       IF s.f THEN {}
       ELSE IF Has(s, k) /\ Locked(s.o[k]) THEN { Out(s, "LOCKED", None) }
       ELSE { Out(Stored(s, k, op.x[1], op.x[2]), "STORED", Created(s, k)) }
  [] op.o = "get" -> { Out(s, IF Live(s, k) THEN <<Size(s.o[k])>> ELSE <<>>, HitMiss(s, k)) }
  [] op.o = "gat" ->
       \* (touching sets the life anew; locked objects can be touched)
       IF s.f THEN {}
       ELSE { Out(IF Live(s, k) THEN [s EXCEPT !.o[k] = [@ EXCEPT ![2] = Never]] ELSE s,
                  IF Live(s, k) THEN <<Size(s.o[k])>> ELSE <<>>, HitMiss(s, k)) }
  [] op.o = "lag" ->
       IF Has(s, k) /\ Locked(s.o[k]) THEN {}
       ELSE { Out(IF Live(s, k) THEN [s EXCEPT !.o[k] = [@ EXCEPT ![3] = TRUE]] ELSE s,
                  IF Live(s, k) THEN <<Size(s.o[k])>> ELSE <<>>, HitMiss(s, k)) }
  [] op.o = "gets" ->
       { Out(s, <<Live(s, k), Live(s, op.x)>>, Both(HitMiss(s, k), HitMiss(s, op.x))) }
  [] op.o = "burst" ->
       \* many clients get an object at once
       { Out(s, Live(s, k), Times(IF Live(s, k) THEN "get_hits" ELSE "get_misses", Many)) }
  [] op.o = "arith" ->
       \* what is not a number is not changed
       IF s.f THEN {} ELSE { Out(s, IF ~Live(s, k) THEN "NOT_FOUND" ELSE
                                    IF Locked(s.o[k]) THEN "LOCKED" ELSE "NOT_NUMBER", None) }
  [] op.o = "delete" ->
       IF Has(s, k) /\ Locked(s.o[k]) THEN { Out(s, "LOCKED", None) }
       ELSE { Out([s EXCEPT !.o[k] = Absent], IF Live(s, k) THEN "DELETED" ELSE "NOT_FOUND", None) }
  [] op.o = "cas" ->
       IF s.f THEN {}
       ELSE IF Has(s, k) /\ Locked(s.o[k]) THEN { Out(s, "LOCKED", None) }
       ELSE IF ~Live(s, k) THEN { Out(s, "NOT_FOUND", Plus("cas_misses")) }
       ELSE IF op.x[1] = "bad" THEN { Out(s, "EXISTS", Plus("cas_badval")) }
       ELSE { Out(Stored(s, k, Size(s.o[k]), Never), "STORED", Plus("cas_hits")) }
  [] op.o = "lock" ->
       IF Has(s, k) /\ Locked(s.o[k]) THEN { Out(s, "LOCKED", None) }
       ELSE IF Live(s, k) THEN { Out([s EXCEPT !.o[k] = [@ EXCEPT ![3] = TRUE]], "OK", None) }
       ELSE { Out(s, "NOT_FOUND", None) }
  [] op.o = "unlock" ->
       IF Has(s, k) /\ Locked(s.o[k]) THEN { Out([s EXCEPT !.o[k] = [@ EXCEPT ![3] = FALSE]], "OK", None) } ELSE {}
  [] op.o = "bad" -> { Out(s, "ERROR", None) }
  [] op.o = "flush" -> IF s.f THEN {} ELSE { Out([s EXCEPT !.f = TRUE], "OK", None) }
  [] op.o = "tick" ->
       LET t == [s EXCEPT !.n = @ + 1,
                     !.o = [j \in Keys |-> IF Has(s, j) /\ Life(s.o[j]) \notin {Never, 0}
                                           THEN [s.o[j] EXCEPT ![2] = @ - 1] ELSE s.o[j]]]
       IN IF s.f THEN { Collect(t) }
          ELSE IF s.n = MaxN THEN {}
          ELSE { Out(t, "", None) }
  [] op.o = "gc" -> { Collect([Passed(s) EXCEPT !.j = IF s.f THEN @ ELSE 0]) }
  [] op.o = "list" \/ (op.o = "listbusy" /\ ~s.f) -> { Out(s, Listed(s, k), None) }
  [] op.o = "connect" -> IF s.c = MaxC THEN {} ELSE { Out([s EXCEPT !.c = @ + 1], s.c + 1, Plus("total_connections")) }
  [] op.o = "close" -> IF s.c = 0 THEN {} ELSE { Out([s EXCEPT !.c = @ - 1], s.c - 1, None) }
  [] op.o = "join" ->
       \* a new slave is told of all objects by a collection
       IF s.s = MaxS \/ s.j = MaxJ THEN {}
       ELSE { Collect([s EXCEPT !.s = @ + 1, !.j = IF s.f THEN @ ELSE @ + 1]) }
  [] op.o = "leave" -> IF s.s = 0 \/ s.f THEN {} ELSE { Out([s EXCEPT !.s = @ - 1], s.s - 1, None) }
  [] OTHER -> {}

Init == st = [o |-> [k \in Keys |-> Absent], f |-> FALSE, n |-> 0, c |-> 0, s |-> 0, j |-> 0]
Next == \E op \in Ops : \E x \in Step(st, op) : st' = x.n

-----------------------------------------------------------------------------
\* C22: a listing is what there is: a key is in the listing of each of its
\* prefixes and in no other, and exactly when a client can get it.
Listings == \A p \in Starts : \A k \in Keys :
   (\E x \in Step(st, [o |-> "list", k |-> p, x |-> <<>>]) : k \in x.r[1])
     <=> (\E x \in Step(st, [o |-> "get", k |-> k, x |-> <<>>]) : x.r[1] # <<>>) /\ IsPrefix(p, k)
\* C22: after a collection, the number of objects is that of the listing,
\* and every object is in one class of sizes.
Numbers == LET n == Collected(st) t == Taken(n)
           IN /\ t.items = Cardinality(Listed(n, <<>>))
              /\ t.items = Cardinality({ x \in Classes \X (1..Cardinality(Keys)) : x[2] <= t.sizes[x[1]] })
Inv == ("list" \in Does => Listings) /\ Numbers

OpSeq == SetToSeq(Ops)
ASSUME DumpOn => PrintT("##" \o ToJson(OpSeq))
Dump == DumpOn =>
  PrintT("@@" \o ToJson(<<ToString(st),
     UNION { { <<i, x.r, ToString(x.n)>> : x \in Step(st, OpSeq[i]) } : i \in 1..Len(OpSeq) }, st>>))
=============================================================================
