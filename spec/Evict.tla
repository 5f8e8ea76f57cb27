------------------------------- MODULE Evict -------------------------------
(***************************************************************************)
(* What the garbage collector of the cache does under memory pressure.     *)
(*                                                                         *)
(*   o     the objects: <<>> or <<size, age, locked>>                      *)
(*           size   "s" small; "b" big: two of them exceed the memory      *)
(*                  limit; "f" beyond the heap data limit, kept in a file  *)
(*           age    collections the object has survived unused             *)
(*           locked by the client                                          *)
(*   over  the memory in use exceeded the limit when last collected        *)
(*   rec   the age of the oldest unlocked object when last collected       *)
(*                                                                         *)
(* What is left open is how old exactly the objects must be that go: the   *)
(* collector may choose any age up to that of the oldest, and then all     *)
(* unlocked objects of at least this age go.                               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Keys, Sizes, MaxAge, Names, DumpOn

VARIABLE st

Max2(a, b) == IF a >= b THEN a ELSE b
MaxOf(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : x >= y

Exists(s, k) == s.o[k] # <<>>
Size(s, k) == s.o[k][1]
Age(s, k) == s.o[k][2]
Locked(s, k) == s.o[k][3]
Live(s) == {k \in Keys : Exists(s, k)}

Out(n, r) == [n |-> n, r |-> r]

Fresh(s, k) == [s EXCEPT !.o[k] = [@ EXCEPT ![2] = 0]]

\* One collection in which E goes.
Collect(s, E) ==
  LET left == Live(s) \ E
  IN [o    |-> [k \in Keys |-> IF k \in left THEN <<Size(s, k), Age(s, k) + 1, Locked(s, k)>> ELSE <<>>],
      over |-> Cardinality({k \in left : Size(s, k) = "b"}) >= 2,
      rec  |-> MaxOf({Age(s, k) + 1 : k \in {j \in left : ~Locked(s, j)}})]

Victims(s) ==
  IF s.over
  THEN { {k \in Live(s) : ~Locked(s, k) /\ Age(s, k) >= a} : a \in 1..Max2(1, s.rec) }
  ELSE { {} }

Young(s) == \A k \in Live(s) : Age(s, k) + 1 < MaxAge

Gc1(s) == { <<Collect(s, E), 1, Cardinality(E)>> : E \in Victims(s) }
\* (When memory is short the next collection follows at once.)
Gc2(s) == UNION { { <<x[1], 2, y[3] + x[3]>> : x \in Gc1(y[1]) } : y \in Gc1(s) }

Empty == [o |-> [k \in Keys |-> <<>>], over |-> FALSE, rec |-> 0]

Ops ==
  [o : {"set"}, k : Keys, z : Sizes] \cup
  [o : {"use", "read", "delete", "peek", "lock", "unlock", "steal"} \cap Names, k : Keys, z : {""}] \cup
  [o : {"gc"} \cup ({"end"} \cap Names), k : {""}, z : {""}]

Step(s, op) ==
  CASE op.o = "set" ->
         { Out([s EXCEPT !.o[op.k] = <<op.z, 0, IF Exists(s, op.k) THEN Locked(s, op.k) ELSE FALSE>>], <<"OK">>) }
    [] op.o \in {"use", "read"} ->
         IF Exists(s, op.k) THEN { Out(Fresh(s, op.k), <<"OK">>) } ELSE { Out(s, <<"NO">>) }
    [] op.o = "peek" -> { Out(s, <<IF Exists(s, op.k) THEN "OK" ELSE "NO">>) }
    [] op.o = "delete" ->
         IF Exists(s, op.k) THEN { Out([s EXCEPT !.o[op.k] = <<>>], <<"OK">>) } ELSE { Out(s, <<"NO">>) }
    [] op.o = "lock" ->
         IF Exists(s, op.k) /\ ~Locked(s, op.k)
         THEN { Out([s EXCEPT !.o[op.k] = [@ EXCEPT ![3] = TRUE]], <<"OK">>) } ELSE {}
    [] op.o = "unlock" ->
         IF Exists(s, op.k) /\ Locked(s, op.k)
         THEN { Out([s EXCEPT !.o[op.k] = [@ EXCEPT ![3] = FALSE]], <<"OK">>) } ELSE {}
    [] op.o = "steal" ->
         \* another client's attempt to change it
         IF Exists(s, op.k) /\ Locked(s, op.k) THEN { Out(s, <<"LOCKED">>) } ELSE {}
    [] op.o = "end" ->
         \* The client goes.  However busy the collector is, its locks end:
         \* another client can delete what is left of the objects.
         IF \E k \in Live(s) : Locked(s, k) THEN { Out(Empty, <<"OK">>) } ELSE {}
    [] op.o = "gc" ->
         IF Young(s)
         THEN { Out(x[1], <<"GC", x[2], x[3]>>) : x \in Gc1(s) \cup Gc2(s) }
         ELSE {}

Init == st = Empty
Next == \E op \in Ops : \E x \in Step(st, op) : st' = x.n

---------------------------------------------------------------------------
GcOp == [o |-> "gc", k |-> "", z |-> ""]
Gone(x) == {k \in Keys : Exists(st, k) /\ ~Exists(x.n, k)}

\* C20: nothing goes while the memory in use is within the limit
Within == ~st.over => \A x \in Gc1(st) : x[3] = 0
\* ... nor what has been used since the last collection
Recent == \A x \in Gc1(st) : \A k \in Live(st) : Age(st, k) = 0 => Exists(x[1], k)
\* C08: ... nor what is locked
Safe == \A op \in Ops : op.o \notin {"delete", "end"} =>
          \A x \in Step(st, op) : \A k \in Gone(x) : ~Locked(st, k)
\* C20: what has been unused longer goes first
Oldest == \A x \in Gc1(st) : \A j, k \in Live(st) :
            (~Locked(st, j) /\ ~Locked(st, k) /\ Age(st, j) >= Age(st, k) /\ ~Exists(x[1], k))
            => ~Exists(x[1], j)
\* C20: while memory is short and there is an unlocked object that was not
\* used, one goes in each collection, unless the oldest was just used
Progress == st.over /\ (\E k \in Live(st) : ~Locked(st, k) /\ Age(st, k) >= Max2(1, st.rec))
            => \A x \in Gc1(st) : x[3] > 0
Inv == Within /\ Recent /\ Safe /\ Oldest /\ Progress

\* C20: use returns below the limit when the collector runs on and nothing
\* else happens and nothing is locked
NoLock == \A k \in Live(st) : ~Locked(st, k)
IdleNext == \E x \in Gc1(st) : st' = [x[1] EXCEPT !.o =
               [k \in Keys |-> IF x[1].o[k] = <<>> THEN <<>>
                               ELSE [x[1].o[k] EXCEPT ![2] = IF @ > MaxAge THEN MaxAge ELSE @]],
               !.rec = IF @ > MaxAge THEN MaxAge ELSE @]
AnyState == st \in [o : [Keys -> {<<>>} \cup (Sizes \X (0..MaxAge) \X {FALSE})],
                    over : BOOLEAN, rec : 0..MaxAge]
Relief == AnyState /\ [][IdleNext]_st /\ WF_st(IdleNext)
Returns == <>[](Cardinality({k \in Live(st) : Size(st, k) = "b"}) < 2)

---------------------------------------------------------------------------
OpSeq == SetToSeq(Ops)
ASSUME DumpOn => PrintT("##" \o ToJson(OpSeq))
Dump == DumpOn =>
  PrintT("@@" \o ToJson(<<ToString(st),
     UNION { { <<i, x.r, ToString(x.n)>> : x \in Step(st, OpSeq[i]) } : i \in 1..Len(OpSeq) }, st.o>>))
=============================================================================
