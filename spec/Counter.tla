------------------------------ MODULE Counter ------------------------------
(***************************************************************************)
(* The counter protocol of yrmcds: connections acquire and release         *)
(* resources of named counters; dump shows consumption and the maximum of  *)
(* the statistics period.                                                  *)
(*                                                                         *)
(* The state st has                                                        *)
(*   h  what each connection holds of each name                            *)
(*   m  per name: None (no such counter) or the largest consumption since  *)
(*      the current period began                                           *)
(*   p  position in the period: 0 .. Steps-1                               *)
(* Consumption is not a variable: it is by definition the sum of what      *)
(* connections hold (conservation).                                        *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS
  Keys, Conns,
  Amounts,      \* amounts to acquire or release (0 included for release)
  Maxima,       \* maxima clients give
  Names,        \* enabled commands
  Limit,        \* the largest number there is (2^32-1)
  Steps,        \* clock steps per statistics period
  DumpOn

None == -1

VARIABLE st

RECURSIVE Sum(_, _, _)
Sum(s, k, cs) == IF cs = {} THEN 0
                 ELSE LET c == CHOOSE x \in cs : TRUE
                      IN s.h[c][k] + Sum(s, k, cs \ {c})
Used(s, k) == Sum(s, k, Conns)
Exists(s, k) == s.m[k] # None

Larger(a, b) == IF a > b THEN a ELSE b

Out(n, r) == [n |-> n, r |-> <<r>>, q |-> <<r>>, u |-> FALSE, k |-> ""]
OutV(n, r) == [n |-> n, r |-> r, q |-> r, u |-> FALSE, k |-> ""]

---------------------------------------------------------------------------

Take(s, c, k, n) == [s EXCEPT !.h[c][k] = @ + n,
                              !.m[k] = Larger(@, Used(s, k) + n)]

\* The first acquire of a name creates the counter whatever ... the maximum
\* is, as long as it is not less than the amount (which is tested before).
Acquire(s, o) ==
  IF o.n = 0 \/ o.m < o.n THEN Out(s, "Invalid")
  ELSE IF Used(s, o.k) + o.n <= o.m
       THEN OutV(Take(s, o.c, o.k, o.n), <<"NUM", o.n>>)
  ELSE Out(s, "NotAvailable")

Release(s, o) ==
  IF ~Exists(s, o.k) THEN Out(s, "NotFound")
  ELSE IF s.h[o.c][o.k] < o.n THEN Out(s, "NotAcquired")
  ELSE Out([s EXCEPT !.h[o.c][o.k] = @ - o.n], "OK")

Get(s, o) == IF Exists(s, o.k) THEN OutV(s, <<"NUM", Used(s, o.k)>>)
             ELSE Out(s, "NotFound")

\* (names without a counter show as <<None, None>>)
DumpR(s) == [k \in Keys |-> IF Exists(s, k) THEN <<Used(s, k), s.m[k]>> ELSE <<None, None>>]
Dumped(s) == OutV(s, <<"DUMP", DumpR(s)>>)

\* A connection ends: everything it holds is returned.
Gone(s, c) == [s EXCEPT !.h[c] = [k \in Keys |-> 0]]
Close(s, o) == Out(Gone(s, o.c), "closed")

\* An acquire followed by the end of the sending side.
LastAcquire(s, o) ==
  LET a == Acquire(s, o) IN OutV(Gone(a.n, o.c), a.r)

\* The clock advances.  At the end of a period unused counters are removed
\* and the maxima start again from the present consumption.
Tick(s) ==
  IF s.p + 1 < Steps THEN Out([s EXCEPT !.p = @ + 1], "ok")
  ELSE Out([s EXCEPT !.p = 0,
                     !.m = [k \in Keys |-> IF ~Exists(s, k) \/ Used(s, k) = 0 THEN None
                                           ELSE Used(s, k)]], "ok")

---------------------------------------------------------------------------

Op(o, c, k, n, m) == [o |-> o, c |-> c, k |-> k, n |-> n, m |-> m]
K0 == CHOOSE k \in Keys : TRUE
C0 == CHOOSE c \in Conns : TRUE
Has(n) == n \in Names

Ops ==
  {Op("Acquire", x[1], x[2], x[3], x[4]) :
     x \in IF Has("Acquire") THEN Conns \X Keys \X Amounts \X Maxima ELSE {}}
  \cup {Op("LastAcquire", x[1], x[2], x[3], x[4]) :
     x \in IF Has("LastAcquire") THEN Conns \X Keys \X (Amounts \ {0}) \X Maxima ELSE {}}
  \cup {Op("Release", x[1], x[2], x[3], 0) :
     x \in IF Has("Release") THEN Conns \X Keys \X Amounts ELSE {}}
  \cup {Op("Get", x[1], x[2], 0, 0) : x \in IF Has("Get") THEN Conns \X Keys ELSE {}}
  \cup {Op("Dump", c, K0, 0, 0) : c \in IF Has("Dump") THEN Conns ELSE {}}
  \cup {Op("close", c, K0, 0, 0) : c \in IF Has("close") THEN Conns ELSE {}}
  \cup {Op("tick", C0, K0, 0, 0) : x \in {n \in Names : n = "tick"}}

Defined(s, o) == TRUE

Step(s, o) ==
  CASE o.o = "Acquire" -> {Acquire(s, o)}
    [] o.o = "LastAcquire" -> {LastAcquire(s, o)}
    [] o.o = "Release" -> {Release(s, o)}
    [] o.o = "Get" -> {Get(s, o)}
    [] o.o = "Dump" -> {Dumped(s)}
    [] o.o = "close" -> {Close(s, o)}
    [] o.o = "tick" -> {Tick(s)}

Start == [h |-> [c \in Conns |-> [k \in Keys |-> 0]], m |-> [k \in Keys |-> None], p |-> 0]
Init == st = Start
Next == \E o \in Ops : \E x \in Step(st, o) : st' = x.n
Spec == Init /\ [][Next]_st

---------------------------------------------------------------------------
(* properties *)

\* C09: consumption stays within 0..Limit, a counter that is consumed exists,
\* and its maximum covers what is consumed.
Bounded == \A k \in Keys :
  /\ Used(st, k) >= 0 /\ Used(st, k) <= Limit
  /\ \A c \in Conns : st.h[c][k] >= 0
  /\ (Used(st, k) > 0 => Exists(st, k))
  /\ (Exists(st, k) => Used(st, k) <= st.m[k] /\ st.m[k] <= Limit)

\* Admission: an acquire never brings consumption above the given maximum,
\* and one that would not is never refused.
Admission == \A o \in Ops : o.o = "Acquire" =>
  \A x \in Step(st, o) :
    IF x.r[1] = "NUM" THEN Used(x.n, o.k) <= o.m /\ Used(x.n, o.k) = Used(st, o.k) + o.n
    ELSE x.n = st /\ (o.n = 0 \/ Used(st, o.k) + o.n > o.m)

\* Nothing but a connection's own commands and its end change what it holds.
Isolation == \A o \in Ops : \A x \in Step(st, o) : \A c \in Conns : \A k \in Keys :
  (o.c # c \/ o.o \in {"tick", "Get", "Dump"}) => x.n.h[c][k] = st.h[c][k]

\* C10: nothing is left of a connection that is gone.
Returned == \A o \in Ops : o.o \in {"close", "LastAcquire"} =>
  \A x \in Step(st, o) : \A k \in Keys :
     /\ x.n.h[o.c][k] = 0
     /\ Used(x.n, k) = Used(st, k) - st.h[o.c][k]

\* C11: consumed counters are never removed.
Kept == \A o \in Ops : \A x \in Step(st, o) : \A k \in Keys :
  (Exists(st, k) /\ ~Exists(x.n, k)) => o.o = "tick" /\ x.n.p = 0 /\ Used(st, k) = 0

Inv == Bounded /\ Admission /\ Isolation /\ Returned /\ Kept

---------------------------------------------------------------------------
Enc(s) == <<s.h, s.m, s.p>>
OpSeq == SetToSeq(Ops)
ASSUME DumpOn => PrintT("##" \o ToJson(OpSeq))
Dump == DumpOn =>
  PrintT("@@" \o ToJson(<<ToString(Enc(st)),
     UNION { { <<i, x.r, x.q, x.k, x.u, ToString(Enc(x.n))>> : x \in Step(st, OpSeq[i]) } :
             i \in 1..Len(OpSeq) }, st.h>>))
=============================================================================
