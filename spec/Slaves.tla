------------------------------- MODULE Slaves -------------------------------
(***************************************************************************)
(* A master and its slaves: heartbeats, silence, and slaves that do not    *)
(* read.                                                                   *)
(*                                                                         *)
(*   a[i]  seconds since the master heard from slave i; None: not attached *)
(*   u[i]  it does not read                                                *)
(*   f[i]  so much was sent to it that the master's buffers may be full    *)
(*   s[i]  it has all objects, and gets all updates                        *)
(*   b     a client may be waiting until buffers are free again            *)
(*   w     a second has passed that the master has not noticed yet         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS N,       \* slaves
          T,       \* slave_timeout
          Steps,   \* how far the clock moves at once
          Real,    \* those that are servers themselves: they send heartbeats on their own
          Stall,   \* slaves may stop reading
          Late,    \* the master may be late
          Few,     \* only the last slave leaves, and all are heard together
          DumpOn

VARIABLE st

None == 99
Most == 5          \* slaves a master can have
Slaves == 1..N
Out(n, r) == [n |-> n, r |-> r]
On(s) == { i \in Slaves : s.a[i] # None }
Full(s) == { i \in On(s) : s.f[i] }

Drop(s, D) == [s EXCEPT !.a = [i \in Slaves |-> IF i \in D THEN None ELSE @[i]],
                        !.u = [i \in Slaves |-> i \notin D /\ @[i]],
                        !.f = [i \in Slaves |-> i \notin D /\ @[i]],
                        !.s = [i \in Slaves |-> i \notin D /\ @[i]]]

\* A client may wait as long as there is a reason to.
Resolve(s) == [s EXCEPT !.b = @ /\ Full(s) # {}]
Outs(S, r) == { Out(n, <<r, n.b>>) : n \in S }

Ops == [o : {"join", "beat", "fin", "rst", "stall", "deaf", "drain"}, x : Slaves]
  \cup [o : {"tick", "hold"}, x : Steps]
  \cup [o : {"write", "fill", "late", "all"}, x : {0}]

New(s, i, deaf) == [s EXCEPT !.a[i] = 0, !.u[i] = deaf, !.f[i] = deaf, !.s[i] = FALSE]

\* The clock moves by k; the slaves in H do not send anything.
Time(s, k, H) ==
  LET age == [i \in Slaves |-> IF s.a[i] = None THEN None
                               ELSE IF i \in Real \ H THEN k ELSE s.a[i] + k]
      must == { i \in On(s) : age[i] > T }
      may == { i \in On(s) : age[i] = T }
  IN UNION { LET D == must \cup E
                 n == Drop([s EXCEPT !.a = age, !.w = FALSE], D)
                 m == Resolve(n)
             IN Outs({ IF k >= 3 /\ Full(s) = {} /\ ~s.b
                       THEN [m EXCEPT !.s = [i \in Slaves |-> @[i] \/ (i \in On(m) /\ ~m.u[i])]] ELSE m },
                     SetToSeq(D)) : E \in SUBSET may }

Step(s, op) ==
  LET x == op.x IN
  CASE op.o \in {"join", "deaf"} ->
         IF s.a[x] # None \/ (op.o = "deaf" /\ (~Stall \/ x \in Real)) THEN {}
         ELSE IF Few /\ x # Min(Slaves \ On(s)) THEN {}
         ELSE LET n == New(s, x, op.o = "deaf") IN
              IF Cardinality(On(s)) < Most THEN Outs({n}, <<>>)
              ELSE Outs({n}, <<>>) \cup Outs({s}, <<x>>)
    [] op.o = "beat" ->
         IF s.a[x] = None \/ x \in Real \/ Few THEN {} ELSE Outs({[s EXCEPT !.a[x] = 0]}, <<>>)
    [] op.o \in {"fin", "rst"} ->
         IF s.a[x] = None \/ (Few /\ x # Max(On(s))) THEN {} ELSE Outs({Resolve(Drop(s, {x}))}, <<>>)
    [] op.o = "stall" ->
         IF s.a[x] = None \/ s.u[x] \/ ~Stall \/ x \in Real THEN {}
         ELSE Outs({[s EXCEPT !.u[x] = TRUE, !.f[x] = s.b]}, <<>>)
    [] op.o = "drain" ->
         IF s.a[x] = None \/ ~s.u[x] THEN {}
         ELSE Outs({Resolve([s EXCEPT !.u[x] = FALSE, !.f[x] = FALSE])}, <<>>)
    [] op.o = "fill" ->
         IF s.b \/ ~\E i \in On(s) : s.u[i] /\ s.s[i] THEN {}
         ELSE Outs({[s EXCEPT !.b = TRUE, !.f = [i \in Slaves |-> s.u[i]]]}, <<>>)
    [] op.o = "write" ->
         IF s.b THEN {}
         ELSE IF Full(s) = {} THEN Outs({s}, <<>>)
         ELSE Outs({[s EXCEPT !.b = TRUE, !.f = [i \in Slaves |-> s.u[i]]]}, <<>>)
    [] op.o = "all" ->
         IF ~Few THEN {}
         ELSE Outs({[s EXCEPT !.a = [i \in Slaves |-> IF @[i] = None THEN None ELSE 0]]}, <<>>)
    [] op.o = "late" ->
         \* (time is looked at about once a second)
         IF s.w \/ ~Late THEN {}
         ELSE Outs({[s EXCEPT !.w = TRUE, !.a = [i \in Slaves |-> IF @[i] = None THEN None ELSE @[i] + 1]]}, <<>>)
    [] op.o = "tick" -> Time(s, x, {})
    [] op.o = "hold" -> IF Real = {} THEN {} ELSE Time(s, x, Real)

No == [i \in Slaves |-> FALSE]
Init == st = [a |-> [i \in Slaves |-> None], u |-> No, f |-> No, s |-> No, b |-> FALSE, w |-> FALSE]
Next == \E op \in Ops : \E x \in Step(st, op) : st' = x.n

---------------------------------------------------------------------------
\* C26
Dropped(x) == { x.r[1][i] : i \in 1..Len(x.r[1]) }
\* Only time and the slave itself end its connection, and time only when
\* nothing was heard from it.
Kept == \A op \in Ops : \A x \in Step(st, op) : \A i \in On(st) :
  x.n.a[i] = None => \/ op.o \in {"fin", "rst"} /\ op.x = i
                     \/ op.o \in {"tick", "hold"} /\ st.a[i] + op.x >= T
\* A slave that says something at each step is kept.
Alive == ~Few => \A i \in On(st) : \A k \in Steps :
  k < T => \A x \in Step(st, [o |-> "beat", x |-> i]) :
             \A y \in Step(x.n, [o |-> "tick", x |-> k]) : i \notin Dropped(y)
\* Nobody is kept for longer than the timeout.
Bounded == \A i \in On(st) : st.a[i] <= T + (IF st.w THEN 1 ELSE 0)
\* When all slaves that do not read are gone, nobody waits for them, and the
\* others have everything.
Free == (st.b => Full(st) # {}) /\ \A op \in Ops : \A x \in Step(st, op) :
  \A i \in On(st) : (st.s[i] /\ i \in On(x.n)) => x.n.s[i]
Inv == Kept /\ Alive /\ Bounded /\ Free

---------------------------------------------------------------------------
OpSeq == SetToSeq(Ops)
ASSUME DumpOn => PrintT("##" \o ToJson(OpSeq))
Dump == DumpOn =>
  PrintT("@@" \o ToJson(<<ToString(st),
     UNION { { <<i, x.r, ToString(x.n)>> : x \in Step(st, OpSeq[i]) } : i \in 1..Len(OpSeq) }, st>>))
=============================================================================
