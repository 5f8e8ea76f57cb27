-------------------------------- MODULE Conn --------------------------------
(***************************************************************************)
(* Connections: accepted up to the limit of their server, refused beyond   *)
(* it, reclaimed when they end; and what happens when the system has no    *)
(* descriptors (or memory) for new ones.                                   *)
(*                                                                         *)
(*   o[c]  "no" - not connected, "open" - being served, "wait" - connected *)
(*         but not accepted, because accepting fails                       *)
(*   p[c]  what the server has to complete: "" nothing, "half" a part of a *)
(*         request was sent, "full" a request was sent and not answered    *)
(*   q     the clients that wait, in order; "gone" stands for one that     *)
(*         has closed its connection again                                 *)
(*   f     accepting fails                                                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Order,     \* the clients (a number n stands for c1..cn)
          Counters,  \* how many of them, from the end, use the counter server
          Limit, CLimit, \* max_connections of the servers, 0: unlimited
          MaxQ, DumpOn

VARIABLE st

Name(i) == "c" \o ToString(i)
Conns == { Name(i) : i \in 1..Order }
CtrConns == { Name(i) : i \in (Order - Counters + 1)..Order }
Srv(c) == IF c \in CtrConns THEN "ctr" ELSE "mc"
LimitOf(v) == IF v = "ctr" THEN CLimit ELSE Limit

Out(n, r) == [n |-> n, r |-> r]
None == [c \in Conns |-> ""]
Open(s, v) == { c \in Conns : Srv(c) = v /\ s.o[c] = "open" }
\* (g: how many of those that closed before they were accepted count still)
Room(s, v, g) == LimitOf(v) = 0 \/ Cardinality(Open(s, v)) + g < LimitOf(v)

\* c is accepted, or refused
Accept(s, c, g) ==
  IF Room(s, Srv(c), g)
  THEN Out([s EXCEPT !.o[c] = "open", !.p[c] = IF @ = "full" THEN "" ELSE @],
           IF s.p[c] = "full" THEN "in+ans" ELSE "in")
  ELSE Out([s EXCEPT !.o[c] = "no", !.p[c] = ""], "out")

RECURSIVE AcceptAll(_, _, _, _)
\* All of w in order.  Whether one that has gone takes a place for a moment is open.
AcceptAll(s, w, g, r) ==
  IF w = <<>> THEN { Out(s, r) }
  ELSE LET c == Head(w) IN
       IF c \in {"gone", "cgone"}
       THEN LET v == IF c = "cgone" THEN "ctr" ELSE "mc"
            IN UNION { AcceptAll(s, Tail(w), [g EXCEPT ![v] = @ + k], r) :
                       k \in {0} \cup (IF Room(s, v, g[v]) THEN {1} ELSE {}) }
       ELSE LET x == Accept(s, c, g[Srv(c)])
            IN AcceptAll(x.n, Tail(w), g, [r EXCEPT ![c] = x.r])

Zero == [mc |-> 0, ctr |-> 0]
Idle(s) == SelectSeq([i \in 1..Order |-> Name(i)], LAMBDA c : s.o[c] = "no")

Queue(s, c) == [s EXCEPT !.o[c] = "wait", !.q = Append(@, c)]

Ops == [o : {"open", "half", "full", "rest", "fin", "rst", "end"}, c : Conns]
  \cup [o : {"burst", "fault", "heal", "tick"}, c : {""}]

Step(s, op) ==
  LET c == op.c IN
  CASE op.o = "open" ->
         IF s.o[c] # "no" THEN {}
         ELSE IF s.f THEN (IF Len(s.q) < MaxQ THEN { Out(Queue(s, c), None) } ELSE {})
         ELSE LET x == Accept(s, c, 0) IN { Out(x.n, [None EXCEPT ![c] = x.r]) }
    [] op.o = "burst" ->
         \* all clients at once
         IF Len(Idle(s)) < 2 THEN {}
         ELSE IF s.f THEN (IF Len(s.q) + Len(Idle(s)) > MaxQ THEN {}
                           ELSE { Out([s EXCEPT !.o = [d \in Conns |-> IF @[d] = "no" THEN "wait" ELSE @[d]],
                                                !.q = @ \o Idle(s)], None) })
         ELSE AcceptAll(s, Idle(s), Zero, None)
    [] op.o = "half" ->
         IF s.o[c] = "no" \/ s.p[c] # "" THEN {} ELSE { Out([s EXCEPT !.p[c] = "half"], None) }
    [] op.o \in {"full", "rest"} ->
         IF s.o[c] = "no" \/ s.p[c] # (IF op.o = "rest" THEN "half" ELSE "") THEN {}
         ELSE IF s.o[c] = "open" THEN { Out([s EXCEPT !.p[c] = ""], [None EXCEPT ![c] = "ans"]) }
         ELSE { Out([s EXCEPT !.p[c] = "full"], None) }
    [] op.o \in {"fin", "rst"} ->
         IF s.o[c] = "no" THEN {}
         ELSE { Out([s EXCEPT !.o[c] = "no", !.p[c] = "",
                     !.q = [i \in 1..Len(@) |-> IF @[i] # c THEN @[i]
                                                ELSE IF c \in CtrConns THEN "cgone" ELSE "gone"]], None) }
    [] op.o = "end" ->
         \* the server ends the connection: on quit, or because of nonsense
         IF s.o[c] # "open" \/ s.p[c] # "" THEN {}
         ELSE { Out([s EXCEPT !.o[c] = "no"], [None EXCEPT ![c] = "end"]) }
    [] op.o = "fault" -> IF s.f THEN {} ELSE { Out([s EXCEPT !.f = TRUE], None) }
    [] op.o = "heal" -> IF s.f THEN AcceptAll([s EXCEPT !.f = FALSE, !.q = <<>>], s.q, Zero, None) ELSE {}
    [] op.o = "tick" -> { Out(s, None) }

Init == st = [o |-> [c \in Conns |-> "no"], p |-> None, q |-> <<>>, f |-> FALSE]
Next == \E op \in Ops : \E x \in Step(st, op) : st' = x.n

---------------------------------------------------------------------------
\* C21
\* Never more than the limit.
Limited == \A v \in {"mc", "ctr"} : LimitOf(v) = 0 \/ Cardinality(Open(st, v)) <= LimitOf(v)
\* A place is free again at once: what has ended does not count.
Reclaimed == \A c \in Conns :
  (st.o[c] = "no" /\ ~st.f /\ Room(st, Srv(c), 0)) =>
    \A x \in Step(st, [o |-> "open", c |-> c]) : x.n.o[c] = "open"
\* Nobody loses a connection, or what it has sent, by what others do.
Unharmed == \A op \in Ops : \A x \in Step(st, op) : \A d \in Conns \ {op.c} :
  /\ st.o[d] = "open" => x.n.o[d] = "open" /\ x.n.p[d] = st.p[d] /\ x.r[d] = ""
  /\ st.o[d] = "wait" /\ op.o # "heal" => x.n.o[d] = "wait" /\ x.n.p[d] = st.p[d]
\* Those that waited are served or refused when accepting works again.
Healed == ~st.f => (st.q = <<>> /\ \A c \in Conns : st.o[c] # "wait" /\ st.p[c] # "full")
Inv == Limited /\ Reclaimed /\ Unharmed /\ Healed

---------------------------------------------------------------------------
OpSeq == SetToSeq(Ops)
ASSUME DumpOn => PrintT("##" \o ToJson(OpSeq))
Dump == DumpOn =>
  PrintT("@@" \o ToJson(<<ToString(st),
     UNION { { <<i, x.r, ToString(x.n)>> : x \in Step(st, OpSeq[i]) } : i \in 1..Len(OpSeq) }, st>>))
=============================================================================
