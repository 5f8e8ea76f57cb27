-------------------------------- MODULE Work --------------------------------
(***************************************************************************)
(* Workers and the requests that wait for them.                            *)
(*                                                                         *)
(* A worker serves one connection at a time.  It can be held up at two     *)
(* points: before it reads ("pre"), and when it has read and answered all  *)
(* there was and is about to leave the connection ("post").  Requests that *)
(* arrive while their connection is being served, or while every worker is *)
(* held up, wait.                                                          *)
(*                                                                         *)
(*   h[c]  whether a worker is held up at connection c: "no", "pre",       *)
(*         "post", or "dead" if the client has since gone                  *)
(*   p[c]  requests sent on c that have not been answered                  *)
(*                                                                         *)
(* A step ends when nothing is left to do; its result is the number of     *)
(* requests that are answered on each connection.                          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Conns, Workers, MaxP, DumpOn

VARIABLE st

Held(s) == {c \in Conns : s.h[c] # "no"}
Free(s) == Workers - Cardinality(Held(s))
Can(s, c) == s.h[c] = "no" /\ Free(s) > 0

\* All that can be answered is answered.
Answered(s) == [c \in Conns |-> IF Can(s, c) THEN s.p[c] ELSE 0]
Rest(s) == [s EXCEPT !.p = [c \in Conns |-> IF Can(s, c) THEN 0 ELSE s.p[c]]]
\* t: what the step has changed so far; a: answered before that
Out(t, a) == [n |-> Rest(t), r |-> [c \in Conns |-> Answered(t)[c] + a[c]]]
Zero == [c \in Conns |-> 0]

Ops == [o : {"send", "pre", "post", "release", "close"}, c : Conns] \cup [o : {"burst"}, c : {""}]

Step(s, op) ==
  LET c == op.c IN
  CASE op.o = "send" ->
         IF s.h[c] = "dead" \/ s.p[c] >= MaxP THEN {}
         ELSE { Out([s EXCEPT !.p[c] = @ + 1], Zero) }
    [] op.o = "pre" ->
         IF Can(s, c) THEN { Out([s EXCEPT !.p[c] = @ + 1, !.h[c] = "pre"], Zero) } ELSE {}
    [] op.o = "post" ->
         IF Can(s, c) THEN { Out([s EXCEPT !.h[c] = "post"], [Zero EXCEPT ![c] = 1]) } ELSE {}
    [] op.o = "release" ->
         IF s.h[c] # "no" THEN { Out([s EXCEPT !.h[c] = "no"], Zero) } ELSE {}
    [] op.o = "close" ->
         \* the client goes (and comes again); what it had asked is void
         IF s.h[c] = "dead" THEN {}
         ELSE { Out([s EXCEPT !.p[c] = 0, !.h[c] = IF @ = "no" THEN "no" ELSE "dead"], Zero) }
    [] op.o = "burst" ->
         \* many other clients
         IF Free(s) > 0 THEN { Out(s, Zero) } ELSE {}

Init == st = [h |-> [c \in Conns |-> "no"], p |-> Zero]
Next == \E op \in Ops : \E x \in Step(st, op) : st' = x.n

---------------------------------------------------------------------------
\* C25: no request waits unless its own connection is being served or every
\* worker is held up; and what waits is answered once that has ended.
NoWait == \A c \in Conns : st.p[c] > 0 => st.h[c] # "no" \/ Free(st) = 0
Conserved == \A op \in Ops : \A x \in Step(st, op) :
  op.o # "close" =>
    \A c \in Conns : x.n.p[c] + x.r[c] = st.p[c] + (IF op.c = c /\ op.o \in {"send", "pre", "post"} THEN 1 ELSE 0)
Resume == \A c \in Conns :
  \A x \in Step(st, [o |-> "release", c |-> c]) :
    \A d \in Conns : x.n.h[d] = "no" => x.r[d] = st.p[d]
Inv == NoWait /\ Conserved /\ Resume /\ Cardinality(Held(st)) <= Workers

---------------------------------------------------------------------------
OpSeq == SetToSeq(Ops)
ASSUME DumpOn => PrintT("##" \o ToJson(OpSeq))
Dump == DumpOn =>
  PrintT("@@" \o ToJson(<<ToString(st),
     UNION { { <<i, x.r, ToString(x.n)>> : x \in Step(st, OpSeq[i]) } : i \in 1..Len(OpSeq) }, st>>))
=============================================================================
