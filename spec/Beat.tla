-------------------------------- MODULE Beat --------------------------------
(***************************************************************************)
(* A slave, seen by its master: it says something every second.            *)
(*                                                                         *)
(*   c     connected                                                       *)
(*   l     what the master does: sends updates without pause, has stopped  *)
(*         in the middle of one, does not read                             *)
(*   n     (while the master does not read) seconds since then             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS MaxN, DumpOn
VARIABLE st

Loads == {"flood", "part", "deaf"}
Out(n, r) == [n |-> n, r |-> r]
Ops == [o : {"connect", "fin", "rst", "tick", "update"}, x : {""}] \cup [o : {"load", "unload"}, x : Loads]

Step(s, op) ==
  CASE op.o = "connect" -> IF s.c THEN {} ELSE { Out([s EXCEPT !.c = TRUE], 0) }
    [] op.o \in {"fin", "rst"} ->
         IF ~s.c THEN {} ELSE { Out([s EXCEPT !.c = FALSE, !.l = {}, !.n = 0], 0) }
    [] op.o = "tick" ->
         IF ~s.c THEN { Out(s, 0) }
         ELSE IF "deaf" \in s.l THEN (IF s.n = MaxN THEN {} ELSE { Out([s EXCEPT !.n = @ + 1], 0) })
         ELSE { Out(s, 1) }
    [] op.o = "update" -> IF s.c /\ s.l \cap {"flood", "part"} = {} THEN { Out(s, 0) } ELSE {}
    [] op.o = "load" ->
         IF ~s.c \/ op.x \in s.l \/ (op.x # "deaf" /\ s.l \cap {"flood", "part"} # {}) THEN {}
         ELSE { Out([s EXCEPT !.l = @ \cup {op.x}], 0) }
    [] op.o = "unload" ->
         IF op.x \notin s.l THEN {}
         \* (all that was said is there)
         ELSE { Out([s EXCEPT !.l = @ \ {op.x}, !.n = IF op.x = "deaf" THEN 0 ELSE @],
                    IF op.x = "deaf" THEN s.n ELSE 0) }

Init == st = [c |-> FALSE, l |-> {}, n |-> 0]
Next == \E op \in Ops : \E x \in Step(st, op) : st' = x.n

\* C26: whatever the master does, it hears from its slave every second.
Heard == /\ (st.c /\ "deaf" \notin st.l) => \A x \in Step(st, [o |-> "tick", x |-> ""]) : x.r >= 1
         /\ "deaf" \in st.l => \A x \in Step(st, [o |-> "unload", x |-> "deaf"]) : x.r >= st.n
Inv == Heard

OpSeq == SetToSeq(Ops)
ASSUME DumpOn => PrintT("##" \o ToJson(OpSeq))
Dump == DumpOn =>
  PrintT("@@" \o ToJson(<<ToString(st),
     UNION { { <<i, x.r, ToString(x.n)>> : x \in Step(st, OpSeq[i]) } : i \in 1..Len(OpSeq) }, st>>))
=============================================================================
