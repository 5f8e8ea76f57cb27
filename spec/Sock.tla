-------------------------------- MODULE Sock --------------------------------
(***************************************************************************)
(* Clients that do not read.  Some clients send requests and read the      *)
(* replies late, in parts, or never; each of them may occupy one worker.   *)
(* Nobody else waits as long as there is another worker, and a client that *)
(* goes on reading gets every byte.                                        *)
(*                                                                         *)
(*   q[c]  requests of c whose replies have not been read (completely):    *)
(*         "big" more than the kernel takes, "inc" adds one to a number    *)
(*         that belongs to c                                               *)
(*   e[c]  c has sent quit, or closed its sending half                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Conns, Workers, MaxU, DumpOn

VARIABLE st

Out(n, r) == [n |-> n, r |-> r]
Incs(s, c) == Len(SelectSeq(s.q[c], LAMBDA k : k = "inc"))
Busy(s) == {c \in Conns : s.q[c] # <<>>}
Free(s) == Workers - Cardinality(Busy(s))
\* The first request has been executed, whatever the client reads.
Done(s, c) == IF s.q[c] # <<>> /\ s.q[c][1] = "inc" THEN 1 ELSE 0
Gone(s, c) == [s EXCEPT !.q[c] = <<>>, !.e[c] = FALSE]

Ops == [o : {"ask"}, c : Conns, k : {"big", "inc"}]
  \cup [o : {"part", "read", "look", "close", "quit", "half"}, c : Conns, k : {""}]
  \cup [o : {"other", "tick"}, c : {""}, k : {""}]

Step(s, op) ==
  LET c == op.c IN
  CASE op.o = "ask" ->
         IF s.e[c] \/ Len(s.q[c]) >= MaxU THEN {}
         ELSE { Out([s EXCEPT !.q[c] = Append(@, op.k)], <<>>) }
    [] op.o = "part" -> IF s.q[c] = <<>> THEN {} ELSE { Out(s, <<>>) }
    [] op.o = "read" ->
         IF s.q[c] = <<>> /\ ~s.e[c] THEN {}
         ELSE { Out(Gone(s, c), s.q[c] \o (IF s.e[c] THEN <<"end">> ELSE <<>>)) }
    [] op.o = "look" ->
         IF Free(s) = 0 THEN {}
         ELSE { Out(s, <<n>>) : n \in Done(s, c) .. Incs(s, c) }
    [] op.o = "close" -> { Out(Gone(s, c), <<>>) }
    [] op.o \in {"quit", "half"} ->
         IF s.e[c] THEN {} ELSE { Out([s EXCEPT !.e[c] = TRUE], <<>>) }
    [] op.o \in {"other", "tick"} -> IF Free(s) = 0 THEN {} ELSE { Out(s, <<>>) }

Init == st = [q |-> [c \in Conns |-> <<>>], e |-> [c \in Conns |-> FALSE]]
Next == \E op \in Ops : \E x \in Step(st, op) : st' = x.n

---------------------------------------------------------------------------
\* C18
Op(o, c) == [o |-> o, c |-> c, k |-> ""]
\* All that was asked is answered, in order, when the client reads.
Whole == \A c \in Conns : \A x \in Step(st, Op("read", c)) :
           /\ IsPrefix(st.q[c], x.r) /\ x.n.q[c] = <<>>
           /\ \A d \in Conns \ {c} : x.n.q[d] = st.q[d]
\* Others are served unless every worker has its own client that does not read.
NoStall == (\E c \in Conns : st.q[c] = <<>>) \/ Workers > Cardinality(Conns)
              => Step(st, Op("other", "")) # {} \/ Cardinality(Busy(st)) >= Workers
\* A client that goes away no longer occupies its worker.
Freed == \A c \in Conns : \A x \in Step(st, Op("close", c)) : c \notin Busy(x.n)
Inv == Whole /\ NoStall /\ Freed

---------------------------------------------------------------------------
OpSeq == SetToSeq(Ops)
ASSUME DumpOn => PrintT("##" \o ToJson(OpSeq))
Dump == DumpOn =>
  PrintT("@@" \o ToJson(<<ToString(st),
     UNION { { <<i, x.r, ToString(x.n)>> : x \in Step(st, OpSeq[i]) } : i \in 1..Len(OpSeq) }, st>>))
=============================================================================
