----------------------------- MODULE CounterLin -----------------------------
(***************************************************************************)
(* Judges concurrent histories of the counter protocol, as CacheLin does   *)
(* for the cache: there must be an order of the requests, each placed      *)
(* between its call and its return, in which Counter!Step explains every   *)
(* reply.  The end of a connection is a request without a return: its      *)
(* resources come back at some time after it.                              *)
(***************************************************************************)
EXTENDS Counter

Histories == JsonDeserialize("hist.json")

VARIABLES hi, pos, pend

Hist == Histories[hi]

LInit ==
  /\ hi \in 1..Len(Histories)
  /\ pos = 1
  /\ st = Start
  /\ pend = [c \in Conns |-> <<>>]

Ev == Hist[pos]

Call ==
  /\ Ev[1] = "c"
  /\ pend[Ev[2].c] = <<>>
  /\ pend' = [pend EXCEPT ![Ev[2].c] = <<Ev[2], Ev[3]>>]
  /\ pos' = pos + 1
  /\ UNCHANGED <<st, hi>>

Return ==
  /\ Ev[1] = "r"
  /\ pend[Ev[2]] = <<"done">>
  /\ pend' = [pend EXCEPT ![Ev[2]] = <<>>]
  /\ pos' = pos + 1
  /\ UNCHANGED <<st, hi>>

Effect ==
  /\ Ev[1] = "r"
  /\ pend[Ev[2]] # <<"done">>
  /\ \E x \in Conns :
       /\ pend[x] # <<>> /\ pend[x] # <<"done">>
       /\ \E out \in Step(st, pend[x][1]) :
            /\ (IF pend[x][2] = <<"?">> THEN TRUE ELSE out.r = pend[x][2])
            /\ st' = out.n
       /\ pend' = [pend EXCEPT ![x] = <<"done">>]
  /\ UNCHANGED <<pos, hi>>

LNext == pos <= Len(Hist) /\ (Call \/ Return \/ Effect)

Report == (pos = Len(Hist) + 1) => PrintT(<<"ok", hi>>)
Furthest == PrintT(<<"at", pos>>)
=============================================================================
