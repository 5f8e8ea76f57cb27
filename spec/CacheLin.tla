------------------------------ MODULE CacheLin ------------------------------
(***************************************************************************)
(* Judges concurrent histories recorded from the implementation: is there  *)
(* an order of the commands, each placed between its call and its return,  *)
(* in which Cache!Step explains every reply?                               *)
(*                                                                         *)
(* A history is a sequence of events <<"c", op, reply>> (call; the reply   *)
(* is filled in from the return, <<"?">> when there was none) and          *)
(* <<"r", connection>> (return).  Each history is an initial state; a      *)
(* history is linearizable iff its end is reachable, and then it is        *)
(* reported.                                                               *)
(***************************************************************************)
EXTENDS Cache

\* (a definition, so that TLC evaluates it once)
Histories == JsonDeserialize("hist.json")

VARIABLES hi, pos, pend

\* pend: connection |-> <<>> (idle), <<op, reply>> (called), <<"done">>
Hist == Histories[hi]
AllConns == Conns \cup {"clk"}

LInit ==
  /\ hi \in 1..Len(Histories)
  /\ pos = 1
  /\ st = Start
  /\ pend = [c \in AllConns |-> <<>>]

Ev == Hist[pos]

Call ==
  /\ Ev[1] = "c"
  /\ pend[Ev[2].x] = <<>>
  /\ pend' = [pend EXCEPT ![Ev[2].x] = <<Ev[2], Ev[3]>>]
  /\ pos' = pos + 1
  /\ UNCHANGED <<st, hi>>

Return ==
  /\ Ev[1] = "r"
  /\ pend[Ev[2]] = <<"done">>
  /\ pend' = [pend EXCEPT ![Ev[2]] = <<>>]
  /\ pos' = pos + 1
  /\ UNCHANGED <<st, hi>>

\* The token of a conditional command is the one its connection was given
\* last; whether that is still the current one depends on the state.
WithTok(o) == IF o.t = "use" THEN [o EXCEPT !.t = st.t[o.c][o.k]] ELSE o

\* Commands take effect only when a return needs it; that loses no order.
Effect ==
  /\ Ev[1] = "r"
  /\ pend[Ev[2]] # <<"done">>
  /\ \E x \in AllConns :
       /\ pend[x] # <<>> /\ pend[x] # <<"done">>
       /\ \E out \in Step(st, WithTok(pend[x][1])) :
            /\ (IF pend[x][2] = <<"?">> THEN TRUE ELSE out.r = pend[x][2])
            /\ st' = out.n
       /\ pend' = [pend EXCEPT ![x] = <<"done">>]
  /\ UNCHANGED <<pos, hi>>

LNext == pos <= Len(Hist) /\ (Call \/ Return \/ Effect)

\* always true: reports how far each history was explained
Report == (pos = Len(Hist) + 1) => PrintT(<<"ok", hi>>)
Furthest == PrintT(<<"at", pos>>)
=============================================================================
