-------------------------------- MODULE Role --------------------------------
(***************************************************************************)
(* The life of one server: who is the master, and how it ends.             *)
(*                                                                         *)
(*   role  "ended" - not running, "seek" - without the address, and no     *)
(*         master to be found, "slave" - connected to a master, "master"   *)
(*   vip   this host has the virtual address                               *)
(*   m     the server that has the address elsewhere: 0 - there is none,   *)
(*         1, 2 - servers with different objects, "hole" - a host that     *)
(*         does not answer at all                                          *)
(*   d     whose objects this server has: 0 - none, 1, 2                   *)
(*   w     what clients have stored here is there, too                     *)
(*   l     what is going on: requests, collections, replication            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Loads,   \* what may go on at a master
          Masters, \* other servers
          Fixed,   \* the address never moves
          MaxL, DumpOn

VARIABLE st

Out(n, r) == [n |-> n, r |-> r]
NoMaster == "none"

\* The server becomes what it has to be: a master with the address, otherwise
\* a slave of the master it finds.
Settle(s) ==
  IF s.role \in {"ended", "master"} THEN s
  ELSE IF s.vip THEN [s EXCEPT !.role = "master"]
  ELSE IF s.m \in Masters \ {"hole"}
       THEN (IF s.role = "slave" THEN s
             \* (all it had is dropped)
             ELSE [s EXCEPT !.role = "slave", !.d = s.m, !.w = FALSE])
       ELSE [s EXCEPT !.role = "seek"]

End(s) == [s EXCEPT !.role = "ended", !.d = "none", !.w = FALSE, !.l = {}]

Ops == [o : {"start", "gain", "lose", "down", "gc", "client", "join", "write", "update",
             "TERM", "INT", "QUIT", "USR1", "HUP"}, x : {""}]
  \cup [o : {"up"}, x : Masters]
  \cup [o : {"load", "finish"}, x : Loads]

Running(s) == s.role # "ended"

Step(s, op) ==
  CASE op.o = "start" ->
         IF Running(s) THEN {}
         ELSE { Out(Settle([s EXCEPT !.role = "seek"]), "") }
    [] op.o = "gain" ->
         IF s.vip \/ Fixed THEN {}
         \* (the address is nowhere else then)
         ELSE { Out(Settle([s EXCEPT !.vip = TRUE, !.m = NoMaster]), "") }
    [] op.o = "lose" ->
         IF ~s.vip \/ Fixed THEN {} ELSE { Out(Settle([s EXCEPT !.vip = FALSE]), "") }
    [] op.o = "up" ->
         IF s.vip \/ s.m # NoMaster \/ s.role = "master" THEN {}
         ELSE { Out(Settle([s EXCEPT !.m = op.x]), "") }
    [] op.o = "down" ->
         IF s.m = NoMaster THEN {} ELSE { Out(Settle([s EXCEPT !.m = NoMaster]), "") }
    [] op.o = "gc" ->
         \* the collector runs; before it does, it looks for the address
         IF s.role # "master" \/ s.l # {} THEN {}
         ELSE IF s.vip THEN { Out(s, "") }
         ELSE { Out(End(s), "lost") }
    [] op.o = "client" ->
         \* a client asks for everything (it waits for what waits for a slave)
         IF "slave" \in s.l THEN {}
         ELSE IF s.role = "master" THEN { Out(s, <<s.d, s.w>>) } ELSE { Out(s, "no") }
    [] op.o = "join" ->
         \* a slave tries to connect (which lets the collector run)
         IF s.role = "master" /\ (~s.vip \/ s.l # {}) THEN {}
         ELSE { Out(s, IF s.role = "master" THEN "yes" ELSE "no") }
    [] op.o = "write" ->
         IF s.role = "master" /\ ~s.w /\ "slave" \notin s.l THEN { Out([s EXCEPT !.w = TRUE], "") } ELSE {}
    [] op.o = "update" ->
         \* the other server stores and deletes
         IF s.role = "slave" THEN { Out(s, "") } ELSE {}
    [] op.o \in {"TERM", "INT", "QUIT"} ->
         IF Running(s) THEN { Out(End(s), 0) } ELSE {}
    [] op.o \in {"USR1", "HUP"} ->
         IF Running(s) THEN { Out(s, "") } ELSE {}
    [] op.o = "load" ->
         \* (the collector waits for what waits for a slave)
         IF s.role = "master" /\ s.vip /\ op.x \notin s.l /\ Cardinality(s.l) < MaxL
            /\ ~({"gc", "slave"} \subseteq (s.l \cup {op.x}))
         THEN { Out([s EXCEPT !.l = @ \cup {op.x}], "") } ELSE {}
    [] op.o = "finish" ->
         IF op.x \in s.l THEN { Out([s EXCEPT !.l = @ \ {op.x}], "done") } ELSE {}

Init == st = [role |-> "ended", vip |-> Fixed, m |-> NoMaster, d |-> "none", w |-> FALSE, l |-> {}]
Next == \E op \in Ops : \E x \in Step(st, op) : st' = x.n

---------------------------------------------------------------------------
\* C15
MasterEntry == [][st.role # "master" /\ st'.role = "master" => st'.vip]_st
\* Whoever has the address is master (once it runs).
Takes == Running(st) /\ st.vip => st.role = "master"
\* Without the address a collection ends it.
Resigns == st.role = "master" /\ ~st.vip /\ st.l = {} =>
  \A x \in Step(st, [o |-> "gc", x |-> ""]) : x.n.role = "ended"
Seeks == st.role = "seek" => ~st.vip /\ st.m \notin Masters \ {"hole"}
Refuses == st.role # "master" =>
  \A o \in {"client", "join"} : \A x \in Step(st, [o |-> o, x |-> ""]) : x.r = "no"
\* Becoming master keeps what was received.
Keeps == [][st.role # "ended" /\ st'.role = "master" => st'.d = st.d /\ (st.w => st'.w)]_st
\* C27
Ends == \A o \in {"TERM", "INT", "QUIT"} : Running(st) =>
  /\ Step(st, [o |-> o, x |-> ""]) # {}
  /\ \A x \in Step(st, [o |-> o, x |-> ""]) : x.r = 0 /\ x.n.role = "ended"
Stays == \A o \in {"USR1", "HUP"} : \A x \in Step(st, [o |-> o, x |-> ""]) : x.n = st
Inv == Takes /\ Resigns /\ Seeks /\ Refuses /\ Ends /\ Stays

---------------------------------------------------------------------------
OpSeq == SetToSeq(Ops)
ASSUME DumpOn => PrintT("##" \o ToJson(OpSeq))
Dump == DumpOn =>
  PrintT("@@" \o ToJson(<<ToString(st),
     UNION { { <<i, x.r, ToString(x.n)>> : x \in Step(st, OpSeq[i]) } : i \in 1..Len(OpSeq) }, st>>))
=============================================================================
