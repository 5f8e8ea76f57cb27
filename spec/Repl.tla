------------------------------- MODULE Repl --------------------------------
(***************************************************************************)
(* How a slave gets a copy of a running master.  Commands and collections  *)
(* that were begun before it joined do not know it.  When the last of them *)
(* has ended, a collection starts that sends it every object, bucket by    *)
(* bucket, and from then on - not before - all commands send it what they  *)
(* do.  (Were they to send it anything earlier, one that does not know it  *)
(* could delete the same object unnoticed: Gate = FALSE.)                  *)
(*                                                                         *)
(*   m  the master's objects: 0 none, or a version                         *)
(*   r  what the slave has received                                        *)
(*   j  the slave: "no", "wait" joined while older commands are under way, *)
(*      "new" to be served by the next collection, "in"                    *)
(*   h  per client the command under way: <<>> or <<kind, key, knows>>     *)
(*      (kind: "w" stores, "d" deletes; knows: TRUE when it will be sent   *)
(*      to the slave)                                                      *)
(*   p  the clients whose commands the slave waits for                     *)
(*   g  the collector: <<>> or <<bucket, copies, knows, flushes>>          *)
(*   f  a flush has been requested and no collector has completed it       *)
(*   u  keys stored while a flush was in effect: the collector may still   *)
(*      take them                                                          *)
(*                                                                         *)
(* Keys are 1..N; every key is in a bucket of its own.                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS N, Clients, MaxVer, WithFlush, WithLeave,
          Sync,     \* TRUE: the copy waits for older commands
          Gate,     \* TRUE: nothing is sent before the copy starts
          DumpOn

VARIABLE st

Keys == 1..N
Out(n, r) == [n |-> n, r |-> r]

Knows(s) == s.j # "no"
Fresh(s) == CHOOSE v \in 1..MaxVer : v \notin ({s.m[k] : k \in Keys} \cup {s.r[k] : k \in Keys})

Sends(s, knows) == knows /\ (Gate => s.j = "in")
Write(s, k, knows) ==
  LET v == IF s.m[k] = 0 \/ s.m[k] = MaxVer THEN 1 ELSE s.m[k] + 1
      w == IF v = s.r[k] /\ s.r[k] # s.m[k] THEN (v % MaxVer) + 1 ELSE v
  IN [s EXCEPT !.m[k] = w, !.r[k] = IF Sends(s, knows) THEN w ELSE @,
               !.u = IF s.f THEN @ \cup {k} ELSE @]
\* (A delete of a key that is absent sends nothing.)
Erase(s, k, knows) ==
  [s EXCEPT !.m[k] = 0, !.r[k] = IF Sends(s, knows) /\ s.m[k] # 0 THEN 0 ELSE @, !.u = @ \ {k}]

Perform(s, kind, k, knows) == IF kind = "w" THEN Write(s, k, knows) ELSE Erase(s, k, knows)

Idle(s) == s.h = [c \in Clients |-> <<>>]
Busy(s) == {c \in Clients : s.h[c] # <<>>}

Admit(s) == [s EXCEPT !.j = IF Sync /\ Busy(s) # {} THEN "wait" ELSE "new",
                      !.p = Busy(s), !.r = [k \in Keys |-> 0]]

\* Time passes until a collection runs.
Tick(s) ==
  LET s2 == IF s.j = "wait" /\ s.p = {} THEN [s EXCEPT !.j = "new"] ELSE s
  IN IF s2.g # <<>> THEN s2
     ELSE [s2 EXCEPT !.g = <<1, s2.j = "new", Knows(s2), s2.f>>,
                     !.j = IF @ = "new" THEN "in" ELSE @]

GcStep(s) ==
  LET b == s.g[1]
      k == b
      s1 == IF s.m[k] = 0 THEN s
            ELSE IF s.g[4] THEN Erase(s, k, s.g[3])
            ELSE IF s.g[2] /\ s.j = "in" THEN [s EXCEPT !.r[k] = s.m[k]]
            ELSE s
  IN IF b < N THEN [s1 EXCEPT !.g[1] = b + 1]
     ELSE [s1 EXCEPT !.g = <<>>, !.f = IF s.g[4] THEN FALSE ELSE @,
                     !.u = IF s.g[4] THEN {} ELSE @]

RECURSIVE Finish(_)
Finish(s) == IF s.g = <<>> THEN s ELSE Finish(GcStep(s))
\* Everything under way ends, then there are a few collections.
Settle(s) == Finish(Tick(Finish(Tick(Finish(Tick(Finish(s)))))))
\* (While a flush is carried out it is left open which new objects it takes.)
Settled(s) ==
  { [Settle(s) EXCEPT !.m = [k \in Keys |-> IF k \in s.u THEN (IF k \in E THEN 1 ELSE 0) ELSE @[k]],
                      !.r = [k \in Keys |-> IF s.j # "no"
                                            THEN (IF k \in s.u THEN (IF k \in E THEN 1 ELSE 0) ELSE @[k]) ELSE 0]]
    : E \in SUBSET s.u }

Ops ==
  [o : {"write", "erase"}, c : {"-"}, k : Keys] \cup
  [o : {"bwrite", "berase"}, c : Clients, k : Keys] \cup
  [o : {"end"}, c : Clients, k : {0}] \cup
  [o : {"join", "tick", "gcstep", "settle"} \cup (IF WithFlush THEN {"flush"} ELSE {})
       \cup (IF WithLeave THEN {"leave"} ELSE {}), c : {"-"}, k : {0}]

Step(s, op) ==
  CASE op.o = "write" -> { Out(Write(s, op.k, Knows(s)), <<"OK">>) }
    [] op.o = "erase" -> { Out(Erase(s, op.k, Knows(s)), <<"OK">>) }
    [] op.o \in {"bwrite", "berase"} ->
         IF s.h[op.c] = <<>>
         THEN { Out([s EXCEPT !.h[op.c] = <<IF op.o = "bwrite" THEN "w" ELSE "d", op.k, Knows(s)>>], <<"OK">>) }
         ELSE {}
    [] op.o = "end" ->
         IF s.h[op.c] # <<>>
         THEN { Out([Perform(s, s.h[op.c][1], s.h[op.c][2], s.h[op.c][3])
                       EXCEPT !.h[op.c] = <<>>, !.p = @ \ {op.c}], <<"OK">>) }
         ELSE {}
    [] op.o = "join" ->
         IF s.j = "no" THEN { Out(Admit(s), <<"OK">>) }
         ELSE {}
    \* (It takes time until the slave is gone: a flush may be carried out.)
    [] op.o = "leave" ->
         IF s.j # "no" /\ (s.f => s.g # <<>>)
         THEN { Out([s EXCEPT !.j = "no", !.p = {}, !.r = [k \in Keys |-> 0],
                     !.h = [c \in Clients |-> IF @[c] = <<>> THEN @[c] ELSE [@[c] EXCEPT ![3] = FALSE]],
                     !.g = IF @ = <<>> THEN @ ELSE [@ EXCEPT ![2] = FALSE, ![3] = FALSE]], <<"OK">>) }
         ELSE {}
    [] op.o = "tick" -> { Out(Tick(s), <<"OK">>) }
    [] op.o = "gcstep" -> IF s.g # <<>> THEN { Out(GcStep(s), <<"OK">>) } ELSE {}
    [] op.o = "flush" ->
         IF ~s.f /\ s.g = <<>> THEN { Out([s EXCEPT !.f = TRUE], <<"OK">>) } ELSE {}
    [] op.o = "settle" ->
         IF Idle(s) THEN { Out(x, <<"OK">>) : x \in Settled(s) } ELSE {}

Init == st = [m |-> [k \in Keys |-> 0], r |-> [k \in Keys |-> 0], j |-> "no",
              h |-> [c \in Clients |-> <<>>], p |-> {}, g |-> <<>>,
              f |-> FALSE, u |-> {}]
Next == \E op \in Ops : \E x \in Step(st, op) : st' = x.n

---------------------------------------------------------------------------
\* C13: when its initial copy is complete and no older command is under way,
\* the slave holds what the master holds.
Converged == (st.j = "in" /\ st.g = <<>> /\ Idle(st)) => st.r = st.m
\* ... and whatever is under way, it will.
WillConverge == \A x \in Step(st, [o |-> "settle", c |-> "-", k |-> 0]) :
                  x.n.j = "in" => x.n.r = x.n.m
\* A slave that has its copy follows the master step by step, except for
\* commands that have not ended.
Inv == Converged /\ WillConverge

---------------------------------------------------------------------------
Enc(s) == <<[k \in Keys |-> s.m[k] # 0], s.j, s.h, s.p, s.g, s.f, s.u>>
OpSeq == SetToSeq(Ops)
ASSUME DumpOn => PrintT("##" \o ToJson(OpSeq))
Dump == DumpOn =>
  PrintT("@@" \o ToJson(<<ToString(Enc(st)),
     UNION { { <<i, x.r, ToString(Enc(x.n))>> : x \in Step(st, OpSeq[i]) } : i \in 1..Len(OpSeq) },
     [m |-> st.m, j |-> st.j, g |-> st.g # <<>>]>>))
=============================================================================
