------------------------------- MODULE Stream -------------------------------
(***************************************************************************)
(* One connection.  A client sends a stream of requests, cut into packets  *)
(* anywhere; the server carries out each request once its last byte has    *)
(* arrived, in order, and answers in order.                                *)
(*                                                                         *)
(* A request consists of Pieces pieces (the cuts are anywhere).  A packet  *)
(* brings the rest of a request that has been begun (or a part of the      *)
(* rest), up to MaxWhole whole requests, and the beginning of another.     *)
(*                                                                         *)
(*   v  the object all requests are about: 0 none, or which of two values  *)
(*      (for the counter protocol: resources in use)                       *)
(*   p  the request of which a part has arrived: <<>> or <<kind, pieces>>  *)
(*                                                                         *)
(* The replies to a packet are listed per request that it completes, as    *)
(* <<reply, v before, v after>>; the reply "" means that nothing is sent.  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Kinds, MaxWhole, DumpOn

VARIABLE st

Pieces == 3
Out(n, r) == [n |-> n, r |-> r]
Other(v) == IF v = 1 THEN 2 ELSE 1
R(v, tag) == <<v, tag>>
Hit(v, hit, miss) == R(v, IF v # 0 THEN hit ELSE miss)

\* The effect of a whole request: <<v after, reply>>.
Do(k, v) ==
  CASE k \in {"set", "Set"}    -> R(Other(v), "stored")
    [] k \in {"setn", "SetQ"}  -> R(Other(v), "")
    [] k \in {"add", "Add"}    -> IF v = 0 THEN R(1, "stored") ELSE R(v, "not")
    [] k = "addn"              -> IF v = 0 THEN R(1, "") ELSE R(v, "")
    [] k = "AddQ"              -> IF v = 0 THEN R(1, "") ELSE R(v, "not")
    [] k \in {"app", "App"}    -> IF v # 0 THEN R(Other(v), "appended") ELSE R(v, "not")
    [] k = "appn"              -> IF v # 0 THEN R(Other(v), "") ELSE R(v, "")
    [] k = "AppQ"              -> IF v # 0 THEN R(Other(v), "") ELSE R(v, "not")
    [] k \in {"get", "Get", "GetK"} -> Hit(v, "value", "miss")
    [] k \in {"GetQ", "GetKQ"} -> Hit(v, "value", "")
    [] k \in {"del", "Del"}    -> R(0, IF v # 0 THEN "deleted" ELSE "miss")
    [] k \in {"deln", "DelQ"}  -> R(0, "")
    [] k \in {"bad", "Bad"}    -> R(v, "error")
    [] k \in {"ver", "Noop", "cNoop"} -> R(v, "ok")
    \* the counter protocol (2 resources)
    [] k = "cAcq" -> IF v < 2 THEN R(v + 1, "ok") ELSE R(v, "no")
    [] k = "cRel" -> IF v > 0 THEN R(v - 1, "ok") ELSE R(v, "no")
    [] k = "cGet" -> R(v, "count")
    [] k = "cBad" -> R(v, "error")

RECURSIVE Run(_, _)
Run(q, v) ==
  IF q = <<>> THEN [v |-> v, r |-> <<>>]
  ELSE LET d == Do(Head(q), v)
           x == Run(Tail(q), d[1])
       IN [v |-> x.v, r |-> <<<<d[2], v, d[1]>>>> \o x.r]

Whole == UNION { [1..n -> Kinds] : n \in 0..MaxWhole }
Begun == { <<k, n>> : k \in Kinds, n \in 1..(Pieces - 1) }

\* f: what becomes of the request that has been begun
Ops == [f : {"none", "rest"}, w : Whole, t : Begun \cup {<<>>}]
       \cup [f : {"more"}, w : {<<>>}, t : {<<>>}]

Step(s, op) ==
  CASE op.f = "none" ->
         IF s.p # <<>> \/ (op.w = <<>> /\ op.t = <<>>) THEN {}
         ELSE LET x == Run(op.w, s.v) IN { Out([v |-> x.v, p |-> op.t], x.r) }
    [] op.f = "rest" ->
         IF s.p = <<>> THEN {}
         ELSE LET x == Run(<<s.p[1]>> \o op.w, s.v) IN { Out([v |-> x.v, p |-> op.t], x.r) }
    [] op.f = "more" ->
         IF s.p = <<>> THEN {}
         ELSE IF s.p[2] + 1 >= Pieces THEN {}
         ELSE { Out([s EXCEPT !.p[2] = @ + 1], <<>>) }

Init == st = [v |-> 0, p |-> <<>>]
Next == \E op \in Ops : \E x \in Step(st, op) : st' = x.n

---------------------------------------------------------------------------
\* C16: the replies and the effect do not depend on how the stream is cut:
\* a packet of two requests does what two packets of one request do.
Split ==
  \A op \in Ops :
    (op.f = "none" /\ Len(op.w) >= 2) =>
      \A x \in Step(st, op) :
        LET a == CHOOSE y \in Step(st, [op EXCEPT !.w = <<Head(op.w)>>, !.t = <<>>]) : TRUE
            b == CHOOSE y \in Step(a.n, [op EXCEPT !.w = Tail(op.w)]) : TRUE
        IN x.n = b.n /\ x.r = a.r \o b.r
\* ... and a request that is cut does what it does in one piece.
Whole1 ==
  st.p = <<>> =>
    \A k \in Kinds, n \in 1..(Pieces - 1) :
      LET a == CHOOSE y \in Step(st, [f |-> "none", w |-> <<>>, t |-> <<k, n>>]) : TRUE
          b == CHOOSE y \in Step(a.n, [f |-> "rest", w |-> <<>>, t |-> <<>>]) : TRUE
          c == CHOOSE y \in Step(st, [f |-> "none", w |-> <<k>>, t |-> <<>>]) : TRUE
      IN a.r = <<>> /\ a.n.v = st.v /\ b.n = c.n /\ b.r = c.r
Inv == st.v \in 0..2 /\ Split /\ Whole1

---------------------------------------------------------------------------
OpSeq == SetToSeq(Ops)
ASSUME DumpOn => PrintT("##" \o ToJson(OpSeq))
Dump == DumpOn =>
  PrintT("@@" \o ToJson(<<ToString(st),
     UNION { { <<i, x.r, ToString(x.n)>> : x \in Step(st, OpSeq[i]) } : i \in 1..Len(OpSeq) },
     [v |-> st.v]>>))
=============================================================================
