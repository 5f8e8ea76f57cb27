-------------------------------- MODULE Wire --------------------------------
(***************************************************************************)
(* Which byte strings are requests.  The grammars of the two cache         *)
(* protocols and the counter protocol, and what a server does with         *)
(* everything that is close to them but outside: it answers with an error, *)
(* changes nothing and goes on with the next request.                      *)
(*                                                                         *)
(*   v  the object: "none", "str" (not a number) or "num"                  *)
(*      (counter protocol: "c0", "c1", "c2": the resources in use)         *)
(*   l  its lock: 0 free, 1 the connection under test, 2 another one       *)
(*                                                                         *)
(* A text request is a command and a sequence of words; the driver makes   *)
(* up words of each class:                                                 *)
(*   "k" the key of the object      "K" a word of more than 250 bytes      *)
(*   "1" 0 .. 2^31   "N" 2^32 .. 2^63-1   "M" 2^63 .. 2^64-1   "B" more    *)
(*   "x" no digits   "g" digits followed by other characters   "neg" -1..  *)
(*   "d" the length of the data block that follows     "nr" noreply        *)
(*   "s" a word that stats knows                                           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Part, DumpOn       \* Part: "text", "binary" or "counter"

VARIABLE st

Out(n, r) == [n |-> n, r |-> r]

---------------------------------------------------------------------------
\* Text requests
U32 == {"1"}
Time == {"1", "N"}
U64 == {"1", "N", "M"}
Storage == {"set", "add", "replace", "append", "prepend", "cas"}
Noreply(q) == q = <<>> \/ q = <<"nr">>

\* a storage line: key flags exptime bytes [cas] [noreply]
StorageOK(cmd, q) ==
  LET n == IF cmd = "cas" THEN 5 ELSE 4 IN
  /\ Len(q) >= n
  /\ q[1] # "K" \/ cmd \notin {"set", "add", "replace"}
  /\ q[2] \in U32 /\ q[3] \in Time /\ q[4] = "d"
  /\ cmd = "cas" => q[5] \in U64
  /\ Noreply(SubSeq(q, n + 1, Len(q)))

\* Is the line a request?
LineOK(cmd, q) ==
  CASE cmd \in Storage -> StorageOK(cmd, q)
    [] cmd = "delete" -> Len(q) >= 1 /\ Noreply(Tail(q))
    [] cmd = "touch" -> Len(q) >= 2 /\ q[2] \in Time /\ Noreply(SubSeq(q, 3, Len(q)))
    [] cmd \in {"incr", "decr"} -> Len(q) >= 2 /\ q[2] \in U64 /\ Noreply(SubSeq(q, 3, Len(q)))
    [] cmd \in {"get", "gets"} -> Len(q) >= 1
    [] cmd \in {"lock", "unlock"} -> Len(q) = 1
    [] cmd = "flush_all" -> \/ Noreply(q)
                            \/ q # <<>> /\ q[1] \in Time /\ Noreply(Tail(q))
    [] cmd = "verbosity" -> Len(q) >= 1 /\ Noreply(Tail(q))
    [] cmd = "stats" -> q = <<>> \/ q[1] = "s"
\* What this specification leaves open: negative numbers where 64 bits are
\* allowed; a size that asks for more data than follow; keys of any length
\* in requests that find no object.
Open(cmd, q) ==
  \/ cmd \in {"incr", "decr"} /\ Len(q) >= 2 /\ q[2] = "neg"
  \/ cmd = "cas" /\ Len(q) >= 5 /\ q[5] = "neg"
  \/ cmd \in Storage /\ Len(q) >= 4 /\ q[4] = "1"

Classes == {"k", "K", "1", "N", "M", "B", "x", "g", "neg", "nr"}
Drop(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
Ins(q, i, c) == SubSeq(q, 1, i) \o <<c>> \o SubSeq(q, i + 1, Len(q))
Near(q) == { Drop(q, i) : i \in 1..Len(q) }
           \cup { [q EXCEPT ![i] = c] : i \in 1..Len(q), c \in Classes }
           \cup { Ins(q, i, c) : i \in 0..Len(q), c \in Classes }
           \cup { SubSeq(q, 1, i) : i \in 0..Len(q) }

Forms(cmd) ==
  CASE cmd = "cas" -> { <<"k", "1", "1", "d", "1">>, <<"k", "1", "1", "d", "1", "nr">> }
    [] cmd \in Storage -> { <<"k", "1", "1", "d">>, <<"k", "1", "1", "d", "nr">> }
    [] cmd = "delete" -> { <<"k">>, <<"k", "nr">> }
    [] cmd \in {"touch", "incr", "decr"} -> { <<"k", "1">>, <<"k", "1", "nr">> }
    [] cmd \in {"get", "gets", "lock", "unlock"} -> { <<"k">> }
    [] cmd = "flush_all" -> { <<>>, <<"1">>, <<"1", "nr">> }
    [] cmd = "verbosity" -> { <<"x">>, <<"x", "nr">> }
    [] cmd = "stats" -> { <<>>, <<"s">> }
Commands == Storage \cup {"delete", "touch", "incr", "decr", "get", "gets", "lock", "unlock",
                          "flush_all", "verbosity", "stats"}
BadLines == { x \in UNION { { <<c, q>> : q \in UNION { Near(f) : f \in Forms(c) } } : c \in Commands } :
                ~LineOK(x[1], x[2]) /\ ~Open(x[1], x[2]) }

\* Lines that are no command at all, and correct lines whose data block is
\* not followed by CR LF.
Junk == {"empty", "lf", "nocr", "unknown", "prefix", "longer", "upper", "long", "bytes"}
\* (A line that is correct but for the length of its key is followed by its
\* data block all the same.)
TooLong(cmd, q) == cmd \in Storage /\ Len(q) >= 4 /\ q[1] = "K" /\ StorageOK(cmd, [q EXCEPT ![1] = "k"])
BadEnd == UNION { { <<c, f>> : f \in Forms(c) } : c \in Storage }

---------------------------------------------------------------------------
\* Binary requests: lengths of extras, key and value
Quiet == {"GetQ", "GetKQ", "SetQ", "AddQ", "ReplaceQ", "DeleteQ", "IncrementQ", "DecrementQ",
          "FlushQ", "AppendQ", "PrependQ", "GaTQ", "GaTKQ", "LockQ", "UnlockQ", "LaGQ", "LaGKQ", "RaUQ"}
Gets == {"Get", "GetQ", "GetK", "GetKQ", "GaT", "GaTQ", "GaTK", "GaTKQ", "LaG", "LaGQ", "LaGK", "LaGKQ"}
Stores == {"Set", "SetQ", "Add", "AddQ", "Replace", "ReplaceQ", "RaU", "RaUQ"}
Adds == {"Append", "AppendQ", "Prepend", "PrependQ"}
Arith == {"Increment", "IncrementQ", "Decrement", "DecrementQ"}
KeyOnly == {"Delete", "DeleteQ", "Lock", "LockQ", "Unlock", "UnlockQ"}
BinCommands == Gets \cup Stores \cup Adds \cup Arith \cup KeyOnly
               \cup {"Touch", "Flush", "FlushQ", "Stat", "Keys"}
\* e, b: extras and value in bytes; k: 0 no key, 1 up to 250 bytes, 2 more
BinOK(c, e, k, b) ==
  /\ k # 2
  /\ CASE c \in Gets -> e \in {0, 4} /\ k = 1 /\ b = 0
       [] c \in Stores -> e = 8 /\ k = 1 /\ b > 0
       [] c \in Adds -> e = 0 /\ k = 1 /\ b > 0
       [] c \in Arith -> e = 20 /\ k = 1 /\ b = 0
       [] c \in KeyOnly -> e = 0 /\ k = 1 /\ b = 0
       [] c = "Touch" -> e = 4 /\ k = 1 /\ b = 0
       [] c \in {"Flush", "FlushQ"} -> e \in {0, 4} /\ k = 0 /\ b = 0
       [] c \in {"Stat", "Keys"} -> e = 0 /\ b = 0
\* Stores and appends of nothing are left open.
BinOpen(c, e, k, b) == b = 0 /\ k = 1 /\ ((c \in Stores /\ e = 8) \/ (c \in Adds /\ e = 0))
Extras == {0, 1, 4, 8, 12, 20, 24, 255}
Bodies == {0, 1, 5}
BadBin == { x \in BinCommands \X Extras \X (0..2) \X Bodies :
              ~BinOK(x[1], x[2], x[3], x[4]) /\ ~BinOpen(x[1], x[2], x[3], x[4]) }
\* The lengths in the header contradict each other: extras and key are
\* longer than the whole body.
ShortBin == BinCommands \X {"key", "extras", "both"}

---------------------------------------------------------------------------
\* Counter requests
CtrBad == {"magic", "unknown", "nobody", "noname", "name-over", "short", "zero", "over-max"}
CtrOf(d) == CASE d \in {"magic", "unknown"} -> {"Get", "Acquire", "Release", "Noop"}
              [] d \in {"zero", "over-max"} -> {"Acquire"}
              [] OTHER -> {"Get", "Acquire", "Release"}

---------------------------------------------------------------------------
\* Requests that arrive in part only before the client closes, or that
\* exceed what the server is ready to buffer, cost the connection.
Fatal == {"part", "huge"}

Good == CASE Part = "counter" -> {"acq", "rel"}
          [] OTHER -> {"str", "num", "del", "lock", "unlock", "lock2", "unlock2"}

Ops == { [t |-> "good", c |-> g, q |-> <<>>] : g \in Good }
  \cup { [t |-> f, c |-> "", q |-> <<>>] : f \in Fatal }
  \cup (CASE Part = "text" ->
              { [t |-> IF TooLong(x[1], x[2]) THEN "toolong" ELSE "line", c |-> x[1], q |-> x[2]] : x \in BadLines }
              \cup { [t |-> "end", c |-> x[1], q |-> x[2]] : x \in BadEnd }
              \cup { [t |-> "junk", c |-> j, q |-> <<>>] : j \in Junk }
         [] Part = "binary" ->
              { [t |-> "bin", c |-> x[1], q |-> <<x[2], x[3], x[4]>>] : x \in BadBin }
              \cup { [t |-> "short", c |-> x[1], q |-> <<x[2]>>] : x \in ShortBin }
              \cup { [t |-> "opcode", c |-> o, q |-> <<>>] : o \in {"low", "high", "gap"} }
         [] Part = "counter" ->
              UNION { { [t |-> "ctr", c |-> d, q |-> <<c>>] : c \in CtrOf(d) } : d \in CtrBad })

Vals == IF Part = "counter" THEN {"c0", "c1", "c2"} ELSE {"none", "str", "num"}
Closed(s) == IF Part = "counter" THEN [s EXCEPT !.v = "c0"]
             ELSE IF s.l = 1 THEN [s EXCEPT !.l = 0] ELSE s

\* A correct request (its whole meaning is in Cache.tla and Counter.tla;
\* here it moves the object into every state).
DoGood(s, g) ==
  CASE g \in {"str", "num"} -> IF s.l = 2 THEN {} ELSE { [s EXCEPT !.v = g] }
    [] g = "del" -> IF s.l = 2 \/ s.v = "none" THEN {} ELSE { [v |-> "none", l |-> 0] }
    [] g = "lock" -> IF s.l = 0 /\ s.v # "none" THEN { [s EXCEPT !.l = 1] } ELSE {}
    [] g = "unlock" -> IF s.l = 1 THEN { [s EXCEPT !.l = 0] } ELSE {}
    [] g = "lock2" -> IF s.l = 0 /\ s.v # "none" THEN { [s EXCEPT !.l = 2] } ELSE {}
    [] g = "unlock2" -> IF s.l = 2 THEN { [s EXCEPT !.l = 0] } ELSE {}
    [] g = "acq" -> CASE s.v = "c0" -> { [s EXCEPT !.v = "c1"] }
                      [] s.v = "c1" -> { [s EXCEPT !.v = "c2"] }
                      [] OTHER -> {}
    [] g = "rel" -> CASE s.v = "c2" -> { [s EXCEPT !.v = "c1"] }
                      [] s.v = "c1" -> { [s EXCEPT !.v = "c0"] }
                      [] OTHER -> {}

Step(s, op) ==
  CASE op.t = "good" -> { Out(n, "ok") : n \in DoGood(s, op.c) }
    [] op.t \in Fatal -> { Out(Closed(s), "closed") }
    [] OTHER -> { Out(s, "error") }

Init == st = [v |-> IF Part = "counter" THEN "c0" ELSE "none", l |-> 0]
Next == \E op \in Ops : \E x \in Step(st, op) : st' = x.n

---------------------------------------------------------------------------
\* C17: whatever is outside the grammars changes nothing; and the grammars
\* contain the documented forms, so that "outside" is not everything.
Contained == \A op \in Ops : op.t \notin {"good"} \cup Fatal =>
               \A x \in Step(st, op) : x.n = st /\ x.r = "error"
Documented == \A c \in Commands : \A f \in Forms(c) : LineOK(c, f)
Inv == st.v \in Vals /\ st.l \in 0..2 /\ Contained /\ Documented

---------------------------------------------------------------------------
OpSeq == SetToSeq(Ops)
ASSUME DumpOn => PrintT("##" \o ToJson(OpSeq))
Dump == DumpOn =>
  PrintT("@@" \o ToJson(<<ToString(st),
     UNION { { <<i, x.r, ToString(x.n)>> : x \in Step(st, OpSeq[i]) } : i \in 1..Len(OpSeq) },
     [v |-> st.v, l |-> st.l]>>))
=============================================================================
