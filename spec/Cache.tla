------------------------------- MODULE Cache -------------------------------
(***************************************************************************)
(* The observable behaviour of the cache part of yrmcds: what every text   *)
(* and binary command answers and does, for several connections, over      *)
(* time, with server-side locks, CAS tokens, expiration and flush_all.     *)
(*                                                                         *)
(* The whole state is one record, st:                                      *)
(*   o  the objects: for a key, <<>> when there is none, otherwise         *)
(*        <<value, flags, expiration, lock>>                               *)
(*      value       a sequence of atoms, "x" (text) or a number            *)
(*      expiration  Never, or how many clock units remain (0: passed)      *)
(*      lock        None or the connection that holds it                   *)
(*   f  when the requested flush takes effect: Never, or units (0: now)    *)
(*   t  per connection and key the CAS token it has last been given:       *)
(*        "no" none, "cur" the one of the present object, "old" another    *)
(*                                                                         *)
(* Step(s, op) is the set of possible outcomes of one command.  It is used *)
(* for exploring (Next), for generating the conformance tests (Dump), and, *)
(* in CacheLin, for judging concurrent histories.                          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS
  Keys,       \* keys
  Conns,      \* client connections
  Vals,       \* values that clients store
  FlagSet,    \* flags that clients store
  ExpSet,     \* expirations that clients ask for (Never, 0, 1, ...)
  Toks,       \* CAS tokens that clients give: subset of {"no","cur","old"}
  Deltas,     \* operands of increment and decrement
  Inits,      \* initial values of binary increment and decrement
  Names,      \* enabled commands, see Ops
  MaxLen,     \* the longest value (in atoms) the model follows
  Limited,    \* TRUE: MaxLen is the server's max_data_size
  MaxNum,     \* bound on numbers the model follows
  FlushSet,   \* delays that clients ask for in flush commands
  GcOnTick,   \* TRUE: the garbage collector runs at each clock unit
  UseTok,     \* TRUE: follow the CAS tokens
  DumpOn      \* TRUE: print the transition relation

Never == 99
None  == "-"
Absent == <<>>
Top == 1000         \* numbers are modulo Top; it stands for 2^64
Txt == 5000         \* atoms from here on are texts

VARIABLE st

---------------------------------------------------------------------------
(* values *)

Digits(n) == IF n < 10 THEN 10 ELSE IF n < 100 THEN 100 ELSE 1000

\* A value is numeric when it consists of numbers only.  (What a value that
\* starts with digits but is no number means is left open.)
Numeric(v) == Len(v) > 0 /\ \A i \in 1..Len(v) : v[i] < Txt
Alpha(v) == IF Len(v) = 0 THEN TRUE ELSE v[1] >= Txt

RECURSIVE NumOf(_)
NumOf(v) == IF Len(v) = 1 THEN v[1]
            ELSE NumOf(SubSeq(v, 1, Len(v) - 1)) * Digits(v[Len(v)]) + v[Len(v)]

\* Numbers close to Top stand for numbers close to 2^64: these cannot be
\* written as digits of a longer value.
Small(v) == \A i \in 1..Len(v) : v[i] >= Txt \/ v[i] < 100

---------------------------------------------------------------------------
(* objects *)

Val(o) == o[1]
Fla(o) == o[2]
Exp(o) == o[3]
Lck(o) == o[4]

Exists(s, k) == s.o[k] # Absent

\* Locked objects neither expire nor are they flushed.
Expired(s, k) == /\ Exists(s, k)
                 /\ Lck(s.o[k]) = None
                 /\ (s.f = 0 \/ Exp(s.o[k]) = 0)
Live(s, k) == Exists(s, k) /\ ~Expired(s, k)
Mine(s, k, c) == Exists(s, k) /\ Lck(s.o[k]) = c
Others(s, k, c) == Exists(s, k) /\ Lck(s.o[k]) \notin {None, c}

LockOf(s, k) == IF Exists(s, k) THEN Lck(s.o[k]) ELSE None

\* Every change of a value makes the tokens handed out before it stale.
Age(s, k) == IF UseTok
             THEN [s EXCEPT !.t = [c \in Conns |-> [s.t[c] EXCEPT ![k] =
                                     IF @ = "cur" THEN "old" ELSE @]]]
             ELSE s
Put(s, k, obj) == [Age(s, k) EXCEPT !.o[k] = obj]
Give(s, c, k) == IF UseTok THEN [s EXCEPT !.t[c][k] = "cur"] ELSE s

SetTo(s, k, v, f, e) == Put(s, k, <<v, f, e, LockOf(s, k)>>)
NewVal(s, k, v) == Put(s, k, [s.o[k] EXCEPT ![1] = v])
SetExp(s, k, e) == [s EXCEPT !.o[k] = [@ EXCEPT ![3] = e]]
SetLock(s, k, c) == [s EXCEPT !.o[k] = [@ EXCEPT ![4] = c]]
Unlocked(s, c) == [s EXCEPT !.o = [k \in Keys |->
                     IF Mine(s, k, c) THEN [s.o[k] EXCEPT ![4] = None] ELSE s.o[k]]]
Drop(s, k) == Put(s, k, Absent)

---------------------------------------------------------------------------
(* outcomes: the next state, the reply, and what a quiet (binary) or       *)
(* noreply (text) form of the command gets instead of the reply            *)

Silent == <<"-">>
Out(n, r, q, k, u) == [n |-> n, r |-> r, q |-> q, u |-> u, k |-> k]
Res(n, r)   == Out(n, <<r>>, <<r>>, "", FALSE)      \* never silent
ResQ(n, r)  == Out(n, <<r>>, Silent, "", FALSE)     \* silent when quiet
Upd(n, k, r)  == Out(n, <<r>>, <<r>>, k, TRUE)
UpdQ(n, k, r) == Out(n, <<r>>, Silent, k, TRUE)

ValR(s, k) == <<"VAL", Val(s.o[k]), Fla(s.o[k])>>
NumR(n) == <<"NUM", n>>

TooLong(v) == Limited /\ Len(v) > MaxLen

---------------------------------------------------------------------------
(* text protocol *)

TStore(s, o) ==
  LET k == o.k  c == o.c
      ok == UpdQ(SetTo(s, k, o.v, o.f, o.e), k, "STORED")
  IN IF TooLong(o.v) THEN Res(s, "ERROR")
     ELSE IF Others(s, k, c) THEN ResQ(s, "LOCKED")
     ELSE CASE o.n = "set" -> ok
            [] o.n = "add" -> IF Live(s, k) THEN ResQ(s, "NOT_STORED") ELSE ok
            [] o.n = "replace" -> IF Live(s, k) THEN ok ELSE ResQ(s, "NOT_STORED")
            [] o.n = "cas" -> IF ~Live(s, k) THEN ResQ(s, "NOT_FOUND")
                              ELSE IF o.t # "cur" THEN ResQ(s, "EXISTS") ELSE ok

Joined(s, o) == IF o.n \in {"append", "Append"} THEN Val(s.o[o.k]) \o o.v
                ELSE o.v \o Val(s.o[o.k])

TConcat(s, o) ==
  LET k == o.k IN
  IF Others(s, k, o.c) THEN ResQ(s, "LOCKED")
  ELSE IF ~Live(s, k) THEN ResQ(s, "NOT_STORED")
  ELSE IF TooLong(Joined(s, o)) THEN Res(s, "ERROR")
  ELSE UpdQ(NewVal(s, k, Joined(s, o)), k, "STORED")

Arith(v, o) ==
  IF o.n \in {"incr", "Increment"} THEN (NumOf(v) + o.d) % Top
  ELSE IF NumOf(v) < o.d THEN 0 ELSE NumOf(v) - o.d

TArith(s, o) ==
  LET k == o.k IN
  IF Others(s, k, o.c) THEN ResQ(s, "LOCKED")
  ELSE IF ~Live(s, k) THEN ResQ(s, "NOT_FOUND")
  ELSE IF ~Numeric(Val(s.o[k])) THEN ResQ(s, "NON_NUMERIC")
  ELSE LET n == Arith(Val(s.o[k]), o)
       IN Out(NewVal(s, k, <<n>>), NumR(n), Silent, k, TRUE)

TTouch(s, o) == IF Live(s, o.k) THEN ResQ(SetExp(s, o.k, o.e), "TOUCHED")
                ELSE ResQ(s, "NOT_FOUND")

TDelete(s, o) ==
  IF Others(s, o.k, o.c) THEN {ResQ(s, "LOCKED")}
  ELSE IF ~Live(s, o.k) THEN {UpdQ(Drop(s, o.k), o.k, "NOT_FOUND")}
  ELSE {UpdQ(Drop(s, o.k), o.k, "DELETED")}

TLock(s, o) ==
  IF ~Live(s, o.k) THEN Res(s, "NOT_FOUND")
  ELSE IF Lck(s.o[o.k]) # None THEN Res(s, "LOCKED")
  ELSE Res(SetLock(s, o.k, o.c), "OK")

TUnlock(s, o) == IF Mine(s, o.k, o.c) THEN Res(SetLock(s, o.k, None), "OK")
                 ELSE Res(s, "NOT_LOCKED")

TGet(s, o) == IF Live(s, o.k) THEN Out(s, ValR(s, o.k), ValR(s, o.k), "", FALSE)
              ELSE Res(s, "END")
TGets(s, o) == IF Live(s, o.k)
               THEN Out(Give(s, o.c, o.k), ValR(s, o.k), ValR(s, o.k), "", FALSE)
               ELSE Res(s, "END")

---------------------------------------------------------------------------
(* binary protocol; a token "no" stands for a CAS field of zero *)

BadTok(o) == o.t # "no" /\ o.t # "cur"

\* A quiet form gives no token, so the caller does not learn it.
TokUpd(n, c, k, r) == {UpdQ(Give(n, c, k), k, r)}

BStore(s, o) ==
  LET k == o.k  c == o.c
      ok == UpdQ(SetTo(s, k, o.v, o.f, o.e), k, "OK")
  IN IF TooLong(o.v) THEN Res(s, "TooLarge")
     ELSE IF Others(s, k, c) THEN Res(s, "Locked")
     ELSE CASE o.n = "Set" ->
                 IF o.t = "no" THEN ok
                 ELSE IF ~Live(s, k) THEN Res(s, "NotFound")
                 ELSE IF BadTok(o) THEN Res(s, "Exists") ELSE ok
            [] o.n = "Add" ->
                 IF Live(s, k) THEN Res(s, "Exists")
                 ELSE IF o.t # "no" THEN Res(s, "NotFound") ELSE ok
            [] o.n = "Replace" ->
                 IF ~Live(s, k) THEN Res(s, "NotFound")
                 ELSE IF BadTok(o) THEN Res(s, "Exists") ELSE ok

BConcat(s, o) ==
  LET k == o.k IN
  IF Others(s, k, o.c) THEN Res(s, "Locked")
  ELSE IF ~Live(s, k) THEN Res(s, "NotFound")
  ELSE IF BadTok(o) THEN Res(s, "Exists")
  ELSE IF TooLong(Joined(s, o)) THEN Res(s, "TooLarge")
  ELSE UpdQ(NewVal(s, k, Joined(s, o)), k, "OK")

\* o.i is the initial value, or Never when the request forbids creation.
BArith(s, o) ==
  LET k == o.k IN
  IF Others(s, k, o.c) THEN Res(s, "Locked")
  ELSE IF ~Live(s, k)
       THEN IF o.i = Never THEN Res(s, "NotFound")
            ELSE Out(Put(s, k, <<<<o.i>>, 0, o.e, None>>), NumR(o.i), Silent, k, TRUE)
  ELSE IF BadTok(o) THEN Res(s, "Exists")
  ELSE IF ~Numeric(Val(s.o[k])) THEN Res(s, "NonNumeric")
  ELSE LET n == Arith(Val(s.o[k]), o)
       IN Out(NewVal(s, k, <<n>>), NumR(n), Silent, k, TRUE)

BTouch(s, o) == IF Live(s, o.k) THEN Res(SetExp(s, o.k, o.e), "OK")
                ELSE Res(s, "NotFound")

BDelete(s, o) ==
  LET k == o.k IN
  IF Others(s, k, o.c) THEN {Res(s, "Locked")}
  ELSE IF ~Live(s, k) THEN {ResQ(Drop(s, k), "NotFound")}
  ELSE IF BadTok(o) THEN {Res(s, "Exists")}
  ELSE {UpdQ(Drop(s, k), k, "OK")}

\* o.i = 1: the request has no expiration time, i.e. it does not touch
BGet(s, o) ==
  IF ~Live(s, o.k) THEN ResQ(s, "NotFound")
  ELSE LET n == IF o.i = 1 THEN s ELSE SetExp(s, o.k, o.e)
       IN Out(Give(n, o.c, o.k), ValR(s, o.k), ValR(s, o.k), "", FALSE)

BLaG(s, o) ==
  IF ~Live(s, o.k) THEN Res(s, "NotFound")
  ELSE IF Lck(s.o[o.k]) # None THEN Res(s, "Locked")
  ELSE LET n == SetLock(IF o.i = 1 THEN s ELSE SetExp(s, o.k, o.e), o.k, o.c)
       IN Out(Give(n, o.c, o.k), ValR(s, o.k), ValR(s, o.k), "", FALSE)

BLock(s, o) ==
  IF ~Live(s, o.k) THEN Res(s, "NotFound")
  ELSE IF Lck(s.o[o.k]) # None THEN Res(s, "Locked")
  ELSE ResQ(SetLock(s, o.k, o.c), "OK")

\* (whether an expired object that was not collected is found is left open)
BUnlock(s, o) ==
  IF Mine(s, o.k, o.c) THEN {ResQ(SetLock(s, o.k, None), "OK")}
  ELSE (IF ~Live(s, o.k) THEN {Res(s, "NotFound")} ELSE {})
       \cup (IF Exists(s, o.k) THEN {Res(s, "NotLocked")} ELSE {})

BRaU(s, o) ==
  LET k == o.k IN
  IF TooLong(o.v) THEN {Res(s, "TooLarge")}
  ELSE IF ~Mine(s, k, o.c)
       THEN (IF ~Live(s, k) THEN {Res(s, "NotFound")} ELSE {})
            \cup (IF Exists(s, k) THEN {Res(s, "NotLocked")} ELSE {})
  ELSE IF BadTok(o) THEN {Res(s, "Exists")}
  ELSE {UpdQ(SetLock(SetTo(s, k, o.v, o.f, o.e), k, None), k, "OK")}

---------------------------------------------------------------------------
(* commands that are not about one key *)

Collect(s) == [s EXCEPT !.o = [k \in Keys |-> IF Expired(s, k) THEN Absent ELSE s.o[k]]]

Dec(n) == IF n = Never \/ n = 0 THEN n ELSE n - 1
Elapse(s) == [s EXCEPT
                !.o = [k \in Keys |-> IF Exists(s, k) THEN [s.o[k] EXCEPT ![3] = Dec(@)]
                                      ELSE Absent],
                !.f = Dec(@)]

\* One clock unit passes.  A flush that is in effect is completed (the
\* garbage collector removes the objects); then the flush is over.
DoTick(s) ==
  LET e == Elapse(s)
  IN IF e.f = 0 THEN [Collect(e) EXCEPT !.f = Never]
     ELSE IF GcOnTick THEN Collect(e) ELSE e

AgeGone(s, n) == \* tokens of removed objects
  IF UseTok THEN [n EXCEPT !.t = [c \in Conns |-> [k \in Keys |->
                    IF s.o[k] # Absent /\ n.o[k] = Absent /\ s.t[c][k] = "cur"
                    THEN "old" ELSE s.t[c][k]]]]
  ELSE n

Tick(s) == Res(AgeGone(s, DoTick(s)), "ok")

FlushAll(s, o) == [s EXCEPT !.f = o.e]

\* Closing a connection releases its locks.  The name of the connection
\* then stands for a new one.
Gone(s, c) == LET n == Unlocked(s, c)
              IN IF UseTok THEN [n EXCEPT !.t[c] = [k \in Keys |-> "no"]] ELSE n

\* The master fails and a slave takes its place: connections and locks are
\* gone, the objects are not.  (A flush that is still pending is forgotten.)
RECURSIVE GoneAll(_, _)
GoneAll(s, cs) == IF cs = {} THEN s
                  ELSE LET c == CHOOSE x \in cs : TRUE IN GoneAll(Gone(s, c), cs \ {c})
Failover(s) == GoneAll(s, Conns)

\* The master restarts empty; its slaves follow.
NewMaster(s) == GoneAll([s EXCEPT !.o = [k \in Keys |-> Absent], !.f = Never], Conns)

---------------------------------------------------------------------------
(* the commands, by protocol and name *)

Op(p, n, c, k, v, f, e, t, d, i) ==
  [p |-> p, n |-> n, c |-> c, k |-> k, v |-> v, f |-> f, e |-> e, t |-> t, d |-> d, i |-> i]

NoV == <<>>
K0 == CHOOSE k \in Keys : TRUE
C0 == CHOOSE c \in Conns : TRUE

Has(n) == n \in Names
CK == Conns \X Keys

TextOps ==
  {Op("t", x[1], x[2], x[3], x[4], x[5], x[6], "no", 0, 0) :
     x \in {n \in {"set", "add", "replace"} : Has("t." \o n)} \X Conns \X Keys \X Vals \X FlagSet \X ExpSet}
  \cup {Op("t", "cas", x[1], x[2], x[3], x[4], x[5], x[6], 0, 0) :
     x \in IF Has("t.cas") THEN Conns \X Keys \X Vals \X FlagSet \X ExpSet \X (Toks \ {"no"}) ELSE {}}
  \cup {Op("t", x[1], x[2], x[3], x[4], 0, Never, "no", 0, 0) :
     x \in {n \in {"append", "prepend"} : Has("t." \o n)} \X Conns \X Keys \X Vals}
  \cup {Op("t", x[1], x[2], x[3], NoV, 0, Never, "no", x[4], 0) :
     x \in {n \in {"incr", "decr"} : Has("t." \o n)} \X Conns \X Keys \X Deltas}
  \cup {Op("t", "touch", x[1], x[2], NoV, 0, x[3], "no", 0, 0) :
     x \in IF Has("t.touch") THEN Conns \X Keys \X ExpSet ELSE {}}
  \cup {Op("t", x[1], x[2], x[3], NoV, 0, Never, "no", 0, 0) :
     x \in {n \in {"get", "gets", "delete", "lock", "unlock"} : Has("t." \o n)} \X Conns \X Keys}
  \cup {Op("t", x[1], x[2], K0, NoV, 0, Never, "no", 0, 0) :
     x \in {n \in {"unlock_all", "quit"} : Has("t." \o n)} \X Conns}
  \cup {Op("t", "flush_all", C0, K0, NoV, 0, e, "no", 0, 0) :
     e \in IF Has("t.flush_all") THEN FlushSet ELSE {}}

BinOps ==
  {Op("b", x[1], x[2], x[3], x[4], x[5], x[6], x[7], 0, 0) :
     x \in {n \in {"Set", "Add", "Replace", "RaU"} : Has("b." \o n)}
           \X Conns \X Keys \X (Vals \ {<<>>}) \X FlagSet \X ExpSet \X Toks}
  \cup {Op("b", x[1], x[2], x[3], x[4], 0, Never, x[5], 0, 0) :
     x \in {n \in {"Append", "Prepend"} : Has("b." \o n)} \X Conns \X Keys \X (Vals \ {<<>>}) \X Toks}
  \cup {Op("b", x[1], x[2], x[3], NoV, 0, x[4], x[5], x[6], x[7]) :
     x \in {n \in {"Increment", "Decrement"} : Has("b." \o n)}
           \X Conns \X Keys \X ExpSet \X Toks \X Deltas \X Inits}
  \cup {Op("b", x[1], x[2], x[3], NoV, 0, x[4], "no", 0, 0) :
     x \in {n \in {"Touch", "GaT", "LaG"} : Has("b." \o n)} \X Conns \X Keys \X ExpSet}
  \cup {Op("b", x[1], x[2], x[3], NoV, 0, Never, "no", 0, 1) :
     x \in {n \in {"Get", "GaT", "LaG"} : Has("b." \o n)} \X Conns \X Keys}
  \cup {Op("b", x[1], x[2], x[3], NoV, 0, Never, x[4], 0, 0) :
     x \in {n \in {"Delete"} : Has("b." \o n)} \X Conns \X Keys \X Toks}
  \cup {Op("b", x[1], x[2], x[3], NoV, 0, Never, "no", 0, 0) :
     x \in {n \in {"Lock", "Unlock"} : Has("b." \o n)} \X Conns \X Keys}
  \cup {Op("b", x[1], x[2], K0, NoV, 0, Never, "no", 0, 0) :
     x \in {n \in {"UnlockAll", "Quit"} : Has("b." \o n)} \X Conns}
  \cup {Op("b", "Flush", C0, K0, NoV, 0, e, "no", 0, 0) :
     e \in IF Has("b.Flush") THEN FlushSet ELSE {}}

EnvOps ==
  {Op("e", n, C0, K0, NoV, 0, Never, "no", 0, 0) : n \in Names \cap {"failover", "newmaster"}}
  \cup {Op("e", "tick", C0, K0, NoV, 0, Never, "no", 0, 0) : n \in {m \in Names : m = "tick"}}
  \cup {Op("e", "close", c, K0, NoV, 0, Never, "no", 0, 0) : c \in IF Has("close") THEN Conns ELSE {}}

Ops == TextOps \cup BinOps \cup EnvOps

---------------------------------------------------------------------------
(* Which commands the model does not follow, because what they mean there  *)
(* is left open:                                                           *)
(*  - storing while a flush is in effect (the object may be flushed too);  *)
(*  - creating by increment with a token;                                  *)
(*  - arithmetic on a value that only starts with digits.                  *)

Writes == {"set", "add", "replace", "append", "prepend", "cas", "incr", "decr",
           "Set", "Add", "Replace", "Append", "Prepend", "Increment", "Decrement",
           "touch", "Touch", "GaT", "RaU", "LaG"}
Ariths == {"incr", "decr", "Increment", "Decrement"}
Concats == {"append", "prepend", "Append", "Prepend"}

Creates(s, o) == o.n \in {"Increment", "Decrement"} /\ o.i # Never /\ ~Live(s, o.k)

Defined(s, o) ==
  /\ (o.n = "failover" => s.f = Never)
  /\ (s.f = 0 => o.n \notin Writes /\ o.n \notin {"flush_all", "Flush"})
  /\ (Creates(s, o) => o.t = "no")
  /\ (o.n \in Ariths /\ Live(s, o.k) => Numeric(Val(s.o[o.k])) \/ Alpha(Val(s.o[o.k])))
  /\ (UseTok /\ o.t \notin {"no"} => s.t[o.c][o.k] = o.t)
  /\ (~UseTok => o.t = "no")
  \* bounds of the model
  /\ (o.n \in Concats /\ Live(s, o.k) =>
        /\ (Limited \/ Len(Joined(s, o)) <= MaxLen)
        /\ Small(Val(s.o[o.k])) /\ Small(o.v))
  /\ (o.n \in Ariths /\ Live(s, o.k) /\ Numeric(Val(s.o[o.k])) =>
        /\ NumOf(Val(s.o[o.k])) < Top
        /\ LET n == Arith(Val(s.o[o.k]), o) IN n <= MaxNum \/ n >= Top - 5)

Step(s, o) ==
  CASE o.p = "t" /\ o.n \in {"set", "add", "replace", "cas"} -> {TStore(s, o)}
    [] o.p = "t" /\ o.n \in {"append", "prepend"} -> {TConcat(s, o)}
    [] o.n \in {"incr", "decr"} -> {TArith(s, o)}
    [] o.n = "touch" -> {TTouch(s, o)}
    [] o.n = "get" -> {TGet(s, o)}
    [] o.n = "gets" -> {TGets(s, o)}
    [] o.n = "delete" -> TDelete(s, o)
    [] o.n = "lock" -> {TLock(s, o)}
    [] o.n = "unlock" -> {TUnlock(s, o)}
    [] o.n = "unlock_all" -> {Res(Unlocked(s, o.c), "OK")}
    [] o.n = "flush_all" -> {ResQ(FlushAll(s, o), "OK")}
    [] o.n \in {"quit", "close"} -> {Res(Gone(s, o.c), "closed")}
    [] o.n = "tick" -> {Tick(s)}
    [] o.n = "failover" -> {Res(Failover(s), "ok")}
    [] o.n = "newmaster" -> {Res(NewMaster(s), "ok")}
    [] o.n \in {"Set", "Add", "Replace"} -> {BStore(s, o)}
    [] o.n \in {"Append", "Prepend"} -> {BConcat(s, o)}
    [] o.n \in {"Increment", "Decrement"} -> {BArith(s, o)}
    [] o.n = "Touch" -> {BTouch(s, o)}
    [] o.n \in {"Get", "GaT"} -> {BGet(s, o)}
    [] o.n = "LaG" -> {BLaG(s, o)}
    [] o.n = "Lock" -> {BLock(s, o)}
    [] o.n = "Unlock" -> BUnlock(s, o)
    [] o.n = "RaU" -> BRaU(s, o)
    [] o.n = "Delete" -> BDelete(s, o)
    [] o.n = "UnlockAll" -> {ResQ(Unlocked(s, o.c), "OK")}
    [] o.n = "Flush" -> {ResQ(FlushAll(s, o), "OK")}
    [] o.n = "Quit" -> {Out(Gone(s, o.c), <<"OK">>, <<"closed">>, "", FALSE)}

---------------------------------------------------------------------------

Start == [o |-> [k \in Keys |-> Absent], f |-> Never,
          t |-> [c \in Conns |-> [k \in Keys |-> "no"]]]

Init == st = Start
Next == \E o \in Ops : (Defined(st, o) = TRUE) /\ \E x \in Step(st, o) : st' = x.n
Spec == Init /\ [][Next]_st

---------------------------------------------------------------------------
(* properties of the model *)

TypeOK ==
  \A k \in Keys : st.o[k] = Absent \/
    (/\ Len(st.o[k]) = 4
     /\ Len(Val(st.o[k])) <= MaxLen
     /\ Exp(st.o[k]) \in {Never} \cup 0..9
     /\ Lck(st.o[k]) \in Conns \cup {None})

\* C06: a connection that does not hold the lock of a locked object cannot
\* change its value, remove it, or take or release the lock.
\* C08: neither can time, the garbage collector or a flush.
LockSafe ==
  \A o \in Ops : Defined(st, o) =>
    \A x \in Step(st, o) : \A k \in Keys :
      (/\ Exists(st, k) /\ Lck(st.o[k]) # None /\ o.n \notin {"failover", "newmaster"}
       /\ (o.c # Lck(st.o[k]) \/ o.n = "tick")) =>
         /\ Exists(x.n, k)
         /\ Val(x.n.o[k]) = Val(st.o[k])
         /\ Fla(x.n.o[k]) = Fla(st.o[k])
         /\ Lck(x.n.o[k]) = Lck(st.o[k])
         /\ Live(x.n, k)

\* C07: what a connection has locked is free when it is gone.
LocksReleased ==
  \A o \in Ops : o.n \in {"quit", "close", "Quit", "unlock_all", "UnlockAll"} =>
    \A x \in Step(st, o) : \A k \in Keys : ~Mine(x.n, k, o.c)

\* C02: a conditional update with a stale token changes nothing; an update
\* leaves nobody with a current token except those who are given it.
CasSafe == UseTok =>
  \A o \in Ops : Defined(st, o) =>
    \A x \in Step(st, o) :
      /\ (o.t = "old" => x.n = st \/ Expired(st, o.k))
      /\ \A k \in Keys :
           ((st.o[k] = Absent) # (x.n.o[k] = Absent)
             \/ (st.o[k] # Absent /\ x.n.o[k] # Absent /\ Val(st.o[k]) # Val(x.n.o[k])))
           => \A c \in Conns : x.n.t[c][k] # "cur"

\* C04: what is dead stays dead, unless it is stored again.
NoRevival ==
  \A o \in Ops : Defined(st, o) =>
    \A x \in Step(st, o) : \A k \in Keys :
      (~Live(st, k) /\ Live(x.n, k)) =>
         o.n \in {"set", "add", "Set", "Add", "Increment", "Decrement"}

\* ... and nothing that is live vanishes, except by delete, time or flush.
NoVanishing ==
  \A o \in Ops : Defined(st, o) =>
    \A x \in Step(st, o) : \A k \in Keys :
      (Live(st, k) /\ ~Live(x.n, k)) =>
         \/ o.n \in {"delete", "Delete", "tick", "newmaster", "flush_all", "Flush"}
         \/ o.n \in {"unlock", "Unlock", "unlock_all", "UnlockAll", "quit", "Quit", "close", "RaU",
                       "failover"}
            /\ (st.f = 0 \/ Exp(x.n.o[k]) = 0)
         \/ o.k = k /\ o.e = 0

Inv == TypeOK /\ LockSafe /\ LocksReleased /\ CasSafe /\ NoRevival /\ NoVanishing

---------------------------------------------------------------------------
(* the transition relation, for the conformance tests *)

Enc(s) == <<[k \in Keys |-> s.o[k]], s.f, [c \in Conns |-> s.t[c]]>>

OpSeq == SetToSeq(Ops)
ASSUME DumpOn => PrintT("##" \o ToJson(OpSeq))

Dump == DumpOn =>
  PrintT("@@" \o ToJson(<<ToString(Enc(st)),
     UNION { { <<i, x.r, x.q, x.k, x.u, ToString(Enc(x.n))>> : x \in Step(st, OpSeq[i]) } :
             i \in {j \in 1..Len(OpSeq) : Defined(st, OpSeq[j])} },
     [o |-> st.o, f |-> st.f]>>))
=============================================================================
