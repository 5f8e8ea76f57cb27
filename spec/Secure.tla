------------------------------- MODULE Secure -------------------------------
(***************************************************************************)
(* secure_erase: what becomes of the memory that held a value.             *)
(*                                                                         *)
(*   o  per key: <<>> (absent) or <<value, life>>                          *)
(*        value  a sequence of pieces (as they were stored, appended or    *)
(*               prepended), or <<1>> (a number), or <<0>> (a small number)   *)
(*        life   Never, 1, or 0 (expired)                                  *)
(*   g  values (pieces) that can be read in memory that was given back     *)
(*                                                                         *)
(* A value is in one block of memory (if it is not larger than Heap; else  *)
(* it is in a file).  Changing it may need another block: the old one is   *)
(* given back.  Memory is overwritten before that when Erase is set.       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Keys,
          Pieces,    \* sizes
          MaxLen,    \* of a sequence of pieces
          Heap,      \* bytes
          Lives,
          Does,
          Erase,
          DumpOn
VARIABLE st

Never == 9
Absent == <<>>
Val(x) == x[1]
Life(x) == x[2]
Numbers == { <<1>>, <<0>> }
Size(v) == IF v \in Numbers THEN 16 ELSE FoldLeft(LAMBDA a, x : a + x, 0, v)
InMemory(v) == Size(v) <= Heap

Has(s, k) == s.o[k] # Absent
Live(s, k) == Has(s, k) /\ Life(s.o[k]) # 0

\* The value old is no longer in the memory it was in.
Left(s, old) == IF Erase \/ ~InMemory(old) THEN s ELSE [s EXCEPT !.g = @ \cup { old }]
Put(s, k, v, e) ==
  LET t == IF Has(s, k) THEN Left(s, Val(s.o[k])) ELSE s
  IN [t EXCEPT !.o[k] = <<v, e>>]
Drop(s, k) == [Left(s, Val(s.o[k])) EXCEPT !.o[k] = Absent]
RECURSIVE DropAll(_, _)
DropAll(s, K) == IF K = {} THEN s ELSE LET k == CHOOSE x \in K : TRUE IN DropAll(Drop(s, k), K \ {k})
Out(n, r) == [n |-> n, r |-> r]

Ops ==
  LET R(o, K, X) == { [o |-> o, k |-> k, x |-> x] : k \in K, x \in X }
      N == {<<>>}
      Z == {""}
  IN UNION { R("set", Keys, { <<z, e>> : z \in Pieces, e \in Lives }),
             R("add", Keys, { <<z, Never>> : z \in Pieces }), R("replace", Keys, { <<z, Never>> : z \in Pieces }),
             R("cas", Keys, { <<z, Never>> : z \in Pieces }), R("rau", Keys, { <<z, Never>> : z \in Pieces }),
             R("append", Keys, { <<z, Never>> : z \in Pieces }), R("prepend", Keys, { <<z, Never>> : z \in Pieces }),
             R("setnum", Keys, N), R("init", Keys, N), R("incr", Keys, N), R("decr", Keys, N), R("get", Keys, N),
             R("delete", Keys, N), R("wait", Z, N), R("gc", Z, N), R("flush", Z, N), R("evict", Z, N) }

Joined(v, w) == v \o w
Step(s, op) ==
  LET k == op.k
      z == <<op.x[1]>>
  IN
  IF op.o \notin Does THEN {}
  ELSE CASE
     op.o = "set" -> { Out(Put(s, k, z, op.x[2]), "STORED") }
  [] op.o = "add" -> { IF Live(s, k) THEN Out(s, "NOT_STORED") ELSE Out(Put(s, k, z, Never), "STORED") }
  [] op.o = "replace" -> { IF Live(s, k) THEN Out(Put(s, k, z, Never), "STORED") ELSE Out(s, "NOT_STORED") }
  [] op.o \in {"cas", "rau"} -> IF Live(s, k) THEN { Out(Put(s, k, z, Never), "STORED") } ELSE {}
  [] op.o \in {"append", "prepend"} ->
       IF ~Live(s, k) THEN { Out(s, "NOT_STORED") }
       ELSE LET v == Val(s.o[k]) IN
            IF v \in Numbers \/ Len(v) = MaxLen THEN {}
            ELSE { Out(Put(s, k, IF op.o = "append" THEN v \o z ELSE z \o v, Life(s.o[k])), "STORED") }
  [] op.o = "setnum" -> { Out(Put(s, k, <<1>>, Never), "STORED") }
  [] op.o = "init" ->
       \* Increment creates the object
       IF Live(s, k) THEN {} ELSE { Out(Put(s, k, <<1>>, Never), "STORED") }
  [] op.o = "incr" -> IF Live(s, k) /\ Val(s.o[k]) = <<1>> THEN { Out(Put(s, k, <<1>>, Life(s.o[k])), "NUMBER") } ELSE {}
  [] op.o = "decr" ->
       \* by so much that little remains
       IF Live(s, k) /\ Val(s.o[k]) = <<1>> THEN { Out(Put(s, k, <<0>>, Life(s.o[k])), "NUMBER") } ELSE {}
  [] op.o = "get" -> { Out(s, IF Live(s, k) THEN "VALUE" ELSE "END") }
  [] op.o = "delete" -> { IF Has(s, k) THEN Out(Drop(s, k), IF Live(s, k) THEN "DELETED" ELSE "NOT_FOUND")
                          ELSE Out(s, "NOT_FOUND") }
  [] op.o = "wait" ->
       \* time passes, but nothing is collected
       { Out([s EXCEPT !.o = [j \in Keys |-> IF Has(s, j) /\ Life(s.o[j]) # Never
                                             THEN <<Val(s.o[j]), 0>> ELSE s.o[j]]], "") }
  [] op.o = "gc" ->
       \* time passes: what has a life expires, and is collected
       { Out(DropAll(s, { j \in Keys : Has(s, j) /\ Life(s.o[j]) # Never }), "") }
  [] op.o \in {"flush", "evict"} -> { Out(DropAll(s, { j \in Keys : Has(s, j) }), "") }
  [] OTHER -> {}

Init == st = [o |-> [k \in Keys |-> Absent], g |-> {}]
Next == \E op \in Ops : \E x \in Step(st, op) : st' = x.n

\* C23: no value can be read in memory that was given back.
Inv == st.g = {}

OpSeq == SetToSeq(Ops)
ASSUME DumpOn => PrintT("##" \o ToJson(OpSeq))
Dump == DumpOn =>
  PrintT("@@" \o ToJson(<<ToString(st),
     UNION { { <<i, x.r, ToString(x.n)>> : x \in Step(st, OpSeq[i]) } : i \in 1..Len(OpSeq) }, st>>))
=============================================================================
