------------------------------- MODULE Config -------------------------------
(***************************************************************************)
(* What a configuration file means.                                        *)
(*                                                                         *)
(* A file is a sequence of lines; a line gives an option a written value.  *)
(* A written value is                                                      *)
(*   [w |-> the text, ok |-> whether it is valid, e |-> its effect]        *)
(* and an effect is what can be seen of it from outside, as text (see      *)
(* configdrv.py: "2k" is 2048, "many" is more than is counted).            *)
(* A text that starts with @ stands for something of the run (@dir for a   *)
(* directory, @port for a free port).                                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Opts,      \* the options of this model
          Lines,     \* at most so many lines
          DumpOn
VARIABLES file, run

-----------------------------------------------------------------------------
Good(w, e) == [w |-> w, ok |-> TRUE, e |-> e]
Bad(w) == [w |-> w, ok |-> FALSE, e |-> ""]

\* A number with the units that are powers of 1024, in its shortest form.
RECURSIVE Short(_, _)
Short(n, u) == IF u < 3 /\ n % 1024 = 0 THEN Short(n \div 1024, u + 1)
               ELSE ToString(n) \o <<"", "k", "m", "g">>[u + 1]

\* What is not a number at all, or not only a number.
NotInt == { Bad(w) : w \in {"", "x", "ten", "12x", "x12", "0x10", "1.5", "12 13", "1e3", "-", "12,", "true",
                            "99999999999999999999", "-99999999999999999999", "12 #", "12=", "\"12"} }
NoUnit == { Bad(w) : w \in {"1k", "1M", "20K", "1G"} }

\* Integers of a range lo..hi (no upper end if hi = 0).
Ints(ns, lo, hi) ==
  UNION { { IF n >= lo /\ (hi = 0 \/ n <= hi) THEN Good(ToString(n), ToString(n)) ELSE Bad(ToString(n)) } : n \in ns }
  \cup { Bad("-1"), Bad("-12") } \cup NotInt \cup NoUnit
Big == "2147483647"

\* Sizes with or without a unit.
Size(n, u) ==
  { Good(ToString(n) \o c, Short(n, u)) :
      c \in IF u = 0 THEN {""} ELSE IF u = 1 THEN {"k", "K"} ELSE IF u = 2 THEN {"m", "M"} ELSE {"g", "G"} }
Sizes == NotInt \cup { Bad(w) : w \in {"0", "-1", "0k", "-1M", "k", "M", "1kk", "1MB", "4GB", "1Mi", "k1", "1k1",
                                       "1T", "1b", "1.5M", "10%", "99999999999999999999G"} }

Bools == { Good("true", "true"), Good("false", "false") }
         \cup { Bad(w) : w \in {"", "yes", "no", "1", "0", "True", "FALSE", "on", "truefalse", "true;", "t"} }

Addresses == { Bad(w) : w \in {"", "x", "300.1.1.1", "localhost", "127.0.0.1:11211", "127.0.0.1/8", "1.2.3.4.5",
                               "127.0.0.1,127.0.0.2", "::g", "12345::"} }

Ports == { Good("@port", "@port"), Bad("0"), Bad("-1"), Bad("65536"), Bad("70000"), Bad("76747"), Bad("131083") }
         \cup NotInt \cup NoUnit

Written(o) ==
  CASE o \in {"port", "repl_port", "counter.port"} -> Ports
    [] o = "virtual_ip" -> { Good(w, w) : w \in {"127.0.0.1", "127.0.0.5", "::1"} } \cup Addresses
    [] o = "bind_ip" ->
         { Good("127.0.0.2", "2"), Good("127.0.0.2 127.0.0.3", "2,3"), Good("127.0.0.3  127.0.0.2", "2,3"),
           Good("127.0.0.4 127.0.0.2 127.0.0.3", "2,3,4") }
         \cup { Bad(w) : w \in {"x", "127.0.0.2 x", "x 127.0.0.2", "127.0.0.2,127.0.0.3", "127.0.0.2:80",
                                "127.0.0.2 300.1.1.1"} }
    [] o \in {"max_connections", "counter.max_connections"} ->
         Ints({1, 2, 5}, 0, 0) \cup { Good("0", "many"), Good("1000", "many"), Good(Big, "many") }
    [] o = "temp_dir" -> { Good("@dir", "@dir"), Bad("@nodir"), Bad("@file"), Bad(""), Bad("@closed") }
    [] o = "user" -> { Good("nobody", "nobody"), Good("daemon", "daemon"), Bad("nosuchuser"), Bad("nobody x") }
    [] o = "group" -> { Good("nogroup", "nogroup"), Good("daemon", "daemon"), Bad("nosuchgroup") }
    [] o = "log.threshold" -> { Good(w, w) : w \in {"error", "warning", "info", "debug"} }
         \cup { Bad(w) : w \in {"", "none", "Info", "ERROR", "warn", "errors", "3", "info,error"} }
    [] o = "log.file" -> { Good("@log", "@log"), Bad(""), Bad("log"), Bad("./log"), Bad("@nodir/log") }
    [] o = "buckets" -> Ints({0, 1, 2, 999, 9999, 10000}, 1, 0)
    [] o = "counter.buckets" -> Ints({0}, 1, 0)
         \cup { Good("1", "few"), Good("1000", "few"), Good("3000000", "lots") }
    [] o = "max_data_size" ->
         Sizes \cup Size(1, 0) \cup Size(1000, 0) \cup Size(2, 1) \cup Size(512, 1) \cup Size(2, 2)
         \cup Size(2048, 0) \cup Size(1, 3) \cup { Good("3000000000", "3000000000") }
    [] o = "heap_data_limit" ->
         Sizes \cup Size(4096, 0) \cup Size(5000, 0) \cup Size(4, 1) \cup Size(100, 1) \cup Size(1, 2)
         \cup { Bad("4095"), Bad("1"), Bad("3k"), Bad("1K") }
    [] o = "memory_limit" ->
         Sizes \cup Size(4, 3) \cup Size(1, 0) \cup Size(1000, 2) \cup Size(1024, 1) \cup Size(100000, 1)
         \cup { Good("5000000000", "5000000000"), Good("2147483648", "2g"), Good("4294967295", "4294967295"),
                Good("4096M", "4g") }
    [] o = "repl_buffer_size" -> Ints({0, 1, 3, 50}, 1, 0)
    [] o = "initial_repl_sleep_delay_usec" ->
         Ints({0, 20, 100, 20000}, 0, 0) \cup { Good("10000000000", "10000000000") }
    [] o \in {"secure_erase", "lock_memory", "counter.enable"} -> Bools
    [] o = "workers" -> Ints({0, 1, 2, 3, 63, 64, 65, 100, 65537}, 1, 64)
    [] o = "gc_interval" -> Ints({0, 1, 2, 7, 3600}, 1, 0)
    [] o = "slave_timeout" -> Ints({0, 1, 2, 7, 20}, 1, 0) \cup { Good(Big, "many") }
    [] o = "counter.stat_interval" -> Ints({0, 1, 9, 10, 11, 60, 3600}, 10, 0)

Default ==
  [o \in Opts |->
    CASE o = "port" -> "11211" [] o = "repl_port" -> "11213" [] o = "counter.port" -> "11215"
      [] o = "virtual_ip" -> "127.0.0.1" [] o = "bind_ip" -> "any"
      [] o \in {"max_connections", "counter.max_connections"} -> "many"
      [] o = "temp_dir" -> "/var/tmp" [] o \in {"user", "group"} -> "root"
      [] o = "log.threshold" -> "info" [] o = "log.file" -> "stderr"
      [] o = "buckets" -> "1000000" [] o = "counter.buckets" -> "lots"
      [] o = "max_data_size" -> "1m" [] o = "heap_data_limit" -> "256k" [] o = "memory_limit" -> "1g"
      [] o = "repl_buffer_size" -> "30" [] o = "initial_repl_sleep_delay_usec" -> "0"
      [] o \in {"secure_erase", "lock_memory", "counter.enable"} -> "false"
      [] o = "workers" -> "8" [] o = "gc_interval" -> "10" [] o = "slave_timeout" -> "10"
      [] o = "counter.stat_interval" -> "86400"]

-----------------------------------------------------------------------------
\* The written value that counts: the last one.
Counts(f, o) == LET is == { i \in 1..Len(f) : f[i].o = o }
                IN  IF is = {} THEN Good("", Default[o]) ELSE f[CHOOSE i \in is : \A j \in is : i >= j].v
\* A line that is none.
IsLine(l) == l.o # "junk"
Valid(f) == /\ \A i \in 1..Len(f) : IsLine(f[i])
            /\ \A o \in Opts : Counts(f, o).ok
Exited == [o \in {} |-> ""]
Meaning(f) == IF Valid(f) THEN [o \in Opts |-> Counts(f, o).e] ELSE Exited

Line == UNION { { [o |-> o, v |-> v] : v \in Written(o) } : o \in Opts }
        \cup { [o |-> "junk", v |-> Bad(w)] : w \in {"junk", "port", "[section]", "port 11211", "; x"} }

Init == file = <<>> /\ run = <<>>
Write == /\ run = <<>> /\ Len(file) < Lines
         /\ \E l \in Line : file' = Append(file, l)
         /\ UNCHANGED run
Start == run = <<>> /\ run' = <<Meaning(file)>> /\ UNCHANGED file
Next == Write \/ Start

-----------------------------------------------------------------------------
Runs == run # <<>> /\ run[1] # Exited
\* C24: a file with an invalid value does not run; ...
Invalid == run # <<>> => (Runs <=> (\A i \in 1..Len(file) :
              IsLine(file[i]) /\ (file[i].v.ok \/ (\E j \in i+1..Len(file) : file[j].o = file[i].o))))
\* ... what runs has the value given, or the default of what is not given, ...
Given == Runs => \A o \in Opts :
           \/ \E i \in 1..Len(file) : file[i].o = o /\ file[i].v.ok /\ run[1][o] = file[i].v.e
           \/ (\A i \in 1..Len(file) : file[i].o # o) /\ run[1][o] = Default[o]
\* ... whatever else is written, and wherever.
Alone == Runs => \A o \in Opts : run[1][o] = Meaning(SelectSeq(file, LAMBDA l : l.o = o))[o]
Inv == Invalid /\ Given /\ Alone

\* The lines, for the harness.
ASSUME DumpOn => PrintT("##" \o ToJson(SetToSeq(Line)))
ASSUME DumpOn => PrintT("%%" \o ToJson(Default))

-----------------------------------------------------------------------------
\* Runs of real files: the lines, whether it ran, and what was seen.
Seen == JsonDeserialize("runs.json")
Explained(r) ==
  IF r.ran THEN /\ Valid(r.file)
                /\ \A o \in DOMAIN r.seen : r.seen[o] = Meaning(r.file)[o]
           ELSE ~Valid(r.file)
JInit == file = <<>> /\ run = <<>>
JNext == FALSE /\ UNCHANGED <<file, run>>
Judged == \A i \in 1..Len(Seen) : IF Explained(Seen[i]) THEN TRUE ELSE PrintT(<<"bad", i>>)
=============================================================================
