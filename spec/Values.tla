--------------------------------- MODULE Values ---------------------------------
(* What the modules make of their arguments (M02).  A string is a sequence of
   letters: "a" some text, "L" a long one, "N" a newline, "B" a backslash, "S" a
   semicolon, "n" the letter n, "[", "]" and "1" themselves, "H" a number which
   is no time.  The submission is written in the same letters, with "T" for the
   current time in decimal digits and "_" for a space. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxOut,    \* length of the output
          MaxName,   \* of the host name and the service description
          MaxCmd,    \* of a command
          Emit

VARIABLES in, may
vars == <<in, may>>

Strings(A, lo, hi) == UNION {[1..n -> A] : n \in lo..hi}
Outputs == Strings({"a", "N", "B", "S", "n", "L"}, 0, MaxOut)
Names == Strings({"a", "B", "L"}, 1, MaxName)
Commands == Strings({"a", "B", "S", "L", "[", "]", "1", "H"}, 1, MaxCmd)

RECURSIVE Escape(_)
Escape(o) == IF o = <<>> THEN <<>>
             ELSE (CASE Head(o) = "N" -> <<"B", "n">> [] Head(o) = "B" -> <<"B", "B">> [] OTHER -> <<Head(o)>>) \o Escape(Tail(o))
(* the output with any number of its trailing newlines removed *)
Trims(o) == {SubSeq(o, 1, n) : n \in {k \in 0..Len(o) : \A i \in (k + 1)..Len(o) : o[i] = "N"}}

Stamp == <<"[", "T", "]", "_">>
Result(name, svc, rc, o) ==
  {Stamp \o <<IF svc = <<>> THEN "HOST" ELSE "SERVICE", "S">> \o name \o <<"S">> \o
     (IF svc = <<>> THEN <<>> ELSE svc \o <<"S">>) \o <<rc, "S">> \o Escape(t) \o <<"N">> : t \in Trims(o)}

(* a time stamp in front of a command: none, a good one, a bad one, one of doubtful value *)
Prefix(c) ==
  IF c[1] # "[" THEN "none"
  ELSE LET ends == {i \in 2..Len(c) : c[i] \notin {"1", "H"}}
           e == IF ends = {} THEN 0 ELSE CHOOSE i \in ends : \A j \in ends : i <= j
       IN IF e = 0 \/ e = 2 THEN "bad"
          ELSE IF c[e] # "]" THEN "bad"
          ELSE IF e > 3 \/ \E i \in 2..(e - 1) : c[i] = "H" THEN "doubt" ELSE "good"
Fail == {<<"exception">>}
Command(c) == CASE Prefix(c) = "none" -> {Stamp \o c \o <<"N">>}
                [] Prefix(c) = "good" -> {c \o <<"N">>}
                [] Prefix(c) = "doubt" -> {c \o <<"N">>} \cup Fail
                [] OTHER -> Fail

(* constructors: which of the mandatory arguments are there, which ciphers *)
Mandatory == {"host", "identity", "psk"}
New(args, ciphers, strict) == IF args = Mandatory /\ ciphers # "bad" THEN {<<"object">>}
                              ELSE IF args # Mandatory /\ ~strict THEN {<<"object">>} \cup Fail      \* Perl: undefined values
                              ELSE Fail
(* a call without the name of the host or the service, which have no defaults *)
Incomplete == Fail

Nothing == [kind |-> "none"]
Init == in = Nothing /\ may = {}
Case == \/ \E o \in Outputs, rc \in {"0", "2"} :
             /\ in' = [kind |-> "host", name |-> <<"a">>, svc |-> <<>>, rc |-> rc, out |-> o] /\ may' = Result(<<"a">>, <<>>, rc, o)
        \/ \E o \in Outputs, rc \in {"1", "3"} :
             /\ in' = [kind |-> "svc", name |-> <<"a">>, svc |-> <<"a">>, rc |-> rc, out |-> o] /\ may' = Result(<<"a">>, <<"a">>, rc, o)
        \/ \E h \in Names, s \in Names \cup {<<>>}, o \in {<<>>, <<"a">>, <<"N">>, <<"L">>}, rc \in {"0", "4"} :
             /\ in' = [kind |-> IF s = <<>> THEN "host" ELSE "svc", name |-> h, svc |-> s, rc |-> rc, out |-> o] /\ may' = Result(h, s, rc, o)
        \/ \E c \in Commands : in' = [kind |-> "cmd", text |-> c] /\ may' = Command(c)
        \/ \E a \in SUBSET Mandatory, c \in {"none", "good", "bad"}, t \in BOOLEAN :
             /\ in' = [kind |-> "new", args |-> a, ciphers |-> c, strict |-> t] /\ may' = New(a, c, t)
        \/ \E m \in {"name", "svc"} : in' = [kind |-> "incomplete", missing |-> m] /\ may' = Incomplete
Next == in = Nothing /\ Case
Spec == Init /\ [][Next]_vars

(* --- what follows --- *)
(* one line, in a form which begins with the time *)
OneLine == \A m \in may : m \in {<<"exception">>, <<"object">>} \/
             (m[Len(m)] = "N" /\ (\A i \in 1..(Len(m) - 1) : m[i] # "N") /\ m[1] = "[")
(* the monitoring system gets back what was given *)
RECURSIVE Unescape(_)
Unescape(o) == IF o = <<>> THEN <<>>
               ELSE IF Head(o) = "B" /\ Len(o) > 1
                    THEN <<IF o[2] = "n" THEN "N" ELSE o[2]>> \o Unescape(SubSeq(o, 3, Len(o)))
                    ELSE <<Head(o)>> \o Unescape(Tail(o))
Faithful == in.kind \in {"host", "svc"} =>
              \A m \in may : \E t \in Trims(in.out) :
                 LET k == Len(Escape(t)) IN Unescape(SubSeq(m, Len(m) - k, Len(m) - 1)) = t
Decided == in # Nothing => may # {}

EmitCase == (Emit /\ in # Nothing) => PrintT("@c " \o ToJson(<<in, may>>))
=================================================================================
