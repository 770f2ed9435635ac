------------------------------- MODULE Translate -------------------------------
(* What send_nsca makes of its input (C02).  The input is a string over
     "a" ordinary text        "D" the field delimiter   "S" the record separator
     "N" a newline            "B" a backslash           "[" a bracket
     "w" a blank or tab
   Mode "result": records are separated by S (which may be a newline itself, then
   N does not occur); mode "command": by N, and S and D mean nothing.
   A command is a sequence of tokens: the positions of the letters it consists
   of, or 0 for the semicolon between two fields. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Mode, L, Emit

VARIABLE s
Letters == IF Mode = "result" THEN {"a", "D", "S", "N", "B"} ELSE {"a", "[", "w", "N", "B"}
Sep == IF Mode = "result" THEN "S" ELSE "N"

Init == s = <<>>
Next == \E x \in Letters : Len(s) < L /\ s' = Append(s, x)
Spec == Init /\ [][Next]_s

Range(f) == {f[i] : i \in DOMAIN f}
Interval(a, b) == [i \in 1 .. (IF b < a THEN 0 ELSE b - a + 1) |-> a + i - 1]
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flat(Tail(q))

(* the records of a string, as sequences of positions *)
RECURSIVE Split(_, _, _)
Split(w, from, at) ==
  IF at > Len(w) THEN <<Interval(from, Len(w))>>
  ELSE IF w[at] = Sep THEN <<Interval(from, at - 1)>> \o Split(w, at + 1, at + 1)
  ELSE Split(w, from, at + 1)
RECURSIVE Lead(_, _, _)
Lead(w, r, set) == IF r # <<>> /\ w[Head(r)] \in set THEN Lead(w, Tail(r), set) ELSE r
Chomp(w, r) == IF r # <<>> /\ w[r[Len(r)]] = "N" THEN SubSeq(r, 1, Len(r) - 1) ELSE r

(* fields: at most four, further delimiters belong to the last one *)
Delims(w, r) == {i \in DOMAIN r : w[r[i]] = "D"}
Nth(S, k) == CHOOSE i \in S : Cardinality({j \in S : j <= i}) = k
Cut(w, r) == LET d == Delims(w, r)
                 n == IF Cardinality(d) > 3 THEN 3 ELSE Cardinality(d)
             IN {Nth(d, k) : k \in 1 .. n}

(* the command made of a record: <<>> none, <<"err">>, or <<kind, tokens>> *)
Command(w, r0) ==
  IF Mode = "command"
  THEN LET r == Lead(w, r0, {"w"})
       IN IF r0 = <<>> THEN <<>>
          ELSE IF r = <<>> THEN <<"open">>      \* nothing but blanks: not specified
          ELSE <<IF w[r[1]] = "[" THEN "own" ELSE "stamp", r>>
  ELSE LET l == Lead(w, r0, {"N"})
           r == Chomp(w, l)
           c == Cut(w, r)
       IN IF l = <<>> THEN <<>>
          ELSE IF Cardinality(c) < 2 THEN <<"err">>
          ELSE <<IF Cardinality(c) = 2 THEN "host" ELSE "svc", [i \in DOMAIN r |-> IF i \in c THEN 0 ELSE r[i]]>>

RECURSIVE Upto(_, _)
Upto(q, i) == IF i > Len(q) THEN <<>> ELSE IF q[i] = <<"err">> THEN <<q[i]>>
              ELSE (IF q[i] = <<>> THEN <<>> ELSE <<q[i]>>) \o Upto(q, i + 1)
Out(w) == LET rs == Split(w, 1, 1) IN Upto([i \in DOMAIN rs |-> Command(w, rs[i])], 1)

Fine(q) == \A i \in DOMAIN q : q[i][1] # "err"
(* records do not influence each other *)
Shift(q, n) == [i \in DOMAIN q |-> IF Len(q[i]) = 1 THEN q[i]
                 ELSE <<q[i][1], [j \in DOMAIN q[i][2] |-> IF q[i][2][j] = 0 THEN 0 ELSE q[i][2][j] + n]>>]
Composes == \A i \in DOMAIN s : s[i] = Sep =>
  LET u == Out(SubSeq(s, 1, i - 1))
      v == Shift(Out(SubSeq(s, i + 1, Len(s))), i)
  IN Out(s) = IF Fine(u) THEN u \o v ELSE u
(* nothing is lost: all letters but separators, newlines at the ends, leading
   blanks and the delimiters between fields are in the commands, in order *)
Increasing(q) == \A i, j \in DOMAIN q : i < j => q[i] < q[j]
Kept == LET o == Out(s)
            t == SelectSeq(Flat([i \in DOMAIN o |-> IF Len(o[i]) = 2 THEN o[i][2] ELSE <<>>]), LAMBDA x : x # 0)
        IN /\ Increasing(t)
           /\ Fine(o) => \A i \in DOMAIN s : i \notin Range(t) => s[i] \in (IF Mode = "result" THEN {"S", "N", "D"} ELSE {"N", "w"})
           /\ \A i \in Range(t) : s[i] # Sep
(* a host result has two, a service result three semicolons *)
Arity == LET o == Out(s) IN \A i \in DOMAIN o : Len(o[i]) = 2 /\ Mode = "result" =>
           Cardinality({j \in DOMAIN o[i][2] : o[i][2][j] = 0}) = (IF o[i][1] = "host" THEN 2 ELSE 3)
(* the last separator may be missing *)
LastOpt == Out(Append(s, Sep)) = Out(s)

EmitString == Emit => PrintT("@s " \o ToJson(<<s, Out(s)>>))
================================================================================
