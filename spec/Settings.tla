------------------------------- MODULE Settings -------------------------------
(* Which setting of send_nsca counts (C05): command line, configuration file,
   default.  A setting may be given any number of times in both places. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS L, Emit
VARIABLES cmd,      \* options: sequence of <<name, value>>
          file      \* lines of the configuration file, likewise
vars == <<cmd, file>>

Options == {"server", "port", "timeout", "delay"}
Names == Options \cup {"identity", "password", "tls_ciphers", "encryption_method"}
Default == 0
Values(n) == IF n = "encryption_method" THEN {1} ELSE IF n \in {"timeout", "delay"} THEN {1, 2, 3} ELSE {1, 2}

Init == cmd = <<>> /\ file = <<>>
(* canonical order between names (drivers shuffle), free order within a name *)
Order == <<"server", "port", "timeout", "delay", "identity", "password", "tls_ciphers", "encryption_method">>
Rank(n) == CHOOSE i \in DOMAIN Order : Order[i] = n
Last(q) == q[Len(q)]
Opt == /\ file = <<>>
       /\ \E n \in Options : \E v \in Values(n) :
            /\ cmd # <<>> => Rank(Last(cmd)[1]) <= Rank(n)
            /\ cmd' = Append(cmd, <<n, v>>)
       /\ UNCHANGED file
Line == /\ \E n \in Names : \E v \in Values(n) :
             /\ file # <<>> => Rank(Last(file)[1]) <= Rank(n)
             /\ file' = Append(file, <<n, v>>)
        /\ UNCHANGED cmd
Next == Len(cmd) + Len(file) < L /\ (Opt \/ Line)
Spec == Init /\ [][Next]_vars

Given(q, n) == SelectSeq(q, LAMBDA x : x[1] = n)
Lastly(q, n) == LET g == Given(q, n) IN IF g = <<>> THEN Default ELSE Last(g)[2]
Effective == [n \in Names |-> IF Lastly(cmd, n) # Default THEN Lastly(cmd, n) ELSE Lastly(file, n)]

(* an option has no influence on other settings; what the file says does not matter for those given as options *)
CmdWins == \A n \in Options : Given(cmd, n) # <<>> => Effective[n] = Last(Given(cmd, n))[2]
FileOnly == \A n \in Names \ Options : Effective[n] = Lastly(file, n)
Defaults == \A n \in Names : Given(cmd, n) = <<>> /\ Given(file, n) = <<>> <=> Effective[n] = Default
EmitSet == Emit => PrintT("@s " \o ToJson(<<cmd, file, Effective>>))
================================================================================
