---------------------------------- MODULE Contrib ----------------------------------
(* X01: the helper scripts of contrib/ which submit a command.  A behaviour is the
   writing of a command line, word by word, and then a run of the script in some
   environment.  Values of options are numbers (0: the script's default); what
   is submitted is a sequence of fields <<option, number>>, literal texts <<text, -1>>. *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS MaxOpts, Emit
Scripts == {"enable_notifications", "disable_notifications", "acknowledge", "downtime", "invoke_check"}
Toggle(s) == s \in {"enable_notifications", "disable_notifications"}
Letters(s) == CASE Toggle(s) -> {"c"}
                [] s = "acknowledge" -> {"C", "c", "H", "S"}
                [] s = "downtime" -> {"C", "c", "H", "S", "s", "e"}
                [] OTHER -> {"c", "H", "S"}
Plugins == {"0", "1", "2", "3", "more", "missing"}

VARIABLES script, argv, stop, rest, server, phase, exit, sent
vars == <<script, argv, stop, rest, server, phase, exit, sent>>

Init ==
  /\ script \in Scripts
  /\ argv = <<>> /\ stop = "none" /\ rest = "none" /\ server = "good"
  /\ phase = "write" /\ exit = "none" /\ sent = <<>>

(* an option with its value; a value is written out in some way by the driver *)
Option ==
  /\ phase = "write" /\ stop = "none" /\ Len(argv) < MaxOpts
  /\ \E o \in Letters(script) : \E v \in 1..2 : argv' = Append(argv, <<o, v>>)
  /\ UNCHANGED <<script, stop, rest, server, phase, exit, sent>>

(* words after which options are of no interest *)
Stop ==
  /\ phase = "write" /\ stop = "none"
  /\ stop' \in {"help", "unknown", "noarg"}
  /\ UNCHANGED <<script, argv, rest, server, phase, exit, sent>>

(* what follows the options: a plugin with its arguments, or a word too many *)
Rest ==
  /\ phase = "write" /\ rest = "none" /\ stop # "noarg"
  /\ rest' \in IF script = "invoke_check" THEN Plugins ELSE {"word"}
  /\ phase' = "written"
  /\ UNCHANGED <<script, argv, stop, server, exit, sent>>

Env ==
  /\ phase \in {"write", "written"} /\ server = "good"
  /\ server' \in {"fail", "down"}
  /\ phase' = "written"
  /\ UNCHANGED <<script, argv, stop, rest, exit, sent>>

Given(o) == SelectSeq(argv, LAMBDA x : x[1] = o)
Val(o) == LET g == Given(o) IN <<o, IF g = <<>> THEN 0 ELSE g[Len(g)][2]>>
Usage == stop # "none" \/ (script = "invoke_check") # (rest # "none")

T(x) == <<x, -1>>       \* a literal text
Command ==
  LET svc == Given("S") # <<>>
      target == IF svc THEN <<Val("H"), Val("S")>> ELSE <<Val("H")>>
  IN CASE script = "enable_notifications" -> <<T("ENABLE_NOTIFICATIONS")>>
       [] script = "disable_notifications" -> <<T("DISABLE_NOTIFICATIONS")>>
       [] script = "acknowledge" ->
            <<T(IF svc THEN "ACKNOWLEDGE_SVC_PROBLEM" ELSE "ACKNOWLEDGE_HOST_PROBLEM")>> \o target \o
            <<T("1"), T("0"), T("1"), T("author"), Val("C")>>        \* sticky, no notification, persistent
       [] script = "downtime" ->
            <<T(IF svc THEN "SCHEDULE_SVC_DOWNTIME" ELSE "SCHEDULE_HOST_DOWNTIME")>> \o target \o
            <<Val("s"), Val("e"), T("1"), T("0"), T("0"), T("author"), Val("C")>>   \* fixed, no trigger, no duration
       [] OTHER -> <<T("PROCESS_SERVICE_CHECK_RESULT"), Val("H"), Val("S"), T(rest), T("output")>>

Run ==
  /\ phase \in {"write", "written"}
  /\ phase' = "done"
  /\ IF Usage \/ rest \in {"more", "missing"}
       THEN exit' = "failure" /\ sent' = <<>>
       ELSE /\ exit' = IF server = "good" THEN "success" ELSE "failure"
            /\ sent' = IF server = "down" THEN <<>> ELSE <<Command>>
  /\ UNCHANGED <<script, argv, stop, rest, server>>

Next == Option \/ Stop \/ Rest \/ Env \/ Run
Spec == Init /\ [][Next]_vars

Done == phase = "done"
Fields == IF sent = <<>> THEN {} ELSE {sent[1][i] : i \in DOMAIN sent[1]}
Pairs == {f \in Fields : f[2] >= 0}
TypeOK == sent \in {<<>>} \cup {<<Command>>}
(* success is claimed for a submission the server took, and for nothing else *)
Honest == Done => (exit = "success" <=> sent # <<>> /\ server = "good")
(* every value comes from the command line, the last word on it counts, defaults are for what was not given *)
FromOptions == Done => \A f \in Pairs : IF f[2] = 0 THEN Given(f[1]) = <<>>
                         ELSE \E i \in DOMAIN argv : argv[i] = f /\ \A j \in DOMAIN argv : j > i => argv[j][1] # f[1]
(* and everything on the command line (but the configuration file) which goes with the command ends up in it *)
Complete == Done /\ sent # <<>> => \A i \in DOMAIN argv : argv[i][1] # "c" => \E f \in Pairs : f[1] = argv[i][1]
NoHalf == Done /\ (stop # "none" \/ rest \in {"word", "more", "missing"}) => sent = <<>> /\ exit = "failure"
EmitDone == Done /\ Emit => PrintT("@d " \o ToJson([script |-> script, argv |-> argv, stop |-> stop, rest |-> rest, server |-> server,
                                                   exit |-> exit, sent |-> sent, conf |-> Val("c")[2]]))
================================================================================
