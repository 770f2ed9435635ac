--------------------------------- MODULE Module ---------------------------------
(* An object of the Perl or the Python module and an arbitrary server (M01).
   The server and time are the environment; the module's own steps are Connect,
   Moin, Push, Data, Return and Raise.  How often and when the module tries
   again before it raises an exception, and whether it reuses a connection, is
   left to it within the bounds given here.  Histories are unbounded: the
   number of calls is not part of the state. *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Attempts,  \* connection attempts per call, a reused connection aside
          Emit

VARIABLES s, act
vars == <<s, act>>

Client == {"c_conn", "c_moin", "c_push", "c_data", "c_ret", "c_stale", "c_broken"}
Server == {"s_hs", "s_moin", "s_push", "s_data"}
Asked == {"s_moin", "s_push", "s_data"}
Init == /\ s = [st |-> "idle",       \* idle, c_*: the module's turn, s_*: the server's, wait: nobody's
                link |-> "none",     \* what is left of the last call: "up", "stale" (dropped by the server)
                tries |-> 0, re |-> FALSE, slow |-> FALSE, dark |-> FALSE,
                old |-> FALSE,       \* the server may still reply on a connection which the module gave up
                hurt |-> FALSE, sent |-> 0, acks |-> 0, res |-> "none", gen |-> 0, agen |-> 0]
        /\ act = <<"init">>

Do(a, t) == act' = a /\ s' = t

(* --- the caller --- *)
Call == s.st = "idle" /\
  Do(<<"call">>, [s EXCEPT !.st = CASE s.link = "up" -> "c_push" [] s.link = "stale" -> "c_stale"
                                    [] OTHER -> IF s.dark THEN "c_broken" ELSE "c_conn",
                           !.re = s.link = "up", !.tries = 0, !.slow = FALSE, !.res = "none", !.sent = 0, !.acks = 0, !.agen = 0,
                           !.hurt = s.link = "stale" \/ (s.link = "none" /\ s.dark)])
Renew == s.st = "idle" /\ Do(<<"renew">>, [s EXCEPT !.link = "none", !.old = FALSE])

(* --- the server --- *)
Down == s.st = "idle" /\ ~s.dark /\ Do(<<"down">>, [s EXCEPT !.dark = TRUE])
Up == s.st = "idle" /\ s.dark /\ Do(<<"up">>, [s EXCEPT !.dark = FALSE])
Drop == \E h \in {"close", "fin", "reset", "bail"} :
  s.st = "idle" /\ s.link = "up" /\ Do(<<"drop", h>>, [s EXCEPT !.link = "stale"])

Lost == {"close", "fin", "reset", "down"}                     \* the connection is gone
Wrong == {"fail", "bail", "unknown", "empty", "long", "other"}    \* the reply is not the one hoped for
Fault(o) == [s EXCEPT !.st = IF o = "silent" THEN "wait" ELSE "c_broken", !.hurt = TRUE,
                      !.dark = @ \/ o = "down", !.old = o \notin Lost]
Shake == \E o \in {"good", "badkey", "garbage", "silent"} \cup Lost :
  s.st = "s_hs" /\ Do(<<"shake", o>>, IF o = "good" THEN [s EXCEPT !.st = "c_moin"]
                                      ELSE [Fault(o) EXCEPT !.old = FALSE])
Reply == \E o \in {"good", "silent", "version"} \cup Lost \cup Wrong :
  /\ s.st \in Asked
  /\ o = "version" => s.st = "s_moin"
  /\ Do(<<"reply", o>>,
        IF o # "good" THEN Fault(o)
        ELSE [s EXCEPT !.st = CASE s.st = "s_moin" -> "c_push" [] s.st = "s_push" -> "c_data" [] s.st = "s_data" -> "c_ret",
                       !.acks = IF s.st = "s_data" THEN @ + 1 ELSE @,
                       !.agen = IF s.st = "s_data" THEN s.gen ELSE @])
(* the reply takes long, but not too long *)
Slow == s.st \in Server /\ ~s.slow /\ Do(<<"slow">>, [s EXCEPT !.slow = TRUE])
Expire == s.st = "wait" /\ Do(<<"expire">>, [s EXCEPT !.st = "c_broken"])
(* what the server owed, or more of it, after the module gave up *)
Late == s.old /\ s.st \notin {"c_broken", "wait"} /\ Do(<<"late">>, [s EXCEPT !.old = FALSE])

(* --- the module --- *)
Connect == /\ \/ s.st \in {"c_conn", "c_broken"} /\ s.tries < Attempts /\ ~s.dark
              \/ s.st = "c_stale" /\ ~s.dark
              \/ s.st = "c_push" /\ s.re /\ ~s.dark
           /\ Do(<<"connect">>, [s EXCEPT !.st = "s_hs", !.link = "none", !.re = FALSE, !.tries = @ + 1, !.gen = 1 - @])
Moin == s.st = "c_moin" /\ Do(<<"MOIN">>, [s EXCEPT !.st = "s_moin"])
Push == s.st = "c_push" /\ Do(<<"PUSH">>, [s EXCEPT !.st = "s_push", !.link = "none", !.re = FALSE])
Data == s.st = "c_data" /\ Do(<<"DATA">>, [s EXCEPT !.st = "s_data", !.sent = IF @ < 3 THEN @ + 1 ELSE @])
Return == s.st = "c_ret" /\ Do(<<"ok">>, [s EXCEPT !.st = "idle", !.link = "up", !.res = "ok", !.tries = 0, !.slow = FALSE])
Raise == s.st \in {"c_broken", "c_stale"} /\ Do(<<"err">>, [s EXCEPT !.st = "idle", !.link = "none", !.res = "err", !.tries = 0, !.slow = FALSE])

Module == Connect \/ Moin \/ Push \/ Data \/ Return \/ Raise
Env == Call \/ Renew \/ Down \/ Up \/ Drop \/ Shake \/ Reply \/ Slow \/ Expire \/ Late
Next == Module \/ Env
Spec == Init /\ [][Next]_vars /\ WF_vars(Module) /\ WF_vars(Shake \/ Reply) /\ WF_vars(Expire)

(* --- what follows --- *)
(* success is reported if and only if the server acknowledged this very result ... *)
Sound == (s.res = "ok") => (s.acks = 1 /\ s.agen = s.gen /\ s.sent >= 1)
Honest == (s.res = "err") => (s.acks = 0 /\ s.hurt)
(* ... which is not submitted once more then *)
Once == [][(s.acks = 1 /\ s.st # "idle") => s'.sent = s.sent]_vars
Bounded == s.tries <= Attempts + 1
(* after an exception, another connection is used *)
Afresh == [][(s.res = "err" /\ s.st = "idle") => s'.st \in {"idle", "c_conn", "c_broken"}]_vars
(* a call without a fault succeeds *)
Works == [][(act'[1] = "err") => s.hurt]_vars
Ends == (s.st # "idle") ~> (s.st = "idle")

View == <<s.st, s.link, s.tries, s.re, s.slow, s.dark, s.old>>
EmitEdge == Emit => PrintT("@e " \o ToJson(<<View, act', View'>>))
EmitInit == TLCGet("level") = 1 /\ Emit => PrintT("@i " \o ToJson(View))
=================================================================================
