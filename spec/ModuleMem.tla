------------------------------- MODULE ModuleMem -------------------------------
(* M03: what an object of the Perl or the Python module keeps.  Extends Module
   with a ghost for what is owned on behalf of the object, acquired and released
   by the kind of step, and with calls and constructors which are refused. *)
EXTENDS Module, FiniteSets

VARIABLE own
mvars == <<vars, own>>

MInit == Init /\ own = {"object"}

Step == /\ Next
        /\ LET a == act'[1] IN
           own' = CASE a = "call"    -> own \cup {"request"}
                    [] a = "connect" -> own \cup {"link"}        \* takes the place of an older one
                    [] a = "ok"      -> own \ {"request"}
                    [] a = "err"     -> own \ {"request", "link"}
                    [] a = "renew"   -> {"object"}
                    [] OTHER         -> own
(* a call with wrong arguments, and a constructor of another object which fails *)
Misuse == s.st = "idle" /\ act' = <<"misuse">> /\ UNCHANGED <<s, own>>
BadNew == s.st = "idle" /\ act' = <<"badnew">> /\ UNCHANGED <<s, own>>
MNext == Step \/ Misuse \/ BadNew
MSpec == MInit /\ [][MNext]_mvars

Linked == \/ s.st = "idle" /\ s.link # "none"
          \/ s.st \in {"c_moin", "c_push", "c_data", "c_ret", "c_stale"} \cup Server
Unlinked == \/ s.st = "idle" /\ s.link = "none"
            \/ s.st = "c_conn"
Exact == /\ "object" \in own
         /\ ("request" \in own) = (s.st # "idle")
         /\ (Linked => "link" \in own) /\ (Unlinked => "link" \notin own)
AtRest == s.st = "idle" /\ s.link = "none" => own = {"object"}
================================================================================
