------------------------------- MODULE Privileges -------------------------------
(* Dropping privileges (P18).  The state is what the kernel knows about the
   process; Do gives the effect of its system calls, for a process which may
   lack the privilege by then.  A process may make anything visible (create
   files, bind a socket, serve) only once it is Confined as configured, and
   never after a failed step.

   Mode "program": a process which takes the steps one after the other, any of
   which may fail.  Mode "trace": recorded behaviour (Traces) of the server. *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Mode
Traces == IF Mode = "trace" THEN TLCEval(JsonDeserialize("traces.json")) ELSE <<>>

VARIABLES cfg,      \* [user, root: BOOLEAN] what is configured
          k,        \* credentials known to the kernel
          failed,   \* a step failed
          made,     \* something has been created or bound
          st,       \* "run", "serve", "exit0", "exit1"
          bad,      \* what is wrong
          tr, i     \* position in a trace, or number of steps taken
vars == <<cfg, k, failed, made, st, bad, tr, i>>

Root3 == <<"root", "root", "root">>       \* real, effective, saved
Me3 == <<"me", "me", "me">>
K0 == [uid |-> Root3, gid |-> Root3, groups |-> "root", root |-> "/", cwd |-> "start", looked |-> FALSE]

Priv(x) == x.uid[2] = "root"
Keep(n, o) == IF n = "keep" THEN o ELSE n

Confined(c, x) ==
  /\ IF c.user THEN x.uid = Me3 /\ x.gid = Me3 /\ x.groups = "me"
               ELSE x.uid = Root3 /\ x.gid = Root3 /\ x.groups = "root"
  /\ IF c.root THEN x.root = "dir" /\ x.cwd = "inside" ELSE x.root = "/"

(* effect of a successful call; without privilege there is none *)
Do(x, e) ==
  CASE e.k = "getpwnam" -> [x EXCEPT !.looked = (e.a = "me" /\ x.root = "/")]
    [] e.k = "initgroups" -> IF Priv(x) THEN [x EXCEPT !.groups = IF e.a = "me" /\ e.b = "me" /\ x.root = "/" THEN "me" ELSE "other"] ELSE x
    [] e.k = "setgroups" -> IF Priv(x) THEN [x EXCEPT !.groups = "other"] ELSE x
    [] e.k = "chroot" -> IF Priv(x)
                         THEN LET in == e.a = "dir" \/ (e.a = "." /\ x.cwd = "dir")
                              IN [x EXCEPT !.root = IF in /\ x.root = "/" THEN "dir" ELSE "other",
                                           !.cwd = IF in /\ x.cwd = "dir" THEN "inside" ELSE IF x.cwd = "dir" THEN "other" ELSE x.cwd]
                         ELSE x
    [] e.k = "chdir" -> [x EXCEPT !.cwd = IF e.a = "dir" THEN IF x.root = "/" THEN "dir" ELSE "other"
                                          ELSE IF e.a = "/" THEN IF x.root = "dir" THEN "inside" ELSE "start"
                                          ELSE IF e.a = "." THEN x.cwd ELSE "other"]
    [] e.k = "setuid" -> IF Priv(x) THEN [x EXCEPT !.uid = <<e.a, e.a, e.a>>] ELSE x
    [] e.k = "setgid" -> IF Priv(x) THEN [x EXCEPT !.gid = <<e.a, e.a, e.a>>] ELSE x
    [] e.k = "setresuid" -> IF Priv(x) THEN [x EXCEPT !.uid = <<Keep(e.a, x.uid[1]), Keep(e.b, x.uid[2]), Keep(e.c, x.uid[3])>>] ELSE x
    [] e.k = "setresgid" -> IF Priv(x) THEN [x EXCEPT !.gid = <<Keep(e.a, x.gid[1]), Keep(e.b, x.gid[2]), Keep(e.c, x.gid[3])>>] ELSE x
    [] OTHER -> x

Visible(e) == e.k \in {"make", "bind", "serve"}

Judge(e) ==
  IF bad # "" THEN bad
  ELSE IF e.ok /\ Visible(e) /\ ~Confined(cfg, k) THEN e.k \o " with the wrong privileges"
  ELSE IF e.ok /\ Visible(e) /\ failed THEN e.k \o " after a step failed"
  ELSE IF e.k = "exit" /\ failed /\ e.a # "1" THEN "exit status after a failed step"
  ELSE IF e.k = "exit" /\ ~failed THEN "exit without a reason"
  ELSE IF e.k \in {"setgid", "setuid", "initgroups"} /\ e.ok /\ cfg.user /\ ~k.looked THEN e.k \o " without looking up the user"
  ELSE ""

Take(e) ==
  /\ bad' = Judge(e)
  /\ k' = IF e.ok THEN Do(k, e) ELSE k
  /\ failed' = (failed \/ ~e.ok)
  /\ made' = (made \/ (e.ok /\ Visible(e)))
  /\ st' = IF e.k = "serve" /\ e.ok THEN "serve" ELSE IF e.k = "exit" THEN "exit" \o e.a ELSE st
  /\ UNCHANGED <<cfg, tr>>
  /\ i' = i + 1

Ev(n, a, b) == [k |-> n, a |-> a, b |-> b, c |-> "", ok |-> TRUE]
Steps(c) ==
  (IF c.user THEN <<Ev("getpwnam", "me", ""), Ev("initgroups", "me", "me")>> ELSE <<>>)
  \o (IF c.root THEN <<Ev("chroot", "dir", ""), Ev("chdir", "/", "")>> ELSE <<>>)
  \o (IF c.user THEN <<Ev("setgid", "me", ""), Ev("setuid", "me", "")>> ELSE <<>>)
  \o <<Ev("make", "pid", ""), Ev("bind", "", ""), Ev("serve", "", "")>>

Init == /\ k = K0 /\ failed = FALSE /\ made = FALSE /\ st = "run" /\ bad = "" /\ i = 1
        /\ IF Mode = "program" THEN tr = 0 /\ cfg \in [user : BOOLEAN, root : BOOLEAN]
           ELSE tr \in 1..Len(Traces) /\ cfg = Traces[tr].cfg

Program == /\ Mode = "program" /\ st = "run"
           /\ IF failed THEN Take(Ev("exit", "1", ""))
              ELSE \E ok \in BOOLEAN : Take([Steps(cfg)[i] EXCEPT !.ok = ok])

Trace == /\ Mode = "trace" /\ i <= Len(Traces[tr].ev) /\ Take(Traces[tr].ev[i])

Next == Program \/ Trace
Spec == Init /\ [][Next]_vars

(* what the guarantee means *)
Good == bad = ""
NoRoot == made /\ cfg.user /\ Good => k.uid = Me3 /\ k.gid = Me3 /\ k.groups = "me"
Jailed == made /\ cfg.root /\ Good => k.root = "dir" /\ k.cwd = "inside"
Closed == st = "serve" /\ Good => ~failed
(* any single step left out or two of them swapped is noticed, see Mutants *)

Verdict == Mode = "trace" /\ i > Len(Traces[tr].ev) => PrintT("@v " \o ToJson(<<tr, bad, st>>))
================================================================================
