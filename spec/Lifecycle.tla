------------------------------- MODULE Lifecycle -------------------------------
(* Starting, stopping, killing and re-executing servers which may share PID
   files (P16).  A server runs in the foreground or as a daemon; the daemon is
   another process than the one which was started, and another one again after
   it re-executed itself.  The administrator edits the configuration at any
   time, breaks and repairs it.  Several servers may be started at once. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Servers, Files, \* PID files; 0 stands for none
          Emit

VARIABLES srv,     \* [st, mode, pf, ver]
          file,    \* content of each PID file: "none", "stale", or the server's number
          cfg,     \* [ver, ok]
          act, obs
vars == <<srv, file, cfg, act, obs>>

Off == [st |-> "off", mode |-> "fg", pf |-> 0, ver |-> 0]
Init == /\ srv = [s \in Servers |-> Off]
        /\ file \in [Files -> {"none", "stale"}]
        /\ cfg = [ver |-> 0, ok |-> TRUE]
        /\ act = <<"init">> /\ obs = <<>>

Runs(s) == srv[s].st = "run"
Holder(p) == {s \in Servers : Runs(s) /\ srv[s].pf = p}

(* obs: per affected server what happens to its process: "up", "exit0",
   "fail" (non-zero exit), "killed" *)
Start(s) == \E m \in {"fg", "bg"}, p \in Files \cup {0} :
  /\ ~Runs(s)
  /\ act' = <<"start", s, m, p>>
  /\ IF cfg.ok /\ (p = 0 \/ Holder(p) = {})
     THEN /\ srv' = [srv EXCEPT ![s] = [st |-> "run", mode |-> m, pf |-> p, ver |-> cfg.ver]]
          /\ file' = IF p = 0 THEN file ELSE [file EXCEPT ![p] = s]
          /\ obs' = <<"up">>
     ELSE /\ UNCHANGED <<srv, file>> /\ obs' = <<"fail">>
  /\ UNCHANGED cfg

(* all servers which are off are started at the same moment *)
Race == \E p \in Files, m \in {"fg", "bg"} :
  LET S == {s \in Servers : ~Runs(s)}
  IN /\ Cardinality(S) > 1
     /\ act' = <<"race", m, p>>
     /\ IF cfg.ok /\ Holder(p) = {}
        THEN \E w \in S : /\ srv' = [srv EXCEPT ![w] = [st |-> "run", mode |-> m, pf |-> p, ver |-> cfg.ver]]
                          /\ file' = [file EXCEPT ![p] = w]
                          /\ obs' = <<"one", w>>
        ELSE UNCHANGED <<srv, file>> /\ obs' = <<"none">>
     /\ UNCHANGED cfg

Gone(s, f) == /\ srv' = [srv EXCEPT ![s] = Off]
              /\ file' = IF srv[s].pf = 0 THEN file ELSE [file EXCEPT ![srv[s].pf] = f]
Stop(s) == \E sig \in {"TERM", "INT", "HUP+TERM", "HUP+INT"} :
  /\ Runs(s) /\ Gone(s, "none")
  /\ act' = <<"stop", s, sig>> /\ obs' = <<"exit0">> /\ UNCHANGED cfg
Kill(s) == /\ Runs(s) /\ Gone(s, "stale")
           /\ act' = <<"kill", s>> /\ obs' = <<"killed">> /\ UNCHANGED cfg
Hup(s) ==
  /\ Runs(s)
  /\ act' = <<"hup", s>>
  /\ IF cfg.ok THEN /\ srv' = [srv EXCEPT ![s].ver = cfg.ver]
                    /\ obs' = <<"up">> /\ UNCHANGED file
     ELSE Gone(s, "none") /\ obs' = <<"fail">>
  /\ UNCHANGED cfg

(* one server is stopped, or re-executes itself, while all others are started *)
Swap == \E s \in Servers, sig \in {"TERM", "HUP", "KILL"}, m \in {"fg", "bg"} :
  LET p == srv[s].pf
      S == {t \in Servers : ~Runs(t)}
      W(w) == srv' = [t \in Servers |->
                       IF t = w THEN [st |-> "run", mode |-> IF w = s THEN srv[s].mode ELSE m, pf |-> p, ver |-> cfg.ver]
                       ELSE IF t = s THEN Off ELSE srv[t]]
  IN /\ Runs(s) /\ p # 0 /\ S # {} /\ cfg.ok
     /\ act' = <<"swap", s, sig, m>>
     /\ UNCHANGED cfg
     /\ \/ \E w \in IF sig = "HUP" THEN S \cup {s} ELSE S :
             W(w) /\ file' = [file EXCEPT ![p] = w] /\ obs' = <<"one", w>>
        \/ /\ sig # "HUP" /\ obs' = <<"none">>
           /\ Gone(s, IF sig = "KILL" THEN "stale" ELSE "none")

Edit == /\ act' = <<"edit", 1 - cfg.ver>> /\ cfg' = [cfg EXCEPT !.ver = 1 - @]
        /\ cfg.ok /\ obs' = <<>> /\ UNCHANGED <<srv, file>>
Break == /\ act' = <<"break", cfg.ok>> /\ cfg' = [cfg EXCEPT !.ok = ~@]
         /\ obs' = <<>> /\ UNCHANGED <<srv, file>>

Next == (\E s \in Servers : Start(s) \/ Stop(s) \/ Kill(s) \/ Hup(s)) \/ Race \/ Swap \/ Edit \/ Break
Spec == Init /\ [][Next]_vars

One == \A p \in Files : Cardinality(Holder(p)) <= 1
Right == \A p \in Files : /\ Holder(p) # {} => Holder(p) = {file[p]}
                          /\ Holder(p) = {} => file[p] \in {"none", "stale"}
(* who holds a PID file is not disturbed by others *)
Undisturbed == [][\A s \in Servers, p \in Files :
                    (srv[s].st = "run" /\ srv[s].pf = p /\ act'[1] \in {"start", "race", "edit", "break"})
                    => srv'[s] = srv[s] /\ file'[p] = file[p]]_vars
CleanStop == [][act'[1] = "stop" => obs' = <<"exit0">> /\ (srv[act'[2]].pf # 0 => file'[srv[act'[2]].pf] = "none")]_vars

View == <<[s \in Servers |-> <<srv[s].st, srv[s].mode, srv[s].pf, srv[s].ver>>],
          [p \in Files |-> <<file[p]>>], <<cfg.ver, cfg.ok>>>>
EmitEdge == Emit => PrintT("@e " \o ToJson(<<View, act', obs', View'>>))
=============================================================================
