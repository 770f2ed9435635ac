-------------------------------- MODULE Systemd --------------------------------
(* The contract with the service manager (P19): readiness, watchdog, socket
   activation.  A tick is half of the watchdog interval; within each of them a
   server with a watchdog must show that it lives.  The last message is timed
   by a clock of its own which the server may run at any rate that satisfies
   the contract; Alive is the property which follows. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Loads,      \* ways of keeping the server or its peers busy
          Emit

VARIABLES st,     \* "off", "run"
          n,      \* number of sockets passed in
          wd,     \* value of WATCHDOG_USEC
          load,   \* what stalls
          ready,  \* READY=1 messages of this incarnation
          silent, \* ticks without a message
          act, obs
vars == <<st, n, wd, load, ready, silent, act, obs>>

Watch(w) == w \in {"short", "long"}       \* the others are absent or unusable values
WDs == {"none", "zero", "junk", "short", "long"}
Faults == {"ok", "port", "conf", "pidfile", "temp"}

Init == /\ st = "off" /\ n = 0 /\ wd = "none" /\ load = {} /\ ready = 0 /\ silent = 0
        /\ act = <<"init">> /\ obs = [res |-> "", ready |-> 0, alive |-> "no"]

O(res, r, a) == [res |-> res, ready |-> r, alive |-> a]

Start == \E k \in 0..3, w \in WDs, f \in Faults, m \in {"fg", "bg"}, b \in BOOLEAN :
  /\ st = "off"
  /\ b \/ k = 1          \* with -b; a socket can do without
  /\ act' = <<"start", k, w, f, m, b>>
  /\ LET fails == k > 1 \/ f \in {"conf", "pidfile", "temp"} \/ (f = "port" /\ k = 0)
     IN IF fails
        THEN /\ UNCHANGED <<st, n, wd, ready>> /\ obs' = O("fail", 0, "no")
        ELSE /\ st' = "run" /\ n' = k /\ wd' = w /\ ready' = 1 /\ obs' = O("up", 1, "any")
  /\ load' = {} /\ silent' = 0

(* half of the interval passes *)
Tick == /\ st = "run"
        /\ act' = <<"tick">>
        /\ silent' = 0
        /\ obs' = O("", 0, IF Watch(wd) THEN "yes" ELSE "no")
        /\ UNCHANGED <<st, n, wd, load, ready>>

Stall == \E l \in Loads \ load :
  /\ st = "run" /\ load' = load \cup {l} /\ act' = <<"stall", l>> /\ obs' = O("", 0, "any")
  /\ UNCHANGED <<st, n, wd, ready, silent>>

Serve == /\ st = "run" /\ act' = <<"serve">> /\ obs' = O("served", 0, "any")
         /\ UNCHANGED <<st, n, wd, load, ready, silent>>

(* a new incarnation with the same environment and the same socket *)
Hup == /\ st = "run" /\ act' = <<"hup">> /\ obs' = O("up", 1, "any")
       /\ load' = {} /\ silent' = 0 /\ ready' = 1 /\ UNCHANGED <<st, n, wd>>

Term == /\ st = "run" /\ st' = "off" /\ act' = <<"term">> /\ obs' = O("exit", 0, "any")
        /\ load' = {} /\ ready' = 0 /\ silent' = 0 /\ n' = 0 /\ wd' = "none"

Next == Start \/ Tick \/ Stall \/ Serve \/ Hup \/ Term
Spec == Init /\ [][Next]_vars

ReadyOnce == (st = "run") = (ready = 1) /\ ready <= 1
OneSocket == n <= 1
Alive == [][act' = <<"tick">> => (obs'.alive = "yes") = Watch(wd)]_vars
V == <<st, n, wd, load>>
EmitEdge == Emit => PrintT("@e " \o ToJson(<<V, act', obs', V'>>))
=============================================================================
