-------------------------------- MODULE Conns --------------------------------
(* Concurrent connections (P13), idle timeouts (P14) and aborting clients (P15).

   A connection goes through TCP accept, the TLS handshake (two flights of the
   client), the protocol session and the closing handshake.  Clients act in any
   interleaving; a tick lets a third of the timeout pass for everybody.  The
   server keeps one record per connection and nothing else, so what a client
   observes is a function of its own steps and of time: Alone is checked as an
   invariant over a ghost copy of every connection which runs by itself. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Clients,
          T,            \* timeout in ticks; 0: none
          Vers,         \* TLS versions used: 12, 13
          Aborts,       \* abnormal actions of clients
          Emit

VARIABLES conn,   \* per client: [ph, v, idle]
          fwd,    \* number of commands forwarded, per client
          act, obs \* last action; what each client observed of it
vars == <<conn, fwd, act, obs>>

Phases == {"new", "tcp", "part", "hs", "up", "upline", "ses", "line", "push", "half", "jam", "jclose", "closing", "gone"}
Established == {"up", "upline", "ses", "line", "push", "half"}
Held(c) == conn[c].ph \notin {"new", "gone"}

Init == /\ conn = [c \in Clients |-> [ph |-> "new", v |-> 12, idle |-> 0]]
        /\ fwd = [c \in Clients |-> 0]
        /\ act = <<"start">> /\ obs = [c \in Clients |-> <<>>]

(* result of an action of a client in a state: [ph, out, fwd, act]; out is what
   it receives, "CN" a close notification, "EOF" the end of the connection *)
R(ph, out) == [ph |-> ph, out |-> out, f |-> 0]
Do(x, a) ==
  CASE a = "hello"    -> R("hs", <<>>)
    [] a = "badhello" -> IF x.v = 13 THEN R("gone", <<"EOF">>) ELSE R("hs", <<>>)
    [] a = "hpart"    -> R("part", <<>>)
    [] a = "hrest"    -> R("hs", <<>>)
    [] a = "finish"   -> R("up", <<>>)
    [] a = "badfinish" -> R("gone", <<"EOF">>)
    [] a = "moin"     -> IF x.ph = "up" THEN R("ses", <<"MOIN 1">>) ELSE R(x.ph, <<"FAIL">>)
    [] a = "noop"     -> IF x.ph = "up" THEN R("up", <<"FAIL">>) ELSE R("ses", <<"OKAY">>)
    [] a = "lpart"    -> R(IF x.ph = "up" THEN "upline" ELSE "line", <<>>)
    [] a = "lrest"    -> IF x.ph = "upline" THEN R("ses", <<"MOIN 1">>) ELSE R("ses", <<"OKAY">>)
    [] a = "push"     -> IF x.ph = "up" THEN R("up", <<"FAIL">>) ELSE R("push", <<"OKAY">>)
    [] a = "own"      -> [ph |-> "ses", out |-> <<"OKAY">>, f |-> 1]
    [] a = "other"    -> R("ses", <<"FAIL">>)
    [] a = "half"     -> R("half", <<>>)
    [] a = "rest"     -> [ph |-> "ses", out |-> <<"OKAY">>, f |-> 1]
    [] a = "ping"     -> R("closing", <<"PONG 1", "CN">>)
    [] a = "quit"     -> R("closing", <<"OKAY", "CN">>)
    [] a = "jam"      -> R("jam", <<>>)      \* requests whose replies it does not read, until the server cannot write any more
    [] a = "unjam"    -> IF x.ph = "jam" THEN R("ses", <<"REST">>) ELSE R("closing", <<"REST", "BAIL", "CN">>)
    [] a = "bail"     -> R("closing", <<"CN">>)
    [] a = "cn"       -> IF x.ph = "closing" THEN R("gone", <<"EOF">>) ELSE R("gone", <<"CN", "EOF">>)
    [] a \in {"garbage", "alert"} -> R("gone", <<"EOF">>)
    [] a \in {"fin"}  -> R("gone", IF x.ph = "jam" THEN <<"SOME", "EOF">> ELSE <<"EOF">>)
    [] a \in {"rst"}  -> R("gone", <<>>)

Enabled(x, bad) ==
  CASE x.ph = "tcp"  -> {"hello", "hpart"} \cup ({"badhello", "garbage", "alert", "fin", "rst"} \cap Aborts)
    [] x.ph = "part" -> {"hrest"} \cup ({"fin", "rst"} \cap Aborts)
    [] x.ph = "hs"   -> (IF bad THEN {"badfinish"} ELSE {"finish"}) \cup ({"garbage", "alert", "fin", "rst"} \cap Aborts)
    [] x.ph = "up"   -> {"moin", "noop", "lpart", "push", "ping", "quit"} \cup ({"bail", "cn", "garbage", "fin", "rst"} \cap Aborts)
    [] x.ph = "upline" -> {"lrest"} \cup ({"cn", "garbage", "fin", "rst"} \cap Aborts)
    [] x.ph = "ses"  -> {"noop", "lpart", "push", "quit"} \cup ({"moin", "bail", "cn", "garbage", "fin", "rst", "jam"} \cap Aborts)
    [] x.ph = "line" -> {"lrest"} \cup ({"cn", "garbage", "fin", "rst"} \cap Aborts)
    [] x.ph = "push" -> {"own", "other", "half"} \cup ({"cn", "garbage", "fin", "rst"} \cap Aborts)
    [] x.ph = "half" -> {"rest"} \cup ({"cn", "garbage", "fin", "rst"} \cap Aborts)
    [] x.ph = "jam"  -> {"unjam"} \cup ({"fin", "rst"} \cap Aborts)
    [] x.ph = "jclose" -> {"unjam"} \cup ({"rst"} \cap Aborts)
    [] x.ph = "closing" -> {"cn"} \cup ({"fin", "rst"} \cap Aborts)
    [] OTHER -> {}

Quiet == [c \in Clients |-> <<>>]

Connect(c) == \E v \in Vers :
  /\ conn[c].ph \in {"new", "gone"}
  /\ conn' = [conn EXCEPT ![c] = [ph |-> "tcp", v |-> v, idle |-> 0]]
  /\ act' = <<"connect", c, v>> /\ obs' = Quiet /\ UNCHANGED fwd

IsBad(x) == x.v = 112     \* a TLS 1.2 handshake with the wrong key, after its first flight
Client(c) == \E a \in Enabled(conn[c], IsBad(conn[c])) :
  LET x == conn[c]
      r == Do(x, a)
  IN /\ conn' = [conn EXCEPT ![c] = [ph |-> r.ph, idle |-> 0,
                   v |-> IF r.ph \in {"gone", "up"} THEN 12 ELSE IF a = "badhello" THEN 112 ELSE x.v]]
     /\ fwd' = [fwd EXCEPT ![c] = (@ + r.f) % 2]
     /\ act' = <<a, c>>
     /\ obs' = [Quiet EXCEPT ![c] = r.out]

Tick ==
  /\ \E c \in Clients : Held(c)
  /\ LET due(c) == T > 0 /\ Held(c) /\ conn[c].idle + 1 >= T
     IN /\ conn' = [c \in Clients |->
                      IF ~Held(c) THEN conn[c]
                      ELSE IF ~due(c) THEN [conn[c] EXCEPT !.idle = IF T = 0 THEN 0 ELSE @ + 1]
                      ELSE [ph |-> IF conn[c].ph \in Established THEN "closing" ELSE IF conn[c].ph = "jam" THEN "jclose" ELSE "gone", v |-> 12, idle |-> 0]]
        /\ obs' = [c \in Clients |->
                      IF ~due(c) THEN <<>>
                      ELSE IF conn[c].ph \in Established THEN <<"BAIL", "CN">>
                      ELSE IF conn[c].ph = "jam" THEN <<>>        \* it does not see what it does not read
                      ELSE IF conn[c].ph = "jclose" THEN <<"SOME", "EOF">> ELSE <<"EOF">>]
  /\ act' = <<"tick">> /\ UNCHANGED fwd

Next == (\E c \in Clients : Connect(c) \/ Client(c)) \/ Tick
Spec == Init /\ [][Next]_vars

TypeOK == \A c \in Clients : conn[c].ph \in Phases /\ (T > 0 => conn[c].idle < T)

(* what one client sees does not depend on the others *)
Isolation == \A c \in Clients : act # <<"tick">> /\ act # <<"start">> /\ act[2] # c => obs[c] = <<>>
(* a step of one client leaves the others' connections as they are *)
Independent == [][act' # <<"tick">> => \A c \in Clients : act'[2] # c => conn'[c] = conn[c] /\ fwd'[c] = fwd[c]]_vars
(* only complete and acknowledged data is forwarded *)
ForwardAcked == [][\A c \in Clients : fwd'[c] # fwd[c] => act'[1] \in {"own", "rest"} /\ obs'[c] = <<"OKAY">>]_vars
(* an idle connection is gone or closing after T ticks, never before *)
TimeoutExact == [][act' = <<"tick">> => \A c \in Clients :
                     /\ obs'[c] # <<>> => T > 0 /\ conn[c].idle = T - 1
                     /\ (T > 0 /\ Held(c) /\ conn[c].idle = T - 1) =>
                          conn'[c].ph # conn[c].ph /\ (conn[c].ph # "jam" => obs'[c] # <<>>)]_vars
View == [c \in Clients |-> <<conn[c].ph, conn[c].v, conn[c].idle>>]
EmitEdge == Emit => PrintT("@e " \o ToJson(<<View, act', obs', View'>>))
=============================================================================
