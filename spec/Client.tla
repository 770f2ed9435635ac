--------------------------------- MODULE Client ---------------------------------
(* send_nsca's session with an arbitrary server (C01, C03, C06).  The
   environment is the server, the standard input and time; each of its actions
   is followed by everything the client does in response.  A tick is a fraction
   of the timeout: T ticks make it up. *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS T,       \* ticks until the timeout strikes, 0: never
          Flights, \* server flights of the TLS handshake
          MaxRec,  \* records of the standard input
          Recs,    \* kinds of records: "rec", "bad", "big"
          Early,   \* whether the server also sends replies which nobody asked for yet
          Dark,    \* whether the connection attempt may remain unanswered
          Emit

VARIABLES c, act, obs
vars == <<c, act, obs>>

Portions == 2       \* of a big record, which the server must read to make room
Replies == {"ok", "fail", "bail", "unexp", "long"}
MoinReplies == Replies \cup {"version", "badmoin"}
Reading == {"moin", "push", "data", "quit"}

Start(st, fl) == [st |-> st, fl |-> fl, all |-> fl, q |-> <<>>, part |-> FALSE, inp |-> <<>>, nin |-> 0, eof |-> FALSE,
                  idle |-> 0, peer |-> "up", req |-> 0, rep |-> 0, sub |-> 0, ack |-> 0, left |-> 0,
                  refused |-> FALSE, done |-> FALSE, ex |-> "run"]
Init == /\ \/ \E f \in Flights : c = Start("hs", f)
           \/ Dark /\ c = Start("dark", 0)
        /\ act = <<"init">> /\ obs = <<>>

Say(s, m) == [s EXCEPT !.out = Append(@, m)]
Gone(s, e) == [s EXCEPT !.c = [@ EXCEPT !.st = "gone", !.ex = e]]
Die(s) == Gone(s, IF s.c.st = "bye" /\ s.c.done THEN "any" ELSE "1")
Bye(s) == Say([s EXCEPT !.c.st = "bye"], "CLOSE")
Ask(s, m, st) == Say([s EXCEPT !.c.st = st, !.c.req = @ + 1, !.c.idle = 0], m)

(* the client gets reply r to its last request *)
Got(s0, r) ==
  LET s == [s0 EXCEPT !.c.q = Tail(@), !.c.rep = @ + 1, !.c.idle = 0]
      st == s.c.st
  IN CASE r = "long" -> Die(s)
       [] r \in {"fail", "bail"} -> Bye([s EXCEPT !.c.refused = TRUE])
       [] r \in {"unexp", "version", "badmoin"} -> Bye(Say([s EXCEPT !.c.refused = TRUE], "BAIL"))
       [] st = "moin" -> [s EXCEPT !.c.st = "input"]
       [] st = "push" ->
            LET big == s.c.inp[1] = "big"
                t == [s EXCEPT !.c.sub = @ + 1, !.c.inp = Tail(@), !.c.left = IF big THEN Portions ELSE 0]
            IN IF big THEN [t EXCEPT !.c.st = "data", !.c.req = @ + 1]
               ELSE Ask(t, "DATA", "data")
       [] st = "data" -> [s EXCEPT !.c.ack = @ + 1, !.c.st = "input"]
       [] st = "quit" -> Bye([s EXCEPT !.c.done = TRUE])

(* all that happens until the client must wait *)
RECURSIVE Run(_)
Run(s) ==
  LET x == s.c IN
  CASE x.st = "input" /\ x.inp # <<>> -> IF x.inp[1] = "bad" THEN Die(s) ELSE Run(Ask(s, "PUSH", "push"))
    [] x.st = "input" /\ x.inp = <<>> /\ x.eof -> Run(Ask(s, "QUIT", "quit"))
    [] x.st \in Reading /\ x.left = 0 /\ x.q # <<>> -> Run(Got(s, x.q[1]))
    [] x.st \in Reading /\ x.q = <<>> /\ x.peer # "up" -> Die(s)
    [] x.st = "bye" /\ (x.q # <<>> \/ x.part) -> Gone(s, IF x.done THEN "any" ELSE "1")
    [] x.st = "bye" /\ x.peer = "cn" -> Gone(s, IF x.done THEN "0" ELSE "1")
    [] x.st = "bye" /\ x.peer \in {"fin", "rst"} -> Die(s)
    [] OTHER -> s

Step(a, d) == LET r == Run([c |-> d, out |-> <<>>])
              IN act' = a /\ c' = r.c /\ obs' = [out |-> r.out, ex |-> r.c.ex]
Alive == c.st # "gone"
Hears == c.st \in Reading /\ c.left = 0

(* --- the server --- *)
Flight == c.st = "hs" /\ c.peer = "up" /\
  LET d == [c EXCEPT !.fl = @ - 1, !.idle = 0, !.part = FALSE]
      r == Run(IF d.fl > 0 THEN [c |-> d, out |-> <<>>] ELSE Ask([c |-> d, out |-> <<>>], "MOIN", "moin"))
  IN act' = <<"flight">> /\ c' = r.c /\ obs' = [out |-> r.out, ex |-> r.c.ex]
HsPart == c.st = "hs" /\ ~c.part /\ c.peer = "up" /\ Step(<<"hspart">>, [c EXCEPT !.part = TRUE, !.idle = 0])
HsFail == \E k \in {"wrongkey", "alert", "garbage"} :
  c.st = "hs" /\ ~c.part /\ (k = "wrongkey" => c.fl = c.all) /\ Step(<<"hsfail", k>>, [c EXCEPT !.st = "gone", !.ex = "1"])

Reply == \E r \in MoinReplies :
  /\ \/ Hears /\ c.q = <<>>
     \/ Early /\ c.st = "input" /\ c.q = <<>>
  /\ c.peer = "up"
  /\ c.st # "moin" => r \in Replies
  /\ Step(<<"reply", r, c.part>>, [c EXCEPT !.q = Append(@, r), !.part = FALSE])
(* two replies at once *)
Twice == \E r \in {"ok", "fail", "unexp"} :
  /\ Early /\ Hears /\ c.q = <<>> /\ c.peer = "up" /\ ~c.part
  /\ Step(<<"twice", r>>, [c EXCEPT !.q = <<"ok", r>>])
Part == /\ Hears /\ ~c.part /\ c.peer = "up"
        /\ Step(<<"part">>, [c EXCEPT !.part = TRUE, !.idle = 0])
Drain == /\ Alive /\ c.left > 0
         /\ LET d == [c EXCEPT !.left = @ - 1, !.idle = 0]
                r == Run([c |-> d, out |-> IF d.left = 0 THEN <<"DATA">> ELSE <<>>])
            IN act' = <<"drain">> /\ c' = r.c /\ obs' = [out |-> r.out, ex |-> r.c.ex]
Close == \E k \in {"cn", "fin", "rst", "garbage"} :
  /\ c.st \in Reading \cup {"bye", "input", "hs"} /\ c.peer = "up"
  /\ k = "garbage" => Hears
  /\ k \in {"rst", "garbage"} => c.q = <<>>
  /\ c.st = "hs" => k \in {"fin", "rst"}
  /\ IF c.st = "hs" THEN Step(<<"close", k>>, [c EXCEPT !.st = "gone", !.ex = "1"])
     ELSE Step(<<"close", k>>, [c EXCEPT !.peer = k])

(* --- the standard input --- *)
Record == \E k \in Recs : /\ Alive /\ c.nin < MaxRec /\ ~c.eof
                          /\ Step(<<"record", k>>, [c EXCEPT !.inp = Append(@, k), !.nin = @ + 1])
Eof == /\ Alive /\ ~c.eof /\ Step(<<"eof">>, [c EXCEPT !.eof = TRUE])

(* --- time --- *)
Tick == /\ Alive
        /\ c.st = "input" => (T = 0 \/ c.idle + 1 < T)      \* slow input is another matter
        /\ IF T > 0 /\ c.idle + 1 = T
           THEN LET r == Die([c |-> c, out |-> <<>>])
                IN act' = <<"tick">> /\ c' = r.c /\ obs' = [out |-> <<>>, ex |-> r.c.ex]
           ELSE Step(<<"tick">>, [c EXCEPT !.idle = IF T > 0 THEN @ + 1 ELSE 0])

Next == Flight \/ HsPart \/ HsFail \/ Reply \/ Twice \/ Part \/ Drain \/ Close \/ Record \/ Eof \/ Tick
Spec == Init /\ [][Next]_vars

(* --- what follows --- *)
Success == c.ex = "0" => /\ c.done /\ c.eof /\ c.inp = <<>> /\ c.sub = c.ack /\ ~c.refused
                         /\ c.ack = c.nin
Complete == (c.st = "bye" /\ c.done) => (c.ack = c.nin /\ c.eof)
LockStep == c.req - c.rep \in {0, 1}
ExitState == (c.st = "gone") = (c.ex # "run")
(* after a refusal nothing but the farewell *)
Silent == [][c.refused => obs'.out = <<>>]_vars
Patience == [][(T > 0 /\ act'[1] = "tick" /\ c.st # "gone") => (c'.st = "gone") = (c.idle = T - 1)]_vars
Forever == [][(T = 0 /\ act'[1] = "tick") => c'.st = c.st]_vars

View == <<c.st, c.all, c.fl, c.q, c.part, c.inp, c.nin, c.eof, c.idle, c.peer, c.left, c.done, c.ex>>
EmitEdge == Emit => PrintT("@e " \o ToJson(<<View, act', obs', View'>>))
EmitInit == TLCGet("level") = 1 /\ Emit => PrintT("@i " \o ToJson(View))
=================================================================================
