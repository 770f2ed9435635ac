------------------------------- MODULE Session ------------------------------
(* One NSCA-ng session as the server has to conduct it (PROTOCOL, version 1).  *)
(*                                                                             *)
(* A request is a keyword and a sequence of arguments; how keywords are        *)
(* capitalised, which blanks separate the words and whether the line ends in   *)
(* LF or CRLF is chosen freely when a behaviour is replayed, since none of it  *)
(* may matter.  Pushed data are abstracted to their announced size and to      *)
(* whether they are an authorized, well-formed command (modules CommandForm    *)
(* and Auth decide that).                                                      *)
EXTENDS Numerals, TLC, Json

CONSTANTS Limit,      \* max_command_size as a digit sequence; <<0>>: none
          Sizes,      \* announced sizes: [neg: BOOLEAN, d: Seq(0..9)]
          Texts,      \* arguments of PUSH that are no numbers
          Versions,   \* protocol versions offered, same form as Sizes
          LineLens,   \* lengths of unparsable request lines
          MinGood,    \* no authorized command is shorter than this
          MaxData,    \* data of larger announced sizes are not sent in full
          Core        \* TRUE: only a small alphabet (for deep enumeration)

VARIABLES ph,         \* "pre" before MOIN, "conn", "data", "closed"
          need,       \* announced size while ph = "data"
          reply       \* replies to the last input

vars == <<ph, need, reply>>

Accepts(n) == /\ ~n.neg /\ Positive(n.d)
              /\ \/ ~Positive(Limit)
                 \/ Le(n.d, Limit)

\* Sizes which need not be supported even if no limit is configured.
Huge(n) == ~n.neg /\ ~Le(n.d, <<2,1,4,7,4,8,3,6,4,6>>)

NumText(n) == (IF n.neg THEN "-" ELSE "") \o ToText(n.d)

Req(kw, args) == [op |-> "req", kw |-> kw, args |-> args]
Line(n)       == [op |-> "line", len |-> n]
Endless       == [op |-> "endless"]
Data(k)       == [op |-> "data", kind |-> k]

-----------------------------------------------------------------------------
\* What a request does: the set of [ph, need, reply] allowed.
To(p, n, r) == [ph |-> p, need |-> n, reply |-> r]
Fail(p) == {To(p, <<>>, <<"FAIL">>)}

Moin(args) == IF Len(args) = 2 /\ args[1].num /\ ~args[1].n.neg /\ Positive(args[1].n.d)
              THEN {To("conn", <<>>, <<"MOIN 1">>)}
              ELSE Fail("pre")

Push(args) == IF Len(args) # 1 THEN Fail("conn")
              ELSE IF ~args[1].num THEN Fail("conn")
              ELSE LET n == args[1].n IN
                   IF ~Accepts(n) THEN Fail("conn")
                   ELSE {To("data", n.d, <<"OKAY">>)} \cup (IF Huge(n) THEN Fail("conn") ELSE {})

React(p, r) ==
  CASE r.kw = "QUIT" -> {To("closed", <<>>, <<"OKAY">>)}
    [] r.kw = "BAIL" -> {To("closed", <<>>, <<>>)}
    [] r.kw = "MOIN" /\ p = "pre"  -> Moin(r.args)
    [] r.kw = "PING" /\ p = "pre"  -> {To("closed", <<>>, <<"PONG 1">>)}
    [] r.kw = "NOOP" /\ p = "conn" -> {To("conn", <<>>, <<"OKAY">>)}
    [] r.kw = "PUSH" /\ p = "conn" -> Push(r.args)
    [] OTHER -> Fail(p)

-----------------------------------------------------------------------------
Num(n)  == [num |-> TRUE, n |-> n, text |-> NumText(n)]
Word(t) == [num |-> FALSE, text |-> t]
Id      == Word("Zm9vYmFy")
One     == Num([neg |-> FALSE, d |-> <<1>>])

CoreReqs ==
  {Req("MOIN", <<One, Id>>), Req("MOIN", <<One>>), Req("PING", <<One>>), Req("NOOP", <<>>),
   Req("QUIT", <<>>), Req("BAIL", <<Word("I'm"), Word("feeling"), Word("bad")>>),
   Req("PUSH", <<>>), Req("HELO", <<>>)}
  \cup {Req("PUSH", <<Num(n)>>) : n \in Sizes}

AllReqs == CoreReqs
  \cup {Req("MOIN", <<>>), Req("MOIN", <<Id, Id>>), Req("MOIN", <<One, Id, Id>>), Req("BAIL", <<Word("x")>>),
        Req("PUSH", <<One, One>>), Req("HELP", <<One>>), Req("OKAY", <<>>), Req("FAIL", <<Id>>), Req("", <<>>),
        Req("X", <<>>), Req("NOO", <<>>), Req("[1]", <<Word("CMD")>>)}
  \cup {Req("MOIN", <<Num(v), Id>>) : v \in Versions}
  \cup {Req("PUSH", <<Word(t)>>) : t \in Texts}

Reqs == IF Core THEN CoreReqs ELSE AllReqs

TypeOK == /\ ph \in {"pre", "conn", "data", "closed"}
          /\ (ph = "data") = (need # <<>>)

Init == ph = "pre" /\ need = <<>> /\ reply = <<>>

Set(s) == ph' = s.ph /\ need' = s.need /\ reply' = s.reply

Emit(a) == PrintT("@E " \o ToJson(<<[ph |-> ph, need |-> ToText(need)], [a |-> a, reply |-> reply'],
                                    [ph |-> ph', need |-> ToText(need')]>>))

Request == \E r \in Reqs : /\ ph \in {"pre", "conn"}
                           /\ \E s \in React(ph, r) : Set(s)
                           /\ Emit(r)

\* A request line that is no request, of the given length.
LongLine == \E n \in LineLens : /\ ph \in {"pre", "conn"}
                                /\ Set(To(ph, <<>>, <<"FAIL">>))
                                /\ Emit(Line(n))

\* A line without an end: the server gives up on it within a few kilobytes.
EndlessLine == /\ ~Core
               /\ ph \in {"pre", "conn"}
               /\ Set(To("closed", <<>>, <<"BAIL">>))
               /\ Emit(Endless)

\* Exactly the announced number of bytes.
PushData == \E k \in {"good", "unauthorized", "unterminated"} :
              /\ ph = "data"
              /\ Le(need, MaxData)
              /\ k = "good" => Le(MinGood, need)
              /\ Set(To("conn", <<>>, IF k = "good" THEN <<"OKAY">> ELSE <<"FAIL">>))
              /\ Emit(Data(k))

\* One byte less than announced: nothing may happen yet.
PartData == /\ ph = "data"
            /\ Set(To("closed", <<>>, <<>>))
            /\ Emit([op |-> "short"])

Next == Request \/ LongLine \/ EndlessLine \/ PushData \/ PartData

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* P04: exactly one reply per request, except BAIL and data that are incomplete.
OneReply == [][Len(reply') <= 1]_vars
\* P06: data are only awaited within the limit.
Bounded == ph = "data" => Positive(need) /\ (Positive(Limit) => Le(need, Limit))
\* A session never returns to the state before MOIN, nor from closed.
Forward == [][/\ (ph = "closed" => UNCHANGED ph)
              /\ (ph \in {"conn", "data"} => ph' # "pre")]_vars
EmitInit == (ph = "pre" /\ reply = <<>>) => TRUE
=============================================================================
