------------------------------- MODULE Framing ------------------------------
(* The server's view of the byte stream of one session (P05).                  *)
(*                                                                             *)
(* The stream is delivered in chunks of any size.  The receiver, a machine     *)
(* which only ever looks at the bytes it has got, answers complete request     *)
(* lines and complete pushed data.  What it answers is compared with what the  *)
(* whole stream means: however it is cut, the answers given so far are those   *)
(* to the requests which are complete in the bytes delivered so far.           *)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS Streams,    \* sequence of byte sequences
          Sizes       \* chunk sizes (the rest of the stream is always possible)

VARIABLES n, str,     \* the stream and its number
          pos,        \* bytes delivered
          buf,        \* bytes delivered but not consumed
          ph,         \* "pre", "conn", "data", "closed"
          need,       \* bytes awaited if ph = "data"
          out         \* replies so far

vars == <<n, str, pos, buf, ph, need, out>>

LF == 10  CR == 13  SP == 32
Upper(c) == IF c \in 97..122 THEN c - 32 ELSE c

IndexOf(s, c) == IF \E i \in DOMAIN s : s[i] = c
                 THEN CHOOSE i \in DOMAIN s : s[i] = c /\ \A j \in 1..(i - 1) : s[j] # c
                 ELSE 0
From(s, i) == SubSeq(s, i, Len(s))

RECURSIVE Words(_)
Words(s) == LET k == IndexOf(s, SP) IN
            IF k = 0 THEN IF s = <<>> THEN <<>> ELSE <<s>>
            ELSE (IF k = 1 THEN <<>> ELSE <<SubSeq(s, 1, k - 1)>>) \o Words(From(s, k + 1))

RECURSIVE Value(_)
Value(s) == IF s = <<>> THEN 0 ELSE 10 * Value(SubSeq(s, 1, Len(s) - 1)) + (s[Len(s)] - 48)
Number(s) == IF s # <<>> /\ \A i \in DOMAIN s : s[i] \in 48..57 THEN Value(s) ELSE 0

MOIN == <<77,79,73,78>>  PING == <<80,73,78,71>>  PUSH == <<80,85,83,72>>
NOOP == <<78,79,79,80>>  QUIT == <<81,85,73,84>>  BAIL == <<66,65,73,76>>

\* "[digits] A...", a single line: what the test client may submit
Good(d) == LET k == IndexOf(d, 93) IN
           /\ d # <<>> /\ d[1] = 91 /\ k > 2 /\ Len(d) > k + 2
           /\ \A i \in 2..(k - 1) : d[i] \in 48..57
           /\ d[k + 1] = SP /\ d[k + 2] = 65
           /\ IndexOf(d, LF) = Len(d)

To(p, m, r) == [ph |-> p, need |-> m, r |-> r]
\* s: ph, need, unconsumed bytes, replies, forwarded data
\* (their lengths and the number of unconsumed bytes behind them)
ReactLine(p, line) ==
  LET l == IF line # <<>> /\ line[Len(line)] = CR THEN SubSeq(line, 1, Len(line) - 1) ELSE line
      w == Words(l)
      kw == IF w = <<>> THEN <<>> ELSE [i \in DOMAIN w[1] |-> Upper(w[1][i])]
  IN CASE kw = QUIT -> To("closed", 0, <<"OKAY">>)
       [] kw = BAIL -> To("closed", 0, <<>>)
       [] kw = MOIN /\ p = "pre"  -> IF Len(w) = 3 /\ Number(w[2]) > 0 THEN To("conn", 0, <<"MOIN 1">>)
                                     ELSE To("pre", 0, <<"FAIL">>)
       [] kw = PING /\ p = "pre"  -> To("closed", 0, <<"PONG 1">>)
       [] kw = NOOP /\ p = "conn" -> To("conn", 0, <<"OKAY">>)
       [] kw = PUSH /\ p = "conn" -> IF Len(w) = 2 /\ Number(w[2]) \in 1..16384
                                     THEN To("data", Number(w[2]), <<"OKAY">>)
                                     ELSE To("conn", 0, <<"FAIL">>)
       [] OTHER -> To(p, 0, <<"FAIL">>)
ReactData(d) == To("conn", 0, IF Good(d) THEN <<"OKAY">> ELSE <<"FAIL">>)

-----------------------------------------------------------------------------
\* The receiver: consume everything that is complete.
Step(s, t, used, f) == [ph |-> t.ph, need |-> t.need, buf |-> From(s.buf, used + 1),
                        out |-> s.out \o t.r, fwd |-> s.fwd \o f]
RECURSIVE Consume(_)
Consume(s) ==
  CASE s.ph = "closed" -> [s EXCEPT !.buf = <<>>]
    [] s.ph = "data" ->
         IF Len(s.buf) < s.need THEN s
         ELSE LET d == TLCEval(SubSeq(s.buf, 1, s.need))
                  t == TLCEval(ReactData(d))
              IN Consume(TLCEval(Step(s, t, s.need, IF t.r = <<"OKAY">> THEN <<[len |-> s.need, behind |-> Len(s.buf) - s.need]>> ELSE <<>>)))
    [] OTHER ->
         LET k == TLCEval(IndexOf(s.buf, LF)) IN
         IF k = 0 THEN s
         ELSE Consume(TLCEval(Step(s, ReactLine(s.ph, TLCEval(SubSeq(s.buf, 1, k - 1))), k, <<>>)))

Start  == [ph |-> "pre", need |-> 0, buf |-> <<>>, out |-> <<>>, fwd |-> <<>>]
Meaning(m) == Consume(TLCEval([Start EXCEPT !.buf = SubSeq(str, 1, m)]))

Init == /\ n \in DOMAIN Streams /\ str = Streams[n]
        /\ pos = 0 /\ ph = "pre" /\ need = 0 /\ buf = <<>> /\ out = <<>>

Deliver(k) == \E t \in {Consume([ph |-> ph, need |-> need, buf |-> buf \o SubSeq(str, pos + 1, pos + k), out |-> out,
                                   fwd |-> <<>>])} :
              /\ pos' = pos + k
              /\ ph' = t.ph /\ need' = t.need /\ buf' = t.buf /\ out' = t.out
              /\ UNCHANGED <<n, str>>
              /\ PrintT("@E " \o ToJson(<<[n |-> n, pos |-> pos],
                                          [k |-> k, r |-> From(t.out, Len(out) + 1), fwd |-> t.fwd, closed |-> t.ph = "closed"],
                                          [n |-> n, pos |-> pos']>>))

Next == /\ ph # "closed"
        /\ \E k \in Sizes \cup {Len(str) - pos} : k > 0 /\ pos + k <= Len(str) /\ Deliver(k)
Spec == Init /\ [][Next]_vars

\* P05: the state depends on the bytes delivered alone, not on the chunks.
CutsDontMatter == LET m == TLCEval(Meaning(pos)) IN
                  /\ out = m.out
                  /\ ph = m.ph /\ need = m.need
                  /\ ph # "closed" => buf = m.buf
NothingLost == ph # "closed" => Len(buf) <= pos
\* A distinct state per position: the graph has one node per offset.
=============================================================================
