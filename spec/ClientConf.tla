------------------------------ MODULE ClientConf ------------------------------
(* send_nsca's configuration file (C05), read letter by letter:
     "i" the word identity   "p" the word password   "a" other text
     "e" =     "q" "     "s" '     "b" \     "h" #     "w" blanks     "N" line end
   A value is the sequence of the positions of the letters it consists of. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS L,
          Strict,   \* no erroneous files
          Emit

VARIABLES text, st
vars == <<text, st>>
Letters == {"i", "p", "a", "e", "q", "s", "b", "h", "w", "N"}

(* lex   where we are; "err" for good
   pend  a backslash has been read which may turn out to be a continuation
   set   the settings made so far; none: <<0>>
   open  the manual does not say what this means *)
None == <<0>>
Fresh == [lex |-> "start", pend |-> FALSE, key |-> <<>>, val |-> <<>>, set |-> [i |-> None, p |-> None], open |-> FALSE]

Good(t, k) == Len(k) = 1 /\ t[k[1]] \in {"i", "p"}
To(c, l) == [c EXCEPT !.lex = l]
Add(c, l, n) == [c EXCEPT !.lex = l, !.val = Append(@, n)]
Save(t, c, l) == [c EXCEPT !.lex = l, !.set[t[c.key[1]]] = c.val, !.key = <<>>, !.val = <<>>]

(* letter x at position n, no continuation *)
Read(t, c, x, n) ==
  CASE c.lex = "err" -> c
    [] c.lex = "start" -> CASE x \in {"w", "N"} -> c
                            [] x = "h" -> To(c, "comment")
                            [] x = "e" -> To(c, "err")
                            [] OTHER -> [c EXCEPT !.lex = "key", !.key = <<n>>]
    [] c.lex = "key" -> CASE x = "w" -> To(c, IF Good(t, c.key) THEN "equals" ELSE "err")
                          [] x = "e" -> To(c, IF Good(t, c.key) THEN "value" ELSE "err")
                          [] x = "N" -> To(c, "err")
                          [] OTHER -> [c EXCEPT !.key = Append(@, n)]
    [] c.lex = "equals" -> CASE x = "w" -> c
                             [] x = "e" -> To(c, "value")
                             [] OTHER -> To(c, "err")
    [] c.lex = "value" -> CASE x = "w" -> c
                            [] x \in {"h", "N"} -> To(c, "err")
                            [] x = "q" -> To(c, "double")
                            [] x = "s" -> To(c, "single")
                            [] x = "b" -> To(c, "bareesc")
                            [] OTHER -> Add(c, "bare", n)
    [] c.lex = "bare" -> CASE x = "w" -> To(c, "after")
                           [] x = "h" -> Save(t, c, "comment")
                           [] x = "N" -> Save(t, c, "start")
                           [] x = "b" -> To(c, "bareesc")
                           [] x \in {"q", "s"} -> [Add(c, "bare", n) EXCEPT !.open = TRUE]
                           [] OTHER -> Add(c, "bare", n)
    [] c.lex = "double" -> CASE x = "q" -> To(c, "after")
                             [] x = "b" -> To(c, "doubleesc")
                             [] x = "N" -> [Save(t, c, "start") EXCEPT !.open = TRUE]
                             [] OTHER -> Add(c, "double", n)
    [] c.lex = "single" -> CASE x = "s" -> To(c, "after")
                             [] x = "b" -> To(c, "singleesc")
                             [] x = "N" -> [Save(t, c, "start") EXCEPT !.open = TRUE]
                             [] OTHER -> Add(c, "single", n)
    [] c.lex = "bareesc" -> [Add(c, "bare", n) EXCEPT !.open = @ \/ x = "N"]
    [] c.lex = "doubleesc" -> [Add(c, "double", n) EXCEPT !.open = @ \/ x = "N"]
    [] c.lex = "singleesc" -> [Add(c, "single", n) EXCEPT !.open = @ \/ x = "N"]
    [] c.lex = "after" -> CASE x = "w" -> c
                            [] x = "h" -> Save(t, c, "comment")
                            [] x = "N" -> Save(t, c, "start")
                            [] OTHER -> To(c, "err")
    [] c.lex = "comment" -> IF x = "N" THEN To(c, "start") ELSE c

Settle(t, c) == IF c.pend THEN Read(t, [c EXCEPT !.pend = FALSE], "b", Len(t)) ELSE c
(* t: the text before x *)
Step(t, c, x) ==
  LET n == Len(t) + 1
      u == Append(t, x)
  IN CASE c.pend /\ x = "N" -> [c EXCEPT !.pend = FALSE]
       [] x = "b" -> [Settle(t, c) EXCEPT !.pend = TRUE]
       [] OTHER -> Read(u, Settle(t, c), x, n)

(* at the end of the file: <<"ok", identity, password>>, <<"err">> or <<"open">> *)
End(t, c0) ==
  LET c == Settle(t, c0)
      v == IF c.lex \in {"bare", "after"} THEN Save(t, c, "start") ELSE c
  IN IF c.open \/ c.lex \in {"double", "single", "doubleesc", "singleesc", "bareesc"} THEN <<"open">>
     ELSE IF c.lex \in {"err", "key", "equals", "value"} THEN <<"err">>
     ELSE <<"ok", v.set.i, v.set.p>>

Doomed == st.lex = "key" /\ ~ Good(text, st.key)
Init == text = <<>> /\ st = Fresh
Next == \E x \in Letters :
  /\ Len(text) < L /\ st.lex # "err" /\ ~st.open
  /\ Doomed => x \in {"e", "w", "N"}
  /\ text' = Append(text, x) /\ st' = Step(text, st, x)
  /\ Strict => st'.lex # "err" /\ ~st'.open /\ (st'.lex = "key" => Good(text', st'.key))
Spec == Init /\ [][Next]_vars

RECURSIVE Run(_, _, _)
Run(t, c, n) == IF n > Len(t) THEN c ELSE Run(t, Step(SubSeq(t, 1, n - 1), c, t[n]), n + 1)
Outcome(t) == End(t, Run(t, Fresh, 1))

(* a backslash at the end of a line, and the line end, might as well not be there *)
Shift(v, n) == IF v = None THEN v ELSE [i \in DOMAIN v |-> IF v[i] >= n THEN v[i] + 2 ELSE v[i]]
ShiftAll(o, n) == IF o[1] # "ok" THEN o ELSE <<"ok", Shift(o[2], n), Shift(o[3], n)>>
Splice == \A n \in 0 .. Len(text) :
  LET t == SubSeq(text, 1, n) \o <<"b", "N">> \o SubSeq(text, n + 1, Len(text))
  IN n = 0 \/ text[n] # "b" => Outcome(t) = ShiftAll(Outcome(text), n + 1)
(* nor an empty line or a comment between two lines *)
Neutral == \A n \in 0 .. Len(text) :
  (n = 0 \/ (text[n] = "N" /\ (n = 1 \/ text[n - 1] # "b"))) =>
    \A m \in {<<"w", "N">>, <<"h", "N">>} :
      Outcome(SubSeq(text, 1, n) \o m \o SubSeq(text, n + 1, Len(text))) = ShiftAll(Outcome(text), n + 1)
(* values consist of letters of the text, in order; a special one is quoted somehow *)
Values == LET o == End(text, st) IN o[1] = "ok" => \A v \in {o[2], o[3]} \ {None} :
  /\ \A i, j \in DOMAIN v : i < j => v[i] < v[j]
  /\ \A i \in DOMAIN v : text[v[i]] # "N" /\ (text[v[i]] = "b" => v[i] > 1 /\ \E k \in 1 .. v[i] - 1 : text[k] = "b")
(* the last setting counts: what comes before a complete line for the same variable does not matter *)
LastWins == LET o == Outcome(text) IN o[1] = "ok" =>
  LET p == <<"i", "e", "a", "N">>
      x == Outcome(p \o text)
  IN x[1] = "ok" /\ x[2] = (IF o[2] = None THEN <<3>> ELSE [i \in DOMAIN o[2] |-> o[2][i] + 4])

EmitText == (Emit /\ (Strict => Len(text) = L)) => PrintT("@s " \o ToJson(<<text, End(text, st)>>))
================================================================================
