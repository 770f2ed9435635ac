----------------------------- MODULE CommandForm ----------------------------
(* Which byte strings a client may push as one monitoring command (P03).       *)
(* States are byte strings; an action appends, inserts, deletes or replaces a  *)
(* byte, so TLC enumerates all short strings over the critical bytes and all   *)
(* strings close to realistic commands.                                        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Seeds,      \* initial strings
          Alphabet,   \* bytes used by edits
          MaxLen,     \* Append only up to this length
          Edits       \* maximal number of insertions, deletions, replacements

VARIABLES s, edits

NL == 10  CR == 13  NUL == 0  Open == 91  Close == 93
Digits == 48..57

IndexOf(x, c) == IF \E i \in DOMAIN x : x[i] = c
                 THEN CHOOSE i \in DOMAIN x : x[i] = c /\ \A j \in 1..(i-1) : x[j] # c
                 ELSE 0
Count(x, c) == Cardinality({i \in DOMAIN x : x[i] = c})

OneLine(x)     == x # <<>> /\ x[Len(x)] = NL /\ Count(x, NL) = 1
NoNul(x)       == Count(x, NUL) = 0
Bracketed(x)   == x # <<>> /\ x[1] = Open /\ IndexOf(x, Close) > 0
\* A timestamp proper: [digits]
Timestamped(x) == Bracketed(x) /\ IndexOf(x, Close) > 2
                  /\ \A i \in 2..(IndexOf(x, Close) - 1) : x[i] \in Digits

\* Acceptable at all?
MayAccept(x)  == OneLine(x) /\ NoNul(x) /\ Bracketed(x)
\* Must a client authorized to submit any command be able to submit this?
MustAccept(x) == MayAccept(x) /\ Timestamped(x) /\ Count(x, CR) = 0
                 /\ Len(x) > IndexOf(x, Close) + 1

Verdict(x) == IF MustAccept(x) THEN "accept" ELSE IF MayAccept(x) THEN "either" ELSE "refuse"

\* What the monitoring process sees: it reads lines and handles them as C strings.
RECURSIVE LinesSeen(_)
LinesSeen(x) == LET i == IndexOf(x, NL) IN
                IF i = 0 THEN (IF x = <<>> THEN <<>> ELSE <<x>>)
                ELSE <<SubSeq(x, 1, i)>> \o LinesSeen(SubSeq(x, i + 1, Len(x)))
CString(x) == LET i == IndexOf(x, NUL) IN IF i = 0 THEN x ELSE SubSeq(x, 1, i - 1)

Emit == PrintT("@S " \o ToJson(<<s, Verdict(s)>>))

Init == s \in Seeds /\ edits = 0

Ins(x, i, b) == SubSeq(x, 1, i - 1) \o <<b>> \o SubSeq(x, i, Len(x))
Del(x, i)    == SubSeq(x, 1, i - 1) \o SubSeq(x, i + 1, Len(x))

Extend  == Len(s) < MaxLen /\ UNCHANGED edits /\ \E b \in Alphabet : s' = Append(s, b)
Insert  == edits < Edits /\ edits' = edits + 1 /\ \E i \in 1..(Len(s) + 1), b \in Alphabet : s' = Ins(s, i, b)
Delete  == edits < Edits /\ edits' = edits + 1 /\ \E i \in DOMAIN s : s' = Del(s, i)
Replace == edits < Edits /\ edits' = edits + 1 /\ \E i \in DOMAIN s, b \in Alphabet : s' = [s EXCEPT ![i] = b]

Next == Extend \/ Insert \/ Delete \/ Replace
Spec == Init /\ [][Next]_<<s, edits>>

\* The property: whatever may be accepted is one complete line, and the
\* monitoring process sees nothing else than what authorization saw.
SingleLine == MayAccept(s) => LinesSeen(s) = <<s>> /\ CString(s) = s
Printed == Emit
View == s
=============================================================================
