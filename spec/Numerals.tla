------------------------------ MODULE Numerals ------------------------------
(* Decimal numbers of any size, as sequences of digits: the wire carries      *)
(* text, and TLC's integers are 32 bits wide.                                 *)
EXTENDS Naturals, Sequences

RECURSIVE Strip(_), LexLe(_, _), ToDigits(_), ToText(_)

Strip(d) == IF d # <<>> /\ Head(d) = 0 THEN Strip(Tail(d)) ELSE d

LexLe(a, b) == IF a = <<>> THEN TRUE
               ELSE IF Head(a) = Head(b) THEN LexLe(Tail(a), Tail(b))
               ELSE Head(a) < Head(b)

Le(x, y) == LET a == Strip(x) b == Strip(y) IN
            \/ Len(a) < Len(b)
            \/ Len(a) = Len(b) /\ LexLe(a, b)

Positive(x) == Strip(x) # <<>>

ToDigits(n) == IF n < 10 THEN <<n>> ELSE Append(ToDigits(n \div 10), n % 10)

DigitChar == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
ToText(d) == IF d = <<>> THEN "" ELSE DigitChar[Head(d) + 1] \o ToText(Tail(d))
=============================================================================
