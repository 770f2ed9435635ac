-------------------------------- MODULE Regex -------------------------------
(* POSIX extended regular expressions as syntax trees: their meaning (the set  *)
(* of strings matched as a whole) and their text.                              *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Chars(s) == TLCEval([i \in 1..Len(s) |-> SubSeq(s, i, i)])

Lit(c)    == [op |-> "lit", c |-> c]
Dot       == [op |-> "any"]
NotIn(cs) == [op |-> "neg", cs |-> cs]
Star(x)   == [op |-> "star", x |-> x]
Plus(x)   == [op |-> "plus", x |-> x]
Opt(x)    == [op |-> "opt", x |-> x]
Cat(x, y) == [op |-> "cat", x |-> x, y |-> y]
Alt(x, y) == [op |-> "alt", x |-> x, y |-> y]

RECURSIVE CatAll(_)
CatAll(rs) == IF Len(rs) = 1 THEN rs[1] ELSE Cat(rs[1], CatAll(Tail(rs)))
Str(s) == CatAll([i \in 1..Len(s) |-> Lit(SubSeq(s, i, i))])

\* Positions at which a match of r beginning at position i of s can end.
RECURSIVE Ends(_, _, _), Closure(_, _, _)
Ends(r, s, i) ==
  CASE r.op = "lit"  -> IF i <= Len(s) /\ s[i] = r.c THEN {i + 1} ELSE {}
    [] r.op = "any"  -> IF i <= Len(s) THEN {i + 1} ELSE {}
    [] r.op = "neg"  -> IF i <= Len(s) /\ s[i] \notin r.cs THEN {i + 1} ELSE {}
    [] r.op = "cat"  -> UNION {Ends(r.y, s, j) : j \in Ends(r.x, s, i)}
    [] r.op = "alt"  -> Ends(r.x, s, i) \cup Ends(r.y, s, i)
    [] r.op = "opt"  -> {i} \cup Ends(r.x, s, i)
    [] r.op = "star" -> Closure(r.x, s, {i})
    [] r.op = "plus" -> Closure(r.x, s, Ends(r.x, s, i))
Closure(x, s, js) == LET more == js \cup UNION {Ends(x, s, j) : j \in js} IN
                     IF more = js THEN js ELSE Closure(x, s, more)

Matches(r, s) == (Len(s) + 1) \in Ends(r, s, 1)

Special == {".", "*", "+", "?", "(", ")", "[", "]", "{", "}", "|", "^", "$", "\\"}
RECURSIVE Text(_), SetText(_)
SetText(cs) == IF cs = {} THEN "" ELSE LET c == CHOOSE x \in cs : TRUE IN c \o SetText(cs \ {c})
Atom(x) == IF x.op \in {"lit", "any", "neg"} THEN Text(x) ELSE "(" \o Text(x) \o ")"
Term(x) == IF x.op = "alt" THEN "(" \o Text(x) \o ")" ELSE Text(x)
Text(r) ==
  CASE r.op = "lit"  -> IF r.c \in Special THEN "[" \o r.c \o "]" ELSE r.c
    [] r.op = "any"  -> "."
    [] r.op = "neg"  -> "[^" \o SetText(r.cs) \o "]"
    [] r.op = "cat"  -> Term(r.x) \o Term(r.y)
    [] r.op = "alt"  -> Text(r.x) \o "|" \o Text(r.y)
    [] r.op = "opt"  -> Atom(r.x) \o "?"
    [] r.op = "star" -> Atom(r.x) \o "*"
    [] r.op = "plus" -> Atom(r.x) \o "+"

\* All trees with at most n operators over the given leaves.
RECURSIVE Trees(_, _)
Trees(leaves, n) ==
  IF n = 0 THEN leaves
  ELSE LET t == Trees(leaves, n - 1) IN
       leaves \cup {Star(x) : x \in t} \cup {Plus(x) : x \in t} \cup {Opt(x) : x \in t}
       \cup UNION {{Cat(p[1], p[2]), Alt(p[1], p[2])} :
                   p \in (t \X leaves) \cup (leaves \X t)}

\* All strings over cs of the lengths in ns.
Strings(cs, ns) == UNION {[1..n -> cs] : n \in ns}
=============================================================================
