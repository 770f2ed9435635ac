------------------------------- MODULE ServerConf -------------------------------
(* The server's settings (P17): a command line, and a configuration spread over
   files and directories.  The state is a configuration under construction;
   Run starts the server with it and states what must come of it.

   Node 0 is what -c refers to.  A directory stands for its files with a fitting
   name, in any order, and those of its subdirectories; an include directive for
   what it refers to.  A later assignment wins; the command line wins over both. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Settings, Options,    \* names; those which have an option
          Values,               \* numbers of values
          Fragile,              \* settings of which value 3 is unusable
          Ids,                  \* identities
          Errors,               \* kinds of errors: statements, and what is wrong around them
          N,                    \* number of further files and directories
          MaxLen, MaxOpts, Goals, Emit
VARIABLES opts,     \* options in order: <<setting, value>>
          node,     \* 0..N -> [kind, dir, use, link]
          body,     \* statements of each file
          usage,    \* the command line itself is in error
          goal,     \* editing steps to go
          done, res
vars == <<opts, node, body, usage, goal, done, res>>

Nodes == 0..N
Absent == [kind |-> "none", dir |-> -1, use |-> TRUE, link |-> FALSE]
Files == {n \in Nodes : node[n].kind = "file"}
Dirs == {n \in Nodes : node[n].kind = "dir"}

Init == /\ goal \in Goals /\ opts = <<>> /\ usage = FALSE /\ done = FALSE /\ res = <<>>
        /\ body = [n \in Nodes |-> <<>>]
        /\ \E k \in {"file", "dir"} : node = [n \in Nodes |-> IF n = 0 THEN [Absent EXCEPT !.kind = k] ELSE Absent]

(* a directory's files are below it; others are elsewhere (dir = -1) *)
AddNode == \E n \in Nodes \ {0}, k \in {"file", "dir"}, d \in Dirs \cup {-1}, u, l \in BOOLEAN :
  /\ node[n].kind = "none" /\ \A m \in 1..(n - 1) : node[m].kind # "none"
  /\ (k = "dir" \/ d = -1) => u     \* a name does not matter for those
  /\ (d = -1) => ~l
  /\ node' = [node EXCEPT ![n] = [kind |-> k, dir |-> d, use |-> u, link |-> l]]
  /\ UNCHANGED <<opts, body, usage>>

Stmts == {<<"set", s, v>> : s \in Settings, v \in Values} \cup {<<"block", i, p>> : i \in Ids, p \in BOOLEAN}
         \cup {<<"password">>} \cup {<<"include", n>> : n \in {m \in Nodes : node[m].kind # "none"}} \cup {<<"error", e>> : e \in Errors}

AddStmt == \E n \in Files, s \in Stmts :
  /\ Len(body[n]) < MaxLen
  /\ body' = [body EXCEPT ![n] = Append(@, s)]
  /\ UNCHANGED <<opts, node, usage>>

AddOpt == \E s \in Options, v \in Values :
  /\ Len(opts) < MaxOpts /\ opts' = Append(opts, <<s, v>>) /\ UNCHANGED <<node, body, usage>>

Misuse == ~usage /\ Errors # {} /\ usage' = TRUE /\ UNCHANGED <<opts, node, body>>

(* ---- meaning ---- *)
Perms(S) == {f \in [1..Cardinality(S) -> S] : \A a, b \in 1..Cardinality(S) : a # b => f[a] # f[b]}
Children(n) == {m \in Nodes : node[m].dir = n /\ (node[m].kind = "dir" \/ node[m].use)}
Cat(A, B) == {a \o b : a \in A, b \in B}

RECURSIVE Flat(_, _), FlatBody(_, _, _), FlatAll(_, _, _)
(* set of the sequences of statements node n may stand for; up: nodes being read *)
Flat(n, up) ==
  IF n \in up THEN {<< <<"error", "loop">> >>}
  ELSE IF node[n].kind = "file" THEN FlatBody(n, 1, up \cup {n})
  ELSE UNION {FlatAll(p, 1, up \cup {n}) : p \in Perms(Children(n))}
FlatBody(n, i, up) ==
  IF i > Len(body[n]) THEN {<<>>}
  ELSE Cat(IF body[n][i][1] = "include" THEN Flat(body[n][i][2], up) ELSE {<<body[n][i]>>}, FlatBody(n, i + 1, up))
FlatAll(p, i, up) == IF i > Len(p) THEN {<<>>} ELSE Cat(Flat(p[i], up), FlatAll(p, i + 1, up))

Has(f, P(_)) == \E i \in 1..Len(f) : P(f[i])
Last(q, P(_)) == LET S == {i \in 1..Len(q) : P(q[i])} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : j <= i
Dup(f) == \E i, j \in 1..Len(f) : i < j /\ f[i][1] = "block" /\ f[j][1] = "block" /\ f[i][2] = f[j][2]
Effective(f, s) ==
  LET o == IF s \in Options THEN Last(opts, LAMBDA x : x[1] = s) ELSE 0
      c == Last(f, LAMBDA x : x[1] = "set" /\ x[2] = s)
  IN IF o > 0 THEN opts[o][2] ELSE IF c > 0 THEN f[c][3] ELSE 0      \* 0: the default

(* what is wrong *)
Reasons(f) ==
  (IF usage THEN {"usage"} ELSE {})
  \cup {f[i][2] : i \in {j \in 1..Len(f) : f[j][1] = "error"}}
  \cup (IF Has(f, LAMBDA s : s[1] = "block") THEN {} ELSE {"no block"})
  \cup (IF Dup(f) THEN {"duplicate"} ELSE {})
  \cup (IF ~Has(f, LAMBDA s : s[1] = "password") /\ Has(f, LAMBDA s : s[1] = "block" /\ ~s[3]) THEN {"no password"} ELSE {})
  \cup {s \in Fragile : Effective(f, s) = 3}

Outcome(f) == IF Reasons(f) = {}
              THEN [ok |-> TRUE, why |-> {}, eff |-> [s \in Settings |-> Effective(f, s)],
                    ids |-> {<<f[i][2], f[i][3]>> : i \in {j \in 1..Len(f) : f[j][1] = "block"}}]
              ELSE [ok |-> FALSE, why |-> Reasons(f), eff |-> <<>>, ids |-> {}]

Run == /\ ~done /\ goal = 0
       /\ done' = TRUE
       /\ LET O == {Outcome(f) : f \in Flat(0, {})}
          IN res' = IF Cardinality(O) = 1 THEN CHOOSE o \in O : TRUE ELSE <<>>      \* not determined
       /\ UNCHANGED <<opts, node, body, usage, goal>>

Edit == ~done /\ goal > 0 /\ goal' = goal - 1 /\ UNCHANGED <<done, res>> /\ (AddNode \/ AddStmt \/ AddOpt \/ Misuse)
Next == Edit \/ Run
Spec == Init /\ [][Next]_vars

(* ---- what it means ---- *)
Ran == done /\ res # <<>>
OptionsWin == Ran /\ res.ok => \A i \in 1..Len(opts) : (\A j \in (i + 1)..Len(opts) : opts[j][1] # opts[i][1]) => res.eff[opts[i][1]] = opts[i][2]
Unmentioned == Ran /\ res.ok => \A s \in Settings :
  (~\E i \in 1..Len(opts) : opts[i][1] = s) /\ (~\E n \in Files : \E i \in 1..Len(body[n]) : body[n][i][1] = "set" /\ body[n][i][2] = s) => res.eff[s] = 0
Known == Ran /\ res.ok => res.ids # {} /\ \A x \in res.ids : \E n \in Files : \E i \in 1..Len(body[n]) : body[n][i] = <<"block", x[1], x[2]>>

EmitCase == Emit /\ done /\ res # <<>> =>
  PrintT("@c " \o ToJson([opts |-> opts, node |-> [n \in 1..(N + 1) |-> node[n - 1]], body |-> [n \in 1..(N + 1) |-> body[n - 1]], usage |-> usage, res |-> res]))
================================================================================
