-------------------------------- MODULE Auth --------------------------------
(* Authentication and authorization of clients (P01, P02).                     *)
(*                                                                             *)
(* A configuration is a set of global settings and of titled blocks, each a    *)
(* function from some of the settings "password", "commands", "hosts",         *)
(* "services" to a value: a string, or a sequence of patterns (Regex; a        *)
(* services pattern is a pair of a service pattern and <<>> or <<host          *)
(* pattern>>).  Commands are sequences of characters without the timestamp     *)
(* and the newline.                                                            *)
EXTENDS Regex, Json, SequencesExt

CONSTANTS Configs,    \* sequence of [glob, blocks]
          Identities, Keys, Commands, \* sequence of commands
          Part        \* "conf" or "grant": which of the two searches below

VARIABLES cn,         \* number of the configuration
          ident,      \* claimed identity, "" if no client is connected
          sess,       \* is there a session?
          verdicts    \* for each command what becomes of it

vars == <<cn, ident, sess, verdicts>>

-----------------------------------------------------------------------------
Cfs == TLCEval(Configs)
cf  == Cfs[cn]

\* The block that applies to an identity: <<>> or <<block>>.
Block(c, i) == IF i \in DOMAIN c.blocks THEN <<c.blocks[i]>>
               ELSE IF "*" \in DOMAIN c.blocks THEN <<c.blocks["*"]>>
               ELSE <<>>

\* The value of a setting of a block: <<>> or <<value>>.
Setting(c, b, s) == IF s \in DOMAIN b THEN <<b[s]>>
                    ELSE IF s \in DOMAIN c.glob THEN <<c.glob[s]>>
                    ELSE <<>>

Usable(c) == /\ DOMAIN c.blocks # {}
             /\ \A i \in DOMAIN c.blocks : Setting(c, c.blocks[i], "password") # <<>>

Authentic(c, i, key) == LET b == Block(c, i) IN
                        /\ b # <<>>
                        /\ key # ""
                        /\ Setting(c, b[1], "password") = <<key>>

-----------------------------------------------------------------------------
RECURSIVE Split(_)
Split(s) == LET semi == {i \in DOMAIN s : s[i] = ";"} IN
            IF semi = {} THEN <<s>>
            ELSE LET k == CHOOSE i \in semi : \A j \in semi : i <= j IN
                 <<SubSeq(s, 1, k - 1)>> \o Split(SubSeq(s, k + 1, Len(s)))

Cmds      == TLCEval(Commands)
CmdFields == TLCEval([k \in DOMAIN Cmds |-> TLCEval(Split(Cmds[k]))])
PHCR == Chars("PROCESS_HOST_CHECK_RESULT")
PSCR == Chars("PROCESS_SERVICE_CHECK_RESULT")

IsHost(f)    == Len(f) >= 2 /\ f[1] = PHCR
IsService(f) == Len(f) >= 3 /\ f[1] = PSCR
\* Complete check results; whether others are accepted is left open as long
\* as they match.
CompleteHost(f)    == Len(f) >= 4 /\ \A i \in 2..4 : f[i] # <<>>
CompleteService(f) == Len(f) >= 5 /\ \A i \in 2..5 : f[i] # <<>>

HostGrant(r, f)    == IsHost(f) /\ Matches(r, f[2])
ServiceGrant(p, f) == /\ IsService(f)
                      /\ Matches(p[1], f[3])
                      /\ p[2] # <<>> => Matches(p[2][1], f[2])

Seq1(x) == IF x = <<>> THEN <<>> ELSE x[1]
Some(q, P(_)) == \E i \in DOMAIN q : P(q[i])

NL == "\n"
Verdict(c, i, s, f) ==
  LET b == Block(c, i)
      cmds == Seq1(Setting(c, b[1], "commands"))
      hosts == Seq1(Setting(c, b[1], "hosts"))
      svcs == Seq1(Setting(c, b[1], "services"))
      byHost == Some(hosts, LAMBDA r : HostGrant(r, f))
      bySvc == Some(svcs, LAMBDA p : ServiceGrant(p, f))
  IN IF b = <<>> THEN "refuse"
     ELSE IF Some(cmds, LAMBDA r : Matches(r, s)) THEN "accept"
     ELSE IF byHost /\ CompleteHost(f) THEN "accept"
     ELSE IF bySvc /\ CompleteService(f) THEN "accept"
     ELSE IF byHost \/ bySvc THEN "either"
     \* a pattern may also be taken to cover the newline
     ELSE IF Some(cmds, LAMBDA r : Matches(r, Append(s, NL))) THEN "either"
     ELSE "refuse"

-----------------------------------------------------------------------------
PatText(s, p) == IF s # "services" THEN Text(p)
                 ELSE Text(p[1]) \o (IF p[2] = <<>> THEN "" ELSE "@" \o Text(p[2][1]))
ValText(s, v) == IF s = "password" THEN v ELSE [k \in DOMAIN v |-> PatText(s, v[k])]
SetsText(b) == [s \in DOMAIN b |-> ValText(s, b[s])]
ConfText(c) == [usable |-> Usable(c), glob |-> SetsText(c.glob),
                blocks |-> [i \in DOMAIN c.blocks |-> SetsText(c.blocks[i])]]

Init == /\ cn \in DOMAIN Cfs
        /\ ident = "" /\ sess = FALSE /\ verdicts = <<>>
        /\ PrintT("@C " \o ToJson([id |-> cn, conf |-> ConfText(cf)]))

Connect(i, key) == /\ ident = ""
                   /\ Usable(cf)
                   /\ ident' = i
                   /\ sess' = Authentic(cf, i, key)
                   /\ PrintT("@K " \o ToJson([id |-> cn, ident |-> i, key |-> key, sess |-> sess']))
                   /\ UNCHANGED <<cn, verdicts>>

Submit == /\ sess /\ verdicts = <<>> /\ Part = "grant"
          /\ verdicts' = [k \in DOMAIN Cmds |-> Verdict(cf, ident, Cmds[k], CmdFields[k])]
          /\ PrintT("@V " \o ToJson([id |-> cn, ident |-> ident, v |-> verdicts']))
          /\ UNCHANGED <<cn, ident, sess>>

Disconnect == ident # "" /\ ident' = "" /\ sess' = FALSE /\ verdicts' = <<>> /\ UNCHANGED cn

KeysFor(i) == IF Part = "grant" THEN {k \in Keys : Authentic(cf, i, k)} ELSE Keys
Next == (\E i \in Identities : \E k \in KeysFor(i) : Connect(i, k)) \/ Submit \/ Disconnect
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* P01
OnlyAuthentic == sess => \E b \in {Block(cf, ident)} :
                           b # <<>> /\ Setting(cf, b[1], "password") # <<>>
NoStrangers == sess /\ "*" \notin DOMAIN cf.blocks => ident \in DOMAIN cf.blocks
\* P02: nothing but check results is accepted on behalf of host and service
\* patterns, and nothing at all without any pattern.
NoEscalation ==
  verdicts # <<>> =>
    \A k \in DOMAIN Commands : verdicts[k] # "refuse" =>
      LET b == Block(cf, ident)[1]
          f == CmdFields[k]
          has(s) == Setting(cf, b, s) # <<>>
      IN has("commands") \/ (IsHost(f) /\ has("hosts")) \/ (IsService(f) /\ has("services"))
\* What follows the matched fields does not matter.
TailIrrelevant ==
  verdicts # <<>> /\ ~(Setting(cf, Block(cf, ident)[1], "commands") # <<>>) =>
    \A j, k \in DOMAIN Commands :
      LET f == CmdFields[j]
          g == CmdFields[k]
      IN (CompleteHost(f) /\ CompleteHost(g) /\ IsHost(f) /\ IsHost(g) /\ f[2] = g[2]) => verdicts[j] = verdicts[k]
=============================================================================
