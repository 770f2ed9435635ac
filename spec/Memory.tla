-------------------------------- MODULE Memory --------------------------------
(* P20: what the server keeps is a function of the present, not of the past.

   Extends Conns with the command file's queue and, as a ghost, with who owns
   which memory: every step acquires and releases what it does by its kind (a
   submission takes over the received data, a request line is dropped once it
   has been handled, the end of a connection drops whatever it had ...).  Exact
   says that what is owned then is what the current phases and the current
   queue need - so coming back to a state means coming back to its memory. *)
EXTENDS Conns

CONSTANTS Outages,      \* the reader of the command file comes and goes
          MaxQ

VARIABLES mem,          \* per client: what is owned on its behalf
          rd, q, nq,    \* the reader is there; commands queued; memory owned by the queue
          how           \* of a command: its size and what happens to it
mvars == <<vars, mem, rd, q, nq, how>>

Kinds == {"conn", "line", "body", "out"}
Hows == {"small", "big", "big-create", "big-write", "big-short", "big-close"}
Lost(h) == h \in {"big-create", "big-write", "big-short", "big-close"}
Zero == Quiet

MInit == /\ Init
         /\ mem = [c \in Clients |-> {}]
         /\ rd = TRUE /\ q = 0 /\ nq = 0 /\ how = ""

(* what a step of a client does to what it owns *)
Owned(m, a, old, new, f) ==
  LET x == CASE a = "connect"                 -> {"conn"}
             [] a = "lpart"                   -> m \cup {"line"}
             [] a = "lrest"                   -> m \ {"line"}
             [] a = "push" /\ new.ph = "push" -> m \cup {"body"}     \* room for what has been announced
             [] a \in {"own", "other", "rest"} -> m \ {"body"}       \* handed over or refused
             [] a = "jam"                     -> m \cup {"out"}
             [] a = "unjam"                   -> m \ {"out"}
             [] OTHER -> m
  IN IF new.ph \in {"new", "gone"} THEN {}
     ELSE IF new.ph = "closing" THEN x \ {"line", "body", "out"}
     ELSE x

Min(a, b) == IF a < b THEN a ELSE b
Step ==
  /\ Next
  /\ mem' = [c \in Clients |->
       IF act'[1] = "tick" \/ act'[2] = c THEN Owned(mem[c], act'[1], conn[c], conn'[c], fwd'[c] # fwd[c]) ELSE mem[c]]
  /\ IF fwd' = fwd THEN how' = "" /\ UNCHANGED <<q, nq>>
     ELSE \E h \in Hows :
            /\ how' = h
            \* a large command goes through a temporary file; what is queued is its announcement
            /\ LET keep == ~rd /\ ~Lost(h)
               IN q' = (IF keep THEN Min(q + 1, MaxQ) ELSE q) /\ nq' = (IF keep THEN Min(nq + 1, MaxQ) ELSE nq)
  /\ UNCHANGED rd

Leave == /\ Outages /\ rd /\ rd' = FALSE
         /\ act' = <<"leave">> /\ obs' = Zero /\ how' = "" /\ UNCHANGED <<conn, fwd, mem, q, nq>>
(* everything queued goes out *)
Return == /\ ~rd /\ rd' = TRUE
          /\ q' = 0 /\ nq' = 0
          /\ act' = <<"return">> /\ obs' = Zero /\ how' = "" /\ UNCHANGED <<conn, fwd, mem>>
(* more than the queue takes: what was queued is dropped, then the rest is queued *)
Flood == /\ ~rd /\ \E c \in Clients :
            /\ conn[c].ph = "ses"
            /\ act' = <<"flood", c>>
            /\ conn' = [conn EXCEPT ![c].idle = 0]
         /\ q' = MaxQ /\ nq' = MaxQ
         /\ obs' = Zero /\ how' = "" /\ UNCHANGED <<fwd, mem, rd>>

MNext == Step \/ Leave \/ Return \/ Flood
MSpec == MInit /\ [][MNext]_mvars

Needs(ph) == CASE ph \in {"new", "gone"} -> {}
               [] ph \in {"upline", "line"} -> {"conn", "line"}
               [] ph \in {"push", "half"} -> {"conn", "body"}
               [] ph \in {"jam", "jclose"} -> {"conn", "out"}
               [] OTHER -> {"conn"}
MTypeOK == /\ TypeOK /\ \A c \in Clients : mem[c] \subseteq Kinds
           /\ rd \in BOOLEAN /\ q \in 0..MaxQ /\ nq \in 0..MaxQ
Exact == /\ \A c \in Clients : mem[c] = Needs(conn[c].ph)
         /\ nq = q
         /\ (rd => q = 0)
(* in particular: nothing going on, nothing owned *)
Resting == (\A c \in Clients : ~Held(c)) /\ q = 0
AtRest == Resting => \A c \in Clients : mem[c] = {} /\ nq = 0
MView == <<View, rd, q, mem, nq>>
MVw == <<View, rd, q>>
MEmit == Emit => PrintT("@e " \o ToJson(<<MVw, Append(act', how'), MVw'>>))
===============================================================================
