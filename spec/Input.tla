--------------------------------- MODULE Input ---------------------------------
(* How send_nsca's input arrives (C04): piece by piece, at any time relative to
   the session with a server which acknowledges everything.  The commands depend
   on the bytes only. *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS L,        \* length of the input
          Letters,  \* "a" text, "D" the delimiter, "S" the separator, "N" a newline
          Emit

VARIABLES all,      \* the input so far
          used,     \* how much of it has been turned into records
          done,     \* the commands submitted, as in Translate
          closed, ses, act, obs
vars == <<all, used, done, closed, ses, act, obs>>

T == INSTANCE Translate WITH Mode <- "result", L <- 0, Emit <- FALSE, s <- all

Init == /\ all = <<>> /\ used = 0 /\ done = <<>> /\ closed = FALSE /\ ses = "hs"
        /\ act = <<"init">> /\ obs = <<>>

(* the next command once it is certain: [at |-> new value of used, c |-> command] *)
RECURSIVE Find(_, _, _, _)
Find(w, end, from, at) ==
  IF at > Len(w)
  THEN IF ~end THEN [at |-> from - 1, c |-> <<"wait">>]
       ELSE LET x == T!Command(w, T!Interval(from, Len(w)))
            IN [at |-> Len(w), c |-> IF x = <<>> THEN <<"end">> ELSE x]
  ELSE IF w[at] = "S"
       THEN LET x == T!Command(w, T!Interval(from, at - 1))
            IN IF x = <<>> THEN Find(w, end, at + 1, at + 1) ELSE [at |-> at, c |-> x]
       ELSE Find(w, end, from, at + 1)

Go(w, end, st) ==
  /\ all' = w /\ closed' = end
  /\ IF st # "input" THEN ses' = st /\ UNCHANGED <<used, done>>
     ELSE LET f == Find(w, end, used + 1, used + 1)
          IN /\ used' = f.at
             /\ CASE f.c = <<"wait">> -> ses' = "input" /\ UNCHANGED done
                  [] f.c = <<"end">> -> ses' = "quit" /\ UNCHANGED done
                  [] f.c = <<"err">> -> ses' = "failed" /\ done' = Append(done, f.c)
                  [] OTHER -> ses' = "push" /\ done' = Append(done, f.c)
  /\ obs' = IF ses' = ses THEN <<>>
            ELSE CASE ses' = "moin" -> <<"MOIN">>
                   [] ses' = "push" -> <<"PUSH">>
                   [] ses' = "data" -> <<"DATA", done'[Len(done')]>>
                   [] ses' = "quit" -> <<"QUIT">>
                   [] OTHER -> <<>>

Alive == ses \notin {"failed", "over"}
Feed == \E x \in Letters : /\ Alive /\ ~closed /\ Len(all) < L
                           /\ act' = <<"feed", x>> /\ Go(Append(all, x), FALSE, ses)
Close == Alive /\ ~closed /\ act' = <<"close">> /\ Go(all, TRUE, ses)
Shake == ses = "hs" /\ act' = <<"shake">> /\ Go(all, closed, "moin")
Reply == /\ ses \in {"moin", "push", "data", "quit"}
         /\ act' = <<"reply">>
         /\ IF ses = "data" THEN Go(all, closed, "input")      \* may have the same outcome as before
            ELSE Go(all, closed, CASE ses = "moin" -> "input" [] ses = "push" -> "data" [] ses = "quit" -> "over")
Next == Feed \/ Close \/ Shake \/ Reply
Spec == Init /\ [][Next]_vars

(* the commands are those of the input, whatever the order of events was *)
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Whole == ses \in {"quit", "over"} => done = T!Out(all)
Partial == Prefix(done, T!Out(all))
EndsRight == ses \in {"quit", "over"} => closed /\ used = Len(all) /\ T!Fine(done)
NoWaste == ses = "input" => ~closed     \* it never waits for input which is there

View == <<SubSeq(all, used + 1, Len(all)), Len(all), closed, ses, IF ses = "push" THEN done[Len(done)] ELSE <<>> >>
EmitEdge == Emit => PrintT("@e " \o ToJson(<<View, <<act', obs', ses'>>, View'>>))
================================================================================
