----------------------------- MODULE WriterTrace -----------------------------
(* What may be observed of the command file writer (P07-P12): an abstract queue
   with direct delivery, temporary files and announcements.  Recorded behaviour
   of the real server (Traces) is accepted iff it is a behaviour of this
   specification; On selects the properties whose guards are enforced.

   Codes of items: id > 0 the id-th acknowledged command; -f the announcement
   (PROCESS_FILE) of temporary file f; 0 anything else.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS On, Verbose
TraceFile == "traces.json"
Traces == TLCEval(JsonDeserialize(TraceFile))

PIPE_BUF == 4096
RETRY == 10000          \* ms
SLACK == 100

VARIABLES tr, i,
  st,       \* per acknowledged command: -1 queued, -2 delivered, -3 lost, f > 0: in file f
  size,     \* per acknowledged command
  fs,       \* per temporary file: state, items, number of the file its announcement is in
  top,      \* the last command that left the queue
  up,       \* the command file is open
  last      \* time of the last attempt to open it / of its loss
vars == <<tr, i, st, size, fs, top, up, last>>

G(p, c) == p \in On => c
E == Traces[tr][i]

Queued == {id \in 1..Len(st) : st[id] = -1}
Pending == {f \in 1..Len(fs) : fs[f].s = "ok"}
RECURSIVE SumOf(_)
SumOf(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN size[x] + SumOf(S \ {x})
Bytes == SumOf(Queued)
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Max(a, b) == IF a > b THEN a ELSE b

Init == /\ tr \in 1..Len(Traces)
        /\ i = 1 /\ st = <<>> /\ size = <<>> /\ fs = <<>> /\ top = 0 /\ up = FALSE /\ last = 0

Lose(S) == [k \in 1..Len(st) |-> IF k \in S THEN -3 ELSE st[k]]

(* A logged overflow discards the younger part of the queue (commands > keep),
   and announcements F in it; only if what is queued and the n new bytes exceed
   the limit. *)
Keeps(over) == IF over THEN {0} \cup Queued ELSE {Len(st)}
Announcements(over) == IF over THEN SUBSET Pending ELSE {{}}
OverflowOK(keep, F, n, max) ==
  LET drop == {id \in Queued : id > keep}
      rest == Queued \ drop
  IN /\ G("P11", drop # {} \/ F # {} => max > 0 /\ Bytes + 200 * Cardinality(Pending) + n > max)
     /\ G("P11", max > 0 /\ rest # {} => SumOf(rest) + n - Max(PIPE_BUF, size[Min(rest)]) <= max)
Dropped(keep) == Lose({id \in Queued : id > keep})
Gone(F) == [f \in 1..Len(fs) |-> IF f \in F THEN [fs[f] EXCEPT !.s = "lost"] ELSE fs[f]]

Ack ==      \* a command is acknowledged
  /\ E.k = "ack"
  /\ E.id = Len(st) + 1
  /\ \E keep \in Keeps(E.over) : \E F \in Announcements(E.over) :
       /\ OverflowOK(keep, F, E.size, E.max)
       /\ st' = Append(Dropped(keep), -1)
       /\ fs' = Gone(F)
  /\ size' = Append(size, E.size)
  /\ UNCHANGED <<top, up, last>>

(* items leave the queue for the place `to` (-2: the command file, f: a file) *)
RECURSIVE Take(_, _, _, _, _)
Take(items, to, s, f, t) ==     \* [ok, st, fs, top]
  IF items = <<>> THEN [ok |-> TRUE, st |-> s, fs |-> f, top |-> t]
  ELSE LET c == items[1]
           bad == [ok |-> FALSE, st |-> s, fs |-> f, top |-> t]
       IN IF c > 0
          THEN IF c > Len(s) \/ (s[c] # -1 /\ "P07" \in On) THEN bad
               ELSE IF "P10" \in On /\ c <= t THEN bad
               ELSE Take(Tail(items), to, [s EXCEPT ![c] = to], f, Max(c, t))
          ELSE IF c < 0
          THEN LET k == -c
               IN IF "P07" \in On /\ f[k].s # "ok" THEN bad
                  ELSE IF "P09" \in On /\ f[k].s \notin {"ok", "ann", "in"} THEN bad
                  ELSE Take(Tail(items), to, s,
                            [f EXCEPT ![k].s = IF to = -2 THEN "ann" ELSE "in", ![k].into = to], t)
          ELSE IF "P07" \in On THEN bad ELSE Take(Tail(items), to, s, f, t)

GoodAnn(a) ==
  /\ a.f > 0 /\ a.del
  /\ LET x == fs[a.f] IN a.content = x.items /\ x.mode = 384     \* 0600

Write ==
  /\ E.k = "w"
  /\ G("P12", E.fifo)
  /\ G("P08", E.n <= PIPE_BUF /\ E.whole)
  /\ G("P09", E.ok => \A k \in 1..Len(E.anns) : GoodAnn(E.anns[k]))
  /\ LET r == Take(E.items, -2, st, fs, top)
     IN IF E.ok THEN r.ok /\ st' = r.st /\ fs' = r.fs /\ top' = r.top
        ELSE UNCHANGED <<st, fs, top>>
  /\ UNCHANGED <<size, up, last>>

Open ==
  /\ E.k = "open"
  /\ G("P12", up \/ last = 0 \/ (E.t - last >= RETRY - SLACK /\ E.t - last <= RETRY + SLACK))
  /\ up' = E.conn /\ last' = E.t
  /\ UNCHANGED <<st, size, fs, top>>

Close ==
  /\ E.k = "close"
  /\ IF E.cur THEN up' = FALSE /\ last' = E.t ELSE UNCHANGED <<up, last>>
  /\ UNCHANGED <<st, size, fs, top>>

Clock ==
  /\ E.k = "t"
  /\ G("P12", up \/ E.t - last <= RETRY + SLACK)
  /\ UNCHANGED <<st, size, fs, top, up, last>>

(* temporary files *)
DumpOpen ==
  /\ E.k = "dopen"
  /\ IF E.ok
     THEN /\ G("P09", E.excl)
          /\ fs' = Append(fs, [s |-> "open", items |-> <<>>, into |-> 0, mode |-> -1])
          /\ st' = st
     ELSE /\ G("P07", E.log) /\ G("P09", E.log)
          /\ \E upto \in {0} \cup Queued : st' = Lose({id \in Queued : id <= upto})
          /\ \E F \in SUBSET Pending : fs' = Gone(F)
  /\ UNCHANGED <<size, top, up, last>>

DumpData ==
  /\ E.k = "ddata"
  /\ G("P09", fs[E.f].s \in {"open", "written"} /\ E.whole /\ \A k \in 1..Len(E.anns) : GoodAnn(E.anns[k]))
  /\ LET r == Take(E.items, E.f, st, fs, top)
     IN r.ok /\ st' = r.st /\ fs' = [r.fs EXCEPT ![E.f].items = @ \o E.items] /\ top' = r.top
  /\ UNCHANGED <<size, up, last>>

Fail(f) ==      \* the content of file f is lost, or goes back to the queue
  /\ G("P07", E.log) /\ G("P09", E.log)
  /\ LET ids == {id \in 1..Len(st) : st[id] = f}
         in == {g \in 1..Len(fs) : fs[g].s = "in" /\ fs[g].into = f}
     IN \E back \in IF ids \cup in = {} THEN {FALSE} ELSE BOOLEAN :
        /\ st' = [id \in 1..Len(st) |-> IF id \in ids THEN (IF back THEN -1 ELSE -3) ELSE st[id]]
        /\ fs' = [g \in 1..Len(fs) |->
                    IF g = f THEN [fs[g] EXCEPT !.s = "bad"]
                    ELSE IF g \in in THEN [fs[g] EXCEPT !.s = IF back THEN "ok" ELSE "lost"] ELSE fs[g]]
        /\ top' = IF back /\ ids # {} THEN Min(ids) - 1 ELSE top

DumpResult ==
  /\ E.k = "dres"
  /\ IF E.ok THEN fs' = [fs EXCEPT ![E.f].s = "written"] /\ UNCHANGED <<st, top>>
     ELSE Fail(E.f)
  /\ UNCHANGED <<size, up, last>>

DumpClose ==
  /\ E.k = "dclose"
  /\ IF fs[E.f].s = "bad" THEN UNCHANGED <<fs, st, top>>
     ELSE IF E.ok /\ fs[E.f].s = "written"
     THEN /\ \E keep \in Keeps(E.over) : \E F \in Announcements(E.over) :   \* the announcement needs room, too
               /\ OverflowOK(keep, F, 200, E.max)
               /\ st' = Dropped(keep)
               /\ fs' = [Gone(F) EXCEPT ![E.f].s = "ok", ![E.f].mode = E.mode]
          /\ top' = top
     ELSE Fail(E.f)
  /\ UNCHANGED <<size, up, last>>

(* the reader has been back for a retry interval, everything has settled *)
Failed == \E f \in 1..Len(fs) : fs[f].s = "bad"
Quiet ==
  /\ E.k = "quiet"
  /\ G("P07", Queued = {} /\ \A f \in 1..Len(fs) : fs[f].s \notin {"open", "written", "ok"})
  /\ G("P12", up /\ Queued = {} /\ \A f \in 1..Len(fs) : fs[f].s \notin {"open", "written", "ok"})
  /\ G("P11", Queued = {})
  /\ G("P09", /\ \A f \in 1..Len(fs) : fs[f].s # "open"
              /\ Failed => Queued = {} /\ Pending = {}
              /\ E.leak = 0)
  /\ UNCHANGED <<st, size, fs, top, up, last>>

Event == \/ Ack \/ Write \/ Open \/ Close \/ Clock \/ DumpOpen \/ DumpData \/ DumpResult \/ DumpClose \/ Quiet

Next == /\ i <= Len(Traces[tr])
        /\ Event
        /\ i' = i + 1 /\ tr' = tr
        /\ (i' > Len(Traces[tr])) => PrintT("@done " \o ToString(tr))
        /\ Verbose => PrintT("@at [" \o ToString(tr) \o "," \o ToString(i) \o "]")

Spec == Init /\ [][Next]_vars
=============================================================================
