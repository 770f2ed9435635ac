----------------------------- MODULE WriterImpl -----------------------------
(* The command file writer (P07-P12): queue, direct writes, temporary files,
   loss and return of the reader.

   The writer's state and reactions are written down at the level of its
   callbacks; the environment (clients, monitoring process, other writers,
   clock, disk) acts when the writer is quiescent.  Sizes are in units of a
   quarter of PIPE_BUF; the pipe has room for one PIPE_BUF.

   Checked here: exactly-once bookkeeping, order, atomic writes, bounded queue,
   "quiescent with a reader and room in the pipe means nothing is left", and
   that every reachable state recovers (RecoveryDelivers).  The transitions,
   one per class of states, are then replayed into the real server, whose
   recorded behaviour is judged by WriterTrace.tla. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS AIO,        \* asynchronous I/O or idle-time writing
          Sizes,      \* sizes of submissions, in units
          MaxId,      \* number of submissions
          MaxQ,       \* bound of the queue, in units; 0: none
          Faults,     \* faults the environment may inject
          MaxFiles,
          Emit        \* print the transitions

PB == 4               \* PIPE_BUF
CAP == 4              \* the pipe

VARIABLES s, act
vars == <<s, act>>

Sum(q) == LET RECURSIVE F(_)
              F(k) == IF k = 0 THEN 0 ELSE q[k].size + F(k - 1)
          IN F(Len(q))

Items(q) == {q[k].id : k \in 1..Len(q)}

Init == /\ s = [path |-> "fifo", rd |-> TRUE, fd |-> "cur", fill |-> 0,
                out |-> <<>>, buf |-> <<>>, ww |-> FALSE, aio |-> <<>>, idle |-> FALSE,
                opent |-> FALSE, flt |-> "", next |-> 1, nfiles |-> 0,
                direct |-> <<>>, files |-> <<>>, lost |-> {}, over |-> 0, maxw |-> 0, dups |-> FALSE]
        /\ act = <<"start">>

Empty(x) == x.out = <<>> /\ x.buf = <<>>
Exceed(x) == Sum(x.out) > PB \/ Sum(x.buf) > PB

(* one invocation of the write callback *)
RECURSIVE WriteCb(_)
WriteCb(x0) ==
  LET x == IF x0.out = <<>> THEN [x0 EXCEPT !.out = x0.buf, !.buf = <<>>] ELSE x0
      n == Sum(x.out)
  IN IF x.flt \in {"write_again", "write_intr"} THEN [x EXCEPT !.flt = ""]
     ELSE IF x.flt = "write_err" \/ x.fd = "old" \/ ~x.rd
     THEN [x EXCEPT !.fd = "none", !.ww = FALSE, !.opent = TRUE,
                    !.flt = IF x.flt = "write_err" THEN "" ELSE x.flt,
                    !.fill = IF x.rd THEN @ ELSE 0]
     ELSE IF x.fill + n > CAP THEN x
     ELSE LET y == [x EXCEPT !.direct = @ \o x.out, !.fill = @ + n, !.out = <<>>,
                             !.maxw = IF n > @ THEN n ELSE @, !.ww = x.buf # <<>>]
          IN IF y.buf # <<>> THEN WriteCb(y) ELSE y

Join(x) == [x EXCEPT !.out = x.out \o x.buf, !.buf = <<>>]

DumpAio(x0) ==
  LET x == Join(x0)
  IN IF x.flt \in {"mkstemp", "aio_submit"}
     THEN [x EXCEPT !.lost = @ \cup Items(x.out), !.out = <<>>, !.flt = ""]
     ELSE [x EXCEPT !.aio = x.out, !.out = <<>>]

Dispatch(x) ==
  IF x.fd = "none" THEN x
  ELSE IF ~Exceed(x)
       THEN IF x.ww THEN x ELSE WriteCb([x EXCEPT !.ww = TRUE])
       ELSE LET y == [x EXCEPT !.ww = FALSE]
            IN IF AIO THEN IF y.aio = <<>> THEN DumpAio(y) ELSE y
               ELSE [y EXCEPT !.idle = TRUE]

FifoWrite(x, item) ==
  IF Empty(x) THEN Dispatch([x EXCEPT !.out = <<item>>])
  ELSE LET over == MaxQ > 0 /\ Sum(x.buf) + item.size > MaxQ
           y == IF over THEN [x EXCEPT !.lost = @ \cup Items(x.buf), !.buf = <<>>, !.over = @ + 1] ELSE x
       IN Dispatch([y EXCEPT !.buf = Append(@, item)])

Announce(x) == [id |-> -x.nfiles, size |-> 0]

(* the temporary file with content q has been written *)
Written(x, q) ==
  IF x.flt = "close_dump" THEN [x EXCEPT !.flt = "", !.lost = @ \cup Items(q)]
  ELSE LET y == [x EXCEPT !.nfiles = @ + 1, !.files = Append(@, q)]
       IN FifoWrite(y, Announce(y))

AioDone(x, ok) ==
  LET q == x.aio
      y == [x EXCEPT !.aio = <<>>]
      z == IF ok THEN Written(y, q) ELSE [y EXCEPT !.lost = @ \cup Items(q)]
  IN IF Exceed(z) THEN Dispatch(z) ELSE z

SyncDump(x0) ==
  LET x == Join([x0 EXCEPT !.idle = FALSE])
      y == [x EXCEPT !.out = <<>>]
  IN IF x.flt \in {"mkstemp", "write_dump"} THEN [y EXCEPT !.flt = "", !.lost = @ \cup Items(x.out)]
     ELSE Written(y, x.out)

OpenCb(x) ==
  IF x.flt = "open" THEN [x EXCEPT !.flt = "", !.opent = TRUE]
  ELSE IF x.path = "fifo" /\ x.rd
  THEN LET y == [x EXCEPT !.fd = "cur", !.opent = FALSE] IN IF Empty(y) THEN y ELSE Dispatch(y)
  ELSE [x EXCEPT !.opent = TRUE]

(* the event loop runs until nothing happens any more *)
RECURSIVE Run(_)
Run(x) ==
  LET y == IF x.ww /\ x.fd # "none" THEN WriteCb(x) ELSE x
      z == IF y.idle THEN SyncDump(y) ELSE y
  IN IF z = x THEN x ELSE Run(z)

(* ------------------------------ environment ------------------------------ *)
SubX(x, sz) == FifoWrite([x EXCEPT !.next = @ + 1], [id |-> x.next, size |-> sz])
Tick(x) == IF x.opent THEN OpenCb([x EXCEPT !.opent = FALSE]) ELSE x
CloseRd(x) == [x EXCEPT !.rd = FALSE, !.fill = IF x.fd = "cur" THEN @ ELSE 0]
Gone(x, p) == [x EXCEPT !.path = p, !.rd = FALSE, !.fd = IF @ = "cur" THEN "old" ELSE @, !.fill = 0]

Step(a, x) == act' = a /\ s' = Run(x)

Env ==
  \/ \E sz \in Sizes : s.next <= MaxId /\ Step(<<"sub", sz>>, SubX(s, sz))
  \/ \E s1, s2 \in {1, 3} : s.next < MaxId /\ Step(<<"sub2", s1, s2>>, SubX(SubX(s, s1), s2))
  \/ s.path = "fifo" /\ s.rd /\ Step(<<"rclose">>, CloseRd(s))
  \/ s.path = "fifo" /\ ~s.rd /\ Step(<<"ropen">>, [s EXCEPT !.rd = TRUE])
  \/ s.rd /\ s.fill > 0 /\ Step(<<"drain">>, [s EXCEPT !.fill = 0])
  \/ \E f \in {1, 4} : s.rd /\ s.fill = 0 /\ Step(<<"fill", f>>, [s EXCEPT !.fill = f])
  \/ s.opent /\ Step(<<"tick">>, Tick(s))
  \/ AIO /\ s.aio # <<>> /\ \/ s.nfiles < MaxFiles /\ Step(<<"aio", "ok">>, AioDone(s, TRUE))
                            \/ Step(<<"aio", "err">>, AioDone(s, FALSE))
                            \/ Step(<<"aio", "short">>, AioDone(s, FALSE))
  \/ s.path = "fifo" /\ \E p \in {"none", "file", "new"} :
        Step(<<"replace", p>>, Gone(s, IF p = "new" THEN "fifo" ELSE p))
  \/ s.path # "fifo" /\ Step(<<"mkfifo">>, [s EXCEPT !.path = "fifo", !.rd = FALSE])
  \/ \E f \in Faults : s.flt = "" /\ act[1] # "fault" /\ s.next <= MaxId /\ Step(<<"fault", f>>, [s EXCEPT !.flt = f])

(* ------------------------------- properties ------------------------------ *)
QueueIds(x) == Items(x.out) \cup Items(x.buf)
FileIds(x, f) == Items(x.files[f])
Count(x, id) ==
  Cardinality({k \in 1..Len(x.direct) : x.direct[k].id = id}) +
  Cardinality({k \in 1..Len(x.out) : x.out[k].id = id}) +
  Cardinality({k \in 1..Len(x.buf) : x.buf[k].id = id}) +
  Cardinality({k \in 1..Len(x.aio) : x.aio[k].id = id}) +
  Cardinality({p \in (1..Len(x.files)) \X (1..(2 * MaxId)) :
                 p[2] <= Len(x.files[p[1]]) /\ x.files[p[1]][p[2]].id = id}) +
  (IF id \in x.lost THEN 1 ELSE 0)

ExactlyOnce == /\ \A id \in 1..(s.next - 1) : Count(s, id) = 1
               /\ \A f \in 1..s.nfiles : Count(s, -f) = 1
NeverInvented == \A id \in s.next..MaxId : Count(s, id) = 0
Atomic == s.maxw <= PB
Increasing(q) == \A i, j \in 1..Len(q) : i < j /\ q[i].id > 0 /\ q[j].id > 0 => q[i].id < q[j].id
Order == /\ Increasing(s.direct)
         /\ \A f \in 1..Len(s.files) : Increasing(s.files[f])
         /\ Increasing(s.out \o s.buf)
OnlyLoggedLoss == s.lost # {} => s.over > 0 \/ Faults # {} \/ AIO
Bounded == MaxQ > 0 => Sum(s.buf) <= MaxQ \/ Len(s.buf) = 1
NothingLeft == s.fd = "cur" /\ s.rd /\ s.fill = 0 /\ s.aio = <<>> => Empty(s) /\ ~s.idle
Retries == s.fd = "none" => s.opent

RECURSIVE Settle(_, _)
Settle(x, n) ==     \* a reader that keeps reading, a disk that works
  IF n = 0 THEN x
  ELSE LET y == IF x.aio # <<>> THEN Run(AioDone([x EXCEPT !.flt = ""], TRUE)) ELSE x
       IN Settle(Run([y EXCEPT !.fill = 0]), n - 1)
Recover(x) ==
  LET a == Settle(Run([x EXCEPT !.path = "fifo", !.rd = TRUE, !.flt = "", !.fill = 0]), 3)
      b == Settle(Run(Tick(a)), 3)
  IN b
RecoveryDelivers == LET x == Recover(s) IN Empty(x) /\ x.aio = <<>> /\ ~x.idle

(* one representative per class of states, for the replay *)
Cap(n, m) == IF n > m THEN m ELSE n
View == <<s.path, s.rd, s.fd, s.fill, Cap(Sum(s.out), 5), Cap(Len(s.out), 2), Cap(Sum(s.buf), 5), Cap(Len(s.buf), 1),
          s.ww, s.idle, Cap(Len(s.aio), 1), s.opent, s.flt, Cap(s.nfiles, 1), act[1] = "fault">>

Next == Env
Spec == Init /\ [][Next]_vars
EmitEdge == Emit => PrintT("@e " \o ToJson(<<View, act', View'>>))
=============================================================================
