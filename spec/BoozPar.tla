------------------------------ MODULE BoozPar -------------------------------
(***************************************************************************)
(* Several objects that run at the same time, each in a thread of its own  *)
(* (C++ threads; verbosity 0).  BoozSched describes the threads inside one *)
(* run; here the steps of different runs are interleaved.                  *)
(*                                                                         *)
(* A run first prepares tables that depend on the object (mode list, grid, *)
(* trigonometric functions), then transforms its surfaces one by one with  *)
(* scratch arrays.  PointsOf[o] are the observation points that the run of *)
(* object o passes; a step is what happens between two of them.  A run     *)
(* that is rejected passes none.                                           *)
(*                                                                         *)
(* Everything a run uses belongs to its object or to its thread.  Shared   *)
(* is the mistake to be excluded: "tables" or "scratch" that exist once    *)
(* for all objects; the checks show that TLC finds both.                   *)
(*                                                                         *)
(* Schedules with at most MaxSwitch preemptions are printed and replayed   *)
(* on real objects by harness/c/sched.c and harness/cxx/par.cpp; the       *)
(* results are recorded as runs one after the other (each run of the trace *)
(* is a step of Booz.tla: this module shows that any interleaving is       *)
(* equivalent to such a sequence) and validated by BoozTrace.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS
  PointsOf,        \* sequence: for each object the points that its run passes (<<>>: a rejected run)
  Shared,          \* "nothing", "tables", "scratch"
  MaxSwitch, Exporting

\* A file with one JSON object.
ThePoints == ndJsonDeserialize(IOEnv.POINTS)[1].points

Objects == 0..(Len(PointsOf) - 1)
P(o) == PointsOf[o + 1]
Last(o) == Len(P(o))
Name(o, k) == IF k = 0 THEN "none" ELSE IF k <= Last(o) THEN P(o)[k] ELSE "over"
Prepares(p) == p \in {"init_begin", "init_modes", "init_grid", "init_trig"}
RunBegin(o) == IF \E k \in 1..Last(o) : P(o)[k] = "run_begin" THEN CHOOSE k \in 1..Last(o) : P(o)[k] = "run_begin" ELSE 0

VARIABLES
  pc,        \* object -> 0 (not begun), index of the last point passed, Last + 1 (returned)
  tables,    \* cell -> what its tables were made from, in order
  scratch,   \* cell -> what its work arrays hold
  result,    \* object -> results, surface by surface
  out,       \* object -> "running", "ok", "error"
  cur, switches, hist
state == <<pc, tables, scratch, result, out>>
vars == <<pc, tables, scratch, result, out, cur, switches, hist>>

TCell(o) == IF Shared = "tables" THEN 0 ELSE o
SCell(o) == IF Shared = "scratch" THEN 0 ELSE o

Init == /\ pc = [o \in Objects |-> 0]
        /\ tables = [o \in Objects |-> <<>>]
        /\ scratch = [o \in Objects |-> <<>>]
        /\ result = [o \in Objects |-> <<>>]
        /\ out = [o \in Objects |-> "running"]
        /\ cur = -1 /\ switches = 0 /\ hist = <<>>

\* The thread of o reaches the first point, or its run is rejected.
Start(o) ==
  /\ pc[o] = 0 /\ out[o] = "running"
  /\ IF Last(o) = 0 THEN out' = [out EXCEPT ![o] = "error"] /\ pc' = pc
     ELSE pc' = [pc EXCEPT ![o] = 1] /\ out' = out
  /\ UNCHANGED <<tables, scratch, result, cur, switches, hist>>

CanStep(o) == pc[o] \in 1..Last(o)
Schedule(o) ==
  /\ cur' = o
  /\ switches' = IF cur # -1 /\ cur # o /\ CanStep(cur) THEN switches + 1 ELSE switches
  /\ switches' <= MaxSwitch
  /\ hist' = IF Exporting THEN Append(hist, o) ELSE hist

\* What happens after point p, and before the next one.
Step(o) ==
  LET p == Name(o, pc[o])  q == Name(o, pc[o] + 1) IN
  /\ CanStep(o)
  /\ Schedule(o)
  /\ pc' = [pc EXCEPT ![o] = @ + 1]
  /\ tables' = IF Prepares(p) THEN [tables EXCEPT ![TCell(o)] = IF p = "init_begin" THEN <<<<p, o>>>> ELSE Append(@, <<p, o>>)] ELSE tables
  /\ scratch' = IF Prepares(p) \/ p \in {"run_begin", "spectra", "end", "run_end"} THEN scratch
                ELSE [scratch EXCEPT ![SCell(o)] = IF p = "begin" THEN <<<<p, o>>>> ELSE Append(@, <<p, o>>)]
  /\ result' = IF q = "spectra" THEN [result EXCEPT ![o] = Append(@, <<tables[TCell(o)], scratch'[SCell(o)]>>)] ELSE result
  /\ out' = IF q = "over" THEN [out EXCEPT ![o] = "ok"] ELSE out

Next == \/ \E o \in Objects : Start(o)
        \/ (Exporting => \A o \in Objects : pc[o] > 0 \/ out[o] # "running") /\ \E o \in Objects : Step(o)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
View == state

------------------------------------------------------------------------------
\* The results of a run alone.
Filter(s, A(_)) == SelectSeq(s, A)
Alone(o) ==
  LET pts == P(o)
      T == [i \in 1..Len(Filter(pts, Prepares)) |-> <<Filter(pts, Prepares)[i], o>>]
      stored == {k \in 1..Len(pts) : pts[k] = "spectra"}
      \* the scratch arrays when the surface that stores its results at point k does so
      From(k) == CHOOSE b \in 1..k : pts[b] = "begin" /\ \A c \in (b+1)..k : pts[c] # "begin"
      W(k) == [i \in 1..(k - From(k)) |-> <<pts[From(k) + i - 1], o>>]
      nth(n) == CHOOSE k \in stored : Cardinality({j \in stored : j <= k}) = n
  IN  [n \in 1..Cardinality(stored) |-> <<T, W(nth(n))>>]

TypeOK == /\ \A o \in Objects : pc[o] \in 0..(Last(o) + 1) /\ out[o] \in {"running", "ok", "error"}
\* Every run gives what it gives alone, whatever the others do, and returns when it is complete.
AsAlone == \A o \in Objects : \A k \in 1..Len(result[o]) : result[o][k] = Alone(o)[k]
ReturnsComplete == \A o \in Objects : out[o] = "ok" => result[o] = Alone(o)
OnlyRejectedFail == \A o \in Objects : out[o] = "error" => Last(o) = 0
\* A step of one object changes nothing of another one.
NoInterference == [][\A o \in Objects : pc'[o] = pc[o] /\ out'[o] = out[o] => result'[o] = result[o]]_vars
Terminates == <>(\A o \in Objects : out[o] # "running")

Export == Exporting /\ (\A o \in Objects : out[o] # "running") => PrintT("SCHED " \o ToJson([h |-> hist]))
=============================================================================
