----------------------------- MODULE BoozSched -----------------------------
(***************************************************************************)
(* The concurrent part of a run: a team of threads transforms the selected *)
(* surfaces, and (with verbose > 0) prints a two-line report for each.     *)
(*                                                                         *)
(* The computation of a surface passes the observation points of the       *)
(* library (BOOZ_XFORM_VERIF_POINT), given by Points.  A step of surface s *)
(* is all that its thread does between two of them:                        *)
(*   - most steps extend work arrays (scratch) with what was computed;     *)
(*   - the step that ends at "spectra" stores the results of the surface;  *)
(*   - "report" -> "report_mid" enters the critical section and prints the *)
(*     first line, the next step prints the second line and leaves it;     *)
(*   - with Verbose = 2 a thread that begins a surface prints a progress   *)
(*     line, in the critical section as well.                              *)
(*                                                                         *)
(* Locked = FALSE and SharedScratch = TRUE are the two mistakes that this  *)
(* design can make; the checks show that TLC finds them (the properties    *)
(* are not vacuous) and use the schedules of the unlocked design as        *)
(* attempts to break the critical section of the real code.                *)
(*                                                                         *)
(* Schedules (the sequence of surfaces that make a step) with at most      *)
(* MaxSwitch preemptions are printed and replayed on the real threads by   *)
(* harness/c/sched.c; the order in which the real code passed the points   *)
(* is recorded and validated by BoozTrace.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS
  N, T,            \* number of selected surfaces and of threads
  Points,          \* observation points passed by each surface, in order
  Verbose,         \* 0, 1, 2
  Locked, SharedScratch,
  MaxSwitch,       \* bound on preemptions
  Exporting

\* A file with one JSON object.
ThePoints == ndJsonDeserialize(IOEnv.POINTS)[1].points

Surfaces == 0..(N-1)
Last == Len(Points)

\* OpenMP's static schedule: contiguous chunks, the first ones larger.
Chunk(t) == LET q == N \div T  r == N % T IN IF t < r THEN (t * (q+1))..(t * (q+1) + q) ELSE (t * q + r)..(t * q + r + q - 1)
Owner(s) == CHOOSE t \in 0..(T-1) : s \in Chunk(t)
Before(s) == {p \in Chunk(Owner(s)) : p < s}

VARIABLES
  pc,        \* surface -> 0 (not begun), index of the last point passed, Last + 1 (finished)
  scratch,   \* surface -> work arrays: what was written, in order
  result,    \* surface -> results stored (<<>>: none)
  lock,      \* surface whose thread is in the critical section, or -1
  out,       \* what was printed: sequence of <<line, surface, results shown>>
  returned,  \* the run has returned
  cur, switches, hist
state == <<pc, scratch, result, lock, out, returned>>
vars == <<pc, scratch, result, lock, out, returned, cur, switches, hist>>

Cell(s) == IF SharedScratch THEN 0 ELSE s
Begins(s) == [n |-> "begin", s |-> s]

Init == /\ pc = [s \in Surfaces |-> 0]
        /\ scratch = [s \in Surfaces |-> <<>>]
        /\ result = [s \in Surfaces |-> <<>>]
        /\ lock = -1 /\ out = <<>> /\ returned = FALSE
        /\ cur = -1 /\ switches = 0 /\ hist = <<>>

\* A thread begins its next surface.
CanStart(s) == /\ pc[s] = 0 /\ \A p \in Before(s) : pc[p] = Last + 1
               /\ Verbose = 2 /\ Locked => lock = -1
Start(s) ==
  /\ CanStart(s)
  /\ pc' = [pc EXCEPT ![s] = 1]
  /\ out' = IF Verbose = 2 THEN Append(out, <<"go", s, <<>>>>) ELSE out
  /\ UNCHANGED <<scratch, result, lock, returned, cur, switches, hist>>

Name(k) == IF k = 0 THEN "none" ELSE IF k <= Last THEN Points[k] ELSE "over"
Leaves(s) == Name(pc[s])
Enters(s) == Name(pc[s] + 1)
CanStep(s) == /\ pc[s] \in 1..Last
              /\ Enters(s) = "report_mid" /\ Locked => lock = -1

\* Switching away from a surface that could go on is a preemption.
Schedule(s) ==
  /\ cur' = s
  /\ switches' = IF cur # -1 /\ cur # s /\ CanStep(cur) THEN switches + 1 ELSE switches
  /\ switches' <= MaxSwitch
  /\ hist' = IF Exporting THEN Append(hist, s) ELSE hist

Step(s) ==
  /\ CanStep(s)
  /\ Schedule(s)
  /\ pc' = [pc EXCEPT ![s] = @ + 1]
  /\ LET w == IF Leaves(s) = "begin" THEN <<<<"begin", s>>>> ELSE Append(scratch[Cell(s)], <<Leaves(s), s>>) IN
     /\ scratch' = IF result[s] = <<>> THEN [scratch EXCEPT ![Cell(s)] = w] ELSE scratch
     /\ result' = IF Enters(s) = "spectra" THEN [result EXCEPT ![s] = w] ELSE result
  /\ out' = IF Verbose = 0 THEN out
            ELSE IF Enters(s) = "report_mid" THEN Append(out, <<"0", s, result[s]>>)
            ELSE IF Leaves(s) = "report_mid" THEN Append(out, <<"pi", s, result[s]>>)
            ELSE out
  /\ lock' = IF Verbose = 0 \/ ~Locked THEN lock
             ELSE IF Enters(s) = "report_mid" THEN s ELSE IF Leaves(s) = "report_mid" THEN -1 ELSE lock
  /\ UNCHANGED returned

\* The barrier at the end of the parallel loop.
Return ==
  /\ ~returned
  /\ \A s \in Surfaces : pc[s] = Last + 1
  /\ returned' = TRUE
  /\ UNCHANGED <<pc, scratch, result, lock, out, cur, switches, hist>>

\* A thread begins the next surface right away.
Next == \/ \E s \in Surfaces : Start(s)
        \/ (Exporting => \A s \in Surfaces : ~CanStart(s)) /\ \E s \in Surfaces : Step(s)
        \/ Return
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
View == state

------------------------------------------------------------------------------
\* Properties.
\* The results of a surface computed alone.
Steps(s) == LET k == CHOOSE k \in 1..Last : Points[k] = "spectra" IN [i \in 1..(k-1) |-> <<Points[i], s>>]

TypeOK == pc \in [Surfaces -> 0..(Last + 1)] /\ lock \in Surfaces \cup {-1}
\* C05
SerialResults == \A s \in Surfaces : result[s] \in {<<>>, Steps(s)}
ReturnsComplete == returned => \A s \in Surfaces : pc[s] = Last + 1 /\ result[s] = Steps(s)
OncePerSurface == [][\A s \in Surfaces : pc'[s] \in {pc[s], pc[s] + 1} /\ (result[s] # <<>> => result'[s] = result[s])]_vars
Terminates == <>returned
\* C15
Intact(o) == \A i \in 1..Len(o) :
  /\ o[i][1] = "0" /\ i < Len(o) => o[i+1][1] = "pi" /\ o[i+1][2] = o[i][2]
  /\ o[i][1] = "pi" => i > 1 /\ o[i-1][1] = "0" /\ o[i-1][2] = o[i][2]
ReportsIntact == Intact(out)
ReportsComplete == returned => \A s \in Surfaces, k \in {"0", "pi"} :
  Cardinality({i \in 1..Len(out) : out[i][1] = k /\ out[i][2] = s}) = IF Verbose = 0 THEN 0 ELSE 1
ReportsRight == \A i \in 1..Len(out) : out[i][1] # "go" => out[i][3] = Steps(out[i][2])
MutualExclusion == Locked => Cardinality({s \in Surfaces : Name(pc[s]) = "report_mid"}) <= IF Verbose = 0 THEN N ELSE 1

Export == Exporting /\ returned => PrintT("SCHED " \o ToJson([h |-> hist, w |-> switches, good |-> Intact(out)]))
=============================================================================
