-------------------------------- MODULE Locks --------------------------------
(***************************************************************************)
(* Threads iterating over one constant pool of the thread-safe build.  The *)
(* lock program of an iteration (file PROG, a JSON array of <<op, lock>>,  *)
(* op W: wants, T: tries (does not wait), A: has acquired, R: has released)*)
(* was recorded from the real code; every interleaving of THREADS copies   *)
(* of it is explored.  A failed try is beyond a recorded program: the      *)
(* model only prints the plan that gets the real code there.               *)
(* A thread stands at an event; one step takes it to its next event.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, IOUtils, Json

VARIABLES at, holder, plan

Prog == JsonDeserialize(IOEnv.PROG)
T == 1..atoi(IOEnv.THREADS)
WantPlans == IOEnv.PLANS          \* "contention": print a plan for every contended state; "end": whole plans
L == Len(Prog)
LockSet == {Prog[i][2] : i \in 1..L}
NONE == 0

LInit == /\ at = [t \in T |-> 1]
         /\ holder = [l \in LockSet |-> NONE]
         /\ plan = <<>>
Finished(t) == at[t] >= L
Ev(t) == Prog[at[t] + 1]
CanStep(t) == ~Finished(t) /\ (Ev(t)[1] = "A" => holder[Ev(t)[2]] = NONE)
Step(t) ==
  /\ CanStep(t)
  /\ at' = [at EXCEPT ![t] = @ + 1]
  /\ holder' = CASE Ev(t)[1] = "A" -> [holder EXCEPT ![Ev(t)[2]] = t]
                 [] Ev(t)[1] = "R" -> [holder EXCEPT ![Ev(t)[2]] = NONE]
                 [] OTHER -> holder
  /\ plan' = Append(plan, t - 1)
LNext == \E t \in T : Step(t)
LView == <<at, holder>>

(* mutual exclusion, and only the holder releases *)
Releases == \A t \in T : ~Finished(t) /\ Ev(t)[1] = "R" => holder[Ev(t)[2]] = t
Waits(t) == Prog[at[t]][1] # "T"
SelfLock == \E t \in T : ~Finished(t) /\ Ev(t)[1] = "A" /\ holder[Ev(t)[2]] = t /\ Waits(t)
AllFree == (\A t \in T : Finished(t)) => \A l \in LockSet : holder[l] = NONE
Blocked(t) == ~Finished(t) /\ ~CanStep(t)
Stuck == (\E t \in T : ~Finished(t)) /\ \A t \in T : Finished(t) \/ (Blocked(t) /\ Waits(t))
(* a thread that waits for a lock is waiting for a thread that can go on,  *)
(* directly or through others: no cycle of waiting                         *)
EmitStuck == Stuck => PrintT("D " \o ToJson(plan))
EmitSelf == SelfLock => PrintT("S " \o ToJson(plan))
EmitPlans ==
  CASE WantPlans = "contention" -> (\E t \in T : Blocked(t)) =>
         PrintT("X " \o ToJson(Append(plan, (CHOOSE t \in T : Blocked(t)) - 1)))
    [] WantPlans = "end" -> (\A t \in T : Finished(t)) => PrintT("X " \o ToJson(plan))
    [] OTHER -> TRUE
=============================================================================
