------------------------------ MODULE LockTrace ------------------------------
(***************************************************************************)
(* Trace validation of single-threaded lock behaviour.  TRACES has, per    *)
(* line, the lock events of one parse and iteration of the real code: the  *)
(* parse's events first, then one sequence per next() of the iterator.  A  *)
(* run is followed event by event: a lock is only wanted when it is not    *)
(* held, only released by its holder, and nothing is held when the parse   *)
(* or a next() is over.  Afterwards the order in which locks were nested   *)
(* must not have a cycle.                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, IOUtils, Json

VARIABLES run_, part, pos, held, order

Runs == ndJsonDeserialize(IOEnv.TRACES)

TInit == \E r \in 1..Len(Runs) : run_ = r /\ part = 1 /\ pos = 0 /\ held = {} /\ order = {}
Here == Runs[run_].t[part]
Event == Here[pos + 1]
InPart == part <= Len(Runs[run_].t)
Legal == CASE Event[1] = "W" -> Event[2] \notin held
           [] Event[1] = "T" -> TRUE          \* tries to, without waiting
           [] Event[1] = "A" -> Event[2] \notin held
           [] Event[1] = "R" -> Event[2] \in held
Follow ==
  /\ InPart /\ pos < Len(Here) /\ Legal
  /\ pos' = pos + 1
  /\ held' = CASE Event[1] = "A" -> held \cup {Event[2]}
               [] Event[1] = "R" -> held \ {Event[2]}
               [] OTHER -> held
  /\ order' = IF Event[1] = "W" THEN order \cup {<<h, Event[2]>> : h \in held} ELSE order
  /\ UNCHANGED <<run_, part>>
NextPart ==
  /\ InPart /\ pos = Len(Here) /\ held = {}
  /\ part' = part + 1 /\ pos' = 0
  /\ UNCHANGED <<run_, held, order>>
TNext == Follow \/ NextPart
TView == <<run_, part, pos>>

RECURSIVE Peel(_)
(* take away the pairs whose first lock nobody is waiting behind *)
Peel(e) == LET later == {p[2] : p \in e}
               rest == {p \in e : p[1] \in later}
           IN IF rest = e THEN e ELSE Peel(rest)
Acyclic == Peel(order) = {}

End == ~InPart
Verdict ==
  /\ End => PrintT((IF Acyclic THEN "Y " ELSE "O ") \o ToString(run_))
  /\ (InPart /\ pos < Len(Here) /\ ~Legal) =>
        PrintT("N " \o ToString(run_) \o " part " \o ToString(part) \o " event " \o ToString(pos + 1))
  /\ (InPart /\ pos = Len(Here) /\ held # {}) =>
        PrintT("N " \o ToString(run_) \o " part " \o ToString(part) \o " ends with locks held")
=============================================================================
