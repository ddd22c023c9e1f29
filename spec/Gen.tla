--------------------------------- MODULE Gen ---------------------------------
(***************************************************************************)
(* Behaviours of ClassFile for the inputs of CASES (JSON lines [b, m, p]). *)
(* The inputs share the prefix of CASES.pre; the behaviour reads the       *)
(* prefix once, then the rest of the input is chosen (the parser has not   *)
(* looked at it yet).  At the end of every behaviour, what the parser must *)
(* report is printed.                                                      *)
(***************************************************************************)
EXTENDS ClassFile, Json, IOUtils

VARIABLE chosen     \* 0, or the case that was chosen

Cases == ndJsonDeserialize(IOEnv.CASES)
Pre == ndJsonDeserialize(IOEnv.CASES \o ".pre")[1]

GInit == \E m \in {Cases[k].m : k \in 1..Len(Cases)} :
           chosen = 0 /\ InitWith([b |-> Pre.pre, m |-> m])
GNext ==
  IF chosen = 0 /\ ph = Pre.at
  THEN \E k \in 1..Len(Cases) :
         /\ Cases[k].m = M
         /\ chosen' = k
         /\ in' = [b |-> in.b \o Cases[k].b, m |-> M]
         /\ UNCHANGED <<ph, ix, pool, left, acc, hd>>
  ELSE Next /\ UNCHANGED chosen

GView == <<chosen, M, ph, ix, Len(pool), left>>
Outcome == IF ph = "accept" THEN "A" \o ToJson(hd.result) ELSE "R"
Emit == ph \in Done => PrintT("X " \o ToString(chosen) \o " " \o Outcome)
=============================================================================
