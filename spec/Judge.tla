-------------------------------- MODULE Judge --------------------------------
(***************************************************************************)
(* Trace validation: CASES holds recorded runs of the real parser as JSON  *)
(* lines [b, m, o] (input, observation mode, observed outcome); each is    *)
(* accepted exactly if the behaviour of ClassFile on that input ends with  *)
(* that outcome.                                                           *)
(***************************************************************************)
EXTENDS ClassFile, Json, IOUtils

VARIABLE run_

Runs == ndJsonDeserialize(IOEnv.CASES)

JInit == \E i \in 1..Len(Runs) : run_ = i /\ InitWith([b |-> Runs[i].b, m |-> Runs[i].m])
JNext == Next /\ UNCHANGED run_

JView == <<run_, ph, ix, Len(pool), left>>
Outcome == IF ph = "accept" THEN "A" \o ToJson(hd.result) ELSE "R"
Verdict == ph \in Done => IF Outcome = Runs[run_].o THEN PrintT("Y " \o ToString(run_))
                          ELSE PrintT("N " \o ToString(run_) \o " " \o Outcome)
=============================================================================
