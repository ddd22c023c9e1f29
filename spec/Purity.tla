-------------------------------- MODULE Purity --------------------------------
(***************************************************************************)
(* A caller's history of parses.  The library has no state, so the outcome *)
(* of a parse is Outcome[i] whatever came before; what varies is only the  *)
(* caller's side: which input was parsed last, which results are still     *)
(* alive, which input has been parsed very often (worn), and which input   *)
(* the caller's one buffer holds.  Every explored transition is printed    *)
(* with a history that leads to it, to be replayed.  HISTORIES =           *)
(* "alive": short histories with results kept alive;                       *)
(* "worn": one input parsed over and over, then any other;                 *)
(* "buffer": one buffer filled with one input after another.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, IOUtils, Json

VARIABLES prev, alive, worn, buffer, hist

Inputs == 1..atoi(IOEnv.INPUTS)
Kind == IOEnv.HISTORIES
PInit == prev = 0 /\ alive = 0 /\ worn = 0 /\ buffer = 0 /\ hist = <<>>
Log(t) == hist' = Append(hist, t) /\ PrintT("X " \o ToJson(hist'))
(* parse input i; keep: the result stays alive until the end *)
Parse(i, keep) ==
  /\ Kind = "worn" => worn # 0 /\ ~keep
  /\ Kind # "buffer"
  /\ keep => alive = 0
  /\ prev' = i
  /\ alive' = IF keep THEN i ELSE alive
  /\ Log(IF keep THEN ToString(i) \o "+" ELSE ToString(i))
  /\ UNCHANGED <<worn, buffer>>
(* parse input i over and over *)
Wear(i) ==
  /\ Kind = "worn" /\ worn = 0
  /\ prev' = i /\ worn' = i
  /\ hist' = Append(hist, ToString(i) \o "*")
  /\ UNCHANGED <<alive, buffer>>
(* fill the buffer with input i and parse it there *)
Refill(i) ==
  /\ Kind = "buffer"
  /\ prev' = i /\ buffer' = i
  /\ Log(ToString(i) \o "@")
  /\ UNCHANGED <<alive, worn>>
PNext == \E i \in Inputs : Wear(i) \/ Refill(i) \/ \E keep \in {TRUE, FALSE} : Parse(i, keep)
(* what was parsed last does not matter beside what was parsed very often *)
PView == IF worn # 0 THEN <<0, 0, worn, 0>> ELSE <<prev, alive, 0, buffer>>
AliveWasParsed == alive # 0 => \E k \in 1..Len(hist) : hist[k] = ToString(alive) \o "+"
WornFirst == worn # 0 => hist[1] = ToString(worn) \o "*"
BufferIsLast == buffer # 0 => hist[Len(hist)] = ToString(buffer) \o "@"
=============================================================================
