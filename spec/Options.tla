------------------------------- MODULE Options -------------------------------
(***************************************************************************)
(* Parse options as objects a caller makes, sets and uses.  A new object   *)
(* has bytecode on; it is as it was last set; setting one leaves another,  *)
(* and the default that parse_class uses, alone; using one does not change *)
(* it.  Every explored transition is printed with a history that leads to  *)
(* it, to be replayed: <<op, object, value or input, bytecode on>>.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, IOUtils, Json

VARIABLES opts, past, last, hist     \* past: the last few settings of each object

Slots == 1..2
Inputs == 1..atoi(IOEnv.INPUTS)
NONE == -1

OInit == opts = [k \in Slots |-> NONE] /\ past = [k \in Slots |-> <<>>] /\ last = <<0, 0>> /\ hist = <<>>
Log(t) == hist' = Append(hist, t) /\ PrintT("X " \o ToJson(hist'))
LastFew(q) == IF Len(q) > 3 THEN SubSeq(q, Len(q) - 2, Len(q)) ELSE q
New(k) == opts' = [opts EXCEPT ![k] = 1] /\ past' = [past EXCEPT ![k] = <<1>>] /\ Log(<<"d", k, 0, 0>>) /\ UNCHANGED last
Set(k, v) == opts[k] # NONE /\ opts' = [opts EXCEPT ![k] = v] /\ past' = [past EXCEPT ![k] = LastFew(Append(@, v))] /\ Log(<<"s", k, v, 0>>) /\ UNCHANGED last
Parse(k, i) == opts[k] # NONE /\ last' = <<i, opts[k]>> /\ Log(<<"p", k, i, opts[k]>>) /\ UNCHANGED <<opts, past>>
Plain(i) == last' = <<i, 1>> /\ Log(<<"q", 0, i, 1>>) /\ UNCHANGED <<opts, past>>
ONext == \/ \E k \in Slots : New(k) \/ (\E v \in 0..1 : Set(k, v)) \/ \E i \in Inputs : Parse(k, i)
         \/ \E i \in Inputs : Plain(i)
OView == <<opts, past, last>>

(* an object is as the history last left it *)
AsLastSet ==
  \A k \in Slots :
    LET mine == SelectSeq(hist, LAMBDA h : h[1] \in {"d", "s"} /\ h[2] = k)
        e == mine[Len(mine)]
    IN opts[k] = IF Len(mine) = 0 THEN NONE ELSE IF e[1] = "d" THEN 1 ELSE e[3]
UsingIsReading == [][\A k \in Slots : opts'[k] # opts[k] => hist'[Len(hist')][1] \in {"d", "s"} /\ hist'[Len(hist')][2] = k]_<<opts, hist>>
=============================================================================
