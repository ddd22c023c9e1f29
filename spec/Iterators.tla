------------------------------ MODULE Iterators ------------------------------
(***************************************************************************)
(* Any number of iterators over one constant pool of N items.  An iterator *)
(* is NONE (not made, or dropped), at a position (0..N items delivered)    *)
(* or DONE (it has returned nothing).    Every explored transition is      *)
(* printed with a history that leads to it, to be replayed.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, IOUtils, Json

VARIABLES its, hist

N == atoi(IOEnv.ITEMS)
K == atoi(IOEnv.SLOTS)
Longest == atoi(IOEnv.LONGEST)     \* > 0: print only complete histories of this length
Slots == 1..K
NONE == -1
DONE == N + 1

IInit == its = [k \in Slots |-> NONE] /\ hist = <<>>

(* What an operation returns and what becomes of the iterator.             *)
(* item i: <<i>>; nothing: <<>>; several: the sequence of positions.       *)
(* c make, d drop, n next, t nth(1), u nth(3), m nth(the most), r collect, *)
(* e every other one, f skip(2).next, g for_each to the end, k count,      *)
(* l last (these three consume the iterator), s next long past the end,    *)
(* z size_hint.                                                            *)
At(s) == IF s = DONE THEN N ELSE s
Op(o, s) ==
  CASE o = "c" -> [r |-> ".", s |-> 0]
    [] o = "d" -> [r |-> ".", s |-> NONE]
    [] o = "n" -> IF At(s) < N THEN [r |-> <<At(s) + 1>>, s |-> At(s) + 1] ELSE [r |-> <<>>, s |-> DONE]
    [] o = "t" -> IF At(s) + 2 <= N THEN [r |-> <<At(s) + 2>>, s |-> At(s) + 2] ELSE [r |-> <<>>, s |-> DONE]
    [] o = "r" -> [r |-> [i \in 1..N - At(s) |-> At(s) + i], s |-> DONE]
    [] o = "u" -> IF At(s) + 4 <= N THEN [r |-> <<At(s) + 4>>, s |-> At(s) + 4] ELSE [r |-> <<>>, s |-> DONE]
    [] o = "m" -> [r |-> <<>>, s |-> DONE]
    [] o = "e" -> [r |-> [i \in 1..((N - At(s) + 1) \div 2) |-> At(s) + 2 * i - 1], s |-> DONE]
    [] o = "f" -> IF At(s) + 3 <= N THEN [r |-> <<At(s) + 3>>, s |-> At(s) + 3] ELSE [r |-> <<>>, s |-> DONE]
    [] o = "g" -> [r |-> [i \in 1..N - At(s) |-> At(s) + i], s |-> NONE]
    [] o = "k" -> [r |-> N - At(s), s |-> NONE]
    [] o = "l" -> [r |-> IF At(s) < N THEN <<N>> ELSE <<>>, s |-> NONE]
    [] o = "s" -> [r |-> N - At(s), s |-> DONE]
    [] o = "z" -> [r |-> N - At(s), s |-> s]
Enabled(o, s) == IF o = "c" THEN TRUE ELSE s # NONE

Do(k, o) ==
  /\ Enabled(o, its[k])
  /\ its' = [its EXCEPT ![k] = Op(o, its[k]).s]
  /\ hist' = Append(hist, <<o, k, Op(o, its[k]).r>>)
  /\ IF Longest = 0 THEN PrintT("X " \o ToJson(hist')) ELSE TRUE

INext == \E k \in Slots : \E o \in {"c", "d", "n", "t", "u", "m", "e", "f", "g", "k", "l", "r", "s", "z"} : Do(k, o)
(* long histories: mostly advancing *)
LNext == /\ Len(hist) < Longest
         /\ \E k \in Slots : \E o \in IF its[k] = NONE THEN {"c"}
                                      ELSE IF (Len(hist) % 19) = 7 THEN {"c", "d", "r", "s", "e", "g", "k", "l", "m"}
                                      ELSE {"n", "t", "u", "f", "z"} : Do(k, o)

IView == its
EmitLong == Longest > 0 /\ Len(hist) = Longest => PrintT("X " \o ToJson(hist))

TypeOK == \A k \in Slots : its[k] = NONE \/ its[k] = DONE \/ its[k] \in 0..N
(* no operation touches another iterator; a finished one stays finished until it is replaced *)
Independent == [][\E k \in Slots : \A j \in Slots : j # k => its'[j] = its[j]]_its
StaysFinished == [][\A k \in Slots : its[k] = DONE => its'[k] \in {DONE, NONE, 0}]_its
(* the items an iterator delivered one by one are the pool's, in order *)
Delivered(k) ==
  LET from == CHOOSE i \in 0..Len(hist) :
                /\ \A j \in i+1..Len(hist) : ~(hist[j][1] = "c" /\ hist[j][2] = k)
                /\ i = 0 \/ (hist[i][1] = "c" /\ hist[i][2] = k)
      nexts == SelectSeq(SubSeq(hist, from + 1, Len(hist)), LAMBDA h : h[2] = k /\ h[1] \in {"n", "t", "u", "m", "e", "f", "g", "k", "l", "r", "s"})
  IN nexts
InOrder == \A k \in Slots :
  LET d == Delivered(k)
      only == \A i \in 1..Len(d) : d[i][1] = "n"
  IN only => \A i \in 1..Len(d) : d[i][3] = IF i <= N THEN <<i>> ELSE <<>>
=============================================================================
