------------------------------ MODULE ClassNames ------------------------------
(***************************************************************************)
(* Class names: texts are grown one character at a time; a recogniser with *)
(* one bit of memory runs along.  Checked: the recogniser decides exactly  *)
(* IsBinaryName.  Printed for every text: what building a class name from  *)
(* it must report, borrowed and owned, and how it relates to other names.  *)
(***************************************************************************)
EXTENDS Text, TLC, Json, IOUtils

VARIABLES txt, more, seg, alive

Depth == IF IOEnv.DEPTH = "5" THEN 5 ELSE 4
(* a NUL / . ; [ < ( e-acute, and a character whose low byte is that of / *)
Units == {<<97>>, <<0>>, <<47>>, <<46>>, <<59>>, <<91>>, <<60>>, <<40>>, <<195, 169>>, <<196, 175>>}
Starts == { <<>>,
            Asc("java/lang/"),
            Asc("a/b/c/d/e/f/g/hh"),
            [i \in 1..300 |-> IF (i % 37) = 0 THEN 47 ELSE 65 + (i % 26)],
            <<240, 159, 152, 128>>, <<226, 130, 172, 47>>, <<196, 174>>, <<196, 187>>, <<197, 155>>, <<239, 188, 143>>, Asc("java.lang."), Asc("Ljava/lang/"), Asc("[Ljava/") }

(* the recogniser: seg, whether something stands in the current segment *)
Feed(st, u) == IF ~st.alive THEN st
               ELSE IF u[1] \in {46, 59, 91} THEN [seg |-> FALSE, alive |-> FALSE]
               ELSE IF u[1] = 47 THEN [seg |-> FALSE, alive |-> st.seg]
               ELSE [seg |-> TRUE, alive |-> TRUE]
RECURSIVE FeedAll(_, _, _)
FeedAll(st, s, i) == IF i > Len(s) THEN st ELSE FeedAll(Feed(st, <<s[i]>>), s, i+1)

CInit == \E s \in Starts :
           LET st == FeedAll([seg |-> FALSE, alive |-> TRUE], s, 1)
           IN txt = s /\ more = (IF Len(s) = 0 THEN Depth ELSE 2) /\ seg = st.seg /\ alive = st.alive
CNext == /\ more > 0
         /\ \E u \in Units : LET st == Feed([seg |-> seg, alive |-> alive], u)
                             IN txt' = txt \o u /\ seg' = st.seg /\ alive' = st.alive
         /\ more' = more - 1

Recognised == alive /\ seg
RecogniserExact == Recognised <=> IsBinaryName(txt)
Prefixes == ~alive => ~IsBinaryName(txt)

Made(s, how) == IF IsBinaryName(s) THEN <<s, s, s, s, Len(s), how>> ELSE <<>>
Cmp(a, b) ==
  LET k == CHOOSE k \in 1..Len(a) + 1 :
             /\ \A j \in 1..k-1 : j <= Len(b) /\ a[j] = b[j]
             /\ k > Len(a) \/ k > Len(b) \/ a[k] # b[k]
  IN IF k > Len(a) THEN (IF k > Len(b) THEN 0 ELSE -1)
     ELSE IF k > Len(b) THEN 1 ELSE IF a[k] < b[k] THEN -1 ELSE 1
Rel(a, b) == IF IsBinaryName(a) /\ IsBinaryName(b)
             THEN LET c == Cmp(a, b) t(x) == IF x THEN 1 ELSE 0
                  IN <<t(a = b), t(a # b), c, c, 1, t(c < 0), t(c <= 0), t(c > 0), t(c >= 0), IF c > 0 THEN a ELSE b>>
             ELSE <<>>
Partners == {txt, Asc("a/a"), txt \o <<98>>} \cup
            (IF Len(txt) > 1 THEN {SubSeq(txt, 1, Len(txt) - 2) \o <<97, 97>>, <<97>> \o Tail(txt)} ELSE {})
Expect(b) == <<Made(txt, "borrowed"), Made(txt, "owned"), Rel(txt, b), Rel(txt, b)>>
Utf8Whole(b) == IsUtf8(b)
Emit == \A b \in {x \in Partners : IsUtf8(x)} :
          PrintT("X " \o ToString(txt) \o " | " \o ToString(b) \o " | " \o ToJson(Expect(b)))
=============================================================================
