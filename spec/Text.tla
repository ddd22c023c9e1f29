-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Strings of the constant pool: modified UTF-8 decoding, the name         *)
(* predicates of JVMS 4.2, and the descriptor grammar of JVMS 4.3.         *)
(* A string is the sequence of its UTF-8 bytes.  Every character that has  *)
(* a meaning in these grammars is ASCII, so bytes are enough.              *)
(***************************************************************************)
EXTENDS Bytes

Cont(x) == x >= 128 /\ x <= 191

(* Length of the well-formed (standard) UTF-8 sequence at i, 0 if none.    *)
Utf8Unit(s, i) ==
  LET n == Len(s)
      a == s[i]
      c(k) == i + k <= n /\ Cont(s[i+k])
      in(k, lo, hi) == i + k <= n /\ s[i+k] >= lo /\ s[i+k] <= hi
  IN CASE a < 128                 -> 1
       [] a >= 194 /\ a <= 223    -> IF c(1) THEN 2 ELSE 0
       [] a = 224                 -> IF in(1, 160, 191) /\ c(2) THEN 3 ELSE 0
       [] a = 237                 -> IF in(1, 128, 159) /\ c(2) THEN 3 ELSE 0
       [] a \in 225..239          -> IF c(1) /\ c(2) THEN 3 ELSE 0
       [] a = 240                 -> IF in(1, 144, 191) /\ c(2) /\ c(3) THEN 4 ELSE 0
       [] a \in 241..243          -> IF c(1) /\ c(2) /\ c(3) THEN 4 ELSE 0
       [] a = 244                 -> IF in(1, 128, 143) /\ c(2) /\ c(3) THEN 4 ELSE 0
       [] OTHER                   -> 0

(* Well-formed: every lead byte starts a well-formed unit, and every       *)
(* continuation byte belongs to the unit of the lead byte just before it.  *)
Utf8Lead(s, i) == LET RECURSIVE Back(_)
                      Back(j) == IF j < 1 \/ i - j > 3 THEN 0
                                 ELSE IF Cont(s[j]) THEN Back(j-1) ELSE j
                  IN Back(i)
IsUtf8Full(s) ==
  \A i \in 1..Len(s) :
    IF Cont(s[i]) THEN LET j == Utf8Lead(s, i) IN j > 0 /\ i < j + Utf8Unit(s, j)
    ELSE Utf8Unit(s, i) > 0

IsAscii(s) == \A i \in 1..Len(s) : s[i] < 128

(* Plain UTF-8 (which includes raw NUL and 4-byte forms that strict        *)
(* modified UTF-8 forbids: a named leniency of the implementation).        *)
IsUtf8(s) == IsAscii(s) \/ IsUtf8Full(s)

(* One unit of modified UTF-8 at i: <<consumed, decoded bytes>>; consumed  *)
(* is 0 if there is none.  A surrogate pair takes six bytes and decodes to *)
(* a four-byte sequence; C0 80 is U+0000; raw NUL is not allowed.          *)
MUtf8Unit(s, i) ==
  LET n == Len(s)
      a == s[i]
      bad == <<0, <<>>>>
      at(k) == IF i + k <= n THEN s[i+k] ELSE 0
  IN CASE a = 0 -> bad
       [] a > 0 /\ a < 128 -> <<1, <<a>>>>
       [] a = 192 -> IF at(1) = 128 THEN <<2, <<0>>>> ELSE bad
       [] a >= 194 /\ a <= 223 -> IF Cont(at(1)) THEN <<2, <<a, at(1)>>>> ELSE bad
       [] a >= 224 /\ a <= 239 ->
            IF ~(Cont(at(1)) /\ Cont(at(2))) THEN bad
            ELSE IF (a = 224 /\ at(1) < 160) THEN bad
            ELSE IF a # 237 \/ at(1) <= 159 THEN <<3, <<a, at(1), at(2)>>>>
            ELSE IF at(1) >= 176 THEN bad              \* low surrogate first
            ELSE IF at(3) = 237 /\ at(4) >= 176 /\ at(4) <= 191 /\ Cont(at(5))
                 THEN LET hi == (at(1) - 160) * 64 + (at(2) - 128)   \* 10 bits
                          lo == (at(4) - 176) * 64 + (at(5) - 128)   \* 10 bits
                          cp == 65536 + hi * 1024 + lo
                      IN <<6, << 240 + (cp \div 262144),
                                 128 + ((cp \div 4096) % 64),
                                 128 + ((cp \div 64) % 64),
                                 128 + (cp % 64) >> >>
                 ELSE bad
       [] OTHER -> bad

(* Up to 2^k units from i on.                                              *)
RECURSIVE MUtf8UpTo(_, _, _)
MUtf8UpTo(s, i, k) ==
  IF i > Len(s) THEN [ok |-> TRUE, e |-> i, v |-> <<>>]
  ELSE IF k = 0
       THEN LET u == MUtf8Unit(s, i)
            IN [ok |-> u[1] > 0, e |-> i + u[1], v |-> u[2]]
       ELSE LET l == MUtf8UpTo(s, i, k-1)
            IN IF ~l.ok THEN l
               ELSE LET r == MUtf8UpTo(s, l.e, k-1)
                    IN IF ~r.ok THEN r ELSE [ok |-> TRUE, e |-> r.e, v |-> l.v \o r.v]
MUtf8(s) == MUtf8UpTo(s, 1, 31)

(* A constant-pool string: where it is in the input, what kind it is and   *)
(* what it decodes to.  k = "b": the input bytes are the string (reported  *)
(* without copying); "o": decoded to a new string; "x": not representable  *)
(* as Unicode text, only the raw bytes exist.  m is the observation mode   *)
(* (see StrV) the string is to be reported in.                             *)
DecodeString(raw, off, m) ==
  IF IsUtf8(raw) THEN [k |-> "b", off |-> off, s |-> raw, m |-> m]
  ELSE LET d == MUtf8(raw)
       IN IF d.ok THEN [k |-> "o", off |-> off, s |-> d.v, m |-> m]
          ELSE [k |-> "x", off |-> off, s |-> raw, m |-> m]

------------------------------------------------------------------------------
(* Names, JVMS 4.2                                                          *)
DOT == 46  SLASH == 47  SEMI == 59  LT == 60  GT == 62  LBRACK == 91
LPAR == 40  RPAR == 41  BSLASH == 92  COLON == 58  AT == 64

IsUnqualifiedName(s) ==
  Len(s) > 0 /\ \A i \in 1..Len(s) : s[i] \notin {DOT, SEMI, LBRACK, SLASH}

IsBinaryName(s) ==
  /\ Len(s) > 0
  /\ s[1] # SLASH /\ s[Len(s)] # SLASH
  /\ \A i \in 1..Len(s) :
       /\ s[i] \notin {DOT, SEMI, LBRACK}
       /\ s[i] = SLASH /\ i < Len(s) => s[i+1] # SLASH

INIT_NAME == Asc("<init>")
CLINIT_NAME == Asc("<clinit>")

(* Method names: unqualified and without < or >, except <init>, <clinit>.  *)
IsMethodName(s, allowInit, allowClinit) ==
  IF Len(s) = 0 THEN FALSE
  ELSE IF s[1] = LT THEN (allowInit /\ s = INIT_NAME) \/ (allowClinit /\ s = CLINIT_NAME)
  ELSE \A i \in 1..Len(s) : s[i] \notin {DOT, SEMI, LBRACK, SLASH, LT, GT}

(* Module names: no control characters; ':' '@' and '\' only escaped by a  *)
(* '\'.  Backslashes escape each other in pairs from the left, so what     *)
(* counts is whether the run of them before a character is odd.            *)
Backslashes(s, i) ==            \* how many there are just before i
  LET RECURSIVE Back(_)
      Back(j) == IF j >= 1 /\ s[j] = BSLASH THEN Back(j-1) ELSE i - 1 - j
  IN Back(i-1)
IsModuleName(s) ==
  \A i \in 1..Len(s) :
    /\ s[i] >= 32
    /\ s[i] \in {COLON, AT} => Backslashes(s, i) % 2 = 1
    /\ s[i] = BSLASH /\ (i = Len(s) \/ s[i+1] # BSLASH)
         => Backslashes(s, i + 1) % 2 = 0 \/ (i < Len(s) /\ s[i+1] \in {COLON, AT})

------------------------------------------------------------------------------
(* Descriptors, JVMS 4.3                                                    *)
BaseTypes == {66, 67, 68, 70, 73, 74, 83, 90}       \* B C D F I J S Z
MaxDims == 255
NODESC == [ok |-> FALSE, b |-> 0, e |-> 0, dims |-> 0, base |-> 0, cs |-> 1, cl |-> 0]

(* The least index in lo..hi whose element is in set, hi+1 if none.        *)
RECURSIVE FirstIn(_, _, _, _)
FirstIn(s, lo, hi, set) ==
  IF lo > hi THEN hi + 1
  ELSE IF lo = hi THEN (IF s[lo] \in set THEN lo ELSE hi + 1)
  ELSE LET mid == (lo + hi) \div 2
           l == FirstIn(s, lo, mid, set)
       IN IF l <= mid THEN l ELSE FirstIn(s, mid+1, hi, set)

(* Where the class name that starts at i ends (the index of its ';'), 0 if *)
(* there is none: non-empty segments separated by single slashes.          *)
ClassEnd(s, i) ==
  LET q == FirstIn(s, i, Len(s), {SEMI})
  IN IF q > Len(s) THEN 0
     ELSE IF IsBinaryName(SubSeq(s, i, q-1)) THEN q ELSE 0

(* The number of '[' from i on.                                            *)
DimsAt(s, i) == LET RECURSIVE Up(_)
                    Up(j) == IF j <= Len(s) /\ s[j] = LBRACK /\ j - i <= MaxDims THEN Up(j+1) ELSE j - i
                IN Up(i)

(* The field descriptor that starts at i; e is the index after it.         *)
FieldDescAt(s, i) ==
  LET n == DimsAt(s, i)
      j == i + n
  IN IF n > MaxDims \/ j > Len(s) THEN NODESC
     ELSE IF s[j] \in BaseTypes
          THEN [ok |-> TRUE, b |-> i, e |-> j+1, dims |-> n, base |-> s[j], cs |-> 1, cl |-> 0]
     ELSE IF s[j] = 76                                          \* L
          THEN LET q == ClassEnd(s, j+1)
               IN IF q = 0 THEN NODESC
                  ELSE [ok |-> TRUE, b |-> i, e |-> q+1, dims |-> n, base |-> 76,
                        cs |-> j+1, cl |-> q - (j+1)]
     ELSE NODESC

(* A descriptor is the whole string: nothing may follow it.                *)
FieldDesc(s) == LET d == FieldDescAt(s, 1)
                IN IF d.ok /\ d.e = Len(s) + 1 THEN d ELSE NODESC

(* Up to 2^k parameters from i on, stopping at the closing parenthesis.    *)
RECURSIVE ParamsUpTo(_, _, _)
ParamsUpTo(s, i, k) ==
  IF i <= Len(s) /\ s[i] = RPAR THEN [ok |-> TRUE, e |-> i, ps |-> <<>>]
  ELSE IF k = 0
       THEN LET d == FieldDescAt(s, i)
            IN IF d.ok THEN [ok |-> TRUE, e |-> d.e, ps |-> <<d>>]
               ELSE [ok |-> FALSE, e |-> 0, ps |-> <<>>]
       ELSE LET l == ParamsUpTo(s, i, k-1)
            IN IF ~l.ok THEN l
               ELSE LET r == ParamsUpTo(s, l.e, k-1)
                    IN IF ~r.ok THEN r
                       ELSE [ok |-> TRUE, e |-> r.e, ps |-> l.ps \o r.ps]

NOMETHOD == [ok |-> FALSE, ps |-> <<>>, void |-> FALSE, ret |-> NODESC]
MethodDesc(s) ==
  IF Len(s) = 0 \/ s[1] # LPAR THEN NOMETHOD
  ELSE LET p == ParamsUpTo(s, 2, 17)          \* more than any string has
           q == p.e + 1                       \* just after the parenthesis
       IN IF ~p.ok THEN NOMETHOD
          ELSE IF q = Len(s) /\ s[q] = 86                    \* V
               THEN [ok |-> TRUE, ps |-> p.ps, void |-> TRUE, ret |-> NODESC]
          ELSE LET r == FieldDescAt(s, q)
               IN IF r.ok /\ r.e = Len(s) + 1
                  THEN [ok |-> TRUE, ps |-> p.ps, void |-> FALSE, ret |-> r]
                  ELSE NOMETHOD

IsFieldDesc(s) == FieldDesc(s).ok
IsMethodDesc(s) == MethodDesc(s).ok
IsReturnDesc(s) == s = <<86>> \/ IsFieldDesc(s)
IsArrayDesc(s) == Len(s) > 0 /\ s[1] = LBRACK /\ IsFieldDesc(s)
IsClassInfoName(s) == IsBinaryName(s) \/ IsArrayDesc(s)
=============================================================================
