------------------------------- MODULE Bytes -------------------------------
(***************************************************************************)
(* Big-endian reads over a byte sequence.  Offsets are zero-based, as in   *)
(* the class file and in the implementation; TLA+ sequences are one-based. *)
(* TLC integers are 32-bit, so an unsigned u4 is only ever handled as a    *)
(* pair of u2 halves or as the signed i32 the parser reports.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

(* TLC keeps a function constructor unevaluated and may evaluate it again *)
(* at every use; these operators, semantically no-ops, make it a value.    *)
Tup(f) == <<>> \o f
Fun(f) == f @@ <<>>

Has(lim, i, n) == i + n <= lim          \* n more bytes are available before lim

U1(b, i) == b[i+1]
U2(b, i) == b[i+1] * 256 + b[i+2]
S1(x) == IF x >= 128 THEN x - 256 ELSE x
S2(x) == IF x >= 32768 THEN x - 65536 ELSE x
S4(b, i) == S2(U2(b, i)) * 65536 + U2(b, i+2)

(* A u4 used as a length: exact below 2^30, saturated above (no input is   *)
(* that long, so the saturated value only ever compares as "too long").    *)
U4len(b, i) == IF U2(b, i) >= 16384 THEN 1073741824
               ELSE U2(b, i) * 65536 + U2(b, i+2)

Slice(b, off, len) == SubSeq(b, off+1, off+len)

(* ---- text in the specification: TLA+ strings to byte sequences ---- *)
Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CharCode == Fun([ch \in {SubSeq(Printable, i, i) : i \in 1..95} |->
               31 + (CHOOSE i \in 1..95 : SubSeq(Printable, i, i) = ch)])
Asc(str) == Tup([i \in 1..Len(str) |-> CharCode[SubSeq(str, i, i)]])

(* ---- reader results ---- *)
FAIL == [ok |-> FALSE, ix |-> 0, v |-> <<>>]
OK(ix, v) == [ok |-> TRUE, ix |-> ix, v |-> v]

MaxOf(x, y) == IF x > y THEN x ELSE y
MinOf(x, y) == IF x < y THEN x ELSE y
=============================================================================
