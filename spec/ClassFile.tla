----------------------------- MODULE ClassFile ------------------------------
(***************************************************************************)
(* The class-file parser as a state machine over an input byte sequence.   *)
(* One action per step of the format: header, batches of pool entries, the *)
(* checks on the whole pool, this/super, interfaces, one (batch of) field, *)
(* method or class attribute at a time, and the checks on the whole class. *)
(* A behaviour ends in phase "accept", with the complete observable value  *)
(* in `out`, or in phase "reject".                                         *)
(***************************************************************************)
EXTENDS Attributes, FiniteSets

CONSTANTS PoolBatchLog,     \* pool entries are read up to 2^PoolBatchLog per step
          MemberBatch       \* members are read up to MemberBatch per step

VARIABLES
  in,      \* [b |-> the input, m |-> the observation mode]; never changes
  ph,      \* phase
  ix,      \* cursor: number of input bytes consumed
  pool,    \* pool slots so far
  left,    \* slots or members still to be read in this phase
  acc,     \* members read so far in this phase
  hd       \* what earlier phases produced
vars == <<in, ph, ix, pool, left, acc, hd>>

Done == {"accept", "reject"}
B == in.b
L == Len(in.b)
M == in.m
(* Observation modes: v values, p strings as places in the input, a values *)
(* without the pool items, d descriptors as text, n bytecode off,          *)
(* l instruction lookups (the last four without the pool items too).       *)
StrMode == CASE M = "p" -> "p" [] M = "d" -> "d" [] OTHER -> "v"
Ctx == [b |-> B, pool |-> pool, bc |-> M \notin {"n", "x"}, lk |-> M = "l"]

InitWith(i) ==
  /\ in = i
  /\ ph = "magic" /\ ix = 0 /\ pool = <<>> /\ left = 0 /\ acc = <<>> /\ hd = <<>>

Reject == /\ ph' = "reject"
          /\ UNCHANGED <<in, ix, pool, left, acc, hd>>

(* ---- header and pool ---- *)
Magic ==
  /\ ph = "magic"
  /\ IF /\ Has(L, 0, 4) /\ U2(B, 0) = 51966 /\ U2(B, 2) = 47806      \* CAFE BABE
        /\ Has(L, 4, 6)
     THEN /\ ph' = "pool"
          /\ ix' = 10
          /\ hd' = [minor |-> U2(B, 4), major |-> U2(B, 6)]
          /\ left' = MaxOf(U2(B, 8), 1) - 1           \* a count of zero is read as one
          /\ pool' = <<ZeroEntry>>
          /\ UNCHANGED <<in, acc>>
     ELSE Reject

PoolEntries ==
  /\ ph = "pool" /\ left > 0
  /\ LET r == ReadEntries(B, ix, left, hd.major, StrMode, PoolBatchLog) IN
     IF r.ok
     THEN /\ ix' = r.ix
          /\ pool' = pool \o r.v
          /\ left' = left - Len(r.v)
          /\ UNCHANGED <<in, ph, acc, hd>>
     ELSE Reject

PoolDone ==
  /\ ph = "pool" /\ left = 0
  /\ IF Resolves(pool) THEN ph' = "validate" /\ UNCHANGED <<in, ix, pool, left, acc, hd>>
     ELSE Reject

Validate ==
  /\ ph = "validate"
  /\ IF PoolValid(pool, hd.major) THEN ph' = "class" /\ UNCHANGED <<in, ix, pool, left, acc, hd>>
     ELSE Reject

(* ---- the class itself ---- *)
IsPlainClass(i) == PoolHas(pool, i, {CLASS}) /\ IsBinaryName(Txt(pool, At(pool, i).x))

ModuleFlagOk(flags) ==
  (flags & MANDATED) # 0 => hd.major >= 53 /\ flags = MANDATED     \* 0x8000 is MODULE here

ThisSuper ==
  /\ ph = "class"
  /\ IF ~Has(L, ix, 6) THEN Reject
     ELSE LET flags == U2(B, ix) & ClassMask
              this == U2(B, ix+2)
              super == U2(B, ix+4)
          IN IF /\ ModuleFlagOk(flags)
                /\ IsPlainClass(this)
                /\ super = 0 \/ IsPlainClass(super)
             THEN /\ ph' = "interfaces"
                  /\ ix' = ix + 6
                  /\ hd' = hd @@ [flags |-> flags, this |-> ClassOf(pool, this),
                                  super |-> IF super = 0 THEN <<>> ELSE <<ClassOf(pool, super)>>]
                  /\ UNCHANGED <<in, pool, left, acc>>
             ELSE Reject

Interfaces ==
  /\ ph = "interfaces"
  /\ IF ~Has(L, ix, 2) THEN Reject
     ELSE LET n == U2(B, ix)
              ref(i) == U2(B, ix + 2*i)
          IN IF Has(L, ix + 2, 2*n) /\ \A i \in 1..n : IsPlainClass(ref(i))
             THEN /\ ph' = "fieldcount"
                  /\ ix' = ix + 2 + 2*n
                  /\ hd' = hd @@ [interfaces |-> Tup([i \in 1..n |-> ClassOf(pool, ref(i))])]
                  /\ UNCHANGED <<in, pool, left, acc>>
             ELSE Reject

(* ---- members ---- *)
(* v: what is reported; key: what must be unique.                          *)
ReadField(at) ==
  IF ~Has(L, at, 6) THEN FAIL
  ELSE LET n == U2(B, at+2)
           d == U2(B, at+4)
       IN IF ~(KindOk(pool, n, "uqname") /\ KindOk(pool, d, "fdesc")) THEN FAIL
          ELSE LET a == RdAttrs(Ctx, at+6, 0) IN
               IF ~a.ok THEN FAIL
               ELSE OK(a.ix, [v |-> <<U2(B, at) & FieldMask, TextOf(pool, n), FieldDescV(At(pool, d).s), a.v>>,
                              key |-> <<Txt(pool, n), Txt(pool, d)>>])

InInterface == (hd.flags & INTERFACE) # 0
MethodOk(name, desc) ==
  /\ IsMethodName(name, ~InInterface, TRUE)
  /\ IsMethodDesc(desc)
  /\ name = INIT_NAME => MethodDesc(desc).void
  /\ name = CLINIT_NAME => /\ MethodDesc(desc).void
                           /\ hd.major >= 51 => MethodDesc(desc).ps = <<>>

ReadMethod(at) ==
  IF ~Has(L, at, 6) THEN FAIL
  ELSE LET n == U2(B, at+2)
           d == U2(B, at+4)
       IN IF ~(KindOk(pool, n, "utf8") /\ KindOk(pool, d, "utf8")) THEN FAIL
          ELSE IF ~MethodOk(Txt(pool, n), Txt(pool, d)) THEN FAIL
          ELSE LET a == RdAttrs(Ctx, at+6, 0) IN
               IF ~a.ok THEN FAIL
               ELSE OK(a.ix, [v |-> <<U2(B, at) & MethodMask, TextOf(pool, n), MethodDescV(At(pool, d).s), a.v>>,
                              key |-> <<Txt(pool, n), Txt(pool, d)>>])

ReadClassAttr(at) ==
  LET r == RdAttr(Ctx, at, 0) IN
  IF r.ok THEN OK(r.ix, [v |-> r.v, key |-> <<>>]) ELSE FAIL

RECURSIVE Members(_, _, _)
Members(Read(_), at, n) ==
  IF n = 1 THEN LET r == Read(at) IN IF r.ok THEN OK(r.ix, <<r.v>>) ELSE FAIL
  ELSE LET l == Members(Read, at, n \div 2)
       IN IF ~l.ok THEN FAIL
          ELSE LET r == Members(Read, l.ix, n - (n \div 2))
               IN IF r.ok THEN OK(r.ix, l.v \o r.v) ELSE FAIL

Count(from, to) ==
  /\ ph = from
  /\ IF Has(L, ix, 2)
     THEN ph' = to /\ ix' = ix + 2 /\ left' = U2(B, ix) /\ acc' = <<>> /\ UNCHANGED <<in, pool, hd>>
     ELSE Reject

Some(phase, Read(_)) ==
  /\ ph = phase /\ left > 0
  /\ LET n == MinOf(left, MemberBatch)
         r == Members(Read, ix, n)
     IN IF r.ok
        THEN ix' = r.ix /\ acc' = acc \o r.v /\ left' = left - n /\ UNCHANGED <<in, ph, pool, hd>>
        ELSE Reject

Values == Tup([i \in 1..Len(acc) |-> acc[i].v])
Keys == Tup([i \in 1..Len(acc) |-> acc[i].key])
AllDifferent(s) == Cardinality({s[i] : i \in 1..Len(s)}) = Len(s)

FieldCount == Count("fieldcount", "fields")
Fields == Some("fields", ReadField)
FieldsDone ==
  /\ ph = "fields" /\ left = 0
  /\ IF AllDifferent(Keys)
     THEN ph' = "methodcount" /\ hd' = hd @@ [fields |-> Values] /\ UNCHANGED <<in, ix, pool, left, acc>>
     ELSE Reject

MethodCount == Count("methodcount", "methods")
Methods == Some("methods", ReadMethod)
MethodsDone ==
  /\ ph = "methods" /\ left = 0
  /\ IF AllDifferent(Keys)
     THEN ph' = "attrcount" /\ hd' = hd @@ [methods |-> Values] /\ UNCHANGED <<in, ix, pool, left, acc>>
     ELSE Reject

AttrCount == Count("attrcount", "attrs")
Attrs == Some("attrs", ReadClassAttr)
AttrsDone ==
  /\ ph = "attrs" /\ left = 0
  /\ ph' = "end" /\ hd' = hd @@ [attrs |-> Values] /\ UNCHANGED <<in, ix, pool, left, acc>>

(* ---- checks on the whole class ---- *)
ModuleShape ==
  (hd.flags & MANDATED) # 0 => /\ hd.super = <<>> /\ hd.interfaces = <<>>
                               /\ hd.fields = <<>> /\ hd.methods = <<>>

IsBootstrap(a) == a[2] = "BootstrapMethods"
BootstrapLinked ==
  LET uses == {i \in 1..Len(pool) : pool[i].t \in {DYNAMIC, INDY}}
      tables == SelectSeq(hd.attrs, IsBootstrap)
  IN uses # {} => /\ Len(tables) = 1
                  /\ \A i \in uses : pool[i].w[1] < Len(tables[1][3])

Result == << hd.minor, hd.major, hd.flags, hd.this, hd.super, hd.interfaces,
             hd.fields, hd.methods, hd.attrs,
             IF M \in {"v", "p", "x"} THEN Items(pool) ELSE <<>> >>

End ==
  /\ ph = "end"
  /\ IF ix = L /\ ModuleShape /\ BootstrapLinked
     THEN ph' = "accept" /\ hd' = hd @@ [result |-> Result] /\ UNCHANGED <<in, ix, pool, left, acc>>
     ELSE Reject

Next == \/ Magic \/ PoolEntries \/ PoolDone \/ Validate \/ ThisSuper \/ Interfaces
        \/ FieldCount \/ Fields \/ FieldsDone
        \/ MethodCount \/ Methods \/ MethodsDone
        \/ AttrCount \/ Attrs \/ AttrsDone \/ End

------------------------------------------------------------------------------
(* Properties of the design, checked by TLC in every reachable state.       *)

CursorInBounds == ix >= 0 /\ ix <= L
CursorMoves == [][ix' >= ix /\ in' = in]_vars
AcceptConsumesAll == ph = "accept" => ix = L

(* Every reference of an accepted pool is to a usable entry.               *)
RefsClosed ==
  ph = "accept" =>
    \A i \in 1..Len(pool) : \A r \in Refs(pool[i]) :
      r \in 1..Len(pool)-1 /\ r # i-1 /\ At(pool, r).t \notin {ZERO, UNUSED}
(* A wide entry is followed by its unusable second slot, and only those are*)
WideSlots ==
  ph \notin {"magic", "pool", "reject"} =>
    \A i \in 1..Len(pool) :
      /\ Wide(pool[i].t) => i < Len(pool) /\ pool[i+1].t = UNUSED
      /\ pool[i].t = UNUSED => Wide(pool[i-1].t)
(* The references of a valid pool form no cycle: follow them at most 4 deep*)
RECURSIVE Depth(_, _)
Depth(i, n) == IF n = 0 THEN 0
               ELSE LET D == {Depth(r, n-1) : r \in Refs(At(pool, i))}
                    IN IF D = {} THEN 0 ELSE 1 + (CHOOSE x \in D : \A y \in D : y <= x)
RefsAcyclic == ph \in {"class", "accept"} => \A i \in 0..Len(pool)-1 : Depth(i, 6) <= 4
=============================================================================
