-------------------------------- MODULE Pool --------------------------------
(***************************************************************************)
(* The constant pool, JVMS 4.4: reading one entry, resolving references,   *)
(* validating kinds and names, and what each entry denotes.                *)
(* The pool is a sequence; pool index i of the class file is element i+1.  *)
(* Slot 0 is the Zero entry; the slot after a Long/Double is Unused.       *)
(***************************************************************************)
EXTENDS Text, Bitwise

ZERO == 0  UTF8 == 1  INT == 3  FLOAT == 4  LONG == 5  DOUBLE == 6  CLASS == 7
STRINGC == 8  FIELDREF == 9  METHODREF == 10  IMETHODREF == 11  NAT == 12
MHANDLE == 15  MTYPE == 16  DYNAMIC == 17  INDY == 18  MODULE_ == 19  PACKAGE_ == 20
UNUSED == 21

NoStr == [k |-> "-", off |-> 0, s |-> <<>>, m |-> "v"]
Entry(t, x, y, w, s) == [t |-> t, x |-> x, y |-> y, w |-> w, s |-> s]
ZeroEntry == Entry(ZERO, 0, 0, <<>>, NoStr)
UnusedEntry == Entry(UNUSED, 0, 0, <<>>, NoStr)

(* Entry kinds introduced after the original format need a class-file      *)
(* version that has them.                                                  *)
TagKnown(t, major) ==
  CASE t \in {1, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12} -> TRUE
    [] t \in {MHANDLE, MTYPE, INDY} -> major >= 51
    [] t = DYNAMIC -> major >= 55
    [] t \in {MODULE_, PACKAGE_} -> major >= 53
    [] OTHER -> FALSE

OneRef == {CLASS, STRINGC, MTYPE, MODULE_, PACKAGE_}
TwoRef == {FIELDREF, METHODREF, IMETHODREF, NAT}

(* Read the entry at ix.                                                   *)
ReadEntry(b, ix, major, m) ==
  LET L == Len(b) IN
  IF ~Has(L, ix, 1) THEN FAIL
  ELSE LET t == U1(b, ix) IN
  IF ~TagKnown(t, major) THEN FAIL
  ELSE CASE t = UTF8 ->
              IF ~Has(L, ix+1, 2) THEN FAIL
              ELSE LET n == U2(b, ix+1) IN
                   IF ~Has(L, ix+3, n) THEN FAIL
                   ELSE OK(ix+3+n, Entry(UTF8, 0, 0, <<>>,
                                         DecodeString(Slice(b, ix+3, n), ix+3, m)))
         [] t = INT -> IF Has(L, ix+1, 4)
                       THEN OK(ix+5, Entry(t, 0, 0, <<S4(b, ix+1)>>, NoStr)) ELSE FAIL
         [] t = FLOAT -> IF Has(L, ix+1, 4)
                       THEN OK(ix+5, Entry(t, 0, 0, <<U2(b, ix+1), U2(b, ix+3)>>, NoStr)) ELSE FAIL
         [] t \in {LONG, DOUBLE} -> IF Has(L, ix+1, 8)
                       THEN OK(ix+9, Entry(t, 0, 0,
                               <<U2(b, ix+1), U2(b, ix+3), U2(b, ix+5), U2(b, ix+7)>>, NoStr)) ELSE FAIL
         [] t \in OneRef -> IF Has(L, ix+1, 2)
                       THEN OK(ix+3, Entry(t, U2(b, ix+1), 0, <<>>, NoStr)) ELSE FAIL
         [] t \in TwoRef -> IF Has(L, ix+1, 4)
                       THEN OK(ix+5, Entry(t, U2(b, ix+1), U2(b, ix+3), <<>>, NoStr)) ELSE FAIL
         [] t = MHANDLE -> IF Has(L, ix+1, 3) /\ U1(b, ix+1) \in 1..9
                       THEN OK(ix+4, Entry(t, U2(b, ix+2), 0, <<U1(b, ix+1)>>, NoStr)) ELSE FAIL
         [] t \in {DYNAMIC, INDY} -> IF Has(L, ix+1, 4)
                       THEN OK(ix+5, Entry(t, U2(b, ix+3), 0, <<U2(b, ix+1)>>, NoStr)) ELSE FAIL

Wide(t) == t \in {LONG, DOUBLE}

(* Up to 2^k entries filling at most `left` slots.  v lists the slots, so  *)
(* a long or double contributes two; its second slot must be in the pool.  *)
RECURSIVE ReadEntries(_, _, _, _, _, _)
ReadEntries(b, ix, left, major, m, k) ==
  IF left = 0 THEN OK(ix, <<>>)
  ELSE IF k = 0
       THEN LET r == ReadEntry(b, ix, major, m)
            IN IF ~r.ok THEN FAIL
               ELSE IF ~Wide(r.v.t) THEN OK(r.ix, <<r.v>>)
               ELSE IF left < 2 THEN FAIL
               ELSE OK(r.ix, <<r.v, UnusedEntry>>)
       ELSE LET l == ReadEntries(b, ix, left, major, m, k-1)
            IN IF ~l.ok THEN FAIL
               ELSE LET r == ReadEntries(b, l.ix, left - Len(l.v), major, m, k-1)
                    IN IF ~r.ok THEN FAIL ELSE OK(r.ix, l.v \o r.v)

(* References made by an entry.                                            *)
Refs(e) == CASE e.t \in OneRef \cup {MHANDLE, DYNAMIC, INDY} -> {e.x}
             [] e.t \in TwoRef -> {e.x, e.y}
             [] OTHER -> {}

(* Every reference stays inside the pool and is not to the entry itself.   *)
Resolves(pool) ==
  \A i \in 1..Len(pool) : \A r \in Refs(pool[i]) : r # i-1 /\ r < Len(pool)

(* What a MethodHandle of reference kind k may refer to (JVMS 4.4.8).      *)
HandleTargets(k, major) ==
  CASE k \in 1..4 -> {FIELDREF}
    [] k \in {5, 8} -> {METHODREF}
    [] k \in {6, 7} -> IF major < 52 THEN {METHODREF} ELSE {METHODREF, IMETHODREF}
    [] k = 9 -> {IMETHODREF}

At(pool, i) == pool[i+1]
IsText(pool, i) == At(pool, i).t = UTF8 /\ At(pool, i).s.k # "x"
Txt(pool, i) == At(pool, i).s.s

(* Kinds and names, JVMS 4.4 and 4.8.                                      *)
EntryValid(pool, e, major) ==
  CASE e.t = CLASS  -> IsText(pool, e.x) /\ IsClassInfoName(Txt(pool, e.x))
    [] e.t = STRINGC -> At(pool, e.x).t = UTF8
    [] e.t = FIELDREF ->
         /\ At(pool, e.x).t = CLASS
         /\ At(pool, e.y).t = NAT
         /\ IsText(pool, At(pool, e.y).y) /\ IsFieldDesc(Txt(pool, At(pool, e.y).y))
    [] e.t \in {METHODREF, IMETHODREF} ->
         /\ At(pool, e.x).t = CLASS
         /\ At(pool, e.y).t = NAT
         /\ IsText(pool, At(pool, e.y).y) /\ IsMethodDesc(Txt(pool, At(pool, e.y).y))
    [] e.t = NAT ->
         /\ IsText(pool, e.x) /\ IsUnqualifiedName(Txt(pool, e.x))
         /\ IsText(pool, e.y)
    [] e.t = MHANDLE -> At(pool, e.x).t \in HandleTargets(e.w[1], major)
    [] e.t = MTYPE -> IsText(pool, e.x) /\ IsMethodDesc(Txt(pool, e.x))
    [] e.t = DYNAMIC ->
         /\ At(pool, e.x).t = NAT
         /\ IsText(pool, At(pool, e.x).y) /\ IsFieldDesc(Txt(pool, At(pool, e.x).y))
    [] e.t = INDY ->
         /\ At(pool, e.x).t = NAT
         /\ IsText(pool, At(pool, e.x).y) /\ IsMethodDesc(Txt(pool, At(pool, e.x).y))
    [] e.t = MODULE_ -> IsText(pool, e.x) /\ IsModuleName(Txt(pool, e.x))
    [] e.t = PACKAGE_ -> IsText(pool, e.x) /\ IsBinaryName(Txt(pool, e.x))
    [] OTHER -> TRUE

PoolValid(pool, major) == \A i \in 1..Len(pool) : EntryValid(pool, pool[i], major)

------------------------------------------------------------------------------
(* Denotation: what the API reports for an entry.  Values are tuples that  *)
(* serialise to the JSON the harness writes for the real code.             *)
(* A string is reported by its content (modes "v" and "d"), or in mode "p" *)
(* by where in the input it lives: <<off, len>>, and as <<"o", content>>   *)
(* when it had to be decoded.  Raw byte slices are always <<off, len>>.    *)
StrV(s) == IF s.m # "p" THEN s.s
           ELSE IF s.k = "b" THEN (IF Len(s.s) = 0 THEN <<0, 0>> ELSE <<s.off, Len(s.s)>>)
           ELSE <<"o", s.s>>
SubStrV(s, start, len) ==                     \* start is 1-based in s.s
  StrV([k |-> s.k, off |-> s.off + start - 1, s |-> SubSeq(s.s, start, start + len - 1), m |-> s.m])
SliceV(off, len) == IF len = 0 THEN <<0, 0>> ELSE <<off, len>>

(* A descriptor: dimensions and element type, or in mode "d" the text it   *)
(* formats to.  d is the parse result for the string s.                    *)
DescV(s, d) ==
  IF s.m = "d" THEN SubSeq(s.s, d.b, d.e - 1)
  ELSE << d.dims, IF d.base = 76 THEN SubStrV(s, d.cs, d.cl) ELSE d.base >>
FieldDescV(s) == DescV(s, FieldDesc(s.s))
MethodDescV(s) ==
  LET d == MethodDesc(s.s) IN
  IF s.m = "d" THEN s.s
  ELSE << Tup([i \in 1..Len(d.ps) |-> DescV(s, d.ps[i])]),
          IF d.void THEN <<>> ELSE << DescV(s, d.ret) >> >>

RefKindName == << "GetField", "GetStatic", "PutField", "PutStatic", "InvokeVirtual",
                  "InvokeStatic", "InvokeSpecial", "NewInvokeSpecial", "InvokeInterface" >>

TextOf(pool, i) == StrV(At(pool, i).s)
ClassOf(pool, i) == TextOf(pool, At(pool, i).x)
NatOf(pool, i) == << TextOf(pool, At(pool, i).x), TextOf(pool, At(pool, i).y) >>
MemberOf(pool, i) == << ClassOf(pool, At(pool, i).x) >> \o NatOf(pool, At(pool, i).y)

MemberKindName(t) == CASE t = FIELDREF -> "Field" [] t = METHODREF -> "Method"
                       [] t = IMETHODREF -> "InterfaceMethod"
HandleOf(pool, e) ==
  << "MethodHandle", RefKindName[e.w[1]], MemberKindName(At(pool, e.x).t) >> \o MemberOf(pool, e.x)

LiteralOf(pool, e) ==
  CASE e.t = INT -> <<"Integer", e.w>>
    [] e.t = FLOAT -> <<"Float", e.w>>
    [] e.t = LONG -> <<"Long", e.w>>
    [] e.t = DOUBLE -> <<"Double", e.w>>
    [] e.t = STRINGC -> LET u == At(pool, e.x) IN
         IF u.s.k = "x" THEN <<"StringBytes", SliceV(u.s.off, Len(u.s.s))>>
         ELSE <<"String", StrV(u.s)>>

LITERALS == {INT, FLOAT, LONG, DOUBLE, STRINGC}
LOADABLE == LITERALS \cup {CLASS, MHANDLE, MTYPE, DYNAMIC}

LoadableOf(pool, e) ==
  CASE e.t \in LITERALS -> LiteralOf(pool, e)
    [] e.t = CLASS -> <<"ClassInfo", TextOf(pool, e.x)>>
    [] e.t = MHANDLE -> HandleOf(pool, e)
    [] e.t = MTYPE -> <<"MethodType", TextOf(pool, e.x)>>
    [] e.t = DYNAMIC -> <<"Dynamic", e.w[1]>> \o NatOf(pool, e.x)

(* The item the pool iterator yields for an entry (none for Utf8 & slots). *)
ItemOf(pool, e) ==
  CASE e.t \in LITERALS \cup {CLASS, MHANDLE, MTYPE, DYNAMIC} -> LoadableOf(pool, e)
    [] e.t = FIELDREF -> <<"FieldRef", ClassOf(pool, e.x)>> \o NatOf(pool, e.y)
    [] e.t = METHODREF -> <<"MethodRef", ClassOf(pool, e.x)>> \o NatOf(pool, e.y)
    [] e.t = IMETHODREF -> <<"InterfaceMethodRef", ClassOf(pool, e.x)>> \o NatOf(pool, e.y)
    [] e.t = NAT -> <<"NameAndType", TextOf(pool, e.x), TextOf(pool, e.y)>>
    [] e.t = INDY -> <<"InvokeDynamic", e.w[1]>> \o NatOf(pool, e.x)
    [] e.t = MODULE_ -> <<"ModuleInfo", TextOf(pool, e.x)>>
    [] e.t = PACKAGE_ -> <<"PackageInfo", TextOf(pool, e.x)>>
HasItem(e) == e.t \notin {ZERO, UTF8, UNUSED}
Items(pool) == LET sel == SelectSeq(pool, HasItem)
               IN Tup([i \in 1..Len(sel) |-> ItemOf(pool, sel[i])])
=============================================================================
