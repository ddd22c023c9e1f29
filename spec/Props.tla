-------------------------------- MODULE Props --------------------------------
(***************************************************************************)
(* The listed properties, stated about what a behaviour of ClassFile       *)
(* reports and checked by TLC on every generated behaviour.  They are      *)
(* formulated apart from the definitions the specification itself uses: a  *)
(* skeleton walk over the bytes by declared lengths alone, declarative     *)
(* grammars, an instruction length table, the reported values.             *)
(***************************************************************************)
EXTENDS Gen

Accepted == ph = "accept"
Small == L <= 6000 /\ Len(pool) <= 400
R == hd.result
Has1(s, x) == \E i \in 1..Len(s) : s[i] = x

(* ---- a walk over the file by its lengths ---- *)
EntrySize(at) ==
  LET t == B[at + 1] IN
  CASE t = 1 -> 3 + (256 * B[at + 2] + B[at + 3])
    [] t \in {3, 4, 9, 10, 11, 12, 17, 18} -> 5
    [] t \in {5, 6} -> 9
    [] t \in {7, 8, 16, 19, 20} -> 3
    [] t = 15 -> 4
RECURSIVE PoolEnd(_, _)
PoolEnd(at, n) == IF n <= 0 THEN at ELSE PoolEnd(at + EntrySize(at), IF B[at + 1] \in {5, 6} THEN n - 2 ELSE n - 1)
Two(at) == 256 * B[at + 1] + B[at + 2]
RECURSIVE AttrEnds(_, _)
(* the places of n attributes that begin at `at`, then their end *)
AttrEnds(at, n) == IF n = 0 THEN <<at>> ELSE <<at>> \o AttrEnds(at + 6 + (65536 * Two(at + 2)) + Two(at + 4), n - 1)
AttrsEnd(at) == LET q == AttrEnds(at + 2, Two(at)) IN q[Len(q)]
RECURSIVE MemberPlaces(_, _)
MemberPlaces(at, n) == IF n = 0 THEN <<at>> ELSE <<at>> \o MemberPlaces(AttrsEnd(at + 6), n - 1)
Skeleton ==
  LET c == PoolEnd(10, (IF Two(8) = 0 THEN 1 ELSE Two(8)) - 1)
      f == c + 8 + 2 * Two(c + 6)
      fs == MemberPlaces(f + 2, Two(f))
      m == fs[Len(fs)]
      ms == MemberPlaces(m + 2, Two(m))
      a == ms[Len(ms)]
      ats == AttrEnds(a + 2, Two(a))
  IN [class |-> c, fields |-> fs, methods |-> ms, attrs |-> ats]
TextIn(i) == pool[i + 1].s.s                 \* the decoded text of a pool entry
NameAt(at) == TextIn(Two(at))
ClassTextAt(at) == TextIn(pool[Two(at) + 1].x)

(* C02, C13: the lengths add up to the input; one result per attribute,    *)
(* under its own name, everywhere.                                         *)
InTexts == M \in {"v", "a", "l", "n", "x"}
AttrsMatch(vs, at) ==
  LET q == AttrEnds(at + 2, Two(at)) IN
  /\ Len(vs) = Len(q) - 1
  /\ InTexts => \A i \in 1..Len(vs) : vs[i][1] = NameAt(q[i])
P02 == Accepted /\ Small => LET k == Skeleton IN k.attrs[Len(k.attrs)] = L
P13 == Accepted /\ Small =>
  LET k == Skeleton IN
  /\ AttrsMatch(R[9], k.methods[Len(k.methods)])
  /\ \A i \in 1..Len(R[7]) : AttrsMatch(R[7][i][4], k.fields[i] + 6)
  /\ \A i \in 1..Len(R[8]) : AttrsMatch(R[8][i][4], k.methods[i] + 6)

(* C08: what stands at the class's own places *)
P08 == Accepted /\ Small /\ InTexts =>
  LET c == Skeleton.class IN
  /\ R[1] = Two(4) /\ R[2] = Two(6)
  /\ R[3] = (Two(c) & (1 + 16 + 32 + 512 + 1024 + 4096 + 8192 + 16384 + 32768))
  /\ R[4] = ClassTextAt(c + 2)
  /\ R[5] = IF Two(c + 4) = 0 THEN <<>> ELSE <<ClassTextAt(c + 4)>>
  /\ Len(R[6]) = Two(c + 6)
  /\ \A i \in 1..Len(R[6]) : R[6][i] = ClassTextAt(c + 6 + 2 * i)
  /\ \A t \in {R[4]} \cup {R[5][i] : i \in 1..Len(R[5])} \cup {R[6][i] : i \in 1..Len(R[6])} :
       t # <<>> /\ t[1] # LBRACK

(* C09, C10: members in order, told apart by name and descriptor *)
Unqualified(t) == t # <<>> /\ ~Has1(t, DOT) /\ ~Has1(t, SEMI) /\ ~Has1(t, LBRACK) /\ ~Has1(t, SLASH)
Differ(places) == Cardinality({<<NameAt(places[i] + 2), NameAt(places[i] + 4)>> : i \in 1..Len(places) - 1}) = Len(places) - 1
P09 == Accepted /\ Small /\ InTexts =>
  LET fs == Skeleton.fields IN
  /\ Len(R[7]) = Len(fs) - 1
  /\ Differ(fs)
  /\ \A i \in 1..Len(R[7]) : /\ R[7][i][1] = (Two(fs[i]) & 20703)
                             /\ R[7][i][2] = NameAt(fs[i] + 2)
                             /\ Unqualified(R[7][i][2])
P10 == Accepted /\ Small /\ InTexts =>
  LET ms == Skeleton.methods
      interface == (R[3] & 512) = 512
  IN /\ Len(R[8]) = Len(ms) - 1
     /\ Differ(ms)
     /\ \A i \in 1..Len(R[8]) : LET nm == R[8][i][2] d == R[8][i][3] IN
          /\ R[8][i][1] = (Two(ms[i]) & 7679)
          /\ nm = NameAt(ms[i] + 2)
          /\ CASE nm = <<60, 105, 110, 105, 116, 62>> -> ~interface /\ d[2] = <<>>
               [] nm = <<60, 99, 108, 105, 110, 105, 116, 62>> -> d[2] = <<>> /\ (R[2] >= 51 => d[1] = <<>>)
               [] OTHER -> Unqualified(nm) /\ ~Has1(nm, LT) /\ ~Has1(nm, GT)

P11 == Accepted /\ R[3] >= 32768 => R[2] >= 53 /\ R[3] = 32768 /\ R[5] = <<>> /\ R[6] = <<>> /\ R[7] = <<>> /\ R[8] = <<>>

(* C12, by the items and attributes that are reported *)
P12 == Accepted /\ M \in {"v", "x"} =>
  LET dyn == {i \in 1..Len(R[10]) : R[10][i][1] \in {"Dynamic", "InvokeDynamic"}}
      tables == {i \in 1..Len(R[9]) : R[9][i][2] = "BootstrapMethods"}
  IN dyn # {} => /\ Cardinality(tables) = 1
                 /\ \A i \in dyn : \A k \in tables : R[10][i][2] + 1 <= Len(R[9][k][3])

(* C03, C05: kinds of items by tag, in pool order; what they refer to *)
ItemName(t) ==
  CASE t = 3 -> {"Integer"} [] t = 4 -> {"Float"} [] t = 5 -> {"Long"} [] t = 6 -> {"Double"} [] t = 7 -> {"ClassInfo"}
    [] t = 8 -> {"String", "StringBytes"} [] t = 9 -> {"FieldRef"} [] t = 10 -> {"MethodRef"} [] t = 11 -> {"InterfaceMethodRef"}
    [] t = 12 -> {"NameAndType"} [] t = 15 -> {"MethodHandle"} [] t = 16 -> {"MethodType"} [] t = 17 -> {"Dynamic"}
    [] t = 18 -> {"InvokeDynamic"} [] t = 19 -> {"ModuleInfo"} [] t = 20 -> {"PackageInfo"} [] OTHER -> {}
RECURSIVE TagWalk(_, _)
TagWalk(at, n) == IF n <= 0 THEN <<>>
                  ELSE LET t == B[at + 1] IN (IF t = 1 THEN <<>> ELSE <<<<t, at>>>>) \o TagWalk(at + EntrySize(at), IF t \in {5, 6} THEN n - 2 ELSE n - 1)
IntBytes(n) ==            \* two's complement, by its digits
  LET d(k) == [j \in 1..4 |-> (k \div (256 ^ (4 - j))) % 256] IN
  IF n >= 0 THEN d(n) ELSE [j \in 1..4 |-> 255 - d(-(n + 1))[j]]
P05 == Accepted /\ Small /\ M \in {"v", "p", "x"} =>
  LET q == TagWalk(10, Two(8) - 1) IN
  /\ Len(q) = Len(R[10])
  /\ \A i \in 1..Len(q) : LET it == R[10][i] at == q[i][2] IN
       /\ it[1] \in ItemName(q[i][1])
       /\ M # "p" =>
          CASE q[i][1] = 3 -> SubSeq(B, at + 2, at + 5) = IntBytes(it[2][1])
            [] q[i][1] \in {4, 5, 6} -> /\ Len(it[2]) = (IF q[i][1] = 4 THEN 2 ELSE 4)
                                       /\ \A j \in 1..Len(it[2]) : it[2][j] = Two(at + 2 * j - 1)
            [] q[i][1] \in {7, 16, 19, 20} -> it[2] = NameAt(at + 1)
            [] q[i][1] = 12 -> it[2] = NameAt(at + 1) /\ it[3] = NameAt(at + 3)
            [] q[i][1] \in {17, 18} -> it[2] = Two(at + 1) /\ it[3] = TextIn(pool[Two(at + 3) + 1].x) /\ it[4] = TextIn(pool[Two(at + 3) + 1].y)
            [] OTHER -> TRUE
TagAt(i) == pool[i + 1].t
P03 == Accepted =>
  \A i \in 1..Len(pool) - 1 : LET e == pool[i + 1] v == R[2] IN
    /\ CASE e.t \in {15, 16, 18} -> v >= 51 [] e.t = 17 -> v >= 55 [] e.t \in {19, 20} -> v >= 53 [] OTHER -> e.t \in {1, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, UNUSED}
    /\ CASE e.t \in {7, 8, 16, 19, 20} -> TagAt(e.x) = 1
         [] e.t \in {9, 10, 11} -> TagAt(e.x) = 7 /\ TagAt(e.y) = 12
         [] e.t = 12 -> TagAt(e.x) = 1 /\ TagAt(e.y) = 1
         [] e.t \in {17, 18} -> TagAt(e.x) = 12
         [] e.t = 15 -> TagAt(e.x) \in (CASE e.w[1] \in 1..4 -> {9} [] e.w[1] \in {5, 8} -> {10} [] e.w[1] = 9 -> {11} [] e.w[1] \in {6, 7} -> IF v < 52 THEN {10} ELSE {10, 11} [] OTHER -> {})
         [] OTHER -> TRUE

(* C04, C07: declarative grammars; descriptors print back as written *)
NameGram(t) == /\ t # <<>> /\ t[1] # SLASH /\ t[Len(t)] # SLASH
               /\ \A i \in 1..Len(t) : t[i] \notin {DOT, SEMI, LBRACK} /\ (t[i] = SLASH /\ i < Len(t) => t[i + 1] # SLASH)
ElemGram(t) == \/ Len(t) = 1 /\ t[1] \in {66, 67, 68, 70, 73, 74, 83, 90}
               \/ Len(t) >= 3 /\ t[1] = 76 /\ t[Len(t)] = SEMI /\ NameGram(SubSeq(t, 2, Len(t) - 1))
FieldGram(t) == \E n \in 0..Len(t) - 1 : n <= 255 /\ (\A i \in 1..n : t[i] = LBRACK) /\ ElemGram(SubSeq(t, n + 1, Len(t)))
(* a method descriptor: "(" descriptors ")" result, for some way to cut it *)
RECURSIVE ParamsGram(_)
ParamsGram(t) == t = <<>> \/ \E n \in 1..Len(t) : FieldGram(SubSeq(t, 1, n)) /\ ParamsGram(SubSeq(t, n + 1, Len(t)))
MethodGram(t) == /\ Len(t) >= 3 /\ t[1] = LPAR
                 /\ \E q \in 2..Len(t) - 1 : /\ t[q] = RPAR
                                             /\ ParamsGram(SubSeq(t, 2, q - 1))
                                             /\ LET r == SubSeq(t, q + 1, Len(t)) IN r = <<86>> \/ FieldGram(r)
IsTextV(v) == SubSeq(ToString(v), 1, 2) = "<<"
DescText(d) == [i \in 1..d[1] |-> LBRACK] \o (IF IsTextV(d[2]) THEN <<76>> \o d[2] \o <<SEMI>> ELSE <<d[2]>>)
RECURSIVE DescTexts(_)
DescTexts(ds) == IF ds = <<>> THEN <<>> ELSE DescText(Head(ds)) \o DescTexts(Tail(ds))
Texts == {i \in 1..Len(pool) - 1 : TagAt(i) = 1 /\ pool[i + 1].s.k # "x" /\ Len(TextIn(i)) <= 14}
FewTexts == Len(pool) <= 60 /\ ph = "validate" /\ M = "v"
P04 == FewTexts => \A i \in Texts : LET t == TextIn(i) IN
         /\ IsBinaryName(t) = NameGram(t)
         /\ IsFieldDesc(t) = FieldGram(t)
         /\ IsMethodDesc(t) = MethodGram(t)
P07 == FewTexts => \A i \in Texts : LET s == pool[i + 1].s t == TextIn(i) IN
         /\ IsFieldDesc(t) => DescText(FieldDescV(s)) = t
         /\ IsMethodDesc(t) => LET m == MethodDescV(s) IN
              <<LPAR>> \o DescTexts(m[1]) \o <<RPAR>> \o (IF m[2] = <<>> THEN <<86>> ELSE DescText(m[2][1])) = t

(* C06: borrowed texts are the bytes at their place *)
P06 == Accepted /\ M = "p" =>
  \A i \in 1..Len(pool) : pool[i].t = 1 /\ pool[i].s.k = "b" =>
     pool[i].s.s = SubSeq(B, pool[i].s.off + 1, pool[i].s.off + Len(pool[i].s.s))

(* C20, C21, C22: by a table of instruction lengths *)
Op(o) == B[o + 1]
Four4(at) == 65536 * Two(at) + Two(at + 2)          \* (small counts)
InsLen(cs, o) ==
  LET p == cs + o op == Op(p) pad == (3 - (o % 4)) IN
  CASE op \in (0..15) \cup (26..53) \cup (59..131) \cup (133..152) \cup (172..177) \cup {190, 191, 194, 195, 202, 254, 255} -> 1
    [] op \in {16, 18, 188} \cup (21..25) \cup (54..58) \cup {169} -> 2
    [] op \in {17, 19, 20, 132} \cup (153..168) \cup (178..184) \cup {187, 189, 192, 193, 198, 199} -> 3
    [] op = 197 -> 4
    [] op \in {185, 186, 200, 201} -> 5
    [] op = 196 -> IF Op(p + 1) = 132 THEN 6 ELSE 4
    [] op = 170 -> 1 + pad + 12 + 4 * (S4(B, p + 1 + pad + 8) - S4(B, p + 1 + pad + 4) + 1)
    [] op = 171 -> 1 + pad + 8 + 8 * Four4(p + 1 + pad + 4)
RECURSIVE Walk(_, _, _)
Walk(cs, o, len) == IF o >= len THEN <<o>> ELSE <<o>> \o Walk(cs, o + InsLen(cs, o), len)
JumpOffsets(cs, o) ==
  LET p == cs + o op == Op(p) q == p + 1 + (3 - (o % 4)) IN
  CASE op \in (153..168) \cup {198, 199} -> {S2(Two(p + 1))}
    [] op \in {200, 201} -> {S4(B, p + 1)}
    [] op = 170 -> {S4(B, q)} \cup {S4(B, q + 12 + 4 * i) : i \in 0..(S4(B, q + 8) - S4(B, q + 4))}
    [] op = 171 -> {S4(B, q)} \cup {S4(B, q + 8 * i + 4) : i \in 1..Four4(q + 4)}
    [] OTHER -> {}
CodeRight(c) ==          \* stack, locals, slice, [instructions], handlers, attributes
  LET cs == c[3][1] len == c[3][2] IN
  len > 600 \/ c[4] = <<>> \/
  LET w == Walk(cs, 0, len)
      n == Len(w) - 1
      st == {w[i] : i \in 1..n}
  IN /\ w[n + 1] = len
     /\ \A o \in st : \A j \in JumpOffsets(cs, o) : o + j \in st
     /\ IF M = "l" THEN LET a == c[4][1] IN \A q \in 1..len + 3 : a[q] = IF q - 1 \in st THEN Cardinality({s \in st : s < q - 1}) ELSE -1
        ELSE Len(c[4][1]) = n /\ \A i \in 1..n : c[4][1][i][1] = w[i]
P20 == Accepted /\ Small =>
  \A i \in 1..Len(R[8]) : \A k \in 1..Len(R[8][i][4]) :
    R[8][i][4][k][2] = "Code" => CodeRight(R[8][i][4][k][3])

(* C13 to C19: what an attribute reports spells its contents.  Each        *)
(* predicate takes a reported value and a place and gives the place after  *)
(* the bytes that spell that value, or -1 if others stand there.           *)
Chk(c, e) == IF c THEN e ELSE -1
Along(F(_, _), vs, at) ==
  LET RECURSIVE Go(_, _)
      Go(k, p) == IF k > Len(vs) \/ p < 0 THEN p ELSE Go(k + 1, F(vs[k], p))
  IN Go(1, at)
List1(F(_, _), vs, at) == Chk(Len(vs) = B[at + 1], Along(F, vs, at + 1))
List2(F(_, _), vs, at) == Chk(Len(vs) = Two(at), Along(F, vs, at + 2))
Maybe(F(_, _), v, at) == IF v = <<>> THEN Chk(Two(at) = 0, at + 2) ELSE Chk(Two(at) # 0 /\ Len(v) = 1, F(v[1], at))
SpNum(v, at) == Chk(v = Two(at), at + 2)
SpText(v, at) == Chk(TagAt(Two(at)) = 1 /\ v = NameAt(at), at + 2)
SpName(v, at) == Chk(Unqualified(v), SpText(v, at))
SpRef(t, v, at) == Chk(TagAt(Two(at)) = t /\ v = ClassTextAt(at), at + 2)
SpClass(v, at) == SpRef(7, v, at)
SpModule(v, at) == SpRef(19, v, at)
SpPackage(v, at) == SpRef(20, v, at)
SpDesc(v, at) == Chk(TagAt(Two(at)) = 1 /\ DescText(v) = NameAt(at), at + 2)
SpNat(v, at) == Chk(TagAt(Two(at)) = 12 /\ v = <<TextIn(pool[Two(at) + 1].x), TextIn(pool[Two(at) + 1].y)>>, at + 2)
SpFlags(v, mask, at) == Chk(v = Two(at) /\ (v & mask) = v, at + 2)
RECURSIVE SpEv(_, _)
SpElement(v, at) == LET n == SpText(v[1], at) IN IF n < 0 THEN -1 ELSE SpEv(v[2], n)
SpAnn(v, at) == LET n == SpDesc(v[1], at) IN IF n < 0 THEN -1 ELSE List2(SpElement, v[2], n)
SpEv(v, at) ==
  LET t == B[at + 1]
      const(tag, k) == Chk(t = tag /\ TagAt(Two(at + 1)) = k /\ v[2] = (IF k = 3 THEN pool[Two(at + 1) + 1].w[1] ELSE pool[Two(at + 1) + 1].w), at + 3)
  IN CASE v[1] = "Byte" -> const(66, 3) [] v[1] = "Char" -> const(67, 3) [] v[1] = "Int" -> const(73, 3) [] v[1] = "Short" -> const(83, 3)
       [] v[1] = "Boolean" -> const(90, 3) [] v[1] = "Double" -> const(68, 6) [] v[1] = "Float" -> const(70, 4) [] v[1] = "Long" -> const(74, 5)
       [] v[1] = "String" -> Chk(t = 115, SpText(v[2], at + 1))
       [] v[1] = "Enum" -> Chk(t = 101 /\ SpDesc(v[2], at + 1) > 0, SpText(v[3], at + 3))
       [] v[1] = "Class" -> Chk(t = 99, SpText(v[2], at + 1))
       [] v[1] = "Annotation" -> Chk(t = 64, SpAnn(v[2], at + 1))
       [] v[1] = "Array" -> Chk(t = 91, List2(SpEv, v[2], at + 1))
SpVType(v, at) ==
  LET t == B[at + 1] IN
  CASE t <= 6 -> Chk(v = <<(<<"Top", "Integer", "Float", "Double", "Long", "Null", "UninitializedThis">>)[t + 1]>>, at + 1)
    [] t = 7 -> Chk(v[1] = "Object", SpClass(v[2], at + 1))
    [] t = 8 -> Chk(v[1] = "Uninitialized", SpNum(v[2], at + 1))
    [] OTHER -> -1
SpFrame(v, at) ==
  LET t == B[at + 1] IN
  CASE t <= 63 -> Chk(v = <<"Same", t>>, at + 1)
    [] t <= 127 -> Chk(v[1] = "SameLocals1StackItem" /\ v[2] = t - 64, SpVType(v[3], at + 1))
    [] t = 247 -> Chk(v[1] = "SameLocals1StackItem" /\ v[2] = Two(at + 1), SpVType(v[3], at + 3))
    [] t \in 248..250 -> Chk(v = <<"Chop", Two(at + 1), 251 - t>>, at + 3)
    [] t = 251 -> Chk(v = <<"Same", Two(at + 1)>>, at + 3)
    [] t \in 252..254 -> Chk(v[1] = "Append" /\ v[2] = Two(at + 1) /\ Len(v[3]) = t - 251, Along(SpVType, v[3], at + 3))
    [] t = 255 -> LET n == Chk(v[1] = "FullFrame" /\ v[2] = Two(at + 1), List2(SpVType, v[3], at + 3)) IN IF n < 0 THEN -1 ELSE List2(SpVType, v[4], n)
    [] OTHER -> -1
SpRow(v, at) == Chk(\A k \in 1..Len(v) : v[k] = Two(at + 2 * k - 2), at + 2 * Len(v))
SpTarget(v, at) ==
  LET t == B[at + 1]
      is(n) == v[1] = n
  IN CASE t \in {0, 1} -> Chk(v = <<"TypeParameter", B[at + 2]>>, at + 2)
       [] t = 16 -> Chk(v = <<"Supertype", Two(at + 1)>>, at + 3)
       [] t \in {17, 18} -> Chk(v = <<"TypeParameterBound", B[at + 2], B[at + 3]>>, at + 3)
       [] t \in {19, 20, 21} -> Chk(v = <<"Empty">>, at + 1)
       [] t = 22 -> Chk(v = <<"FormalParameter", B[at + 2]>>, at + 2)
       [] t = 23 -> Chk(v = <<"Throws", Two(at + 1)>>, at + 3)
       [] t \in {64, 65} -> Chk(is("LocalVar"), List2(SpRow, v[2], at + 1))
       [] t = 66 -> Chk(v = <<"Catch", Two(at + 1)>>, at + 3)
       [] t \in 67..70 -> Chk(v = <<"Offset", Two(at + 1)>>, at + 3)
       [] t \in 71..75 -> Chk(v = <<"TypeArgument", Two(at + 1), B[at + 4]>>, at + 4)
       [] OTHER -> -1
SpStep(v, at) == Chk(B[at + 1] <= 3 /\ v = <<(<<"DeeperArray", "DeeperNested", "WildcardTypeArgument", "TypeArgument">>)[B[at + 1] + 1], B[at + 2]>>, at + 2)
SpTypeAnn(v, at) ==
  LET n == SpTarget(v[1], at)
      p == IF n < 0 THEN -1 ELSE List1(SpStep, v[2], n)
  IN IF p < 0 THEN -1 ELSE SpAnn(v[3], p)
SpAnns(v, at) == List2(SpAnn, v, at)
SpInner(v, at) == Chk(/\ SpClass(v[1], at) > 0 /\ Maybe(SpClass, v[2], at + 2) > 0 /\ Maybe(SpText, v[3], at + 4) > 0
                      /\ v[4] = (Two(at + 6) & 30239), at + 8)
SpBoot(v, at) == LET h == pool[Two(at) + 1] IN
  Chk(/\ h.t = 15 /\ Len(v[2]) = Two(at + 2)
      /\ \A k \in 1..Len(v[2]) : TagAt(Two(at + 2 + 2 * k)) \in {3, 4, 5, 6, 7, 8, 15, 16, 17}, at + 4 + 2 * Len(v[2]))
SpParam(v, at) == Chk(Maybe(SpName, v[1], at) > 0, SpFlags(v[2], 36880, at + 2))
SpRequires(v, at) == Chk(SpModule(v[1], at) > 0 /\ SpFlags(v[2], 36960, at + 2) > 0, Maybe(SpText, v[3], at + 4))
SpExports(v, at) == Chk(SpPackage(v[1], at) > 0 /\ SpFlags(v[2], 36864, at + 2) > 0, List2(SpModule, v[3], at + 4))
SpProvides(v, at) == Chk(SpClass(v[1], at) > 0, List2(SpClass, v[2], at + 2))
Then(n, F(_)) == IF n < 0 THEN -1 ELSE F(n)
SpModuleAttr(v, at) ==
  Then(Chk(SpModule(v[1], at) > 0 /\ SpFlags(v[2], 36896, at + 2) > 0, Maybe(SpText, v[3], at + 4)), LAMBDA a :
  Then(List2(SpRequires, v[4], a), LAMBDA c :
  Then(List2(SpExports, v[5], c), LAMBDA d :
  Then(List2(SpExports, v[6], d), LAMBDA e :
  Then(List2(SpClass, v[7], e), LAMBDA f : List2(SpProvides, v[8], f))))))
SpVar(D(_, _), v, at) == Chk(/\ v[1] = Two(at) /\ v[2] = Two(at + 2) /\ SpName(v[3], at + 4) > 0 /\ D(v[4], at + 6) > 0 /\ v[5] = Two(at + 8), at + 10)
SpHandler(v, at) == Chk(v[1] = Two(at) /\ v[2] = Two(at + 2) /\ v[3] = Two(at + 4), Maybe(SpClass, v[4], at + 6))
Span(at, len) == IF len = 0 THEN <<0, 0>> ELSE <<at, len>>     \* (of nothing, there is no place)
RECURSIVE SpAttr(_, _)
SpAttrs(vs, at) == List2(SpAttr, vs, at)
SpComponent(v, at) == Chk(SpName(v[1], at) > 0 /\ SpDesc(v[2], at + 2) > 0, SpAttrs(v[3], at + 4))
SpAttr(a, at) ==
  LET k == a[2]
      len == (65536 * Two(at + 2)) + Two(at + 4)
      s == at + 6
      end == CASE k = "Other" -> Chk(a[3] = Span(s, len), s + len)
               [] k \in {"Synthetic", "Deprecated"} -> s
               [] k = "SourceDebugExtension" -> s + len
               [] k = "ConstantValue" -> Chk(TagAt(Two(s)) \in {3, 4, 5, 6, 8}, s + 2)
               [] k \in {"SourceFile", "Signature"} -> SpText(a[3], s)
               [] k \in {"NestHost", "ModuleMainClass"} -> SpClass(a[3], s)
               [] k \in {"Exceptions", "NestMembers", "PermittedSubclasses"} -> List2(SpClass, a[3], s)
               [] k = "ModulePackages" -> List2(SpPackage, a[3], s)
               [] k = "EnclosingMethod" -> Chk(SpClass(a[3][1], s) > 0, Maybe(SpNat, a[3][2], s + 2))
               [] k = "InnerClasses" -> List2(SpInner, a[3], s)
               [] k = "BootstrapMethods" -> List2(SpBoot, a[3], s)
               [] k = "MethodParameters" -> List1(SpParam, a[3], s)
               [] k = "Module" -> SpModuleAttr(a[3], s)
               [] k = "AnnotationDefault" -> SpEv(a[3], s)
               [] k \in {"RuntimeVisibleAnnotations", "RuntimeInvisibleAnnotations"} -> SpAnns(a[3], s)
               [] k \in {"RuntimeVisibleParameterAnnotations", "RuntimeInvisibleParameterAnnotations"} -> List1(SpAnns, a[3], s)
               [] k \in {"RuntimeVisibleTypeAnnotations", "RuntimeInvisibleTypeAnnotations"} -> List2(SpTypeAnn, a[3], s)
               [] k = "StackMapTable" -> List2(SpFrame, a[3], s)
               [] k = "LineNumberTable" -> List2(SpRow, a[3], s)
               [] k = "LocalVariableTable" -> List2(LAMBDA v, p : SpVar(SpDesc, v, p), a[3], s)
               [] k = "LocalVariableTypeTable" -> List2(LAMBDA v, p : SpVar(SpText, v, p), a[3], s)
               [] k = "Record" -> List2(SpComponent, a[3], s)
               [] k = "Code" -> LET c == a[3] n == Two(s + 6) + 65536 * Two(s + 4) IN
                    Chk(/\ c[1] = Two(s) /\ c[2] = Two(s + 2) /\ c[3] = Span(s + 8, n),
                        Then(List2(SpHandler, c[5], s + 8 + n), LAMBDA p : SpAttrs(c[6], p)))
  IN Chk(/\ a[1] = NameAt(at) /\ end = s + len
         /\ k # "Other" => Asc(k) = a[1]
         /\ k = "Other" => a[1] \notin AttrNames, s + len)
P14 == Accepted /\ Small /\ InTexts =>
  LET k == Skeleton IN
  /\ SpAttrs(R[9], k.methods[Len(k.methods)]) = L
  /\ \A i \in 1..Len(R[7]) : SpAttrs(R[7][i][4], k.fields[i] + 6) = k.fields[i + 1]
  /\ \A i \in 1..Len(R[8]) : SpAttrs(R[8][i][4], k.methods[i] + 6) = k.methods[i + 1]
=============================================================================
