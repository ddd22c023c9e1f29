------------------------------ MODULE GenClass ------------------------------
(***************************************************************************)
(* Class files that differ in everything between the constant pool and the *)
(* attribute contents: pools of random shape, the header, fields, methods, *)
(* module classes, bootstrap linkage, attribute names and tables, framing. *)
(***************************************************************************)
EXTENDS GenPool

(* ---- deterministic pseudo-random choices ---- *)
Mix(x) == LET a == x % 46337 IN (((a * a) % 46337) + 31 * (x % 30011) + (x \div 46337) * 17 + 11) % 46337
Rnd(s, i) == Mix(Mix(Mix(s * 1009 + i) + i * 613) + s + 7 * i)
Pick(q, r) == q[1 + (r % Len(q))]
RndByte(s, i) == LET r == Rnd(s, i) IN CASE r % 5 = 0 -> 0 [] r % 5 = 1 -> 255 [] r % 5 = 2 -> 128 [] OTHER -> (r \div 5) % 256
RndBytes(s, i, n) == [j \in 1..n |-> RndByte(s + j, i + 31 * j)]
Shuffle(q, s) == LET key(i) == Rnd(s, i) * 512 + i
                     order == SetToSortSeq(1..Len(q), LAMBDA x, y : key(x) < key(y))
                 IN Tup([i \in 1..Len(q) |-> q[order[i]]])

(* ---- C05: pools of random shape ---- *)
Texts == << <<97>>, Asc("p/Q"), Asc("x"), <<195, 169>>, <<192, 128, 98>>, <<237, 160, 189, 237, 184, 128>>, Asc("a"), Asc("Long/Name/Of/A/Class") >>
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE <<48 + ((n \div 10) % 10), 48 + (n % 10)>>
SpecialFloat == << <<0, 0, 0, 0>>, <<63, 128, 0, 0>>, <<191, 128, 0, 0>>, <<128, 0, 0, 2>>, <<255, 128, 0, 0>>, <<127, 128, 0, 0>>, <<0, 0, 1, 0>>, <<127, 192, 0, 0>>, <<128, 0, 0, 0>>, <<127, 128, 0, 1>>, <<255, 255, 255, 255>>, <<0, 0, 0, 1>>, <<127, 127, 255, 255>>, <<128, 0, 0, 1>> >>
SpecialWide == << <<0, 0, 0, 0, 0, 0, 0, 0>>, <<0, 0, 0, 0, 0, 0, 0, 1>>, <<255, 255, 255, 255, 255, 255, 255, 255>>, <<63, 240, 0, 0, 0, 0, 0, 0>>,
                  <<127, 240, 0, 0, 0, 0, 0, 0>>, <<128, 0, 0, 0, 0, 0, 0, 0>>, <<127, 255, 255, 255, 255, 255, 255, 255>>, <<127, 240, 0, 0, 0, 0, 0, 1>>,
                  <<255, 248, 0, 0, 0, 0, 0, 0>>, <<0, 0, 0, 0, 255, 255, 255, 255>>, <<255, 255, 255, 255, 0, 0, 0, 0>>, <<0, 0, 0, 0, 128, 0, 0, 0>> >>
RndEntry(s, i) ==
  LET r == Rnd(s, 100 + i)
      n == "e" \o ToString(i)
      cls == Pick(<<"cA", "cB", "cU", "cArr">>, Rnd(s, 200 + i))
      nm == Pick(<<"foo", "bar", "A", "uni">>, Rnd(s, 300 + i))
      mref == Pick(<<"meth", "init">>, Rnd(s, 400 + i))
      k == 1 + (Rnd(s, 500 + i) % 9)
  IN CASE r % 19 = 0 -> UB(n, Pick(Texts, Rnd(s, 600 + i)) \o Digits(i))
       [] r % 19 = 1 -> UB(n, <<237, 160, 128>> \o Digits(i))
       [] r % 19 = 2 -> <<n, "b", <<3>> \o Pick(SpecialFloat \o <<RndBytes(s, i, 4)>>, Rnd(s, 700 + i))>>
       [] r % 19 = 3 -> <<n, "b", <<4>> \o Pick(SpecialFloat \o <<RndBytes(s, i, 4)>>, Rnd(s, 700 + i))>>
       [] r % 19 = 4 -> <<n, "w", <<5>> \o Pick(SpecialWide \o <<RndBytes(s, i, 8)>>, Rnd(s, 700 + i))>>
       [] r % 19 = 5 -> <<n, "w", <<6>> \o Pick(SpecialWide \o <<RndBytes(s, i, 8)>>, Rnd(s, 700 + i))>>
       [] r % 19 = 6 -> Ref(n, 7, <<Pick(<<"A", "p/Q", "uni", "[I">>, Rnd(s, 800 + i))>>)
       [] r % 19 = 7 -> Ref(n, 8, <<Pick(<<"foo", "bad", "uni", "()V">>, Rnd(s, 800 + i))>>)
       [] r % 19 = 8 -> Ref(n, 9, <<cls, Pick(<<"nF", "nF2">>, r)>>)
       [] r % 19 = 9 -> Ref(n, 10, <<cls, Pick(<<"nM", "nM2">>, r \div 19)>>)
       [] r % 19 = 10 -> Ref(n, 11, <<cls, Pick(<<"nM", "nM2">>, r \div 19)>>)
       [] r % 19 = 11 -> Ref(n, 12, <<nm, Pick(<<"I", "()V", "[I", "foo", "uni">>, r \div 19)>>)
       [] r % 19 = 12 -> <<n, "h", k, IF k <= 4 THEN "field" ELSE IF k = 9 THEN "imeth" ELSE IF k \in {6, 7} THEN Pick(<<mref, "imeth">>, r) ELSE mref>>
       [] r % 19 = 13 -> Ref(n, 16, <<Pick(<<"()V", "(J)[I">>, r)>>)
       [] r % 19 = 14 -> <<n, "d", 17, r % 2, Pick(<<"nF", "nF2">>, r \div 19)>>
       [] r % 19 = 15 -> <<n, "d", 18, r % 2, Pick(<<"nM", "nM2">>, r \div 19)>>
       [] r % 19 = 16 -> Ref(n, 19, <<Pick(<<"foo", "p/Q", "A">>, r \div 19)>>)
       [] r % 19 = 17 -> Ref(n, 20, <<Pick(<<"p/Q", "uni", "A">>, r \div 19)>>)
       [] OTHER -> UB(n, Digits(i))
RndSrc(s, n) == Shuffle(MiniSrc \o MiniNew
     \o << U("p/Q"), UB("uni", <<120, 192, 128, 195, 169>>), U("[I"), U("(J)[I"), Ref("cB", 7, <<"p/Q">>), Ref("cU", 7, <<"uni">>), Ref("cArr", 7, <<"[I">>),
           Ref("nF2", 12, <<"uni", "[I">>), Ref("nM2", 12, <<"foo", "(J)[I">>) >>
     \o [i \in 1..n |-> RndEntry(s, i)], s)
RndFile(s, n) ==
  LET k == MkKit(RndSrc(s, n), 61)
  IN FileK(k, "cA", "cB", <<MemberK(k, 1, "foo", "I", <<AttrK(k, "foo", <<1>>)>>)>>, <<MemberK(k, 1025, "bar", "()V", <<>>)>>,
           <<AttrK(k, "BootstrapMethods", E2(2) \o E2(N(k, "h")) \o E2(2) \o E2(N(k, "l")) \o E2(N(k, "s")) \o E2(N(k, "h")) \o E2(0))>>)
ItemCases(seed, n) ==
  Cat([i \in 1..n |-> LET f == RndFile(seed * 100 + i, 2 + (i % 40)) IN << Case(f, "v", "C05"), Case(f, "p", "C05,C06") >>])
(* one entry of a kind, alone, at every distance from the ends *)
ItemPlaces(x) ==
  LET es == [i \in 1..19 |-> RndEntry(7, i)]
            \o Cat([i \in 1..Len(SpecialFloat) |-> [g \in 1..2 |-> <<"n" \o ToString(i) \o "_" \o ToString(g), "b", <<g + 2>> \o SpecialFloat[i]>>]])
            \o Cat([i \in 1..Len(SpecialWide) |-> [g \in 1..2 |-> <<"w" \o ToString(i) \o "_" \o ToString(g), "w", <<g + 4>> \o SpecialWide[i]>>]])
      ne == Len(es)
      base == MiniSrc \o MiniNew \o << U("p/Q"), UB("uni", <<120, 192, 128, 195, 169>>), U("[I"), U("(J)[I"), Ref("cB", 7, <<"p/Q">>),
                 Ref("cU", 7, <<"uni">>), Ref("cArr", 7, <<"[I">>), Ref("nF2", 12, <<"uni", "[I">>), Ref("nM2", 12, <<"foo", "(J)[I">>) >>
      f(src) == LET k == MkKit(src, 61) IN Case(MiniFile(k), "v", "C05,C12")
  IN [i \in 1..ne |-> f(<<es[i]>> \o base)] \o [i \in 1..ne |-> f(base \o <<es[i]>>)]
     \o [i \in 1..ne |-> f(base \o <<es[i], es[i], es[1 + (i % ne)]>>)] \o [i \in 1..ne |-> f(<<es[i], es[1 + ((i * 7) % ne)]>> \o base)]

(* ---- C08: header ---- *)
VersionCases(x) ==
  LET vs == <<0, 1, 3, 44, 45, 46, 50, 51, 52, 53, 54, 55, 61, 65, 66, 127, 128, 255, 256, 511, 32767, 32768, 65278, 65535>>
      f(v) == LET k == Mini(v[2]) IN
              Case(SubSeq(k.pre, 1, 4) \o E2(v[1]) \o SubSeq(k.pre, 7, Len(k.pre)) \o Class0(33, N(k, "cA"), 0, <<>>, <<>>, <<>>, <<>>), "v", "C08")
  IN Cat([i \in 1..Len(vs) |-> [j \in 1..Len(vs) |-> f(<<vs[i], vs[j]>>)]])
FlagSets == [i \in 1..16 |-> 2^(i-1)] \o Cat([i \in 1..16 |-> [j \in 1..i |-> (2^(i-1)) | (2^(j-1))]])
            \o [i \in 1..16 |-> 65535 - 2^(i-1)] \o <<0, 65535, 43690, 21845, 255, 65280, 3855, 61680, 32767, 1536, 9728, 16433>>
HeaderCases(x) ==
  LET cl(flags, this, super, ifs) == Case(Class0(flags, this, super, ifs, <<>>, <<>>, <<Boot>>), "a", "C08")
      p == Probes
      cA == K("cA") cB == K("cB") cN == K("cNul")
  IN [i \in 1..Len(FlagSets) |-> cl(FlagSets[i], cA, cB, <<>>)]
     \o [i \in 1..Len(FlagSets) |-> [cl(FlagSets[i], cA, 0, <<>>) EXCEPT !.p = "C08,C11"]]
     \o [i \in 1..Len(p) |-> cl(33, p[i], cB, <<>>)] \o [i \in 1..Len(p) |-> cl(33, cA, p[i], <<>>)]
     \o Cat([i \in 1..Len(p) |-> << cl(33, cA, cB, <<p[i]>>), cl(33, cA, cB, <<cA, p[i]>>), cl(33, cA, cB, <<p[i], cN>>), cl(1537, cA, cB, <<cN, p[i], cA>>) >>])
     \o << cl(33, cA, 0, <<>>), cl(33, cN, cN, <<cN>>), cl(33, cA, cA, <<cA, cA>>), cl(33, cB, cA, <<cA, cB, cN, cB>>), cl(33, 0, cB, <<>>),
           cl(1537, cA, 0, <<cB>>), cl(33, cB, 0, <<cA, cB>>), cl(33, cA, cB, Rep(255, cN)), cl(33, cA, cB, Rep(256, cN) \o <<cA>>),
           cl(33, cA, cB, <<cA, 0>>), cl(33, cA, cB, <<0>>),
           cl(33, cA, cB, Rep(600, cB) \o <<K("cArr")>>) >>
     \o [i \in 1..6 |-> Case(SubSeq(E2(33) \o E2(cA) \o E2(cB), 1, i - 1), "a", "C08,C02")]
     \* interface counts that do not match
     \o [i \in 1..6 |-> Case(E2(33) \o E2(cA) \o E2(cB) \o E2(i - 1) \o E2(cA) \o E2(cB) \o E2(cN) \o E2(0) \o E2(0) \o E2(1) \o Boot, "a", "C08")]
     \o << [cl(33, cA, cB, <<cN>>) EXCEPT !.m = "p"], [cl(33, cN, cA, <<cB>>) EXCEPT !.m = "p"], [cl(33, cA, cB, <<cN, cB>>) EXCEPT !.m = "v"] >>

(* ---- C09, C10: members ---- *)
MemSrc == << U("A"), U("foo"), U("bar"), U("I"), U("J"), U("[I"), U("La;"), U("La/b;"), U("[La;"), U("()V"), U("()I"), U("(I)V"), U("(J)V"),
   U("(La;)V"), U("(Lb;)V"), U("(I)I"), U("([I)V"), U("(II)V"), U("<init>"), U("<clinit>"), U("<x>"), U("fo"), U("foo2"), U("V"), U("q(r"), U("f;o"), U("[f"), U("f.o"), U("f/o"),
   U("()La;"), U("()[La;"), U("()[[La;"), U("[[La;"),
   UB("fooB", Asc("foo")), UB("IB", Asc("I")), UB("()VB", Asc("()V")), UB("empty", <<>>), UB("bad", <<237, 160, 128>>),
   UB("nulE", <<110, 192, 128>>), UB("nulR", <<110, 0>>), UB("emoE", <<237, 160, 189, 237, 184, 128>>), UB("emoR", <<240, 159, 152, 128>>),
   U("Code"), U("Deprecated"), U("Signature"), U("Synthetic"),
   Ref("cA", 7, <<"A">>), <<"i", "b", <<3, 0, 0, 0, 7>>>>, <<"l", "w", <<5, 0, 0, 0, 0, 0, 0, 0, 9>>>>, Ref("nat", 12, <<"foo", "I">>), Ref("s", 8, <<"foo">>) >>
MKIT(v) == MkKit(MemSrc, v)
MemFile(k, flags, fs, ms, p) == Case(k.pre \o Class0(flags, N(k, "cA"), 0, <<>>, fs, ms, <<>>), "v", p)
Fld(k, n, d) == MemberK(k, 2, n, d, <<>>)
FieldNames == <<"foo", "bar", "fooB", "<init>", "<clinit>", "<x>", "fo", "foo2", "q(r", "f;o", "[f", "f.o", "f/o", "empty", "bad", "nulE", "nulR", "emoE", "emoR", "cA", "i", "l", "nat", "s", "()V">>
FieldDescs == <<"I", "J", "[I", "La;", "La/b;", "[La;", "[[La;", "IB", "V", "()V", "foo", "empty", "bad", "cA", "l", "nat">>
FieldCases(x) ==
  LET k == MKIT(61)
      c(fs) == MemFile(k, 33, fs, <<>>, "C09")
      small == <<"foo", "bar", "fooB", "nulE", "nulR", "emoE", "emoR", "fo">>
      sd == <<"I", "IB", "La;", "[La;", "[[La;">>
      dep == AttrK(k, "Deprecated", <<>>)
      sig == AttrK(k, "Signature", E2(N(k, "foo")))
      raw(n, fs) == Case(k.pre \o E2(33) \o E2(N(k, "cA")) \o E2(0) \o E2(0) \o E2(n) \o Cat(fs) \o E2(0) \o E2(0), "v", "C09")
  IN [i \in 1..Len(FlagSets) |-> c(<<MemberK(k, FlagSets[i], "foo", "I", <<>>)>>)]
     \o Cat([i \in 1..Len(FieldNames) |-> << c(<<Fld(k, FieldNames[i], "I")>>), c(<<Fld(k, "foo", "J"), Fld(k, FieldNames[i], "I")>>) >>])
     \o Cat([i \in 1..Len(FieldDescs) |-> << c(<<Fld(k, "foo", FieldDescs[i])>>), c(<<Fld(k, "foo", "J"), Fld(k, "bar", FieldDescs[i]), Fld(k, "fo", "I")>>) >>])
     \* all pairs of fields, next to each other and apart
     \o Cat([a \in 1..Len(small) |-> Cat([b \in 1..Len(sd) |-> Cat([d \in 1..Len(small) |->
          [e \in 1..Len(sd) |-> IF (a + b + d + e) % 3 # 0 THEN c(<<Fld(k, small[a], sd[b]), Fld(k, small[d], sd[e])>>)
                                ELSE c(<<Fld(k, small[a], sd[b]), Fld(k, "foo2", "J"), Fld(k, small[d], sd[e])>>)]])])])
     \o << c(<<MemberK(k, 2, "foo", "I", <<dep>>), MemberK(k, 1, "bar", "I", <<sig, dep>>), MemberK(k, 4, "fo", "[I", <<>>), MemberK(k, 8, "foo", "J", <<sig>>)>>),
           c(<<MemberK(k, 2, "foo", "I", <<dep>>), MemberK(k, 2, "foo", "I", <<>>)>>),       \* flags and attributes do not distinguish
           c(<<MemberK(k, 2, "foo", "I", <<>>), MemberK(k, 1, "foo", "I", <<>>)>>),
           c(Cat([i \in 1..5 |-> <<Fld(k, Pick(small, i - 1), "I")>>])),
           raw(0, <<>>), raw(0, <<Fld(k, "foo", "I")>>), raw(2, <<Fld(k, "foo", "I")>>), raw(1, <<Fld(k, "foo", "I"), Fld(k, "bar", "I")>>),
           raw(256, <<Fld(k, "foo", "I")>>), raw(65535, <<>>) >>
     \o [i \in 1..10 |-> Case(k.pre \o E2(33) \o E2(N(k, "cA")) \o E2(0) \o E2(0) \o E2(1) \o SubSeq(Fld(k, "foo", "I") \o E2(0) \o E2(0), 1, i - 1), "v", "C09,C02")]

Mth(k, n, d) == MemberK(k, 1025, n, d, <<>>)
MethodNames == <<"foo", "<init>", "<clinit>", "<x>", "fooB", "fo", "q(r", "f;o", "[f", "f.o", "f/o", "empty", "bad", "nulE", "emoE", "cA", "i", "l", "s">>
MethodDescs == <<"()V", "()I", "(I)V", "(La;)V", "([I)V", "(II)V", "()La;", "()VB", "I", "V", "foo", "empty", "bad", "cA", "l">>
MethodCases(x) ==
  LET vs == <<0, 45, 49, 50, 51, 52, 53, 61>>
      kits == Tup([i \in 1..Len(vs) |-> MKIT(vs[i])])
      k == kits[8]
      c(ms) == MemFile(k, 33, <<>>, ms, "C10")
      ci(ms) == MemFile(k, 1537, <<>>, ms, "C10")
      small == <<"foo", "fooB", "<init>", "nulE", "nulR", "emoE", "emoR", "fo">>
      sd == <<"()V", "()VB", "()I", "(I)V", "(La;)V", "(Lb;)V">>
      dep == AttrK(k, "Deprecated", <<>>)
      raw(n, ms) == Case(k.pre \o E2(33) \o E2(N(k, "cA")) \o E2(0) \o E2(0) \o E2(0) \o E2(n) \o Cat(ms) \o E2(0), "v", "C10")
  IN [i \in 1..Len(FlagSets) |-> c(<<MemberK(k, FlagSets[i], "foo", "()V", <<>>)>>)]
     \* initialisers: every name, descriptor, version and class kind
     \o Cat([v \in 1..Len(vs) |-> Cat([n \in 1..4 |-> Cat([d \in 1..7 |->
           << MemFile(kits[v], 33, <<>>, <<Mth(kits[v], MethodNames[n], MethodDescs[d])>>, "C10"),
              MemFile(kits[v], 1537, <<>>, <<Mth(kits[v], MethodNames[n], MethodDescs[d])>>, "C10") >>])])])
     \* which of the class flags makes the interface
     \o Cat([i \in 1..16 |-> << MemFile(kits[4], 2^(i-1), <<>>, <<Mth(kits[4], "<init>", "(I)V")>>, IF i = 16 THEN "C10,C11" ELSE "C10"),
                               MemFile(kits[4], 2^(i-1), <<>>, <<Mth(kits[4], "<clinit>", "(I)V")>>, IF i = 16 THEN "C10,C11" ELSE "C10") >>])
     \o Cat([n \in 1..Len(MethodNames) |-> Cat([d \in 1..Len(MethodDescs) |-> << c(<<Mth(k, MethodNames[n], MethodDescs[d])>>), ci(<<Mth(k, MethodNames[n], MethodDescs[d])>>) >>])])
     \o Cat([a \in 1..Len(small) |-> Cat([b \in 1..Len(sd) |-> Cat([d \in 1..Len(small) |->
          [e \in 1..Len(sd) |-> IF (a + b + d + e) % 3 # 0 THEN c(<<Mth(k, small[a], sd[b]), Mth(k, small[d], sd[e])>>)
                                ELSE c(<<Mth(k, small[a], sd[b]), Mth(k, "foo2", "(J)V"), Mth(k, small[d], sd[e])>>)]])])])
     \o << c(<<MemberK(k, 1, "foo", "()V", <<dep>>), MemberK(k, 2, "foo", "(I)V", <<>>), MemberK(k, 4, "bar", "(II)V", <<dep, dep>>), MemberK(k, 8, "<clinit>", "()V", <<>>),
               MemberK(k, 16, "<init>", "()V", <<>>), MemberK(k, 32, "<init>", "(La;)V", <<>>)>>),
           c(<<MemberK(k, 1, "foo", "()V", <<dep>>), MemberK(k, 1, "foo", "()V", <<>>)>>),
           c(<<MemberK(k, 1, "foo", "()V", <<>>), MemberK(k, 2, "foo", "()V", <<>>)>>),
           c(<<Mth(k, "<clinit>", "()V"), Mth(k, "<clinit>", "()V")>>),
           raw(0, <<>>), raw(0, <<Mth(k, "foo", "()V")>>), raw(2, <<Mth(k, "foo", "()V")>>), raw(1, <<Mth(k, "foo", "()V"), Mth(k, "bar", "()V")>>),
           raw(256, <<Mth(k, "foo", "()V")>>), raw(65535, <<>>) >>
     \o [i \in 1..10 |-> Case(k.pre \o E2(33) \o E2(N(k, "cA")) \o E2(0) \o E2(0) \o E2(0) \o E2(1) \o SubSeq(Mth(k, "foo", "()V") \o E2(0), 1, i - 1), "v", "C10,C02")]

(* Members that are not the same although they look alike: a name and a    *)
(* descriptor that run together alike, letters of either case, spaces.     *)
Seps == << <<>>, <<58>>, <<32>>, <<44>>, <<124>>, <<45>>, <<35>>, <<36>>, <<95>>, <<64>>, <<0>>, <<9>>, <<10>>, <<43>>, <<61>>, <<192, 128>>, <<40>>, <<41>>, <<38>>, <<126>>, <<33>>, <<194, 160>>, <<58, 32>>, <<32, 58, 32>>, <<45, 62>>, <<58, 58>> >>
AlikeCases(x) ==
  LET x1 == <<120>> La == <<76, 97>> Lb == <<76, 98, 59>> Lm == <<40, 76>> mV == <<40, 76, 97, 59, 41, 86>>
      k(q) == MkKit(<< U("A"), Ref("cA", 7, <<"A">>), UB("n1", q[1]), UB("d1", q[2]), UB("n2", q[3]), UB("d2", q[4]) >>, 61)
      fl(q) == LET kk == k(q) IN << MemFile(kk, 33, <<Fld(kk, "n1", "d1"), Fld(kk, "n2", "d2")>>, <<>>, "C09"),
                                    MemFile(kk, 33, <<Fld(kk, "n2", "d2"), Fld(kk, "n1", "d2"), Fld(kk, "n1", "d1")>>, <<>>, "C09") >>
      ml(q) == LET kk == k(q) IN << MemFile(kk, 33, <<>>, <<Mth(kk, "n1", "d1"), Mth(kk, "n2", "d2")>>, "C10"),
                                    MemFile(kk, 33, <<>>, <<Mth(kk, "n2", "d2"), Mth(kk, "n1", "d2"), Mth(kk, "n1", "d1")>>, "C10") >>
      I == <<73>> V == <<40, 41, 86>>
      foo == Asc("foo")
      names == << foo, Asc("Foo"), Asc("FOO"), Asc("foo "), Asc(" foo"), Asc("fooo"), Asc("foof"), Asc("f"), Asc("oof"), Asc("ofo"), <<102, 111, 111, 0>>, <<102, 111, 111, 192, 128>>, <<102, 195, 182, 111>>,
                  <<102, 111, 204, 136, 111>>, Asc("f_o"), Asc("f0o"), Asc("fo0") >>
      descs == << Asc("La;"), Asc("LA;"), Asc("La/a;"), Asc("[La;"), Asc("Laa;"), Asc("La ;"), Asc("L a;"), Asc("Lb;"), Asc("Lba;"), Asc("Lab;"), Asc("La/b;"), Asc("Lb/a;"), Asc("I"), Asc("B"), Asc("C"), Asc("S"), Asc("Z"), Asc("D"), Asc("F"), Asc("J"), Asc("LI;"), Asc("[[I"), Asc("[I"), Asc("[B") >>
      md(d, w) == IF w = 0 THEN <<40>> \o d \o <<41, 86>> ELSE <<40, 41>> \o d
  IN Cat([i \in 1..Len(Seps) |-> LET s == Seps[i] IN fl(<<x1, La \o s \o Lb, x1 \o s \o La, Lb>>) \o ml(<<x1, Lm \o s \o mV, x1 \o s \o Lm, mV>>)])
     \o Cat([i \in 1..Len(names) |-> Cat([j \in 1..i |-> IF j < i THEN fl(<<names[i], I, names[j], I>>) \o ml(<<names[i], V, names[j], V>>) ELSE <<>>])])
     \o Cat([i \in 1..Len(descs) |-> Cat([j \in 1..i |-> IF j < i THEN fl(<<foo, descs[i], foo, descs[j]>>) \o ml(<<foo, md(descs[i], i % 2), foo, md(descs[j], i % 2)>>) ELSE <<>>])])
     \o Cat([i \in 1..Len(descs) |-> ml(<<foo, md(descs[i], 0), foo, md(descs[i], 1)>>)
             \o ml(<<foo, <<40>> \o descs[i] \o descs[1 + (i % 20)] \o <<41, 86>>, foo, <<40>> \o descs[1 + (i % 20)] \o descs[i] \o <<41, 86>> >>)
             \o ml(<<foo, <<40>> \o descs[i] \o <<41>> \o descs[1 + (i % 20)], foo, <<40>> \o descs[1 + (i % 20)] \o <<41>> \o descs[i] >>)])

(* A field and a method never clash, whatever their names.                 *)
MemberMix(x) ==
  LET k == MKIT(61) IN
  << MemFile(k, 33, <<Fld(k, "foo", "I")>>, <<Mth(k, "foo", "()I")>>, "C09,C10"),
     MemFile(k, 33, <<Fld(k, "foo", "I"), Fld(k, "foo", "J")>>, <<Mth(k, "foo", "()I"), Mth(k, "foo", "()V")>>, "C09,C10"),
     MemFile(k, 33, <<Fld(k, "foo", "I"), Fld(k, "foo", "I")>>, <<Mth(k, "foo", "()V")>>, "C09"),
     MemFile(k, 33, <<Fld(k, "foo", "I")>>, <<Mth(k, "foo", "()V"), Mth(k, "foo", "()V")>>, "C10") >>

(* ---- C11: module classes ---- *)
ModSrc == << U("module-info"), U("A"), U("foo"), U("I"), U("()V"), U("m"), U("Module"), Ref("cMI", 7, <<"module-info">>), Ref("cA", 7, <<"A">>) >>
ModCases(x) ==
  LET vs == <<0, 50, 52, 53, 54, 55, 61, 65535>>
      file(v, flags, bits, at) ==
        LET k == MkKit(ModSrc, v)
            on(i) == (bits \div (2^i)) % 2 = 1
        IN Case(k.pre \o Class0(flags, N(k, "cMI"), IF on(0) THEN N(k, "cA") ELSE 0, IF on(1) THEN <<N(k, "cA")>> ELSE <<>>,
                  IF on(2) THEN <<MemberK(k, 1, "foo", "I", <<>>)>> ELSE <<>>, IF on(3) THEN <<MemberK(k, 1025, "foo", "()V", <<>>)>> ELSE <<>>,
                  IF at THEN <<AttrK(k, "foo", <<1>>)>> ELSE <<>>), "v", "C11")
      kv == MkKit(ModSrc \o <<Ref("mod", 19, <<"m">>)>>, 61)
      withAttr(flags, super) == Case(kv.pre \o Class0(flags, N(kv, "cMI"), super, <<>>, <<>>, <<>>,
                  << AttrK(kv, "Module", E2(N(kv, "mod")) \o E2(0) \o E2(0) \o E2(0) \o E2(0) \o E2(0) \o E2(0) \o E2(0)) >>), "v", "C11")
  IN Cat([v \in 1..Len(vs) |-> Cat([b \in 1..16 |-> << file(vs[v], 32768, b - 1, FALSE), file(vs[v], 32768 + 2 + 128, b - 1, TRUE), file(vs[v], 33, b - 1, FALSE) >>])])
     \o [i \in 1..Len(FlagSets) |-> file(61, FlagSets[i] | 32768, 0, FALSE)]
     \o Cat([i \in 1..16 |-> << file(61, 32768 + (2^(i-1) % 32768), 5, TRUE), file(52, 32768 + (2^(i-1) % 32768), 0, TRUE), file(61, 2^(i-1) % 32768, 15, TRUE) >>])
     \o << withAttr(32768, 0), withAttr(32768, N(kv, "cA")), withAttr(33, 0), withAttr(33, N(kv, "cA")), withAttr(32768 + 4096, 0), withAttr(32768 + 32, 0) >>

(* ---- C12: bootstrap linkage ---- *)
BsSrc == << U("A"), U("foo"), U("I"), U("()V"), U("bar"), U("BootstrapMethods"), U("Code"), U("Record"), Ref("cA", 7, <<"A">>), Ref("nF", 12, <<"foo", "I">>), Ref("nM", 12, <<"bar", "()V">>),
   Ref("mB", 10, <<"cA", "nM">>), <<"h", "h", 6, "mB">>, <<"i", "b", <<3, 0, 0, 0, 7>>>>, <<"l", "w", <<5, 0, 0, 0, 0, 0, 0, 0, 9>>>> >>
BsTable(k, n) == AttrK(k, "BootstrapMethods", E2(n) \o Cat([i \in 1..n |-> E2(N(k, "h")) \o (IF i % 2 = 1 THEN E2(0) ELSE E2(1) \o E2(N(k, "i")))]))
BsDyn(q) == [i \in 1..Len(q) |-> LET z == q[i] IN IF z[1] = 17 THEN <<"dy" \o ToString(i), "d", 17, z[2], "nF">> ELSE <<"dy" \o ToString(i), "d", 18, z[2], "nM">>]
BsFile(src, tables, where) ==
  LET k == MkKit(src, 61)
      ts == [i \in 1..Len(tables) |-> BsTable(k, tables[i])]
      other == AttrK(k, "foo", <<>>)
  IN Case(CASE where = "class" -> FileK(k, "cA", "", <<>>, <<>>, ts)
            [] where = "mixed" -> FileK(k, "cA", "", <<>>, <<>>, Cat([i \in 1..Len(ts) |-> <<other, ts[i], other>>]))
            [] where = "field" -> FileK(k, "cA", "", <<MemberK(k, 1, "foo", "I", ts)>>, <<>>, <<>>)
            [] where = "method" -> FileK(k, "cA", "", <<>>, <<MemberK(k, 1025, "bar", "()V", ts)>>, <<other>>)
            [] where = "code" -> FileK(k, "cA", "", <<>>, <<CodeK(k, "bar", "()V", <<RETURN_>>, ts)>>, <<>>)
            [] where = "both" -> FileK(k, "cA", "", <<MemberK(k, 1, "foo", "I", ts)>>, <<>>, ts), "v", "C12")
BootCases(x) ==
  LET dyns == << <<>>, <<<<17, 0>>>>, <<<<18, 0>>>>, <<<<17, 1>>>>, <<<<18, 1>>>>, <<<<17, 2>>>>, <<<<18, 3>>>>, <<<<17, 65535>>>>, <<<<18, 256>>>>, <<<<17, 0>>, <<18, 1>>>>,
                 <<<<18, 0>>, <<17, 2>>>>, <<<<17, 1>>, <<17, 0>>>>, <<<<18, 2>>, <<18, 0>>, <<17, 1>>>>, <<<<17, 0>>, <<17, 0>>>> >>
      tables == << <<>>, <<0>>, <<1>>, <<2>>, <<3>>, <<1, 1>>, <<2, 3>>, <<0, 1>>, <<3, 0>>, <<1, 1, 1>>, <<4>> >>
      places == <<"class", "mixed", "field", "method", "code", "both">>
  IN Cat([d \in 1..Len(dyns) |-> Cat([t \in 1..Len(tables) |-> Cat([p \in 1..Len(places) |->
        IF p <= 2 THEN << BsFile(BsSrc \o BsDyn(dyns[d]), tables[t], places[p]), BsFile(BsDyn(dyns[d]) \o BsSrc, tables[t], places[p]) >>
        ELSE << BsFile(BsSrc \o BsDyn(dyns[d]), tables[t], places[p]) >>])])])
     \o << BsFile(BsSrc \o BsDyn(<<<<17, 256>>>>), <<257>>, "class"), BsFile(BsSrc \o BsDyn(<<<<17, 257>>>>), <<257>>, "class"), BsFile(BsSrc \o BsDyn(<<<<18, 255>>>>), <<256>>, "class"),
           BsFile(BsSrc \o BsDyn(<<<<18, 256>>>>), <<256>>, "class") >>

(* ---- C13: names and tables of attributes ---- *)
Upper(c) == IF c \in 97..122 THEN c - 32 ELSE c
Lower(c) == IF c \in 65..90 THEN c + 32 ELSE c
NearMisses(n) ==
  LET a == Asc(n) l == Len(a) IN
  SelectSeq(<< SubSeq(a, 1, l - 1), Tail(a), a \o <<115>>, <<65>> \o a, a \o <<32>>, <<32>> \o a, a \o <<192, 128>>, a \o <<0>>, <<192, 128>> \o a,
     Map(a, Upper), Map(a, Lower), <<Lower(a[1])>> \o Tail(a), SubSeq(a, 1, l - 1) \o <<a[l] + 1>>, <<a[1] + 1>> \o Tail(a), a \o a,
     SubSeq(a, 1, l \div 2) \o <<Upper(a[l \div 2 + 1])>> \o SubSeq(a, l \div 2 + 2, l), SubSeq(a, 1, l \div 2), Reverse(a) >>,
     LAMBDA z : z \notin AttrNames /\ z # <<>>)
NameKit(m) == MkKit(KitSrc \o <<UB("NM", m)>>, 61)
AttrNameCases(x) ==
  Cat([i \in 1..Len(AllAttrNames) |->
    LET n == AllAttrNames[i]
        ms == NearMisses(n)
        body == Base(Body(n), i, 0)
        f(j) == LET k == NameKit(ms[j])
                    a == E2(N(k, "NM")) \o E4(Len(body)) \o body
                    junk == E2(N(k, "NM")) \o E4(3) \o <<255, 0, 255>>
                    ctx == Contexts[1 + ((i + j) % 5)]
                IN << Case(k.pre \o In(ctx, <<a>>), "a", "C13"), Case(k.pre \o In(Contexts[1 + ((i + 3 * j + 1) % 5)], <<junk, a>>), "a", "C13") >>
    IN Cat([j \in 1..Len(ms) |-> f(j)])])
(* names that are not text at all, and near names of one another *)
OddNames == << <<>>, <<0>>, <<32>>, <<255>>, <<237, 160, 128>>, Asc("Deprecated.class"), Asc("java/lang/Deprecated"), Asc("deprecated"), <<195, 169>>, Asc("Runtime"), Asc("RuntimeVisible"),
               Asc("RuntimeVisibleAnnotation"), Asc("LocalVariable"), Asc("Source"), Asc("Permits"), Asc("LineNumbers"), Asc("SourceID"), Asc("CompilationID"), Asc("ModuleHashes"),
               Asc("ModuleTarget"), Asc("ModuleResolution"), Asc("StackMap"), Asc("Varargs"), Asc("Bridge"), Asc("RuntimeVisibleTypeAnnotation"), Asc("ScalaSig"), Asc("Preload"), Asc("LoadableDescriptors"),
               Asc("C"), Asc("Coda"), Asc("NestMember"), Asc("NestHosts"), Asc("Records"), Asc("PermittedSubclass"), Rep(300, 67) >>
OddNameCases(x) ==
  Cat([i \in 1..Len(OddNames) |-> LET k == NameKit(OddNames[i])
                                      a(b) == E2(N(k, "NM")) \o E4(Len(b)) \o b
                                  IN [c \in 1..5 |-> Case(k.pre \o In(Contexts[c], <<a(<<>>), a(<<0, 0>>), Attr("Synthetic", <<>>)>>), "a", "C13")]])
TableCases(x) ==
  LET dep == Attr("Deprecated", <<>>)
      syn == Attr("Synthetic", <<>>)
      oth(n) == E2(K("foo")) \o E4(n) \o Rep(n, 165)
      sig == Attr("Signature", E2(K("foo")))
      src == Attr("SourceFile", E2(K("bar")))
      lists == << <<>>, <<dep>>, <<dep, dep>>, <<sig, src, sig>>, <<oth(0), oth(1), oth(2), oth(300)>>, <<syn, oth(7), dep, sig, syn>>, Rep(20, syn), Rep(257, dep) \o <<syn>>,
                  <<oth(256)>>, <<oth(65536)>>, <<oth(65535), syn>>, <<oth(66000), syn>> >>
      probesA(c) == [i \in 1..Len(Probes) |-> Case(In(c, << E2(Probes[i]) \o E4(0) >>), "a", "C13")]
  IN Cat([c \in 1..5 |-> [i \in 1..Len(lists) |-> Case(In(Contexts[c], lists[i]), IF i % 2 = 0 THEN "a" ELSE "p", "C13")]])
     \o Cat([c \in 1..5 |-> probesA(Contexts[c])])
     \* the number of attributes off by some
     \o Cat([n \in 1..6 |-> << Case(E2(33) \o E2(K("cA")) \o E2(K("cB")) \o E2(0) \o E2(0) \o E2(0) \o E2(n - 1) \o Boot \o dep \o sig, "a", "C13,C02"),
          Case(E2(33) \o E2(K("cA")) \o E2(K("cB")) \o E2(0) \o E2(1) \o E2(1) \o E2(K("foo")) \o E2(K("I")) \o E2(n - 1) \o dep \o sig \o syn \o E2(0) \o E2(1) \o Boot, "a", "C13,C02"),
          Case(E2(33) \o E2(K("cA")) \o E2(K("cB")) \o E2(0) \o E2(0) \o E2(1) \o E2(1) \o E2(K("foo")) \o E2(K("()V")) \o E2(n - 1) \o dep \o sig \o syn \o E2(1) \o Boot, "a", "C13,C02") >>])

(* ---- C02: framing of the whole file ---- *)
RichTail ==
  LET a(n, s) == Attr(n, Base(Body(n), s, 0))
      code == Attr("Code", CodeBody(<<3, 172>>, <<E2(0) \o E2(1) \o E2(1) \o E2(K("cA"))>>, <<a("LineNumberTable", 1), a("StackMapTable", 2)>>))
  IN Class0(33, K("cA"), K("cB"), <<K("cB")>>,
       <<Member(1, "foo", "I", <<a("ConstantValue", 0), a("RuntimeVisibleAnnotations", 1)>>), Member(2, "bar", "[I", <<>>)>>,
       <<Member(1, "bar", "()V", <<code, a("Exceptions", 1)>>), Member(1, "<init>", "()V", <<code>>)>>,
       <<Boot, a("InnerClasses", 1), a("Record", 2), a("SourceFile", 1)>>)
PrefixCases(x) ==
  LET t == RichTail IN
  << Case(t, "v", "C02") >>
  \o [i \in 1..Len(t) |-> Case(SubSeq(t, 1, i - 1), "a", "C02")]
  \o [i \in 1..256 |-> Case(t \o <<i - 1>>, "a", "C02")]
  \o << Case(t \o <<0, 0>>, "a", "C02"), Case(t \o Rep(10, 0), "a", "C02"), Case(t \o t, "a", "C02"), Case(t \o KIT.pre \o t, "a", "C02"), Case(t \o <<202, 254, 186, 190>>, "a", "C02") >>
  \* one byte left out, or doubled
  \o [i \in 1..Len(t) |-> Case(SubSeq(t, 1, i - 1) \o SubSeq(t, i + 1, Len(t)), "a", "C02")]
  \o [i \in 1..Len(t) |-> Case(SubSeq(t, 1, i) \o SubSeq(t, i, Len(t)), "a", "C02")]
MagicCases(x) ==
  LET k == Mini(61)
      f == BareK(k)
      put(i, c) == [f EXCEPT ![i] = c]
  IN Cat([i \in 1..4 |-> [c \in 1..256 |-> Case(put(i, c - 1), "v", "C02")]])
     \o [i \in 1..Len(f) |-> Case(SubSeq(f, 1, i - 1), "v", "C02")]
     \o << Case(f, "v", "C02"), Case(Tail(f), "v", "C02"), Case(<<0>> \o f, "v", "C02"), Case(<<254, 202, 190, 186>> \o SubSeq(f, 5, Len(f)), "v", "C02"), Case(f \o f, "v", "C02"),
           Case(<<186, 190, 202, 254>> \o SubSeq(f, 5, Len(f)), "v", "C02") >>
=============================================================================
