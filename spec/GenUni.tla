------------------------------- MODULE GenUni -------------------------------
(***************************************************************************)
(* Things that look alike or stand in pairs: characters that share bytes   *)
(* with the ones that have a meaning, two pool entries of one kind, one    *)
(* pool index used as two kinds of thing, two members that are the same    *)
(* under every combination of flags; every version; classes drawn at       *)
(* random and then damaged in a byte or two.                               *)
(***************************************************************************)
EXTENDS GenFlood

(* ---- code points, in modified UTF-8 ---- *)
Enc16(c) == IF c = 0 THEN <<192, 128>>
            ELSE IF c < 128 THEN <<c>>
            ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
            ELSE <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
EncCp(c) == IF c < 65536 THEN Enc16(c)
            ELSE Enc16(55296 + ((c - 65536) \div 1024)) \o Enc16(56320 + ((c - 65536) % 1024))
(* characters that agree with c in the low byte, the low seven bits, the   *)
(* high byte, or in how they look                                          *)
Alike(c) == << c + 128, c + 256, 512 + c, 8192 + c, 12032 + c, (c * 256) + 97, (c * 256) + c, 65248 + c, 65536 + c, 128000 + c, 61440 + c >>
Meaningful == <<46, 59, 91, 47, 60, 62, 40, 41, 92, 58, 64, 36, 76, 86, 73, 10>>
UAround(c, w) == CASE w = 0 -> c [] w = 1 -> <<97>> \o c \o <<98>> [] w = 2 -> <<97, 47>> \o c [] OTHER -> c \o <<73>>
UniNames == TLCEval(Cat([i \in 1..Len(Meaningful) |-> LET q == Alike(Meaningful[i]) IN [j \in 1..Len(q) |-> UAround(EncCp(q[j]), (i + j) % 4)]]))
UniDescs == TLCEval(Cat([i \in 1..Len(Meaningful) |-> LET q == Alike(Meaningful[i]) IN [j \in 1..Len(q) |->
   LET c == EncCp(q[j]) IN
   CASE (i + j) % 5 = 0 -> <<76, 97>> \o c \o <<98, 59>>
     [] (i + j) % 5 = 1 -> <<76>> \o c \o <<47, 97, 59>>
     [] (i + j) % 5 = 2 -> <<40, 73, 76, 97>> \o c \o <<59, 91, 76>> \o c \o <<98, 59, 41, 86>>
     [] (i + j) % 5 = 3 -> c \o <<97, 59>>
     [] OTHER -> <<40, 41, 91, 76>> \o c \o <<47, 98>> \o c \o <<59>>]]))
BaseLetters == <<66, 67, 68, 70, 73, 74, 83, 90, 86, 76, 91>>
UniBases == TLCEval(Cat([i \in 1..Len(BaseLetters) |-> LET q == Alike(BaseLetters[i]) IN [j \in 1..Len(q) |-> IF (i + j) % 2 = 0 THEN EncCp(q[j]) ELSE <<40, 41>> \o EncCp(q[j])]]))
UniCharCases(x) == Cat(Map(UniNames, NamePositions)) \o Cat(Map(UniDescs, DescPositions)) \o Cat(Map(UniBases, DescPositions))

(* ---- attribute names with such characters ---- *)
UniNear(n) ==
  LET a == Asc(n) l == Len(a) m == 1 + (l \div 2)
      put(i, c) == SubSeq(a, 1, i - 1) \o EncCp(c) \o SubSeq(a, i + 1, l)
  IN << put(1, a[1] + 128), put(1, a[1] + 256), put(l, a[l] + 256), put(m, 65248 + a[m]), put(m, a[m] * 256), put(l, 65536 + a[l]), put(1, 8192 + a[1]),
        a \o EncCp(8203), <<239, 187, 191>> \o a, a \o <<194, 160>>, put(m, a[m] + 128), a \o <<32, 32>>, a \o <<9>>, a \o <<10>>, a \o <<46>>, a \o <<47>>, a \o <<59>>, a \o <<48>>,
        <<76>> \o a \o <<59>>, Asc("java/lang/") \o a, a \o <<36>>, <<95>> \o a,
        a \o <<237, 160, 128>>, <<237, 160, 128>> \o a, a \o <<237, 160, 189, 237, 184, 128>>, put(m, 0), SubSeq(a, 1, m) \o <<192, 128>> \o SubSeq(a, m + 1, l), a \o <<192, 128>> \o a >>
UniAttrNameCases(x) ==
  Cat([i \in 1..Len(AllAttrNames) |->
    LET n == AllAttrNames[i]
        ms == UniNear(n)
        body == Base(Body(n), i, 0)
    IN [j \in 1..Len(ms) |->
         LET k == NameKit(ms[j]) IN Case(k.pre \o In(Contexts[1 + ((i + j) % 5)], <<E2(N(k, "NM")) \o E4(Len(body)) \o body>>), "a", "C13")]])

(* ---- two pool entries of one kind ---- *)
PairSrc == MiniSrc \o << U("p/Q"), U("[I"), UB("uni", <<120, 192, 128, 195, 169>>), U("(J)[I"), U("a.b"), U("[V"), U("a/"), U("<clinit>"), U("<x>"), U("()I"), U("(I)V"), U("x;y"), UB("empty", <<>>), UB("esc", Asc("a\\b")), UB("esc2", Asc("a\\:")),
   Ref("cB", 7, <<"p/Q">>), Ref("cArr", 7, <<"[I">>), Ref("nF2", 12, <<"uni", "[I">>), Ref("nM2", 12, <<"foo", "(J)[I">>), Ref("nI2", 12, <<"<init>", "(I)V">>),
   <<"h", "h", 6, "meth">>, Ref("nC", 12, <<"<clinit>", "()V">>), Ref("fld2", 9, <<"cB", "nF2">>), Ref("meth2", 10, <<"cB", "nM2">>), Ref("imeth2", 11, <<"cB", "nM2">>) >>
PairVariants == <<
  [i \in 1..12 |-> <<"r", 7, <<(<<"A", "p/Q", "[I", "uni", "a.b", "[V", "bad", "empty", "a/", "<init>", "i", "cA">>)[i]>> >>],
  [i \in 1..7 |-> <<"r", 8, <<(<<"foo", "bad", "uni", "i", "cA", "empty", "h">>)[i]>> >>],
  [i \in 1..9 |-> <<"r", 9, (<< <<"cA", "nF">>, <<"cArr", "nF">>, <<"cA", "nF2">>, <<"cA", "nM">>, <<"nF", "cA">>, <<"cA", "cA">>, <<"cB", "nF">>, <<"foo", "nF">>, <<"cA", "foo">> >>)[i] >>],
  [i \in 1..10 |-> <<"r", 10, (<< <<"cA", "nM">>, <<"cArr", "nM">>, <<"cA", "nM2">>, <<"cA", "nF">>, <<"nM", "cA">>, <<"cA", "nI">>, <<"cA", "nC">>, <<"cB", "nI2">>, <<"foo", "nM">>, <<"cA", "i">> >>)[i] >>],
  [i \in 1..10 |-> <<"r", 11, (<< <<"cA", "nM">>, <<"cArr", "nM">>, <<"cA", "nM2">>, <<"cA", "nF">>, <<"nM", "cA">>, <<"cA", "nI">>, <<"cA", "nC">>, <<"cB", "nI2">>, <<"foo", "nM">>, <<"cA", "i">> >>)[i] >>],
  [i \in 1..14 |-> <<"r", 12, (<< <<"foo", "I">>, <<"foo", "()V">>, <<"bad", "I">>, <<"<init>", "()V">>, <<"<init>", "()I">>, <<"a.b", "I">>, <<"foo", "foo">>, <<"empty", "I">>, <<"foo", "[V">>, <<"<clinit>", "()V">>, <<"<x>", "()V">>,
                                  <<"<x>", "I">>, <<"uni", "[I">>, <<"foo", "bad">> >>)[i] >>],
  [i \in 1..7 |-> <<"r", 16, <<(<<"()V", "I", "(J)[I", "foo", "bad", "i", "nM">>)[i]>> >>],
  [i \in 1..11 |-> <<"r", 19, <<(<<"foo", "p/Q", "a.b", "esc", "esc2", "bad", "empty", "x;y", "i", "uni", "cA">>)[i]>> >>],
  [i \in 1..11 |-> <<"r", 20, <<(<<"foo", "p/Q", "a.b", "esc", "a/", "bad", "empty", "x;y", "i", "uni", "cA">>)[i]>> >>],
  [i \in 1..5 |-> <<"d", 17, i % 2, (<<"nF", "nF2", "nM", "cA", "foo">>)[i] >>],
  [i \in 1..6 |-> <<"d", 18, i % 2, (<<"nM", "nM2", "nF", "cA", "nI", "nC">>)[i] >>] >>
PairBoot(k) == AttrK(k, "BootstrapMethods", E2(2) \o E2(N(k, "h")) \o E2(0) \o E2(N(k, "h")) \o E2(0))
PairFile(src, v, p) == LET k == MkKit(src, v) IN Case(FileK(k, "cA", "", <<>>, <<>>, <<PairBoot(k)>>), "v", p)
PairPlaces(e, f, w, p) ==
  CASE w = 0 -> << PairFile(PairSrc \o <<e, f>>, 61, p) >>
    [] w = 1 -> << PairFile(<<e, f>> \o PairSrc, 61, p) >>
    [] w = 2 -> << PairFile(PairSrc \o <<e, U("zz"), Ref("cz", 7, <<"zz">>), f>>, 61, p) >>
    [] OTHER -> << PairFile(<<e>> \o PairSrc \o <<f>>, 61, p) >>
HandlePairs(v) ==
  LET ts == <<"field", "meth", "init", "imeth", "fld2">>
  IN Cat([k1 \in 1..9 |-> Cat([k2 \in 1..9 |-> Cat([t \in 1..5 |->
        << PairFile(PairSrc \o <<<<"X1", "h", k1, ts[t]>>, <<"X2", "h", k2, ts[t]>>>>, v, "C03,C04") >>
        \o (IF v = 61 /\ (k1 + k2 + t) % 3 = 0
            THEN << PairFile(<<<<"X1", "h", k1, ts[t]>>, <<"X2", "h", k2, ts[t]>>>> \o PairSrc, v, "C03,C04"),
                    PairFile(PairSrc \o <<<<"X1", "h", k1, ts[t]>>, U("zz"), <<"X2", "h", k2, ts[1 + (t % 5)]>>, <<"X3", "h", k1, ts[t]>>>>, v, "C03,C04") >>
            ELSE <<>>)])])])
PairCases(x) ==
  Cat([i \in 1..Len(PairVariants) |-> LET q == PairVariants[i] IN
    Cat([a \in 1..Len(q) |-> Cat([b \in 1..Len(q) |-> PairPlaces(<<"X1">> \o q[a], <<"X2">> \o q[b], (a + 3 * b + i) % 4, "C03,C04") \o PairPlaces(<<"X1">> \o q[a], <<"X2">> \o q[b], (a + 3 * b + i + 1) % 4, "C03,C04")])])])
  \o HandlePairs(61) \o HandlePairs(51)

(* ---- one index used as two kinds of thing ---- *)
Uses == TLCEval(<<"utf8", "uqname", "fdesc", "rdesc", "class", "module", "package", "nat", "literal", "loadable", "handle", "int", "float", "long", "double", "enum", "lvt", "string", "name">>)
UseAttr(u, i) ==
  CASE u = "utf8" -> Attr("Signature", E2(i))
    [] u = "uqname" -> Attr("InnerClasses", E2(1) \o E2(K("cA")) \o E2(0) \o E2(i) \o E2(1))
    [] u = "fdesc" -> Attr("RuntimeVisibleAnnotations", E2(1) \o E2(i) \o E2(0))
    [] u = "rdesc" -> Attr("RuntimeInvisibleAnnotations", E2(1) \o E2(K("I")) \o E2(1) \o E2(K("foo")) \o <<99>> \o E2(i))
    [] u = "class" -> Attr("NestMembers", E2(1) \o E2(i))
    [] u = "module" -> Attr("Module", E2(i) \o E2(0) \o E2(0) \o E2(0) \o E2(0) \o E2(0) \o E2(0) \o E2(0))
    [] u = "package" -> Attr("ModulePackages", E2(1) \o E2(i))
    [] u = "nat" -> Attr("EnclosingMethod", E2(K("cA")) \o E2(i))
    [] u = "literal" -> Attr("ConstantValue", E2(i))
    [] u = "loadable" -> Attr("BootstrapMethods", E2(1) \o E2(K("hStat")) \o E2(1) \o E2(i))
    [] u = "handle" -> Attr("BootstrapMethods", E2(1) \o E2(i) \o E2(0))
    [] u \in {"int", "float", "long", "double", "string"} ->
         Attr("RuntimeInvisibleAnnotations", E2(1) \o E2(K("I")) \o E2(1) \o E2(K("foo"))
              \o <<CASE u = "int" -> 73 [] u = "float" -> 70 [] u = "long" -> 74 [] u = "double" -> 68 [] OTHER -> 115>> \o E2(i))
    [] u = "enum" -> Attr("RuntimeInvisibleAnnotations", E2(1) \o E2(K("I")) \o E2(1) \o E2(K("foo")) \o <<101>> \o E2(i) \o E2(K("foo")))
    [] u = "lvt" -> Attr("Code", CodeBody(<<RETURN_>>, <<>>, <<Attr("LocalVariableTable", E2(1) \o E2(0) \o E2(1) \o E2(K("foo")) \o E2(i) \o E2(0))>>))
    [] u = "name" -> Attr("MethodParameters", <<1>> \o E2(i) \o E2(0))
UseProp(u) == CASE u \in {"fdesc", "rdesc", "int", "float", "long", "double", "enum", "string"} -> "C16" [] u \in {"module", "package"} -> "C15" [] u = "lvt" -> "C19" [] OTHER -> "C14"
CrossIx == TLCEval(KN(<<"foo", "I", "()V", "V", "p/B", "x.y", "empty", "surrogate", "i2", "f2", "l2", "d2", "cB", "cArr", "sFoo", "sSur", "field", "meth", "nF2", "nM2", "hNew", "mt", "dyn", "mod1", "pk1", "uni">>))
CrossPool == TLCEval(<<ZeroEntry>> \o ReadEntries(KIT.pre, 10, KIT.n - 1, 61, "v", 12).v)
(* the same index, first as one thing then as another, each in an attribute of its own *)
CrossCases(x) ==
  LET slots == CrossPool
      good(u, n) == RdAttr([b |-> KIT.pre \o UseAttr(u, n), pool |-> slots, bc |-> TRUE, lk |-> FALSE], Len(KIT.pre), 0).ok
      two(u, w, n, c) == Case(In(Pick(<<"classonly", "field", "method", "code", "record">>, c), <<UseAttr(u, n), UseAttr(w, n)>>), "a", UseProp(w))
  IN Cat([a \in 1..Len(Uses) |-> Cat([i \in 1..Len(CrossIx) |->
       IF ~good(Uses[a], CrossIx[i]) THEN <<>>
       ELSE Cat([b \in 1..Len(Uses) |-> IF a = b THEN <<>> ELSE <<two(Uses[a], Uses[b], CrossIx[i], a + b + i)>>])])])

(* ---- the same member twice, whatever its flags ---- *)
DupCases(x) ==
  LET k == MKIT(61)
      syn == AttrK(k, "Synthetic", <<>>)
      dep == AttrK(k, "Deprecated", <<>>)
      fl(f, g, a, b, mid) == MemFile(k, 33, <<MemberK(k, f, "foo", "[La;", a)>> \o mid \o <<MemberK(k, g, "fooB", "[La;", b)>>, <<>>, "C09")
      me(c, f, g, a, b, mid) == MemFile(k, c, <<>>, <<MemberK(k, f, "foo", "(La;)V", a)>> \o mid \o <<MemberK(k, g, "fooB", "(La;)V", b)>>, "C10")
      k50 == MKIT(50)
      one(c, f, n, d, v) == LET kv == IF v = 50 THEN k50 ELSE k IN MemFile(kv, c, <<>>, <<MemberK(kv, f, n, d, <<>>)>>, "C10")
      oneF(f, n, d) == MemFile(k, 33, <<MemberK(k, f, n, d, <<>>)>>, <<>>, "C09")
      fm == <<Fld(k, "bar", "I"), Fld(k, "foo", "[[La;")>>
      mm == <<Mth(k, "bar", "()V"), Mth(k, "foo", "()V")>>
      n == Len(FlagSets)
  IN Cat([i \in 1..n |-> LET f == FlagSets[i] IN
       << fl(f, f, <<>>, <<>>, <<>>), fl(2, f, <<>>, <<>>, fm), fl(f, 2, <<>>, <<>>, <<>>), fl(f, f, <<syn>>, <<syn, dep>>, fm),
          me(33, f, f, <<>>, <<>>, <<>>), me(33, 1, f, <<>>, <<>>, mm), me(33, f, 1, <<>>, <<>>, <<>>), me(1537, f, f, <<syn>>, <<syn>>, mm), me(f % 32768, 1, 1, <<>>, <<>>, <<>>),
          one(33, f, "<init>", "()I", 61), one(33, f, "<clinit>", "(I)V", 61), one(33, f, "<clinit>", "()I", 50), one(1537, f, "<init>", "()V", 61), one(33, f, "<clinit>", "(I)V", 50), one(33, f, "<x>", "()V", 61),
          one(33, f, "<init>", "(La;)V", 61), one(33, f, "<clinit>", "()V", 61),
          oneF(f, "<x>", "I"), oneF(f, "f;o", "I"), oneF(f, "foo", "V") >>])
     \o Cat([i \in 1..16 |-> << fl(2^(i-1), 65535, <<dep>>, <<>>, Tup([j \in 1..40 |-> Fld(k, Pick(<<"bar", "fo", "foo2">>, j), Pick(<<"I", "J", "[I", "La;">>, j \div 3))])) >>])

(* ---- module classes with members of every kind ---- *)
ModMemberCases(x) ==
  LET src == ModSrc \o <<U("java/lang/Object"), U("<clinit>"), U("<init>"), U("Synthetic"), Ref("cObj", 7, <<"java/lang/Object">>)>>
      file(v, super, f, m) == LET k == MkKit(src, v) IN
         Case(k.pre \o Class0(32768, N(k, "cMI"), IF super = "" THEN 0 ELSE N(k, super), <<>>,
              IF f < 0 THEN <<>> ELSE <<MemberK(k, f, "foo", "I", IF f % 3 = 0 THEN <<AttrK(k, "Synthetic", <<>>)>> ELSE <<>>)>>,
              IF m < 0 THEN <<>> ELSE <<MemberK(k, m, IF m % 3 = 0 THEN "foo" ELSE "<clinit>", "()V", <<>>)>>, <<>>), "v", "C11")
  IN Cat([i \in 1..Len(FlagSets) |-> << file(61, "", FlagSets[i], -1), file(61, "", -1, FlagSets[i]), file(53, "", FlagSets[i], FlagSets[i]) >>])
     \o << file(61, "cObj", -1, -1), file(53, "cObj", -1, -1), file(61, "cMI", -1, -1), file(61, "cA", -1, -1), file(61, "cObj", 1, 1), file(61, "", -1, -1) >>

(* ---- every version ---- *)
SweepCases(x) ==
  LET majors == TLCEval(SortedNums((0..300) \cup UNION {{2^i - 1, 2^i, 2^i + 1} : i \in 8..15} \cup {65534, 65535, 5000, 13312, 15616}))
      minors == <<0, 1, 2, 3, 15, 127, 128, 255, 256, 32768, 65534, 65535>>
      src == <<U("A"), Ref("cA", 7, <<"A">>)>>
      k == MkKit(src, 61)
  IN Cat([i \in 1..Len(majors) |-> [j \in 1..Len(minors) |->
       Case(SubSeq(k.pre, 1, 4) \o E2(minors[j]) \o E2(majors[i]) \o SubSeq(k.pre, 9, Len(k.pre)) \o Class0(33, N(k, "cA"), 0, <<>>, <<>>, <<>>, <<>>), "v", "C08")]])

(* ---- dynamic entries in any number ---- *)
DynCases(x) ==
  LET f(q, n) == BsFile(BsSrc \o BsDyn(q), <<n>>, "class")
      pw(i) == 2^(i-1)
  IN Cat([i \in 1..16 |-> << f(<<<<17, 0>>, <<17, pw(i)>>>>, 1), f(<<<<18, pw(i)>>, <<18, 0>>>>, 1), f(<<<<17, 0>>, <<18, pw(i)>>>>, 1), f(<<<<18, pw(i)>>>>, 1) >>])
     \o Cat([i \in 1..11 |-> << f(<<<<17, 0>>, <<18, pw(i)>>>>, pw(i)), f(<<<<17, 0>>, <<18, pw(i)>>>>, pw(i) + 1), f(<<<<18, pw(i)>>, <<17, pw(i) - 1>>>>, pw(i)),
                               f(<<<<18, pw(i)>>, <<17, pw(i) - 1>>>>, pw(i) + 1) >>])
     \o Cat([i \in 1..16 |-> Cat([j \in 1..16 |-> << f(<<<<17 + ((i + j) % 2), pw(i)>>, <<17, pw(j)>>, <<18, 1>>>>, 2) >>])])
     \* many that are in order, and one that is not
     \o Cat([i \in 1..20 |-> LET q == Tup([j \in 1..20 |-> IF i = j THEN <<17 + (i % 2), 5>> ELSE <<17 + (j % 2), (j * 7) % 5>>]) IN << f(q, 5), f(q, 6) >>])

(* ---- classes drawn at random, then damaged ---- *)
Damage(b, h) ==
  LET at == 1 + (((Rnd(h, 1) * 251) + Rnd(h, 2)) % Len(b))
      to == (at % Len(b)) + 1
      r == Rnd(h, 3) % 12
      c == CASE r = 0 -> (b[at] + 1) % 256 [] r = 1 -> (b[at] + 255) % 256 [] r = 2 -> 0 [] r = 3 -> 255 [] r = 4 -> b[at] ^^ (2^(Rnd(h, 4) % 8)) [] r = 5 -> Rnd(h, 4) % 256
             [] r = 6 -> K("foo") % 256 [] OTHER -> b[to]
  IN CASE r < 8 -> [b EXCEPT ![at] = c]
       [] r = 8 -> SubSeq(b, 1, at - 1) \o SubSeq(b, at + 1, Len(b))
       [] r = 9 -> SubSeq(b, 1, at) \o SubSeq(b, at, Len(b))
       [] r = 10 -> [b EXCEPT ![at] = b[to], ![to] = b[at]]
       [] OTHER -> [b EXCEPT ![at] = (b[at] + 1) % 256, ![to] = (b[to] + 255) % 256]
DamagedCases(seed, n) ==
  [i \in 1..n |-> LET h == Rnd(seed * 83 + 5, i \div 4)
                      b == RndClass(h)
                      d == Damage(b, Rnd(h, 100 + i))
                  IN Case(IF i % 5 = 0 THEN Damage(d, Rnd(h, 200 + i)) ELSE d, Pick(<<"a", "a", "p", "a", "d", "l">>, i), "C09,C10,C13,C14,C15,C16,C17,C18,C19,C20,C21")]

(* ---- lengths that are off by as much as a counter wraps at ---- *)
(* The contents are intact and the file goes on for longer than the length  *)
(* says, so that only the length itself is wrong.                           *)
FarPad(n) == Attr("foo", Rep(n, 0))
FarCases(x) ==
  LET off(n, b, d) == E2(K(n)) \o E4(Len(b) + d) \o b
      c(ctx, n, b, d, pad) == Case(In(ctx, <<off(n, b, d), FarPad(pad)>>), "a", "C02")
      first(n) == Base(Body(n), 0, 0)
      near(n) == Cat([i \in 1..Len(Contexts) |-> << c(Contexts[i], n, first(n), 256, 600), c(Contexts[i], n, first(n), 512, 600) >>])
      far(n, j) == << c(Home(n), n, first(n), 65536, 66000), c(Contexts[1 + (j % 5)], n, first(n), 65536, 66000) >>
      \* contents of 65536 bytes and more
      exc(k) == E2(k) \o Cat([i \in 1..k |-> E2(K("cA"))])
      lines(k) == E2(k) \o Rep(4 * k, 0)
      text(k) == Rep(k, 97)
      code(k) == CodeBody(Rep(k, 0) \o <<RETURN_>>, <<>>, <<>>)
      big == << <<"method", "Exceptions", exc(32800), "C02,C14">>, <<"code", "LineNumberTable", lines(16400), "C02,C19">>, <<"class", "SourceDebugExtension", text(65600), "C02,C06,C14">>,
                <<"class", "foo", text(65600), "C02,C13">>, <<"class", "InnerClasses", E2(8200) \o Cat([i \in 1..8200 |-> E2(K("cA")) \o <<0, 0, 0, 0, 0, 1>>]), "C02,C14">>,
                <<"class", "NestMembers", exc(32800), "C02,C14">>, <<"method", "Code", code(65400), "C02,C19,C20">> >>
      each(e) == << Case(In(e[1], <<off(e[2], e[3], 0), Attr("Deprecated", <<>>)>>), "p", e[4]), Case(In(e[1], <<off(e[2], e[3], -65536), FarPad(3)>>), "a", "C02"),
                    Case(In(e[1], <<off(e[2], e[3], 65536), FarPad(66000)>>), "a", "C02"), Case(In(e[1], <<off(e[2], e[3], -256), FarPad(3)>>), "a", "C02"),
                    Case(In(e[1], <<off(e[2], e[3], 256), FarPad(600)>>), "a", "C02"), Case(In(e[1], <<off(e[2], e[3], -1)>>), "a", "C02"), Case(In(e[1], <<off(e[2], e[3], 1)>>), "a", "C02") >>
  IN Cat([j \in 1..Len(AllAttrNames) |-> near(AllAttrNames[j]) \o far(AllAttrNames[j], j)])
     \o Cat([i \in 1..Len(big) |-> IF Len(big[i][3]) >= 65536 THEN each(big[i])
              ELSE << Case(In(big[i][1], <<off(big[i][2], big[i][3], 0), Attr("Deprecated", <<>>)>>), "a", big[i][4]), Case(In(big[i][1], <<off(big[i][2], big[i][3], 65536), FarPad(66000)>>), "a", "C02") >>])

(* ---- many entries that refer to the same ones ---- *)
(* n entries like e, then the entries they refer to, then f.               *)
CrowdPool(e, n, f) ==
  LET k == MkKitAfter(n, PairSrc \o <<f>>, 61)
      one == KitBytes(e, k.where)
      rest == SubSeq(k.pre, 11 + (5 * n), Len(k.pre))
  IN Case(Header(61, k.n) \o Repeat(one, n) \o rest \o Class0(33, N(k, "cA"), 0, <<>>, <<>>, <<>>, <<PairBoot(k)>>), "v", "C03,C04,C05")
CrowdCases(n) ==
  Cat([g \in 1..Len(PairVariants) |-> LET vs == PairVariants[g]
        e(i) == <<"X1">> \o vs[i]
        f(i) == <<"X2">> \o vs[i]
     IN Cat([i \in 1..Len(vs) |-> << CrowdPool(e(i), n, f(1)), CrowdPool(e(1), n, f(i)) >>])])
  \o Cat([k \in 1..9 |-> Cat([t \in 1..5 |-> LET m == <<"field", "meth", "init", "imeth", "fld2">>[t] IN << CrowdPool(<<"X1", "h", k, m>>, n, <<"X2", "h", 1 + ((k + t) % 9), m>>) >>])])
=============================================================================
