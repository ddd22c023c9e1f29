------------------------------- MODULE GenRnd -------------------------------
(***************************************************************************)
(* Attribute contents and whole classes drawn at random from the formats   *)
(* of Attributes.tla.  Where GenAttr.tla deviates from one conforming      *)
(* encoding in one component, this module varies everything at once:       *)
(* values that coincide, rows that repeat, lists of any small length,      *)
(* attributes in any company.  Most of it conforms; now and then a         *)
(* component does not.                                                     *)
(***************************************************************************)
EXTENDS GenBig

R16(h) == LET r == Rnd(h, 901) IN
          CASE r % 8 \in {0, 1, 2} -> Rnd(h, 902) % 5
            [] r % 8 = 3 -> Pick(<<255, 256, 32767, 32768, 65535, 65534, 128, 127>>, Rnd(h, 903))
            [] r % 8 = 4 -> Rnd(h, 904) % 256
            [] OTHER -> ((Rnd(h, 905) % 256) * 256) + (Rnd(h, 906) % 256)
R8(h) == LET r == Rnd(h, 911) IN
         CASE r % 4 = 0 -> Rnd(h, 912) % 4 [] r % 4 = 1 -> Pick(<<127, 128, 255, 254, 16>>, Rnd(h, 913)) [] OTHER -> Rnd(h, 914) % 256
(* Frame kinds come in equal shares, however many tags they have.          *)
RTag(t, h) == IF Cardinality(DOMAIN t) > 30
              THEN Pick(<<Rnd(h, 921) % 64, 64 + (Rnd(h, 922) % 64), 247, 248, 249, 250, 251, 252, 253, 254, 255, 0, 63, 64, 127>>, Rnd(h, 923))
              ELSE Pick(TagsOf(t), Rnd(h, 924))
REvTag(h, d) == Pick(IF d >= 3 THEN PlainValueTags ELSE PlainValueTags \o <<64, 91, 91>>, Rnd(h, 925))
RLen(h, d) == Pick(IF d >= 3 THEN <<0, 1, 1, 2>> ELSE <<0, 1, 1, 2, 2, 3, 3, 4, 6, 9>>, Rnd(h, 926))
Odd(h, n) == Rnd(h, 927) % n = 0
(* the family "attr-odd" is far less well-behaved than the others *)
Wild == IOEnv.FAMILY = "attr-odd"
OddPart(h, n) == Odd(h, IF Wild THEN 12 ELSE n)

RText(h) == Cat([i \in 1..(Rnd(h, 931) % 7) |-> Pick(<< <<97>>, <<0>>, <<192, 128>>, <<195, 169>>, <<226, 130, 172>>, <<237, 160, 189, 237, 184, 128>>,
                 <<240, 159, 152, 128>>, <<127>>, <<223, 191>>, <<224, 160, 128>>, <<239, 191, 191>>, <<237, 159, 191>>, <<238, 128, 128>>,
                 IF Odd(h, 5) THEN <<237, 160, 128>> ELSE <<10>>, IF Odd(h, 7) THEN <<237, 184, 128>> ELSE <<92>> >>, Rnd(h, 932 + i))])

RECURSIVE RF(_, _, _)
RECURSIVE RAttr(_, _, _)
RSeq(f, from, h, d) == Cat([i \in 1..(Len(f) - from + 1) |-> RF(f[from + i - 1], Rnd(h, i), d)])
(* n elements: all different, in pairs, or all the same *)
RRows(f, h, d, n) == LET k == Rnd(h, 941) % 5 IN
   Cat([i \in 1..n |-> RF(f, CASE k = 0 -> Rnd(h, 942) [] k = 1 -> Rnd(h, 943 + (i \div 2)) [] k = 2 -> Rnd(h, 943 + (i % 2)) [] OTHER -> Rnd(h, 943 + i), d + 1)])
RList(f, h, d, E(_)) == LET n == RLen(h, d) IN E(IF Odd(h, IF Wild THEN 60 ELSE 400) THEN (n + 1) % 10 ELSE n) \o RRows(f, h, d, n)
RAttrs(names, h, d) == LET n == Pick(<<0, 0, 1, 1, 2, 3>>, Rnd(h, 951)) IN
   E2(n) \o Cat([i \in 1..n |-> RAttr(Pick(names, Rnd(h, 952 + i)), Rnd(h, 960 + i), d + 1)])
InnerNames == <<"Deprecated", "Signature", "LineNumberTable", "LocalVariableTable", "LocalVariableTypeTable", "StackMapTable", "RuntimeVisibleAnnotations",
                "RuntimeVisibleTypeAnnotations", "RuntimeInvisibleTypeAnnotations", "foo", "Synthetic", "ConstantValue">>
RF(f, h, d) ==
  LET t == f[1] IN
  CASE t = "u1" -> <<R8(h)>>
    [] t = "u2" -> E2(R16(h))
    [] t = "cp" -> E2(IF OddPart(h, 500) THEN Pick(Probes, Rnd(h, 961)) ELSE Good(f[2], Rnd(h, 962)))
    [] t = "opt" -> E2(IF OddPart(h, 500) THEN Pick(Probes, Rnd(h, 961)) ELSE IF Odd(h, 4) THEN 0 ELSE Good(f[2], Rnd(h, 962)))
    [] t = "flags" -> E2(IF Odd(h, 3) THEN R16(Rnd(h, 963)) ELSE f[2] & R16(Rnd(h, 964)))
    [] t = "sflags" -> E2(IF OddPart(h, 200) THEN R16(Rnd(h, 963)) ELSE f[2] & R16(Rnd(h, 964)))
    [] t = "const" -> <<>>
    [] t = "seq" -> RSeq(f, 2, h, d)
    [] t = "as" -> RSeq(f, 3, h, d)
    [] t = "rep1" -> RList(f[2], h, d, E1)
    [] t = "rep2" -> RList(f[2], h, d, E2)
    [] t = "repn" -> RRows(f[3], h, d, f[2])
    [] t = "sw" -> LET g == RTag(f[2], h) IN <<g>> \o RF(f[2][g], Rnd(h, 965), d)
    [] t \in {"ev0", "ev"} -> LET g == REvTag(h, d) IN <<g>> \o RF(EvTable[g], Rnd(h, 966), d + 1)
    [] t \in {"ann", "annv"} -> RF(AnnBodyF, Rnd(h, 967), d + 1)
    [] t = "attrs" -> IF d >= 3 THEN <<0, 0>> ELSE RAttrs(InnerNames, h, d)
    [] t = "code" -> LET code == RndCode(Rnd(h, 968), 1, Rnd(h, 969) % 9, 0) \o (IF Odd(h, 6) THEN <<>> ELSE <<RETURN_>>) IN
                     E2(R16(Rnd(h, 970))) \o E2(R16(Rnd(h, 971))) \o E4(Len(code)) \o code \o RF(<<"rep2", ExcF>>, Rnd(h, 972), d) \o RF(<<"attrs">>, Rnd(h, 973), d + 1)
    [] t = "rawtext" -> RText(h)
RBody(n, h, d) == IF n = "foo" THEN Cat([i \in 1..(Rnd(h, 981) % 5) |-> <<R8(Rnd(h, 982 + i))>>]) ELSE RF(Body(n), h, d)
RAttr(n, h, d) == LET b == RBody(n, h, d) IN
   IF Odd(h, IF Wild THEN 70 ELSE 700) THEN E2(K(n)) \o E4(Len(b) + 1 + (h % 2)) \o b
   ELSE IF Odd(h, IF Wild THEN 50 ELSE 300) THEN E2(K(n)) \o E4(Len(b) + 1 + (h % 2)) \o b \o Rep(1 + (h % 2), 0)
   ELSE E2(K(n)) \o E4(Len(b)) \o b

(* Every attribute where it belongs, n times over.                         *)
RndAttrCases(seed, n) ==
  Cat([a \in 1..Len(AllAttrNames) |-> LET nm == AllAttrNames[a] IN
    IF RBody(nm, 1, 0) = <<>> /\ RBody(nm, 2, 0) = <<>> THEN <<>>
    ELSE [i \in 1..n |-> Case(In(Home(nm), <<RAttr(nm, Rnd(seed * 97 + a, i), 0)>>), Pick(<<"a", "a", "a", "p", "d">>, i), PropOf(nm))]])

(* Whole classes.                                                          *)
MemberNames == <<"foo", "bar", "nul", "pair", "uni2">>
FieldAttrNames == <<"ConstantValue", "Deprecated", "Signature", "RuntimeVisibleAnnotations", "RuntimeInvisibleTypeAnnotations", "Synthetic", "foo">>
MethodAttrNames == <<"Code", "Code", "Code", "Exceptions", "AnnotationDefault", "MethodParameters", "RuntimeVisibleParameterAnnotations", "RuntimeInvisibleParameterAnnotations",
                     "Deprecated", "Signature", "RuntimeInvisibleAnnotations", "RuntimeVisibleTypeAnnotations", "foo">>
ClassAttrNames == SelectSeq(AllAttrNames, LAMBDA n : Home(n) = "class") \o <<"foo", "InnerClasses", "Record", "Record", "Record", "SourceFile">>
RndMember(names, descs, attrs, i, h) ==
  E2(R16(Rnd(h, 1))) \o E2(K(Pick(names, IF Odd(h, 60) THEN 0 ELSE i))) \o E2(K(Pick(descs, Rnd(h, 2)))) \o RAttrs(attrs, Rnd(h, 3), 0)
(* the bootstrap table is the last attribute of the class, or the first *)
RndClass(h) ==
  LET ni == Rnd(h, 11) % 3   nf == Pick(<<0, 1, 2, 4>>, Rnd(h, 12))   nm == Pick(<<0, 1, 2, 4>>, Rnd(h, 13))   na == Rnd(h, 14) % 4
      c(r) == K(Pick(IF Odd(h, 60) THEN <<"cArr", "cA">> ELSE <<"cA", "cB", "cNul", "cUni">>, r))
      as == Cat([i \in 1..na |-> RAttr(Pick(ClassAttrNames, Rnd(h, 20 + i)), Rnd(h, 30 + i), 0)])
  IN E2(R16(Rnd(h, 15)) % 32768) \o E2(c(Rnd(h, 16))) \o E2(IF Odd(h, 5) THEN 0 ELSE c(Rnd(h, 17)))
     \o E2(ni) \o Cat([i \in 1..ni |-> E2(c(Rnd(h, 18) + i))])
     \o E2(nf) \o Cat([i \in 1..nf |-> RndMember(MemberNames, <<"I", "J", "[I", "Lp/Q;", "[[Lp/Q;", "[Luni;">>, FieldAttrNames, i, Rnd(h, 40 + i))])
     \o E2(nm) \o Cat([i \in 1..nm |-> RndMember(MemberNames, <<"()V", "(I[JLp/Q;)Lp/R;", "(Luni;)Luni;">>, MethodAttrNames, i, Rnd(h, 50 + i))])
     \o E2(na + 1) \o (IF Odd(h, 2) THEN as \o Boot ELSE Boot \o as)
RndClassCases(seed, n) ==
  [i \in 1..n |-> Case(RndClass(Rnd(seed * 89 + 7, i)), Pick(<<"a", "a", "p", "a", "d", "n">>, i), "C09,C10,C13,C14,C15,C16,C17,C18,C19,C20,C21")]
=============================================================================
