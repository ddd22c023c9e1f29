------------------------------- MODULE GenBase -------------------------------
(***************************************************************************)
(* Generating behaviours: encoders for class files, a constant pool "kit"  *)
(* with entries of every kind, and class layouts around a part under test. *)
(* A case is [b |-> bytes, m |-> observation mode, p |-> property].        *)
(***************************************************************************)
EXTENDS ClassFile, SequencesExt, IOUtils

Bit(set) == set                     \* (for readability of flag sets)
E1(n) == <<n>>
E2(n) == <<(n \div 256) % 256, n % 256>>
E4(n) == E2((n \div 65536) % 65536) \o E2(n % 65536)
Rep(n, x) == IF n = 0 THEN <<>> ELSE [i \in 1..n |-> x]
(* (TLCEval: TLC otherwise keeps function constructors unevaluated.)       *)
Cat(ss) == IF DOMAIN ss = {} THEN <<>> ELSE FlattenSeq(TLCEval(ss))
Map(ss, Op(_)) == IF DOMAIN ss = {} THEN <<>> ELSE TLCEval([i \in 1..Len(ss) |-> Op(ss[i])])
SortedNums(S) == IF S = {} THEN <<>> ELSE SetToSortSeq(S, <)
NonNeg == 0..65535
Case(b, m, p) == [b |-> b, m |-> m, p |-> p]

(* ---- constant pool kits ---- *)
(* <<name, "u", bytes>>          Utf8                                      *)
(* <<name, "b", bytes>>          tag and payload as they are (one slot)    *)
(* <<name, "w", bytes>>          the same, two slots                       *)
(* <<name, "r", tag, refs>>      references by name                        *)
(* <<name, "h", kind, ref>>      method handle                             *)
(* <<name, "d", tag, ix, ref>>   dynamic / invokedynamic                   *)
(* <<name, "g", n>>              n integers                                *)
U(str) == <<str, "u", Asc(str)>>
UB(n, bytes) == <<n, "u", bytes>>
Ref(n, tag, refs) == <<n, "r", tag, refs>>

KitWidth(e) == IF e[2] = "w" THEN 2 ELSE IF e[2] = "g" THEN e[3] ELSE 1
FillBytes(n) ==
  IF n = 0 THEN <<>>
  ELSE TLCEval([j \in 1..5*n |-> LET v == 7 * (1 + ((j - 1) \div 5)) o == (j - 1) % 5 IN
         CASE o = 0 -> 3 [] o = 1 -> 0 [] o = 2 -> v \div 65536 [] o = 3 -> (v \div 256) % 256 [] OTHER -> v % 256])
KitBytes(e, where) ==
  CASE e[2] = "u" -> <<1>> \o E2(Len(e[3])) \o e[3]
    [] e[2] \in {"b", "w"} -> e[3]
    [] e[2] = "r" -> <<e[3]>> \o Cat([i \in 1..Len(e[4]) |-> E2(where[e[4][i]])])
    [] e[2] = "h" -> <<15, e[3]>> \o E2(where[e[4]])
    [] e[2] = "g" -> FillBytes(e[3])
    [] e[2] = "d" -> <<e[3]>> \o E2(e[4]) \o E2(where[e[5]])

(* The same kits in another guise (environment variable KIT): with long    *)
(* texts, with names that mean something to Java, with texts hard to tell  *)
(* apart, with attribute names for names, with characters of every width,  *)
(* or as a preview version.                                                *)
Run(n) == Tup([i \in 1..n |-> 97 + ((i * i + i) % 25)])
KeyBytes(ps) == Tup([i \in 1..Len(ps) |-> <<ps[i][1], Asc(ps[i][2])>>])
Guise(v) ==
  CASE v = "long" -> LET x(k, n) == <<k, Asc(k) \o Run(n)>>
                         d(k, t, n) == <<k, Asc(t) \o Run(n) \o <<59>>>>
                     IN << x("foo", 300), x("bar", 254), x("A", 1025), x("p/B", 253), x("v1.0 x", 400), x("m.one", 280), x("m.two", 511), x("p/one", 256),
                           x("J", 0), d("Lp/Q;", "Lp/Q", 300), d("[[Lp/Q;", "[[Lp/Q", 253), d("[Luni;", "[Lu", 700), d("(Luni;)Luni;", "(ILu;[I)Lu", 600),
                           <<"(I[JLp/Q;)Lp/R;", Asc("(I[JLp/Q") \o Run(260) \o Asc(";)Lp/R") \o Run(251) \o Asc(";")>>,
                           <<"nul", <<102, 192, 128, 111>> \o Run(256)>>, <<"pair", <<237, 160, 189, 237, 184, 128>> \o Run(257)>>,
                           <<"uni", <<195, 169, 47, 226, 130, 172>> \o Run(258)>>, <<"uni2", <<99, 195, 169>> \o Run(250)>> >>
    [] v = "known1" -> KeyBytes(<< <<"foo", "serialVersionUID">>, <<"bar", "main">>, <<"A", "java/lang/Object">>, <<"p/B", "java/lang/Enum">>, <<"[I", "[Ljava/lang/Object;">>,
                           <<"Lp/Q;", "Ljava/lang/String;">>, <<"[[Lp/Q;", "[Ljava/lang/String;">>, <<"(I[JLp/Q;)Lp/R;", "([Ljava/lang/String;)Ljava/lang/Object;">>,
                           <<"v1.0 x", "Object.java">>, <<"m.one", "java.base">>, <<"m.two", "java.se">>, <<"p/one", "java/lang">>, <<"uni", "java/lang/Throwable">>, <<"uni2", "finalize">> >>)
    [] v = "known2" -> KeyBytes(<< <<"foo", "value">>, <<"bar", "values">>, <<"A", "p/B">>, <<"p/B", "java/lang/Object">>, <<"[I", "[Ljava/lang/Class;">>,
                           <<"Lp/Q;", "Ljava/lang/Deprecated;">>, <<"[[Lp/Q;", "[Ljava/lang/Object;">>, <<"(I[JLp/Q;)Lp/R;", "(Ljava/lang/String;)Ljava/lang/Enum;">>,
                           <<"v1.0 x", "17.0.1">>, <<"m.one", "jdk.internal">>, <<"m.two", "java.base">>, <<"p/one", "java/lang/invoke">>, <<"uni", "module-info">>, <<"uni2", "valueOf">> >>)
    [] v = "known3" -> KeyBytes(<< <<"foo", "this$0">>, <<"bar", "clone">>, <<"A", "module-info">>, <<"p/B", "java/lang/Record">>, <<"[I", "[Ljava/lang/annotation/Annotation;">>,
                           <<"Lp/Q;", "Ljava/lang/Object;">>, <<"[[Lp/Q;", "[[Ljava/lang/Object;">>, <<"(I[JLp/Q;)Lp/R;", "(Ljava/lang/Object;)Ljava/lang/Object;">>,
                           <<"v1.0 x", "*">>, <<"m.one", "ALL-UNNAMED">>, <<"m.two", "unnamed">>, <<"p/one", "META-INF">>, <<"uni", "package-info">>, <<"uni2", "$VALUES">> >>)
    [] v = "known4" -> KeyBytes(<< <<"foo", "invokeExact">>, <<"bar", "metafactory">>, <<"A", "java/lang/invoke/MethodHandle">>, <<"p/B", "java/lang/invoke/LambdaMetafactory">>, <<"[I", "[Ljava/lang/invoke/MethodHandle;">>,
                           <<"Lp/Q;", "Ljava/lang/invoke/VarHandle;">>, <<"[[Lp/Q;", "[Ljava/lang/invoke/CallSite;">>, <<"(I[JLp/Q;)Lp/R;", "([Ljava/lang/Object;)Ljava/lang/Object;">>,
                           <<"v1.0 x", "SMAP">>, <<"m.one", "a">>, <<"m.two", "b">>, <<"p/one", "c">>, <<"uni", "A$1">>, <<"uni2", "access$000">>, <<"V", "V">>, <<"J", "Z">> >>)
    [] v = "twins" -> KeyBytes(<< <<"foo", "value_one_x">>, <<"bar", "value_two_x">>, <<"A", "pack/Alpha/Typo">>, <<"p/B", "pack/Gamma/Typo">>, <<"[I", "[[[[[[[[[[[[[I">>,
                           <<"[[Lp/Q;", "[Lpack/Alph/Typo;">>, <<"Lp/Q;", "Lpack/Gamma/Typo;">>, <<"[Luni;", "Lpack/Delta/Typo;">>, <<"I", "Lpack/Sigma/Typo;">>, <<"J", "Lpack/Omega/Typo;">>,
                           <<"v1.0 x", "value_fix_x">>, <<"m.one", "mod.one.m">>, <<"m.two", "mod.two.m">>, <<"p/one", "pack/Kappa/Typo">>, <<"uni", "pack/Delta/Typo">>, <<"uni2", "value_six_x">>, <<"nul", "value_ten_x">>,
                           <<"(I[JLp/Q;)Lp/R;", "(Lpack/Alpha/Typo;)V">>, <<"(Luni;)Luni;", "(Lpack/Gamma/Typo;)V">> >>)
    [] v = "same" -> KeyBytes(<< <<"foo", "x">>, <<"bar", "x">>, <<"A", "x">>, <<"p/B", "x">>, <<"v1.0 x", "x">>, <<"m.one", "x">>, <<"m.two", "x">>, <<"p/one", "x">>, <<"uni", "x">>, <<"uni2", "x">>, <<"nul", "x">>, <<"pair", "x">>,
                           <<"I", "Lx;">>, <<"J", "Lx;">>, <<"Lp/Q;", "Lx;">>, <<"[Luni;", "Lx;">>, <<"[[Lp/Q;", "[Lx;">>, <<"[I", "[Lx;">> >>)
    [] v = "keys" -> KeyBytes(<< <<"foo", "Code">>, <<"bar", "Signature">>, <<"A", "StackMapTable">>, <<"p/B", "ConstantValue">>, <<"v1.0 x", "Synthetic">>, <<"m.one", "Module">>, <<"m.two", "Deprecated">>, <<"p/one", "Record">>,
                           <<"uni", "BootstrapMethods">>, <<"uni2", "InnerClasses">>, <<"nul", "Exceptions">>, <<"Lp/Q;", "LCode;">>, <<"[[Lp/Q;", "[LSynthetic;">>, <<"pair", "Deprecated">> >>)
    [] v = "wide" -> LET s4 == <<240, 159, 152, 128>> s6 == <<237, 160, 189, 237, 184, 128>> e2 == <<195, 169>> e3 == <<226, 130, 172>> z == <<192, 128>> IN
                     << <<"foo", s6 \o e2>>, <<"bar", e3 \o z>>, <<"A", e2 \o s6 \o e3>>, <<"p/B", z \o <<47>> \o e3>>, <<"v1.0 x", s6 \o s6>>, <<"m.one", e3 \o e2>>, <<"m.two", s6>>, <<"p/one", e3 \o <<47>> \o s6>>,
                        <<"uni", e3 \o e3>>, <<"uni2", e3>>, <<"nul", z>>, <<"Lp/Q;", <<76>> \o s6 \o <<59>>>>, <<"[[Lp/Q;", <<91, 91, 76>> \o e3 \o z \o <<59>>>>, <<"[Luni;", <<76>> \o e2 \o <<47>> \o z \o <<59>>>>,
                        <<"(I[JLp/Q;)Lp/R;", <<40, 76>> \o e3 \o <<59, 91, 76>> \o s6 \o <<59, 41, 76>> \o z \o <<59>>>>, <<"[I", <<91, 76>> \o s6 \o <<59>>>> >>
    [] OTHER -> <<>>
GuiseTexts == TLCEval(LET q == Guise(IOEnv.KIT) IN [k \in {q[i][1] : i \in 1..Len(q)} |-> q[CHOOSE i \in 1..Len(q) : q[i][1] = k][2]])
Varied(src) == IF DOMAIN GuiseTexts = {} THEN src
               ELSE Tup([i \in 1..Len(src) |-> IF src[i][2] = "u" /\ src[i][1] \in DOMAIN GuiseTexts THEN UB(src[i][1], GuiseTexts[src[i][1]]) ELSE src[i]])
Header(major, count) == <<202, 254, 186, 190>> \o (IF IOEnv.KIT = "preview" THEN <<255, 255>> ELSE IF IOEnv.KIT = "zero" THEN <<0, 0>> ELSE <<0, 3>>) \o E2(major) \o E2(count)
(* pos is cumulative so that a kit of hundreds of entries stays cheap;     *)
(* fill entries (integers) come first.                                     *)
MkKitAfter(fill, plain, major) ==
  LET src == Varied(plain)
      RECURSIVE Pos(_, _)
      Pos(i, at) == IF i > Len(src) THEN <<at>> ELSE <<at>> \o Pos(i+1, at + KitWidth(src[i]))
      pos == Pos(1, 1 + fill)
      names == {src[i][1] : i \in 1..Len(src)}
      where == TLCEval([n \in names |-> pos[CHOOSE i \in 1..Len(src) : src[i][1] = n]])
  IN [where |-> where, n |-> pos[Len(src) + 1],
      pre |-> Header(major, pos[Len(src) + 1]) \o FillBytes(fill) \o Cat([i \in 1..Len(src) |-> KitBytes(src[i], where)])]
(* A number in an environment variable, 0 if it is empty.                  *)
NumOf(t) == LET RECURSIVE V(_)
                V(i) == IF i = 0 THEN 0 ELSE 10 * V(i-1) + CharCode[SubSeq(t, i, i)] - 48
            IN V(Len(t))
(* With FILL, the indices of the kit's entries take more than one byte.    *)
FillEntries == NumOf(IOEnv.FILL)
MkKit(src, major) == MkKitAfter(FillEntries, src, major)

AllAttrNames == [i \in 1..Len(AttrList) |-> AttrList[i][1]]

KitSrc == [i \in 1..Len(AllAttrNames) |-> U(AllAttrNames[i])] \o <<
  U("A"), U("p/B"), U("[I"), U("[[Lp/Q;"), U("foo"), U("bar"), U("I"), U("Lp/Q;"), U("V"), U("J"),
  U("()V"), U("(I[JLp/Q;)Lp/R;"), U("<init>"), U("<clinit>"), U("v1.0 x"), U("m.one"), U("m.two"), U("p/one"),
  U("a/b;c"), U("x.y"),
  UB("empty", <<>>), UB("surrogate", <<97, 237, 160, 128>>), UB("nul", <<102, 192, 128, 111>>),
  UB("pair", <<237, 160, 189, 237, 184, 128, 122>>),
  <<"i1", "b", <<3, 1, 2, 3, 4>>>>, <<"i2", "b", <<3, 255, 254, 253, 252>>>>,
  <<"f1", "b", <<4, 63, 129, 2, 3>>>>, <<"f2", "b", <<4, 127, 192, 0, 1>>>>,
  <<"l1", "w", <<5, 1, 2, 3, 4, 129, 6, 7, 8>>>>, <<"l2", "w", <<5, 255, 255, 255, 255, 255, 255, 255, 254>>>>,
  <<"d1", "w", <<6, 63, 240, 1, 2, 3, 4, 5, 6>>>>, <<"d2", "w", <<6, 127, 248, 0, 0, 0, 0, 0, 1>>>>,
  Ref("cA", 7, <<"A">>), Ref("cB", 7, <<"p/B">>), Ref("cArr", 7, <<"[I">>), Ref("cArr2", 7, <<"[[Lp/Q;">>),
  Ref("cNul", 7, <<"nul">>),
  Ref("sFoo", 8, <<"foo">>), Ref("sEmpty", 8, <<"empty">>), Ref("sSur", 8, <<"surrogate">>), Ref("sPair", 8, <<"pair">>),
  Ref("nF", 12, <<"foo", "I">>), Ref("nM", 12, <<"bar", "()V">>), Ref("nF2", 12, <<"bar", "[[Lp/Q;">>),
  Ref("nM2", 12, <<"foo", "(I[JLp/Q;)Lp/R;">>), Ref("nInit", 12, <<"<init>", "()V">>),
  Ref("field", 9, <<"cA", "nF">>), Ref("field2", 9, <<"cArr", "nF2">>),
  Ref("meth", 10, <<"cB", "nM">>), Ref("meth2", 10, <<"cA", "nInit">>),
  Ref("imeth", 11, <<"cA", "nM2">>), Ref("imeth2", 11, <<"cB", "nM">>),
  <<"hGet", "h", 1, "field">>, <<"hPutS", "h", 4, "field2">>, <<"hVirt", "h", 5, "meth">>,
  <<"hStat", "h", 6, "imeth">>, <<"hSpec", "h", 7, "meth2">>, <<"hNew", "h", 8, "meth2">>, <<"hIntf", "h", 9, "imeth2">>,
  Ref("mt", 16, <<"()V">>), Ref("mt2", 16, <<"(I[JLp/Q;)Lp/R;">>),
  <<"dyn", "d", 17, 0, "nF">>, <<"dyn2", "d", 17, 1, "nF2">>,
  <<"indy", "d", 18, 1, "nM">>, <<"indy2", "d", 18, 0, "nM2">>,
  Ref("mod1", 19, <<"m.one">>), Ref("mod2", 19, <<"m.two">>),
  Ref("pk1", 20, <<"p/one">>), Ref("pk2", 20, <<"A">>),
  UB("uni", <<195, 169, 47, 226, 130, 172, 120>>), UB("[Luni;", <<91, 76, 195, 169, 47, 226, 130, 172, 120, 59>>), UB("uni2", <<99, 195, 169, 116>>),
  UB("(Luni;)Luni;", <<40, 76, 195, 169, 47, 226, 130, 172, 120, 59, 41, 76, 195, 169, 47, 226, 130, 172, 120, 59>>),
  Ref("cUni", 7, <<"uni">>), Ref("nUni", 12, <<"uni2", "(Luni;)Luni;">>), Ref("pkUni", 20, <<"uni">>), Ref("mtUni", 16, <<"(Luni;)Luni;">>), Ref("sUni", 8, <<"uni">>) >>

KIT == TLCEval(MkKitAfter(FillEntries, KitSrc, 61))
K(n) == KIT.where[n]
KN(ns) == Map(ns, K)

(* Valid indices for each kind of reference, by salt.                      *)
GoodIx == TLCEval([k \in {"utf8", "uqname", "fdesc", "rdesc", "class", "module", "package", "nat", "literal",
                  "loadable", "handle", "int", "float", "long", "double"} |->
  CASE k = "utf8" -> KN(<<"v1.0 x", "foo", "pair", "()V", "uni">>)
    [] k = "uqname" -> KN(<<"foo", "bar", "nul", "uni2">>)
    [] k = "fdesc" -> KN(<<"[[Lp/Q;", "I", "Lp/Q;", "[I", "[Luni;">>)
    [] k = "rdesc" -> KN(<<"Lp/Q;", "V", "J", "[Luni;">>)
    [] k = "class" -> KN(<<"cA", "cB", "cArr", "cNul", "cUni">>)
    [] k = "module" -> KN(<<"mod1", "mod2">>)
    [] k = "package" -> KN(<<"pk1", "pk2", "pkUni">>)
    [] k = "nat" -> KN(<<"nF", "nM2", "nM", "nUni">>)
    [] k = "literal" -> KN(<<"i1", "sFoo", "d1", "l2", "f2", "sSur", "sUni">>)
    [] k = "loadable" -> KN(<<"cB", "hGet", "dyn", "mt2", "l1", "sPair", "dyn2", "hStat", "i2", "mtUni">>)
    [] k = "handle" -> KN(<<"hVirt", "hStat", "hPutS", "hNew", "hIntf">>)
    [] k = "int" -> KN(<<"i1", "i2">>)
    [] k = "float" -> KN(<<"f1", "f2">>)
    [] k = "long" -> KN(<<"l1", "l2">>)
    [] k = "double" -> KN(<<"d1", "d2">>)])
Good(k, s) == GoodIx[k][1 + (s % Len(GoodIx[k]))]

(* What a reference is replaced by: an entry of every kind, unusable slots,*)
(* and indices outside the pool.                                           *)
Probes == KN(<<"foo", "I", "()V", "(I[JLp/Q;)Lp/R;", "V", "p/B", "[[Lp/Q;", "<init>", "<clinit>", "x.y", "a/b;c", "empty",
               "surrogate", "nul", "pair", "i2", "f2", "l2", "d2", "cB", "cArr", "sFoo", "sSur", "field2", "meth2",
               "imeth2", "nF2", "nM2", "hNew", "hGet", "mt", "dyn2", "indy2", "mod2", "pk2">>)
          \o << K("l1") + 1, 0, KIT.n, KIT.n - 1, 65535, 256 + K("foo") >>
FewProbes == KN(<<"foo", "I", "V", "()V", "x.y", "surrogate", "pair", "i2", "l2", "d2", "f2", "cB", "sFoo", "field2", "nF", "hNew", "mt",
                  "dyn", "mod1", "pk1">>) \o << K("d2") + 1, 0, KIT.n >>

(* ---- class layouts ---- *)
Attr(name, body) == E2(K(name)) \o E4(Len(body)) \o body
Member(flags, name, desc, attrs) == E2(flags) \o E2(K(name)) \o E2(K(desc)) \o E2(Len(attrs)) \o Cat(attrs)
BootBody == E2(2) \o E2(K("hStat")) \o E2(1) \o E2(K("i1")) \o E2(K("hVirt")) \o E2(0)
Boot == Attr("BootstrapMethods", BootBody)
Class0(flags, this, super, ifs, fields, methods, attrs) ==
  E2(flags) \o E2(this) \o E2(super)
  \o E2(Len(ifs)) \o Cat([i \in 1..Len(ifs) |-> E2(ifs[i])])
  \o E2(Len(fields)) \o Cat(fields)
  \o E2(Len(methods)) \o Cat(methods)
  \o E2(Len(attrs)) \o Cat(attrs)
Class(fields, methods, attrs) == Class0(33, K("cA"), K("cB"), <<>>, fields, methods, attrs)

CodeBody(code, excs, attrs) ==
  E2(258) \o E2(772) \o E4(Len(code)) \o code \o E2(Len(excs)) \o Cat(excs) \o E2(Len(attrs)) \o Cat(attrs)
RETURN_ == 177

Contexts == <<"class", "field", "method", "code", "record">>
(* The tail of a class file with the attribute bytes in the given place.   *)
In(ctx, attrs) ==
  CASE ctx = "class" -> Class(<<>>, <<>>, attrs \o <<Boot>>)
    [] ctx = "classonly" -> Class(<<>>, <<>>, attrs)
    [] ctx = "field" -> Class(<<Member(1, "foo", "I", attrs)>>, <<>>, <<Boot>>)
    [] ctx = "method" -> Class(<<>>, <<Member(1025, "bar", "()V", attrs)>>, <<Boot>>)
    [] ctx = "code" -> Class(<<>>, <<Member(1, "bar", "()V", <<Attr("Code", CodeBody(<<RETURN_>>, <<>>, attrs))>>)>>, <<Boot>>)
    [] ctx = "record" -> Class(<<>>, <<>>,
         <<Attr("Record", E2(1) \o E2(K("foo")) \o E2(K("I")) \o E2(Len(attrs)) \o Cat(attrs)), Boot>>)
=============================================================================
