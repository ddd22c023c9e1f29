------------------------------ MODULE GenFlood ------------------------------
(***************************************************************************)
(* Classes as long as the formats' counts allow: pools full of entries of  *)
(* one kind, tens of thousands of members, attributes, rows, instructions. *)
(* What they come to is mostly not computed (only that they come to a      *)
(* value or an error, alike in every build); see C01 and C24.              *)
(***************************************************************************)
EXTENDS GenRnd

Repeat(b, n) == IF n = 0 \/ b = <<>> THEN <<>> ELSE LET w == Len(b) IN TLCEval([j \in 1..w*n |-> b[1 + ((j - 1) % w)]])
FloodBase == MiniSrc \o MiniNew \o << U("p/Q"), UB("uni", <<120, 192, 128, 195, 169>>), U("[I"), U("(J)[I"), Ref("cB", 7, <<"p/Q">>),
                 Ref("cU", 7, <<"uni">>), Ref("cArr", 7, <<"[I">>), Ref("nF2", 12, <<"uni", "[I">>), Ref("nM2", 12, <<"foo", "(J)[I">>) >>
(* n copies of entry e before the other ones *)
FloodPool(e, n) ==
  LET k == MkKitAfter(n * KitWidth(e), FloodBase, 61)
      one == KitBytes(e, k.where)
      rest == SubSeq(k.pre, 11 + (5 * n * KitWidth(e)), Len(k.pre))
  IN Case(Header(61, k.n) \o Repeat(one, n) \o rest \o
          Class0(33, N(k, "cA"), 0, <<>>, <<>>, <<>>, <<AttrK(k, "BootstrapMethods", E2(2) \o E2(N(k, "h")) \o E2(0) \o E2(N(k, "h")) \o E2(0))>>), "v", "C01,C03,C05")
FloodEntries == << UB("f", <<>>), UB("f", <<97>>), UB("f", <<237, 160, 128>>), UB("f", <<192, 128>>), <<"f", "b", <<3, 0, 0, 0, 1>>>>, <<"f", "b", <<4, 127, 192, 0, 0>>>>,
   <<"f", "w", <<5, 0, 0, 0, 0, 0, 0, 0, 1>>>>, <<"f", "w", <<6, 0, 0, 0, 0, 0, 0, 0, 1>>>>, Ref("f", 7, <<"p/Q">>), Ref("f", 7, <<"[I">>), Ref("f", 8, <<"uni">>), Ref("f", 9, <<"cA", "nF">>),
   Ref("f", 10, <<"cA", "nM2">>), Ref("f", 11, <<"cB", "nM2">>), Ref("f", 12, <<"foo", "(J)[I">>), <<"f", "h", 1, "field">>, <<"f", "h", 6, "meth">>, Ref("f", 16, <<"(J)[I">>),
   <<"f", "d", 17, 0, "nF">>, <<"f", "d", 18, 0, "nM">>, Ref("f", 19, <<"p/Q">>), Ref("f", 20, <<"p/Q">>) >>
FloodPools(n) == [i \in 1..Len(FloodEntries) |-> LET e == FloodEntries[i] IN FloodPool(e, IF KitWidth(e) = 2 THEN n \div 2 ELSE n)]

(* entries that refer to ones exactly `delta` slots before (after) them *)
DeltaCases(x) ==
  LET one == << U("A"), U("foo"), U("()V"), Ref("c1", 7, <<"A">>), Ref("c2", 7, <<"A">>), Ref("c3", 7, <<"A">>), Ref("c4", 7, <<"A">>), Ref("nF", 12, <<"foo", "I">>), Ref("nF2", 12, <<"foo", "I">>),
                Ref("nM", 12, <<"foo", "()V">>), Ref("nM2", 12, <<"foo", "()V">>), Ref("nM3", 12, <<"foo", "()V">>), Ref("field", 9, <<"c1", "nF">>), Ref("meth", 10, <<"c1", "nM">>), Ref("imeth", 11, <<"c1", "nM">>), U("bar"), U("I"),
                U("m"), U("p") >>
      two == << Ref("A_", 7, <<"A">>), Ref("foo_", 8, <<"foo">>), Ref("v_", 16, <<"()V">>), Ref("c1_", 9, <<"c1", "nF">>), Ref("c2_", 10, <<"c2", "nM">>), Ref("c3_", 11, <<"c3", "nM">>), Ref("c4_", 7, <<"A">>),
                Ref("nF_", 9, <<"c1", "nF">>), <<"nF2_", "d", 17, 0, "nF2">>, Ref("nM_", 10, <<"c1", "nM">>), <<"nM2_", "d", 18, 0, "nM2">>, Ref("nM3_", 11, <<"c1", "nM3">>), <<"field_", "h", 1, "field">>, <<"meth_", "h", 6, "meth">>,
                <<"imeth_", "h", 9, "imeth">>, Ref("bar_", 12, <<"bar", "I">>), Ref("I_", 12, <<"bar", "I">>), Ref("m_", 19, <<"m">>), Ref("p_", 20, <<"p">>) >>
      last == << U("BootstrapMethods"), <<"g2", "g", 3>> >>
      f(src) == LET k == MkKit(src, 61) IN Case(k.pre \o Class0(33, N(k, "c1"), N(k, "A_"), <<N(k, "c4_")>>, <<>>, <<>>, <<AttrK(k, "BootstrapMethods", E2(1) \o E2(N(k, "meth_")) \o E2(0))>>), "a", "C03,C04,C12")
      ds == <<128, 256, 512, 1024, 4096, 32768, 65536 - 256>>
  IN Cat([i \in 1..Len(ds) |-> << f(one \o <<<<"g", "g", ds[i] - Len(one)>>>> \o two \o last), f(two \o <<<<"g", "g", ds[i] - Len(one)>>>> \o one \o last) >>])

(* members: 65536 pairs of 256 names and 256 descriptors *)
FloodSrc == << U("A"), U("La;"), U("I"), U("()V"), U("foo"), U("Code"), U("Deprecated"), Ref("cA", 7, <<"A">>) >>
            \o [i \in 1..256 |-> UB("n" \o ToString(i), <<110>> \o Num3(i))] \o [i \in 1..256 |-> UB("d" \o ToString(i), <<76, 100>> \o Num3(i) \o <<59>>)]
            \o [i \in 1..256 |-> UB("m" \o ToString(i), <<40, 41, 76, 100>> \o Num3(i) \o <<59>>)]
FloodMembers(x) ==
  LET k == MkKit(FloodSrc, 61)
      n1 == N(k, "n1")  d1 == N(k, "d1")  m1 == N(k, "m1")
      \* member j has name j \div 256 and descriptor j % 256
      table(n, flags, d) == TLCEval([b \in 1..8*n |-> LET j == (b - 1) \div 8  o == (b - 1) % 8  nm == n1 + (j \div 256)  ds == d + (j % 256) IN
          CASE o = 0 -> flags \div 256 [] o = 1 -> flags % 256 [] o = 2 -> nm \div 256 [] o = 3 -> nm % 256 [] o = 4 -> ds \div 256 [] o = 5 -> ds % 256 [] OTHER -> 0])
      head == k.pre \o E2(33) \o E2(N(k, "cA")) \o E2(0)
      c(ifs, fs, ms, as) == Case(head \o ifs \o fs \o ms \o as, "a", "C01,C08,C09,C10,C13")
      z == <<0, 0>>
      ff == E2(65535)
      dep == AttrK(k, "Deprecated", <<>>)
      unk == AttrK(k, "foo", <<1>>)
      same == MemberK(k, 1, "foo", "I", <<>>)
  IN << c(ff \o Repeat(E2(N(k, "cA")), 65535), z, z, z), c(z, ff \o table(65535, 1, d1), z, z), c(z, z, ff \o table(65535, 1025, m1), z),
        c(z, ff \o table(65534, 1, d1) \o E2(1) \o E2(n1) \o E2(d1) \o z, z, z), c(z, z, ff \o table(65534, 1, m1) \o E2(1) \o E2(n1) \o E2(m1) \o z, z),
        c(z, ff \o Repeat(same, 65535), z, z),
        c(z, z, z, ff \o Repeat(dep, 65535)), c(z, z, z, ff \o Repeat(unk, 65535)),
        c(z, z, E2(1) \o E2(1025) \o E2(N(k, "foo")) \o E2(N(k, "()V")) \o ff \o Repeat(dep, 65535), z) >>

(* every list at the first level as long as its count allows *)
RECURSIVE FloodOf(_)
FloodOf(f) ==
  LET h == f[1]
      three(g) == Base(g, 1, 2) \o Base(g, 2, 2) \o Base(g, 4, 2)
      all(from) == Cat([i \in 1..(Len(f) - from + 1) |-> FloodOf(f[from + i - 1])])
  IN CASE h = "seq" -> all(2) [] h = "as" -> all(3)
       [] h = "rep1" -> E1(255) \o Repeat(three(f[2]), 85)
       [] h = "rep2" -> E2(65535) \o Repeat(three(f[2]), 21845)
       [] OTHER -> Base(f, 1, 2)
FloodAttrs(x) ==
  Cat([a \in 1..Len(AllAttrNames) |-> LET nm == AllAttrNames[a] IN IF HasList(nm) /\ Body(nm)[1] \notin {"code", "rawtext"} THEN <<Case(In(Home(nm), <<Attr(nm, FloodOf(Body(nm)))>>), "a", "C01")>> ELSE <<>>])
  \o << Case(In("class", <<Attr("RuntimeVisibleAnnotations", E2(1) \o E2(K("Lp/Q;")) \o E2(65535) \o Repeat(E2(K("foo")) \o <<73>> \o E2(K("i1")), 65535))>>), "a", "C01"),
        Case(In("method", <<Attr("AnnotationDefault", <<91>> \o E2(65535) \o Repeat(<<73>> \o E2(K("i1")), 65535))>>), "a", "C01"),
        Case(In("method", <<Attr("AnnotationDefault", <<91>> \o E2(255) \o Repeat(<<91>> \o E2(255) \o Repeat(<<91>> \o E2(0), 255), 255))>>), "a", "C01"),
        Case(In("method", <<Attr("Code", E2(1) \o E2(1) \o E4(1) \o <<RETURN_>> \o E2(65535) \o Repeat(E2(0) \o E2(1) \o E2(0) \o E2(0), 65535) \o E2(0))>>), "a", "C01"),
        Case(In("code", <<Attr("StackMapTable", E2(2) \o <<255>> \o E2(0) \o E2(65535) \o Repeat(<<1>>, 65535) \o E2(65535) \o Repeat(<<7>> \o E2(K("cA")), 65535) \o <<0>>)>>), "a", "C01"),
        Case(In("class", <<Attr("SourceDebugExtension", Repeat(<<195, 169, 192, 128, 97, 237, 160, 189, 237, 184, 128>>, 20000))>>), "a", "C01"),
        InCode(Repeat(<<0>>, 200000) \o <<RETURN_>>, "a", "C01"), InCode(Repeat(<<167, 0, 0>>, 40000) \o <<RETURN_>>, "l", "C01"), InCode(Repeat(<<196, 132, 0, 0, 0, 0>>, 30000) \o <<RETURN_>>, "a", "C01"),
        InCode(<<170, 0, 0, 0>> \o E4(0) \o E4(0) \o E4(99999) \o Repeat(E4(0), 100000), "a", "C01"),
        InCode(<<171, 0, 0, 0>> \o E4(0) \o E4(50000) \o Repeat(E4(7) \o E4(0), 50000), "a", "C01") >>
\* a text of 65535 bytes with every kind of path through the decoder
FloodTexts(x) ==
  Cat([i \in 1..6 |-> LET t == Repeat((<< <<97>>, <<192, 128>>, <<195, 169>>, <<237, 160, 189, 237, 184, 128>>, <<237, 160, 128>>, <<47>> >>)[i], 65530 \div (<<1, 2, 2, 6, 3, 1>>)[i])
       k == MkKit(<< UB("t", t), UB("td", Repeat(<<91>>, 65000) \o <<73>>), UB("tm", <<40>> \o Repeat(<<91, 73>>, 32000) \o <<41, 86>>), UB("tp", <<76>> \o Repeat(<<97, 47>>, 32000) \o <<97, 59>>), U("A"), U("foo"), U("I"), Ref("cA", 7, <<"A">>), Ref("cT", 7, <<"t">>), Ref("sT", 8, <<"t">>) >>, 61)
       c(fs, ms, this) == Case(k.pre \o Class0(33, this, 0, <<>>, fs, ms, <<>>), "a", "C01,C06,C07")
     IN << c(<<>>, <<>>, N(k, "cT")), c(<<MemberK(k, 1, "t", "I", <<>>)>>, <<>>, N(k, "cA")), c(<<MemberK(k, 1, "foo", "td", <<>>)>>, <<>>, N(k, "cA")),
           c(<<>>, <<MemberK(k, 1025, "foo", "tm", <<>>)>>, N(k, "cA")), c(<<MemberK(k, 1, "foo", "tp", <<>>)>>, <<>>, N(k, "cA")) >>])
=============================================================================
