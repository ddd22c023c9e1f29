------------------------------- MODULE GenBig -------------------------------
(***************************************************************************)
(* Sizes: lists of more elements than one byte counts, at every level of   *)
(* every format; hundreds of members; pools of hundreds of entries; texts  *)
(* and code arrays up to the limits of their length fields.                *)
(***************************************************************************)
EXTENDS GenCode

(* Conforming contents of format f in which every list at depth `level` has *)
(* n elements, every other list two (the second one leads further down).   *)
RECURSIVE BigOf(_, _, _, _, _)
RECURSIVE BigAll(_, _, _, _, _, _)
BigAll(f, i, s, n, d, level) == IF i > Len(f) THEN <<>> ELSE BigOf(f[i], s + i, n, d, level) \o BigAll(f, i+1, s, n, d, level)
BigList(f, s, n, d, level, E(_)) ==
  IF d = level THEN E(n) \o Cat([i \in 1..n |-> Base(f, s + 3 * i, d+1)])
  ELSE E(2) \o Base(f, s, d+1) \o BigOf(f, s+4, n, d+1, level)
BigOf(f, s, n, d, level) ==
  LET h == f[1] IN
  CASE h = "seq" -> BigAll(f, 2, s, n, d, level)
    [] h = "as" -> BigAll(f, 3, s, n, d, level)
    [] h = "rep1" -> BigList(f[2], s, IF n > 255 THEN 255 ELSE n, d, level, E1)
    [] h = "rep2" -> BigList(f[2], s, n, d, level, E2)
    [] h = "sw" -> IF 255 \in DOMAIN f[2] THEN <<255>> \o BigOf(f[2][255], s, n, d, level)         \* full frames
                   ELSE IF 64 \in DOMAIN f[2] THEN <<64>> \o BigOf(f[2][64], s, n, d, level)       \* local variable targets
                   ELSE Base(f, s, d)
    [] h \in {"ev0", "ev"} -> <<91>> \o BigOf(EvTable[91], s, n, d, level)
    [] h \in {"ann", "annv"} -> BigOf(AnnBodyF, s, n, d, level)
    [] h = "attrs" -> IF d = level THEN E2(n) \o Cat([i \in 1..n |-> IF i % 3 = 0 THEN Attr("Signature", E2(Good("utf8", i))) ELSE Attr("foo", E2(i))]) ELSE Base(f, s, d)
    [] h = "code" -> E2(3) \o E2(258) \o E4(2) \o <<4, 172>> \o BigOf(<<"rep2", ExcF>>, s, n, d, level) \o BigOf(<<"attrs">>, s, n, d, level)
    [] h = "rawtext" -> Cat([i \in 1..n |-> <<97 + (i % 26), 195, 169>>])
    [] OTHER -> Base(f, s, d)

HasList(n) == n \notin {"ConstantValue", "EnclosingMethod", "Synthetic", "Signature", "SourceFile", "Deprecated", "ModuleMainClass", "NestHost"}
BigAttrCases(n) ==
  IF ~HasList(n) THEN <<>>
  ELSE Cat([l \in 1..4 |->
         LET c(k, m, s) == Case(In(Home(n), <<Attr(n, BigOf(Body(n), s, k, 0, l - 1))>>), m, PropOf(n))
         IN << c(300, "a", 0), c(256, "p", 1), c(255, "a", 2), c(257, "d", 3) >>
            \* one element short of, or more than, the count
            \o LET b == BigOf(Body(n), 1, 300, 0, l - 1)
               IN << Case(In(Home(n), <<Attr(n, SubSeq(b, 1, Len(b) - 1))>>), "a", PropOf(n) \o ",C02"), Case(In(Home(n), <<Attr(n, b \o <<0>>)>>), "a", PropOf(n) \o ",C02") >>])

(* ---- members by the hundred ---- *)
Num3(i) == <<48 + ((i \div 100) % 10), 48 + ((i \div 10) % 10), 48 + (i % 10)>>
ManySrc(n) == MemSrc \o [i \in 1..n |-> UB("n" \o ToString(i), <<110>> \o Num3(i))] \o [i \in 1..n |-> UB("d" \o ToString(i), <<76, 100>> \o Num3(i) \o <<59>>)]
                     \o << UB("n7again", <<110>> \o Num3(7)), UB("d7again", <<76, 100>> \o Num3(7) \o <<59>>), U("()Ld007;"), UB("()B", Asc("()Ld007;")) >>
BigMemberCases(x) ==
  LET n == 300
      k == MkKit(ManySrc(n), 61)
      nn(i) == "n" \o ToString(i)
      dd(i) == "d" \o ToString(i)
      fs == Tup([i \in 1..n |-> MemberK(k, 2^(i % 8), nn(i), dd(n + 1 - i), IF i % 50 = 0 THEN <<AttrK(k, "Deprecated", <<>>)>> ELSE <<>>)])
      sameName == Tup([i \in 1..n |-> Fld(k, "foo", dd(i))])
      sameDesc == Tup([i \in 1..n |-> Fld(k, nn(i), "I")])
      ms == Tup([i \in 1..n |-> Mth(k, nn(i), IF i % 2 = 0 THEN "()V" ELSE "(I)V")])
      over == Tup([i \in 1..n |-> Mth(k, IF i % 2 = 0 THEN "foo" ELSE nn(i), IF i = 2 THEN "()V" ELSE IF i % 2 = 0 THEN IF i = 4 THEN "()I" ELSE IF i = 6 THEN "(I)V" ELSE IF i = 8 THEN "(J)V" ELSE "()La;" ELSE "()V")])
      swap(q, i, m) == [q EXCEPT ![i] = m]
      c(a, b) == MemFile(k, 33, a, b, "C09,C10")
      cf(a) == MemFile(k, 33, a, <<>>, "C09")
      cm(b) == MemFile(k, 33, <<>>, b, "C10")
  IN << cf(fs), cf(sameName), cf(sameDesc), cm(ms), c(fs, ms), cm(over),
        cf(swap(sameName, 300, Fld(k, "foo", dd(7)))), cf(swap(sameName, 300, Fld(k, "foo", "d7again"))), cf(swap(sameName, 300, Fld(k, "foo", "J"))),
        cf(swap(sameDesc, 299, Fld(k, "n7again", "I"))), cf(swap(sameDesc, 299, Fld(k, "n7again", "J"))), cf(swap(sameDesc, 7, Fld(k, nn(258), "I"))),
        cf(swap(fs, 256, Fld(k, nn(1), dd(300)))), cf(swap(fs, 256, Fld(k, nn(1), dd(299)))), cf(swap(fs, 300, Fld(k, nn(299), dd(1)))),
        cm(swap(ms, 300, Mth(k, "n7again", "(I)V"))), cm(swap(ms, 300, Mth(k, "n7again", "()V"))), cm(swap(ms, 257, Mth(k, nn(1), "(I)V"))), cm(swap(ms, 257, Mth(k, nn(2), "()V"))),
        cm(swap(ms, 256, Mth(k, nn(255), "(I)V"))), cm(swap(ms, 270, Mth(k, "<init>", "()I"))), cm(swap(ms, 270, Mth(k, "<init>", "()V"))), cf(swap(fs, 270, Fld(k, "f;o", "I"))),
        cm(swap(swap(ms, 3, Mth(k, "foo", "()Ld007;")), 290, Mth(k, "foo", "()B"))), cm(swap(swap(ms, 3, Mth(k, "foo", "()Ld007;")), 290, Mth(k, "n7again", "()B"))) >>

(* ---- pools by the hundred, long texts ---- *)
BigPoolCases(seed) ==
  LET f(s, n) == RndFile(s, n)
  IN << Case(f(seed * 10 + 1, 240), "v", "C05,C03"), Case(f(seed * 10 + 2, 300), "v", "C05,C03"), Case(f(seed * 10 + 3, 420), "p", "C05,C06"),
        Case(f(seed * 10 + 4, 700), "v", "C05,C03") >>

LongTexts == << Rep(255, 97), Rep(256, 97), Rep(257, 97), Rep(4096, 98), Rep(32767, 99), Rep(32768, 99), Rep(65534, 100), Rep(65535, 101),
                Cat(Rep(100, <<195, 169>>)), Cat(Rep(21845, <<226, 130, 172>>)), Cat(Rep(300, <<192, 128>>)), Cat(Rep(60, <<237, 160, 189, 237, 184, 128>>)),
                Rep(4094, 97) \o <<237, 160, 189, 237, 184, 128>> \o Rep(4094, 98) \o <<192, 128>> >>
LongTextCases(x) ==
  Cat([i \in 1..Len(LongTexts) |->
    LET t == LongTexts[i]
        k == MkKit(<<UB("X", t), UB("XD", IF Len(t) < 65534 THEN <<76>> \o t \o <<59>> ELSE <<91, 76>> \o SubSeq(t, 1, 65530) \o <<59>>)>> \o MemSrc
                   \o << Ref("cX", 7, <<"X">>), Ref("sX", 8, <<"X">>), Ref("nX", 12, <<"X", "I">>), Ref("fX", 9, <<"cX", "nX">>), Ref("mX", 20, <<"X">>), U("SourceDebugExtension"), U("ConstantValue") >>, 61)
        file(m, p) == Case(k.pre \o Class0(33, N(k, "cX"), N(k, "cX"), <<N(k, "cX")>>,
            <<MemberK(k, 1, "X", "I", <<AttrK(k, "ConstantValue", E2(N(k, "sX")))>>)>>, <<MemberK(k, 1025, "X", "()V", <<>>)>>,
            << AttrK(k, "X", <<1, 2>>), AttrK(k, "Signature", E2(N(k, "X"))), AttrK(k, "SourceDebugExtension", t \o t) >>), m, p)
    IN << file("v", "C06,C05"), file("p", "C06"), Case(k.pre \o Class0(33, N(k, "cA"), 0, <<>>, <<MemberK(k, 1, "foo", "XD", <<>>)>>, <<>>, <<>>), "v", "C09,C07") >>])
  \* 255 array dimensions and parameters; long class names inside descriptors
  \o LET long == Rep(3000, 113)
         ds == << Rep(255, 91) \o <<73>>, Rep(256, 91) \o <<73>>, Rep(255, 91) \o <<76>> \o long \o <<59>>, Rep(256, 91) \o <<76>> \o long \o <<59>>, Rep(300, 91) \o <<74>>, Rep(512, 91) \o <<74>>, Rep(511, 91) \o <<74>> >>
         ms == << <<40>> \o Rep(255, 73) \o <<41, 86>>, <<40>> \o Rep(254, 73) \o <<91, 73, 41, 73>>, <<40>> \o Cat(Rep(255, <<76>> \o Rep(200, 120) \o <<59>>)) \o <<41, 91, 73>>,
                  <<40>> \o Cat([i \in 1..127 |-> <<68>>]) \o <<41, 74>>, <<40>> \o Rep(255, 91) \o <<73, 41>> \o Rep(255, 91) \o <<74>>, <<40>> \o Rep(256, 91) \o <<73, 41, 86>>, <<40, 41>> \o Rep(256, 91) \o <<74>> >>
         k(d) == MkKit(<<UB("D", d)>> \o MemSrc, 61)
     IN Cat([i \in 1..Len(ds) |-> LET q == k(ds[i]) IN << MemFile(q, 33, <<Fld(q, "foo", "D")>>, <<>>, "C07,C09"), [MemFile(q, 33, <<Fld(q, "foo", "D")>>, <<>>, "C07,C09") EXCEPT !.m = "d"] >>])
        \o Cat([i \in 1..Len(ms) |-> LET q == k(ms[i]) IN << MemFile(q, 33, <<>>, <<Mth(q, "foo", "D")>>, "C07,C10"), [MemFile(q, 33, <<>>, <<Mth(q, "foo", "D")>>, "C07,C10") EXCEPT !.m = "d"] >>])

(* ---- code up to and beyond 65535 bytes, hundreds of instructions ---- *)
BigCodeCases(x) ==
  LET many(n) == Cat([i \in 1..n |-> RndOp(17, i)])
      j(n) == Cat([i \in 1..n |-> <<167>> \o E2(IF i % 2 = 0 THEN 65533 ELSE 3)]) \o <<RETURN_>>
  IN << InCode(Nops(65534) \o <<RETURN_>>, "n", "C19"), InCode(Nops(300) \o <<RETURN_>>, "l", "C20,C22"), InCode(many(300) \o <<RETURN_>>, "l", "C20,C22"), InCode(many(700) \o <<RETURN_>>, "a", "C20"),
        InCode(j(300), "a", "C21,C20"), InCode(<<167>> \o E2(257) \o Nops(254) \o <<RETURN_>>, "a", "C21"), InCode(<<167>> \o E2(258) \o Nops(254) \o <<RETURN_>>, "a", "C21"),
        InCode(Nops(256) \o <<200>> \o E4s(-256) \o <<RETURN_>>, "a", "C21"), InCode(Nops(256) \o <<200>> \o E4s(-257) \o <<RETURN_>>, "a", "C21"),
        InCode(LongCode(<<4>>, 16390, <<4, 167, 255, 255, RETURN_>>), "l", "C22,C20"), InCode(LongCode(<<4>>, 16390, <<4, 18, 1, 167, 255, 253, RETURN_>>), "a", "C20,C21"),
        InCode(LongCode(<<>>, 16500, Nops(300) \o <<RETURN_>>), "l", "C22,C20"),
        InCode(Nops(3000) \o <<RETURN_>>, "l", "C22,C20") >>
     \* beyond 65535 instructions and bytes: targets that wrap are outside
     \o LET far(t) == InCode(<<200>> \o E4s(t) \o Nops(66001) \o <<RETURN_>>, "a", "C21")
            end == 66007
        IN << far(end - 1), far(end), far(65536 + 20), far(65536 + 5), far(65536 + 4), far(65536), far(2 * 65536), far(65536 + end - 1), far(-1), far(20 - 65536), far(5 - 65536), far(-65536 - 65536), far(65536 * 16384 + 7) >>
     \* code twice, the second after a long first
     \o << Case(Class(<<>>, <<Member(1, "bar", "()V", <<CodeAttr(Nops(400) \o <<RETURN_>>)>>), Member(1, "foo", "()V", <<CodeAttr(<<4, 87, RETURN_>>)>>)>>, <<Boot>>), "l", "C20,C22") >>
=============================================================================
