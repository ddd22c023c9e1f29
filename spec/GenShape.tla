------------------------------ MODULE GenShape ------------------------------
(***************************************************************************)
(* Two things at once: for every sequence of components in every format,   *)
(* each two of them (up to three components: all of them) varied together  *)
(* over a few choices - nothing or zero, one, two, ill-formed - with the   *)
(* rest as in a conforming encoding.  And late things: lists of more than  *)
(* a thousand elements whose last, or 1025th, element is odd.              *)
(***************************************************************************)
EXTENDS GenEnv

RECURSIVE Light(_, _, _)
RECURSIVE LightAll(_, _, _, _)
(* every choice of the components i.. together *)
Joined(xs, ys) == Cat([i \in 1..Len(xs) |-> [j \in 1..Len(ys) |-> xs[i] \o ys[j]]])
LightAll(f, i, s, d) == IF i > Len(f) THEN << <<>> >> ELSE Joined(Light(f[i], s + i, d), LightAll(f, i + 1, s, d))
WrongRef == <<0, 0>>
Light(f, s, d) ==
  LET h == f[1] IN
  CASE h = "u1" -> << <<0>>, <<255>> >>
    [] h = "u2" -> << <<0, 0>>, Base(f, s, d) >>
    [] h = "cp" -> << Base(f, s, d), WrongRef, E2(K("i1")) >>
    [] h = "opt" -> << E2(0), E2(Good(f[2], s)), E2(K("d1")) >>
    [] h \in {"flags", "sflags"} -> << E2(0), E2(f[2]), E2(f[2] + (IF (f[2] & 2) = 0 THEN 2 ELSE 8)), E2(f[2] & 43690) >>
    [] h = "const" -> << <<>> >>
    [] h = "seq" -> << BaseAll(f, 2, s, d) >>
    [] h = "as" -> << BaseAll(f, 3, s, d) >>
    [] h = "rep1" -> << <<0>>, <<1>> \o Base(f[2], s, d+1), <<2>> \o Base(f[2], s, d+1) \o Base(f[2], s, d+1) >>
    [] h = "rep2" -> << <<0, 0>>, <<0, 1>> \o Base(f[2], s, d+1), <<0, 2>> \o Base(f[2], s, d+1) \o Base(f[2], s, d+1) >>
    [] h = "repn" -> << Base(f, s, d), Base(f, s + 3, d) >>
    [] h = "sw" -> LET ts == TagsOf(f[2])
                       g(x) == <<x>> \o Base(f[2][x], s, d)
                       few == IF Len(ts) <= 9 THEN ts ELSE <<ts[1], ts[2], ts[Len(ts) \div 2], ts[Len(ts) - 1], ts[Len(ts)]>>
                   IN [i \in 1..Len(few) |-> g(few[i])]
    [] h \in {"ev0", "ev"} -> [i \in 1..4 |-> LET x == (<<66, 115, 99, 91>>)[i] IN <<x>> \o (IF x = 91 THEN <<0, 0>> ELSE Base(EvTable[x], s, d))]
    [] h \in {"ann", "annv"} -> << Base(f, s, d), E2(K("Lp/Q;")) \o E2(0) >>
    [] h = "attrs" -> << <<0, 0>>, <<0, 1>> \o Attr("Deprecated", <<>>) >>
    [] OTHER -> << Base(f, s, d) >>

RECURSIVE Two2(_, _, _)
RECURSIVE TwoAll(_, _, _, _)
(* components from..: i and j vary, then each alone goes deeper *)
Where(f, from, s, d, i, j) ==
  LET part(k) == IF k = i \/ k = j THEN Light(f[k], s + k, d) ELSE << Base(f[k], s + k, d) >>
      RECURSIVE Go(_)
      Go(k) == IF k > Len(f) THEN << <<>> >> ELSE Joined(part(k), Go(k + 1))
  IN Go(from)
TwoAll(f, from, s, d) ==
  LET n == Len(f) - from + 1
      inner(k) == LET q == Two2(f[k], s + k, d)
                      front == Cat([j \in 1..k-from |-> Base(f[from + j - 1], s + from + j - 1, d)])
                      back == BaseAll(f, k + 1, s, d)
                  IN [i \in 1..Len(q) |-> front \o q[i] \o back]
      ks == [k \in 1..n |-> from + k - 1]
  IN (IF n <= 1 THEN <<>>
      ELSE IF n <= 3 THEN LightAll(f, from, s, d)
      ELSE Cat([i \in 1..n |-> Cat([j \in 1..n |-> IF i < j THEN Where(f, from, s, d, ks[i], ks[j]) ELSE <<>>])]))
     \o Cat([k \in 1..n |-> inner(ks[k])])
TwoList(f, s, d, E(_)) ==
  LET v == Light(f, s, d+1)
      w == Light(f, s + 4, d+1)
      b == Base(f, s, d+1)
      q == IF d >= 4 THEN <<>> ELSE Two2(f, s, d+1)
  IN Map(v, LAMBDA x : E(1) \o x)
     \o (IF d >= 3 THEN <<>> ELSE Map(Joined(v, w), LAMBDA x : E(2) \o x))
     \o Map(q, LAMBDA x : E(1) \o x)
     \o (IF d >= 2 THEN <<>> ELSE Map(q, LAMBDA x : E(2) \o b \o x) \o Map(q, LAMBDA x : E(2) \o x \o b))
Two2(f, s, d) ==
  LET h == f[1] IN
  CASE h = "seq" -> TwoAll(f, 2, s, d)
    [] h = "as" -> TwoAll(f, 3, s, d)
    [] h = "rep1" -> TwoList(f[2], s, d, E1)
    [] h = "rep2" -> TwoList(f[2], s, d, E2)
    [] h = "repn" -> IF f[2] <= 3 THEN LightAll(Tup([i \in 1..f[2] |-> f[3]]), 1, s, d) ELSE <<>>
    [] h = "sw" -> LET ts == SortedNums(DevTags(f[2])) IN Cat([i \in 1..Len(ts) |-> Map(Two2(f[2][ts[i]], s, d), LAMBDA x : <<ts[i]>> \o x)])
    [] h \in {"ev0", "ev"} -> IF d >= 4 THEN <<>> ELSE Cat([i \in 1..3 |-> LET x == (<<101, 64, 91>>)[i] IN Map(Two2(EvTable[x], s, d+1), LAMBDA y : <<x>> \o y)])
    [] h \in {"ann", "annv"} -> IF d >= 4 THEN <<>> ELSE Two2(AnnBodyF, s, d+1)
    [] h = "code" -> LET code == <<4, 172>>
                         pre(x) == E2(3) \o E2(258) \o E4(2) \o code \o x
                     IN Map(Two2(<<"rep2", ExcF>>, s, d), LAMBDA x : pre(x) \o <<0, 0>>)
                        \o Map(Joined(Light(<<"rep2", ExcF>>, s, d), Light(<<"attrs">>, s, d)), LAMBDA x : pre(x))
    [] OTHER -> <<>>
TwoCases(n) == LET q == TLCEval(Two2(Body(n), 0, 0)) IN [i \in 1..Len(q) |-> Case(In(Home(n), <<Attr(n, q[i])>>), "a", PropOf(n))]

(* ---- late things ---- *)
Some5(q) == IF Len(q) <= 5 THEN q ELSE [i \in 1..5 |-> q[1 + (((i - 1) * (Len(q) - 1)) \div 4)]]
LateN == 1100
RECURSIVE Late(_, _, _)
RECURSIVE LateAll(_, _, _, _)
LateAll(f, from, s, d) ==
  Cat([kk \in 1..Len(f)-from+1 |->
    LET k == from + kk - 1
        q == Late(f[k], s + k, d)
        front == Cat([j \in 1..k-from |-> Base(f[from + j - 1], s + from + j - 1, d)])
        back == BaseAll(f, k + 1, s, d)
    IN [i \in 1..Len(q) |-> front \o q[i] \o back]])
LateList(f, s, d) ==
  LET b == Base(f, s, d+1)
      c == Base(f, s + 1, d+1)
      dv == Some5(Devs(f, s, 3))
      many(n) == Cat([i \in 1..n |-> IF i % 7 = 0 THEN c ELSE b])
      front == many(LateN - 1)
  IN Map(dv, LAMBDA x : E2(LateN) \o front \o x) \o << E2(LateN) \o many(1024) \o dv[1] \o many(LateN - 1025), E2(LateN) \o many(LateN) >>
     \o (IF d >= 2 THEN <<>> ELSE Map(Late(f, s, d+1), LAMBDA x : E2(1) \o x))
Late(f, s, d) ==
  LET h == f[1] IN
  CASE h = "seq" -> LateAll(f, 2, s, d)
    [] h = "as" -> LateAll(f, 3, s, d)
    [] h = "rep1" -> Map(Late(f[2], s, d+1), LAMBDA x : <<1>> \o x)
    [] h = "rep2" -> LateList(f[2], s, d)
    [] h = "sw" -> LET ts == IF 255 \in DOMAIN f[2] THEN <<255>> ELSE IF 64 \in DOMAIN f[2] THEN <<64>> ELSE <<>>
                   IN Cat([i \in 1..Len(ts) |-> Map(Late(f[2][ts[i]], s, d), LAMBDA x : <<ts[i]>> \o x)])
    [] h \in {"ev0", "ev"} -> Map(Late(EvTable[91], s, d+1), LAMBDA y : <<91>> \o y)
    [] h \in {"ann", "annv"} -> IF d >= 3 THEN <<>> ELSE Late(AnnBodyF, s, d+1)
    [] h = "code" -> LET pre(x) == E2(3) \o E2(258) \o E4(2) \o <<4, 172>> \o x
                         at == Attr("foo", <<1>>)
                         last == << Attr("Deprecated", <<0>>), Attr("Signature", <<0, 0>>), Attr("foo", <<1, 2, 3>>), E2(0) \o E4(0), Attr("Code", <<>>) >>
                     IN Map(Late(<<"rep2", ExcF>>, s, d), LAMBDA x : pre(x) \o <<0, 0>>)
                        \o Map(last, LAMBDA x : pre(<<0, 0>>) \o E2(LateN) \o Cat([i \in 1..LateN-1 |-> at]) \o x)
    [] OTHER -> <<>>
LateAttrs(n) == LET q == TLCEval(Late(Body(n), 0, 0)) IN [i \in 1..Len(q) |-> Case(In(Home(n), <<Attr(n, q[i])>>), "a", PropOf(n))]

(* attributes after a thousand others, interfaces, members *)
LateClass(x) ==
  LET n == LateN
      plain(k) == Cat([i \in 1..k |-> Attr(IF i % 3 = 0 THEN "Deprecated" ELSE "foo", <<>>)])
      attrs(last) == <<plain(n - 1) \o last>>
      tail(at) == E2(n) \o at[1]
      put(ctx, at) == CASE ctx = "class" -> E2(33) \o E2(K("cA")) \o E2(0) \o E2(0) \o E2(0) \o E2(0) \o tail(at)
                        [] ctx = "field" -> E2(33) \o E2(K("cA")) \o E2(0) \o E2(0) \o E2(1) \o E2(1) \o E2(K("foo")) \o E2(K("I")) \o tail(at) \o E2(0) \o E2(1) \o Boot
                        [] OTHER -> E2(33) \o E2(K("cA")) \o E2(0) \o E2(0) \o E2(0) \o E2(1) \o E2(1) \o E2(K("foo")) \o E2(K("()V")) \o tail(at) \o E2(1) \o Boot
      lasts == << Attr("Deprecated", <<0>>), Attr("Signature", E2(K("i1"))), Attr("SourceFile", E2(K("foo"))), Attr("foo", <<1, 2>>), Boot, E2(K("foo")) \o E4(1), E2(K("i1")) \o E4(0), Attr("NestHost", E2(K("cB"))) >>
      ifs(last) == E2(33) \o E2(K("cA")) \o E2(0) \o E2(n) \o Cat([i \in 1..n-1 |-> E2(IF i % 3 = 0 THEN K("cA") ELSE K("cB"))]) \o E2(last) \o E2(0) \o E2(0) \o E2(1) \o Boot
  IN Cat([i \in 1..3 |-> [j \in 1..Len(lasts) |-> Case(put((<<"class", "field", "method">>)[i], attrs(lasts[j])), "a", "C13,C14")]])
     \o [i \in 1..6 |-> Case(ifs((<<K("cA"), K("cArr"), 0, K("foo"), K("cNul"), KIT.n>>)[i]), "a", "C08")]
     \* bootstrap tables
     \o [i \in 1..3 |-> Case(Class(<<>>, <<>>, <<Attr("BootstrapMethods", E2(n) \o Cat([k \in 1..n-1 |-> E2(K("hStat")) \o E2(0)]) \o (<<E2(K("hVirt")) \o E2(1) \o E2(K("i1")), E2(K("hVirt")) \o E2(1) \o E2(K("foo")), E2(K("field")) \o E2(0)>>)[i])>>), "a", "C14")]

(* members: the last of many is odd *)
LateMembers(x) ==
  LET n == LateN
      txt(i) == <<110, 48 + (i \div 1000), 48 + ((i \div 100) % 10), 48 + ((i \div 10) % 10), 48 + (i % 10)>>
      src == << U("A"), Ref("cA", 7, <<"A">>), U("I"), U("()V"), U("()I"), U("<init>"), U("<clinit>"), U("a;b"), U("a<b"), U("J"), U("Ix"), UB("again", txt(7)), U("Synthetic") >>
      k == MkKit(src \o [i \in 1..n |-> UB("n" \o ToString(i), txt(i))], 61)
      nn(i) == "n" \o ToString(i)
      fs(last) == MemFile(k, 33, [i \in 1..n |-> IF i = n THEN last ELSE Fld(k, nn(i), "I")], <<>>, "C09")
      ms(last) == MemFile(k, 33, <<>>, [i \in 1..n |-> IF i = n THEN last ELSE Mth(k, nn(i), "()V")], "C10")
      mi(last) == MemFile(k, 1537, <<>>, [i \in 1..n |-> IF i = n THEN last ELSE Mth(k, nn(i), "()V")], "C10")
  IN << fs(Fld(k, nn(n), "I")), fs(Fld(k, nn(1), "I")), fs(Fld(k, nn(n - 1), "I")), fs(Fld(k, nn(513), "I")), fs(Fld(k, nn(1), "J")), fs(Fld(k, "again", "I")), fs(Fld(k, "again", "J")), fs(Fld(k, "a;b", "I")),
        fs(Fld(k, nn(n), "Ix")), fs(Fld(k, nn(n), "()V")), fs(MemberK(k, 65535, nn(n), "J", <<>>)),
        ms(Mth(k, nn(n), "()V")), ms(Mth(k, nn(1), "()V")), ms(Mth(k, nn(n - 1), "()V")), ms(Mth(k, nn(513), "()V")), ms(Mth(k, nn(1), "()I")), ms(Mth(k, "again", "()V")), ms(Mth(k, "again", "()I")), ms(Mth(k, "a;b", "()V")), ms(Mth(k, "a<b", "()V")),
        ms(Mth(k, nn(n), "I")), ms(Mth(k, "<init>", "()V")), ms(Mth(k, "<init>", "()I")), mi(Mth(k, "<init>", "()V")), ms(Mth(k, "<clinit>", "()V")), ms(Mth(k, "<clinit>", "()I")), ms(MemberK(k, 65535, nn(n), "()V", <<>>)) >>

(* code: a late jump, switch target, operand or opcode is odd *)
LateCode(x) ==
  LET n == LateN
      z == E4(0)
      at1(q, i, v) == [j \in 1..q |-> IF j = i THEN v ELSE z]
      ts(i, v) == InCode(TSw(0, z, E4(0), E4(n - 1), at1(n, i, v)) \o <<RETURN_>>, "a", "C20,C21")
      ls(i, v) == InCode(LSw(0, z, E4(n), [j \in 1..n |-> E4(j) \o (IF j = i THEN v ELSE z)]) \o <<RETURN_>>, "a", "C20,C21")
      pos == <<1, 2, 255, 256, 257, 512, 513, 1000, 1023, 1024, 1025, 1026, n - 1, n>>
      bads == <<E4(1), E4(16 + 4 * n), E4(17 + 4 * n), E4s(-1)>>
      gs(last) == InCode(Cat([i \in 1..n |-> <<167, 0, 3>>]) \o last, "a", "C20,C21")
      ops(last) == InCode(Cat([i \in 1..n |-> <<16, i % 256>>]) \o last, "a", "C20,C21")
  IN Cat([i \in 1..Len(pos) |-> Cat([b \in 1..Len(bads) |-> << ts(pos[i], bads[b]), ls(pos[i], bads[b]) >>])])
     \o << gs(<<RETURN_>>), gs(<<>>), gs(<<167, 0, 1>>), gs(<<167, 0, 0>>), gs(<<167, 0, 3, RETURN_>>), gs(<<167, 255, 253>>), gs(<<167, 255, 254>>), gs(<<167>> \o E2(65536 - 3 * n)), gs(<<167>> \o E2(65535 - 3 * n)),
           gs(<<170>>), gs(<<203>>), ops(<<RETURN_>>), ops(<<16>>), ops(<<203>>), ops(<<18, 0>>), ops(<<18, K("foo")>>), ops(<<178>> \o E2(K("meth"))), ops(<<178>> \o E2(K("field"))), ops(<<188, 3>>), ops(<<186>> \o E2(K("indy")) \o <<0, 1>>),
           ops(<<196, 0, 0, 0>>), ops(<<185>> \o E2(K("imeth")) \o <<1, 1>>), ops(<<167, 255, 255>>), ops(<<167>> \o E2(65536 - 2 * n)), ops(<<167>> \o E2(65537 - 2 * n)),
           InCode(Cat([i \in 1..n |-> <<16, i % 256>>]) \o <<RETURN_>>, "l", "C22") >>

(* ---- long names ---- *)
NameLens == <<15, 16, 17, 31, 32, 33, 40, 47, 48, 49, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 513, 1000, 1025, 4097>>
LongName(n, i, c) == [j \in 1..n |-> IF j = i THEN c ELSE 97 + (j % 26)]
LongNames(x) ==
  Cat([l \in 1..Len(NameLens) |-> LET n == NameLens[l]
                                      at == <<n, n - 1, n - 7, (n \div 16) * 16 + 1, (n \div 2) + 1, 1>>
                                      cs == <<SEMI, DOT, LBRACK, SLASH, LT, GT>>
      IN Cat([i \in 1..6 |-> LET ps == NamePositions(LongName(n, at[i], cs[1 + ((i + l) % 6)])) qs == NamePositions(LongName(n, at[i], cs[1 + ((i + l + 3) % 6)])) IN ps \o (IF i <= 2 THEN qs ELSE <<>>)])])
LongDescs(x) ==
  Cat([l \in 1..Len(NameLens) |-> LET n == NameLens[l]
                                      at == <<n, n - 1, (n \div 2) + 1>>
                                      cs == <<DOT, LBRACK, SLASH, SEMI>>
                                      d(i, c) == <<76>> \o LongName(n, i, c) \o <<SEMI>>
      IN Cat([i \in 1..3 |-> DescPositions(d(at[i], cs[1 + ((i + l) % 4)]))])
         \o DescPositions(<<LPAR>> \o Rep(n, 73) \o <<RPAR, 86>>) \o DescPositions(<<LPAR>> \o Rep(n, 73) \o <<86, RPAR, 86>>) \o DescPositions(<<LPAR, 73, RPAR>> \o d(n, DOT))])

(* ---- every kind of attribute next to, before and after every other ---- *)
(* Whatever stands around an attribute, it reads the same: pairs in one    *)
(* table, in two members of a kind, in the codes of two methods, and one   *)
(* each in a field, a method and the class.                                *)
PairNames == AllAttrNames \o <<"foo">>
PairAttr(n, s) == Attr(n, IF n = "foo" THEN <<9, s>> ELSE Base(Body(n), s, 0))
PairProp(a, c) == "C13," \o (IF a = "foo" THEN "" ELSE PropOf(a) \o ",") \o (IF c = "foo" THEN "" ELSE PropOf(c))
OneCode(a) == <<Attr("Code", CodeBody(<<RETURN_>>, <<>>, <<a>>))>>
AttrPairs(x) ==
  LET n == Len(PairNames)
      one(i) == TLCEval(PairAttr(PairNames[i], 0))
      two(i) == TLCEval(PairAttr(PairNames[i], 3))
      firsts == Tup([i \in 1..n |-> one(i)])
      seconds == Tup([i \in 1..n |-> two(i)])
      c(b, i, j) == Case(b, "a", PairProp(PairNames[i], PairNames[j]))
  IN Cat([i \in 1..n |-> Cat([j \in 1..n |-> LET a == firsts[i] e == seconds[j] IN
       [h \in 1..5 |-> c(In(Contexts[h], <<a, e>>), i, j)]
       \o << c(Class(<<Member(1, "foo", "I", <<a>>), Member(2, "bar", "J", <<e>>)>>, <<>>, <<Boot>>), i, j),
             c(Class(<<>>, <<Member(1025, "foo", "()V", <<a>>), Member(1025, "bar", "()V", <<e>>)>>, <<Boot>>), i, j),
             c(Class(<<>>, <<Member(1, "foo", "()V", OneCode(a)), Member(1, "bar", "()V", OneCode(e))>>, <<Boot>>), i, j),
             c(Class(<<Member(1, "foo", "I", <<a>>)>>, <<Member(1025, "bar", "()V", <<e>>)>>, <<Boot, a>>), i, j),
             c(Class(<<>>, <<Member(1, "foo", "()V", <<a>> \o OneCode(e) \o <<e>>)>>, <<Boot>>), i, j) >>])])
=============================================================================
