------------------------------- MODULE GenEnv --------------------------------
(***************************************************************************)
(* The same contents in different surroundings: attributes, instructions   *)
(* and members under every class file version, class kind and member kind. *)
(* What is accepted and reported depends on these only where the           *)
(* specification says so.                                                  *)
(***************************************************************************)
EXTENDS GenUni

(* The kit at an earlier version: entries the version does not have are    *)
(* integers.                                                               *)
NewIn(e) ==
  CASE e[2] = "h" -> 51
    [] e[2] = "r" -> (CASE e[3] \in {16, 18} -> 51 [] e[3] \in {19, 20} -> 53 [] OTHER -> 45)
    [] e[2] = "d" -> IF e[3] = 17 THEN 55 ELSE 51
    [] OTHER -> 45
EnvPre(v) ==
  LET src == [i \in 1..Len(KitSrc) |-> IF NewIn(KitSrc[i]) > v THEN <<KitSrc[i][1], "b", <<3, 0, 0, 0, 77>>>> ELSE KitSrc[i]]
  IN MkKitAfter(0, src, v).pre
EnvMajors == [i \in 1..25 |-> 44 + i]
EnvPres == TLCEval([i \in 1..Len(EnvMajors) |-> EnvPre(EnvMajors[i])])
EnvKinds == <<0, 1, 16, 32, 512, 1024, 4096, 8192, 16384, 1537, 9729, 16433, 13873, 32767>>
EnvTail(v) == IF v >= 51 THEN <<Boot>> ELSE <<>>
(* version, class flags, super, member flags, member name and descriptor *)
EnvIn(v, kind, super, mf, nm, ds, ctx, attrs) ==
  LET cl(f, m, a) == EnvPres[v - 44] \o Class0(kind, K("cA"), super, <<>>, f, m, a \o EnvTail(v))
  IN CASE ctx = "class" -> cl(<<>>, <<>>, attrs)
       [] ctx = "field" -> cl(<<Member(mf, nm, ds, attrs)>>, <<>>, <<>>)
       [] ctx = "method" -> cl(<<>>, <<Member(mf, nm, ds, attrs)>>, <<>>)
       [] ctx = "code" -> cl(<<>>, <<Member(mf, nm, ds, <<Attr("Code", CodeBody(<<RETURN_>>, <<>>, attrs))>>)>>, <<>>)
       [] ctx = "record" -> cl(<<>>, <<>>, <<Attr("Record", E2(1) \o E2(K("foo")) \o E2(K("I")) \o E2(Len(attrs)) \o Cat(attrs))>>)
EnvName(ctx) == IF ctx = "field" THEN "foo" ELSE "bar"
EnvDesc(ctx) == IF ctx = "field" THEN "I" ELSE "()V"

EnvAttrs(n) ==
  LET h == Home(n)
      p == PropOf(n) \o ",C13"
      \* (bootstrap methods are the class's own affair)
      at(s) == <<Attr(n, Base(Body(n), s, 0))>>
      here(v, kind, super, mf, s) == Case(EnvIn(v, kind, super, mf, EnvName(h), EnvDesc(h), h, at(s)), "a", p)
      init(v, nm, mf) == Case(EnvIn(v, 33, K("cB"), mf, nm, "()V", "method", at(1)), "a", p)
  IN [i \in 1..Len(EnvMajors) |-> here(EnvMajors[i], 33, K("cB"), 1, i % 5)]
     \o [i \in 1..Len(EnvMajors) |-> Case(EnvIn(EnvMajors[i], 1537, 0, 1025, "bar", "()V", Contexts[1 + (i % 5)], at((i + 2) % 5)), "a", p)]
     \o [i \in 1..Len(EnvKinds) |-> here(61, EnvKinds[i], IF i % 2 = 0 THEN 0 ELSE K("cB"), 1, i % 3)]
     \o (IF h \in {"field", "method", "code"} THEN [i \in 1..16 |-> here(61, 33, 0, 2^(i-1), i % 3)] ELSE <<>>)
     \o (IF h \in {"method", "code"} THEN << init(61, "<init>", 1), init(61, "<clinit>", 8), init(50, "<init>", 1), init(50, "<clinit>", 0), init(61, "foo", 1281) >> ELSE <<>>)

(* ---- instructions ---- *)
EnvOps(op) ==
  LET f == OpForm(op)
      refs(ns) == [i \in 1..Len(ns) |-> E2(K(ns[i]))]
  IN CASE f \in {"none", "implied"} -> << <<>> >>
       [] f \in {"s1", "local"} -> << <<200>> >>
       [] f = "s2" -> << <<128, 1>> >>
       [] f = "iinc" -> << <<200, 255>> >>
       [] f = "ldc1" -> [i \in 1..10 |-> E1(K((<<"i2", "f2", "cB", "cArr", "sFoo", "sSur", "hGet", "mt", "dyn", "l1">>)[i]))]
       [] f = "ldc2" -> refs(<<"i2", "f2", "cB", "cArr", "sFoo", "hNew", "mt2", "dyn", "dyn2", "l2", "d2">>)
       [] f = "field" -> refs(<<"field", "field2">>)
       [] f \in {"method", "anymethod"} -> refs(<<"meth", "meth2", "imeth", "imeth2">>)
       [] f \in {"class", "type"} -> refs(<<"cB", "cArr">>)
       [] f = "imethod" -> << E2(K("imeth2")) \o <<1, 0>>, E2(K("imeth")) \o <<5, 0>>, E2(K("meth")) \o <<1, 0>> >>
       [] f = "indy" -> << E2(K("indy")) \o <<0, 0>> >>
       [] f = "multi" -> << E2(K("cArr2")) \o <<2>>, E2(K("cArr")) \o <<1>> >>
       [] f = "prim" -> << <<4>>, <<11>> >>
       [] f = "jump2" -> << <<0, 0>> >>
       [] f = "jump4" -> << <<0, 0, 0, 0>> >>
       [] f = "wide" -> << <<21, 1, 2>>, <<132, 1, 2, 255, 3>>, <<169, 1, 0>> >>
       [] OTHER -> <<>>
EnvCodes(x) ==
  LET vs == <<45, 46, 47, 48, 49, 50, 51, 52, 54, 55, 61, 65, 69>>
      code(c) == <<Attr("Code", CodeBody(c \o <<RETURN_>>, <<>>, <<>>))>>
      meth(v, kind, mf, nm, ds, c) == Case(EnvIn(v, kind, 0, mf, nm, ds, "method", code(c)), "a", "C20,C21")
      all == Cat([i \in 1..Len(DefinedOps) |-> LET os == EnvOps(DefinedOps[i]) IN [j \in 1..Len(os) |-> <<DefinedOps[i]>> \o os[j]]])
             \o << TSw(0, E4(0), E4(0), E4(1), <<E4(0), E4(0)>>), LSw(0, E4(0), E4(1), <<E4(7) \o E4(0)>>) >>
  IN Cat([i \in 1..Len(all) |->
       [j \in 1..Len(vs) |-> meth(vs[j], IF j % 2 = 0 THEN 33 ELSE 1537, 1, "bar", "()V", all[i])]
       \o << meth(61, 1537, 8, "<clinit>", "()V", all[i]), meth(61, 33, 0, "<init>", "()V", all[i]), meth(50, 33, 4138, "bar", "()V", all[i]),
             meth(61, 1, 1281, "foo", "(I[JLp/Q;)Lp/R;", all[i]) >>])

(* ---- members ---- *)
EnvMethods(x) ==
  LET vs == <<45, 49, 50, 51, 52, 53, 54, 61, 65>>
      kinds == <<33, 0, 512, 1537, 9729, 16433>>
      ms == <<0, 1, 8, 9, 1025, 256, 4096, 4097, 4160, 2048, 65535>>
      src == <<U("A"), Ref("cA", 7, <<"A">>), U("<init>"), U("<clinit>"), U("foo"), U("()V"), U("(I)V"), U("()I"), U("Deprecated"), U("Synthetic")>>
      kits == Tup([i \in 1..Len(vs) |-> MkKit(src, vs[i])])
      names == <<"<init>", "<clinit>", "foo">>
      descs == <<"()V", "(I)V", "()I">>
  IN Cat([v \in 1..Len(vs) |-> Cat([c \in 1..Len(kinds) |-> Cat([m \in 1..Len(ms) |-> Cat([n \in 1..3 |-> [d \in 1..3 |->
       MemFile(kits[v], kinds[c], <<>>, <<MemberK(kits[v], ms[m], names[n], descs[d], IF (m + n + d) % 4 = 0 THEN <<AttrK(kits[v], "Synthetic", <<>>)>> ELSE <<>>)>>, "C10")]])])])])
EnvFields(x) ==
  LET vs == <<45, 49, 51, 53, 61>>
      src == <<U("A"), Ref("cA", 7, <<"A">>), U("<init>"), U("foo"), U("I"), U("[J"), U("Deprecated"), U("Synthetic")>>
      kits == Tup([i \in 1..Len(vs) |-> MkKit(src, vs[i])])
  IN Cat([v \in 1..Len(vs) |-> Cat([c \in 1..Len(EnvKinds) |-> Cat([m \in 1..16 |-> Cat([n \in 1..2 |-> [d \in 1..2 |->
       MemFile(kits[v], EnvKinds[c], <<MemberK(kits[v], 2^(m-1), (<<"foo", "<init>">>)[n], (<<"I", "[J">>)[d], IF (m + n + d) % 4 = 0 THEN <<AttrK(kits[v], "Synthetic", <<>>)>> ELSE <<>>)>>, <<>>, "C09")]])])])])
EnvMembers(x) == EnvMethods(0) \o EnvFields(0)
=============================================================================
