------------------------------- MODULE GenAttr -------------------------------
(***************************************************************************)
(* Attribute contents generated from the formats of Attributes.tla: for    *)
(* each format its conforming encodings, and every encoding that deviates  *)
(* from a conforming one in a single component.                            *)
(***************************************************************************)
EXTENDS GenBase

TagsOf(t) == SortedNums(DOMAIN t)
PlainValueTags == <<66, 67, 68, 70, 73, 74, 83, 90, 115, 101, 99>>

(* ---- one conforming encoding, varied by the salt s ---- *)
RECURSIVE Base(_, _, _)
RECURSIVE BaseAll(_, _, _, _)
BaseAll(f, i, s, d) == IF i > Len(f) THEN <<>> ELSE Base(f[i], s + i, d) \o BaseAll(f, i+1, s, d)
Base(f, s, d) ==
  LET h == f[1] IN
  CASE h = "u1" -> <<(17 + 83 * s) % 256>>
    [] h = "u2" -> E2((513 + 8261 * s) % 65536)
    [] h = "cp" -> E2(Good(f[2], s))
    [] h = "opt" -> IF s % 3 = 2 THEN E2(0) ELSE E2(Good(f[2], s))
    [] h \in {"flags", "sflags"} -> E2(f[2] & (IF s % 2 = 0 THEN 43690 ELSE 21845))
    [] h = "const" -> <<>>
    [] h = "seq" -> BaseAll(f, 2, s, d)
    [] h = "as" -> BaseAll(f, 3, s, d)
    [] h = "rep1" -> <<2>> \o Base(f[2], s, d+1) \o Base(f[2], s+4, d+1)
    [] h = "rep2" -> <<0, 2>> \o Base(f[2], s, d+1) \o Base(f[2], s+4, d+1)
    [] h = "repn" -> Cat([i \in 1..f[2] |-> Base(f[3], s+i, d)])
    [] h = "sw" -> LET ts == TagsOf(f[2])
                       t == ts[1 + ((7 * s + 3) % Len(ts))]
                   IN <<t>> \o Base(f[2][t], s, d)
    [] h \in {"ev0", "ev"} -> LET t == PlainValueTags[1 + ((5 * s + 3) % Len(PlainValueTags))]
                              IN <<t>> \o Base(EvTable[t], s, d)
    [] h \in {"ann", "annv"} -> Base(AnnBodyF, s, d+1)
    [] h = "attrs" -> IF s % 2 = 0 THEN <<0, 0>> ELSE <<0, 1>> \o Attr("Deprecated", <<>>)
    [] h = "code" -> E2(3) \o E2(258) \o E4(2) \o <<4, 172>> \o Base(<<"rep2", ExcF>>, s, d) \o Base(<<"attrs">>, s, d)
    [] h = "rawtext" -> <<115, 109, 97, 112, 48 + (s % 10)>>

(* ---- single deviations ---- *)
RECURSIVE Devs(_, _, _)
RECURSIVE DevsAll(_, _, _, _)

Then(ds, rest) == IF DOMAIN ds = {} THEN <<>> ELSE TLCEval([i \in 1..Len(ds) |-> ds[i] \o rest])
After(first, ds) == IF DOMAIN ds = {} THEN <<>> ELSE TLCEval([i \in 1..Len(ds) |-> first \o ds[i]])

DevsAll(f, i, s, d) ==
  IF i > Len(f) THEN <<>>
  ELSE Then(Devs(f[i], s + i, d), BaseAll(f, i+1, s, d))
       \o After(Base(f[i], s + i, d), DevsAll(f, i+1, s, d))

ProbesAt(d) == IF d >= 3 THEN FewProbes ELSE Probes
FlagProbes(mask) == [i \in 1..16 |-> 2^(i-1)] \o <<0, 65535, mask, mask + (IF mask % 2 = 0 THEN 1 ELSE 0)>>
E2s(ns) == Map(ns, E2)
E1s(ns) == Map(ns, E1)

(* Counted lists of f with count encoder E: no, one, three elements, a     *)
(* count that is one off either way, and deviations in the first or last   *)
(* of two elements (the last only when deeply nested).                     *)
DevsList(f, s, d, E(_)) ==
  LET a == Base(f, s, d+1)
      b == Base(f, s+4, d+1)
      c == Base(f, s+1, d+1)
  IN << E(0), E(1) \o a, E(3) \o a \o b \o c, E(3) \o a \o b, E(1) \o a \o b, E(4) \o c \o b \o a \o b >>
     \o (IF d >= 2 THEN <<>> ELSE After(E(2), Then(Devs(f, s, d+1), b)))
     \o After(E(2) \o a, Devs(f, s+4, d+1))

Undefined(t) == (0..255) \ DOMAIN t
EdgeUndefined(t) == {x \in Undefined(t) : x - 1 \in DOMAIN t \/ x + 1 \in DOMAIN t}
                    \cup ({2, 9, 24, 31, 32, 63, 76, 127, 128, 129, 246, 255} \cap Undefined(t))
DevTags(t) == IF Cardinality(DOMAIN t) <= 30 THEN DOMAIN t
              ELSE {0, 1, 62, 63, 64, 65, 126, 127, 247, 248, 249, 250, 251, 252, 253, 254, 255} \cap DOMAIN t

Devs(f, s, d) ==
  LET h == f[1] IN
  CASE h = "u1" -> E1s(<<0, 127, 128, 255>>)
    [] h = "u2" -> E2s(<<0, 255, 256, 32767, 32768, 65535>>)
    [] h \in {"cp", "opt"} -> E2s(ProbesAt(d))
    [] h \in {"flags", "sflags"} -> E2s(FlagProbes(f[2]))
    [] h = "const" -> <<>>
    [] h = "seq" -> DevsAll(f, 2, s, d)
    [] h = "as" -> DevsAll(f, 3, s, d)
    [] h = "rep1" -> DevsList(f[2], s, d, E1)
    [] h = "rep2" -> DevsList(f[2], s, d, E2)
    [] h = "repn" -> LET n == f[2]
                         front(i) == Cat([j \in 1..i-1 |-> Base(f[3], s+j, d)])
                         back(i) == Cat([j \in 1..n-i |-> Base(f[3], s+i+j, d)])
                         which == IF n = 1 THEN <<1>> ELSE <<1, n>>
                     IN Cat([w \in 1..Len(which) |->
                          After(front(which[w]), Then(Devs(f[3], s + which[w], d+1), back(which[w])))])
    [] h = "sw" ->
         LET t == f[2]
             all == TagsOf(t)
             some == SortedNums(DevTags(t))
             un == SortedNums(IF Cardinality(DOMAIN t) > 30 THEN Undefined(t) ELSE EdgeUndefined(t))
             fill == << <<>>, <<0, 1>>, <<0, 1, 0>> >>
         IN [i \in 1..Len(all) |-> <<all[i]>> \o Base(t[all[i]], s, d)]
            \o Cat([i \in 1..Len(some) |-> After(<<some[i]>>, Devs(t[some[i]], s, d))])
            \o Cat([i \in 1..Len(un) |-> After(<<un[i]>>, fill)])
    [] h \in {"ev0", "ev"} ->
         LET all == TagsOf(EvTable)
             deep == d >= 5
             un == <<0, 65, 69, 71, 76, 84, 86, 89, 98, 100, 102, 104, 105, 116, 122, 92, 255>>
             sub(t) == IF deep /\ t \in {64, 91} THEN <<>> ELSE After(<<t>>, Devs(EvTable[t], s, d+1))
         IN [i \in 1..Len(all) |-> <<all[i]>> \o Base(EvTable[all[i]], s, d)]
            \o Cat([i \in 1..Len(all) |-> sub(all[i])])
            \o [i \in 1..Len(un) |-> <<un[i]>> \o E2(K("i1"))]
    [] h \in {"ann", "annv"} -> Devs(AnnBodyF, s, d+1)
    [] h = "attrs" ->
         LET dep == Attr("Deprecated", <<>>)
             sig == Attr("Signature", E2(K("v1.0 x")))
             other == Attr("foo", <<1, 2, 3>>)
         IN << <<0, 0>>, <<0, 1>> \o sig, <<0, 2>> \o other \o dep, <<0, 3>> \o sig \o sig \o dep,
               <<0, 1>>, <<0, 2>> \o dep, <<0, 0>> \o dep,
               <<0, 1>> \o Attr("Deprecated", <<0>>), <<0, 1>> \o E2(K("cA")) \o E4(0),
               <<0, 1>> \o E2(0) \o E4(0), <<0, 1>> \o E2(K("foo")) \o E4(1) >>
    [] h = "code" ->
         LET exc == Base(<<"rep2", ExcF>>, s, d)
             body(x, y, code, e, a) == E2(x) \o E2(y) \o E4(Len(code)) \o code \o e \o a
             c1 == <<4, 172>>
             none == <<0, 0>>
         IN << body(0, 0, c1, none, none), body(65535, 32768, c1, none, none), body(1, 2, <<>>, none, none),
               body(1, 2, c1, <<0, 1>> \o E2(0) \o E2(2) \o E2(1) \o E2(0), none),
               E2(1) \o E2(2) \o E4(1) \o c1 \o none \o none, E2(1) \o E2(2) \o E4(3) \o c1 \o none \o none,
               E2(1) \o E2(2) \o E4(256) \o Rep(255, 0) \o <<177>> \o none \o none,
               E2(1) \o E2(2) \o <<255, 255, 255, 255>> \o c1 \o none \o none,
               E2(1) \o E2(2) \o <<128, 0, 0, 2>> \o c1 \o none \o none,
               E2(1) \o E2(2) \o <<0, 1, 0, 2>> \o c1 \o none \o none >>
            \o After(E2(1) \o E2(2) \o E4(2) \o c1, Then(Devs(<<"rep2", ExcF>>, s, d), none))
            \o After(E2(1) \o E2(2) \o E4(2) \o c1 \o exc, Devs(<<"attrs">>, s, d))
    [] h = "rawtext" ->
         << <<>>, <<0>>, <<65, 0, 66>>, <<192, 128>>, <<195, 169, 120>>, <<195>>, <<237, 160, 128>>, <<255>>,
            <<237, 160, 189, 237, 184, 128>>, <<240, 159, 152, 128>>, <<226, 130, 172>>, <<226, 130>>, <<192, 129>>,
            <<97, 192, 128, 98, 240, 159, 152, 128>> >>

------------------------------------------------------------------------------
PropOf(n) ==
  CASE n \in {"Module", "ModulePackages", "ModuleMainClass"} -> "C15"
    [] n \in {"RuntimeVisibleAnnotations", "RuntimeInvisibleAnnotations", "AnnotationDefault",
              "RuntimeVisibleParameterAnnotations", "RuntimeInvisibleParameterAnnotations"} -> "C16"
    [] n \in {"RuntimeVisibleTypeAnnotations", "RuntimeInvisibleTypeAnnotations"} -> "C17"
    [] n = "StackMapTable" -> "C18"
    [] n \in {"Code", "LineNumberTable", "LocalVariableTable", "LocalVariableTypeTable"} -> "C19"
    [] OTHER -> "C14"
Home(n) ==
  CASE n = "ConstantValue" -> "field"
    [] n \in {"Code", "Exceptions", "AnnotationDefault", "MethodParameters",
              "RuntimeVisibleParameterAnnotations", "RuntimeInvisibleParameterAnnotations"} -> "method"
    [] n \in {"StackMapTable", "LineNumberTable", "LocalVariableTable", "LocalVariableTypeTable"} -> "code"
    [] n = "BootstrapMethods" -> "method"
    [] OTHER -> "class"

Body(n) == AttrFormat[Asc(n)]

(* Single deviations in the contents, each at the attribute's usual place. *)
DevCases(n) ==
  LET ds == Devs(Body(n), 0, 0)
  IN [i \in 1..Len(ds) |-> Case(In(Home(n), <<Attr(n, ds[i])>>), "a", PropOf(n))]

(* Conforming contents at every place, observed in every mode, and twice   *)
(* in a row with different contents.                                       *)
BaseCases(n) ==
  LET modes == <<"a", "p", "d", "n", "v">>
  IN Cat([c \in 1..Len(Contexts) |-> Cat([s \in 1..4 |->
       << Case(In(Contexts[c], <<Attr(n, Base(Body(n), s-1, 0))>>), modes[1 + ((s + c) % 5)],
               IF Contexts[c] = Home(n) THEN PropOf(n) ELSE "C13") >>])])
     \o << Case(In(Home(n), <<Attr(n, Base(Body(n), 5, 0)), Attr(n, Base(Body(n), 6, 0))>>), "a", "C13"),
           Case(In(Home(n), <<Attr("foo", <<9>>), Attr(n, Base(Body(n), 7, 0)), Attr("Deprecated", <<>>)>>), "a", "C13") >>

(* The contents cut short or followed by junk with the length field true   *)
(* to it, and the length field off while the contents are intact.          *)
FrameCases(n) ==
  LET b == Base(Body(n), 0, 0)
      home == Home(n)
      cut == [k \in 1..Len(b) |-> Case(In(home, <<Attr(n, SubSeq(b, 1, k-1))>>), "a", "C02")]
      junk == [k \in 1..3 |-> Case(In(home, <<Attr(n, b \o Rep(k, 0))>>), "a", "C02")]
      decl(len) == Case(In(home, << E2(K(n)) \o len \o b >>), "a", "C02")
      off == [k \in 1..Len(b) |-> decl(E4(k-1))]
      over == << decl(E4(Len(b) + 1)), decl(E4(Len(b) + 2)), decl(E4(Len(b) + 6)), decl(E4(Len(b) + 256)),
                 decl(E4(Len(b) + 65536)), decl(<<1>> \o Tail(E4(Len(b)))), decl(<<128>> \o Tail(E4(Len(b)))),
                 decl(<<255, 255, 255, 255>>) >>
      \* everywhere: bytes left over, bytes missing, a length that says so or not
      there(c) == << Case(In(c, <<Attr(n, b \o <<0>>)>>), "a", "C02"), Case(In(c, <<Attr(n, b \o <<1, 255>>), Attr("Deprecated", <<>>)>>), "a", "C02"),
                     Case(In(c, << E2(K(n)) \o E4(Len(b) + 1) \o b, Attr("Deprecated", <<>>) >>), "a", "C02") >>
                  \o (IF b = <<>> THEN <<>> ELSE << Case(In(c, <<Attr(n, SubSeq(b, 1, Len(b) - 1)), Attr("Deprecated", <<>>)>>), "a", "C02"), Case(In(c, << E2(K(n)) \o E4(Len(b) - 1) \o b >>), "a", "C02") >>)
  IN cut \o junk \o off \o over \o Cat([c \in 1..Len(Contexts) |-> there(Contexts[c])])

(* The same for an attribute two levels down, where the enclosing length   *)
(* is adjusted or not.                                                     *)
NestedFrameCases(x) ==
  LET inner(len, body) == E2(K("Signature")) \o E4(len) \o body
      good == E2(K("foo"))
      code(i) == CodeBody(<<RETURN_>>, <<>>, <<i>>)
      rec(i) == E2(1) \o E2(K("foo")) \o E2(K("I")) \o E2(1) \o i
      is == << inner(2, good), inner(1, good), inner(3, good), inner(3, good \o <<0>>), inner(1, <<0>>), inner(0, <<>>),
               inner(0, good), inner(65538, good), inner(2, <<>>) >>
      outer(n, b, delta) == E2(K(n)) \o E4(Len(b) + delta) \o b
      ds == <<0, 1, -1, 2, -2>>
  IN Cat([i \in 1..Len(is) |-> Cat([d \in 1..Len(ds) |->
       << Case(In("method", <<outer("Code", code(is[i]), ds[d])>>), "a", "C02"),
          Case(In("class", <<outer("Record", rec(is[i]), ds[d])>>), "a", "C02") >>])])
=============================================================================
