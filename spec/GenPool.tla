------------------------------- MODULE GenPool -------------------------------
(***************************************************************************)
(* Class files that differ in their constant pool: entry kinds, versions,  *)
(* references, names, descriptors and encoded strings.  Every case has a   *)
(* pool of its own.                                                        *)
(***************************************************************************)
EXTENDS GenAttr

(* ---- class layouts over any kit k ---- *)
N(k, n) == k.where[n]
AttrK(k, n, body) == E2(N(k, n)) \o E4(Len(body)) \o body
MemberK(k, flags, n, d, attrs) == E2(flags) \o E2(N(k, n)) \o E2(N(k, d)) \o E2(Len(attrs)) \o Cat(attrs)
FileK(k, this, super, fields, methods, attrs) ==
  k.pre \o Class0(33, N(k, this), IF super = "" THEN 0 ELSE N(k, super), <<>>, fields, methods, attrs)
CodeK(k, n, d, code, attrs) == MemberK(k, 1, n, d, <<AttrK(k, "Code", CodeBody(code, <<>>, attrs))>>)
BareK(k) == FileK(k, "cA", "", <<>>, <<>>, <<>>)

Strs(A, n) == UNION {[1..j -> A] : j \in 1..n} \cup {<<>>}
SetSeq(S) == TLCEval(SetToSeq(S))
CasesFor(S, F(_)) == LET q == SetSeq(S) IN TLCEval([i \in 1..Len(q) |-> F(q[i])])

(* ---- one entry of every kind to refer to (version 61) ---- *)
MiniSrc == <<
  U("A"), U("foo"), U("I"), U("()V"), U("bar"), U("<init>"), U("BootstrapMethods"), UB("bad", <<237, 160, 128>>),
  <<"i", "b", <<3, 0, 0, 0, 7>>>>, <<"f", "b", <<4, 64, 0, 0, 0>>>>,
  <<"l", "w", <<5, 0, 0, 0, 0, 0, 0, 0, 9>>>>, <<"d", "w", <<6, 64, 0, 0, 0, 0, 0, 0, 0>>>>,
  Ref("cA", 7, <<"A">>), Ref("s", 8, <<"foo">>),
  Ref("nF", 12, <<"foo", "I">>), Ref("nM", 12, <<"bar", "()V">>), Ref("nI", 12, <<"<init>", "()V">>),
  Ref("field", 9, <<"cA", "nF">>), Ref("meth", 10, <<"cA", "nM">>), Ref("init", 10, <<"cA", "nI">>),
  Ref("imeth", 11, <<"cA", "nM">>) >>
MiniNew == <<
  <<"h", "h", 1, "field">>, Ref("mt", 16, <<"()V">>), <<"dyn", "d", 17, 0, "nF">>, <<"indy", "d", 18, 0, "nM">>,
  Ref("mod", 19, <<"foo">>), Ref("pk", 20, <<"A">>) >>
MiniBoot(k) == AttrK(k, "BootstrapMethods", E2(1) \o E2(N(k, "h")) \o E2(0))
MiniFile(k) == FileK(k, "cA", "", <<>>, <<>>, <<MiniBoot(k)>>)

(* Pool tags and versions.                                                 *)
TagPayloads(t) ==                          \* what a well-formed entry of the tag looks like in MiniSrc
  CASE t = 1 -> <<0, 1, 120>> [] t = 3 -> <<1, 2, 3, 4>> [] t = 4 -> <<1, 2, 3, 4>>
    [] t = 5 -> <<1, 2, 3, 4, 5, 6, 7, 8>> [] t = 6 -> <<1, 2, 3, 4, 5, 6, 7, 8>>
    [] OTHER -> <<>>
Versions == {0, 3, 44, 45, 48, 49, 50, 51, 52, 53, 54, 55, 56, 61, 65, 69, 255, 256, 65535}
RefEntry(t, k) ==
  CASE t \in {7, 8, 16, 19, 20} -> <<t>> \o E2(CASE t = 16 -> N(k, "()V") [] OTHER -> N(k, "foo"))
    [] t = 9 -> <<t>> \o E2(N(k, "cA")) \o E2(N(k, "nF"))
    [] t \in {10, 11} -> <<t>> \o E2(N(k, "cA")) \o E2(N(k, "nM"))
    [] t = 12 -> <<t>> \o E2(N(k, "foo")) \o E2(N(k, "I"))
    [] t = 15 -> <<t, 1>> \o E2(N(k, "field"))
    [] t \in {1, 3, 4, 5, 6} -> <<t>> \o TagPayloads(t)
    [] OTHER -> <<t>> \o E2(N(k, "foo"))
Mini(major) == MkKit(MiniSrc, major)
(* The kit with one more entry, and count field, after the kit's entries.  *)
Extend(k, entry, slots) == SubSeq(k.pre, 1, 8) \o E2(k.n + slots) \o SubSeq(k.pre, 11, Len(k.pre)) \o entry
ExtCase(k, entry, slots, p) ==
  Case(Extend(k, entry, slots) \o Class0(33, N(k, "cA"), 0, <<>>, <<>>, <<>>, <<>>), "v", p)
SlotsOf(t) == IF t \in {5, 6} THEN 2 ELSE 1

TagCases(x) ==
  LET kits == Fun([v \in Versions |-> Mini(v)])
      f(tv) == ExtCase(kits[tv[2]], RefEntry(tv[1], kits[tv[2]]), SlotsOf(tv[1]), "C03")
  IN CasesFor({1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 19, 20, 21} \X Versions, f)
     \o CasesFor((0..255) \X {61}, f)
     \o CasesFor({17, 18} \X {0}, LAMBDA z : ExtCase(kits[61], <<z[1], 0, 0>> \o E2(N(kits[61], "nF")), 1, "C03,C12"))
     \o CasesFor({17, 18} \X Versions,               \* dynamic entries with their bootstrap methods
                 LAMBDA z : LET k == MkKit(MiniSrc \o <<MiniNew[1], MiniNew[IF z[1] = 17 THEN 3 ELSE 4]>>, z[2])
                            IN Case(MiniFile(k), "v", "C03"))

(* Every reference of every kind of entry, to every kind of entry and slot.*)
TargetNames == <<"foo", "bad", "i", "f", "l", "d", "cA", "s", "nF", "nM", "nI", "field", "meth", "init", "imeth",
                 "h", "mt", "dyn", "indy", "mod", "pk", "I", "()V", "<init>">>
RefCases(x) ==
  LET k == MkKit(MiniSrc \o MiniNew, 61)
      new == k.n                         \* the index of the entry under test
      ts == SetSeq({N(k, TargetNames[i]) : i \in 1..Len(TargetNames)}
                   \cup {0, N(k, "l") + 1, N(k, "d") + 1, new, new + 1, new + 2, 65535, 32768, 256 + N(k, "cA")})
      tail == Class0(33, N(k, "cA"), 0, <<>>, <<>>, <<>>, <<MiniBoot(k)>>)
      c(e) == Case(Extend(k, e, 1) \o tail, "v", "C03")
      g(t, a, b) == <<t>> \o E2(a) \o E2(b)
      refs == << <<7>>, <<8>>, <<16>>, <<19>>, <<20>> >>
  IN Cat([i \in 1..Len(ts) |->
       [j \in 1..Len(refs) |-> c(refs[j] \o E2(ts[i]))]
       \o << c(g(9, ts[i], N(k, "nF"))), c(g(9, N(k, "cA"), ts[i])),
             c(g(10, ts[i], N(k, "nM"))), c(g(10, N(k, "cA"), ts[i])),
             c(g(11, ts[i], N(k, "nM"))), c(g(11, N(k, "cA"), ts[i])),
             c(g(12, ts[i], N(k, "I"))), c(g(12, N(k, "foo"), ts[i])),
             c(g(17, 0, ts[i])), c(g(18, 0, ts[i])) >>
       \o [h \in 1..9 |-> c(<<15, h>> \o E2(ts[i]))]])
     \o [i \in 1..13 |-> c(<<15, (<<0, 10, 11, 12, 15, 16, 32, 127, 128, 129, 200, 254, 255>>)[i]>> \o E2(N(k, "field")))]

HandleCases(x) ==
  LET one(z) == LET k == MkKit(MiniSrc, z[1]) IN ExtCase(k, <<15, z[2]>> \o E2(N(k, z[3])), 1, "C03")
  IN CasesFor({50, 51, 52, 53, 65} \X (0..10) \X {"field", "meth", "init", "imeth", "cA", "nM"}, one)

(* A reference to an entry that comes later is as good as an earlier one.  *)
Reverse_(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
Rotate(q, n) == SubSeq(q, n + 1, Len(q)) \o SubSeq(q, 1, n)
OrderCases(x) ==
  LET all == MiniSrc \o MiniNew
      c(src) == <<Case(MiniFile(MkKit(src, 61)), "v", "C03,C04,C05"), Case(MiniFile(MkKit(src, 61)), "p", "C06")>>
      bads == << Ref("X", 9, <<"cA", "nM">>), Ref("X", 10, <<"cA", "nF">>), Ref("X", 7, <<"()V", "()V">>),
                 Ref("X", 16, <<"I">>), Ref("X", 12, <<"foo", "cA">>), Ref("X", 12, <<"cA", "I">>),
                 Ref("X", 19, <<"cA">>), <<"X", "d", 17, 0, "nM">>, <<"X", "d", 18, 0, "nF">> >>
  IN Cat([n \in 1..Len(all) |-> c(Rotate(all, n-1)) \o c(Reverse_(Rotate(all, n-1)))])
     \o Cat([i \in 1..Len(bads) |->
          << Case(MiniFile(MkKit(<<bads[i]>> \o all, 61)), "v", "C04"), Case(MiniFile(MkKit(all \o <<bads[i]>>, 61)), "v", "C04") >>])

(* Entry counts that do not fit, truncated pools, wide entries at the end. *)
CountCases(x) ==
  LET k == MkKit(MiniSrc \o MiniNew, 61)
      tail == Class0(33, N(k, "cA"), 0, <<>>, <<>>, <<>>, <<MiniBoot(k)>>)
      body == SubSeq(k.pre, 11, Len(k.pre))
      c(n) == Case(SubSeq(k.pre, 1, 8) \o E2(n) \o body \o tail, "v", "C03")
      wide(t, extra, after) ==               \* a wide entry with `extra` slots counted after the kit
        Case(SubSeq(k.pre, 1, 8) \o E2(k.n + extra) \o body \o RefEntry(t, k) \o after \o tail, "v", "C03")
  IN [i \in 1..(k.n + 3) |-> c(i - 1)] \o <<c(256 + k.n), c(65535), c(32768)>>
     \o [i \in 1..Len(body) |-> Case(SubSeq(k.pre, 1, 10) \o SubSeq(body, 1, i-1), "v", "C03,C02")]
     \o << wide(5, 1, <<>>), wide(5, 2, <<>>), wide(5, 3, <<>>), wide(5, 3, <<3, 0, 0, 0, 1>>), wide(5, 2, <<3, 0, 0, 0, 1>>),
           wide(6, 1, <<>>), wide(6, 2, <<>>), wide(6, 3, <<>>), wide(6, 3, <<3, 0, 0, 0, 1>>), wide(6, 4, <<5, 0, 0, 0, 0, 0, 0, 0, 1>>),
           wide(6, 3, <<5, 0, 0, 0, 0, 0, 0, 0, 1>>), wide(5, 4, <<6, 0, 0, 0, 0, 0, 0, 0, 1>>) >>
     \o << Case(<<202, 254, 186, 190, 0, 0, 0, 61, 0, 0>> \o Class0(33, 0, 0, <<>>, <<>>, <<>>, <<>>), "v", "C03"),
           Case(<<202, 254, 186, 190, 0, 0, 0, 61, 0, 1>> \o Class0(33, 0, 0, <<>>, <<>>, <<>>, <<>>), "v", "C03"),
           Case(<<202, 254, 186, 190, 0, 0, 0, 61, 0, 2, 5, 0, 0, 0, 0, 0, 0, 0, 1>> \o Class0(33, 0, 0, <<>>, <<>>, <<>>, <<>>), "v", "C03") >>

(* ---- names and descriptors in every position ---- *)
(* The string under test is entry "X" of its pool.                         *)
XSrc(s) == <<U("A"), UB("X", s), U("foo"), U("I"), U("()V"), Ref("cA", 7, <<"A">>)>>
XFile(s, more, p) == Case(BareK(MkKit(XSrc(s) \o more, 61)), "v", p)
XBoot == <<U("BootstrapMethods"), Ref("nB", 12, <<"foo", "()V">>), Ref("mB", 10, <<"cA", "nB">>), <<"h", "h", 6, "mB">>>>
XDyn(s, e, p) == Case(MiniFile(MkKit(XSrc(s) \o XBoot \o e, 61)), "v", p)
XMember(s, f, m, p) ==
  LET k == MkKit(XSrc(s), 61)
  IN Case(FileK(k, "cA", "", IF f = <<>> THEN <<>> ELSE <<MemberK(k, 1, f[1], f[2], <<>>)>>,
                IF m = <<>> THEN <<>> ELSE <<MemberK(k, 1025, m[1], m[2], <<>>)>>, <<>>), "v", p)
XAttr(s, n, ctx, body(_), p) ==
  LET k == MkKit(XSrc(s) \o <<U(n), U("Code"), Ref("cX", 7, <<"foo">>)>>, 61)
      a == <<AttrK(k, n, body(k))>>
  IN Case(CASE ctx = "class" -> FileK(k, "cA", "", <<>>, <<>>, a)
            [] ctx = "method" -> FileK(k, "cA", "", <<>>, <<MemberK(k, 1025, "foo", "()V", a)>>, <<>>)
            [] ctx = "code" -> FileK(k, "cA", "", <<>>, <<CodeK(k, "foo", "()V", <<RETURN_>>, a)>>, <<>>), "v", p)
XCode(s, op, extra) ==
  LET k == MkKit(XSrc(s) \o <<U("Code"), Ref("cX", 7, <<"X">>)>>, 61)
  IN Case(FileK(k, "cA", "", <<>>, <<CodeK(k, "foo", "()V", <<op>> \o E2(N(k, "cX")) \o extra \o <<RETURN_>>, <<>>)>>, <<>>), "v", "C07,C20")

NamePositions(s) == <<
  XFile(s, <<Ref("Y", 7, <<"X">>)>>, "C04"),
  XFile(s, <<Ref("Y", 12, <<"X", "I">>)>>, "C04"),
  XFile(s, <<Ref("Y", 19, <<"X">>)>>, "C04"),
  XFile(s, <<Ref("Y", 20, <<"X">>)>>, "C04"),
  XFile(s, <<Ref("Y", 8, <<"X">>)>>, "C04,C06"),
  LET k == MkKit(XSrc(s) \o <<Ref("cX", 7, <<"X">>)>>, 61) IN Case(FileK(k, "cX", "", <<>>, <<>>, <<>>), "v", "C08"),
  LET k == MkKit(XSrc(s) \o <<Ref("cX", 7, <<"X">>)>>, 61) IN Case(FileK(k, "cA", "cX", <<>>, <<>>, <<>>), "v", "C08"),
  LET k == MkKit(XSrc(s) \o <<Ref("cX", 7, <<"X">>)>>, 61)
  IN Case(k.pre \o Class0(33, N(k, "cA"), 0, <<N(k, "cA"), N(k, "cX")>>, <<>>, <<>>, <<>>), "v", "C08"),
  XMember(s, <<"X", "I">>, <<>>, "C09"),
  XMember(s, <<>>, <<"X", "()V">>, "C10"),
  LET k == MkKit(XSrc(s), 61)
  IN Case(k.pre \o Class0(1537, N(k, "cA"), 0, <<>>, <<>>, <<MemberK(k, 1025, "X", "()V", <<>>)>>, <<>>), "v", "C10"),
  XAttr(s, "MethodParameters", "method", LAMBDA k : <<1>> \o E2(N(k, "X")) \o E2(0), "C14"),
  XAttr(s, "Record", "class", LAMBDA k : E2(1) \o E2(N(k, "X")) \o E2(N(k, "I")) \o E2(0), "C14"),
  XAttr(s, "LocalVariableTable", "code", LAMBDA k : E2(1) \o E2(0) \o E2(1) \o E2(N(k, "X")) \o E2(N(k, "I")) \o E2(0), "C19"),
  XAttr(s, "LocalVariableTypeTable", "code", LAMBDA k : E2(1) \o E2(0) \o E2(1) \o E2(N(k, "X")) \o E2(N(k, "I")) \o E2(0), "C19"),
  XAttr(s, "InnerClasses", "class", LAMBDA k : E2(1) \o E2(N(k, "cA")) \o E2(0) \o E2(N(k, "X")) \o E2(1), "C14"),
  XAttr(s, "SourceFile", "class", LAMBDA k : E2(N(k, "X")), "C14"),
  XAttr(s, "RuntimeVisibleAnnotations", "class",
        LAMBDA k : E2(1) \o E2(N(k, "X")) \o E2(0), "C16,C07") >>

DescPositions(s) == <<
  XFile(s, <<Ref("Y", 7, <<"X">>)>>, "C04,C07"),
  XFile(s, <<Ref("Y", 12, <<"foo", "X">>)>>, "C04,C07"),
  XFile(s, <<Ref("Y", 12, <<"foo", "X">>), Ref("Z", 9, <<"cA", "Y">>)>>, "C04,C07"),
  XFile(s, <<Ref("Y", 12, <<"foo", "X">>), Ref("Z", 10, <<"cA", "Y">>)>>, "C04,C07"),
  XFile(s, <<Ref("Z", 11, <<"cA", "Y">>), Ref("Y", 12, <<"foo", "X">>)>>, "C04,C07"),
  XDyn(s, <<Ref("Y", 12, <<"foo", "X">>), <<"Z", "d", 17, 0, "Y">>>>, "C04,C07"),
  XDyn(s, <<Ref("Y", 12, <<"foo", "X">>), <<"Z", "d", 18, 0, "Y">>>>, "C04,C07"),
  XFile(s, <<Ref("Y", 16, <<"X">>)>>, "C04,C07"),
  XMember(s, <<"foo", "X">>, <<>>, "C07,C09"),
  XMember(s, <<>>, <<"foo", "X">>, "C07,C10"),
  XAttr(s, "Record", "class", LAMBDA k : E2(1) \o E2(N(k, "foo")) \o E2(N(k, "X")) \o E2(0), "C07,C14"),
  XAttr(s, "LocalVariableTable", "code", LAMBDA k : E2(1) \o E2(0) \o E2(1) \o E2(N(k, "foo")) \o E2(N(k, "X")) \o E2(0), "C07,C19"),
  XAttr(s, "LocalVariableTypeTable", "code", LAMBDA k : E2(1) \o E2(0) \o E2(1) \o E2(N(k, "foo")) \o E2(N(k, "X")) \o E2(0), "C19"),
  XAttr(s, "RuntimeVisibleAnnotations", "class", LAMBDA k : E2(1) \o E2(N(k, "X")) \o E2(0), "C07,C16"),
  XAttr(s, "RuntimeInvisibleAnnotations", "class",
        LAMBDA k : E2(1) \o E2(N(k, "I")) \o E2(2) \o E2(N(k, "foo")) \o <<101>> \o E2(N(k, "X")) \o E2(N(k, "foo"))
                   \o E2(N(k, "foo")) \o <<91, 0, 1, 64>> \o E2(N(k, "X")) \o E2(0), "C07,C16"),
  XAttr(s, "AnnotationDefault", "method", LAMBDA k : <<99>> \o E2(N(k, "X")), "C07,C16"),
  XAttr(s, "Signature", "class", LAMBDA k : E2(N(k, "X")), "C14"),
  XCode(s, 189, <<>>), XCode(s, 192, <<>>), XCode(s, 197, <<1>>), XCode(s, 187, <<>>) >>

InMode(cs, m) == Map(cs, LAMBDA c : [c EXCEPT !.m = m])

Dims(n) == Rep(n, LBRACK)
NameStrs == Strs({97, SLASH, SEMI, LBRACK, DOT, LT, GT}, 2) \cup [1..3 -> {97, SLASH, LT, GT, DOT}]
            \cup [1..4 -> {97, SLASH}] \cup {<<LBRACK>> \o t : t \in [1..2 -> {73, 76, 97, SEMI, LBRACK}]}
            \cup {INIT_NAME, CLINIT_NAME, Asc("<init"), Asc("<clinit"), Asc("<init>x"), Asc("<cinit>"), Asc("init>"),
                  Asc("<Init>"), Asc("x<init>"), Asc("[La/b;"), Asc("[[[J"), Asc("[V"), Asc("a:b"), Asc("a@b"), Asc("a\\b"),
                  Asc("a\\:b"), Asc("a\\@"), Asc("a\\\\"), Asc("\\"), Asc("a\\\\\\"), Asc("a\\\\:"), Asc(":"), Asc("java.base"),
                  Asc("m b"), Asc("(I)V"), <<31>>, <<97, 31>>, <<32>>, <<127>>, <<9, 97>>, <<195, 169>>, <<194, 128>>, <<97, 195, 169, SLASH, 98>>,
                  <<192, 128>>, <<97, 192, 128>>, <<237, 160, 128>>, <<97, 255>>, <<195>>, <<237, 160, 189, 237, 184, 128>>,
                  <<237, 160, 189, 237, 184, 128, SLASH, 97>>, <<195, 169, SLASH, 98>>, <<195, 169, SLASH, 226, 130, 172, SLASH, 97>>, <<97, 226, 130, 172, SLASH, SLASH>>, <<195, 169, SLASH>>,
                  <<192, 128, SLASH, 97>>, <<LBRACK, 76, 195, 169, SLASH, 226, 130, 172, SEMI>>, <<LBRACK, 76, 195, 169, SEMI, 97>>, <<240, 159, 152, 128>>, <<0>>, <<226, 136, 149>>, <<239, 188, 155>>,
                  Rep(300, 97), Dims(255) \o <<73>>, Dims(256) \o <<73>> }
NameStrCases(x) == Cat(CasesFor(NameStrs, NamePositions))

(* segments with characters of every length, one cut off *)
OddSegs == {<<97>>, <<195, 169>>, <<226, 130, 172, 98>>, <<237, 160, 189, 237, 184, 128>>, <<99, 192, 128>>, <<194, 160, 100>>}
FieldStrs == Strs({LBRACK, 73, 76, 97, SEMI, SLASH}, 3) \cup {Dims(n) \o t : n \in {1, 254, 255, 256}, t \in {<<73>>, <<76, 97, SEMI>>, <<>>}}
             \cup {<<c>> : c \in 33..126} \cup {<<LBRACK, c>> : c \in 65..90}
             \cup {<<76>> \o t \o <<SEMI>> : t \in [1..2 -> {97, SLASH, LBRACK, DOT, LT, 76}]}
             \cup {<<76>> \o t \o <<SEMI>> : t \in [1..3 -> {97, SLASH}]}
             \cup {Asc("La/b;I"), Asc("II"), Asc("IV"), Asc("[I[I"), Asc("La;La;"), Asc("Ljava.lang.String;"), Asc("[La/b/c;"),
                   Asc("La<b>;"), Asc("[V"), Asc("[[V"), <<76, 195, 169, SEMI>>, <<76, 192, 128, SEMI>>, <<76, 97, 237, 160, 128, SEMI>>,
                   <<76, 237, 160, 189, 237, 184, 128, SEMI>>, <<91, 76, 237, 160, 189, 237, 184, 128, SEMI>>, <<73, 0>>, <<73, 32>> }
             \cup {<<76>> \o s \o <<SLASH>> \o t \o u : s \in OddSegs, t \in OddSegs, u \in {<<SEMI>>, <<SLASH, 97, SEMI>>, <<>>}}
             \cup {<<76>> \o s \o u : s \in OddSegs, u \in {<<SEMI>>, <<SEMI, 73>>, <<SLASH, SLASH, 97, SEMI>>, <<SLASH, SEMI>>}}
FieldStrCases(x) == Cat(CasesFor(FieldStrs, DescPositions))

MethodStrs == {<<LPAR>> \o t : t \in Strs({RPAR, 73, 86, LBRACK}, 3)} \cup {<<LPAR>> \o t \o <<RPAR, 86>> : t \in Strs({73, LBRACK, 76, 97, SEMI, 86}, 3)}
              \cup {<<LPAR, RPAR>> \o t : t \in Strs({73, LBRACK, 76, 97, SEMI, 86}, 3)}
              \cup {<<LPAR, c, RPAR, 86>> : c \in 65..90} \cup {<<LPAR, RPAR, c>> : c \in 65..90}
              \cup {<<LPAR>> \o Dims(n) \o <<73, RPAR, 86>> : n \in {254, 255, 256}}
              \cup {<<LPAR, RPAR>> \o Dims(n) \o <<73>> : n \in {254, 255, 256}}
              \cup {Asc("(Ia)V"), Asc("(La;I[J)V"), Asc("(La/b;[[Lc/d;JD)[Le/f;"), Asc("()V;"), Asc("()VV"), Asc("()II"), Asc("()"), Asc(")V"),
                    Asc("(I"), Asc("()La;V"), Asc("I()V"), Asc(" ()V"), Asc("()V "), Asc("(I)(I)V"), Asc("((I)V)V"), Asc("(La//b;)V"), Asc("(La;)L;"),
                    <<LPAR, 76, 237, 160, 189, 237, 184, 128, SEMI, RPAR, 76, 195, 169, SEMI>>, <<LPAR, RPAR, 86, 237, 160, 128>>,
                    <<LPAR>> \o Rep(300, 73) \o <<RPAR, 86>>, Asc("(V)I"), Asc("()[V") }
              \cup {<<LPAR, 76>> \o s \o <<SLASH>> \o t \o <<SEMI>> \o u : s \in OddSegs, t \in OddSegs, u \in {<<RPAR, 86>>, <<73, RPAR, 91, 74>>}}
              \cup {<<LPAR, 76>> \o s \o <<SEMI, 91, 76>> \o t \o <<SEMI, 73, RPAR, 76>> \o u \o <<SEMI>> : s \in OddSegs, t \in OddSegs, u \in OddSegs}
              \cup {<<LPAR, RPAR, 91, 76>> \o s \o <<SLASH>> \o t \o <<SLASH, 120, SEMI>> : s \in OddSegs, t \in OddSegs}
MethodStrCases(x) == Cat(CasesFor(MethodStrs, DescPositions))

(* ---- encoded strings, JVMS 4.4.7 ---- *)
Edges == {0, 1, 65, 127, 128, 143, 144, 159, 160, 175, 176, 191, 192, 193, 194, 223, 224, 225, 236, 237, 238, 239, 240, 241, 244, 245, 255}
Conts == {65, 127, 128, 143, 144, 159, 160, 175, 176, 191, 192}
EncStrs ==
  {<<c>> : c \in 0..255} \cup (Edges \X Edges)
  \cup {<<a, b, c>> : a \in {192, 194, 223, 224, 225, 236, 237, 238, 239, 240}, b \in Conts, c \in {65, 127, 128, 191, 192}}
  \cup {<<97, 192, 128, b>> : b \in {0, 98, 128, 192, 195}}
  \cup {<<a, b, c, d>> : a \in {239, 240, 241, 243, 244, 245}, b \in {128, 143, 144, 191}, c \in {127, 128, 191}, d \in {128, 191, 192}}
  \cup {<<237, b, c, 237, d, e>> : b \in {159, 160, 175, 176}, c \in {128, 191}, d \in {159, 175, 176, 191, 192}, e \in {127, 128, 191}}
  \cup {<<237, 160, 189>> \o t : t \in {<<>>, <<97>>, <<237>>, <<237, 184>>, <<236, 184, 128>>, <<237, 160, 189>>, <<237, 184, 128, 237, 184, 128>>}}
  \cup {<<194, 162, 65>>, <<192, 128, 237, 160, 189, 237, 184, 128, 192, 128>>, <<97, 194>>, <<97, 225, 128>>, <<97, 237, 160, 189, 237, 184>>,
        <<195, 169>> \o Rep(70, 120), Rep(70, 120) \o <<192, 128>>, Rep(70, 120) \o <<237, 160, 128>> }
EncPositions(s) ==
  LET k == MkKit(XSrc(s) \o <<U("ConstantValue"), U("SourceFile"), Ref("sX", 8, <<"X">>)>>, 61)
      lit == FileK(k, "cA", "", <<MemberK(k, 1, "foo", "I", <<AttrK(k, "ConstantValue", E2(N(k, "sX")))>>)>>, <<>>, <<>>)
      txt == FileK(k, "cA", "", <<>>, <<>>, <<AttrK(k, "SourceFile", E2(N(k, "X")))>>)
  IN <<Case(lit, "v", "C06"), Case(lit, "p", "C06"), Case(txt, "v", "C06"), Case(txt, "p", "C06")>>
EncCases(x) == Cat(CasesFor(EncStrs, EncPositions))
(* An unusable string is harmless while nothing but literals uses it.      *)
EncUses(x) ==
  LET s == <<97, 237, 160, 128>> IN
  <<XFile(s, <<>>, "C06")>> \o NamePositions(s) \o DescPositions(s)
  \o << LET k == MkKit(XSrc(s), 61) IN Case(FileK(k, "cA", "", <<>>, <<>>, <<AttrK(k, "X", <<>>)>>), "v", "C06,C13") >>
=============================================================================
