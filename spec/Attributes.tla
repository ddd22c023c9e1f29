----------------------------- MODULE Attributes -----------------------------
(***************************************************************************)
(* Attributes, JVMS 4.7.  The formats are data: terms of a small format    *)
(* language, interpreted here by a reader (Rd) and in Gen.tla by a writer  *)
(* that enumerates conforming and deviating encodings.                     *)
(*                                                                         *)
(* Format terms (what they read -> what is reported):                      *)
(*   <<"u1">> <<"u2">>            unsigned number                          *)
(*   <<"cp", kind>>               pool index of that kind -> its denotation*)
(*   <<"opt", kind>>              the same or index 0 -> <<x>> or <<>>     *)
(*   <<"flags", mask>>            u2 -> the bits in mask                   *)
(*   <<"sflags", mask>>           u2 within mask, otherwise rejected       *)
(*   <<"seq", f1, .., fn>>        all of them -> tuple of what they report *)
(*   <<"as", name, f1, .., fn>>   the same with the name in front          *)
(*   <<"rep1", f>> <<"rep2", f>>  u1/u2 count, then that many -> tuple     *)
(*   <<"repn", n, f>>             exactly n -> tuple                       *)
(*   <<"sw", t>>                  a byte that selects a format in table t  *)
(*   <<"const", x>>               nothing -> x                             *)
(*   <<"ev0">> <<"ev">>           element value, the same one level deeper *)
(*   <<"ann">> <<"annv">>         annotation, the same one level deeper    *)
(*   <<"attrs">> <<"code">>       attribute table, Code contents           *)
(***************************************************************************)
EXTENDS Bytecode

MaxAttrDepth == 16        \* limits of the implementation on nesting; no valid
MaxValueDepth == 64       \* class file comes near them

(* ---- pool index kinds ---- *)
NAMELIKE == {"utf8", "uqname", "fdesc", "rdesc"}
KindOk(pool, i, kind) ==
  /\ i < Len(pool)
  /\ CASE kind = "utf8" -> IsText(pool, i)
       [] kind = "uqname" -> IsText(pool, i) /\ IsUnqualifiedName(Txt(pool, i))
       [] kind = "fdesc" -> IsText(pool, i) /\ IsFieldDesc(Txt(pool, i))
       [] kind = "rdesc" -> IsText(pool, i) /\ IsReturnDesc(Txt(pool, i))
       [] kind = "class" -> At(pool, i).t = CLASS
       [] kind = "module" -> At(pool, i).t = MODULE_
       [] kind = "package" -> At(pool, i).t = PACKAGE_
       [] kind = "nat" -> At(pool, i).t = NAT
       [] kind = "literal" -> At(pool, i).t \in LITERALS
       [] kind = "loadable" -> At(pool, i).t \in LOADABLE
       [] kind = "handle" -> At(pool, i).t = MHANDLE
       [] kind = "int" -> At(pool, i).t = INT
       [] kind = "float" -> At(pool, i).t = FLOAT
       [] kind = "long" -> At(pool, i).t = LONG
       [] kind = "double" -> At(pool, i).t = DOUBLE
KindVal(pool, i, kind) ==
  CASE kind \in {"utf8", "uqname", "rdesc"} -> TextOf(pool, i)
    [] kind = "fdesc" -> FieldDescV(At(pool, i).s)
    [] kind \in {"class", "module", "package"} -> ClassOf(pool, i)
    [] kind = "nat" -> NatOf(pool, i)
    [] kind = "literal" -> LiteralOf(pool, At(pool, i))
    [] kind = "loadable" -> LoadableOf(pool, At(pool, i))
    [] kind = "handle" -> Tail(HandleOf(pool, At(pool, i)))
    [] kind = "int" -> At(pool, i).w[1]
    [] kind \in {"float", "long", "double"} -> At(pool, i).w

(* ---- formats ---- *)
U1F == <<"u1">>
U2F == <<"u2">>
Cp(k) == <<"cp", k>>
Opt(k) == <<"opt", k>>

PUBLIC == 1 PRIVATE == 2 PROTECTED == 4 STATIC == 8 FINAL == 16 SUPER == 32
VOLATILE == 64 TRANSIENT == 128 NATIVE == 256 INTERFACE == 512 ABSTRACT == 1024
STRICT == 2048 SYNTHETIC == 4096 ANNOTATION == 8192 ENUM == 16384 MANDATED == 32768
ClassMask == PUBLIC + FINAL + SUPER + INTERFACE + ABSTRACT + SYNTHETIC + ANNOTATION + ENUM + MANDATED
FieldMask == PUBLIC + PRIVATE + PROTECTED + STATIC + FINAL + VOLATILE + TRANSIENT + SYNTHETIC + ENUM
MethodMask == PUBLIC + PRIVATE + PROTECTED + STATIC + FINAL + SUPER + VOLATILE + TRANSIENT
              + NATIVE + ABSTRACT + STRICT + SYNTHETIC
InnerMask == PUBLIC + PRIVATE + PROTECTED + STATIC + FINAL + INTERFACE + ABSTRACT + SYNTHETIC + ANNOTATION + ENUM
ParamMask == FINAL + SYNTHETIC + MANDATED
ModuleMask == SUPER + SYNTHETIC + MANDATED                 \* 0x20 is OPEN here
RequiresMask == SUPER + VOLATILE + SYNTHETIC + MANDATED    \* TRANSITIVE, STATIC_PHASE
ExportsMask == SYNTHETIC + MANDATED

VTypeF == <<"sw",
  Fun([t \in 0..8 |-> CASE t = 0 -> <<"as", "Top">> [] t = 1 -> <<"as", "Integer">> [] t = 2 -> <<"as", "Float">>
                    [] t = 3 -> <<"as", "Double">> [] t = 4 -> <<"as", "Long">> [] t = 5 -> <<"as", "Null">>
                    [] t = 6 -> <<"as", "UninitializedThis">>
                    [] t = 7 -> <<"as", "Object", Cp("class")>>
                    [] t = 8 -> <<"as", "Uninitialized", U2F>>])>>

FrameF == <<"sw",
  Fun([t \in 0..127 \cup 247..255 |->
     CASE t <= 63 -> <<"as", "Same", <<"const", t>>>>
       [] t \in 64..127 -> <<"as", "SameLocals1StackItem", <<"const", t - 64>>, VTypeF>>
       [] t = 247 -> <<"as", "SameLocals1StackItem", U2F, VTypeF>>
       [] t \in 248..250 -> <<"as", "Chop", U2F, <<"const", 251 - t>>>>
       [] t = 251 -> <<"as", "Same", U2F>>
       [] t \in 252..254 -> <<"as", "Append", U2F, <<"repn", t - 251, VTypeF>>>>
       [] t = 255 -> <<"as", "FullFrame", U2F, <<"rep2", VTypeF>>, <<"rep2", VTypeF>>>>])>>

(* Element values: B C D F I J S Z s e c @ [                               *)
EvTable ==
  Fun([t \in {66, 67, 68, 70, 73, 74, 83, 90, 115, 101, 99, 64, 91} |->
     CASE t = 66 -> <<"as", "Byte", Cp("int")>>
       [] t = 67 -> <<"as", "Char", Cp("int")>>
       [] t = 68 -> <<"as", "Double", Cp("double")>>
       [] t = 70 -> <<"as", "Float", Cp("float")>>
       [] t = 73 -> <<"as", "Int", Cp("int")>>
       [] t = 74 -> <<"as", "Long", Cp("long")>>
       [] t = 83 -> <<"as", "Short", Cp("int")>>
       [] t = 90 -> <<"as", "Boolean", Cp("int")>>
       [] t = 115 -> <<"as", "String", Cp("utf8")>>
       [] t = 101 -> <<"as", "Enum", Cp("fdesc"), Cp("utf8")>>
       [] t = 99 -> <<"as", "Class", Cp("rdesc")>>
       [] t = 64 -> <<"as", "Annotation", <<"annv">>>>
       [] t = 91 -> <<"as", "Array", <<"rep2", <<"ev">>>>>>])
AnnBodyF == <<"seq", Cp("fdesc"), <<"rep2", <<"seq", Cp("utf8"), <<"ev0">>>>>>>>

TargetF == <<"sw",
  Fun([t \in {0, 1} \cup 16..23 \cup 64..75 |->
     CASE t \in {0, 1} -> <<"as", "TypeParameter", U1F>>
       [] t = 16 -> <<"as", "Supertype", U2F>>
       [] t \in {17, 18} -> <<"as", "TypeParameterBound", U1F, U1F>>
       [] t \in 19..21 -> <<"as", "Empty">>
       [] t = 22 -> <<"as", "FormalParameter", U1F>>
       [] t = 23 -> <<"as", "Throws", U2F>>
       [] t \in {64, 65} -> <<"as", "LocalVar", <<"rep2", <<"seq", U2F, U2F, U2F>>>>>>
       [] t = 66 -> <<"as", "Catch", U2F>>
       [] t \in 67..70 -> <<"as", "Offset", U2F>>
       [] t \in 71..75 -> <<"as", "TypeArgument", U2F, U1F>>])>>
PathF == <<"rep1", <<"seq", <<"sw", Fun([t \in 0..3 |-> <<"const",
             <<"DeeperArray", "DeeperNested", "WildcardTypeArgument", "TypeArgument">>[t+1]>>])>>, U1F>>>>

AnnsF == <<"rep2", <<"ann">>>>
PAnnsF == <<"rep1", AnnsF>>
TAnnsF == <<"rep2", <<"seq", TargetF, PathF, <<"ann">>>>>>
ModuleF == <<"seq", Cp("module"), <<"sflags", ModuleMask>>, Opt("utf8"),
   <<"rep2", <<"seq", Cp("module"), <<"sflags", RequiresMask>>, Opt("utf8")>>>>,
   <<"rep2", <<"seq", Cp("package"), <<"sflags", ExportsMask>>, <<"rep2", Cp("module")>>>>>>,
   <<"rep2", <<"seq", Cp("package"), <<"sflags", ExportsMask>>, <<"rep2", Cp("module")>>>>>>,
   <<"rep2", Cp("class")>>,
   <<"rep2", <<"seq", Cp("class"), <<"rep2", Cp("class")>>>>>>>>

(* Attribute name -> format of its contents.  Every format is an "as" term *)
(* whose name is the attribute's.                                          *)
Named(n, f) == << n, <<"as", n, f>> >>
AttrList == <<
   Named("ConstantValue", Cp("literal")),
   Named("Code", <<"code">>),
   Named("StackMapTable", <<"rep2", FrameF>>),
   Named("Exceptions", <<"rep2", Cp("class")>>),
   Named("InnerClasses", <<"rep2", <<"seq", Cp("class"), Opt("class"), Opt("utf8"), <<"flags", InnerMask>>>>>>),
   Named("EnclosingMethod", <<"seq", Cp("class"), Opt("nat")>>),
   << "Synthetic", <<"as", "Synthetic">> >>,
   Named("Signature", Cp("utf8")),
   Named("SourceFile", Cp("utf8")),
   Named("SourceDebugExtension", <<"rawtext">>),
   Named("LineNumberTable", <<"rep2", <<"seq", U2F, U2F>>>>),
   Named("LocalVariableTable", <<"rep2", <<"seq", U2F, U2F, Cp("uqname"), Cp("fdesc"), U2F>>>>),
   Named("LocalVariableTypeTable", <<"rep2", <<"seq", U2F, U2F, Cp("uqname"), Cp("utf8"), U2F>>>>),
   << "Deprecated", <<"as", "Deprecated">> >>,
   Named("RuntimeVisibleAnnotations", AnnsF),
   Named("RuntimeInvisibleAnnotations", AnnsF),
   Named("RuntimeVisibleParameterAnnotations", PAnnsF),
   Named("RuntimeInvisibleParameterAnnotations", PAnnsF),
   Named("RuntimeVisibleTypeAnnotations", TAnnsF),
   Named("RuntimeInvisibleTypeAnnotations", TAnnsF),
   Named("AnnotationDefault", <<"ev0">>),
   Named("BootstrapMethods", <<"rep2", <<"seq", Cp("handle"), <<"rep2", Cp("loadable")>>>>>>),
   Named("MethodParameters", <<"rep1", <<"seq", Opt("uqname"), <<"sflags", ParamMask>>>>>>),
   Named("Module", ModuleF),
   Named("ModulePackages", <<"rep2", Cp("package")>>),
   Named("ModuleMainClass", Cp("class")),
   Named("NestHost", Cp("class")),
   Named("NestMembers", <<"rep2", Cp("class")>>),
   Named("PermittedSubclasses", <<"rep2", Cp("class")>>),
   Named("Record", <<"rep2", <<"seq", Cp("uqname"), Cp("fdesc"), <<"attrs">>>>>>) >>
AttrNames == {Asc(AttrList[i][1]) : i \in 1..Len(AttrList)}
AttrFormat == Fun([n \in AttrNames |-> AttrList[CHOOSE i \in 1..Len(AttrList) : Asc(AttrList[i][1]) = n][2]])

ExcF == <<"seq", U2F, U2F, U2F, Opt("class")>>

(* Static size of a format in bytes, -1 if it varies.                      *)
RECURSIVE Size(_)
Size(f) ==
  LET RECURSIVE Sum(_)
      Sum(i) == IF i > Len(f) THEN 0
                ELSE LET a == Size(f[i])
                         r == Sum(i+1)
                     IN IF a < 0 \/ r < 0 THEN -1 ELSE a + r
  IN CASE f[1] = "u1" -> 1
       [] f[1] \in {"u2", "cp", "opt", "flags", "sflags"} -> 2
       [] f[1] = "const" -> 0
       [] f[1] = "seq" -> Sum(2)
       [] OTHER -> -1

(* ---- the reader ----                                                    *)
(* c: [b |-> input, pool |-> pool, bc |-> decode bytecode, lk |-> lookups] *)
(* ad, vd: nesting depth of attributes and of element values.              *)
RECURSIVE Rd(_, _, _, _, _)
RECURSIVE RdAll(_, _, _, _, _, _)
RECURSIVE RdRep(_, _, _, _, _, _)
RECURSIVE RdAttrs(_, _, _)
RECURSIVE RdCode(_, _, _)

(* f[i], f[i+1], .. f[Len(f)] one after the other.                         *)
RdAll(f, i, c, ix, ad, vd) ==
  IF i > Len(f) THEN OK(ix, <<>>)
  ELSE LET h == Rd(f[i], c, ix, ad, vd)
       IN IF ~h.ok THEN FAIL
          ELSE LET t == RdAll(f, i+1, c, h.ix, ad, vd)
               IN IF ~t.ok THEN FAIL ELSE OK(t.ix, <<h.v>> \o t.v)

(* n of the same.                                                          *)
RdRep(f, n, c, ix, ad, vd) ==
  IF n = 0 THEN OK(ix, <<>>)
  ELSE IF n = 1
       THEN LET r == Rd(f, c, ix, ad, vd) IN IF r.ok THEN OK(r.ix, <<r.v>>) ELSE FAIL
       ELSE LET l == RdRep(f, n \div 2, c, ix, ad, vd)
            IN IF ~l.ok THEN FAIL
               ELSE LET r == RdRep(f, n - (n \div 2), c, l.ix, ad, vd)
                    IN IF r.ok THEN OK(r.ix, l.v \o r.v) ELSE FAIL

RdN(f, n, c, ix, ad, vd) ==
  LET sz == Size(f) IN
  IF sz < 1 \/ n < 2 THEN RdRep(f, n, c, ix, ad, vd)
  ELSE IF ix + sz * n > Len(c.b) THEN FAIL
  ELSE LET rs == Tup([i \in 1..n |-> Rd(f, c, ix + sz * (i-1), ad, vd)])
       IN IF \A i \in 1..n : rs[i].ok THEN OK(ix + sz * n, Tup([i \in 1..n |-> rs[i].v])) ELSE FAIL

Rd(f, c, ix, ad, vd) ==
  LET b == c.b
      L == Len(b)
      h == f[1]
  IN CASE h = "u1" -> IF Has(L, ix, 1) THEN OK(ix+1, U1(b, ix)) ELSE FAIL
       [] h = "u2" -> IF Has(L, ix, 2) THEN OK(ix+2, U2(b, ix)) ELSE FAIL
       [] h = "cp" -> IF Has(L, ix, 2) /\ KindOk(c.pool, U2(b, ix), f[2])
                      THEN OK(ix+2, KindVal(c.pool, U2(b, ix), f[2])) ELSE FAIL
       [] h = "opt" -> IF ~Has(L, ix, 2) THEN FAIL
                       ELSE IF U2(b, ix) = 0 THEN OK(ix+2, <<>>)
                       ELSE IF KindOk(c.pool, U2(b, ix), f[2])
                            THEN OK(ix+2, <<KindVal(c.pool, U2(b, ix), f[2])>>) ELSE FAIL
       [] h = "flags" -> IF Has(L, ix, 2) THEN OK(ix+2, U2(b, ix) & f[2]) ELSE FAIL
       [] h = "sflags" -> IF Has(L, ix, 2) /\ (U2(b, ix) & f[2]) = U2(b, ix)
                          THEN OK(ix+2, U2(b, ix)) ELSE FAIL
       [] h = "const" -> OK(ix, f[2])
       [] h = "seq" -> RdAll(f, 2, c, ix, ad, vd)
       [] h = "as" -> LET r == RdAll(f, 3, c, ix, ad, vd)
                      IN IF r.ok THEN OK(r.ix, <<f[2]>> \o r.v) ELSE FAIL
       [] h = "rep1" -> IF Has(L, ix, 1) THEN RdN(f[2], U1(b, ix), c, ix+1, ad, vd) ELSE FAIL
       [] h = "rep2" -> IF Has(L, ix, 2) THEN RdN(f[2], U2(b, ix), c, ix+2, ad, vd) ELSE FAIL
       [] h = "repn" -> RdN(f[3], f[2], c, ix, ad, vd)
       [] h = "sw" -> IF Has(L, ix, 1) /\ U1(b, ix) \in DOMAIN f[2]
                      THEN Rd(f[2][U1(b, ix)], c, ix+1, ad, vd) ELSE FAIL
       [] h = "ev0" ->                         \* an element value at the current depth
            IF vd > MaxValueDepth \/ ~Has(L, ix, 1) THEN FAIL
            ELSE IF U1(b, ix) \notin DOMAIN EvTable THEN FAIL
            ELSE Rd(EvTable[U1(b, ix)], c, ix+1, ad, vd)
       [] h = "ev" -> Rd(<<"ev0">>, c, ix, ad, vd+1)      \* an element of an array
       [] h = "ann" -> Rd(AnnBodyF, c, ix, ad, vd)
       [] h = "annv" -> Rd(AnnBodyF, c, ix, ad, vd+1)     \* an annotation as a value
       [] h = "attrs" -> RdAttrs(c, ix, ad+1)
       [] h = "code" -> RdCode(c, ix, ad)

(* One attribute at ix: name index, length, contents.                      *)
RdAttr(c, ix, ad) ==
  LET b == c.b
      L == Len(b)
  IN IF ~Has(L, ix, 6) \/ ~KindOk(c.pool, U2(b, ix), "utf8") THEN FAIL
     ELSE LET s == At(c.pool, U2(b, ix)).s
              len == U4len(b, ix+2)
              start == ix + 6
              nm == StrV(s)
          IN IF len > L - start THEN FAIL
             ELSE IF s.s \notin AttrNames
                  THEN OK(start + len, <<nm, "Other", SliceV(start, len)>>)
             ELSE IF AttrFormat[s.s][2] = "SourceDebugExtension"
                  THEN LET d == DecodeString(Slice(b, start, len), start, s.m)
                       IN IF d.k = "x" THEN FAIL
                          ELSE OK(start + len, <<nm, "SourceDebugExtension", StrV(d)>>)
             ELSE LET r == Rd(AttrFormat[s.s], c, start, ad, 0)
                  IN IF r.ok /\ r.ix = start + len THEN OK(r.ix, <<nm>> \o r.v) ELSE FAIL

RECURSIVE RdAttrN(_, _, _, _)
RdAttrN(c, ix, n, ad) ==
  IF n = 0 THEN OK(ix, <<>>)
  ELSE IF n = 1 THEN LET r == RdAttr(c, ix, ad) IN IF r.ok THEN OK(r.ix, <<r.v>>) ELSE FAIL
  ELSE LET l == RdAttrN(c, ix, n \div 2, ad)
       IN IF ~l.ok THEN FAIL
          ELSE LET r == RdAttrN(c, l.ix, n - (n \div 2), ad)
               IN IF r.ok THEN OK(r.ix, l.v \o r.v) ELSE FAIL

RdAttrs(c, ix, ad) ==
  IF ad > MaxAttrDepth \/ ~Has(Len(c.b), ix, 2) THEN FAIL
  ELSE RdAttrN(c, ix+2, U2(c.b, ix), ad)

RdCode(c, ix, ad) ==
  LET b == c.b
      L == Len(b)
  IN IF ~Has(L, ix, 8) THEN FAIL
     ELSE LET len == U4len(b, ix+4)
              cs == ix + 8
          IN IF len > L - cs THEN FAIL
             ELSE LET ex == Rd(<<"rep2", ExcF>>, c, cs + len, ad, 0)
                  IN IF ~ex.ok THEN FAIL
                     ELSE LET at == RdAttrs(c, ex.ix, ad+1)
                          IN IF ~at.ok THEN FAIL
                             ELSE LET bc == IF c.bc THEN DecodeCode(b, c.pool, cs, cs + len, c.lk)
                                            ELSE OK(0, <<>>)
                                  IN IF ~bc.ok THEN FAIL
                                     ELSE OK(at.ix, <<U2(b, ix), U2(b, ix+2), SliceV(cs, len),
                                                      IF c.bc THEN <<bc.v>> ELSE <<>>, ex.v, at.v>>)
=============================================================================
