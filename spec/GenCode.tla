------------------------------- MODULE GenCode -------------------------------
(***************************************************************************)
(* Code arrays: every opcode with every form of operand, at every          *)
(* alignment, complete and cut short; jumps of every form to every place;  *)
(* random instruction sequences; nesting of annotations and attributes.    *)
(***************************************************************************)
EXTENDS GenClass

CodeAttr(code) == Attr("Code", CodeBody(code, <<>>, <<>>))
InCode(code, m, p) == Case(Class(<<>>, <<Member(1, "bar", "()V", <<CodeAttr(code)>>)>>, <<Boot>>), m, p)
Nops(n) == Rep(n, 0)
OpForm(op) == OpTable[op][2]
OpsOf(form) == SortedNums({op \in DOMAIN OpTable : OpForm(op) = form})
DefinedOps == SortedNums(DOMAIN OpTable)

Small(i) == IF i < 256 THEN i ELSE i % 256     \* (an index that fits one byte)
U1s == <<0, 1, 2, 127, 128, 129, 255>>
U2s == <<0, 1, 127, 128, 255, 256, 257, 32767, 32768, 32769, 65280, 65535>>
(* a few indices of every kind of entry that fit one byte *)
CodeProbes == SelectSeq(Probes, LAMBDA z : TRUE)
ByteProbes == SelectSeq(Probes, LAMBDA z : z < 256) \o <<255>>

SwitchExtremes == <<0, 1, -1, 2, -2, 3, 100, -100>>
E4s(n) == IF n >= 0 THEN E4(n) ELSE LET m == -(n + 1) IN [j \in 1..4 |-> 255 - E4(m)[j]]
BigInts == << <<127, 255, 255, 255>>, <<128, 0, 0, 0>>, <<255, 255, 255, 255>>, <<127, 255, 255, 254>>, <<128, 0, 0, 1>>, <<0, 1, 0, 0>>, <<0, 0, 255, 255>>,
              <<255, 255, 0, 0>>, <<63, 255, 255, 255>>, <<64, 0, 0, 0>>, <<192, 0, 0, 0>>, <<32, 0, 0, 0>>, <<16, 0, 0, 0>> >>
Pad(at) == Nops((4 - ((at + 1) % 4)) % 4)
(* a tableswitch and a lookupswitch that start at code offset `at`; the jumps are 4-byte strings *)
TSw(at, default, low, high, jumps) == <<170>> \o Pad(at) \o default \o low \o high \o Cat(jumps)
LSw(at, default, npairs, pairs) == <<171>> \o Pad(at) \o default \o npairs \o Cat(pairs)

(* Operands (after the opcode) that exercise a form, jumps to offset 0 of  *)
(* the instruction itself.                                                 *)
Operands(op) ==
  LET form == OpForm(op) IN
  CASE form \in {"none", "implied"} -> << <<>> >>
    [] form \in {"s1", "local"} -> E1s(U1s)
    [] form = "s2" -> E2s(U2s)
    [] form = "iinc" -> Cat([i \in 1..Len(U1s) |-> [j \in 1..Len(U1s) |-> <<U1s[i], U1s[j]>>]])
    [] form = "ldc1" -> E1s(ByteProbes)
    [] form \in {"ldc2", "field", "method", "anymethod", "class", "type"} -> E2s(CodeProbes)
    [] form = "imethod" -> Cat([i \in 1..Len(CodeProbes) |-> << E2(CodeProbes[i]) \o <<1, 0>> >>])
                           \o [i \in 1..256 |-> E2(K("imeth2")) \o <<i - 1, 0>>]
                           \o [i \in 1..256 |-> E2(K("imeth")) \o <<2, i - 1>>]
    [] form = "indy" -> [i \in 1..Len(CodeProbes) |-> E2(CodeProbes[i]) \o <<0, 0>>]
                        \o [i \in 1..256 |-> E2(K("indy")) \o <<0, i - 1>>] \o [i \in 1..256 |-> E2(K("indy2")) \o <<i - 1, 0>>]
    [] form = "multi" -> [i \in 1..Len(CodeProbes) |-> E2(CodeProbes[i]) \o <<2>>] \o [i \in 1..256 |-> E2(K("cArr2")) \o <<i - 1>>]
                         \o [i \in 1..Len(U1s) |-> E2(K("cArr")) \o <<U1s[i]>>] \o [i \in 1..Len(U1s) |-> E2(K("cB")) \o <<U1s[i]>>]
    [] form = "prim" -> [i \in 1..256 |-> <<i - 1>>]
    [] form = "jump2" -> << <<0, 0>> >>
    [] form = "jump4" -> << <<0, 0, 0, 0>> >>
    [] form = "wide" -> Cat([w \in 1..256 |-> << <<w - 1, 1, 2>>, <<w - 1, 255, 254, 128, 1>>, <<w - 1, 0, 0, 127, 255>> >>])
                        \o Cat([i \in 1..Len(U2s) |-> << <<21>> \o E2(U2s[i]), <<58>> \o E2(U2s[i]), <<169>> \o E2(U2s[i]), <<132>> \o E2(U2s[i]) \o E2(7), <<132>> \o E2(7) \o E2(U2s[i]) >>])
    [] OTHER -> <<>>

OpcodeCases(x) ==
  \* every opcode byte in front of bytes that could be its operands, and alone
  Cat([o \in 1..256 |-> Cat([n \in 1..7 |->
      << InCode(<<o - 1>> \o Nops(n - 1), "a", "C20"), InCode(<<o - 1>> \o SubSeq(<<0, 1, 0, 1, 0, 0>>, 1, n - 1) \o <<RETURN_>>, "a", "C20") >>])])
  \o Cat([i \in 1..Len(DefinedOps) |-> LET op == DefinedOps[i]
                                           os == Operands(op)
       IN Cat([j \in 1..Len(os) |-> LET c == <<op>> \o os[j] IN
            << InCode(c, "a", "C20") >>
            \o (IF j <= 3 THEN << InCode(<<RETURN_>> \o c \o <<RETURN_>>, "a", "C20"), InCode(c \o c \o <<87>>, "a", "C20"), InCode(<<4, 4>> \o c, "p", "C20") >> ELSE <<>>)
            \o (IF j <= 2 THEN [t \in 1..Len(c) - 1 |-> InCode(<<3>> \o SubSeq(c, 1, t), "a", "C20")] ELSE <<>>)])])
  \o [b \in 1..6 |-> InCode((<< <<>>, <<177>>, <<0>>, <<255>>, <<196>>, <<196, 196>> >>)[b], "a", "C20")]
  \o [b \in 1..6 |-> InCode((<< <<>>, <<177>>, <<0>>, <<255>>, <<196>>, <<196, 196>> >>)[b], "n", "C20,C23")]

SwitchCases(x) ==
  LET zero == <<0, 0, 0, 0>>
      jump(i) == zero
      ts(at, low, high, n) == Nops(at) \o TSw(at, zero, low, high, [i \in 1..n |-> zero]) 
      ls(at, np, n, key(_)) == Nops(at) \o LSw(at, zero, np, [i \in 1..n |-> key(i) \o zero])
      keys(i) == (<< E4s(1), E4s(-1), <<127, 255, 255, 255>>, <<128, 0, 0, 0>>, E4s(1), E4s(0), E4s(256) >>)[1 + (i % 7)]
  IN \* alignment and number of targets
     Cat([at \in 1..9 |-> Cat([n \in 1..5 |->
       << InCode(ts(at-1, E4s(3), E4s(3 + n - 2), n - 1), "a", "C20"), InCode(ts(at-1, E4s(-2), E4s(-2 + n - 1), n) \o <<RETURN_>>, "a", "C20"),
          InCode(ts(at-1, E4s(-1), E4s(n - 2), n) \o <<4, 172>>, "l", "C20,C22"),
          InCode(ls(at-1, E4(n - 1), n - 1, keys), "a", "C20"), InCode(ls(at-1, E4(n - 1), n - 1, keys) \o <<4, 172>>, "l", "C20,C22"),
          InCode(ls(at-1, E4(n), n - 1, keys), "a", "C20"), InCode(ts(at-1, E4s(0), E4s(n - 1), n - 1), "a", "C20"), InCode(ts(at-1, E4s(0), E4s(n - 1), n - 1) \o <<0, 0, 0>>, "a", "C20") >>])])
     \* bounds
     \o Cat([i \in 1..Len(SwitchExtremes) |-> [j \in 1..Len(SwitchExtremes) |-> InCode(ts(2, E4s(SwitchExtremes[i]), E4s(SwitchExtremes[j]), 4) \o <<0, 0>>, "a", "C20")]])
     \o Cat([i \in 1..Len(BigInts) |-> Cat([j \in 1..Len(BigInts) |-> << InCode(ts(1, BigInts[i], BigInts[j], 1), "a", "C20"), InCode(ts(0, BigInts[i], BigInts[j], 2), "a", "C20") >>])])
     \o Cat([i \in 1..Len(BigInts) |-> Cat([j \in 1..Len(SwitchExtremes) |->
          << InCode(ts(1, BigInts[i], E4s(SwitchExtremes[j]), 2), "a", "C20"), InCode(ts(1, E4s(SwitchExtremes[j]), BigInts[i], 2), "a", "C20") >>])])
     \o Cat([i \in 1..Len(BigInts) |-> << InCode(ls(1, BigInts[i], 2, keys), "a", "C20"), InCode(ls(0, BigInts[i], 0, keys), "a", "C20") >>])
     \* padding that is not zero, truncation at every byte
     \o Cat([at \in 1..4 |-> LET t == ts(at-1, E4s(0), E4s(1), 2)
                                 l == ls(at-1, E4s(2), 2, keys)
          IN [n \in 1..Len(t) - at |-> InCode(SubSeq(t, 1, at + n - 1), "a", "C20")] \o [n \in 1..Len(l) - at |-> InCode(SubSeq(l, 1, at + n - 1), "a", "C20")]
             \o << InCode(Nops(at-1) \o <<170>> \o Map(Pad(at-1), LAMBDA z : 255) \o zero \o E4s(0) \o E4s(0) \o zero, "a", "C20"),
                   InCode(Nops(at-1) \o <<171>> \o Map(Pad(at-1), LAMBDA z : 1) \o zero \o E4s(0), "a", "C20") >>])
     \* two switches after one another, each with its own alignment
     \o Cat([at \in 1..4 |-> LET t == ts(at-1, E4s(5), E4s(6), 2)
                                 l == ls(at-1, E4s(1), 1, keys)
          IN << InCode(t \o TSw(Len(t), zero, E4s(0), E4s(0), <<zero>>), "a", "C20"), InCode(l \o <<4>> \o LSw(Len(l) + 1, zero, E4s(1), <<keys(2) \o zero>>), "a", "C20"),
                InCode(t \o <<17, 1, 1>> \o LSw(Len(t) + 3, zero, E4s(0), <<>>), "l", "C20,C22") >>])

(* ---- C21: jumps ---- *)
(* filler instructions around the jump: lengths 1, 2, 3, 1, 5, 6, 1 *)
Before == <<4, 16, 9, 17, 1, 2, 87>>
Behind == <<3, 18, Small(K("i1")), 196, 21, 0, 5, 132, 1, 1, 185>> \o E2(K("imeth")) \o <<1, 0, RETURN_>>
JumpTargets(at, len) == SetSeq((-(at + 4)..(len - at + 4)) \cup {-at - 256, len + 256, 32767, -32768, 16384, -129, 127})
Far4 == BigInts \o << E4s(65536), E4s(-65536), E4s(32768), E4s(-32769), E4s(131072), E4s(65536 + 3), <<1, 0, 0, 0>>, <<255, 0, 0, 0>> >>
Jump2Ops == OpsOf("jump2")
Jump4Ops == OpsOf("jump4")
Around(b, mid, e) == b \o mid \o e
JumpCases(x) ==
  LET spots == << << <<>>, Behind >>, << Before, Behind >>, << Before, <<>> >>, << <<>>, <<>> >>, << Before \o Before, <<RETURN_>> >> >>
      two(op, s, all) ==
        LET at == Len(s[1]) len == at + 3 + Len(s[2]) ts == JumpTargets(at, len) IN
        [i \in 1..Len(ts) |-> InCode(Around(s[1], <<op>> \o E2(ts[i] % 65536), s[2]), "a", "C21")]
      four(op, s) ==
        LET at == Len(s[1]) len == at + 5 + Len(s[2]) ts == JumpTargets(at, len) IN
        [i \in 1..Len(ts) |-> InCode(Around(s[1], <<op>> \o E4s(ts[i]), s[2]), "a", "C21")]
        \o [i \in 1..Len(Far4) |-> InCode(Around(s[1], <<op>> \o Far4[i], s[2]), "a", "C21")]
      \* which: 0 the default, j the j-th of three targets
      swt(s, which, mk(_, _)) ==
        LET at == Len(s[1]) len == at + Len(mk(at, <<0,0,0,0>>)) + Len(s[2]) ts == JumpTargets(at, len) IN
        [i \in 1..Len(ts) |-> InCode(Around(s[1], mk(at, E4s(ts[i])), s[2]), "a", "C21")]
        \o [i \in 1..Len(Far4) |-> InCode(Around(s[1], mk(at, Far4[i]), s[2]), "a", "C21")]
      z == <<0, 0, 0, 0>>
  IN Cat([s \in 1..Len(spots) |-> Cat([o \in 1..Len(Jump2Ops) |-> IF s = 2 \/ (s + o) % 5 = 0 THEN two(Jump2Ops[o], spots[s], TRUE) ELSE <<>>])
                                  \o Cat([o \in 1..Len(Jump4Ops) |-> four(Jump4Ops[o], spots[s])])
                                  \o swt(spots[s], 0, LAMBDA at, t : TSw(at, t, E4s(-1), E4s(1), <<z, z, z>>))
                                  \o swt(spots[s], 1, LAMBDA at, t : TSw(at, z, E4s(-1), E4s(1), <<t, z, z>>))
                                  \o swt(spots[s], 2, LAMBDA at, t : TSw(at, z, E4s(-1), E4s(1), <<z, t, z>>))
                                  \o swt(spots[s], 3, LAMBDA at, t : TSw(at, z, E4s(-1), E4s(1), <<z, z, t>>))
                                  \o swt(spots[s], 0, LAMBDA at, t : LSw(at, t, E4(3), <<E4s(0) \o z, E4s(1) \o z, E4s(2) \o z>>))
                                  \o swt(spots[s], 1, LAMBDA at, t : LSw(at, z, E4(3), <<E4s(0) \o t, E4s(1) \o z, E4s(2) \o z>>))
                                  \o swt(spots[s], 2, LAMBDA at, t : LSw(at, z, E4(3), <<E4s(0) \o z, E4s(1) \o t, E4s(2) \o z>>))
                                  \o swt(spots[s], 3, LAMBDA at, t : LSw(at, z, E4(3), <<E4s(0) \o z, E4s(1) \o z, E4s(2) \o t>>))
                                  \o swt(spots[s], 0, LAMBDA at, t : LSw(at, t, E4(0), <<>>))])
(* Code so long that offsets and jumps leave 15 and 16 bits: the filler is *)
(* one big tableswitch.                                                    *)
LongCode(pre, n, post) ==
  LET at == Len(pre) IN
  pre \o TSw(at, <<0, 0, 0, 0>>, E4s(1), E4s(n), [i \in 1..n |-> <<0, 0, 0, 0>>]) \o post
LongTop(at, n) == at + 1 + Len(Pad(at)) + 12 + 4 * n      \* the offset after it
LongJumpCases(x) ==
  LET g2(op, t) == <<op>> \o E2(t % 65536)
      g4(op, t) == <<op>> \o E4s(t)
      back(n, ts, mk(_)) == [i \in 1..Len(ts) |-> InCode(LongCode(<<4, 4>>, n, mk(ts[i] - LongTop(2, n)) \o <<RETURN_>>), "a", "C21")]
      \* forwards over the filler: the jump comes first
      fwd(n, ts, mk(_), w) == [i \in 1..Len(ts) |-> InCode(LongCode(mk(ts[i]) \o <<4>>, n, <<4, 16, 3, RETURN_>>), "a", "C21")]
      at3(n) == LongTop(4, n)
      at5(n) == LongTop(6, n)
  IN back(8180, <<0, 1, 2, 3>>, LAMBDA t : g2(167, t))                \* 32 KiB back
     \o back(8189, <<0, 1, 2>>, LAMBDA t : g2(167, t))
     \o back(8190, <<0, 1, 2>>, LAMBDA t : g2(153, t))                \* too far for 16 bits
     \o back(16400, <<0, 1, 2, 3>>, LAMBDA t : g4(200, t))
     \o fwd(8185, <<at3(8185) - 1, at3(8185), at3(8185) + 1, at3(8185) + 2, at3(8185) + 3, at3(8185) + 4>>, LAMBDA t : g2(198, t), 3)
     \o fwd(8190, <<at3(8190), at3(8190) + 1>>, LAMBDA t : g2(168, t), 3)
     \o fwd(16400, <<at5(16400) - 1, at5(16400), at5(16400) + 1, at5(16400) + 2, at5(16400) + 3, at5(16400) + 4, 65536, 65535, 6>>, LAMBDA t : g4(201, t), 5)
(* two jumps: the second is checked even though the first is good          *)
ManyJumpCases(x) ==
  LET j(op, t) == <<op>> \o E2(t % 65536)
      f(q) == InCode(Cat(q) \o <<RETURN_>>, "a", "C21")
      goods == <<0, 3, 6, 9>>
  IN Cat([a \in 1..11 |-> Cat([b \in 1..11 |-> << f(<<j(167, a - 1), j(154, b - 5), j(198, -3)>>), f(<<j(153, 3), j(167, a - 4), j(200 - 1, b - 8)>>) >>])])

(* ---- C20, C22: random instruction sequences ---- *)
RndOp(s, i) ==                     \* a jump-free instruction with good operands
  LET op == Pick(SelectSeq(DefinedOps, LAMBDA o : OpForm(o) \notin {"jump2", "jump4", "tableswitch", "lookupswitch"}), Rnd(s, i))
      form == OpForm(op)
      r == Rnd(s, 1000 + i)
      kx(q) == E2(K(Pick(q, r)))
  IN CASE form \in {"none", "implied"} -> <<op>>
       [] form \in {"s1", "local"} -> <<op, RndByte(s, i)>>
       [] form \in {"s2", "iinc"} -> <<op>> \o RndBytes(s, i, 2)
       [] form = "ldc1" -> <<op, Small(K(Pick(<<"i1", "f2", "sFoo", "l1", "cArr", "hGet", "mt", "dyn", "d1", "sSur">>, r)))>>
       [] form = "ldc2" -> <<op>> \o kx(<<"l2", "d2", "dyn2", "sPair", "cB", "i2">>)
       [] form = "field" -> <<op>> \o kx(<<"field", "field2">>)
       [] form = "method" -> <<op>> \o kx(<<"meth", "meth2">>)
       [] form = "anymethod" -> <<op>> \o kx(<<"meth", "meth2", "imeth", "imeth2">>)
       [] form = "imethod" -> <<op>> \o kx(<<"imeth", "imeth2">>) \o <<RndByte(s, i), 0>>
       [] form = "indy" -> <<op>> \o kx(<<"indy", "indy2">>) \o <<0, 0>>
       [] form \in {"class", "type"} -> <<op>> \o kx(<<"cA", "cB", "cNul">> \o (IF form = "type" THEN <<"cArr", "cArr2">> ELSE <<>>))
       [] form = "multi" -> <<op>> \o kx(<<"cArr", "cArr2">>) \o <<1 + (r % 3)>>
       [] form = "prim" -> <<op, 4 + (r % 8)>>
       [] form = "wide" -> LET w == Pick(SortedNums(DOMAIN Wides), r) IN <<196, w>> \o RndBytes(s, i, IF w = 132 THEN 4 ELSE 2)
(* a program: jump-free instructions, jumps to offset 0 or to themselves, switches *)
RECURSIVE RndCode(_, _, _, _)
RndCode(s, i, n, at) ==
  IF i > n THEN <<>>
  ELSE LET r == Rnd(s, 2000 + i)
           home(w) == IF r % 2 = 0 THEN Rep(w, 0) ELSE (IF w = 2 THEN E2((65536 - at) % 65536) ELSE E4s(-at))
           ins == CASE r % 11 = 0 -> <<Pick(Jump2Ops, Rnd(s, 3000 + i))>> \o home(2)
                    [] r % 11 = 1 -> <<Pick(Jump4Ops, Rnd(s, 3000 + i))>> \o home(4)
                    [] r % 23 = 2 -> TSw(at, home(4), E4s(-1 - (r % 3)), E4s(r % 2), [j \in 1..(2 + (r % 3) + (r % 2)) |-> home(4)])
                    [] r % 23 = 3 -> LSw(at, home(4), E4(r % 4), [j \in 1..(r % 4) |-> E4s(j * j - 3) \o home(4)])
                    [] OTHER -> RndOp(s, i)
       IN ins \o RndCode(s, i + 1, n, at + Len(ins))
ProgramCases(seed, n) ==
  Cat([i \in 1..n |-> LET c == RndCode(seed * 211 + i, 1, 1 + (i % 24), 0)
                          last == c \o <<RETURN_>>
                          cut == SubSeq(c, 1, Len(c) - 1)
      IN << InCode(c, "a", "C20"), InCode(last, "l", "C22"), InCode(cut, "a", "C20"),
            InCode(Nops(1 + (i % 3)) \o c, IF i % 3 = 0 THEN "n" ELSE "l", IF i % 3 = 0 THEN "C23" ELSE "C22,C20") >>])
LookupCases(x) ==
  << InCode(<<>>, "l", "C22"), InCode(<<0>>, "l", "C22"), InCode(<<17, 0, 0>>, "l", "C22"), InCode(Nops(40), "l", "C22"), InCode(Cat(Rep(20, <<16, 0>>)), "l", "C22"),
     InCode(Cat(Rep(20, <<17, 0, 0>>)), "l", "C22"), InCode(Cat(Rep(9, <<16, 0, 0>>)), "l", "C22"), InCode(Nops(600) \o <<17, 1, 1>>, "l", "C22") >>
  \o Cat([n \in 1..20 |-> << InCode(Nops(n), "l", "C22"), InCode(Nops(n) \o <<16, 1>> \o Nops(n % 5), "l", "C22"), InCode(Cat([j \in 1..n |-> IF j % 2 = 0 THEN <<17, 3, 3>> ELSE <<4>>]), "l", "C22"),
        InCode(<<196, 132, 0, 0, 0, 1>> \o Nops(n) \o <<185>> \o E2(K("imeth")) \o <<1, 0>>, "l", "C22") >>])
(* several methods with code, code at several places *)
CodeMix(x) ==
  LET c1 == CodeAttr(<<4, 172>>) c2 == CodeAttr(<<16, 9, 87, 177>>) bad == CodeAttr(<<203>>) j == CodeAttr(<<167, 0, 4, 177>>)
      m(n, as) == Member(1, n, "()V", as)
      f(ms, mode, p) == Case(Class(<<>>, ms, <<Boot>>), mode, p)
      all(ms) == << f(ms, "a", "C20,C19"), f(ms, "n", "C23") >>
  IN all(<<m("bar", <<c1>>), m("foo", <<c2>>)>>) \o all(<<m("bar", <<c1, c2>>)>>) \o all(<<m("bar", <<c1>>), m("foo", <<bad>>)>>)
     \o all(<<m("bar", <<bad>>), m("foo", <<c1>>)>>) \o all(<<m("bar", <<c1>>), m("foo", <<j>>)>>) \o all(<<m("bar", <<j, c1>>)>>)
     \o Cat([c \in 1..Len(Contexts) |-> Cat([a \in 1..4 |-> << Case(In(Contexts[c], <<(<<c1, c2, bad, j>>)[a]>>), "a", "C20"), Case(In(Contexts[c], <<(<<c1, c2, bad, j>>)[a]>>), "n", "C23") >>])])

(* ---- nesting ---- *)
RECURSIVE NestAnn(_, _, _)
\* n more levels of element values; kind 0 arrays, 1 annotations, 2 both in turn
NestAnn(n, kind, s) ==
  IF n = 0 THEN <<73>> \o E2(K("i1"))
  ELSE IF kind = 0 \/ (kind = 2 /\ n % 2 = 0) THEN <<91, 0, 1>> \o NestAnn(n - 1, kind, s)
       ELSE <<64>> \o E2(K("I")) \o <<0, 1>> \o E2(K("foo")) \o NestAnn(n - 1, kind, s)
WithValue(v) == E2(K("Lp/Q;")) \o E2(1) \o E2(K("foo")) \o v
Depths == <<1, 2, 3, 10, 30, 31, 32, 33, 62, 63, 64, 65, 66, 67, 100, 128, 129>>
DeepAnnCases(x) ==
  Cat([d \in 1..Len(Depths) |-> Cat([k \in 1..3 |->
     LET v == NestAnn(Depths[d], k - 1, 0)
         ann == E2(1) \o WithValue(v)
         p == "C16,C01"
         at(n, body) == In(Home(n), <<Attr(n, body)>>)
     IN << Case(at("RuntimeVisibleAnnotations", ann), "a", p), Case(at("RuntimeInvisibleAnnotations", E2(2) \o WithValue(v) \o WithValue(v)), "a", p),
           Case(at("AnnotationDefault", v), "a", p), Case(at("RuntimeVisibleParameterAnnotations", <<1>> \o ann), "a", p),
           Case(at("RuntimeInvisibleParameterAnnotations", <<1>> \o ann), "a", p),
           Case(at("RuntimeVisibleTypeAnnotations", E2(1) \o <<19, 0>> \o WithValue(v)), "a", "C17,C01"),
           Case(at("RuntimeInvisibleTypeAnnotations", E2(1) \o <<0, 1, 0>> \o WithValue(v)), "a", "C17,C01") >>])])
  \* wide rather than deep: siblings do not add up
  \o << Case(In("method", <<Attr("AnnotationDefault", <<91>> \o E2(70) \o Cat(Rep(70, <<91, 0, 1>> \o NestAnn(0, 0, 0))))>>), "a", "C16"),
        Case(In("class", <<Attr("RuntimeVisibleAnnotations", E2(70) \o Cat(Rep(70, WithValue(NestAnn(3, 2, 0)))))>>), "a", "C16"),
        Case(In("method", <<Attr("AnnotationDefault", <<91>> \o E2(3) \o NestAnn(63, 0, 0) \o NestAnn(62, 1, 0) \o NestAnn(63, 2, 0))>>), "a", "C16"),
        Case(In("method", <<Attr("AnnotationDefault", <<91>> \o E2(3) \o NestAnn(63, 0, 0) \o NestAnn(64, 1, 0) \o NestAnn(63, 2, 0))>>), "a", "C16") >>

RECURSIVE NestAttr(_, _)
\* kind 0 Code in Code, 1 Record in Record, 2 in turn
NestAttr(n, kind) ==
  IF n = 0 THEN Attr("Deprecated", <<>>)
  ELSE IF kind = 0 \/ (kind = 2 /\ n % 2 = 0) THEN Attr("Code", CodeBody(<<RETURN_>>, <<>>, <<NestAttr(n - 1, kind)>>))
       ELSE Attr("Record", E2(1) \o E2(K("foo")) \o E2(K("I")) \o E2(1) \o NestAttr(n - 1, kind))
AttrDepths == <<1, 2, 3, 8, 14, 15, 16, 17, 18, 30, 64>>
DeepAttrCases(x) ==
  Cat([d \in 1..Len(AttrDepths) |-> Cat([k \in 1..3 |-> [c \in 1..3 |->
      Case(In(Contexts[c], <<NestAttr(AttrDepths[d], k - 1)>>), "a", "C01,C13")]])])
  \o << Case(In("class", <<NestAttr(15, 0), NestAttr(14, 1), NestAttr(15, 2)>>), "a", "C01,C13"), Case(In("class", Rep(20, NestAttr(3, 1))), "a", "C01,C13") >>
=============================================================================
