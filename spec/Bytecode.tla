------------------------------ MODULE Bytecode ------------------------------
(***************************************************************************)
(* JVM instructions, JVMS 6: a table from opcode to instruction and operand*)
(* form, decoding of a whole code array, and validity of jumps.            *)
(* An operand form says how the operand bytes are read and reported.       *)
(***************************************************************************)
EXTENDS Pool

(* ---- the opcode table: <<first opcode, form, names>> ---- *)
Plain(first, names) == [i \in 1..Len(names) |-> <<first + i - 1, <<names[i], "none">>>>]
Forms(first, form, names) == [i \in 1..Len(names) |-> <<first + i - 1, <<names[i], form>>>>]
(* name_0 .. name_3 *)
Four(first, name) == [i \in 1..4 |-> <<first + i - 1, <<name, "implied", i - 1>>>>]

OpList ==
     Plain(0, <<"Nop", "AconstNull", "IconstM1", "Iconst0", "Iconst1", "Iconst2", "Iconst3",
                "Iconst4", "Iconst5", "Lconst0", "Lconst1", "Fconst0", "Fconst1", "Fconst2",
                "Dconst0", "Dconst1">>)
  \o << <<16, <<"Bipush", "s1">>>>, <<17, <<"Sipush", "s2">>>>,
        <<18, <<"Ldc", "ldc1">>>>, <<19, <<"LdcW", "ldc2">>>>, <<20, <<"Ldc2W", "ldc2">>>> >>
  \o Forms(21, "local", <<"Iload", "Lload", "Fload", "Dload", "Aload">>)
  \o Four(26, "Iload") \o Four(30, "Lload") \o Four(34, "Fload") \o Four(38, "Dload") \o Four(42, "Aload")
  \o Plain(46, <<"Iaload", "Laload", "Faload", "Daload", "Aaload", "Baload", "Caload", "Saload">>)
  \o Forms(54, "local", <<"Istore", "Lstore", "Fstore", "Dstore", "Astore">>)
  \o Four(59, "Istore") \o Four(63, "Lstore") \o Four(67, "Fstore") \o Four(71, "Dstore") \o Four(75, "Astore")
  \o Plain(79, <<"Iastore", "Lastore", "Fastore", "Dastore", "Aastore", "Bastore", "Castore", "Sastore",
                 "Pop", "Pop2", "Dup", "DupX1", "DupX2", "Dup2", "Dup2X1", "Dup2X2", "Swap",
                 "Iadd", "Ladd", "Fadd", "Dadd", "Isub", "Lsub", "Fsub", "Dsub",
                 "Imul", "Lmul", "Fmul", "Dmul", "Idiv", "Ldiv", "Fdiv", "Ddiv",
                 "Irem", "Lrem", "Frem", "Drem", "Ineg", "Lneg", "Fneg", "Dneg",
                 "Ishl", "Lshl", "Ishr", "Lshr", "Iushr", "Lushr", "Iand", "Land", "Ior", "Lor", "Ixor", "Lxor">>)
  \o << <<132, <<"Iinc", "iinc">>>> >>
  \o Plain(133, <<"I2l", "I2f", "I2d", "L2i", "L2f", "L2d", "F2i", "F2l", "F2d", "D2i", "D2l", "D2f",
                  "I2b", "I2c", "I2s", "Lcmp", "Fcmpl", "Fcmpg", "Dcmpl", "Dcmpg">>)
  \o Forms(153, "jump2", <<"Ifeq", "Ifne", "Iflt", "Ifge", "Ifgt", "Ifle", "IfIcmpeq", "IfIcmpne",
                           "IfIcmplt", "IfIcmpge", "IfIcmpgt", "IfIcmple", "IfAcmpeq", "IfAcmpne",
                           "Goto", "Jsr">>)
  \o << <<169, <<"Ret", "local">>>>, <<170, <<"Tableswitch", "tableswitch">>>>,
        <<171, <<"Lookupswitch", "lookupswitch">>>> >>
  \o Plain(172, <<"Ireturn", "Lreturn", "Freturn", "Dreturn", "Areturn", "Return">>)
  \o Forms(178, "field", <<"Getstatic", "Putstatic", "Getfield", "Putfield">>)
  \o << <<182, <<"Invokevirtual", "method">>>>, <<183, <<"Invokespecial", "anymethod">>>>,
        <<184, <<"Invokestatic", "anymethod">>>>, <<185, <<"Invokeinterface", "imethod">>>>,
        <<186, <<"Invokedynamic", "indy">>>>, <<187, <<"New", "class">>>>,
        <<188, <<"Newarray", "prim">>>>, <<189, <<"Anewarray", "type">>>> >>
  \o Plain(190, <<"Arraylength", "Athrow">>)
  \o Forms(192, "type", <<"Checkcast", "Instanceof">>)
  \o Plain(194, <<"Monitorenter", "Monitorexit">>)
  \o << <<196, <<"wide", "wide">>>>, <<197, <<"Multianewarray", "multi">>>> >>
  \o Forms(198, "jump2", <<"Ifnull", "Ifnonnull">>)
  \o Forms(200, "jump4", <<"Goto", "Jsr">>)
  \o << <<202, <<"Breakpoint", "none">>>>, <<254, <<"Impdep1", "none">>>>, <<255, <<"Impdep2", "none">>>> >>

OpTable == Fun([o \in {OpList[i][1] : i \in 1..Len(OpList)} |->
              OpList[CHOOSE i \in 1..Len(OpList) : OpList[i][1] = o][2]])

Wides == Fun([o \in {21, 22, 23, 24, 25, 54, 55, 56, 57, 58, 132, 169} |-> OpTable[o][1]])
Prims == Fun([x \in 4..11 |-> <<"Boolean", "Char", "Float", "Double", "Byte", "Short", "Int", "Long">>[x - 3]])

PoolHas(pool, i, kinds) == i < Len(pool) /\ At(pool, i).t \in kinds

(* Classes are named by instructions as an array type or a plain name.     *)
TypeOf(pool, i) ==
  LET s == At(pool, At(pool, i).x).s IN
  IF Len(s.s) > 0 /\ s.s[1] = LBRACK THEN <<"ArrayType", FieldDescV(s)>> ELSE <<"BinaryName", StrV(s)>>

(* A decoded instruction: n is the index after it, v its reported value    *)
(* (name and operands), t the jump offsets it contains.                    *)
BAD == [ok |-> FALSE, n |-> 0, v |-> <<>>, t |-> <<>>]
Ins(n, v) == [ok |-> TRUE, n |-> n, v |-> v, t |-> <<>>]
Jmp(n, v, t) == [ok |-> TRUE, n |-> n, v |-> v, t |-> t]

Align4(p) == ((p + 3) \div 4) * 4

(* Number of jumps of a tableswitch low..high if at most avail, else -1    *)
(* (computed without leaving 32 bits).                                     *)
RangeSize(low, high, avail) ==
  IF low > high \/ avail <= 0 THEN -1
  ELSE IF (low < 0 /\ high >= 0)
       THEN (IF high <= low + (avail - 1) THEN high - low + 1 ELSE -1)
       ELSE (IF high - low <= avail - 1 THEN high - low + 1 ELSE -1)

(* Decode the instruction at offset o of the code array that occupies      *)
(* [cs, ce) of the input.                                                  *)
DecodeAt(b, pool, cs, ce, o) ==
  LET p == cs + o                     \* input index of the opcode
      op == U1(b, p)
      has(n) == p + 1 + n <= ce       \* n operand bytes available
      row == OpTable[op]
      name == row[1]
      u1 == U1(b, p+1)
      u2 == U2(b, p+1)
      member(kinds) == has(2) /\ PoolHas(pool, u2, kinds)
  IN IF op \notin DOMAIN OpTable THEN BAD
     ELSE CASE row[2] = "none" -> Ins(o+1, <<name>>)
       [] row[2] = "implied" -> Ins(o+1, <<name, row[3]>>)
       [] row[2] = "s1" -> IF has(1) THEN Ins(o+2, <<name, S1(u1)>>) ELSE BAD
       [] row[2] = "s2" -> IF has(2) THEN Ins(o+3, <<name, S2(u2)>>) ELSE BAD
       [] row[2] = "local" -> IF has(1) THEN Ins(o+2, <<name, u1>>) ELSE BAD
       [] row[2] = "iinc" -> IF has(2) THEN Ins(o+3, <<name, u1, S1(U1(b, p+2))>>) ELSE BAD
       [] row[2] = "ldc1" -> IF has(1) /\ PoolHas(pool, u1, LOADABLE)
                             THEN Ins(o+2, <<name, LoadableOf(pool, At(pool, u1))>>) ELSE BAD
       [] row[2] = "ldc2" -> IF member(LOADABLE)
                             THEN Ins(o+3, <<name, LoadableOf(pool, At(pool, u2))>>) ELSE BAD
       [] row[2] = "jump2" -> IF has(2) THEN Jmp(o+3, <<name, S2(u2)>>, <<S2(u2)>>) ELSE BAD
       [] row[2] = "jump4" -> IF has(4) THEN Jmp(o+5, <<name, S4(b, p+1)>>, <<S4(b, p+1)>>) ELSE BAD
       [] row[2] = "field" -> IF member({FIELDREF}) THEN Ins(o+3, <<name>> \o MemberOf(pool, u2)) ELSE BAD
       [] row[2] = "method" -> IF member({METHODREF}) THEN Ins(o+3, <<name>> \o MemberOf(pool, u2)) ELSE BAD
       [] row[2] = "anymethod" -> IF member({METHODREF, IMETHODREF})
                                  THEN Ins(o+3, <<name>> \o MemberOf(pool, u2)) ELSE BAD
       [] row[2] = "imethod" -> IF has(4) /\ member({IMETHODREF}) /\ U1(b, p+4) = 0
                                THEN Ins(o+5, <<name>> \o MemberOf(pool, u2) \o <<U1(b, p+3)>>) ELSE BAD
       [] row[2] = "indy" -> IF has(4) /\ member({INDY}) /\ U2(b, p+3) = 0
                             THEN Ins(o+5, <<name, At(pool, u2).w[1]>> \o NatOf(pool, At(pool, u2).x)) ELSE BAD
       [] row[2] = "class" -> IF member({CLASS}) THEN Ins(o+3, <<name, ClassOf(pool, u2)>>) ELSE BAD
       [] row[2] = "type" -> IF member({CLASS}) THEN Ins(o+3, <<name, TypeOf(pool, u2)>>) ELSE BAD
       [] row[2] = "multi" -> IF has(3) /\ member({CLASS})
                              THEN Ins(o+4, <<name, TypeOf(pool, u2), U1(b, p+3)>>) ELSE BAD
       [] row[2] = "prim" -> IF has(1) /\ u1 \in DOMAIN Prims THEN Ins(o+2, <<name, Prims[u1]>>) ELSE BAD
       [] row[2] = "wide" ->
            IF ~has(3) \/ u1 \notin DOMAIN Wides THEN BAD
            ELSE IF u1 = 132 THEN (IF has(5) THEN Ins(o+6, <<"Iinc", U2(b, p+2), S2(U2(b, p+4))>>) ELSE BAD)
            ELSE Ins(o+4, <<Wides[u1], U2(b, p+2)>>)
       [] row[2] = "tableswitch" ->
            LET a == Align4(o + 1)
                q == cs + a
            IN IF q + 12 > ce THEN BAD
               ELSE LET low == S4(b, q+4)
                        high == S4(b, q+8)
                        n == RangeSize(low, high, (ce - (q + 12)) \div 4)
                    IN IF n < 0 THEN BAD
                       ELSE LET js == Tup([i \in 1..n |-> S4(b, q + 12 + 4 * (i-1))])
                            IN Jmp(a + 12 + 4 * n, <<name, S4(b, q), low, high, js>>, <<S4(b, q)>> \o js)
       [] row[2] = "lookupswitch" ->
            LET a == Align4(o + 1)
                q == cs + a
            IN IF q + 8 > ce THEN BAD
               ELSE LET n == S4(b, q+4)
                    IN IF n < 0 \/ n > (ce - (q + 8)) \div 8 THEN BAD
                       ELSE LET ps == Tup([i \in 1..n |-> <<S4(b, q + 8*i), S4(b, q + 8*i + 4)>>])
                            IN Jmp(a + 8 + 8 * n, <<name, S4(b, q), ps>>,
                                   <<S4(b, q)>> \o [i \in 1..n |-> ps[i][2]])

(* Decode up to 2^k instructions from offset o; v is a sequence of         *)
(* [o |-> offset, i |-> decoded instruction].                              *)
RECURSIVE DecodeUpTo(_, _, _, _, _, _)
DecodeUpTo(b, pool, cs, ce, o, k) ==
  IF cs + o >= ce THEN OK(o, <<>>)
  ELSE IF k = 0
       THEN LET i == DecodeAt(b, pool, cs, ce, o)
            IN IF i.ok THEN OK(i.n, <<[o |-> o, i |-> i]>>) ELSE FAIL
       ELSE LET l == DecodeUpTo(b, pool, cs, ce, o, k-1)
            IN IF ~l.ok THEN FAIL
               ELSE LET r == DecodeUpTo(b, pool, cs, ce, l.ix, k-1)
                    IN IF ~r.ok THEN FAIL ELSE OK(r.ix, l.v \o r.v)

Starts(ins) == {ins[k].o : k \in 1..Len(ins)}

(* Every jump lands on the start of an instruction.                        *)
JumpsClosed(ins, len) ==
  LET st == Starts(ins) IN
  \A k \in 1..Len(ins) : \A t \in 1..Len(ins[k].i.t) :
     LET j == ins[k].i.t[t] IN
     j >= -ins[k].o /\ j < len - ins[k].o /\ (ins[k].o + j) \in st

(* The instructions cover the code without gap or overlap.                 *)
Tiles(ins, len) ==
  IF Len(ins) = 0 THEN len = 0
  ELSE /\ ins[1].o = 0
       /\ \A k \in 1..Len(ins)-1 : ins[k].i.n = ins[k+1].o /\ ins[k].o < ins[k+1].o
       /\ ins[Len(ins)].i.n = len

(* The position (zero-based) of the instruction at an offset, -1 if none.  *)
OpcodeIndex(ins, off) ==
  LET S == {k \in 1..Len(ins) : ins[k].o = off}
  IN IF S = {} THEN -1 ELSE (CHOOSE k \in S : TRUE) - 1

(* The decoded code at [cs, ce): [ok, v], v the reported instructions.     *)
DecodeCode(b, pool, cs, ce, lookups) ==
  LET r == DecodeUpTo(b, pool, cs, ce, 0, 31)
      len == ce - cs
      vs == Tup([k \in 1..Len(r.v) |-> <<r.v[k].o>> \o r.v[k].i.v])
  IN IF ~r.ok THEN FAIL
     ELSE IF ~JumpsClosed(r.v, len) THEN FAIL
     ELSE IF ~lookups THEN OK(ce, vs)
     ELSE \* in mode "l" the lookups of every offset up to just past the end, and far beyond
       OK(ce, [q \in 1..(len + 3) |-> OpcodeIndex(r.v, q - 1)] \o <<-1, -1, -1>>)
=============================================================================
