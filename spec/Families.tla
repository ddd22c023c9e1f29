------------------------------- MODULE Families -------------------------------
(***************************************************************************)
(* Writes the inputs of one family (environment variable FAMILY) to OUT as *)
(* JSON lines [b, m, p], and the common prefix and the parser phase it     *)
(* leads to, to OUT.pre.  Evaluated once, with a single worker; Gen then   *)
(* explores the behaviours of ClassFile on these inputs.                   *)
(***************************************************************************)
EXTENDS GenShape, Json

ArgNum == NumOf(IOEnv.ARG) % 1000

IsSub(x, s) == \E i \in 1..Len(s) - Len(x) + 1 : SubSeq(s, i, i + Len(x) - 1) = x
AttrFamily(F(_)) == Cat([i \in 1..Len(AllAttrNames) |-> F(AllAttrNames[i])])
OnKit(cases) == [pre |-> KIT.pre, at |-> "class", cases |-> cases]
Whole(cases) == [pre |-> <<>>, at |-> "magic", cases |-> cases]
Family(f) ==
  CASE f = "attr-dev" -> OnKit(AttrFamily(DevCases))
    [] f = "attr-base" -> OnKit(AttrFamily(BaseCases))
    [] f = "attr-frame" -> OnKit(AttrFamily(FrameCases) \o NestedFrameCases(0))
    [] f = "pool" -> Whole(TagCases(0) \o RefCases(0) \o HandleCases(0) \o OrderCases(0) \o CountCases(0))
    [] f = "tags" -> Whole(TagCases(0))
    [] f = "names" -> Whole(NameStrCases(0))
    [] f = "fdescs" -> Whole(FieldStrCases(0))
    [] f = "mdescs" -> Whole(MethodStrCases(0))
    [] f = "fdescs-d" -> Whole(InMode(SelectSeq(FieldStrCases(0), LAMBDA c : IsSub("C07", c.p)), "d"))
    [] f = "mdescs-d" -> Whole(InMode(SelectSeq(MethodStrCases(0), LAMBDA c : IsSub("C07", c.p)), "d"))
    [] f = "encodings" -> Whole(EncCases(0) \o EncUses(0))
    [] f = "items" -> Whole(ItemPlaces(0) \o ItemCases(ArgNum, 120))
    [] f = "kit" -> OnKit(<<Case(Class(<<>>, <<>>, <<Boot>>), "a", "C03,C04,C12"), Case(Class(<<>>, <<>>, <<>>), "a", "C12")>>)
    [] f = "header" -> OnKit(HeaderCases(0))
    [] f = "versions" -> Whole(VersionCases(0))
    [] f = "fields" -> Whole(FieldCases(0) \o MemberMix(0))
    [] f = "methods" -> Whole(MethodCases(0) \o MemberMix(0))
    [] f = "alike" -> Whole(AlikeCases(0))
    [] f = "module" -> Whole(ModCases(0))
    [] f = "bootstrap" -> Whole(BootCases(0))
    [] f = "attr-names" -> Whole(AttrNameCases(0) \o OddNameCases(0))
    [] f = "attr-tables" -> OnKit(TableCases(0))
    [] f = "prefixes" -> OnKit(PrefixCases(0))
    [] f = "magic" -> Whole(MagicCases(0))
    [] f = "opcodes" -> OnKit(OpcodeCases(0))
    [] f = "opcodes-few" -> OnKit(LET q == OpcodeCases(0) IN [i \in 1..(Len(q) \div 41) |-> q[41 * i]])
    [] f = "switches" -> OnKit(SwitchCases(0))
    [] f = "jumps" -> OnKit(JumpCases(0) \o ManyJumpCases(0))
    [] f = "long-jumps" -> OnKit(LongJumpCases(0))
    [] f = "programs" -> OnKit(ProgramCases(ArgNum, 250))
    [] f = "lookups" -> OnKit(LookupCases(0))
    [] f = "code-mix" -> OnKit(CodeMix(0))
    [] f = "big-attr" -> OnKit(AttrFamily(BigAttrCases))
    [] f = "big-members" -> Whole(BigMemberCases(0))
    [] f = "big-pools" -> Whole(BigPoolCases(ArgNum))
    [] f = "big-texts" -> Whole(LongTextCases(0))
    [] f = "big-code" -> OnKit(BigCodeCases(0))
    [] f = "attr-rnd" -> OnKit(RndAttrCases(ArgNum, 120))
    [] f = "attr-odd" -> OnKit(RndAttrCases(ArgNum, 200))
    [] f = "classes" -> OnKit(RndClassCases(ArgNum, 400))
    [] f = "classes-damaged" -> OnKit(DamagedCases(ArgNum, 800))
    [] f = "uni-chars" -> Whole(UniCharCases(0))
    [] f = "uni-attr-names" -> Whole(UniAttrNameCases(0))
    [] f = "pairs" -> Whole(PairCases(0))
    [] f = "cross-uses" -> OnKit(CrossCases(0))
    [] f = "duplicates" -> Whole(DupCases(0))
    [] f = "module-members" -> Whole(ModMemberCases(0))
    [] f = "version-sweep" -> Whole(SweepCases(0))
    [] f = "environs" -> Whole(AttrFamily(EnvAttrs))
    [] f = "environs-code" -> Whole(EnvCodes(0))
    [] f = "environs-members" -> Whole(EnvMembers(0))
    [] f = "attr-two" -> OnKit(AttrFamily(TwoCases))
    [] f = "attr-pairs" -> OnKit(AttrPairs(0))
    [] f = "late-attrs" -> OnKit(AttrFamily(LateAttrs) \o LateClass(0))
    [] f = "late-members" -> Whole(LateMembers(0))
    [] f = "late-code" -> OnKit(LateCode(0))
    [] f = "long-names" -> Whole(LongNames(0))
    [] f = "long-descs" -> Whole(LongDescs(0))
    [] f = "far-frame" -> OnKit(FarCases(0))
    [] f = "crowds" -> Whole(CrowdCases(300))
    [] f = "dynamics" -> Whole(DynCases(0))
    [] f = "flood-pools" -> Whole(FloodPools(65400))
    [] f = "deltas" -> Whole(DeltaCases(0))
    [] f = "flood-members" -> Whole(FloodMembers(0))
    [] f = "flood-attrs" -> OnKit(FloodAttrs(0))
    [] f = "flood-texts" -> Whole(FloodTexts(0))
    [] f = "deep-ann" -> OnKit(DeepAnnCases(0))
    [] f = "deep-attr" -> OnKit(DeepAttrCases(0))

ASSUME LET f == TLCEval(Family(IOEnv.FAMILY))
       IN /\ ndJsonSerialize(IOEnv.OUT, f.cases)
          /\ ndJsonSerialize(IOEnv.OUT \o ".pre", <<[pre |-> f.pre, at |-> f.at]>>)

FInit == InitWith([b |-> <<>>, m |-> "v"])
FNext == FALSE /\ UNCHANGED vars
=============================================================================
