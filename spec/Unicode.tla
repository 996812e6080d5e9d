------------------------------ MODULE Unicode -------------------------------
(***************************************************************************)
(* Unicode 16.0 character data: general category, simple case mappings,    *)
(* two-element canonical decompositions and their inverse.  The tables     *)
(* come from unidata.json, which is committed with the specification.      *)
(***************************************************************************)
EXTENDS Utf8, Json, IOUtils

Data == JsonDeserialize(IOEnv.YS_UNIDATA)
CatT == Data.cat
LowT == Data.low
UpT == Data.up
TitT == Data.tit
DecT == Data.dec
CompT == Data.comp
Pairs == Data.pairs
CompLists == Data.clists
InvT == Data.inv
InvLists == Data.ilists

InUnicode(c) == c >= 0 /\ c <= UMAX
Look(t, c) == t.blk[t.idx[c \div 256 + 1]][(c % 256) + 1]

\* Category numbers 0..29 in the order Lu Ll Lt Lm Lo Mn Mc Me Nd Nl No Pc Pd Ps
\* Pe Pi Pf Po Sm Sc Sk So Zs Zl Zp Cc Cf Cs Co Cn.
CN == 29
Category(c) == IF InUnicode(c) THEN Look(CatT, c) ELSE CN
IsLetter(c) == Category(c) <= 4
IsMark(c) == LET k == Category(c) IN k >= 5 /\ k <= 7

ToLower(c) == IF InUnicode(c) THEN c + Look(LowT, c) ELSE c
ToUpper(c) == IF InUnicode(c) THEN c + Look(UpT, c) ELSE c
ToTitle(c) == IF InUnicode(c) THEN c + Look(TitT, c) ELSE c

\* All code points with the same upper case form as c.
SameUpper(c) == LET u == ToUpper(c)
                IN IF ~InUnicode(c) THEN {c}
                   ELSE {u} \cup (IF Look(InvT, u) = 0 THEN {} ELSE ToSet(InvLists[Look(InvT, u)]))

SHARP_S == 223

(***************************************************************************)
(* Newlines.                                                               *)
(***************************************************************************)
LF == 10
CR == 13
IsNewline(c) == c \in {10, 11, 12, 13, 133, 8232, 8233}

(***************************************************************************)
(* The predicates, as bits of one number:                                  *)
(*   0 alpha-numeric 1 cased 2 control 3 format 4 graphical 5 hex digit    *)
(*   6 letter 7 lower 8 mark 9 newline 10 number 11 punctuation            *)
(*   12 separator 13 surrogate 14 symbol 15 upper 16 visible 17 whitespace *)
(***************************************************************************)
Lx == 0..4
Mx == 5..7
Nx == 8..10
Px == 11..17
Sx == 18..21
Zx == 22..24
CatMask == [k \in 0..29 |->
      (IF k \in Lx \cup Nx THEN 1 ELSE 0)
    + (IF k \in 0..2 THEN 2 ELSE 0)
    + (IF k = 25 THEN 4 ELSE 0)
    + (IF k = 26 THEN 8 ELSE 0)
    + (IF k \in Lx \cup Mx \cup Nx \cup Px \cup Sx THEN 16 ELSE 0)
    + (IF k \in Lx THEN 64 ELSE 0)
    + (IF k = 1 THEN 128 ELSE 0)
    + (IF k \in Mx THEN 256 ELSE 0)
    + (IF k \in Nx THEN 1024 ELSE 0)
    + (IF k \in Px THEN 2048 ELSE 0)
    + (IF k \in Zx THEN 4096 ELSE 0)
    + (IF k = 27 THEN 8192 ELSE 0)
    + (IF k \in Sx THEN 16384 ELSE 0)
    + (IF k = 0 THEN 32768 ELSE 0)
    + (IF k \in Lx \cup Mx \cup Nx \cup Px \cup Sx \cup Zx THEN 65536 ELSE 0)]
IsHexDigit(c) == (c >= 48 /\ c <= 57) \/ (c >= 65 /\ c <= 70) \/ (c >= 97 /\ c <= 102)
IsSpace(c) == c = 9 \/ c = 32 \/ IsNewline(c) \/ Category(c) \in Zx
PredMask(c) == CatMask[Category(c)]
    + (IF c < 128 /\ IsHexDigit(c) THEN 32 ELSE 0)
    + (IF IsNewline(c) THEN 512 ELSE 0)
    + (IF IsSpace(c) THEN 131072 ELSE 0)

(***************************************************************************)
(* Canonical pairs.                                                        *)
(***************************************************************************)
PairOf(c) == IF InUnicode(c) /\ Look(DecT, c) # 0 THEN Pairs[Look(DecT, c)] ELSE <<>>
RECURSIVE Decompose(_)
Decompose(c) == LET p == PairOf(c) IN IF p = <<>> THEN <<c>> ELSE Decompose(p[1]) \o <<p[2]>>

\* The code point whose canonical pair is <<a, b>>, or -1.
ComposePair(a, b) ==
    IF ~InUnicode(a) \/ Look(CompT, a) = 0 THEN -1
    ELSE LET m == SelectSeq(CompLists[Look(CompT, a)], LAMBDA x : x[1] = b)
         IN IF m = <<>> THEN -1 ELSE m[1][2]

=============================================================================
