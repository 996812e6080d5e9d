------------------------------- MODULE Values -------------------------------
(***************************************************************************)
(* The plain values: byte ranges, views of either byte type, constants.    *)
(***************************************************************************)
EXTENDS CpSet

RECURSIVE Decimal(_)
Decimal(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Decimal(n \div 10), 48 + (n % 10))

\* SIZE_MAX, which is written -1.
NPOS_TEXT == <<49, 56, 52, 52, 54, 55, 52, 52, 48, 55, 51, 55, 48, 57, 53, 53, 49, 54, 49, 53>>
SizeText(n) == IF n = -1 THEN NPOS_TEXT ELSE Decimal(n)

\* "{offset: ", ", length: " and "}".
RangeText(o, n) == <<123, 111, 102, 102, 115, 101, 116, 58, 32>> \o SizeText(o)
                   \o <<44, 32, 108, 101, 110, 103, 116, 104, 58, 32>> \o SizeText(n) \o <<125>>

\* Two ranges, then one without arguments, one with an offset only, and a copy.
SubrangeR(o, n, p, m) ==
    {<<"ok", o, n, o, o + n, Bool(n # 0), Bool(o = p /\ n = m), Bool(~(o = p /\ n = m)),
       RangeText(o, n), -1, 0, 0, o, 0, 1>>}
\* A range made from positions, in the text and in a list.
SubrangeOfR(lo, hi) == {<<"ok", lo, hi - lo, 1>>}
\* There and back between the two kinds of views: the same bytes at the same place.
U8R(s) == {<<"ok", Len(s), 1, Len(s), 1, s>>}

\* The constant of a class is the bit with the number of its category, that of a
\* group the union of its classes' bits.
ClassBit(k) == 2 ^ k
Bits(K) == LET RECURSIVE sum(_)
               sum(S) == IF S = {} THEN 0 ELSE LET k == CHOOSE k \in S : TRUE IN ClassBit(k) + sum(S \ {k})
           IN sum(K)
Groups == <<0..2, 0..4, 5..7, 8..10, 11..17, 18..21, 22..24, 25..29>>
ConstantsR == {<<"ok">> \o [k \in 1..30 |-> ClassBit(k - 1)] \o [i \in 1..8 |-> Bits(Groups[i])]
               \o <<133, 8232, 8233, 65533, UMAX, INVALID>>
               \o <<<<9, 10, 11, 12, 13, 32>>, <<9, 10, 13, 32>>>>}
=============================================================================
