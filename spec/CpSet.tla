-------------------------------- MODULE CpSet --------------------------------
(***************************************************************************)
(* Code point sets: a set is [neg, rs] where rs lists the range bounds     *)
(* <<a1, b1, a2, b2, ...>> in order of addition.                           *)
(***************************************************************************)
EXTENDS Escape

EmptySet(neg) == [neg |-> neg, rs |-> <<>>]
AddRange(S, a, b) == [S EXCEPT !.rs = @ \o <<a, b>>]
\* A code point directly after the last range extends it; nothing comes after the last of all values.
MAX31 == 2147483647
Succ(c) == IF c = MAX31 THEN -MAX31 - 1 ELSE c + 1
AddCp(S, c) ==
    LET n == Len(S.rs)
    IN IF n > 0 /\ S.rs[n] # -1 /\ Succ(S.rs[n]) = c /\ LeU(S.rs[n - 1], c)
       THEN [S EXCEPT !.rs[n] = c] ELSE AddRange(S, c, c)
AddCps(S, q) == FoldLeft(AddCp, S, q)

SetHas(S, c) == InRanges(S.rs, c) # (S.neg = 1)
SetCiHas(S, c) == (\E x \in SameUpper(c) : InRanges(S.rs, x)) # (S.neg = 1)

CARET == 94
DASH == 45
SetPrint(S) ==
    <<91>> \o (IF S.neg = 1 THEN <<CARET>> ELSE <<>>)
    \o Concat([i \in 1..(Len(S.rs) \div 2) |->
          LET a == S.rs[2 * i - 1]
              b == S.rs[2 * i]
          IN IF a = b THEN Enc(a) ELSE Enc(a) \o <<DASH>> \o Enc(b)])
    \o <<93>>
=============================================================================
