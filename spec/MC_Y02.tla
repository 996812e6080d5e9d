------------------------------- MODULE MC_Y02 -------------------------------
(* UTF-32: all short sequences of boundary code points, and all short texts. *)
EXTENDS Cases
P == {0, 65, 127, 128, 2047, 2048, 55296, 65535, 65536, 1114111}
B == {65, 128, 195, 226, 240, 248}
MCSeeds == {<<0, q>> : q \in Strings(P, K)} \cup {<<1, t>> : t \in Strings(B, K + 1)}
           \cup {<<0, q>> : q \in Strings({65, 1114112, -1, 55296}, K)}
Clean(q) == SelectSeq(q, Encodable)
MCTheorem(x) ==
    IF x[1] = 0
    THEN ToUtf32R(The(FromUtf32R(x[2]))[2]) = {<<"ok", Clean(x[2])>>}
    ELSE LET r == The(ToUtf32R(x[2]))
         IN /\ (r = THROW) <=> ~Valid(x[2])
            /\ r # THROW => \A k \in 1..Len(r[2]) : r[2][k] >= 0
            /\ r # THROW /\ Len(EncAll(r[2])) = Len(x[2]) => EncAll(r[2]) = x[2]
MCScript(x) ==
    IF x[1] = 0 THEN <<<<"from_utf32", x[2]>>, <<"keep">>, <<"to_utf32">>>>
    ELSE On(x[2], <<<<"to_utf32">>>>)
=============================================================================
