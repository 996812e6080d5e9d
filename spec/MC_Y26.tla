------------------------------- MODULE MC_Y26 -------------------------------
(* Decomposition of every code point, 256 at a time, and of short texts. *)
EXTENDS Cases
U == {<<97>>, <<195, 169>>, <<225, 187, 135>>, <<204, 129>>, <<199, 149>>}
W == {<<233>>, <<195, 169>>, <<128>>, <<192, 128>>, <<237, 160, 128>>}
MCSeeds == {<<0, b>> : b \in 0..(IF K > 2 THEN 8191 ELSE 1023) \cup {4351, 4352, 8191, 8388607, -1, 32768}}
           \cup {<<1, s>> : s \in Texts(U, K) \cup Texts(W, 2)}
RECURSIVE Fold1(_, _)
Fold1(q, n) == IF n = 1 THEN q[1] ELSE ComposePair(Fold1(q, n - 1), q[n])
Dec(s) == The(ToDecomposedR(s))[2]
MCTheorem(x) ==
    IF x[1] = 0
    THEN \A i \in 0..255 :
           LET c == 256 * x[2] + i
               d == Decompose(c)
           IN /\ \A j \in 1..Len(d) : PairOf(d[j]) = <<>>
              /\ Len(d) > 1 => Fold1(d, Len(d)) = c
              /\ Len(d) = 1 => d = <<c>>
              /\ PairOf(c) # <<>> => Encodable(c) /\ \A j \in 1..Len(d) : Encodable(d[j])
    ELSE LET s == x[2]
         IN IF ~Valid(s) THEN Is(ToDecomposedR(s), THROW)
            ELSE /\ Dec(Dec(s)) = Dec(s) /\ Valid(Dec(s))
                 /\ \A v \in {<<98>>, <<195, 169>>, <<204, 129>>} : Dec(s \o v) = Dec(s) \o Dec(v)
MCScript(x) == IF x[1] = 0 THEN <<<<"blk_decomp", x[2]>>>>
               ELSE On(x[2], <<<<"to_decomposed">>, <<"keep">>, <<"to_decomposed">>>>)
=============================================================================
