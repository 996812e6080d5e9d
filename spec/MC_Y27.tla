------------------------------- MODULE MC_Y27 -------------------------------
(* Composition of short texts, and of the pair of every code point there is. *)
EXTENDS Cases
U == {<<97>>, <<101>>, <<204, 129>>, <<204, 130>>, <<195, 169>>, <<204, 163>>}
W == {<<101>>, <<204, 129>>, <<128>>, <<225, 134, 168>>, <<192, 128>>}
MCSeeds == {<<1, s>> : s \in Texts(U, K) \cup Texts(W, 2)} \cup {<<2, i>> : i \in 1..Len(Pairs)}
Dec(s) == The(ToDecomposedR(s))[2]
Com(s) == The(ToComposedR(s))[2]
MCTheorem(x) ==
    IF x[1] = 1
    THEN LET s == x[2]
         IN IF ~Valid(s) THEN Is(ToComposedR(s), THROW)
            ELSE /\ Dec(Com(s)) = Dec(s)
                 /\ Valid(Com(s))
                 /\ \A v \in {<<98>>, <<98, 204, 129>>} : Com(s \o v) = Com(s) \o Com(v)
                 \* Nothing composable is left side by side.
                 /\ LET f == Fwd(Com(s), 0, Len(Com(s))).u
                    IN \A k \in 1..(Len(f) - 1) : ComposePair(f[k][3], f[k + 1][3]) = -1
    ELSE LET p == Pairs[x[2]]
             c == ComposePair(p[1], p[2])
         IN c # -1 /\ PairOf(c) = p /\ Com(EncAll(p)) = Enc(c) /\ Com(EncAll(p) \o <<98>>) = Enc(c) \o <<98>>
MCScript(x) ==
    IF x[1] = 1 THEN On(x[2], <<<<"to_composed">>, <<"keep">>, <<"to_decomposed">>, <<"keep">>, <<"to_composed">>>>)
    ELSE LET p == Pairs[x[2]]
         IN On(EncAll(p), <<<<"to_composed">>>>) \o On(EncAll(<<p[1], p[2], p[2], 98>>), <<<<"to_composed">>, <<"to_decomposed">>, <<"keep">>, <<"to_composed">>>>)
            \o On(EncAll(<<97, p[1], p[2] + 1, p[1] + 1, p[2]>>), <<<<"to_composed">>>>)
=============================================================================
