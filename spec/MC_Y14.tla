------------------------------- MODULE MC_Y14 -------------------------------
(* Replacement of all index ranges of short texts. *)
EXTENDS Cases
U == {<<97>>, <<195, 169>>, <<204, 129>>}
W == {<<97>>, <<204, 129>>, <<128>>, <<226>>}
MCSeeds == Texts(U, K) \cup Texts(W, 2)
Xs == {<<>>, <<120, 121, 122>>, <<204, 128>>}
Bytes(s, r) == Slice(s, r[2][1], r[2][1] + r[2][2])
CpSub(s, a, b) == Bytes(s, The(CpSubR(s, a, b)))
ChSub(s, a, b) == Bytes(s, The(CharSubR(s, a, b)))
Abs(i, n) == IF i >= 0 THEN i ELSE IF n + i < 0 THEN 0 ELSE n + i
Idx(n) == (-n - 2)..(n + 2)
MCTheorem(s) ==
    LET n == CountCps(s)
        m == Len(CharsOf(s))
    IN /\ \A a, b \in Idx(n), x \in Xs :
             LET i == Abs(a, n)
                 j == Max2(i, Abs(b, n))
             IN Is(RepCpsR(s, a, b, x), <<"ok", CpSub(s, 0, i) \o x \o CpSub(s, j, HUGE)>>)
       /\ \A a, b \in Idx(n) : Is(RepCpsR(s, a, b, CpSub(s, a, b)), <<"ok", s>>)
       /\ \A a \in (-n)..n : RepCpsR(s, a, a, <<120>>) = InsCpsR(s, a, <<120>>)
       /\ Valid(s) =>
          /\ \A a, b \in Idx(m), x \in Xs :
                LET i == Abs(a, m)
                    j == Max2(i, Abs(b, m))
                IN Is(RepCharsR(s, a, b, x), <<"ok", ChSub(s, 0, i) \o x \o ChSub(s, j, HUGE)>>)
          /\ \A a, b \in Idx(m) : Is(RepCharsR(s, a, b, ChSub(s, a, b)), <<"ok", s>>)
MCScript(s) ==
    LET I == Idx(CountCps(s)) \cup {HUGE, -HUGE, LEAST}
    IN On(s, Concat(All(I \X I, LAMBDA p : <<<<"rep_cps", p[1], p[2], <<120, 121, 122>>>>, <<"rep_chars", p[1], p[2], <<120, 121, 122>>>>,
                                             <<"rep_cps", p[1], p[2], <<>>>>, <<"rep_chars", p[1], p[2], <<>>>>,
                                             <<"rep_chars", p[1], p[2], <<204, 128>>>>>>)))
=============================================================================
