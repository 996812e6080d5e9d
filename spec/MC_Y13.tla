------------------------------- MODULE MC_Y13 -------------------------------
(* Insertion at every index of short texts. *)
EXTENDS Cases
U == {<<97>>, <<195, 169>>, <<204, 129>>}
W == {<<97>>, <<204, 129>>, <<128>>, <<226>>}
MCSeeds == Texts(U, K) \cup Texts(W, 2)
Xs == {<<>>, <<120>>, <<204, 128>>, <<240, 159, 152, 128>>, <<128>>}
Cs == {120, 769, 128512, 1114112, -1}
Prefix(s, a) == a[1] <= Len(s)
\* Something is inserted between two parts of the text that are what they were.
Between(s, r, x) == \E p \in 0..Len(s) : r = SubSeq(s, 1, p) \o x \o SubSeq(s, p + 1, Len(s))
Before(s, n, r) == SubSeq(r, 1, n)
MCTheorem(s) ==
    LET n == CountCps(s)
        m == Len(CharsOf(s))
    IN /\ \A x \in Xs \ {<<>>}, i \in 0..n :
             LET r == The(InsCpsR(s, i, x))[2]
             IN /\ Between(s, r, x)
                /\ (i < n => InsCpsR(s, i, x) = InsCpsR(s, i - n, x))
                /\ Slice(r, CpPos(s, i), CpPos(s, i) + Len(x)) = x
                \* The items before the insertion are as many as were asked for.
                /\ CountCps(Slice(r, 0, CpPos(s, i))) = i
       /\ \A i \in {n + 1, n + 2, -n - 1, -n - 2, HUGE, -HUGE, LEAST} :
             /\ Is(InsCpsR(s, i, <<120>>), THROW) /\ Is(InsCpR(s, i, 120), THROW) /\ Is(InsCpsR(s, i, <<>>), <<"ok", s>>)
       /\ \A i \in (-n)..n : InsCpR(s, i, 128512) = InsCpsR(s, i, Enc(128512)) /\ Is(InsCpR(s, i, 1114112), THROW)
       /\ Valid(s) =>
          /\ \A x \in Xs \ {<<>>}, i \in 0..m :
                LET r == The(InsCharsR(s, i, x))[2]
                IN Between(s, r, x) /\ (i < m => InsCharsR(s, i, x) = InsCharsR(s, i - m, x))
                   /\ r = Concat(SubSeq(CharsOf(s), 1, i)) \o x \o Concat(SubSeq(CharsOf(s), i + 1, m))
          /\ \A i \in {m + 1, m + 2, -m - 1, -m - 2} : Is(InsCharsR(s, i, <<120>>), THROW) /\ Is(InsCharR(s, i, 120), THROW)
MCScript(s) ==
    LET I == ((-Len(s) - 2)..(Len(s) + 2)) \cup {HUGE, -HUGE, LEAST}
    IN On(s, Concat(All(I \X Xs, LAMBDA p : <<<<"ins_cps", p[1], p[2]>>, <<"ins_chars", p[1], p[2]>>>>))
             \o Concat(All(I \X Cs, LAMBDA p : <<<<"ins_cp", p[1], p[2]>>, <<"ins_char", p[1], p[2]>>>>)))
=============================================================================
