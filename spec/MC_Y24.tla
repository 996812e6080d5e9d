------------------------------- MODULE MC_Y24 -------------------------------
(* Case-insensitive replacing and splitting of short texts. *)
EXTENDS Cases
U == {<<97>>, <<65>>, <<107>>, <<226, 132, 170>>}
W == {<<97>>, <<65>>, <<128>>}
MCSeeds == Texts(U, K) \cup Texts(W, 2) \cup Texts({<<195, 159>>, <<225, 186, 158>>, <<46>>}, 2) \cup {<<97, 65, 97, 97, 46, 65, 97>>}
Pats == {<<>>, <<97>>, <<65, 97>>, <<75>>, <<107, 65>>, <<195, 159>>, <<97, 65, 97>>, <<128>>}
Limits == {0, 1, 2, HUGE, -1, -2, -HUGE, LEAST}
Fold(s) == LET f == Fwd(s, 0, Len(s)).u IN Concat([i \in 1..Len(f) |-> <<ToUpper(f[i][3])>>])
\* On code points rather than bytes, case folding first makes it plain replacement.
MCTheorem(s) == Valid(s) => \A p \in Pats : Valid(p) =>
    /\ \A n \in Limits : Is(CiReplaceR(s, p, <<>>, n) , The(CiReplaceR(s, p, <<>>, n)))
         /\ Fold(The(CiReplaceR(s, p, <<33>>, n))[2]) = Replace(Fold(s), Fold(p), <<33>>, n)
    /\ \A n \in {0, 1, 2, HUGE}, d \in {0, 1} :
         LET v == The(CiSplitR(<<"cistr", p>>, s, n, d))[2]
             w == The(SplitR(<<"str", Fold(p)>>, Fold(s), n, d))[2]
         IN /\ Len(v) = Len(w)
            /\ \A i \in 1..Len(v) : Fold(Slice(s, v[i][1], v[i][1] + v[i][2])) = Slice(Fold(s), w[i][1], w[i][1] + w[i][2])
MCScript(s) ==
    On(s, All(Pats \X Limits, LAMBDA x : <<"ci_replace", x[1], <<120>>, x[2]>>)
          \o All(Pats, LAMBDA x : <<"ci_replace", x, <<65, 97>>, HUGE>>)
          \o All(Pats \X {-1, 0, 1, 2} \X {0, 1}, LAMBDA x : <<"split", <<"cistr", x[1]>>, x[2], x[3]>>)
          \o All({<<97>>, <<75, 223>>, <<8490>>} \X {-1, 1} \X {0, 1}, LAMBDA x : <<"split", <<"ciof", x[1]>>, x[2], x[3]>>))
=============================================================================
