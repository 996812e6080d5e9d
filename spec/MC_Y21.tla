------------------------------- MODULE MC_Y21 -------------------------------
(* Case conversion of short texts. *)
EXTENDS Cases
U == {<<97>>, <<66>>, <<195, 159>>, <<199, 134>>, <<32>>, <<204, 129>>}
W == {<<97>>, <<65>>, <<128>>, <<195>>, <<247, 191, 191, 191>>, <<237, 160, 128>>}
X == {<<225, 186, 158>>, <<196, 176>>, <<196, 177>>, <<207, 130>>, <<240, 144, 144, 168>>, <<115>>, <<194, 181>>, <<39>>}
MCSeeds == Texts(U, K) \cup Texts(W, 2) \cup Texts(X, 2)
Vs == {<<>>, <<98, 67>>, <<195, 159>>, <<32, 98>>}
Out(R) == The(R)[2]
MCTheorem(s) ==
    IF \A R \in {LowerR(s), UpperR(s), TitleR(s)} : ~Is(R, THROW)
    THEN /\ \A v \in Vs : /\ Out(LowerR(s \o v)) = Out(LowerR(s)) \o Out(LowerR(v))
                          /\ Out(UpperR(s \o v)) = Out(UpperR(s)) \o Out(UpperR(v))
                          /\ Out(UpperR(v \o s)) = Out(UpperR(v)) \o Out(UpperR(s))
                          \* Words do not influence each other.
                          /\ Out(TitleR(s \o <<46>> \o v)) = Out(TitleR(s)) \o <<46>> \o Out(TitleR(v))
         /\ Out(LowerR(Out(LowerR(s)))) = Out(LowerR(s))
         /\ Out(UpperR(Out(UpperR(s)))) = Out(UpperR(s))
         \* Within a word all but the first letter are in lower case.
         /\ Valid(s) => LET t == TitleR(<<97>> \o s)
                            f == Fwd(s, 0, Len(s)).u
                        IN (\A i \in 1..Len(f) : IsLetter(f[i][3])) => Is(t, <<"ok", <<65>> \o Out(LowerR(s))>>)
    ELSE ~Valid(s) \/ \E i \in 1..Len(Fwd(s, 0, Len(s)).u) : ~Encodable(Fwd(s, 0, Len(s)).u[i][3])
MCScript(s) ==
    On(s, <<<<"lower">>, <<"upper">>, <<"title">>, <<"keep">>, <<"lower">>, <<"upper">>, <<"keep">>, <<"title">>>>)
=============================================================================
