------------------------------- MODULE MC_Y22 -------------------------------
(* The case-insensitive order of all pairs and triples of short texts. *)
EXTENDS Cases
U == {<<97>>, <<65>>, <<98>>, <<195, 159>>, <<226, 132, 170>>, <<107>>, <<196, 176>>, <<105>>}
W == {<<97>>, <<75>>, <<128>>, <<195>>}
A == Texts(U, 1) \cup Texts({<<97>>, <<65>>, <<98>>, <<225, 186, 158>>}, K)
T == Texts(W, 2)
MCSeeds == A \cup T \cup {<<91>>, <<95>>, <<96>>, <<123>>, <<194, 181>>, <<206, 188>>}
Ord(s, t) == The(CiOrder(s, t))
MCTheorem(s) ==
    /\ Valid(s) => Is(CiCompareR(s, s), <<"ok", 0>>)
    /\ s \in A => \A t \in A :
          /\ Cardinality(CiOrder(s, t)) = 1 /\ Ord(s, t) \in {-1, 0, 1}
          /\ Ord(t, s) = -Ord(s, t)
          /\ Ord(s, t) = 0 <=> The(LET f == Fwd(s, 0, Len(s)).u
                                       g == Fwd(t, 0, Len(t)).u
                                   IN {[i \in 1..Len(f) |-> ToUpper(f[i][3])] = [i \in 1..Len(g) |-> ToUpper(g[i][3])]})
          /\ \A u \in A : /\ Ord(s, t) <= 0 /\ Ord(t, u) <= 0 => Ord(s, u) <= 0
                          /\ Ord(s, t) = 0 => Ord(s, u) = Ord(t, u)
    \* The three answers agree, and so do the tests of prefixes.
    /\ \A t \in MCSeeds :
          /\ Is(CiEqualR(s, t), <<"ok", 1>>) <=> Is(CiCompareR(s, t), <<"ok", 0>>)
          /\ Is(CiLessR(s, t), <<"ok", 1>>) <=> Is(CiCompareR(s, t), <<"ok", -1>>)
          /\ (THROW \in CiLessR(s, t)) = (THROW \in CiCompareR(s, t))
MCScript(s) ==
    On(s, Concat(All(MCSeeds, LAMBDA t : <<<<"ci_compare", t>>, <<"ci_equal", t>>, <<"ci_less", t>>>>))
          \o (IF Valid(s) /\ s # <<>> THEN All({65, 97, 107, 8490, 223, 7838, 304, 305, 90, 91, 1114111, 65313, 66560},
                                 LAMBDA c : <<"ci_cp", UnitAt(s, 0, Len(s))[3], c>>) ELSE <<>>))
=============================================================================
