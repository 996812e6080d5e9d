------------------------------- MODULE MC_Y23 -------------------------------
(* Case-insensitive search in short texts, from every offset. *)
EXTENDS Cases
U == {<<97>>, <<65>>, <<98>>, <<226, 132, 170>>, <<107>>}
W == {<<97>>, <<65>>, <<128>>, <<195>>}
MCSeeds == Texts(U, K) \cup Texts(W, 2) \cup Texts({<<195, 159>>, <<225, 186, 158>>, <<115>>}, 2)
           \cup {<<97, 65, 97, 97, 98, 65>>, <<107, 226, 132, 170, 75, 98>>}
Pats == {<<>>, <<97>>, <<65, 97>>, <<75>>, <<226, 132, 170>>, <<66>>, <<107, 97>>, <<195, 159>>, <<83>>, <<97, 97, 66>>, <<128>>, <<97, 195>>}
\* A slice between units that compares equal to the pattern.
Bounds(s) == {0} \cup {Fwd(s, 0, Len(s)).u[i][2] : i \in 1..Len(Fwd(s, 0, Len(s)).u)}
Hits(s, p, lo, hi) == {<<a, b>> \in Bounds(s) \X Bounds(s) : a >= lo /\ b <= hi /\ a < b /\ CiOrder(Slice(s, a, b), p) = {0}}
MCTheorem(s) == Valid(s) => \A p \in Pats : Valid(p) /\ p # <<>> =>
    /\ \A off \in Bounds(s) :
          LET r == The(CiFirst(s, p, off))
              h == Hits(s, p, off, Len(s))
              l == The(CiLast(s, p, off))
              g == Hits(s, p, 0, off)
          IN /\ Cardinality(CiFirst(s, p, off)) = 1
             /\ IF h = {} THEN r = CiNowhere ELSE <<r[2], r[2] + r[3]>> \in h /\ \A x \in h : x[1] >= r[2]
             /\ IF g = {} THEN l = CiNowhere ELSE <<l[2], l[2] + l[3]>> \in g /\ \A x \in g : x[2] <= l[2] + l[3]
    /\ Is(CiStartsWithR(s, p), <<"ok", 1>>) <=> \E x \in Hits(s, p, 0, Len(s)) : x[1] = 0
    /\ Is(CiEndsWithR(s, p), <<"ok", 1>>) <=> \E x \in Hits(s, p, 0, Len(s)) : x[2] = Len(s)
MCScript(s) ==
    On(s, Concat(All(Pats, LAMBDA p :
        <<<<"ci_starts", p>>, <<"ci_ends", p>>, <<"ci_last", p, -1>>, <<"ci_last", p, Len(s) + 1>>>>
        \o Concat([o \in 1..(Len(s) + 1) |-> <<<<"ci_first", p, o - 1>>, <<"ci_last", p, o - 1>>>>])))
        \o Concat(All({<<"ci", <<97>>>>, <<"ci", <<75>>>>, <<"ciset", 0, <<107, 107, 7838, 7838>>>>, <<"ciset", 1, <<65, 66>>>>}, LAMBDA m :
              <<<<"ff", m, 0>>, <<"fl", m, -1>>>>)))
=============================================================================
