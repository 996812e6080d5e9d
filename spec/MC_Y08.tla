------------------------------- MODULE MC_Y08 -------------------------------
(* Code point search, well-formed or not, from every offset. *)
EXTENDS Cases
U == {<<65>>, <<66>>, <<195, 169>>, <<226, 130, 172>>, <<128>>, <<195>>}
MCSeeds == Texts(U, K) \cup {<<240, 159, 152, 128>> \o q : q \in Texts(U, 1)}
           \cup {q \o <<65, 240, 159>> : q \in Texts(U, 1)}
Ms == {<<"in", <<65>>>>, <<"in", <<8364, 233>>>>, <<"in", <<>>>>, <<"set", 0, <<66, 66, 128, 300>>>>,
       <<"set", 1, <<65, 70>>>>, <<"odd", <<>>>>, <<"ge", <<233>>>>, <<"in", <<66, 128512>>>>}
Ci == {<<"ci", <<97>>>>, <<"ci", <<201, 98>>>>, <<"ciset", 0, <<97, 97, 200, 203>>>>, <<"ciset", 1, <<98, 98>>>>}
\* A plain loop over the text.
RECURSIVE Walk(_, _, _)
Walk(s, m, p) == LET u == UnitAt(s, p, Len(s))
                 IN IF p = Len(s) THEN NOWHERE ELSE IF u = <<>> THEN THROW
                    ELSE IF Member(m, u[3]) THEN <<"ok", u[1], u[2] - u[1], u[3]>> ELSE Walk(s, m, u[2])
RECURSIVE WalkBack(_, _, _)
WalkBack(s, m, p) == LET u == UnitBefore(s, 0, p)
                     IN IF p = 0 THEN NOWHERE ELSE IF u = <<>> THEN THROW
                        ELSE IF Member(m, u[3]) THEN <<"ok", u[1], u[2] - u[1], u[3]>> ELSE WalkBack(s, m, u[1])
MCTheorem(s) == \A off \in 0..Len(s) :
    /\ \A m \in Ms \cup Ci : Is(FindFirstOfR(s, m, off), Walk(s, m, off)) /\ Is(FindLastOfR(s, m, off), WalkBack(s, m, off))
    \* A list and the set of its members are the same.
    /\ FindFirstOfR(s, <<"in", <<66, 233>>>>, off) = FindFirstOfR(s, <<"set", 0, <<66, 66, 233, 233>>>>, off)
    /\ FindLastOfR(s, <<"ci", <<98>>>>, off) = FindLastOfR(s, <<"in", <<98, 66>>>>, off)
MCScript(s) ==
    On(s, Concat(All(Ms \cup Ci, LAMBDA m :
        <<<<"fl", m, -1>>, <<"fl", m, Len(s) + 2>>>>
        \o Concat([o \in 1..(Len(s) + 1) |-> <<<<"ff", m, o - 1>>, <<"fl", m, o - 1>>>>])))
        \o <<<<"contains", 65>>, <<"contains", 233>>, <<"contains", 8364>>, <<"contains", 97>>, <<"contains", 128512>>>>)
=============================================================================
