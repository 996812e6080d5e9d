------------------------------- MODULE MC_Y18 -------------------------------
(* Trimming of short texts at either end. *)
EXTENDS Cases
U == {<<32>>, <<9>>, <<97>>, <<226, 128, 131>>, <<194, 160>>}
W == {<<32>>, <<97>>, <<128>>, <<195>>}
MCSeeds == Texts(U, K) \cup Texts(W, 3) \cup Texts({<<10>>, <<13>>, <<11>>, <<120>>}, 2)
Ms == {<<"space">>, <<"in", <<32>>>>, <<"in", <<97>>>>, <<"in", <<>>>>, <<"in", <<8195, 32>>>>, <<"ge", <<128>>>>, <<"odd", <<>>>>,
       <<"in", <<32, 9, 97>>>>}
Cut(s, R) == LET r == The(R) IN Slice(s, r[2][1], r[2][1] + r[2][2])
Cps(s) == Points(Fwd(s, 0, Len(s)))
AllIn(s, m) == \A i \in 1..Len(Cps(s)) : Member(m, Cps(s)[i])
MCTheorem(s) == Valid(s) => \A m \in Ms :
    LET a == Cut(s, TrimStartR(s, m))
        b == Cut(s, TrimEndR(s, m))
        c == Cut(s, TrimR(s, m))
    IN /\ HasSuffix(s, a) /\ AllIn(Slice(s, 0, Len(s) - Len(a)), m) /\ (a # <<>> => ~Member(m, Cps(a)[1]))
       /\ HasPrefix(s, b) /\ AllIn(Slice(s, Len(b), Len(s)), m) /\ (b # <<>> => ~Member(m, Cps(b)[Len(Cps(b))]))
       /\ c = Cut(a, TrimEndR(a, m)) /\ c = Cut(b, TrimStartR(b, m)) /\ c = Cut(c, TrimR(c, m))
MCScript(s) == On(s, Concat(All(Ms, LAMBDA m : <<<<"trim_start", m>>, <<"trim_end", m>>, <<"trim", m>>>>)))
=============================================================================
