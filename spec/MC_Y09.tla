------------------------------- MODULE MC_Y09 -------------------------------
(* Newlines: every short text of letters and newlines. *)
EXTENDS Cases
U == {<<97>>, <<10>>, <<13>>, <<194, 133>>, <<226, 128, 168>>}
V == {<<97>>, <<11>>, <<12>>, <<10>>, <<226, 128, 169>>, <<13>>, <<195, 169>>}
W == {<<10>>, <<13>>, <<128>>, <<97>>}
MCSeeds == Texts(U, K) \cup Texts(V, 2) \cup Texts(W, 3)
NL == {<<10>>, <<11>>, <<12>>, <<13>>, <<13, 10>>, <<194, 133>>, <<226, 128, 168>>, <<226, 128, 169>>}
RECURSIVE Firsts(_, _)
Firsts(s, p) == LET r == The(FirstNewline(s, p))
                IN IF r[3] = 0 THEN <<>> ELSE <<<<r[2], r[2] + r[3]>>>> \o Firsts(s, r[2] + r[3])
RECURSIVE Lasts(_, _)
Lasts(s, p) == LET r == The(LastNewline(s, p))
               IN IF r[3] = 0 THEN <<>> ELSE Lasts(s, r[2]) \o <<<<r[2], r[2] + r[3]>>>>
MCTheorem(s) == Valid(s) =>
    LET t == Firsts(s, 0)
        k == Len(t)
        start(i) == IF i = 1 THEN 0 ELSE t[i - 1][2]
        stop(i) == IF i > k THEN Len(s) ELSE t[i][1]
        parts == [i \in 1..(k + 1) |-> Slice(s, start(i), stop(i))]
    IN /\ Lasts(s, Len(s)) = t
       /\ \A i \in 1..k : Slice(s, t[i][1], t[i][2]) \in NL
       /\ \A i \in 1..(k + 1) : The(FirstNewline(parts[i], 0))[3] = 0
       \* CR and LF are never put asunder.
       /\ \A i \in 1..k : ~(t[i][1] > 0 /\ s[t[i][1]] = 13 /\ s[t[i][1] + 1] = 10)
       /\ The(SplitR(<<"nl">>, s, HUGE, 0))[2] = [i \in 1..(k + 1) |-> View(start(i), stop(i))]
       /\ Cardinality(SplitR(<<"nl">>, s, HUGE, 0)) = 1
MCScript(s) ==
    On(s, Concat([o \in 1..(Len(s) + 1) |-> <<<<"ffnl", o - 1>>, <<"flnl", o - 1>>>>])
        \o <<<<"flnl", -1>>, <<"flnl", Len(s) + 1>>>>
        \o Concat(All({-1, 0, 1, 2}, LAMBDA m : <<<<"split", <<"nl">>, m, 0>>, <<"split", <<"nl">>, m, 1>>>>))
        \o <<<<"tok_new", <<"nl">>>>>> \o [i \in 1..(Len(s) + 2) |-> <<"tok_next">>])
=============================================================================
