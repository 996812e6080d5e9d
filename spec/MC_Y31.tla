------------------------------- MODULE MC_Y31 -------------------------------
(* Code point sets: all short histories of additions. *)
EXTENDS Explore
MCSeeds == {<<>>}
Probe == <<64, 65, 66, 67, 68, 97, 98, 107, 8490, 0, 1114111, 1114112, 223, 7838, 7900, 7901, MAX31, -MAX31 - 1, -1>>
Adds == {<<"set_range", 65, 67>>, <<"set_range", 68, 98>>, <<"set_range", 67, 66>>, <<"set_cp", 65>>, <<"set_cp", 66>>,
         <<"set_cp", 68>>, <<"set_cps", <<66, 67, 69>>>>, <<"set_cps", <<8490, 97>>>>, <<"set_cp", 107>>,
         <<"set_range", 7838, 7900>>, <<"set_cp", 0>>,
         <<"set_range", 0, -1>>, <<"set_cp", -1>>, <<"set_range", 1114111, MAX31>>, <<"set_cp", -MAX31 - 1>>,
         <<"set_range", -MAX31 - 1, MAX31>>}
Few == {<<"set_range", 65, 66>>, <<"set_range", 67, 66>>, <<"set_cp", 67>>, <<"set_cp", 66>>, <<"set_cps", <<68, 65>>>>}
MCMenu(s, h) ==
    LET last == h[Len(h)][1]
    IN IF last = "text" THEN {<<"set_new", 0>>, <<"set_new", 1>>}
       ELSE IF last = "set_has" THEN {<<"set_ci", Probe>>}
       ELSE IF last = "set_ci" THEN {<<"set_print">>}
       ELSE IF last = "set_print" THEN (IF Len(h) > 10 THEN {} ELSE {<<"set_neg", 0>>, <<"set_neg", 1>>})
       ELSE {<<"set_has", Probe>>} \cup
            (IF Len(h) < 5 THEN (IF Len(h) < 4 THEN Adds ELSE Few) ELSE {})
\* What was added, from the history alone.
Added(h) == {h[i] : i \in 1..Len(h)}
In(c, a) == \/ a[1] = "set_cp" /\ a[2] = c
            \/ a[1] = "set_range" /\ LeU(a[2], c) /\ LeU(c, a[3])
            \/ a[1] = "set_cps" /\ \E i \in 1..Len(a[2]) : a[2][i] = c
MCHolds(s, c, r, t) ==
    /\ c[1] \in {"set_has", "set_ci", "set_print"} => t.set = s.set
    /\ c[1] = "set_has" =>
         \A i \in 1..Len(Probe) :
           r[2][i] = (IF (\E a \in Added(hist) : In(Probe[i], a)) # (s.set.neg = 1) THEN 1 ELSE 0)
    /\ c[1] = "set_ci" =>
         \A i \in 1..Len(Probe) :
           r[2][i] = (IF (\E a \in Added(hist) : \E x \in SameUpper(Probe[i]) : In(x, a)) # (s.set.neg = 1) THEN 1 ELSE 0)
=============================================================================
