------------------------------- MODULE MC_Y07 -------------------------------
(* Substring search: all short texts and patterns over two letters and a     *)
(* two-byte unit, from every offset.                                         *)
EXTENDS Cases
B == {97, 98}
Longer == {Concat([i \in 1..n |-> u]) \o e : u \in {<<97>>, <<97, 98>>, <<97, 97, 98>>}, n \in {3, 5, 8},
                                            e \in {<<>>, <<97>>, <<98, 97>>}}
MCSeeds == Strings(B, K) \cup Longer \cup Texts({<<195, 169>>, <<97>>, <<169>>}, 3)
Pats(s) == Strings(B, 3) \cup (IF Len(s) > 7 THEN {Slice(s, 1, Len(s)), Slice(s, 0, Len(s) - 1), Slice(s, 2, 7)} ELSE {})
           \cup {<<195, 169>>, <<169>>, s, s \o <<97>>}
Mirror(s, r) == IF r[3] = 0 THEN 0 ELSE Len(s) - r[2] - r[3]
MCTheorem(s) == \A p \in Pats(s) \ {<<>>} :
    /\ \A off \in 0..Len(s) :
          LET r == The(FindFirstR(s, p, off))
              hits == {a \in off..(Len(s) - Len(p)) : Slice(s, a, a + Len(p)) = p}
          IN /\ Cardinality(FindFirstR(s, p, off)) = 1
             /\ IF hits = {} THEN r = <<"ok", Len(s), 0>>
                ELSE r[2] \in hits /\ (\A a \in hits : a >= r[2]) /\ r[3] = Len(p)
             \* The last one before off is the mirror image of the first one in the reverse.
             /\ LET l == The(FindLastR(s, p, off))
                    m == The(FindFirstR(Rev(s), Rev(p), Len(s) - off))
                IN l[3] = m[3] /\ l[2] = Mirror(s, m)
    /\ Is(StartsWithR(s, p), <<"ok", 1>>) <=> (The(FindFirstR(s, p, 0))[2] = 0 /\ s # <<>>)
    /\ Is(EndsWithR(s, p), <<"ok", 1>>) <=> Is(StartsWithR(Rev(s), Rev(p)), <<"ok", 1>>)
MCScript(s) ==
    On(s, Concat(All(Pats(s), LAMBDA p :
        <<<<"starts_with", p>>, <<"ends_with", p>>, <<"find_last", p, -1>>, <<"find_last", p, Len(s) + 3>>>>
        \o Concat([o \in 1..(Len(s) + 1) |-> <<<<"find_first", p, o - 1>>, <<"find_last", p, o - 1>>>>]))))
=============================================================================
