------------------------------- MODULE MC_Y06 -------------------------------
(* Validation and repair of every short byte string. *)
EXTENDS Cases
B == {65, 128, 191, 195, 226, 240, 248}
MCSeeds == Strings(B, K) \cup {q \o <<a, b>> \o r : q \in {<<240, 159, 152>>, <<226, 130>>, <<128, 128, 128, 128>>},
                                 a, b \in B, r \in {<<>>, <<65>>, <<128>>}}
\* Valid is a concatenation of units, in the plainest terms.
RECURSIVE IsConcat(_, _)
IsConcat(s, p) == p = Len(s) \/ \E n \in 1..4 : UnitLen(s, p, Len(s)) = n /\ IsConcat(s, p + n)
\* Well-formed units of the partition, in order, are those of the repaired text but for the marks.
Kept(s) == LET q == Partition(s, 0, Len(s))
               u == [i \in 1..Len(q) |-> LET e == IF i < Len(q) THEN q[i + 1] ELSE Len(s)
                                         IN IF UnitLen(s, q[i], Len(s)) = e - q[i] THEN Slice(s, q[i], e) ELSE <<0>>]
           IN SelectSeq(u, LAMBDA x : x # <<0>>)
MCTheorem(s) ==
    LET r == Repair(s, 0)
        f == Fwd(r, 0, Len(r))
    IN /\ Valid(s) <=> IsConcat(s, 0)
       /\ Valid(r) /\ Repair(r, 63) = r
       /\ Valid(s) <=> Repair(s, 63) = s \/ s = <<>>
       /\ [i \in 1..Len(SelectSeq(f.u, LAMBDA u : u[3] # 0)) |->
             LET u == SelectSeq(f.u, LAMBDA x : x[3] # 0)[i] IN Slice(r, u[1], u[2])] = Kept(s)
       /\ Len(f.u) = CountCps(s)
MCScript(s) == On(s, <<<<"is_valid">>, <<"repair", 65533>>, <<"repair_in", 63>>, <<"repair", 128512>>,
                       <<"repair_in", 65533>>, <<"keep">>, <<"is_valid">>, <<"repair", 63>>>>)
=============================================================================
