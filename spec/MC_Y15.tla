------------------------------- MODULE MC_Y15 -------------------------------
(* Replacement of occurrences: all short texts and patterns of two letters. *)
EXTENDS Cases
B == {97, 98}
MCSeeds == Strings(B, K) \cup Texts({<<195, 169>>, <<169>>, <<97>>}, 3)
           \cup {Concat([i \in 1..n |-> u]) : u \in {<<97>>, <<97, 98>>, <<97, 98, 97>>}, n \in 3..6}
Pats == Strings(B, 3) \cup {<<195, 169>>, <<169>>}
Tos == {<<>>, <<98>>, <<97, 97>>, <<97, 98, 97, 98>>}
Limits == {0, 1, 2, HUGE, -1, -2, -HUGE, LEAST}
\* By hand: find the first, replace it, go on after it.
RECURSIVE ByHand(_, _, _, _)
ByHand(s, p, t, n) ==
    LET r == The(FindFirstR(s, p, 0))
    IN IF n = 0 \/ r[3] = 0 THEN s
       ELSE Slice(s, 0, r[2]) \o t \o ByHand(Slice(s, r[2] + r[3], Len(s)), p, t, n - 1)
MCTheorem(s) == \A p \in Pats, n \in Limits :
    /\ Replace(s, p, p, n) = s
    /\ \A t \in Tos :
          /\ p = <<>> => Replace(s, p, t, n) = s
          /\ p # <<>> /\ n >= 0 => Replace(s, p, t, n) = ByHand(s, p, t, n)
          /\ Replace(s, p, t, n) = Rev(Replace(Rev(s), Rev(p), Rev(t), -n))
    /\ n = HUGE /\ p # <<>> => Len(Replace(s, p, <<>>, n)) = Len(s) - Len(p) * Len(Chosen(Ranges(Occurrences(s, p, 0, Len(s)), Len(p)), HUGE))
MCScript(s) ==
    On(s, All(Pats \X Limits, LAMBDA x : <<"replace", x[1], <<98>>, x[2]>>)
          \o All(Pats \X Tos, LAMBDA x : <<"replace", x[1], x[2], HUGE>>)
          \o All(Pats \X Tos, LAMBDA x : <<"replace", x[1], x[2], -2>>)
          \o All({97, 98, 233, -1, 1114112} \X Limits, LAMBDA x : <<"replace_cp", x[1], 233, x[2]>>)
          \o <<<<"replace_cp", 97, 1114112, HUGE>>, <<"replace_cp", 97, 97, 1>>, <<"replace_cp", 98, 0, -1>>>>)
=============================================================================
