------------------------------- MODULE MC_Y19 -------------------------------
(* Reversal of short texts with combining marks. *)
EXTENDS Cases
U == {<<97>>, <<195, 169>>, <<204, 129>>, <<226, 131, 157>>, <<240, 159, 152, 128>>}
W == {<<97>>, <<204, 129>>, <<128>>, <<226, 130>>}
MCSeeds == Texts(U, K) \cup Texts(W, 3) \cup Texts({<<13>>, <<10>>, <<243, 160, 132, 128>>, <<98>>}, 3)
MCTheorem(s) ==
    IF ~Valid(s) THEN Is(ReverseR(s), THROW)
    ELSE LET r == ReverseText(s)
             f == Fwd(s, 0, Len(s)).u
         IN /\ Len(r) = Len(s) /\ Valid(r)
            /\ \A i \in 1..Len(s) : Len(SelectSeq(s, LAMBDA b : b = s[i])) = Len(SelectSeq(r, LAMBDA b : b = s[i]))
            \* Marks stay behind what they combine with.
            /\ (f # <<>> /\ ~IsMark(f[1][3])) => /\ CharsOf(r) = Rev(CharsOf(s))
                                                 /\ ReverseText(r) = s
            /\ (\A i \in 1..Len(f) : ~IsMark(f[i][3])) => Points(Fwd(r, 0, Len(r))) = Rev(Points(Fwd(s, 0, Len(s))))
MCScript(s) == On(s, <<<<"reverse">>, <<"keep">>, <<"reverse">>, <<"keep">>, <<"reverse">>>>)
=============================================================================
