------------------------------- MODULE MC_Y05 -------------------------------
(* Skipping partitions every window of every short byte string. *)
EXTENDS Cases
B == {65, 128, 195, 226, 240, 248}
Long == {q \o [i \in 1..n |-> 128] \o r : q \in {<<>>, <<65>>, <<195>>, <<240>>, <<255>>}, n \in 0..9,
                                          r \in {<<>>, <<65>>, <<226, 130>>}}
MCSeeds == Strings(B, K) \cup Long
RECURSIVE Steps(_, _, _)
Steps(s, p, hi) == IF p = hi THEN <<>> ELSE <<p>> \o Steps(s, SkipNext(s, p, hi), hi)
RECURSIVE StepsBack(_, _, _)
StepsBack(s, lo, p) == IF p = lo THEN <<>> ELSE <<SkipPrev(s, lo, p)>> \o StepsBack(s, lo, SkipPrev(s, lo, p))
Windows(s) == {<<lo, p>> \in (0..Len(s)) \X (0..Len(s)) : lo < p}
MCTheorem(s) == \A w \in Windows(s) :
    LET q == Steps(s, w[1], w[2])
    IN /\ q = Partition(s, w[1], w[2])
       /\ StepsBack(s, w[1], w[2]) = Rev(q)
       /\ LET f == Fwd(s, w[1], w[2]) IN ~f.bad => q = [k \in 1..Len(f.u) |-> f.u[k][1]]
       \* Every unit of the text that starts at a boundary is one sequence.
       /\ \A k \in 1..Len(q) : LET u == UnitAt(s, q[k], w[2])
                               IN u # <<>> => SkipNext(s, q[k], w[2]) = u[2]
MCScript(s) ==
    On(s, Concat(All(Windows(s), LAMBDA w :
       <<<<"skip_next", w[1], w[2]>>, <<"skip_prev", w[1], w[2]>>>>))
       \o <<<<"skip_next", 0, 0>>, <<"skip_prev", Len(s), Len(s)>>>>
       \o [k \in 1..(Len(s) + 1) |-> <<"remove">>] \o <<<<"view_set", 0, Len(s)>>>>
       \o [k \in 1..(Len(s) + 1) |-> <<"remove_last">>])
=============================================================================
