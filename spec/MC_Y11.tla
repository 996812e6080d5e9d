------------------------------- MODULE MC_Y11 -------------------------------
(* Positions counted in byte sequences from both ends of any short text. *)
EXTENDS Cases
B == {65, 128, 195, 226, 240, 248}
U == {<<65>>, <<195, 169>>, <<226, 130, 172>>, <<240, 159, 152, 128>>}
MCSeeds == Strings(B, K) \cup Texts(U, 3) \cup {<<226, 130, 172>> \o q : q \in Strings(B, 2)}
RECURSIVE Steps(_, _)
Steps(s, p) == IF p = Len(s) THEN <<>> ELSE <<p>> \o Steps(s, SkipNext(s, p, Len(s)))
MCTheorem(s) ==
    LET q == Steps(s, 0)
        n == Len(q)
        next(i) == IF i = n THEN Len(s) ELSE q[i + 1]
    IN /\ CountCps(s) = n
       /\ \A i \in 1..n :
             /\ CpPos(s, i - 1) = q[i] /\ CpPos(s, i - 1 - n) = q[i]
             /\ LET r == CpAt(s, i - 1)
                    e == CpAt(s, i - 1 - n)
                    u == UnitAt(s, q[i], Len(s))
                IN /\ r = e
                   /\ r # THROW <=> (u # <<>> /\ u[2] = next(i))
                   /\ r # THROW => r = <<"ok", q[i], next(i) - q[i], u[3]>>
       /\ CpPos(s, n) = Len(s)
       /\ \A i \in 1..3 : CpPos(s, n + i) = NPOS /\ CpPos(s, -n - i) = NPOS
       /\ Valid(s) => n = Len(Fwd(s, 0, Len(s)).u)
Idx(s) == (-Len(s) - 2)..(Len(s) + 2)
MCScript(s) ==
    On(s, <<<<"count_cps">>>>
       \o Concat(All(Idx(s) \cup {HUGE, -HUGE, LEAST}, LAMBDA n : <<<<"cp_pos", n>>, <<"cp_at", n>>>>)))
=============================================================================
